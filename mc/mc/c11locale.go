package main

import gjs "github.com/xeipuuv/gojsonschema"

// Reference texts of the default locale, written down from the documentation of the library
// (the checker compares the library with this table, it does not read it from the library).

var defaultTexts = map[string]string{
	"False":                        "False always fails validation",
	"Required":                     `{{.property}} is required`,
	"InvalidType":                  `Invalid type. Expected: {{.expected}}, given: {{.given}}`,
	"NumberAnyOf":                  `Must validate at least one schema (anyOf)`,
	"NumberOneOf":                  `Must validate one and only one schema (oneOf)`,
	"NumberAllOf":                  `Must validate all the schemas (allOf)`,
	"NumberNot":                    `Must not validate the schema (not)`,
	"MissingDependency":            `Has a dependency on {{.dependency}}`,
	"Internal":                     `Internal Error {{.error}}`,
	"Const":                        `{{.field}} does not match: {{.allowed}}`,
	"Enum":                         `{{.field}} must be one of the following: {{.allowed}}`,
	"ArrayNoAdditionalItems":       `No additional items allowed on array`,
	"ArrayNotEnoughItems":          `Not enough items on array to match positional list of schema`,
	"ArrayMinItems":                `Array must have at least {{.min}} items`,
	"ArrayMaxItems":                `Array must have at most {{.max}} items`,
	"Unique":                       `{{.type}} items[{{.i}},{{.j}}] must be unique`,
	"ArrayContains":                `At least one of the items must match`,
	"ArrayMinProperties":           `Must have at least {{.min}} properties`,
	"ArrayMaxProperties":           `Must have at most {{.max}} properties`,
	"AdditionalPropertyNotAllowed": `Additional property {{.property}} is not allowed`,
	"InvalidPropertyPattern":       `Property "{{.property}}" does not match pattern {{.pattern}}`,
	"InvalidPropertyName":          `Property name of "{{.property}}" does not match`,
	"StringGTE":                    `String length must be greater than or equal to {{.min}}`,
	"StringLTE":                    `String length must be less than or equal to {{.max}}`,
	"DoesNotMatchPattern":          `Does not match pattern '{{.pattern}}'`,
	"DoesNotMatchFormat":           `Does not match format '{{.format}}'`,
	"MultipleOf":                   `Must be a multiple of {{.multiple}}`,
	"NumberGTE":                    `Must be greater than or equal to {{.min}}`,
	"NumberGT":                     `Must be greater than {{.min}}`,
	"NumberLTE":                    `Must be less than or equal to {{.max}}`,
	"NumberLT":                     `Must be less than {{.max}}`,
	"RegexPattern":                 `Invalid regex pattern '{{.pattern}}'`,
	"GreaterThanZero":              `{{.number}} must be strictly greater than 0`,
	"MustBeOfA":                    `{{.x}} must be of a {{.y}}`,
	"MustBeOfAn":                   `{{.x}} must be of an {{.y}}`,
	"CannotBeUsedWithout":          `{{.x}} cannot be used without {{.y}}`,
	"CannotBeGT":                   `{{.x}} cannot be greater than {{.y}}`,
	"MustBeOfType":                 `{{.key}} must be of type {{.type}}`,
	"MustBeValidRegex":             `{{.key}} must be a valid regex`,
	"MustBeValidFormat":            `{{.key}} must be a valid format {{.given}}`,
	"MustBeGTEZero":                `{{.key}} must be greater than or equal to 0`,
	"KeyCannotBeGreaterThan":       `{{.key}} cannot be greater than {{.y}}`,
	"KeyItemsMustBeOfType":         `{{.key}} items must be {{.type}}`,
	"KeyItemsMustBeUnique":         `{{.key}} items must be unique`,
	"ReferenceMustBeCanonical":     `Reference {{.reference}} must be canonical`,
	"NotAValidType":                `has a primitive type that is NOT VALID -- given: {{.given}} Expected valid values are:{{.expected}}`,
	"Duplicated":                   `{{.type}} type is duplicated`,
	"HttpBadStatus":                `Could not read schema from HTTP, response status is {{.status}}`,
	"ErrorFormat":                  `{{.field}}: {{.description}}`,
	"ParseError":                   `Expected: {{.expected}}, given: Invalid JSON`,
	"ConditionThen":                `Must validate "then" as "if" was valid`,
	"ConditionElse":                `Must validate "else" as "if" was not valid`,
}

// taggedLocale answers every request with a template that names the request and prints all details.
type taggedLocale struct {
	gjs.DefaultLocale
	tag, format string
	fresh       string // default texts, but a comment makes every template a new one
}

func (l taggedLocale) False() string                  { return l.tpl("False") }
func (l taggedLocale) Required() string               { return l.tpl("Required") }
func (l taggedLocale) InvalidType() string            { return l.tpl("InvalidType") }
func (l taggedLocale) NumberAnyOf() string            { return l.tpl("NumberAnyOf") }
func (l taggedLocale) NumberOneOf() string            { return l.tpl("NumberOneOf") }
func (l taggedLocale) NumberAllOf() string            { return l.tpl("NumberAllOf") }
func (l taggedLocale) NumberNot() string              { return l.tpl("NumberNot") }
func (l taggedLocale) MissingDependency() string      { return l.tpl("MissingDependency") }
func (l taggedLocale) Internal() string               { return l.tpl("Internal") }
func (l taggedLocale) Const() string                  { return l.tpl("Const") }
func (l taggedLocale) Enum() string                   { return l.tpl("Enum") }
func (l taggedLocale) ArrayNoAdditionalItems() string { return l.tpl("ArrayNoAdditionalItems") }
func (l taggedLocale) ArrayNotEnoughItems() string    { return l.tpl("ArrayNotEnoughItems") }
func (l taggedLocale) ArrayMinItems() string          { return l.tpl("ArrayMinItems") }
func (l taggedLocale) ArrayMaxItems() string          { return l.tpl("ArrayMaxItems") }
func (l taggedLocale) Unique() string                 { return l.tpl("Unique") }
func (l taggedLocale) ArrayContains() string          { return l.tpl("ArrayContains") }
func (l taggedLocale) ArrayMinProperties() string     { return l.tpl("ArrayMinProperties") }
func (l taggedLocale) ArrayMaxProperties() string     { return l.tpl("ArrayMaxProperties") }
func (l taggedLocale) AdditionalPropertyNotAllowed() string {
	return l.tpl("AdditionalPropertyNotAllowed")
}
func (l taggedLocale) InvalidPropertyPattern() string   { return l.tpl("InvalidPropertyPattern") }
func (l taggedLocale) InvalidPropertyName() string      { return l.tpl("InvalidPropertyName") }
func (l taggedLocale) StringGTE() string                { return l.tpl("StringGTE") }
func (l taggedLocale) StringLTE() string                { return l.tpl("StringLTE") }
func (l taggedLocale) DoesNotMatchPattern() string      { return l.tpl("DoesNotMatchPattern") }
func (l taggedLocale) DoesNotMatchFormat() string       { return l.tpl("DoesNotMatchFormat") }
func (l taggedLocale) MultipleOf() string               { return l.tpl("MultipleOf") }
func (l taggedLocale) NumberGTE() string                { return l.tpl("NumberGTE") }
func (l taggedLocale) NumberGT() string                 { return l.tpl("NumberGT") }
func (l taggedLocale) NumberLTE() string                { return l.tpl("NumberLTE") }
func (l taggedLocale) NumberLT() string                 { return l.tpl("NumberLT") }
func (l taggedLocale) RegexPattern() string             { return l.tpl("RegexPattern") }
func (l taggedLocale) GreaterThanZero() string          { return l.tpl("GreaterThanZero") }
func (l taggedLocale) MustBeOfA() string                { return l.tpl("MustBeOfA") }
func (l taggedLocale) MustBeOfAn() string               { return l.tpl("MustBeOfAn") }
func (l taggedLocale) CannotBeUsedWithout() string      { return l.tpl("CannotBeUsedWithout") }
func (l taggedLocale) CannotBeGT() string               { return l.tpl("CannotBeGT") }
func (l taggedLocale) MustBeOfType() string             { return l.tpl("MustBeOfType") }
func (l taggedLocale) MustBeValidRegex() string         { return l.tpl("MustBeValidRegex") }
func (l taggedLocale) MustBeValidFormat() string        { return l.tpl("MustBeValidFormat") }
func (l taggedLocale) MustBeGTEZero() string            { return l.tpl("MustBeGTEZero") }
func (l taggedLocale) KeyCannotBeGreaterThan() string   { return l.tpl("KeyCannotBeGreaterThan") }
func (l taggedLocale) KeyItemsMustBeOfType() string     { return l.tpl("KeyItemsMustBeOfType") }
func (l taggedLocale) KeyItemsMustBeUnique() string     { return l.tpl("KeyItemsMustBeUnique") }
func (l taggedLocale) ReferenceMustBeCanonical() string { return l.tpl("ReferenceMustBeCanonical") }
func (l taggedLocale) NotAValidType() string            { return l.tpl("NotAValidType") }
func (l taggedLocale) Duplicated() string               { return l.tpl("Duplicated") }
func (l taggedLocale) HttpBadStatus() string            { return l.tpl("HttpBadStatus") }
func (l taggedLocale) ErrorFormat() string              { return l.format }
func (l taggedLocale) ParseError() string               { return l.tpl("ParseError") }
func (l taggedLocale) ConditionThen() string            { return l.tpl("ConditionThen") }
func (l taggedLocale) ConditionElse() string            { return l.tpl("ConditionElse") }
