#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements stay reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(zip(("name","meaning","where"),s)) for s in state],
                   mechanism=[dict(zip(("name","where"),m)) for m in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Value keywords give exactly the verdict JSON Schema prescribes",
"For every schema made of the value keywords (type, enum, const, minimum, maximum, exclusiveMinimum, exclusiveMaximum, multipleOf, minLength, maxLength, pattern) and every JSON document, the document is reported valid exactly when the JSON Schema draft in force says it is. Numbers are compared by exact mathematical value whatever their notation, magnitude or precision, equality is deep JSON equality, and string length counts Unicode code points. A keyword meant for one JSON type never constrains values of another type, and several keywords in one schema constrain independently, wherever the schema is placed inside a larger schema.",
["inputs"],"every combination of value keywords, every keyword argument, every JSON document, every draft, every place a subschema can occur",
"TestSuite samples a few dozen schema/document pairs per keyword, almost all with small integers, ASCII strings and one keyword per schema; the verdict must be right for every argument, notation, boundary and combination.",
["validation.go","utils.go","schemaType.go","schema.go"],
[("per-kind dispatch and type check","validation.go validateRecursive"),("exact rational comparison","validation.go validateNumber"),("canonical text used for equality","utils.go marshalWithoutNumber"),("rune counting and regexp match","validation.go validateString")],
observe=["Schema.Validate(..).Valid()"])

p("C02","Array keywords give exactly the verdict JSON Schema prescribes",
"For every schema made of items (one schema or a list), additionalItems, minItems, maxItems, uniqueItems and contains, and every JSON document, the document is reported valid exactly when the JSON Schema draft in force says it is. Each array element is judged by exactly the subschema the draft assigns to its index, and uniqueness is deep JSON equality over all pairs of elements. Non-array values are never constrained by these keywords.",
["inputs"],"every combination of the array keywords and their arguments, every array length and content, every draft",
"The suite checks arrays of at most three elements against single keywords; index assignment, interaction of items/additionalItems/contains and uniqueness over all pairs must hold for all lengths and combinations.",
["validation.go","schema.go"],
[("index by index subschema assignment","validation.go validateArray"),("parsing of items/additionalItems/contains","schema.go parseSchema")],
observe=["Schema.Validate(..).Valid()"])

p("C03","Object keywords give exactly the verdict JSON Schema prescribes",
"For every schema made of properties, patternProperties, additionalProperties, required, dependencies, propertyNames, minProperties and maxProperties, and every JSON document, the document is reported valid exactly when the JSON Schema draft in force says it is. Every member is judged by every properties and patternProperties entry that names or matches it, and by additionalProperties exactly when none does. Member names are arbitrary strings (empty, non-ASCII, dotted, equal to keywords) and non-object values are never constrained by these keywords.",
["inputs"],"every combination of object keywords and arguments, every set of member names and values, every draft",
"The suite checks one or two keywords at a time with plain ASCII names; which subschemas apply to a member depends on the whole combination of keywords and names.",
["validation.go","schema.go"],
[("member coverage by properties / patternProperties / additionalProperties","validation.go validateObject, validatePatternProperty"),("recursion into properties","validation.go validateRecursive"),("dependencies","validation.go validateSchema; schema.go parseDependencies")],
observe=["Schema.Validate(..).Valid()"])

p("C04","Combinators, conditionals and boolean schemas obey Boolean semantics",
"For every nesting of allOf, anyOf, oneOf, not, if/then/else and boolean schemas over arbitrary subschemas, and every JSON document, the verdict is the Boolean combination of the verdicts of the subschemas that the draft in force prescribes: all, at least one, exactly one, none, or the selected branch. A branch that was only tried (a failing alternative, a negated schema, a condition) never makes an otherwise valid document invalid, nor the other way round. Combinators apply to documents of every JSON type and together with all sibling keywords.",
["inputs"],"every nesting and number of branches of combinators, every mixture with sibling keywords, every document, every draft",
"The suite tests two-branch combinators one at a time; results of tried branches must be isolated from the final verdict for every nesting and number of branches.",
["validation.go","schema.go","result.go"],
[("branch evaluation with separate results","validation.go validateSchema, subValidateWithContext"),("merging of branch errors","result.go mergeErrors"),("boolean schemas","schema.go parseSchema; validation.go validateRecursive")],
observe=["Schema.Validate(..).Valid()"])

p("C05","$ref resolves to the one schema its URI identifies within a document",
"For every schema document, a $ref behaves exactly as the subschema identified by its value resolved against the base URI in force where it occurs: JSON pointers (with ~ and percent escapes and array indices), nested and relative $id/id bases, and plain-name fragments, including references that are recursive or that pass through other references. Keywords next to a $ref are ignored, and text that merely looks like a reference or an identifier inside const, enum or as a property name is data. A reference that identifies nothing makes compilation fail; it never resolves to some other schema.",
["inputs"],"every placement of identifiers and references in a document, every URI form, every document validated",
"The suite has a few dozen fixed reference layouts; resolution depends on the combination of base URIs on the path, pointer syntax, position of the reference and order in which references are met.",
["schemaPool.go","schemaReferencePool.go","schema.go"],
[("absolutising $ref and registering ids","schemaPool.go parseReferencesRecursive"),("lookup by id, then by pointer","schemaPool.go GetDocument"),("cache of parsed targets, recursion","schema.go parseReference; schemaReferencePool.go")],
state=[("identifier pool","absolute URI -> schema document","schemaPool.go schemaPoolDocuments"),("reference pool","absolute URI -> parsed schema, per compilation","schemaReferencePool.go documents")],
observe=["NewSchema error","Schema.Validate(..).Valid()"])

p("C06","A schema loader resolves references by the documents registered with it",
"For every sequence of AddSchema, AddSchemas and Compile calls on a schema loader, every reference to a URL or $id registered before the Compile resolves to exactly the registered document (or the part of it its fragment identifies), in any order of registration, without being fetched; other absolute references are fetched from their location and relative ones against the referring document. Registering a URL or identifier that is already registered is an error and never changes what it means. Schemas compiled earlier keep their meaning, and different loaders never influence each other.",
["histories","inputs","fault_sequences"],"every sequence of registrations and compilations, successful or failing, every assignment of documents to URLs, every order",
"Seven fixed call sequences are tested; the meaning of a reference must be independent of registration order, of earlier successful or failed calls, of earlier compilations and of whether a document was registered, cached or fetched.",
["schemaLoader.go","schemaPool.go","jsonLoader.go"],
[("registration with duplicate detection","schemaPool.go parseReferences"),("pool lookup before fetch","schemaPool.go GetDocument"),("loader factory of the root schema","schemaLoader.go Compile")],
state=[("identifier pool","documents known to the loader","schemaPool.go schemaPoolDocuments"),("loader factory","how unknown references are fetched","schemaPool.go jsonLoaderFactory")],
observe=["AddSchema/AddSchemas/Compile errors","files opened and HTTP requests made","Schema.Validate(..).Valid()"])

p("C07","The draft in force is selected as documented and decides which keywords act",
"With autodetection on, a document that declares a known $schema is interpreted strictly by that draft, whatever draft is configured; otherwise (no or unknown $schema, or autodetection off) by the configured draft, or by the hybrid mode that merges all drafts. A document reached by reference follows its own declared draft when autodetection is on, so that schemas of different drafts can reference each other in either direction. Keywords that do not exist in the draft in force have no effect, and keywords whose form changed between drafts follow the form of that draft.",
["inputs","configurations"],"every combination of configured draft, autodetection, $schema spelling, draft-specific keyword, nesting and cross-reference",
"TestSchemaDetection and TestDraftCrossReferencing probe a single keyword (exclusiveMinimum) in a handful of configurations.",
["draft.go","schemaLoader.go","schema.go","schemaPool.go"],
[("$schema detection","draft.go parseSchemaURL"),("draft of root and referenced documents","schemaLoader.go Compile; schema.go parseReference; schemaPool.go GetDocument"),("draft-gated keywords","schema.go parseSchema")],
observe=["Compile error","Schema.Validate(..).Valid()"])

p("C08","Compilation rejects malformed schemas and accepts well-formed ones",
"A schema in which a keyword of the draft in force has a value of the wrong JSON type or outside its legal range (a negative or fractional count, a non-positive multipleOf, an invalid regular expression, an unknown or duplicate type name, duplicate required or enum entries, minLength above maxLength or minProperties above maxProperties, a non-schema where a schema belongs) is rejected by compilation with an error, wherever in the document the schema is nested. A schema that its draft's meta-schema allows is accepted whatever other keywords, annotations or unknown keywords it contains. Rejection yields no usable schema, and it never depends on the order of keywords.",
["inputs"],"every keyword, every JSON value given to it, every nesting position, every draft",
"Only two malformed schemas are tested (a non-string pattern and a non-object root); each of some forty keywords has its own value domain and each nesting position its own parsing path.",
["schema.go","schemaType.go","utils.go"],
[("per keyword checks","schema.go parseSchema, parseProperties, parseDependencies"),("type names","schemaType.go Add"),("integer and number extraction","utils.go mustBeInteger, mustBeNumber")],
observe=["NewSchema / Compile error"])

p("C09","Meta-schema validation admits exactly the schemas their meta-schema admits",
"With meta-schema validation enabled, AddSchema, AddSchemas and Compile report an error for every schema that violates the meta-schema it declares through $schema (a custom one included), or, without one, the meta-schema of the configured draft; schemas that conform are never rejected because of it. In hybrid mode without $schema no meta-schema applies. Enabling it changes nothing else: the setting stays enabled for later calls whatever earlier calls returned, and references still load and resolve as without it.",
["inputs","histories","configurations"],"every schema document, every way of selecting the meta-schema, every sequence of accepted and rejected schemas on one loader",
"Two custom meta-schema cases are tested and the suite only contains conforming schemas; that every violation is caught for every keyword, and that a rejection leaves the loader working, is not.",
["schemaLoader.go","draft.go","validation.go"],
[("meta-schema selection and check","schemaLoader.go validateMetaschema"),("embedded meta-schemas","draft.go init"),("serving of embedded meta-schemas","jsonLoader.go loadFromHTTP")],
state=[("Validate flag","switched off while the meta-schema is compiled","schemaLoader.go")],
observe=["AddSchema/AddSchemas/Compile error","SchemaLoader fields","embedded meta-schema documents"])

p("C10","Reported errors are exactly the violations, located at the right place",
"A result is valid exactly when it has no errors. For every schema and document, each violated assertion that is not inside a tried alternative is reported exactly once, with the error type of that keyword, the context path of the value it is about, that value, and details that state the actual limit, property, type or index; a wrong type hides the other assertions of the same schema on the same value. A failing combinator, condition or contains adds its own error, together with the errors of its failing branches (allOf, then, else, property names) or of exactly one failing alternative (anyOf, oneOf, contains); nothing else is ever reported.",
["inputs"],"every schema, every document, every set of simultaneously violated keywords at every depth",
"Tests look at the errors of five documents; the whole set of errors with its paths, values and details must be right for every combination of violated keywords at every depth.",
["validation.go","result.go","errors.go","jsonContext.go"],
[("error creation","result.go addInternalError; errors.go newError"),("context paths","jsonContext.go; validation.go"),("merging of branch errors","validation.go validateSchema, validateArray, validateObject")],
observe=["Result.Errors(): Type, Context, Field, Value, Details"])

p("C11","Errors render from the locale and details, and custom errors fit in",
"Every validation and compilation error text is the locale's template for that kind of error, rendered with that error's details: with the default locale it names the limit, property, type or pattern concerned, with a replaced locale or added template functions it is exactly the replacement's rendering, whatever was rendered before. Every error carries its field and context in its details, a field is the context path without the root, and the context path can be printed with any delimiter. Errors added by the user keep their type, value and details, are rendered from their own template and make the result invalid.",
["inputs","histories","configurations"],"every error type, every context path, every locale and template function set, every sequence of locale changes and renderings",
"One error message is tested; the rendering goes through a process-wide template cache and per error type tables of some thirty entries.",
["errors.go","locales.go","result.go","jsonContext.go"],
[("template cache","errors.go formatErrorDescription"),("per type template selection","errors.go newError"),("user errors","result.go AddError"),("path rendering","jsonContext.go String")],
state=[("template cache","parsed templates by their text","errors.go errorTemplates"),("Locale, ErrorTemplateFuncs","process-wide settings","schema.go")],
observe=["ResultError Description, DescriptionFormat, String, Details","error.Error()"])

p("C12","Compiling and validating are deterministic, repeatable and free of side effects",
"The outcome of compiling a schema and of validating a document (verdict and set of errors) is a function of the schema, document and settings alone: it is the same for every iteration order of the objects involved, on every repetition, and whatever was compiled or validated before with the same or other schemas. Neither operation modifies the Go values handed in by the caller, and later changes the caller makes to a schema value it passed in do not change a compiled schema. Results already returned never change.",
["inputs","histories"],"every object iteration order, every sequence of compilations and validations over shared schemas, documents and loaders",
"Tests run each case once in one order per process; Go randomises map iteration, and compiled schemas, caches and pools are shared between calls.",
["validation.go","schema.go","schemaPool.go","schemaLoader.go","jsonLoader.go","errors.go"],
[("separate result per validation","validation.go validateDocument, subValidateWithContext"),("copy of the loaded document before its references are rewritten","schemaLoader.go"),("per compilation reference pool","schemaLoader.go Compile")],
state=[("compiled schema","must not change after compilation","schema.go Schema, subSchema.go")],
observe=["results of repeated and permuted executions","deep comparison of caller values before and after"],
hook="none in /repo; map iteration is put under the explorer's control by a build overlay generated from the working tree")

p("C13","Concurrent use of schemas, formats and error texts is safe and linearizable",
"Any number of goroutines may validate documents with one compiled schema, compile schemas with separate loaders, render errors, and query, add and remove format checkers at the same time: under every interleaving there is no data race, deadlock or panic. Each query, addition and removal of a format - also the check of one format made by a validation - takes effect at one point between its start and its end, so that the results agree with some order of these operations consistent with real time. Validations and compilations that do not involve formats being changed return exactly their sequential result. All these operations may also be made from inside a format checker or a template function, and a checker that is slow, blocks or panics does not block other goroutines.",
["schedules"],"every interleaving of two or three goroutines performing these operations",
"No test starts a second goroutine; absence of races and lost or torn updates must hold for all schedules.",
["validation.go","errors.go","format_checkers.go","schema.go"],
[("read-write lock of the format registry","format_checkers.go"),("read-write lock of the template cache","errors.go formatErrorDescription"),("validation does not write to the compiled schema","validation.go")],
state=[("format registry","shared map","format_checkers.go FormatCheckers"),("template cache","shared template set","errors.go errorTemplates")],
observe=["results per operation","race detector verdict per schedule"],
hook="none in /repo; sync operations are redirected to a controlled scheduler by a build overlay generated from the working tree")

p("C14","All loaders deliver the same JSON, and every load failure is reported",
"A schema or document means the same whether it is given as string, bytes, Go value, decoded value, reader, writer, file or HTTP reference, custom file system included; numbers keep their exact digits. Whenever loading fails - missing file, failing or truncated read, non-200 response, malformed or trailing text, unsupported value - the call returns an error and no schema or result, and no partial or stale content is ever used. Files and responses that were opened are closed, reads through a custom file system never touch the real one, and fragments and percent escapes in file references select the right file.",
["inputs","fault_sequences"],"every loader kind, every JSON text, every point at which reading fails or ends, every HTTP status",
"Tests load two schemas from strings, readers and files and never inject a failure.",
["jsonLoader.go","schemaLoader.go","validation.go"],
[("decoding with exact numbers","jsonLoader.go decodeJSONUsingNumber"),("file and HTTP access","jsonLoader.go loadFromFile, loadFromHTTP, LoadJSON"),("loader factories","jsonLoader.go")],
observe=["errors","Valid()","opens/closes on an instrumented file system and HTTP transport"])

p("C15","Built-in format checkers accept exactly the strings of their format",
"For every string, each built-in format (date, time, date-time, hostname, email, ipv4, ipv6, uri, uri-reference, uri-template, uuid, regex, json-pointer, relative-json-pointer and the iri/idn aliases) accepts it exactly when it belongs to the format as documented: calendar-valid RFC 3339 dates and times, RFC 1123 style hostnames of at most 255 characters with labels of 1 to 63, dotted-quad and RFC 4291 addresses, parseable URIs without backslashes (with a scheme for uri), balanced template braces, canonical UUIDs, RE2 expressions, RFC 6901 pointers. Values that are not strings always pass. The verdict is the same through a schema's format keyword and through the checker itself.",
["inputs"],"every string given to every built-in format",
"The format suite holds a few strings per format; the accepted language is infinite and has boundaries (month lengths, leap years, label lengths, zero compression, escapes) that samples do not cover.",
["format_checkers.go","validation.go"],
[("checkers","format_checkers.go IsFormat methods"),("registry","format_checkers.go FormatCheckers"),("format keyword","validation.go validateCommon")],
observe=["FormatCheckers.IsFormat","Schema.Validate(..).Valid()"])

p("C16","The format registry behaves as a map, consulted at validation time",
"After any sequence of Add and Remove, a name is known exactly when it was last added rather than removed, Add replaces and calls chain, and a built-in format can be removed and overridden like any other. Validation consults the checker registered for the schema's format name at the time of validation and gives it the value of every JSON type, and the format fails exactly when that checker returns false. An unknown format name never fails.",
["histories","inputs"],"every sequence of registry operations interleaved with validations, every name, every value",
"One custom format is added once in the tests; no sequence with removal, replacement or reuse of a compiled schema is exercised.",
["format_checkers.go","validation.go"],
[("registry operations","format_checkers.go Add, Remove, Has, IsFormat"),("use in validation","validation.go validateCommon")],
state=[("registry","name -> checker","format_checkers.go formatters")],
observe=["Has, IsFormat, validation results, arguments seen by a recording checker"])

p("C17","No schema or document makes the library panic, hang or answer ambiguously",
"For every JSON text given as schema and as document - any keyword with any value at any depth, any number however large, small or precise, any string, any nesting - compiling and validating return normally, and compile and validate return either a result or an error, never both and never neither. The only schemas excepted are those whose references form a loop that consumes no part of the document. Invalid input is answered by an error or an invalid result.",
["inputs"],"every pair of texts given as schema and document",
"Panics come from unchecked assumptions about value types and ranges in unusual combinations; the tests contain almost no malformed input.",
["schema.go","validation.go","utils.go","schemaPool.go","jsonLoader.go"],
[("type checks before assertions","schema.go; utils.go isKind"),("number conversion","utils.go mustBeNumber, mustBeInteger, marshalWithoutNumber; validation.go validateNumber")],
observe=["recovered panics","completion of every call","(result, error) pairs"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
