From 7d5d367240dfca3659999cb2685aeffc7c1751cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:40 +0000
Subject: [PATCH 01/23] fix: report a boolean "definitions" as a schema error
 instead of panicking

---
 schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema.go b/schema.go
index 9e93cd7..5fd0091 100644
--- a/schema.go
+++ b/schema.go
@@ -152,7 +152,7 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 
 	// definitions
 	if existsMapKey(m, KEY_DEFINITIONS) {
-		if isKind(m[KEY_DEFINITIONS], reflect.Map, reflect.Bool) {
+		if isKind(m[KEY_DEFINITIONS], reflect.Map) {
 			for _, dv := range m[KEY_DEFINITIONS].(map[string]interface{}) {
 				if isKind(dv, reflect.Map, reflect.Bool) {
 
-- 
2.43.0


From e1324c18a89dc8b7e8161ce190632162ef5c447c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:42 +0000
Subject: [PATCH 02/23] fix: do not panic on numbers whose exponent big.Rat
 cannot represent

---
 utils.go      |  2 +-
 validation.go | 16 +++++++++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/utils.go b/utils.go
index a17d22e..9fd05d7 100644
--- a/utils.go
+++ b/utils.go
@@ -35,7 +35,7 @@ func isKind(what interface{}, kinds ...reflect.Kind) bool {
 	target := what
 	if isJSONNumber(what) {
 		// JSON Numbers are strings!
-		target = *mustBeNumber(what)
+		target = big.Rat{}
 	}
 	targetKind := reflect.ValueOf(target).Kind()
 	for _, kind := range kinds {
diff --git a/validation.go b/validation.go
index 9081bd9..8e7a87f 100644
--- a/validation.go
+++ b/validation.go
@@ -774,7 +774,21 @@ func (v *subSchema) validateNumber(currentSubSchema *subSchema, value interface{
 	}
 
 	number := value.(json.Number)
-	float64Value, _ := new(big.Rat).SetString(string(number))
+	float64Value, ok := new(big.Rat).SetString(string(number))
+	if !ok {
+		// The exponent is too large to be represented, so no bound can be checked
+		if currentSubSchema.multipleOf != nil ||
+			currentSubSchema.maximum != nil || currentSubSchema.exclusiveMaximum != nil ||
+			currentSubSchema.minimum != nil || currentSubSchema.exclusiveMinimum != nil {
+			result.addInternalError(
+				new(InternalError),
+				context,
+				number,
+				ErrorDetails{"error": "number out of range"},
+			)
+		}
+		return
+	}
 
 	// multipleOf:
 	if currentSubSchema.multipleOf != nil {
-- 
2.43.0


From f712376abe1e0902d3464a2fbb5af1940228620a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:43 +0000
Subject: [PATCH 03/23] fix: resolve plain name fragments to the identified
 schema or to an error, never to the whole document

---
 schemaPool.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/schemaPool.go b/schemaPool.go
index 35b1cc6..2afae16 100644
--- a/schemaPool.go
+++ b/schemaPool.go
@@ -168,6 +168,9 @@ func (p *schemaPool) GetDocument(reference gojsonreference.JsonReference) (*sche
 	refToURL.GetUrl().Fragment = ""
 
 	if cachedSpd, ok := p.schemaPoolDocuments[refToURL.String()]; ok {
+		if err := checkFragment(reference); err != nil {
+			return nil, err
+		}
 		document, _, err := reference.GetPointer().Get(cachedSpd.Document)
 
 		if err != nil {
@@ -204,6 +207,15 @@ func (p *schemaPool) GetDocument(reference gojsonreference.JsonReference) (*sche
 
 	_, draft, _ = parseSchemaURL(document)
 
+	// the fragment may be a location independent identifier of the document that has just been loaded
+	if spd, ok = p.schemaPoolDocuments[reference.String()]; ok && reference.String() != refToURL.String() {
+		return spd, nil
+	}
+
+	if err := checkFragment(reference); err != nil {
+		return nil, err
+	}
+
 	// resolve the potential fragment and also cache it
 	document, _, err = reference.GetPointer().Get(document)
 
@@ -213,3 +225,12 @@ func (p *schemaPool) GetDocument(reference gojsonreference.JsonReference) (*sche
 
 	return &schemaPoolDocument{Document: document, Draft: draft}, nil
 }
+
+// checkFragment returns an error if the fragment of the reference is not a JSON pointer.
+// A fragment that is a location independent identifier has to be found in the pool.
+func checkFragment(reference gojsonreference.JsonReference) error {
+	if fragment := reference.GetUrl().Fragment; fragment != "" && fragment[0] != '/' {
+		return fmt.Errorf("Reference not found: \"%s\"", reference.String())
+	}
+	return nil
+}
-- 
2.43.0


From 17f3ba1c1840a3273d9daf6b34c63dde500e26a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:44 +0000
Subject: [PATCH 04/23] fix: do not detect the draft of a newly loaded document
 when AutoDetect is off

---
 schemaPool.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/schemaPool.go b/schemaPool.go
index 2afae16..584ac23 100644
--- a/schemaPool.go
+++ b/schemaPool.go
@@ -205,7 +205,9 @@ func (p *schemaPool) GetDocument(reference gojsonreference.JsonReference) (*sche
 	// add the whole document to the pool for potential re-use
 	p.parseReferences(document, refToURL, true)
 
-	_, draft, _ = parseSchemaURL(document)
+	if *p.autoDetect {
+		_, draft, _ = parseSchemaURL(document)
+	}
 
 	// the fragment may be a location independent identifier of the document that has just been loaded
 	if spd, ok = p.schemaPoolDocuments[reference.String()]; ok && reference.String() != refToURL.String() {
-- 
2.43.0


From 837d5b0e5b8040e2f2b531c3348d6abfbfd8bfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:45 +0000
Subject: [PATCH 05/23] fix: keep Validate and the loader factory of the root
 schema when compiling the metaschema

---
 schemaLoader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/schemaLoader.go b/schemaLoader.go
index 20db0c1..d8e5e43 100644
--- a/schemaLoader.go
+++ b/schemaLoader.go
@@ -68,6 +68,12 @@ func (sl *SchemaLoader) validateMetaschema(documentNode interface{}) error {
 
 	//Disable validation when loading the metaschema to prevent an infinite recursive loop
 	sl.Validate = false
+	// Compiling the metaschema must not change how the references of the schema itself are loaded
+	loaderFactory := sl.pool.jsonLoaderFactory
+	defer func() {
+		sl.Validate = true
+		sl.pool.jsonLoaderFactory = loaderFactory
+	}()
 
 	metaSchema, err := sl.Compile(NewReferenceLoader(schema))
 
-- 
2.43.0


From 5cf368ac37564dcced52a50aeca927ff13cd0e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:46 +0000
Subject: [PATCH 06/23] fix: do not accept IPv4-mapped IPv6 addresses as ipv4

---
 format_checkers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format_checkers.go b/format_checkers.go
index 1e77046..6cc3ac7 100644
--- a/format_checkers.go
+++ b/format_checkers.go
@@ -207,7 +207,7 @@ func (f IPV4FormatChecker) IsFormat(input interface{}) bool {
 
 	// Credit: https://github.com/asaskevich/govalidator
 	ip := net.ParseIP(asString)
-	return ip != nil && strings.Contains(asString, ".")
+	return ip != nil && strings.Contains(asString, ".") && !strings.Contains(asString, ":")
 }
 
 // IsFormat checks if input is a correctly formatted IPv6=address
-- 
2.43.0


From f0cbbb83d170aa75da4748639be39bdb6374389b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:48 +0000
Subject: [PATCH 07/23] fix: ignore the siblings of a $ref also when its target
 has already been parsed

---
 schema.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/schema.go b/schema.go
index 5fd0091..50f37c8 100644
--- a/schema.go
+++ b/schema.go
@@ -235,6 +235,9 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 
 		if sch, ok := d.referencePool.Get(currentSchema.ref.String()); ok {
 			currentSchema.refSchema = sch
+
+			// All other keywords next to a $ref are ignored
+			return nil
 		} else {
 			err := d.parseReference(documentNode, currentSchema)
 
-- 
2.43.0


From a54e7765f39fd17291da1ba7a71bf05d75e9b8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:49 +0000
Subject: [PATCH 08/23] fix: resolve the references of definitions that are
 named like a keyword

---
 schemaPool.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schemaPool.go b/schemaPool.go
index 584ac23..3965c67 100644
--- a/schemaPool.go
+++ b/schemaPool.go
@@ -122,7 +122,7 @@ func (p *schemaPool) parseReferencesRecursive(document interface{}, ref gojsonre
 			}
 			// Something like a property or a dependency is not a valid schema, as it might describe properties named "$ref", "$id" or "const", etc
 			// Therefore don't treat it like a schema.
-			if k == KEY_PROPERTIES || k == KEY_DEPENDENCIES || k == KEY_PATTERN_PROPERTIES {
+			if k == KEY_PROPERTIES || k == KEY_DEPENDENCIES || k == KEY_PATTERN_PROPERTIES || k == KEY_DEFINITIONS {
 				if child, ok := v.(map[string]interface{}); ok {
 					for _, v := range child {
 						p.parseReferencesRecursive(v, *localRef, draft)
-- 
2.43.0


From baa16eeae1113b79f8f76851c5fd7908e0b0a87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:50 +0000
Subject: [PATCH 09/23] fix: close the response body when loading a schema over
 HTTP

---
 jsonLoader.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jsonLoader.go b/jsonLoader.go
index 5d88af2..0209941 100644
--- a/jsonLoader.go
+++ b/jsonLoader.go
@@ -189,6 +189,7 @@ func (l *jsonReferenceLoader) loadFromHTTP(address string) (interface{}, error)
 	if err != nil {
 		return nil, err
 	}
+	defer resp.Body.Close()
 
 	// must return HTTP Status 200 OK
 	if resp.StatusCode != http.StatusOK {
-- 
2.43.0


From e2b680b0444ab39cb67535a1078f0fb745114253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:16 +0000
Subject: [PATCH 10/23] fix: accept integer keyword values that are written
 like 2.0 or 1e1

---
 utils.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/utils.go b/utils.go
index 9fd05d7..c6f9fcb 100644
--- a/utils.go
+++ b/utils.go
@@ -140,12 +140,13 @@ func mustBeInteger(what interface{}) *int {
 
 		if isInt {
 
-			int64Value, err := number.Int64()
-			if err != nil {
+			// The integer may also be written with a fraction or an exponent, e.g. 2.0
+			integer := mustBeNumber(number).Num()
+			if !integer.IsInt64() {
 				return nil
 			}
 
-			int32Value := int(int64Value)
+			int32Value := int(integer.Int64())
 			return &int32Value
 		}
 
-- 
2.43.0


From ae24c2b29c593ed753c9f994027a6be4c12a9d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:17 +0000
Subject: [PATCH 11/23] fix: reject JSON texts with trailing data after the
 top-level value

---
 jsonLoader.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jsonLoader.go b/jsonLoader.go
index 0209941..1730e10 100644
--- a/jsonLoader.go
+++ b/jsonLoader.go
@@ -382,6 +382,11 @@ func decodeJSONUsingNumber(r io.Reader) (interface{}, error) {
 		return nil, err
 	}
 
+	// A JSON text consists of a single value
+	if _, err := decoder.Token(); err != io.EOF {
+		return nil, errors.New("invalid JSON: unexpected data after top-level value")
+	}
+
 	return document, nil
 
 }
-- 
2.43.0


From 84596cdd0bdfa395e7b688a46203726e3d7f48c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:19 +0000
Subject: [PATCH 12/23] fix: use the id keyword of the detected draft when
 resolving references

---
 schemaPool.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schemaPool.go b/schemaPool.go
index 3965c67..133b3f4 100644
--- a/schemaPool.go
+++ b/schemaPool.go
@@ -89,7 +89,7 @@ func (p *schemaPool) parseReferencesRecursive(document interface{}, ref gojsonre
 		localRef := &ref
 
 		keyID := KEY_ID_NEW
-		if existsMapKey(m, KEY_ID) {
+		if (draft == nil && existsMapKey(m, KEY_ID)) || (draft != nil && *draft < Draft6) {
 			keyID = KEY_ID
 		}
 		if existsMapKey(m, keyID) && isKind(m[keyID], reflect.String) {
-- 
2.43.0


From 676a66b779d4443a3719482d91870bfe9e549454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:20 +0000
Subject: [PATCH 13/23] fix: use the draft of the containing document when
 compiling a fragment of it

---
 schemaLoader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/schemaLoader.go b/schemaLoader.go
index d8e5e43..85be196 100644
--- a/schemaLoader.go
+++ b/schemaLoader.go
@@ -165,6 +165,7 @@ func (sl *SchemaLoader) Compile(rootSchema JSONLoader) (*Schema, error) {
 	d.referencePool = newSchemaReferencePool()
 
 	var doc interface{}
+	var documentDraft *Draft
 	if ref.String() != "" {
 		// Get document from schema pool
 		spd, err := d.pool.GetDocument(d.documentReference)
@@ -172,6 +173,7 @@ func (sl *SchemaLoader) Compile(rootSchema JSONLoader) (*Schema, error) {
 			return nil, err
 		}
 		doc = spd.Document
+		documentDraft = spd.Draft
 	} else {
 		// Load JSON directly
 		doc, err = rootSchema.LoadJSON()
@@ -198,6 +200,10 @@ func (sl *SchemaLoader) Compile(rootSchema JSONLoader) (*Schema, error) {
 		if err != nil {
 			return nil, err
 		}
+		if detectedDraft == nil {
+			// The root schema may be a fragment of a document that specifies its draft
+			detectedDraft = documentDraft
+		}
 		if detectedDraft != nil {
 			draft = *detectedDraft
 		}
-- 
2.43.0


From e4106603f7769ae22b0058e5fb8e2bd833d9da9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:21 +0000
Subject: [PATCH 14/23] fix: do not modify the source of a raw loader when
 compiling it

---
 schemaLoader.go |  7 +++++++
 utils.go        | 24 ++++++++++++++++++++++++
 2 files changed, 31 insertions(+)

diff --git a/schemaLoader.go b/schemaLoader.go
index 85be196..6e5c85e 100644
--- a/schemaLoader.go
+++ b/schemaLoader.go
@@ -109,6 +109,9 @@ func (sl *SchemaLoader) AddSchemas(loaders ...JSONLoader) error {
 			return err
 		}
 
+		// The references in the document get replaced, so never modify the source of the loader
+		doc = copyDocumentNode(doc)
+
 		if sl.Validate {
 			if err := sl.validateMetaschema(doc); err != nil {
 				return err
@@ -140,6 +143,8 @@ func (sl *SchemaLoader) AddSchema(url string, loader JSONLoader) error {
 		return err
 	}
 
+	doc = copyDocumentNode(doc)
+
 	if sl.Validate {
 		if err := sl.validateMetaschema(doc); err != nil {
 			return err
@@ -180,6 +185,8 @@ func (sl *SchemaLoader) Compile(rootSchema JSONLoader) (*Schema, error) {
 		if err != nil {
 			return nil, err
 		}
+		doc = copyDocumentNode(doc)
+
 		// References need only be parsed if loading JSON directly
 		//  as pool.GetDocument already does this for us if loading by reference
 		err = sl.pool.parseReferences(doc, ref, true)
diff --git a/utils.go b/utils.go
index c6f9fcb..ba6f8bd 100644
--- a/utils.go
+++ b/utils.go
@@ -196,3 +196,27 @@ func convertDocumentNode(val interface{}) interface{} {
 
 	return val
 }
+
+// copyDocumentNode copies all objects and arrays of a document, so that the copy can be safely modified
+func copyDocumentNode(val interface{}) interface{} {
+
+	switch val := val.(type) {
+
+	case []interface{}:
+		res := make([]interface{}, len(val))
+		for i, v := range val {
+			res[i] = copyDocumentNode(v)
+		}
+		return res
+
+	case map[string]interface{}:
+		res := make(map[string]interface{}, len(val))
+		for k, v := range val {
+			res[k] = copyDocumentNode(v)
+		}
+		return res
+
+	}
+
+	return val
+}
-- 
2.43.0


From 1947de48d2f70f1f67b5d02882dd48dc9802da60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:23 +0000
Subject: [PATCH 15/23] fix: reject times with a single digit hour or a comma,
 which RFC3339 does not allow

---
 format_checkers.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/format_checkers.go b/format_checkers.go
index 6cc3ac7..c66fdcd 100644
--- a/format_checkers.go
+++ b/format_checkers.go
@@ -141,6 +141,9 @@ var (
 
 	rxRelJSONPointer = regexp.MustCompile("^(?:0|[1-9][0-9]*)(?:#|(?:/(?:[^~/]|~0|~1)*)*)$")
 
+	// Go's time parser also accepts hours of a single digit and a comma as the separator of fractional seconds
+	rxNotRFC3339Time = regexp.MustCompile("(?:^|T)[0-9]:|,")
+
 	lock = new(sync.RWMutex)
 )
 
@@ -229,6 +232,10 @@ func (f DateTimeFormatChecker) IsFormat(input interface{}) bool {
 		return true
 	}
 
+	if rxNotRFC3339Time.MatchString(asString) {
+		return false
+	}
+
 	formats := []string{
 		"15:04:05",
 		"15:04:05Z07:00",
@@ -263,6 +270,10 @@ func (f TimeFormatChecker) IsFormat(input interface{}) bool {
 		return true
 	}
 
+	if rxNotRFC3339Time.MatchString(asString) {
+		return false
+	}
+
 	if _, err := time.Parse("15:04:05Z07:00", asString); err == nil {
 		return true
 	}
-- 
2.43.0


From 8320b528386374bd7f5ec583e3ac8fa63fc335ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:24 +0000
Subject: [PATCH 16/23] fix: compare the numbers of const, enum and uniqueItems
 by their exact value

---
 utils.go | 67 +++++++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 62 insertions(+), 5 deletions(-)

diff --git a/utils.go b/utils.go
index ba6f8bd..5cb7e82 100644
--- a/utils.go
+++ b/utils.go
@@ -29,6 +29,7 @@ import (
 	"encoding/json"
 	"math/big"
 	"reflect"
+	"strings"
 )
 
 func isKind(what interface{}, kinds ...reflect.Kind) bool {
@@ -85,7 +86,7 @@ func marshalWithoutNumber(value interface{}) (*string, error) {
 
 	// The JSON is decoded using https://golang.org/pkg/encoding/json/#Decoder.UseNumber
 	// This means the numbers are internally still represented as strings and therefore 1.00 is unequal to 1
-	// One way to eliminate these differences is to decode and encode the JSON one more time without Decoder.UseNumber
+	// One way to eliminate these differences is to decode and encode the JSON one more time and normalize the numbers
 	// so that these differences in representation are removed
 
 	jsonString, err := marshalToJSONString(value)
@@ -93,14 +94,70 @@ func marshalWithoutNumber(value interface{}) (*string, error) {
 		return nil, err
 	}
 
-	var document interface{}
-
-	err = json.Unmarshal([]byte(*jsonString), &document)
+	document, err := decodeJSONUsingNumber(strings.NewReader(*jsonString))
 	if err != nil {
 		return nil, err
 	}
 
-	return marshalToJSONString(document)
+	return marshalToJSONString(normalizeNumbers(document))
+}
+
+// normalizeNumbers replaces all numbers in a document by a representation that only depends on their value
+func normalizeNumbers(val interface{}) interface{} {
+
+	switch val := val.(type) {
+
+	case []interface{}:
+		for i, v := range val {
+			val[i] = normalizeNumbers(v)
+		}
+
+	case map[string]interface{}:
+		for k, v := range val {
+			val[k] = normalizeNumbers(v)
+		}
+
+	case json.Number:
+		// A float64 is only usable if it has the same value, as it is limited in range and precision
+		exact := normalizeDecimal(string(val))
+		if f, err := val.Float64(); err == nil && exact != "0" {
+			if s, err := marshalToJSONString(f); err == nil && normalizeDecimal(*s) == exact {
+				return f
+			}
+		}
+		return json.Number(exact)
+	}
+
+	return val
+}
+
+// normalizeDecimal removes all the redundant zeros of a JSON number, e.g. 1.50 and 0.15e1 both become 15e-1
+func normalizeDecimal(number string) string {
+
+	exponent := new(big.Int)
+	if i := strings.IndexAny(number, "eE"); i >= 0 {
+		exponent.SetString(number[i+1:], 10)
+		number = number[:i]
+	}
+
+	digits := strings.TrimPrefix(number, "-")
+	sign := number[:len(number)-len(digits)]
+	if i := strings.IndexByte(digits, '.'); i >= 0 {
+		exponent.Sub(exponent, big.NewInt(int64(len(digits)-i-1)))
+		digits = digits[:i] + digits[i+1:]
+	}
+
+	digits = strings.TrimLeft(digits, "0")
+	if digits == "" {
+		return "0"
+	}
+	trimmed := strings.TrimRight(digits, "0")
+	exponent.Add(exponent, big.NewInt(int64(len(digits)-len(trimmed))))
+
+	if exponent.Sign() == 0 {
+		return sign + trimmed
+	}
+	return sign + trimmed + "e" + exponent.String()
 }
 
 func isJSONNumber(what interface{}) bool {
-- 
2.43.0


From c25aadfa4e5d77bfa04158ee8303a453157dc1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:49 +0000
Subject: [PATCH 17/23] fix: do not panic when a value compared by const, enum
 or uniqueItems cannot be marshaled

---
 validation.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/validation.go b/validation.go
index 8e7a87f..31e7c94 100644
--- a/validation.go
+++ b/validation.go
@@ -410,8 +410,7 @@ func (v *subSchema) validateCommon(currentSubSchema *subSchema, value interface{
 		vString, err := marshalWithoutNumber(value)
 		if err != nil {
 			result.addInternalError(new(InternalError), context, value, ErrorDetails{"error": err})
-		}
-		if *vString != *currentSubSchema._const {
+		} else if *vString != *currentSubSchema._const {
 			result.addInternalError(new(ConstError),
 				context,
 				value,
@@ -427,8 +426,7 @@ func (v *subSchema) validateCommon(currentSubSchema *subSchema, value interface{
 		vString, err := marshalWithoutNumber(value)
 		if err != nil {
 			result.addInternalError(new(InternalError), context, value, ErrorDetails{"error": err})
-		}
-		if !isStringInSlice(currentSubSchema.enum, *vString) {
+		} else if !isStringInSlice(currentSubSchema.enum, *vString) {
 			result.addInternalError(
 				new(EnumError),
 				context,
@@ -532,7 +530,8 @@ func (v *subSchema) validateArray(currentSubSchema *subSchema, value []interface
 		for j, v := range value {
 			vString, err := marshalWithoutNumber(v)
 			if err != nil {
-				result.addInternalError(new(InternalError), context, value, ErrorDetails{"err": err})
+				result.addInternalError(new(InternalError), context, value, ErrorDetails{"error": err})
+				continue
 			}
 			if i, ok := stringifiedItems[*vString]; ok {
 				result.addInternalError(
-- 
2.43.0


From 51f0fa31252f0719918bccd3b358f10d9b08a0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:18 +0000
Subject: [PATCH 18/23] fix: a plus sign in a file reference is part of the
 file name

---
 jsonLoader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonLoader.go b/jsonLoader.go
index 1730e10..3c89606 100644
--- a/jsonLoader.go
+++ b/jsonLoader.go
@@ -146,7 +146,7 @@ func (l *jsonReferenceLoader) LoadJSON() (interface{}, error) {
 	if reference.HasFileScheme {
 
 		filename := strings.TrimPrefix(refToURL.String(), "file://")
-		filename, err = url.QueryUnescape(filename)
+		filename, err = url.PathUnescape(filename)
 
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 9023de153ec6ce06d2c318ec1f74d2821f79f34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:11 +0000
Subject: [PATCH 19/23] fix: a number in the list of types is rejected and does
 not panic

---
 schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema.go b/schema.go
index 50f37c8..57a18cf 100644
--- a/schema.go
+++ b/schema.go
@@ -262,7 +262,7 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 			if isKind(m[KEY_TYPE], reflect.Slice) {
 				arrayOfTypes := m[KEY_TYPE].([]interface{})
 				for _, typeInArray := range arrayOfTypes {
-					if reflect.ValueOf(typeInArray).Kind() != reflect.String {
+					if !isKind(typeInArray, reflect.String) {
 						return errors.New(formatErrorDescription(
 							Locale.InvalidType(),
 							ErrorDetails{
-- 
2.43.0


From ebdad0fe4a73430377f1536ef752631f4df70dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:08 +0000
Subject: [PATCH 20/23] fix: errors about a malformed allOf or propertyNames
 name that keyword

---
 schema.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schema.go b/schema.go
index 57a18cf..62632ee 100644
--- a/schema.go
+++ b/schema.go
@@ -365,7 +365,7 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 				Locale.InvalidType(),
 				ErrorDetails{
 					"expected": STRING_SCHEMA,
-					"given":    KEY_PATTERN_PROPERTIES,
+					"given":    KEY_PROPERTY_NAMES,
 				},
 			))
 		}
@@ -894,7 +894,7 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 		} else {
 			return errors.New(formatErrorDescription(
 				Locale.MustBeOfAn(),
-				ErrorDetails{"x": KEY_ANY_OF, "y": TYPE_ARRAY},
+				ErrorDetails{"x": KEY_ALL_OF, "y": TYPE_ARRAY},
 			))
 		}
 	}
-- 
2.43.0


From 4d6f0f6ff9e34d961f305a7c02c5242376a9b430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:49 +0000
Subject: [PATCH 21/23] fix: uri-template checks the braces of the whole
 template

A template with an expression such as {?q} or {#f} was rejected, because only
the path was looked at, and unbalanced braces in a query or a closing brace
without an opening one were accepted.
---
 format_checkers.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/format_checkers.go b/format_checkers.go
index c66fdcd..a49abf1 100644
--- a/format_checkers.go
+++ b/format_checkers.go
@@ -133,7 +133,7 @@ var (
 	rxHostname = regexp.MustCompile(`^([a-zA-Z0-9]|[a-zA-Z0-9][a-zA-Z0-9\-]{0,61}[a-zA-Z0-9])(\.([a-zA-Z0-9]|[a-zA-Z0-9][a-zA-Z0-9\-]{0,61}[a-zA-Z0-9]))*$`)
 
 	// Use a regex to make sure curly brackets are balanced properly after validating it as a AURI
-	rxURITemplate = regexp.MustCompile("^([^{]*({[^}]*})?)*$")
+	rxURITemplate = regexp.MustCompile("^([^{}]|{[^{}]*})*$")
 
 	rxUUID = regexp.MustCompile("^(?i)[a-f0-9]{8}-[a-f0-9]{4}-[a-f0-9]{4}-[a-f0-9]{4}-[a-f0-9]{12}$")
 
@@ -316,12 +316,12 @@ func (f URITemplateFormatChecker) IsFormat(input interface{}) bool {
 		return true
 	}
 
-	u, err := url.Parse(asString)
+	_, err := url.Parse(asString)
 	if err != nil || strings.Contains(asString, `\`) {
 		return false
 	}
 
-	return rxURITemplate.MatchString(u.Path)
+	return rxURITemplate.MatchString(asString)
 }
 
 // IsFormat checks if input is a correctly formatted hostname
-- 
2.43.0


From f18d6d817ed5d8bb921314a6eab41e7482d18021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:37 +0000
Subject: [PATCH 22/23] fix: do not take minutes to report an error about a
 bound close to zero, such as 1e-200000

---
 utils.go      | 20 ++++++++++++++++++++
 validation.go | 10 +++++-----
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/utils.go b/utils.go
index 5cb7e82..ae88874 100644
--- a/utils.go
+++ b/utils.go
@@ -29,6 +29,7 @@ import (
 	"encoding/json"
 	"math/big"
 	"reflect"
+	"strconv"
 	"strings"
 )
 
@@ -187,6 +188,25 @@ const (
 	minJSONFloat = -float64(1<<53 - 1) //-9007199254740991.0	-2^53 - 1
 )
 
+// numberDetail returns a bound the way it is put in the details of an error
+func numberDetail(bound *big.Rat) interface{} {
+
+	float := new(big.Float).SetRat(bound)
+
+	exponent := float.MantExp(nil)
+	if exponent > -1<<14 {
+		return float
+	}
+
+	// Printing a big.Float takes time that is quadratic in a negative exponent, minutes for 1e-200000.
+	// Therefore scale such a bound and use its decimal notation.
+	decimals := -exponent*30103/100000 + 1
+	scale := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(decimals)), nil)
+	float = new(big.Float).SetPrec(256).SetRat(new(big.Rat).Mul(bound, new(big.Rat).SetInt(scale)))
+
+	return json.Number(float.Text('f', -1) + "e-" + strconv.Itoa(decimals))
+}
+
 func mustBeInteger(what interface{}) *int {
 
 	if isJSONNumber(what) {
diff --git a/validation.go b/validation.go
index 31e7c94..2c9bd54 100644
--- a/validation.go
+++ b/validation.go
@@ -797,7 +797,7 @@ func (v *subSchema) validateNumber(currentSubSchema *subSchema, value interface{
 				context,
 				number,
 				ErrorDetails{
-					"multiple": new(big.Float).SetRat(currentSubSchema.multipleOf),
+					"multiple": numberDetail(currentSubSchema.multipleOf),
 				},
 			)
 		}
@@ -811,7 +811,7 @@ func (v *subSchema) validateNumber(currentSubSchema *subSchema, value interface{
 				context,
 				number,
 				ErrorDetails{
-					"max": new(big.Float).SetRat(currentSubSchema.maximum),
+					"max": numberDetail(currentSubSchema.maximum),
 				},
 			)
 		}
@@ -823,7 +823,7 @@ func (v *subSchema) validateNumber(currentSubSchema *subSchema, value interface{
 				context,
 				number,
 				ErrorDetails{
-					"max": new(big.Float).SetRat(currentSubSchema.exclusiveMaximum),
+					"max": numberDetail(currentSubSchema.exclusiveMaximum),
 				},
 			)
 		}
@@ -837,7 +837,7 @@ func (v *subSchema) validateNumber(currentSubSchema *subSchema, value interface{
 				context,
 				number,
 				ErrorDetails{
-					"min": new(big.Float).SetRat(currentSubSchema.minimum),
+					"min": numberDetail(currentSubSchema.minimum),
 				},
 			)
 		}
@@ -849,7 +849,7 @@ func (v *subSchema) validateNumber(currentSubSchema *subSchema, value interface{
 				context,
 				number,
 				ErrorDetails{
-					"min": new(big.Float).SetRat(currentSubSchema.exclusiveMinimum),
+					"min": numberDetail(currentSubSchema.exclusiveMinimum),
 				},
 			)
 		}
-- 
2.43.0


From 89a4380793165bae84f6e9e1219245a98bcb8f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:02 +0000
Subject: [PATCH 23/23] fix: an $id that cannot be resolved, such as ".//a\",
 does not panic

---
 schemaPool.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/schemaPool.go b/schemaPool.go
index 133b3f4..8f762dd 100644
--- a/schemaPool.go
+++ b/schemaPool.go
@@ -95,8 +95,9 @@ func (p *schemaPool) parseReferencesRecursive(document interface{}, ref gojsonre
 		if existsMapKey(m, keyID) && isKind(m[keyID], reflect.String) {
 			jsonReference, err := gojsonreference.NewJsonReference(m[keyID].(string))
 			if err == nil {
-				localRef, err = ref.Inherits(jsonReference)
+				inherited, err := ref.Inherits(jsonReference)
 				if err == nil {
+					localRef = inherited
 					if _, ok := p.schemaPoolDocuments[localRef.String()]; ok {
 						return fmt.Errorf("Reference already exists: \"%s\"", localRef.String())
 					}
-- 
2.43.0

