From 97cbd2e579123008d846c76391615b39f19a7814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:10 +0000
Subject: [PATCH 01/72] fix: do not write a shared key cache while evaluating a
 tree

TreeModel.Evaluate filled m.outKeys on the fly, so two goroutines scoring
with one model raced on the map (fatal error: concurrent map writes).
---
 evaluation/tree.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 7ea71fb..ba121ac 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -18,7 +18,6 @@ type TreeModel struct {
 	fieldTypes map[models.FieldName]models.DataType
 	root       node
 
-	outKeys map[string]string
 	targetField models.FieldName
 }
 
@@ -371,7 +370,6 @@ func NewTreeModel(dd *models.DataDictionary, td *models.TransformationDictionary
 	m.dd = dd
 	m.td = td
 	m.model = model
-	m.outKeys = make(map[string]string)
 
 	err := m.Validate()
 	if err != nil {
@@ -734,12 +732,7 @@ func (m *TreeModel) Evaluate(input DataRow) (DataRow, error) {
 		if m.model.FunctionName == models.MiningFunctionClassification {
 			out[string(m.targetField)] = NewValue(best.value)
 			for _, score := range scores {
-				key, ok := m.outKeys[score.value]
-				if !ok {
-					key = fmt.Sprintf("probability(%s)", score.value)
-					m.outKeys[score.value] = key
-				}
-
+				key := fmt.Sprintf("probability(%s)", score.value)
 				out[key] = NewValue(score.probability)
 			}
 		} else if m.model.FunctionName == models.MiningFunctionRegression {
-- 
2.43.0


From 1157f0ab4d05e7e34f1ace9fe7b13b6f18fa08cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:32 +0000
Subject: [PATCH 02/72] fix: leave the caller's input row alone

Evaluate wrote derived fields, missing-value replacements and model-chain
results into the DataRow it was given (a nil row panicked), so a reused row
scored differently the second time.
---
 evaluation/input.go        | 5 +++++
 evaluation/mining.go       | 3 +++
 evaluation/miningschema.go | 9 +++++++++
 3 files changed, 17 insertions(+)

diff --git a/evaluation/input.go b/evaluation/input.go
index e9f99b5..2fbe750 100644
--- a/evaluation/input.go
+++ b/evaluation/input.go
@@ -184,6 +184,11 @@ func HandleExpression(expr models.Expression, in DataRow, dd *models.DataDiction
 }
 
 func HandleInput(in DataRow, dd *models.DataDictionary, td *models.TransformationDictionary, lt *models.LocalTransformations, ms *models.MiningSchema) (DataRow, error) {
+	if len(lt.DerivedFields) > 0 {
+		// the row belongs to the caller
+		in = in.clone()
+	}
+
 	for _, df := range lt.DerivedFields {
 		expr_val, err := HandleExpression(df.Expression, in, dd, td, lt, ms)
 		if err != nil {
diff --git a/evaluation/mining.go b/evaluation/mining.go
index c153732..5d8f816 100644
--- a/evaluation/mining.go
+++ b/evaluation/mining.go
@@ -211,6 +211,9 @@ func (m *MiningModel) evaluateMultipleModelAverage(input DataRow) (DataRow, erro
 }
 
 func (m *MiningModel) imputeMissingValues(input DataRow) (DataRow, error) {
+	// the row belongs to the caller
+	input = input.clone()
+
 	for fld, defaultValue := range m.defaultValues {
 		inputVal, ok := input[fld]
 		if !ok || inputVal.Raw() == nil {
diff --git a/evaluation/miningschema.go b/evaluation/miningschema.go
index 7ea215e..0b52849 100644
--- a/evaluation/miningschema.go
+++ b/evaluation/miningschema.go
@@ -111,3 +111,12 @@ func (v Value) String() string {
 }
 
 type DataRow map[string]Value
+
+func (r DataRow) clone() DataRow {
+	out := make(DataRow, len(r))
+	for k, v := range r {
+		out[k] = v
+	}
+
+	return out
+}
-- 
2.43.0


From 974a65ba47e151c602432bdbd594c81466690b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:49 +0000
Subject: [PATCH 03/72] fix: do not append local derived fields to the
 document's dictionary

Compile appended LocalTransformations to the caller's shared
TransformationDictionary: it grew with every model built, raced between
concurrent builds, and let one model's local fields leak into another.
---
 evaluation/mining.go | 10 +++++++---
 evaluation/tree.go   |  6 +++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/evaluation/mining.go b/evaluation/mining.go
index 5d8f816..c57326d 100644
--- a/evaluation/mining.go
+++ b/evaluation/mining.go
@@ -88,11 +88,15 @@ func (m *MiningModel) Compile() error {
 		m.fieldTypes[df.Name] = df.DataType
 	}
 
+	// the dictionary belongs to the document: extend a copy for the segments
+	td := *m.td
+	td.DerivedFields = append([]models.DerivedField{}, m.td.DerivedFields...)
+
 	for _, tf := range m.model.LocalTransformations.DerivedFields {
-		m.td.DerivedFields = append(m.td.DerivedFields, tf)
+		td.DerivedFields = append(td.DerivedFields, tf)
 	}
 
-	for _, df := range m.td.DerivedFields {
+	for _, df := range td.DerivedFields {
 		m.fieldTypes[models.FieldName(df.Name)] = df.DataType
 	}
 
@@ -102,7 +106,7 @@ func (m *MiningModel) Compile() error {
 		}
 
 		segmdl := seg.Models[0]
-		mdl, err := NewModel(m.dd, m.td, segmdl)
+		mdl, err := NewModel(m.dd, &td, segmdl)
 
 		if err != nil {
 			return err
diff --git a/evaluation/tree.go b/evaluation/tree.go
index ba121ac..fb44c82 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -684,11 +684,11 @@ func (m *TreeModel) Compile() error {
 		m.fieldTypes[df.Name] = df.DataType
 	}
 
-	for _, tf := range m.model.LocalTransformations.DerivedFields {
-		m.td.DerivedFields = append(m.td.DerivedFields, tf)
+	for _, df := range m.td.DerivedFields {
+		m.fieldTypes[models.FieldName(df.Name)] = df.DataType
 	}
 
-	for _, df := range m.td.DerivedFields {
+	for _, df := range m.model.LocalTransformations.DerivedFields {
 		m.fieldTypes[models.FieldName(df.Name)] = df.DataType
 	}
 
-- 
2.43.0


From a9e434fb6620d44753ed76f90a9196aeb01a50e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:26 +0000
Subject: [PATCH 04/72] fix: do not modify the decoded document when building a
 model

NewModel stored parsed predicate literals and defaults in the caller's
document, so concurrent builds raced and a second build with another data
dictionary changed the first model.
---
 evaluation/mining.go     |  5 ++++-
 evaluation/regression.go |  5 ++++-
 evaluation/tree.go       | 37 ++++++++++++++++++++++++++-----------
 3 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/evaluation/mining.go b/evaluation/mining.go
index c57326d..91e1db3 100644
--- a/evaluation/mining.go
+++ b/evaluation/mining.go
@@ -27,7 +27,10 @@ func NewMiningModel(dd *models.DataDictionary, td *models.TransformationDictiona
 	m := new(MiningModel)
 	m.dd = dd
 	m.td = td
-	m.model = model
+
+	// Validate fills in defaults: the decoded document must not change
+	mdl := *model
+	m.model = &mdl
 
 	err := m.Validate()
 	if err != nil {
diff --git a/evaluation/regression.go b/evaluation/regression.go
index 67d9784..9d75794 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -21,7 +21,10 @@ func NewRegressionModel(dd *models.DataDictionary, td *models.TransformationDict
 	m := new(RegressionModel)
 	m.dd = dd
 	m.td = td
-	m.model = model
+
+	// Validate fills in defaults: the decoded document must not change
+	mdl := *model
+	m.model = &mdl
 
 	return m, nil
 }
diff --git a/evaluation/tree.go b/evaluation/tree.go
index fb44c82..d5cf22c 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -369,7 +369,11 @@ func NewTreeModel(dd *models.DataDictionary, td *models.TransformationDictionary
 	m := new(TreeModel)
 	m.dd = dd
 	m.td = td
-	m.model = model
+
+	// Validate fills in defaults: the decoded document must not change
+	mdl := *model
+	mdl.MiningSchema.MiningFields = append([]models.MiningField(nil), model.MiningSchema.MiningFields...)
+	m.model = &mdl
 
 	err := m.Validate()
 	if err != nil {
@@ -410,30 +414,41 @@ func (m *TreeModel) Validate() error {
 	return nil
 }
 
-func compilePredicate(m *TreeModel, pi models.Predicate) error {
+// compilePredicate returns a copy of the predicate with its literals parsed.
+func compilePredicate(m *TreeModel, pi models.Predicate) (models.Predicate, error) {
 	switch p := pi.(type) {
 	case *models.SimplePredicate:
 		predicateValueType, ok := m.fieldTypes[p.Field]
 		if !ok {
-			return fmt.Errorf("unknown field type for %s", p.Field)
+			return nil, fmt.Errorf("unknown field type for %s", p.Field)
 		}
 
 		pv, err := getRawValue(predicateValueType, p.Value)
 		if err != nil {
-			return err
+			return nil, err
 		}
 
-		p.RawPredicateValue = pv
+		compiled := *p
+		compiled.RawPredicateValue = pv
+
+		return &compiled, nil
 	case *models.CompoundPredicate:
-		for _, cp := range p.Predicates {
-			err := compilePredicate(m, cp)
+		compiled := *p
+		compiled.Predicates = make([]models.Predicate, len(p.Predicates))
+
+		for i, cp := range p.Predicates {
+			child, err := compilePredicate(m, cp)
 			if err != nil {
-				return err
+				return nil, err
 			}
+
+			compiled.Predicates[i] = child
 		}
+
+		return &compiled, nil
 	}
 
-	return nil
+	return pi, nil
 }
 
 func newNode(m *TreeModel, modelNode models.Node) (node, error) {
@@ -483,12 +498,12 @@ func newNode(m *TreeModel, modelNode models.Node) (node, error) {
 		n.children = append(n.children, nn)
 	}
 
-	err := compilePredicate(m, modelNode.Predicate)
+	predicate, err := compilePredicate(m, modelNode.Predicate)
 	if err != nil {
 		return n, err
 	}
 
-	switch p := modelNode.Predicate.(type) {
+	switch p := predicate.(type) {
 	case *models.True:
 		n.test = func(DataRow) predicateResult { return t }
 	case *models.False:
-- 
2.43.0


From f657fd2a937a5cb6a50713f9fa56236c747015ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:43 +0000
Subject: [PATCH 05/72] fix: evaluate isMissing and isNotMissing predicates,
 and nil values as missing

Both operators have no value attribute: on a numeric field the model failed
to load, isNotMissing was unknown instead of false, and a present nil value
compared as 0.
---
 evaluation/tree.go | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index d5cf22c..3bd2978 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -423,6 +423,12 @@ func compilePredicate(m *TreeModel, pi models.Predicate) (models.Predicate, erro
 			return nil, fmt.Errorf("unknown field type for %s", p.Field)
 		}
 
+		// these two carry no literal
+		if p.Operator == models.SimplePredicateOperatorIsMissing ||
+			p.Operator == models.SimplePredicateOperatorIsNotMissing {
+			return p, nil
+		}
+
 		pv, err := getRawValue(predicateValueType, p.Value)
 		if err != nil {
 			return nil, err
@@ -532,22 +538,33 @@ func evaluateSimplePredicate(p *models.SimplePredicate, input DataRow, fieldType
 		return f
 	}
 
-	if p.RawPredicateValue == nil {
-		return f
-	}
-
 	val, ok := input[string(p.Field)]
-	if !ok {
-		if p.Operator == models.SimplePredicateOperatorIsMissing {
+	missing := !ok || val.Raw() == nil
+
+	switch p.Operator {
+	case models.SimplePredicateOperatorIsMissing:
+		if missing {
 			return t
 		}
 
+		return f
+	case models.SimplePredicateOperatorIsNotMissing:
+		if missing {
+			return f
+		}
+
+		return t
+	}
+
+	if missing {
 		return u
 	}
 
+	if p.RawPredicateValue == nil {
+		return f
+	}
+
 	switch p.Operator {
-	case models.SimplePredicateOperatorIsNotMissing:
-		return t
 	case models.SimplePredicateOperatorEqual:
 		if val.Raw() == p.RawPredicateValue {
 			return t
-- 
2.43.0


From b6a2cc5b836714795007856cfd2d016b2b444c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:20 +0000
Subject: [PATCH 06/72] fix: convert strings and floats in Value.Int64, Float32
 and Bool

Int64 of a float or string and Float32 of a string were 0, and Bool of a
string false, so integer and boolean fields scored as 0 or false whenever
the caller (or a verification table) supplied another representation;
Float64 of a large uint64 was negative.
---
 evaluation/miningschema.go | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/evaluation/miningschema.go b/evaluation/miningschema.go
index 0b52849..9e1cbb1 100644
--- a/evaluation/miningschema.go
+++ b/evaluation/miningschema.go
@@ -30,6 +30,10 @@ func (v Value) Float32() float32 {
 		return float32(f)
 	}
 
+	if _, ok := v.val.(string); ok {
+		return float32(v.Float64())
+	}
+
 	return float32(v.Int64())
 }
 
@@ -50,10 +54,24 @@ func (v Value) Float64() float64 {
 		return f
 	}
 
+	// above the int64 range
+	if u, ok := v.val.(uint64); ok {
+		return float64(u)
+	}
+
+	if u, ok := v.val.(uint); ok {
+		return float64(u)
+	}
+
 	return float64(v.Int64())
 }
 
 func (v Value) Bool() bool {
+	if s, ok := v.val.(string); ok {
+		b, err := strconv.ParseBool(s)
+		return err == nil && b
+	}
+
 	b, ok := v.val.(bool)
 	if !ok {
 		return false
@@ -95,6 +113,20 @@ func (v Value) Int64() int64 {
 		return int64(f)
 	}
 
+	if s, ok := v.val.(string); ok {
+		if i, err := strconv.ParseInt(s, 10, 64); err == nil {
+			return i
+		}
+
+		return int64(v.Float64())
+	}
+	if f, ok := v.val.(float64); ok {
+		return int64(f)
+	}
+	if f, ok := v.val.(float32); ok {
+		return int64(f)
+	}
+
 	return 0
 }
 
-- 
2.43.0


From ef74e248aaf9ee24aafa7fe71f1adfc92a33a1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:21 +0000
Subject: [PATCH 07/72] fix: compare equal and notEqual in the field's declared
 type

equal compared Go dynamic types: int 5 never equalled a double literal 5,
and a verification row's strings never equalled a numeric or boolean one,
although the ordering operators convert.
---
 evaluation/miningschema.go | 32 ++++++++++++++++++++++++++++++++
 evaluation/tree.go         |  4 ++--
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/evaluation/miningschema.go b/evaluation/miningschema.go
index 9e1cbb1..3cf6b90 100644
--- a/evaluation/miningschema.go
+++ b/evaluation/miningschema.go
@@ -142,6 +142,38 @@ func (v Value) String() string {
 	return fmt.Sprintf("%v", v.val)
 }
 
+// equal reports whether the value denotes the literal, which has the Go type
+// getRawValue gives for the field's declared data type.
+func (v Value) equal(literal interface{}) bool {
+	switch l := literal.(type) {
+	case float64:
+		n, ok := v.number()
+		return ok && n == l
+	case int64:
+		n, ok := v.number()
+		return ok && n == float64(l) && v.Int64() == l
+	case bool:
+		b, err := strconv.ParseBool(v.String())
+		return err == nil && b == l
+	case string:
+		return v.String() == l
+	}
+
+	return v.val == literal
+}
+
+func (v Value) number() (float64, bool) {
+	switch val := v.val.(type) {
+	case string:
+		n, err := strconv.ParseFloat(val, 64)
+		return n, err == nil
+	case float32, float64, int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:
+		return v.Float64(), true
+	}
+
+	return 0, false
+}
+
 type DataRow map[string]Value
 
 func (r DataRow) clone() DataRow {
diff --git a/evaluation/tree.go b/evaluation/tree.go
index 3bd2978..fbed088 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -566,11 +566,11 @@ func evaluateSimplePredicate(p *models.SimplePredicate, input DataRow, fieldType
 
 	switch p.Operator {
 	case models.SimplePredicateOperatorEqual:
-		if val.Raw() == p.RawPredicateValue {
+		if val.equal(p.RawPredicateValue) {
 			return t
 		}
 	case models.SimplePredicateOperatorNotEqual:
-		if val.Raw() != p.RawPredicateValue {
+		if !val.equal(p.RawPredicateValue) {
 			return t
 		}
 	case models.SimplePredicateOperatorGreaterOrEqual:
-- 
2.43.0


From 0d30c87fe1e7ff0dd48105667039aff8a80b067e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:01 +0000
Subject: [PATCH 08/72] fix: decode entities in array content

RawValue held the raw inner XML, so an array value such as "a&amp;b" was
read with its entity unexpanded (and cut at the ';').
---
 models/complexTypes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/complexTypes.go b/models/complexTypes.go
index 24b06d7..c8091b2 100644
--- a/models/complexTypes.go
+++ b/models/complexTypes.go
@@ -33,7 +33,7 @@ type ArrayType struct {
 	N    *int          `xml:"n,attr"`
 	Type ArrayTypeType `xml:"type,attr"`
 
-	RawValue string `xml:",innerxml"`
+	RawValue string `xml:",chardata"`
 
 	s []string
 	i []int64
-- 
2.43.0


From 178e39165e18cb5f6ab80e4944755692805d8175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:02 +0000
Subject: [PATCH 09/72] fix: do not cache parsed array values in the document

Strings, Int64s and Float64s stored their result in the shared ArrayType
without synchronisation: concurrent readers raced, and a caller changing the
slice it was given changed what every later caller read.
---
 models/complexTypes.go | 28 +++-------------------------
 1 file changed, 3 insertions(+), 25 deletions(-)

diff --git a/models/complexTypes.go b/models/complexTypes.go
index c8091b2..af43db5 100644
--- a/models/complexTypes.go
+++ b/models/complexTypes.go
@@ -34,10 +34,6 @@ type ArrayType struct {
 	Type ArrayTypeType `xml:"type,attr"`
 
 	RawValue string `xml:",chardata"`
-
-	s []string
-	i []int64
-	f []float64
 }
 
 func (at *ArrayType) Strings() ([]string, error) {
@@ -45,13 +41,7 @@ func (at *ArrayType) Strings() ([]string, error) {
 		return nil, errors.New("not a string array")
 	}
 
-	if at.s != nil {
-		return at.s, nil
-	}
-
-	var err error
-	at.s, err = shellwords.Parse(at.RawValue)
-	return at.s, err
+	return shellwords.Parse(at.RawValue)
 }
 
 func (at *ArrayType) Int64s() ([]int64, error) {
@@ -59,10 +49,6 @@ func (at *ArrayType) Int64s() ([]int64, error) {
 		return nil, errors.New("not an int array")
 	}
 
-	if at.i != nil {
-		return at.i, nil
-	}
-
 	ints, err := shellwords.Parse(at.RawValue)
 	if err != nil {
 		return nil, err
@@ -79,9 +65,7 @@ func (at *ArrayType) Int64s() ([]int64, error) {
 		result = append(result, val)
 	}
 
-	at.i = result
-
-	return at.i, err
+	return result, nil
 }
 
 func (at *ArrayType) Float64s() ([]float64, error) {
@@ -89,10 +73,6 @@ func (at *ArrayType) Float64s() ([]float64, error) {
 		return nil, errors.New("not a float array")
 	}
 
-	if at.f != nil {
-		return at.f, nil
-	}
-
 	ints, err := shellwords.Parse(at.RawValue)
 	if err != nil {
 		return nil, err
@@ -109,9 +89,7 @@ func (at *ArrayType) Float64s() ([]float64, error) {
 		result = append(result, val)
 	}
 
-	at.f = result
-
-	return at.f, err
+	return result, nil
 }
 
 /*
-- 
2.43.0


From 1f0da85867295f063bbf9da54168eba03d501fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:22 +0000
Subject: [PATCH 10/72] fix: read array content as PMML arrays, not as shell
 words

The shell parser cut an array at the first ';', '&', '|', '<' or '>',
dropped "" values, and refused values with an apostrophe or parenthesis.
---
 models/complexTypes.go | 49 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 45 insertions(+), 4 deletions(-)

diff --git a/models/complexTypes.go b/models/complexTypes.go
index af43db5..2ae242b 100644
--- a/models/complexTypes.go
+++ b/models/complexTypes.go
@@ -2,8 +2,9 @@ package models
 
 import (
 	"strconv"
+	"strings"
+	"unicode"
 
-	"github.com/mattn/go-shellwords"
 	"github.com/pkg/errors"
 )
 
@@ -36,12 +37,52 @@ type ArrayType struct {
 	RawValue string `xml:",chardata"`
 }
 
+// splitArray splits array content at white space. A value may be enclosed in
+// double quotes, and a backslash takes the next character literally.
+func splitArray(content string) ([]string, error) {
+	values := []string{}
+
+	var value strings.Builder
+	var started, quoted, escaped bool
+
+	for _, r := range content {
+		switch {
+		case escaped:
+			value.WriteRune(r)
+			escaped = false
+		case r == '\\':
+			started, escaped = true, true
+		case r == '"':
+			started, quoted = true, !quoted
+		case unicode.IsSpace(r) && !quoted:
+			if started {
+				values = append(values, value.String())
+				value.Reset()
+				started = false
+			}
+		default:
+			value.WriteRune(r)
+			started = true
+		}
+	}
+
+	if quoted || escaped {
+		return nil, errors.New("unterminated quote or escape in array")
+	}
+
+	if started {
+		values = append(values, value.String())
+	}
+
+	return values, nil
+}
+
 func (at *ArrayType) Strings() ([]string, error) {
 	if at.Type != ArrayTypeTypeString {
 		return nil, errors.New("not a string array")
 	}
 
-	return shellwords.Parse(at.RawValue)
+	return splitArray(at.RawValue)
 }
 
 func (at *ArrayType) Int64s() ([]int64, error) {
@@ -49,7 +90,7 @@ func (at *ArrayType) Int64s() ([]int64, error) {
 		return nil, errors.New("not an int array")
 	}
 
-	ints, err := shellwords.Parse(at.RawValue)
+	ints, err := splitArray(at.RawValue)
 	if err != nil {
 		return nil, err
 	}
@@ -73,7 +114,7 @@ func (at *ArrayType) Float64s() ([]float64, error) {
 		return nil, errors.New("not a float array")
 	}
 
-	ints, err := shellwords.Parse(at.RawValue)
+	ints, err := splitArray(at.RawValue)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From ea971e8b601a1a563d13a84543aec67aff6e5c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:39 +0000
Subject: [PATCH 11/72] fix: evaluate True and False inside a compound
 predicate

Both counted as unknown-neither-true-nor-false, so and(True, ...) was never
true; surrogate predicates commonly end in True or False.
---
 evaluation/tree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index fbed088..4faf438 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -657,6 +657,10 @@ func evaluateCompoundPredicate(p *models.CompoundPredicate, input DataRow, field
 			val = evaluateCompoundPredicate(c, input, fieldTypes)
 		case *models.SimpleSetPredicate:
 			val = evaluateSimpleSetPredicate(c, input, fieldTypes)
+		case *models.True:
+			val = t
+		case *models.False:
+			val = f
 		}
 
 		if surrogate && val != u {
-- 
2.43.0


From 52b34d94c13d93cb48361163385df28a52292e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:40 +0000
Subject: [PATCH 12/72] fix: refuse a tree node without a predicate

Such a node compiled and then panicked (nil function) when evaluated.
---
 evaluation/tree.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 4faf438..4bebeb7 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -526,6 +526,8 @@ func newNode(m *TreeModel, modelNode models.Node) (node, error) {
 		n.test = func(input DataRow) predicateResult {
 			return f
 		}
+	default:
+		return n, fmt.Errorf("node %q has no predicate", modelNode.ID)
 	}
 
 	return n, nil
-- 
2.43.0


From 4c5eb00a4ac08384d9602e275efcb1bd62a3d566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:02 +0000
Subject: [PATCH 13/72] fix: evaluate SimpleSetPredicate

The predicate was accepted and then always false, so a tree splitting on a
set of categories silently took the wrong branch.
---
 evaluation/tree.go | 71 ++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 66 insertions(+), 5 deletions(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 4bebeb7..b8afadb 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -452,11 +452,54 @@ func compilePredicate(m *TreeModel, pi models.Predicate) (models.Predicate, erro
 		}
 
 		return &compiled, nil
+	case *models.SimpleSetPredicate:
+		literals, err := setLiterals(m, p)
+		if err != nil {
+			return nil, err
+		}
+
+		return &setPredicate{SimpleSetPredicate: p, literals: literals}, nil
 	}
 
 	return pi, nil
 }
 
+// setPredicate is a SimpleSetPredicate with its array parsed.
+type setPredicate struct {
+	*models.SimpleSetPredicate
+
+	literals []interface{}
+}
+
+func setLiterals(m *TreeModel, p *models.SimpleSetPredicate) ([]interface{}, error) {
+	fieldType, ok := m.fieldTypes[p.Field]
+	if !ok {
+		return nil, fmt.Errorf("unknown field type for %s", p.Field)
+	}
+
+	// the members take the type of the field, whatever the type of the array
+	array := models.ArrayType(p.Array)
+	array.Type = models.ArrayTypeTypeString
+
+	values, err := array.Strings()
+	if err != nil {
+		return nil, err
+	}
+
+	literals := make([]interface{}, 0, len(values))
+
+	for _, value := range values {
+		literal, err := getRawValue(fieldType, value)
+		if err != nil {
+			return nil, err
+		}
+
+		literals = append(literals, literal)
+	}
+
+	return literals, nil
+}
+
 func newNode(m *TreeModel, modelNode models.Node) (node, error) {
 	n := node{
 		id:           modelNode.ID,
@@ -522,9 +565,9 @@ func newNode(m *TreeModel, modelNode models.Node) (node, error) {
 		n.test = func(input DataRow) predicateResult {
 			return evaluateCompoundPredicate(p, input, m.fieldTypes)
 		}
-	case *models.SimpleSetPredicate:
+	case *setPredicate:
 		n.test = func(input DataRow) predicateResult {
-			return f
+			return evaluateSimpleSetPredicate(p, input)
 		}
 	default:
 		return n, fmt.Errorf("node %q has no predicate", modelNode.ID)
@@ -640,7 +683,25 @@ func evaluateSimplePredicate(p *models.SimplePredicate, input DataRow, fieldType
 	return f
 }
 
-func evaluateSimpleSetPredicate(p *models.SimpleSetPredicate, input DataRow, fieldTypes map[models.FieldName]models.DataType) predicateResult {
+func evaluateSimpleSetPredicate(p *setPredicate, input DataRow) predicateResult {
+	val, ok := input[string(p.Field)]
+	if !ok || val.Raw() == nil {
+		return u
+	}
+
+	isIn := false
+
+	for _, literal := range p.literals {
+		if val.equal(literal) {
+			isIn = true
+			break
+		}
+	}
+
+	if isIn == (p.BooleanOperator == models.SimpleSetPredicateOperatorIsIn) {
+		return t
+	}
+
 	return f
 }
 
@@ -657,8 +718,8 @@ func evaluateCompoundPredicate(p *models.CompoundPredicate, input DataRow, field
 			val = evaluateSimplePredicate(c, input, fieldTypes)
 		case *models.CompoundPredicate:
 			val = evaluateCompoundPredicate(c, input, fieldTypes)
-		case *models.SimpleSetPredicate:
-			val = evaluateSimpleSetPredicate(c, input, fieldTypes)
+		case *setPredicate:
+			val = evaluateSimpleSetPredicate(c, input)
 		case *models.True:
 			val = t
 		case *models.False:
-- 
2.43.0


From ce7b15fe3b8ee04b7e97550e7688bae8d164ac99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:51 +0000
Subject: [PATCH 14/72] fix: score regression trees with a target field, and
 null predictions

A regression tree whose mining schema names its target, or one with no true
child under returnNullPrediction, panicked on an empty score list; a
classification tree predicted the label "" instead of nothing.
---
 evaluation/tree.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index b8afadb..f8fdf52 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -101,6 +101,10 @@ func (n node) outputScoreDist() []scoreDist {
 		return nil
 	}
 
+	if n.m.model.FunctionName == models.MiningFunctionRegression {
+		return []scoreDist{n.score}
+	}
+
 	if len(n.scoreDist) > 0 {
 		return n.scoreDist
 	}
@@ -824,7 +828,7 @@ func (m *TreeModel) Evaluate(input DataRow) (DataRow, error) {
 
 	scores, result := m.root.evaluate(input)
 
-	if result == t {
+	if result == t && len(scores) > 0 {
 		best := pickBest(scores)
 		out := make(DataRow)
 
-- 
2.43.0


From a7a72b3b75dde4f99948dda48a5bf6fff542b4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:09 +0000
Subject: [PATCH 15/72] fix: name a tree's prediction after its target field

A regression tree reported only "score", so verifying one against its target
field always failed; a classification tree without a target (an ensemble
member) reported its label under the empty name.
---
 evaluation/tree.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index f8fdf52..7b91793 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -833,7 +833,10 @@ func (m *TreeModel) Evaluate(input DataRow) (DataRow, error) {
 		out := make(DataRow)
 
 		if m.model.FunctionName == models.MiningFunctionClassification {
-			out[string(m.targetField)] = NewValue(best.value)
+			if m.targetField != "" {
+				out[string(m.targetField)] = NewValue(best.value)
+			}
+
 			for _, score := range scores {
 				key := fmt.Sprintf("probability(%s)", score.value)
 				out[key] = NewValue(score.probability)
@@ -845,6 +848,10 @@ func (m *TreeModel) Evaluate(input DataRow) (DataRow, error) {
 			}
 
 			out["score"] = NewValue(score)
+
+			if m.targetField != "" {
+				out[string(m.targetField)] = NewValue(score)
+			}
 		}
 
 		return out, nil
-- 
2.43.0


From 7141eb2a71cb2a316d66d9f259cf81746c243a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:39 +0000
Subject: [PATCH 16/72] fix: predict a node's score when the data dictionary
 does not list it

A classification leaf whose score is not among its target's declared values
(or whose target declares none, or with no target) predicted the label ""
or gave its own class probability 0.
---
 evaluation/tree.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 7b91793..ff91489 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -111,11 +111,14 @@ func (n node) outputScoreDist() []scoreDist {
 
 	sd := make([]scoreDist, 0, 0)
 
+	listed := false
+
 	if n.m.targetField != "" {
 		for _, field := range n.m.dd.DataFields {
 			if field.Name == n.m.targetField {
 				for _, val := range field.Values {
 					if val.Value == n.score.value {
+						listed = true
 						sd = append(sd, scoreDist{val.Value, 1.0, 1.0, n.score.recordCount})
 					} else {
 						sd = append(sd, scoreDist{val.Value, 0.0, 0.0, 0})
@@ -123,8 +126,14 @@ func (n node) outputScoreDist() []scoreDist {
 				}
 			}
 		}
-	} else {
-		sd = append(sd, n.score)
+	}
+
+	if !listed {
+		if n.score.value == "" {
+			return nil
+		}
+
+		sd = append(sd, scoreDist{n.score.value, 1.0, 1.0, n.score.recordCount})
 	}
 
 	return sd
-- 
2.43.0


From 0af1e398a26debc86b7fabb3c4181fb76bc8be5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:40 +0000
Subject: [PATCH 17/72] fix: stop at the first true or unknown child under
 lastPrediction

The strategy took the last true child, let an unknown sibling after the true
child discard it, and returned nothing at an unknown split when
noTrueChildStrategy is returnNullPrediction.
---
 evaluation/tree.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index ff91489..5652d1d 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -101,6 +101,10 @@ func (n node) outputScoreDist() []scoreDist {
 		return nil
 	}
 
+	return n.ownScoreDist()
+}
+
+func (n node) ownScoreDist() []scoreDist {
 	if n.m.model.FunctionName == models.MiningFunctionRegression {
 		return []scoreDist{n.score}
 	}
@@ -164,25 +168,18 @@ func (n node) evaluateMissingValueStrategyLastPrediction(input DataRow) ([]score
 		return emptyScoreDist, result
 	}
 
-	unknownValues := false
-	var trueDist []scoreDist
-
 	for _, c := range n.children {
 		score, childResult := c.evaluateMissingValueStrategyLastPrediction(input)
 
 		if childResult == u {
-			unknownValues = true
+			return n.ownScoreDist(), result
 		}
 
 		if childResult == t {
-			trueDist = score
+			return score, result
 		}
 	}
 
-	if !unknownValues && len(trueDist) != 0 {
-		return trueDist, t
-	}
-
 	return n.outputScoreDist(), result
 }
 
-- 
2.43.0


From f7b5fdb330a2e8f58c3c31671ff619a9e4574fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:53 +0000
Subject: [PATCH 18/72] fix: follow the default child at the first unknown
 child

defaultChild took the last true child, let an unknown sibling after a true
child override it, and predicted nothing when the default child's own
predicate was false for the row.
---
 evaluation/tree.go | 42 ++++++++++++++++++++----------------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 5652d1d..122a66e 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -186,37 +186,35 @@ func (n node) evaluateMissingValueStrategyLastPrediction(input DataRow) ([]score
 func (n node) evaluateMissingValueStrategyDefaultChild(input DataRow) ([]scoreDist, predicateResult) {
 	result := n.test(input)
 
-	if result == f {
+	if result != t {
 		return emptyScoreDist, result
 	}
 
-	childScores := make(map[string][]scoreDist)
-	unknownValues := false
-	var trueDist []scoreDist
+	return n.descendMissingValueStrategyDefaultChild(input), result
+}
 
+// descendMissingValueStrategyDefaultChild scores the subtree of a node that
+// was reached, by its own predicate or as its parent's default child.
+func (n node) descendMissingValueStrategyDefaultChild(input DataRow) []scoreDist {
 	for _, c := range n.children {
-		score, childResult := c.evaluateMissingValueStrategyDefaultChild(input)
-		childScores[c.id] = score
-
-		if childResult == u {
-			unknownValues = true
-		}
-
-		if childResult == t {
-			trueDist = score
+		switch c.test(input) {
+		case t:
+			return c.descendMissingValueStrategyDefaultChild(input)
+		case u:
+			return n.scoreDefaultChild(input)
 		}
 	}
 
-	if !unknownValues && len(trueDist) != 0 {
-		return trueDist, t
-	}
+	return n.outputScoreDist()
+}
 
-	if unknownValues {
-		defaultScores, ok := childScores[n.defaultChild]
-		if !ok {
-			return emptyScoreDist, u
+func (n node) scoreDefaultChild(input DataRow) []scoreDist {
+	for _, c := range n.children {
+		if n.defaultChild == "" || c.id != n.defaultChild {
+			continue
 		}
 
+		defaultScores := c.descendMissingValueStrategyDefaultChild(input)
 		adjustedScores := make([]scoreDist, len(defaultScores), len(defaultScores))
 
 		for idx, score := range defaultScores {
@@ -225,10 +223,10 @@ func (n node) evaluateMissingValueStrategyDefaultChild(input DataRow) ([]scoreDi
 			adjustedScores[idx] = score
 		}
 
-		return adjustedScores, t
+		return adjustedScores
 	}
 
-	return n.outputScoreDist(), result
+	return nil
 }
 
 func (n node) evaluateMissingValueStrategyNullPrediction(input DataRow) ([]scoreDist, predicateResult) {
-- 
2.43.0


From 68a092387f65604c095f3340fd591809aa77b783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:14 +0000
Subject: [PATCH 19/72] fix: weight every possible child once under
 weightedConfidence

Children were keyed by node id (children without ids replaced each other),
summed in map order (the winner of a tie changed from call to call), a true
child before the unknown one did not win, and a node whose own predicate was
unknown reported itself as true, hiding its siblings.
---
 evaluation/tree.go | 54 ++++++++++++++++++++++++----------------------
 1 file changed, 28 insertions(+), 26 deletions(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 122a66e..ea43bbd 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -255,6 +255,20 @@ func (n node) evaluateMissingValueStrategyNullPrediction(input DataRow) ([]score
 	return n.outputScoreDist(), result
 }
 
+// findScore returns the entry for a class, adding it when it is not there yet:
+// the classes keep the order in which the tree lists them.
+func findScore(scores *[]scoreDist, value string) *scoreDist {
+	for i := range *scores {
+		if (*scores)[i].value == value {
+			return &(*scores)[i]
+		}
+	}
+
+	*scores = append(*scores, scoreDist{value: value})
+
+	return &(*scores)[len(*scores)-1]
+}
+
 func (n node) evaluateMissingValueStrategyWeightedConfidence(input DataRow) ([]scoreDist, predicateResult) {
 	result := n.test(input)
 
@@ -263,56 +277,44 @@ func (n node) evaluateMissingValueStrategyWeightedConfidence(input DataRow) ([]s
 	}
 
 	unknownValues := false
-	var trueDist []scoreDist
-	childRecordCounts := make(map[string]float64)
-	childScores := make(map[string][]scoreDist)
+	var childRecordCounts []float64
+	var childScores [][]scoreDist
 	totalRecordCount := 0.0
 
 	for _, c := range n.children {
 		scores, childResult := c.evaluateMissingValueStrategyWeightedConfidence(input)
 
+		// the first true child wins, unless an unknown one precedes it
+		if childResult == t && !unknownValues {
+			return scores, result
+		}
+
 		if childResult != f {
-			childRecordCounts[c.id] = c.score.recordCount
-			childScores[c.id] = scores
+			childRecordCounts = append(childRecordCounts, c.score.recordCount)
+			childScores = append(childScores, scores)
 			totalRecordCount += c.score.recordCount
 		}
 
 		if childResult == u {
 			unknownValues = true
-		} else if childResult == t {
-			trueDist = scores
 		}
 	}
 
-	if !unknownValues && len(trueDist) > 0 {
-		return trueDist, result
-	}
-
 	if unknownValues {
-		aggScoreMap := make(map[string]scoreDist)
+		aggScores := make([]scoreDist, 0, 0)
 
-		for nid, scores := range childScores {
+		for i, scores := range childScores {
 			for _, score := range scores {
-				aggScore, ok := aggScoreMap[score.value]
-				if !ok {
-					aggScore = scoreDist{value: score.value}
-				}
-				nodeRecordCount := childRecordCounts[nid]
+				aggScore := findScore(&aggScores, score.value)
+				nodeRecordCount := childRecordCounts[i]
 
 				aggScore.recordCount += score.recordCount
 				aggScore.probability += score.probability * (nodeRecordCount / totalRecordCount)
 				aggScore.confidence += score.confidence * (nodeRecordCount / totalRecordCount)
-
-				aggScoreMap[score.value] = aggScore
 			}
 		}
 
-		aggScores := make([]scoreDist, 0, 0)
-		for _, aggScore := range aggScoreMap {
-			aggScores = append(aggScores, aggScore)
-		}
-
-		return aggScores, t
+		return aggScores, result
 	}
 
 	return n.outputScoreDist(), result
-- 
2.43.0


From 877082d0d67e5cb19ab5aa5f79c65eac442fbcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:34 +0000
Subject: [PATCH 20/72] fix: aggregate only the possible children under
 aggregateNodes

Children whose predicate is false contributed their record counts, a true
child before the unknown one did not win, a node whose own predicate was
unknown reported itself as true, and the winner of a tie followed map order.
---
 evaluation/tree.go | 37 ++++++++++++++-----------------------
 1 file changed, 14 insertions(+), 23 deletions(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index ea43bbd..9016016 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -329,47 +329,38 @@ func (n node) evaluateMissingValueStrategyAggregateNodes(input DataRow) ([]score
 
 	childScores := make([]scoreDist, 0, 0)
 	unknownValues := false
-	var trueDist []scoreDist
 
 	for _, c := range n.children {
 		score, childResult := c.evaluateMissingValueStrategyAggregateNodes(input)
-		childScores = append(childScores, score...)
+		// the first true child wins, unless an unknown one precedes it
+		if childResult == t && !unknownValues {
+			return score, result
+		}
+
+		if childResult != f {
+			childScores = append(childScores, score...)
+		}
 
 		if childResult == u {
 			unknownValues = true
-		} else if childResult == t {
-			trueDist = score
 		}
 	}
 
-	if !unknownValues && len(trueDist) != 0 {
-		return trueDist, result
-	}
-
 	if unknownValues {
-		aggScoreMap := make(map[string]scoreDist)
+		aggScores := make([]scoreDist, 0, 0)
 
 		recordCount := 0.0
 		for _, sc := range childScores {
-			aggScore, ok := aggScoreMap[sc.value]
-
-			if !ok {
-				aggScore.value = sc.value
-			}
-
-			aggScore.recordCount += sc.recordCount
-			aggScoreMap[sc.value] = aggScore
+			findScore(&aggScores, sc.value).recordCount += sc.recordCount
 			recordCount += sc.recordCount
 		}
 
-		aggScores := make([]scoreDist, 0, 0)
-		for _, aggScore := range aggScoreMap {
-			aggScore.probability = aggScore.recordCount / recordCount
-			aggScore.confidence = aggScore.recordCount / recordCount
-			aggScores = append(aggScores, aggScore)
+		for i := range aggScores {
+			aggScores[i].probability = aggScores[i].recordCount / recordCount
+			aggScores[i].confidence = aggScores[i].recordCount / recordCount
 		}
 
-		return aggScores, t
+		return aggScores, result
 	}
 
 	return n.outputScoreDist(), result
-- 
2.43.0


From 356af6786b25d9aa9c06fdcfb1d33f291af70bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:51 +0000
Subject: [PATCH 21/72] fix: default noTrueChildStrategy to
 returnNullPrediction

The schema's default is returnNullPrediction; a tree that left the attribute
out predicted the last node's score as if returnLastPrediction was declared.
---
 evaluation/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 9016016..4e29f19 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -97,7 +97,7 @@ func (n node) evaluate(input DataRow) ([]scoreDist, predicateResult) {
 var emptyScoreDist []scoreDist
 
 func (n node) outputScoreDist() []scoreDist {
-	if !n.leaf() && n.m.model.NoTrueChildStrategy == models.NoTrueChildStrategyReturnNullPrediction {
+	if !n.leaf() && n.m.model.NoTrueChildStrategy != models.NoTrueChildStrategyReturnLastPrediction {
 		return nil
 	}
 
-- 
2.43.0


From f76f952b05d732301cc275be546bac37176c4850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:10 +0000
Subject: [PATCH 22/72] fix: default missingValuePenalty to 1

An absent penalty decoded as 0, so following a default child zeroed every
probability and the predicted label was "".
---
 models/elements.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/models/elements.go b/models/elements.go
index 2d83fdd..9eecd87 100644
--- a/models/elements.go
+++ b/models/elements.go
@@ -5546,6 +5546,15 @@ type TreeModel struct {
 
 func (*TreeModel) modelElement() {}
 
+// UnmarshalXML implements the xml.Unmarshaler interface.
+func (x *TreeModel) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) error {
+	type plain TreeModel
+
+	x.MissingValuePenalty = 1
+
+	return decoder.DecodeElement((*plain)(x), &start)
+}
+
 /*
   <xs:element name="Trend_ExpoSmooth">
     <xs:complexType>
-- 
2.43.0


From 2f3f04fd667d94677ffba67aa12ce96889877d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:11 +0000
Subject: [PATCH 23/72] fix: make concurrent decoding free of data races

go-defaults creates its global filler on first use; two goroutines decoding
their first documents raced on it.
---
 models/helpers.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/models/helpers.go b/models/helpers.go
index 51dc013..3795d18 100644
--- a/models/helpers.go
+++ b/models/helpers.go
@@ -1,5 +1,15 @@
 package models
 
+import (
+	defaults "github.com/mcuadros/go-defaults"
+)
+
+func init() {
+	// the package builds its filler on first use, without synchronisation:
+	// have it built before documents are decoded concurrently
+	defaults.SetDefaults(&struct{}{})
+}
+
 func String(v string) *string {
 	return &v
 }
-- 
2.43.0


From d2d1e5e274d3618435c35fe4f525282b1c9f0434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:49 +0000
Subject: [PATCH 24/72] fix: skip unknown elements instead of ending the parent
 early

The hand-written decoders ignored an unknown start tag but took its end tag
for their own, so a valid document with, say, an Extension or an element of a
newer PMML version inside PMML, Segment, Node or InlineTable failed to load.
---
 models/elements.go | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/models/elements.go b/models/elements.go
index 9eecd87..14cb23c 100644
--- a/models/elements.go
+++ b/models/elements.go
@@ -171,6 +171,8 @@ func (x *Alternate) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) e
 						return err
 					}
 					x.Distribution = item
+				} else if err = decoder.Skip(); err != nil {
+					return err
 				}
 			}
 		case xml.EndElement:
@@ -406,6 +408,10 @@ func (x *Apply) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) error
 				item = &NormDiscrete{}
 			case "TextIndex":
 				item = &TextIndex{}
+			default:
+				if err = decoder.Skip(); err != nil {
+					return err
+				}
 			}
 
 			if item != nil {
@@ -959,6 +965,10 @@ func (x *ChildParent) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement)
 				item = &InlineTable{}
 			case "TableLocator":
 				item = &TableLocator{}
+			default:
+				if err = decoder.Skip(); err != nil {
+					return err
+				}
 			}
 
 			if item != nil {
@@ -1256,6 +1266,8 @@ func (x *CompoundPredicate) UnmarshalXML(decoder *xml.Decoder, start xml.StartEl
 					}
 
 					x.Predicates = append(x.Predicates, item)
+				} else if err = decoder.Skip(); err != nil {
+					return err
 				}
 			}
 
@@ -1771,6 +1783,10 @@ func (x *DefineFunction) UnmarshalXML(decoder *xml.Decoder, start xml.StartEleme
 				item = &NormDiscrete{}
 			case "TextIndex":
 				item = &TextIndex{}
+			default:
+				if err = decoder.Skip(); err != nil {
+					return err
+				}
 			}
 
 			if item != nil {
@@ -1892,6 +1908,10 @@ func (x *DerivedField) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement
 				item = &NormDiscrete{}
 			case "TextIndex":
 				item = &TextIndex{}
+			default:
+				if err = decoder.Skip(); err != nil {
+					return err
+				}
 			}
 
 			if item != nil {
@@ -2424,6 +2444,8 @@ func (x *InlineTable) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement)
 				}
 
 				x.Rows = append(x.Rows, row)
+			} else if err = decoder.Skip(); err != nil {
+				return err
 			}
 
 		case xml.EndElement:
@@ -3418,6 +3440,8 @@ func (x *Node) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) error
 						return err
 					}
 					x.EmbeddedModel = item
+				} else if err = decoder.Skip(); err != nil {
+					return err
 				}
 			}
 
@@ -3791,6 +3815,8 @@ func (x *PMML) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) error
 					}
 
 					x.Models = append(x.Models, model)
+				} else if err = decoder.Skip(); err != nil {
+					return err
 				}
 			}
 		case xml.EndElement:
@@ -4538,6 +4564,11 @@ func (x *Segment) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) err
 				}
 
 				x.Models = append(x.Models, model)
+				continue
+			}
+
+			if err = decoder.Skip(); err != nil {
+				return err
 			}
 		case xml.EndElement:
 			return nil
-- 
2.43.0


From 62d6f6f4aacd6807910cda30401e735e84cfa40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:50 +0000
Subject: [PATCH 25/72] fix: decode the extensions of PMML, Segment and
 InlineTable

Their Extensions fields were never filled.
---
 models/elements.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/models/elements.go b/models/elements.go
index 14cb23c..5e0532f 100644
--- a/models/elements.go
+++ b/models/elements.go
@@ -2444,6 +2444,14 @@ func (x *InlineTable) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement)
 				}
 
 				x.Rows = append(x.Rows, row)
+			} else if tok.Name.Local == "Extension" {
+				var e Extension
+				err = decoder.DecodeElement(&e, &tok)
+				if err != nil {
+					return err
+				}
+
+				x.Extensions = append(x.Extensions, e)
 			} else if err = decoder.Skip(); err != nil {
 				return err
 			}
@@ -3787,6 +3795,13 @@ func (x *PMML) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) error
 		switch tok := token.(type) {
 		case xml.StartElement:
 			switch tok.Name.Local {
+			case "Extension":
+				var e Extension
+				err = decoder.DecodeElement(&e, &tok)
+				if err != nil {
+					return err
+				}
+				x.Extensions = append(x.Extensions, e)
 			case "Header":
 				err = decoder.DecodeElement(&x.Header, &tok)
 				if err != nil {
@@ -4567,6 +4582,17 @@ func (x *Segment) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) err
 				continue
 			}
 
+			if tok.Name.Local == "Extension" {
+				var e Extension
+				err = decoder.DecodeElement(&e, &tok)
+				if err != nil {
+					return err
+				}
+
+				x.Extensions = append(x.Extensions, e)
+				continue
+			}
+
 			if err = decoder.Skip(); err != nil {
 				return err
 			}
-- 
2.43.0


From e4474d4f4c0732864af18673312b820567f80630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:32 +0000
Subject: [PATCH 26/72] fix: decode seven attributes under their schema names

Apply@invalidValueTreatment, AssociationModel@maxNumberOfItemsPerTA,
BaselineCell@time, CategoricalPredictor@name, NumericInfo@standardDeviation,
OutputField@optype and Value@property were read from names (or a child
element) the schema does not have, and so were always empty.
---
 models/elements.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/models/elements.go b/models/elements.go
index 5e0532f..2bbdf74 100644
--- a/models/elements.go
+++ b/models/elements.go
@@ -339,7 +339,7 @@ type Application struct {
 type Apply struct {
 	DefaultValue          *string                     `xml:"defaultValue,attr"`
 	Function              string                      `xml:"function,attr"`
-	InvalidValueTreatment InvalidValueTreatmentMethod `xml:"returnInvalid,attr" default:"returnInvalid"`
+	InvalidValueTreatment InvalidValueTreatmentMethod `xml:"invalidValueTreatment,attr" default:"returnInvalid"`
 	MapMissingTo          *string                     `xml:"mapMissingTo,attr"`
 
 	Extensions  []Extension `xml:"Extension"`
@@ -359,7 +359,7 @@ func (x *Apply) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) error
 			x.DefaultValue = &val
 		case "function":
 			x.Function = attr.Value
-		case "returnInvalid":
+		case "invalidValueTreatment":
 			if attr.Value != "" {
 				x.InvalidValueTreatment = InvalidValueTreatmentMethod(attr.Value)
 			}
@@ -470,7 +470,7 @@ type AssociationModel struct {
 	FunctionName          MiningFunction       `xml:"functionName,attr"`
 	IsScorable            bool                 `xml:"isScorable,attr"`
 	LengthLimit           int                  `xml:"lengthLimit,attr"`
-	MaxNumberOfItemsPerTA int                  `xml:"maxNumberOfItemsTA,attr"`
+	MaxNumberOfItemsPerTA int                  `xml:"maxNumberOfItemsPerTA,attr"`
 	MinimumConfidence     float64              `xml:"minimumConfidence,attr"`
 	MinimumSupport        float64              `xml:"minimumSupport,attr"`
 	ModelName             string               `xml:"modelName,attr"`
@@ -575,7 +575,7 @@ type BaseCumHazardTables struct {
 */
 type BaselineCell struct {
 	CumHazard  float64     `xml:"cumHazard,attr"`
-	Time       float64     `xml:"time"`
+	Time       float64     `xml:"time,attr"`
 	Extensions []Extension `xml:"Extension"`
 }
 
@@ -814,7 +814,7 @@ type BoundaryValues struct {
 */
 type CategoricalPredictor struct {
 	Coefficient RealNumber  `xml:"coefficient,attr"`
-	Name        FieldName   `xml:"fieldName,attr"`
+	Name        FieldName   `xml:"name,attr"`
 	Value       string      `xml:"value,attr"`
 	Extensions  []Extension `xml:"Extension"`
 }
@@ -3538,7 +3538,7 @@ type NumericInfo struct {
 	Mean               Number `xml:"mean,attr"`
 	Median             Number `xml:"median,attr"`
 	Minimum            Number `xml:"minimum,attr"`
-	StandardDeviation  Number `xml:"standardDeviation"`
+	StandardDeviation  Number `xml:"standardDeviation,attr"`
 
 	Extensions []Extension `xml:"Extension"`
 	Quantiles  []Quantile  `xml:"Quantile"`
@@ -3652,7 +3652,7 @@ type OutputField struct {
 	Feature       ResultFeature        `xml:"feature,attr"`
 	IsMultiValued int                  `xml:"isMultiValued,attr"`
 	Name          FieldName            `xml:"name,attr"`
-	OpType        OpType               `xml:"opType,attr"`
+	OpType        OpType               `xml:"optype,attr"`
 	Rank          int                  `xml:"rank,attr"`
 	RankBasis     RankBasis            `xml:"rankBasis,attr"`
 	RankOrder     RankOrder            `xml:"rankOrder,attr"`
@@ -5780,7 +5780,7 @@ const (
 */
 type Value struct {
 	DisplayValue string     `xml:"displayValue,attr"`
-	Valid        ValueValid `xml:"valid,attr"`
+	Valid        ValueValid `xml:"property,attr"`
 	Value        string     `xml:"value,attr"`
 
 	Extensions []Extension `xml:"Extension"`
-- 
2.43.0


From af904131901dbbe511df689da4b2cc6b0b26a332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:52 +0000
Subject: [PATCH 27/72] fix: decode entities in Constant values

The value was the raw inner XML: "a&lt;b" stayed escaped and a comment
became part of the constant.
---
 models/elements.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/elements.go b/models/elements.go
index 2bbdf74..6ea3957 100644
--- a/models/elements.go
+++ b/models/elements.go
@@ -1348,7 +1348,7 @@ type ConsequentSequence struct {
 */
 type Constant struct {
 	DataType DataType `xml:"dataType,attr"`
-	Value    string   `xml:",innerxml"`
+	Value    string   `xml:",chardata"`
 }
 
 func (*Constant) expression() {}
-- 
2.43.0


From 608e60ee562fb4b21011cd5b9c136d75338ff2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:53 +0000
Subject: [PATCH 28/72] fix: evaluate regressions without a normalization
 method

Plain linear regression (normalizationMethod absent or none) always failed
with "unrecognized normalization method".
---
 evaluation/regression.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index 9d75794..3f14b65 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -67,6 +67,8 @@ func (m *RegressionModel) Verify() error {
 
 func (m *RegressionModel) normalize(term float64) (float64, error) {
 	switch m.model.RegressionNormalizationMethod {
+	case "", models.RegressionNormalizationMethodNone:
+		return term, nil
 	case models.RegressionNormalizationMethodSoftmax:
 		return 1.0 / (1.0 + math.Exp(-term)), nil
 	case models.RegressionNormalizationMethodLogit:
-- 
2.43.0


From 41b6020eb3feb5c555036a04dd6975076f63756e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:34 +0000
Subject: [PATCH 29/72] fix: apply coefficients in binary regression
 classification

---
 evaluation/regression.go | 74 +++++++++++++++++++++-------------------
 1 file changed, 39 insertions(+), 35 deletions(-)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index 3f14b65..ef4c4e5 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -86,7 +86,9 @@ func (m *RegressionModel) normalize(term float64) (float64, error) {
 func (m *RegressionModel) Evaluate(input DataRow) (DataRow, error) {
 	if m.model.FunctionName == "regression" {
 		return m.EvaluateRegression(input)
-	} else if m.model.FunctionName == "classification" && len(m.model.Output.Fields) == 2 {
+	} else if m.model.FunctionName == "classification" && len(m.model.RegressionTables) == 2 &&
+		m.model.RegressionNormalizationMethod != models.RegressionNormalizationMethodSoftmax &&
+		m.model.RegressionNormalizationMethod != models.RegressionNormalizationMethodSimplemax {
 		return m.EvaluateBinaryClassification(input)
 	} else if m.model.FunctionName == "classification" {
 		return m.EvaluateMulticlassClassification(input)
@@ -94,6 +96,21 @@ func (m *RegressionModel) Evaluate(input DataRow) (DataRow, error) {
 	return nil, fmt.Errorf("unrecognized regression function name: %s", m.model.FunctionName)
 }
 
+func evaluateTable(rtbl models.RegressionTable, input DataRow) (float64, error) {
+	y := rtbl.Intercept
+	for _, np := range rtbl.NumericPredictor {
+		term, ok := input[np.Name]
+		if !ok {
+			return 0.0, fmt.Errorf("regression missing term %s", np.Name)
+		}
+		indVar := term.Float64()
+		coeff := np.Coefficient
+		y += coeff * indVar
+	}
+
+	return y, nil
+}
+
 func (m *RegressionModel) EvaluateRegression(input DataRow) (DataRow, error) {
 	out := make(DataRow)
 
@@ -107,15 +124,9 @@ func (m *RegressionModel) EvaluateRegression(input DataRow) (DataRow, error) {
 	}
 	outField := m.model.Output.Fields[0]
 
-	y := rtbl.Intercept
-	for _, np := range rtbl.NumericPredictor {
-		term, ok := input[np.Name]
-		if !ok {
-			return nil, fmt.Errorf("regression missing term %s", np.Name)
-		}
-		indVar := term.Float64()
-		coeff := np.Coefficient
-		y += coeff * indVar
+	y, err := evaluateTable(rtbl, input)
+	if err != nil {
+		return nil, err
 	}
 
 	pred, err := m.normalize(y)
@@ -132,23 +143,20 @@ func (m *RegressionModel) EvaluateBinaryClassification(input DataRow) (DataRow,
 
 	finalPred := 1.0
 
-	for _, rtbl := range m.model.RegressionTables {
-		pred := rtbl.Intercept
-
-		if len(rtbl.NumericPredictor) > 0 {
-			for _, np := range rtbl.NumericPredictor {
-				term, ok := input[np.Name]
-				if !ok {
-					return nil, fmt.Errorf("regression missing term %s", np.Name)
-				}
-				normalized, err := m.normalize(term.Float64())
-				if err != nil {
-					return out, err
-				}
-				pred += normalized
+	for i, rtbl := range m.model.RegressionTables {
+		// the last category takes the remaining probability
+		pred := finalPred
+
+		if i < len(m.model.RegressionTables)-1 {
+			y, err := evaluateTable(rtbl, input)
+			if err != nil {
+				return nil, err
+			}
+
+			pred, err = m.normalize(y)
+			if err != nil {
+				return out, err
 			}
-		} else {
-			pred = finalPred
 		}
 
 		finalPred = finalPred - pred
@@ -175,16 +183,12 @@ func (m *RegressionModel) EvaluateMulticlassClassification(input DataRow) (DataR
 	targets := make([]string, len(m.model.RegressionTables))
 	for i, rtbl := range m.model.RegressionTables {
 		targets[i] = outFields[rtbl.TargetCategory]
-		y[i] = rtbl.Intercept
 
-		for _, np := range rtbl.NumericPredictor {
-			term, ok := input[np.Name]
-			if !ok {
-				return nil, fmt.Errorf("regression missing term %s", np.Name)
-			}
-			indVar := term.Float64()
-			coeff := np.Coefficient
-			y[i] += coeff * indVar
+		var err error
+
+		y[i], err = evaluateTable(rtbl, input)
+		if err != nil {
+			return nil, err
 		}
 	}
 
-- 
2.43.0


From 9b1d24ee4bf8b7cb623dc02a3cc2e0e04d2b9a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:42 +0000
Subject: [PATCH 30/72] fix: apply the exponents of numeric predictors

---
 evaluation/regression.go | 2 +-
 models/elements.go       | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index ef4c4e5..116394c 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -103,7 +103,7 @@ func evaluateTable(rtbl models.RegressionTable, input DataRow) (float64, error)
 		if !ok {
 			return 0.0, fmt.Errorf("regression missing term %s", np.Name)
 		}
-		indVar := term.Float64()
+		indVar := math.Pow(term.Float64(), float64(np.Exponent))
 		coeff := np.Coefficient
 		y += coeff * indVar
 	}
diff --git a/models/elements.go b/models/elements.go
index 6ea3957..8367842 100644
--- a/models/elements.go
+++ b/models/elements.go
@@ -3564,6 +3564,15 @@ type NumericPredictor struct {
 	Extensions []Extension `xml:"Extension"`
 }
 
+// UnmarshalXML implements the xml.Unmarshaler interface.
+func (x *NumericPredictor) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) error {
+	type plain NumericPredictor
+
+	x.Exponent = 1
+
+	return decoder.DecodeElement((*plain)(x), &start)
+}
+
 /*
   <xs:element name="OptimumLiftGraph">
     <xs:complexType>
-- 
2.43.0


From 0764c46de95e73bdccccb451484a51b33cb751b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:44 +0000
Subject: [PATCH 31/72] fix: apply categorical predictors

---
 evaluation/regression.go | 43 ++++++++++++++++++++++++++++++++++++----
 models/elements.go       |  9 +++++----
 2 files changed, 44 insertions(+), 8 deletions(-)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index 116394c..e278cac 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -96,7 +96,7 @@ func (m *RegressionModel) Evaluate(input DataRow) (DataRow, error) {
 	return nil, fmt.Errorf("unrecognized regression function name: %s", m.model.FunctionName)
 }
 
-func evaluateTable(rtbl models.RegressionTable, input DataRow) (float64, error) {
+func (m *RegressionModel) evaluateTable(rtbl models.RegressionTable, input DataRow) (float64, error) {
 	y := rtbl.Intercept
 	for _, np := range rtbl.NumericPredictor {
 		term, ok := input[np.Name]
@@ -108,9 +108,44 @@ func evaluateTable(rtbl models.RegressionTable, input DataRow) (float64, error)
 		y += coeff * indVar
 	}
 
+	for _, cp := range rtbl.CategoricalPredictor {
+		// a missing value is none of the categories
+		val, ok := input[string(cp.Name)]
+		if !ok || val.Raw() == nil {
+			continue
+		}
+
+		match, err := m.isCategory(val, cp)
+		if err != nil {
+			return 0.0, err
+		}
+
+		if match {
+			y += float64(cp.Coefficient)
+		}
+	}
+
 	return y, nil
 }
 
+// isCategory compares the value in the declared type of the predictor's field.
+func (m *RegressionModel) isCategory(val Value, cp models.CategoricalPredictor) (bool, error) {
+	for _, df := range m.dd.DataFields {
+		if df.Name != cp.Name {
+			continue
+		}
+
+		category, err := getRawValue(df.DataType, cp.Value)
+		if err != nil {
+			return false, fmt.Errorf("category %q of %s: %v", cp.Value, cp.Name, err)
+		}
+
+		return val.equal(category), nil
+	}
+
+	return val.equal(cp.Value), nil
+}
+
 func (m *RegressionModel) EvaluateRegression(input DataRow) (DataRow, error) {
 	out := make(DataRow)
 
@@ -124,7 +159,7 @@ func (m *RegressionModel) EvaluateRegression(input DataRow) (DataRow, error) {
 	}
 	outField := m.model.Output.Fields[0]
 
-	y, err := evaluateTable(rtbl, input)
+	y, err := m.evaluateTable(rtbl, input)
 	if err != nil {
 		return nil, err
 	}
@@ -148,7 +183,7 @@ func (m *RegressionModel) EvaluateBinaryClassification(input DataRow) (DataRow,
 		pred := finalPred
 
 		if i < len(m.model.RegressionTables)-1 {
-			y, err := evaluateTable(rtbl, input)
+			y, err := m.evaluateTable(rtbl, input)
 			if err != nil {
 				return nil, err
 			}
@@ -186,7 +221,7 @@ func (m *RegressionModel) EvaluateMulticlassClassification(input DataRow) (DataR
 
 		var err error
 
-		y[i], err = evaluateTable(rtbl, input)
+		y[i], err = m.evaluateTable(rtbl, input)
 		if err != nil {
 			return nil, err
 		}
diff --git a/models/elements.go b/models/elements.go
index 8367842..8fc9440 100644
--- a/models/elements.go
+++ b/models/elements.go
@@ -4333,10 +4333,11 @@ func (*RegressionModel) modelElement() {}
   </xs:element>
 */
 type RegressionTable struct {
-	Intercept        float64            `xml:"intercept,attr"`
-	TargetCategory   string             `xml:"targetCategory,attr"`
-	NumericPredictor []NumericPredictor `xml:"NumericPredictor"`
-	Extensions       []Extension        `xml:"Extension"`
+	Intercept            float64                `xml:"intercept,attr"`
+	TargetCategory       string                 `xml:"targetCategory,attr"`
+	NumericPredictor     []NumericPredictor     `xml:"NumericPredictor"`
+	CategoricalPredictor []CategoricalPredictor `xml:"CategoricalPredictor"`
+	Extensions           []Extension            `xml:"Extension"`
 }
 
 /*
-- 
2.43.0


From a5662313b988a28c43b5ed161c8b766fb5682d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:12 +0000
Subject: [PATCH 32/72] fix: apply the interaction terms of regression tables

---
 evaluation/regression.go | 15 +++++++++++++++
 models/elements.go       |  6 +++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index e278cac..6795669 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -125,6 +125,21 @@ func (m *RegressionModel) evaluateTable(rtbl models.RegressionTable, input DataR
 		}
 	}
 
+	for _, pt := range rtbl.PredictorTerm {
+		product := float64(pt.Coefficient)
+
+		for _, ref := range pt.FieldRefs {
+			val, ok := input[string(ref.Field)]
+			if !ok || val.Raw() == nil {
+				return 0.0, fmt.Errorf("regression missing term %s", ref.Field)
+			}
+
+			product *= val.Float64()
+		}
+
+		y += product
+	}
+
 	return y, nil
 }
 
diff --git a/models/elements.go b/models/elements.go
index 8fc9440..964d3da 100644
--- a/models/elements.go
+++ b/models/elements.go
@@ -4113,7 +4113,10 @@ type Predictor struct {
   </xs:element>
 */
 type PredictorTerm struct {
-	Extensions []Extension `xml:"Extension"`
+	Coefficient RealNumber  `xml:"coefficient,attr"`
+	Name        FieldName   `xml:"name,attr"`
+	FieldRefs   []FieldRef  `xml:"FieldRef"`
+	Extensions  []Extension `xml:"Extension"`
 }
 
 /*
@@ -4337,6 +4340,7 @@ type RegressionTable struct {
 	TargetCategory       string                 `xml:"targetCategory,attr"`
 	NumericPredictor     []NumericPredictor     `xml:"NumericPredictor"`
 	CategoricalPredictor []CategoricalPredictor `xml:"CategoricalPredictor"`
+	PredictorTerm        []PredictorTerm        `xml:"PredictorTerm"`
 	Extensions           []Extension            `xml:"Extension"`
 }
 
-- 
2.43.0


From 0e792204c0d168eb93723787b1ceb1a3435dbd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:13 +0000
Subject: [PATCH 33/72] fix: report a nil regression term as missing

---
 evaluation/regression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index 6795669..f3b9027 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -100,7 +100,7 @@ func (m *RegressionModel) evaluateTable(rtbl models.RegressionTable, input DataR
 	y := rtbl.Intercept
 	for _, np := range rtbl.NumericPredictor {
 		term, ok := input[np.Name]
-		if !ok {
+		if !ok || term.Raw() == nil {
 			return 0.0, fmt.Errorf("regression missing term %s", np.Name)
 		}
 		indVar := math.Pow(term.Float64(), float64(np.Exponent))
-- 
2.43.0


From b8085a785ca4ec355ed4e93ba85fa8d6ba2c427c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:14 +0000
Subject: [PATCH 34/72] fix: keep softmax finite for large scores

---
 evaluation/regression.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index f3b9027..b71248b 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -245,11 +245,12 @@ func (m *RegressionModel) EvaluateMulticlassClassification(input DataRow) (DataR
 	for i, target := range targets {
 		switch m.model.RegressionNormalizationMethod {
 		case models.RegressionNormalizationMethodSoftmax:
+			// the sum of exp(yVal)/exp(y[i]), which cannot be Inf/Inf
 			s := 0.0
 			for _, yVal := range y {
-				s += math.Exp(yVal)
+				s += math.Exp(yVal - y[i])
 			}
-			out[target] = NewValue(math.Exp(y[i]) / s)
+			out[target] = NewValue(1.0 / s)
 		case models.RegressionNormalizationMethodSimplemax:
 			s := 0.0
 			for _, yVal := range y {
-- 
2.43.0


From 3a375999935ef5c30f226c8a0335b5e3c38c17f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:15 +0000
Subject: [PATCH 35/72] fix: report multiclass probabilities under every output
 field of a category

---
 evaluation/regression.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index b71248b..4edc644 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -224,16 +224,8 @@ func (m *RegressionModel) EvaluateBinaryClassification(input DataRow) (DataRow,
 func (m *RegressionModel) EvaluateMulticlassClassification(input DataRow) (DataRow, error) {
 	out := make(DataRow)
 
-	outFields := make(map[string]string)
-	for _, output := range m.model.Output.Fields {
-		outFields[output.Value] = string(output.Name)
-	}
-
 	y := make([]float64, len(m.model.RegressionTables))
-	targets := make([]string, len(m.model.RegressionTables))
 	for i, rtbl := range m.model.RegressionTables {
-		targets[i] = outFields[rtbl.TargetCategory]
-
 		var err error
 
 		y[i], err = m.evaluateTable(rtbl, input)
@@ -242,7 +234,9 @@ func (m *RegressionModel) EvaluateMulticlassClassification(input DataRow) (DataR
 		}
 	}
 
-	for i, target := range targets {
+	for i, rtbl := range m.model.RegressionTables {
+		var prob float64
+
 		switch m.model.RegressionNormalizationMethod {
 		case models.RegressionNormalizationMethodSoftmax:
 			// the sum of exp(yVal)/exp(y[i]), which cannot be Inf/Inf
@@ -250,16 +244,22 @@ func (m *RegressionModel) EvaluateMulticlassClassification(input DataRow) (DataR
 			for _, yVal := range y {
 				s += math.Exp(yVal - y[i])
 			}
-			out[target] = NewValue(1.0 / s)
+			prob = 1.0 / s
 		case models.RegressionNormalizationMethodSimplemax:
 			s := 0.0
 			for _, yVal := range y {
 				s += yVal
 			}
-			out[target] = NewValue(y[i] / s)
+			prob = y[i] / s
 		default:
 			return out, fmt.Errorf("unsupported normalization method: %v", m.model.RegressionNormalizationMethod)
 		}
+
+		for _, output := range m.model.Output.Fields {
+			if rtbl.TargetCategory == output.Value {
+				out[string(output.Name)] = NewValue(prob)
+			}
+		}
 	}
 	return out, nil
 }
-- 
2.43.0


From 8b69e7de102e7edcc00aa2a9fe934ee91a19adc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:16 +0000
Subject: [PATCH 36/72] fix: validate the regression models that Evaluate
 supports

---
 evaluation/regression.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index 4edc644..f8e2ad8 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -42,18 +42,21 @@ func (m *RegressionModel) Validate() error {
 	if m.model.RegressionNormalizationMethod != models.RegressionNormalizationMethodNone &&
 		m.model.RegressionNormalizationMethod != models.RegressionNormalizationMethodLogit &&
 		m.model.RegressionNormalizationMethod != models.RegressionNormalizationMethodSoftmax &&
+		m.model.RegressionNormalizationMethod != models.RegressionNormalizationMethodSimplemax &&
 		m.model.RegressionNormalizationMethod != models.RegressionNormalizationMethodExp &&
 		m.model.RegressionNormalizationMethod != models.RegressionNormalizationMethodCloglog &&
 		m.model.RegressionNormalizationMethod != models.RegressionNormalizationMethodCauchit {
 		return fmt.Errorf("unsupported regression normalization method %s", m.model.RegressionNormalizationMethod)
 	}
 
-	if m.model.FunctionName != models.MiningFunctionClassification {
+	if m.model.FunctionName != models.MiningFunctionClassification &&
+		m.model.FunctionName != models.MiningFunctionRegression {
 		return fmt.Errorf("unsupported mining function %s", m.model.FunctionName)
 	}
 
 	for _, output := range m.model.Output.Fields {
-		if output.Feature != models.ResultFeatureProbability {
+		if m.model.FunctionName == models.MiningFunctionClassification &&
+			output.Feature != models.ResultFeatureProbability {
 			return fmt.Errorf("unsupported output feature %s", output.Feature)
 		}
 	}
-- 
2.43.0


From 5d8f554c420ce787ef2b2c06979d8005d160b3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:17 +0000
Subject: [PATCH 37/72] fix: apply the local transformations of regression
 models

---
 evaluation/regression.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index f8e2ad8..f0bde75 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -87,6 +87,11 @@ func (m *RegressionModel) normalize(term float64) (float64, error) {
 }
 
 func (m *RegressionModel) Evaluate(input DataRow) (DataRow, error) {
+	input, err := HandleInput(input, m.dd, m.td, &m.model.LocalTransformations, &m.model.MiningSchema)
+	if err != nil {
+		return nil, err
+	}
+
 	if m.model.FunctionName == "regression" {
 		return m.EvaluateRegression(input)
 	} else if m.model.FunctionName == "classification" && len(m.model.RegressionTables) == 2 &&
-- 
2.43.0


From ce07f5faaabf84c15575f441cb5590c07bfe24b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:34 +0000
Subject: [PATCH 38/72] fix: do not count segments twice when a mining model is
 compiled again

---
 evaluation/mining.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/evaluation/mining.go b/evaluation/mining.go
index 91e1db3..69a4421 100644
--- a/evaluation/mining.go
+++ b/evaluation/mining.go
@@ -103,6 +103,8 @@ func (m *MiningModel) Compile() error {
 		m.fieldTypes[models.FieldName(df.Name)] = df.DataType
 	}
 
+	m.segmodels = nil
+
 	for _, seg := range m.model.Segmentation.Segments {
 		if len(seg.Models) != 1 {
 			return fmt.Errorf("unsupported single segment model group size %d", len(seg.Models))
-- 
2.43.0


From fd5859912b5106fdf25385a52b289161ce533938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:35 +0000
Subject: [PATCH 39/72] fix: rescale the average, not the sum, of the segments

---
 evaluation/mining.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/evaluation/mining.go b/evaluation/mining.go
index 69a4421..a482f71 100644
--- a/evaluation/mining.go
+++ b/evaluation/mining.go
@@ -158,6 +158,15 @@ func (m *MiningModel) evaluateMultipleModelChain(input DataRow) (DataRow, error)
 }
 
 func (m *MiningModel) evaluateMultipleModelSum(input DataRow) (DataRow, error) {
+	scoreMap, err := m.sumSegments(input)
+	if err != nil {
+		return nil, err
+	}
+
+	return m.rescale(scoreMap), nil
+}
+
+func (m *MiningModel) sumSegments(input DataRow) (map[models.FieldName]float64, error) {
 	scoreMap := make(map[models.FieldName]float64)
 
 	for _, field := range m.outputFields {
@@ -189,6 +198,10 @@ func (m *MiningModel) evaluateMultipleModelSum(input DataRow) (DataRow, error) {
 		}
 	}
 
+	return scoreMap, nil
+}
+
+func (m *MiningModel) rescale(scoreMap map[models.FieldName]float64) DataRow {
 	for _, target := range m.targets {
 		if target.RescaleFactor != nil {
 			scoreMap[target.Field] = scoreMap[target.Field] * *target.RescaleFactor
@@ -203,20 +216,20 @@ func (m *MiningModel) evaluateMultipleModelSum(input DataRow) (DataRow, error) {
 		out[string(k)] = NewValue(v)
 	}
 
-	return out, nil
+	return out
 }
 
 func (m *MiningModel) evaluateMultipleModelAverage(input DataRow) (DataRow, error) {
-	out, err := m.evaluateMultipleModelSum(input)
+	scoreMap, err := m.sumSegments(input)
 	if err != nil {
 		return nil, err
 	}
 
-	for lbl, score := range out {
-		out[lbl] = NewValue(score.Float64() / float64(len(m.model.Segmentation.Segments)))
+	for k, v := range scoreMap {
+		scoreMap[k] = v / float64(len(m.model.Segmentation.Segments))
 	}
 
-	return out, nil
+	return m.rescale(scoreMap), nil
 }
 
 func (m *MiningModel) imputeMissingValues(input DataRow) (DataRow, error) {
-- 
2.43.0


From 99f21e4d6064f9d348fe15fe99e380369f43cbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:31 +0000
Subject: [PATCH 40/72] fix: evaluate only the segments whose predicate is true

---
 evaluation/mining.go | 65 ++++++++++++++++++++++++++++++++------------
 evaluation/tree.go   | 54 ++++++++++++++++++++++--------------
 2 files changed, 82 insertions(+), 37 deletions(-)

diff --git a/evaluation/mining.go b/evaluation/mining.go
index a482f71..345c712 100644
--- a/evaluation/mining.go
+++ b/evaluation/mining.go
@@ -15,6 +15,7 @@ type MiningModel struct {
 	model *models.MiningModel
 
 	segmodels []Model
+	segtests  []test
 
 	defaultValues map[string]Value
 	fieldTypes    map[models.FieldName]models.DataType
@@ -104,6 +105,7 @@ func (m *MiningModel) Compile() error {
 	}
 
 	m.segmodels = nil
+	m.segtests = nil
 
 	for _, seg := range m.model.Segmentation.Segments {
 		if len(seg.Models) != 1 {
@@ -118,6 +120,22 @@ func (m *MiningModel) Compile() error {
 		}
 
 		m.segmodels = append(m.segmodels, mdl)
+
+		// a segment without a predicate always applies
+		applies := test(func(DataRow) predicateResult { return t })
+
+		if len(seg.Predicates) > 1 {
+			return fmt.Errorf("segment %q has %d predicates", seg.Id, len(seg.Predicates))
+		}
+
+		if len(seg.Predicates) == 1 {
+			applies, err = newTest(m.fieldTypes, seg.Predicates[0])
+			if err != nil {
+				return err
+			}
+		}
+
+		m.segtests = append(m.segtests, applies)
 	}
 
 	m.compiled = true
@@ -126,26 +144,31 @@ func (m *MiningModel) Compile() error {
 }
 
 func (m *MiningModel) evaluateMultipleModelSelectFirst(input DataRow) (DataRow, error) {
-	for _, segModel := range m.segmodels {
-		segOut, err := segModel.Evaluate(input)
-		if err != nil {
-			return nil, err
-		}
+	if len(m.segmodels) == 0 {
+		return nil, errors.New("no segment models to evaluate")
+	}
 
-		return segOut, nil
+	for i, segModel := range m.segmodels {
+		if m.segtests[i](input) == t {
+			return segModel.Evaluate(input)
+		}
 	}
 
-	return nil, errors.New("no segment models to evaluate")
+	return nil, nil
 }
 
 func (m *MiningModel) evaluateMultipleModelChain(input DataRow) (DataRow, error) {
 	lastOut := make(DataRow)
 
-	for _, segModel := range m.segmodels {
+	for i, segModel := range m.segmodels {
 		for k, v := range lastOut {
 			input[k] = v
 		}
 
+		if m.segtests[i](input) != t {
+			continue
+		}
+
 		segOut, err := segModel.Evaluate(input)
 		if err != nil {
 			return nil, err
@@ -158,15 +181,17 @@ func (m *MiningModel) evaluateMultipleModelChain(input DataRow) (DataRow, error)
 }
 
 func (m *MiningModel) evaluateMultipleModelSum(input DataRow) (DataRow, error) {
-	scoreMap, err := m.sumSegments(input)
-	if err != nil {
+	scoreMap, count, err := m.sumSegments(input)
+	if err != nil || count == 0 {
 		return nil, err
 	}
 
 	return m.rescale(scoreMap), nil
 }
 
-func (m *MiningModel) sumSegments(input DataRow) (map[models.FieldName]float64, error) {
+// sumSegments adds up the segments that apply, and counts them.
+func (m *MiningModel) sumSegments(input DataRow) (map[models.FieldName]float64, int, error) {
+	count := 0
 	scoreMap := make(map[models.FieldName]float64)
 
 	for _, field := range m.outputFields {
@@ -177,10 +202,16 @@ func (m *MiningModel) sumSegments(input DataRow) (map[models.FieldName]float64,
 		scoreMap[target.Field] = 0.0
 	}
 
-	for _, segmodel := range m.segmodels {
+	for i, segmodel := range m.segmodels {
+		if m.segtests[i](input) != t {
+			continue
+		}
+
+		count++
+
 		segout, err := segmodel.Evaluate(input)
 		if err != nil {
-			return nil, err
+			return nil, 0, err
 		}
 
 		for k, v := range scoreMap {
@@ -198,7 +229,7 @@ func (m *MiningModel) sumSegments(input DataRow) (map[models.FieldName]float64,
 		}
 	}
 
-	return scoreMap, nil
+	return scoreMap, count, nil
 }
 
 func (m *MiningModel) rescale(scoreMap map[models.FieldName]float64) DataRow {
@@ -220,13 +251,13 @@ func (m *MiningModel) rescale(scoreMap map[models.FieldName]float64) DataRow {
 }
 
 func (m *MiningModel) evaluateMultipleModelAverage(input DataRow) (DataRow, error) {
-	scoreMap, err := m.sumSegments(input)
-	if err != nil {
+	scoreMap, count, err := m.sumSegments(input)
+	if err != nil || count == 0 {
 		return nil, err
 	}
 
 	for k, v := range scoreMap {
-		scoreMap[k] = v / float64(len(m.model.Segmentation.Segments))
+		scoreMap[k] = v / float64(count)
 	}
 
 	return m.rescale(scoreMap), nil
diff --git a/evaluation/tree.go b/evaluation/tree.go
index 4e29f19..ec563d8 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -416,10 +416,10 @@ func (m *TreeModel) Validate() error {
 }
 
 // compilePredicate returns a copy of the predicate with its literals parsed.
-func compilePredicate(m *TreeModel, pi models.Predicate) (models.Predicate, error) {
+func compilePredicate(fieldTypes map[models.FieldName]models.DataType, pi models.Predicate) (models.Predicate, error) {
 	switch p := pi.(type) {
 	case *models.SimplePredicate:
-		predicateValueType, ok := m.fieldTypes[p.Field]
+		predicateValueType, ok := fieldTypes[p.Field]
 		if !ok {
 			return nil, fmt.Errorf("unknown field type for %s", p.Field)
 		}
@@ -444,7 +444,7 @@ func compilePredicate(m *TreeModel, pi models.Predicate) (models.Predicate, erro
 		compiled.Predicates = make([]models.Predicate, len(p.Predicates))
 
 		for i, cp := range p.Predicates {
-			child, err := compilePredicate(m, cp)
+			child, err := compilePredicate(fieldTypes, cp)
 			if err != nil {
 				return nil, err
 			}
@@ -454,7 +454,7 @@ func compilePredicate(m *TreeModel, pi models.Predicate) (models.Predicate, erro
 
 		return &compiled, nil
 	case *models.SimpleSetPredicate:
-		literals, err := setLiterals(m, p)
+		literals, err := setLiterals(fieldTypes, p)
 		if err != nil {
 			return nil, err
 		}
@@ -472,8 +472,8 @@ type setPredicate struct {
 	literals []interface{}
 }
 
-func setLiterals(m *TreeModel, p *models.SimpleSetPredicate) ([]interface{}, error) {
-	fieldType, ok := m.fieldTypes[p.Field]
+func setLiterals(fieldTypes map[models.FieldName]models.DataType, p *models.SimpleSetPredicate) ([]interface{}, error) {
+	fieldType, ok := fieldTypes[p.Field]
 	if !ok {
 		return nil, fmt.Errorf("unknown field type for %s", p.Field)
 	}
@@ -548,33 +548,47 @@ func newNode(m *TreeModel, modelNode models.Node) (node, error) {
 		n.children = append(n.children, nn)
 	}
 
-	predicate, err := compilePredicate(m, modelNode.Predicate)
+	var err error
+
+	n.test, err = newTest(m.fieldTypes, modelNode.Predicate)
 	if err != nil {
 		return n, err
 	}
 
+	if n.test == nil {
+		return n, fmt.Errorf("node %q has no predicate", modelNode.ID)
+	}
+
+	return n, nil
+}
+
+// newTest compiles a predicate; there is none for anything else.
+func newTest(fieldTypes map[models.FieldName]models.DataType, pi models.Predicate) (test, error) {
+	predicate, err := compilePredicate(fieldTypes, pi)
+	if err != nil {
+		return nil, err
+	}
+
 	switch p := predicate.(type) {
 	case *models.True:
-		n.test = func(DataRow) predicateResult { return t }
+		return func(DataRow) predicateResult { return t }, nil
 	case *models.False:
-		n.test = func(DataRow) predicateResult { return f }
+		return func(DataRow) predicateResult { return f }, nil
 	case *models.SimplePredicate:
-		n.test = func(input DataRow) predicateResult {
-			return evaluateSimplePredicate(p, input, m.fieldTypes)
-		}
+		return func(input DataRow) predicateResult {
+			return evaluateSimplePredicate(p, input, fieldTypes)
+		}, nil
 	case *models.CompoundPredicate:
-		n.test = func(input DataRow) predicateResult {
-			return evaluateCompoundPredicate(p, input, m.fieldTypes)
-		}
+		return func(input DataRow) predicateResult {
+			return evaluateCompoundPredicate(p, input, fieldTypes)
+		}, nil
 	case *setPredicate:
-		n.test = func(input DataRow) predicateResult {
+		return func(input DataRow) predicateResult {
 			return evaluateSimpleSetPredicate(p, input)
-		}
-	default:
-		return n, fmt.Errorf("node %q has no predicate", modelNode.ID)
+		}, nil
 	}
 
-	return n, nil
+	return nil, nil
 }
 
 //nolint:gocyclo
-- 
2.43.0


From 850a1f9c1391cf0663597f06fd51495fb5e83a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:32 +0000
Subject: [PATCH 41/72] fix: sum the predictions of segments other than trees

---
 evaluation/mining.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/evaluation/mining.go b/evaluation/mining.go
index 345c712..b557ebc 100644
--- a/evaluation/mining.go
+++ b/evaluation/mining.go
@@ -189,6 +189,22 @@ func (m *MiningModel) evaluateMultipleModelSum(input DataRow) (DataRow, error) {
 	return m.rescale(scoreMap), nil
 }
 
+// regressionScore picks the prediction from a segment's output. Tree models call
+// it "score", the other models name it after their only output.
+func regressionScore(segout DataRow) (Value, bool) {
+	if score, ok := segout["score"]; ok {
+		return score, true
+	}
+
+	if len(segout) == 1 {
+		for _, score := range segout {
+			return score, true
+		}
+	}
+
+	return Value{}, false
+}
+
 // sumSegments adds up the segments that apply, and counts them.
 func (m *MiningModel) sumSegments(input DataRow) (map[models.FieldName]float64, int, error) {
 	count := 0
@@ -221,7 +237,7 @@ func (m *MiningModel) sumSegments(input DataRow) (map[models.FieldName]float64,
 					scoreMap[k] = v + outval.Float64()
 				}
 			} else {
-				outval, ok := segout["score"]
+				outval, ok := regressionScore(segout)
 				if ok {
 					scoreMap[k] = v + outval.Float64()
 				}
-- 
2.43.0


From 251081782d46761ec7b81e19e9e22496f8f130f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:33 +0000
Subject: [PATCH 42/72] fix: keep a continuous derived field missing when its
 expression is

---
 evaluation/input.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evaluation/input.go b/evaluation/input.go
index 2fbe750..d0cff37 100644
--- a/evaluation/input.go
+++ b/evaluation/input.go
@@ -195,7 +195,7 @@ func HandleInput(in DataRow, dd *models.DataDictionary, td *models.Transformatio
 			return nil, err
 		}
 
-		if df.OpType == models.OpTypeContinuous {
+		if df.OpType == models.OpTypeContinuous && expr_val.Raw() != nil {
 			in[df.Name] = NewValue(expr_val.Float64())
 		} else {
 			in[df.Name] = expr_val
-- 
2.43.0


From db543ada3ef15209daa5bfc4237ea8ded6eba27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:34 +0000
Subject: [PATCH 43/72] fix: make arithmetic on a missing value missing

---
 evaluation/input.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/evaluation/input.go b/evaluation/input.go
index d0cff37..92be985 100644
--- a/evaluation/input.go
+++ b/evaluation/input.go
@@ -23,12 +23,19 @@ func handleConstantExpression(constExpr *models.Constant) (Value, error) {
 func handleApplyExpression(apply *models.Apply, in DataRow, dd *models.DataDictionary, td *models.TransformationDictionary, lt *models.LocalTransformations, ms *models.MiningSchema) (Value, error) {
 	if apply.Function == "sum" {
 		s := 0.0
+		missing := true
 		for _, child := range apply.Expressions {
 			child_val, err := HandleExpression(child, in, dd, td, lt, ms)
 			if err != nil {
 				return child_val, err
 			}
-			s += child_val.Float64()
+			if child_val.Raw() != nil {
+				s += child_val.Float64()
+				missing = false
+			}
+		}
+		if missing {
+			return NewValue(nil), nil
 		}
 		return NewValue(s), nil
 	}
@@ -45,6 +52,9 @@ func handleApplyExpression(apply *models.Apply, in DataRow, dd *models.DataDicti
 		if err != nil {
 			return NewValue(nil), err
 		}
+		if val1.Raw() == nil || val2.Raw() == nil {
+			return NewValue(nil), nil
+		}
 		if apply.Function == "*" {
 			return NewValue(val1.Float64() * val2.Float64()), nil
 		}
-- 
2.43.0


From c1094527f4a0242d976d84ecfd33d9c368e6489b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:16 +0000
Subject: [PATCH 44/72] fix: apply mapMissingTo and defaultValue in expressions

---
 evaluation/input.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/evaluation/input.go b/evaluation/input.go
index 92be985..156ce96 100644
--- a/evaluation/input.go
+++ b/evaluation/input.go
@@ -176,7 +176,11 @@ func handleMapValuesExpression(expr *models.MapValues, in DataRow, dd *models.Da
 func HandleExpression(expr models.Expression, in DataRow, dd *models.DataDictionary, td *models.TransformationDictionary, lt *models.LocalTransformations, ms *models.MiningSchema) (Value, error) {
 	fieldRef, ok := expr.(*models.FieldRef)
 	if ok {
-		return in[string(fieldRef.Field)], nil
+		val := in[string(fieldRef.Field)]
+		if val.Raw() == nil && fieldRef.MapMissingTo != nil {
+			return NewValue(*fieldRef.MapMissingTo), nil
+		}
+		return val, nil
 	}
 	constExpr, ok := expr.(*models.Constant)
 	if ok {
@@ -184,7 +188,22 @@ func HandleExpression(expr models.Expression, in DataRow, dd *models.DataDiction
 	}
 	apply, ok := expr.(*models.Apply)
 	if ok {
-		return handleApplyExpression(apply, in, dd, td, lt, ms)
+		if apply.MapMissingTo != nil {
+			for _, child := range apply.Expressions {
+				val, err := HandleExpression(child, in, dd, td, lt, ms)
+				if err != nil {
+					return NewValue(nil), err
+				}
+				if val.Raw() == nil {
+					return NewValue(*apply.MapMissingTo), nil
+				}
+			}
+		}
+		val, err := handleApplyExpression(apply, in, dd, td, lt, ms)
+		if err == nil && val.Raw() == nil && apply.DefaultValue != nil {
+			return NewValue(*apply.DefaultValue), nil
+		}
+		return val, err
 	}
 	mapExpr, ok := expr.(*models.MapValues)
 	if ok {
-- 
2.43.0


From 0fc2973ee0f5eda3fb09bcf1810bc5656a2ec86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:31 +0000
Subject: [PATCH 45/72] fix: look MapValues up by the columns it names

---
 evaluation/input.go | 50 +++++++++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 15 deletions(-)

diff --git a/evaluation/input.go b/evaluation/input.go
index 156ce96..5e0a8c4 100644
--- a/evaluation/input.go
+++ b/evaluation/input.go
@@ -2,8 +2,8 @@ package evaluation
 
 import (
 	"fmt"
-	"github.com/pkg/errors"
 	"strconv"
+	"strings"
 
 	"github.com/flukeish/pmml/models"
 )
@@ -134,30 +134,45 @@ func isMissing(apply *models.Apply, in DataRow, dd *models.DataDictionary, td *m
 }
 
 func handleMapValuesExpression(expr *models.MapValues, in DataRow, dd *models.DataDictionary, td *models.TransformationDictionary, lt *models.LocalTransformations, ms *models.MiningSchema) (Value, error) {
-	columns := make(map[string]Value)
+	missing := false
 
 	for _, pair := range expr.FieldColumnPairs {
-		data, ok := in[pair.Field]
-		if ok {
-			columns[pair.Column] = data
+		if in[pair.Field].Raw() == nil {
+			missing = true
 		}
 	}
 
+	if missing && expr.MapMissingTo != nil {
+		return NewValue(*expr.MapMissingTo), nil
+	}
+
+	var output interface{}
+
 	for _, mapping := range expr.InlineTables {
 		for _, row := range mapping.Rows {
-			if row["input"] == columns["data:input"].String() {
-				columns["data:output"] = NewValue(row["output"])
+			match := !missing && len(expr.FieldColumnPairs) > 0
+
+			for _, pair := range expr.FieldColumnPairs {
+				match = match && row[localName(pair.Column)] == in[pair.Field].String()
+			}
+
+			if match {
+				output = row[localName(expr.OutputColumn)]
 			}
 		}
 	}
 
-	output, ok := columns["data:output"]
-	if ok {
-		return output, nil
+	if output != nil {
+		return NewValue(output), nil
 	}
 
 	if expr.DefaultValue != nil {
-		defaultValue, err := getRawValue(expr.DataType, *expr.DefaultValue)
+		dataType := expr.DataType
+		if dataType == "" {
+			dataType = models.DataTypeString
+		}
+
+		defaultValue, err := getRawValue(dataType, *expr.DefaultValue)
 		if err != nil {
 			return NewValue(nil), err
 		}
@@ -165,12 +180,17 @@ func handleMapValuesExpression(expr *models.MapValues, in DataRow, dd *models.Da
 		return NewValue(defaultValue), nil
 	}
 
-	input, ok := columns["data:input"]
-	if ok {
-		return input, nil
+	// an unmapped value stands for itself
+	if len(expr.FieldColumnPairs) == 1 {
+		return in[expr.FieldColumnPairs[0].Field], nil
 	}
 
-	return NewValue(nil), errors.New("unexpected expression")
+	return NewValue(nil), nil
+}
+
+// localName strips the namespace prefix, which the keys of a row do not have.
+func localName(column string) string {
+	return column[strings.LastIndex(column, ":")+1:]
 }
 
 func HandleExpression(expr models.Expression, in DataRow, dd *models.DataDictionary, td *models.TransformationDictionary, lt *models.LocalTransformations, ms *models.MiningSchema) (Value, error) {
-- 
2.43.0


From 6d188a5cb76e4eaeeb339faff3385859d57a5d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:33 +0000
Subject: [PATCH 46/72] fix: evaluate the derived fields of the transformation
 dictionary

---
 evaluation/input.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/evaluation/input.go b/evaluation/input.go
index 5e0a8c4..123e0dc 100644
--- a/evaluation/input.go
+++ b/evaluation/input.go
@@ -233,12 +233,25 @@ func HandleExpression(expr models.Expression, in DataRow, dd *models.DataDiction
 }
 
 func HandleInput(in DataRow, dd *models.DataDictionary, td *models.TransformationDictionary, lt *models.LocalTransformations, ms *models.MiningSchema) (DataRow, error) {
-	if len(lt.DerivedFields) > 0 {
+	derivedFields := make([]models.DerivedField, 0, len(lt.DerivedFields))
+
+	if td != nil {
+		for _, df := range td.DerivedFields {
+			// the enclosing model has evaluated it for its segments
+			if _, ok := in[df.Name]; !ok {
+				derivedFields = append(derivedFields, df)
+			}
+		}
+	}
+
+	derivedFields = append(derivedFields, lt.DerivedFields...)
+
+	if len(derivedFields) > 0 {
 		// the row belongs to the caller
 		in = in.clone()
 	}
 
-	for _, df := range lt.DerivedFields {
+	for _, df := range derivedFields {
 		expr_val, err := HandleExpression(df.Expression, in, dd, td, lt, ms)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 3bf9008b65203be430053d2e0d234e5a15c4a6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:45 +0000
Subject: [PATCH 47/72] fix: replace missing values in tree and regression
 models

---
 evaluation/input.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/evaluation/input.go b/evaluation/input.go
index 123e0dc..be1efb9 100644
--- a/evaluation/input.go
+++ b/evaluation/input.go
@@ -246,11 +246,25 @@ func HandleInput(in DataRow, dd *models.DataDictionary, td *models.Transformatio
 
 	derivedFields = append(derivedFields, lt.DerivedFields...)
 
-	if len(derivedFields) > 0 {
+	replacements := make(DataRow)
+
+	if ms != nil {
+		for _, mf := range ms.MiningFields {
+			if mf.MissingValueReplacement != nil && in[string(mf.Name)].Raw() == nil {
+				replacements[string(mf.Name)] = NewValue(*mf.MissingValueReplacement)
+			}
+		}
+	}
+
+	if len(replacements) > 0 || len(derivedFields) > 0 {
 		// the row belongs to the caller
 		in = in.clone()
 	}
 
+	for k, v := range replacements {
+		in[k] = v
+	}
+
 	for _, df := range derivedFields {
 		expr_val, err := HandleExpression(df.Expression, in, dd, td, lt, ms)
 		if err != nil {
-- 
2.43.0


From 95832939d5ba7fa04150c89868910335ec25c285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:13 +0000
Subject: [PATCH 48/72] fix: verify negative expectations and NaN predictions

---
 evaluation/evaluation.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/evaluation/evaluation.go b/evaluation/evaluation.go
index f034d05..0d3f1e0 100644
--- a/evaluation/evaluation.go
+++ b/evaluation/evaluation.go
@@ -73,7 +73,8 @@ func verifyModel(m Model, mv *models.ModelVerification) error {
 				}
 				predicted := predictedVal.Float64()
 				delta := expected - predicted
-				if math.Abs(delta) > 1e-5 * expected {
+				// NaN is not within any tolerance
+				if !(math.Abs(delta) <= 1e-5*math.Abs(expected)) {
 					return fmt.Errorf("%s: expected %f, predicted %f, error %f", k, expected, predicted, delta)
 				}
 			}
-- 
2.43.0


From 417fdb38650b28afc15c07c3c64913f5fab58186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:14 +0000
Subject: [PATCH 49/72] fix: verify predicted labels

---
 evaluation/evaluation.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/evaluation/evaluation.go b/evaluation/evaluation.go
index 0d3f1e0..84e8f15 100644
--- a/evaluation/evaluation.go
+++ b/evaluation/evaluation.go
@@ -66,11 +66,21 @@ func verifyModel(m Model, mv *models.ModelVerification) error {
 		for k, v := range vRow {
 			fieldName, isOutput := outputMap[k]
 			if isOutput {
-				expected := NewValue(v).Float64()
 				predictedVal, ok := output[fieldName]
 				if !ok {
 					return fmt.Errorf("expected output: %s not produced by model", fieldName)
 				}
+				// a label is compared as it is
+				if _, numeric := predictedVal.number(); !numeric {
+					if predictedVal.String() != NewValue(v).String() {
+						return fmt.Errorf("%s: expected %v, predicted %v", k, v, predictedVal.Raw())
+					}
+					continue
+				}
+				expected, numeric := NewValue(v).number()
+				if !numeric {
+					return fmt.Errorf("%s: expected %v, predicted %v", k, v, predictedVal.Raw())
+				}
 				predicted := predictedVal.Float64()
 				delta := expected - predicted
 				// NaN is not within any tolerance
-- 
2.43.0


From 0f88ecf746c9a7a220f12ea7a631fce50e87afb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:15 +0000
Subject: [PATCH 50/72] fix: verify with the inputs under their field names

---
 evaluation/evaluation.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evaluation/evaluation.go b/evaluation/evaluation.go
index 84e8f15..628ebb6 100644
--- a/evaluation/evaluation.go
+++ b/evaluation/evaluation.go
@@ -52,9 +52,9 @@ func verifyModel(m Model, mv *models.ModelVerification) error {
 	for _, vRow := range mv.InlineTable.Rows {
 		input := make(DataRow)
 		for k, v := range vRow {
-			_, isInput := inputMap[k]
+			fieldName, isInput := inputMap[k]
 			if isInput {
-				input[k] = NewValue(v)
+				input[fieldName] = NewValue(v)
 			}
 		}
 
-- 
2.43.0


From c46608dca932908fd66e4e3f02604d13692aa9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:16 +0000
Subject: [PATCH 51/72] fix: verify within the declared precision and
 zeroThreshold

---
 evaluation/evaluation.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/evaluation/evaluation.go b/evaluation/evaluation.go
index 628ebb6..7fbee32 100644
--- a/evaluation/evaluation.go
+++ b/evaluation/evaluation.go
@@ -34,7 +34,7 @@ func verifyModel(m Model, mv *models.ModelVerification) error {
 		return nil
 	}
 
-	outputMap := make(map[string]string)
+	outputMap := make(map[string]models.VerificationField)
 	inputMap := make(map[string]string)
 
 	for _, vField := range mv.VerificationFields.Fields {
@@ -45,7 +45,7 @@ func verifyModel(m Model, mv *models.ModelVerification) error {
 		if vField.Precision == nil {
 			inputMap[colName] = string(vField.Field)
 		} else {
-			outputMap[colName] = string(vField.Field)
+			outputMap[colName] = vField
 		}
 	}
 
@@ -64,8 +64,9 @@ func verifyModel(m Model, mv *models.ModelVerification) error {
 		}
 
 		for k, v := range vRow {
-			fieldName, isOutput := outputMap[k]
+			vField, isOutput := outputMap[k]
 			if isOutput {
+				fieldName := string(vField.Field)
 				predictedVal, ok := output[fieldName]
 				if !ok {
 					return fmt.Errorf("expected output: %s not produced by model", fieldName)
@@ -83,8 +84,12 @@ func verifyModel(m Model, mv *models.ModelVerification) error {
 				}
 				predicted := predictedVal.Float64()
 				delta := expected - predicted
+				if vField.ZeroThreshold != nil && math.Abs(expected) <= *vField.ZeroThreshold &&
+					math.Abs(predicted) <= *vField.ZeroThreshold {
+					continue
+				}
 				// NaN is not within any tolerance
-				if !(math.Abs(delta) <= 1e-5*math.Abs(expected)) {
+				if !(math.Abs(delta) <= math.Max(1e-5, *vField.Precision)*math.Abs(expected)) {
 					return fmt.Errorf("%s: expected %f, predicted %f, error %f", k, expected, predicted, delta)
 				}
 			}
-- 
2.43.0


From 71b6b0d8c11e685b11f750f41abd19c807675f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:45 +0000
Subject: [PATCH 52/72] fix: operands of a function with mapMissingTo were
 evaluated twice at each level

---
 evaluation/input.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/evaluation/input.go b/evaluation/input.go
index be1efb9..8c9f698 100644
--- a/evaluation/input.go
+++ b/evaluation/input.go
@@ -193,6 +193,13 @@ func localName(column string) string {
 	return column[strings.LastIndex(column, ":")+1:]
 }
 
+// evaluated is an expression whose value is known.
+type evaluated struct {
+	models.Expression
+
+	val Value
+}
+
 func HandleExpression(expr models.Expression, in DataRow, dd *models.DataDictionary, td *models.TransformationDictionary, lt *models.LocalTransformations, ms *models.MiningSchema) (Value, error) {
 	fieldRef, ok := expr.(*models.FieldRef)
 	if ok {
@@ -206,10 +213,19 @@ func HandleExpression(expr models.Expression, in DataRow, dd *models.DataDiction
 	if ok {
 		return handleConstantExpression(constExpr)
 	}
+	operand, ok := expr.(evaluated)
+	if ok {
+		return operand.val, nil
+	}
 	apply, ok := expr.(*models.Apply)
 	if ok {
 		if apply.MapMissingTo != nil {
-			for _, child := range apply.Expressions {
+			// the function takes the operands as they are known here: to evaluate
+			// them once more doubles the work at each level of nesting
+			known := *apply
+			known.Expressions = make([]models.Expression, len(apply.Expressions))
+
+			for i, child := range apply.Expressions {
 				val, err := HandleExpression(child, in, dd, td, lt, ms)
 				if err != nil {
 					return NewValue(nil), err
@@ -217,7 +233,10 @@ func HandleExpression(expr models.Expression, in DataRow, dd *models.DataDiction
 				if val.Raw() == nil {
 					return NewValue(*apply.MapMissingTo), nil
 				}
+				known.Expressions[i] = evaluated{Expression: child, val: val}
 			}
+
+			apply = &known
 		}
 		val, err := handleApplyExpression(apply, in, dd, td, lt, ms)
 		if err == nil && val.Raw() == nil && apply.DefaultValue != nil {
-- 
2.43.0


From 3ead6487f717e885797b2c9c2fc8d5a5359b99df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:29 +0000
Subject: [PATCH 53/72] fix: predict a node's score also when another class of
 its distribution is more probable

---
 evaluation/tree.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index ec563d8..884e1c7 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -28,6 +28,7 @@ type scoreDist struct {
 	confidence  float64
 	probability float64
 	recordCount float64
+	predicted   bool // the node names this class as its score
 }
 
 type node struct {
@@ -69,6 +70,10 @@ func pickBest(scores []scoreDist) scoreDist {
 	best := scoreDist{probability: 0.0}
 
 	for _, score := range scores {
+		if score.predicted {
+			return score
+		}
+
 		if score.probability > best.probability {
 			best = score
 		}
@@ -123,9 +128,9 @@ func (n node) ownScoreDist() []scoreDist {
 				for _, val := range field.Values {
 					if val.Value == n.score.value {
 						listed = true
-						sd = append(sd, scoreDist{val.Value, 1.0, 1.0, n.score.recordCount})
+						sd = append(sd, scoreDist{val.Value, 1.0, 1.0, n.score.recordCount, true})
 					} else {
-						sd = append(sd, scoreDist{val.Value, 0.0, 0.0, 0})
+						sd = append(sd, scoreDist{val.Value, 0.0, 0.0, 0, false})
 					}
 				}
 			}
@@ -137,7 +142,7 @@ func (n node) ownScoreDist() []scoreDist {
 			return nil
 		}
 
-		sd = append(sd, scoreDist{n.score.value, 1.0, 1.0, n.score.recordCount})
+		sd = append(sd, scoreDist{n.score.value, 1.0, 1.0, n.score.recordCount, true})
 	}
 
 	return sd
@@ -535,6 +540,7 @@ func newNode(m *TreeModel, modelNode models.Node) (node, error) {
 			probability: probability,
 			recordCount: float64(sc.RecordCount),
 			value:       sc.Value,
+			predicted:   sc.Value == modelNode.Score,
 		})
 	}
 
-- 
2.43.0


From 033f6b183faa9d105cf7fc6af3f3361606ddcf8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:47 +0000
Subject: [PATCH 54/72] fix: refuse predicates with an operator that is not
 evaluated

---
 evaluation/tree.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 884e1c7..7a27497 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -420,6 +420,19 @@ func (m *TreeModel) Validate() error {
 	return nil
 }
 
+// supportsOperator tells whether values of the type can be compared so.
+func supportsOperator(dataType models.DataType, operator models.SimplePredicateOperator) bool {
+	switch operator {
+	case models.SimplePredicateOperatorEqual, models.SimplePredicateOperatorNotEqual:
+		return true
+	case models.SimplePredicateOperatorGreaterOrEqual, models.SimplePredicateOperatorGreaterThan,
+		models.SimplePredicateOperatorLessOrEqual, models.SimplePredicateOperatorLessThan:
+		return dataType == models.DataTypeDouble || dataType == models.DataTypeFloat || dataType == models.DataTypeInteger
+	}
+
+	return false
+}
+
 // compilePredicate returns a copy of the predicate with its literals parsed.
 func compilePredicate(fieldTypes map[models.FieldName]models.DataType, pi models.Predicate) (models.Predicate, error) {
 	switch p := pi.(type) {
@@ -435,6 +448,10 @@ func compilePredicate(fieldTypes map[models.FieldName]models.DataType, pi models
 			return p, nil
 		}
 
+		if !supportsOperator(predicateValueType, p.Operator) {
+			return nil, fmt.Errorf("unsupported operator %q on %s", p.Operator, p.Field)
+		}
+
 		pv, err := getRawValue(predicateValueType, p.Value)
 		if err != nil {
 			return nil, err
@@ -445,6 +462,13 @@ func compilePredicate(fieldTypes map[models.FieldName]models.DataType, pi models
 
 		return &compiled, nil
 	case *models.CompoundPredicate:
+		switch p.BooleanOperator {
+		case models.CompoundPredicateOperatorAnd, models.CompoundPredicateOperatorOr,
+			models.CompoundPredicateOperatorXor, models.CompoundPredicateOperatorSurrogate:
+		default:
+			return nil, fmt.Errorf("unsupported compound predicate operator %q", p.BooleanOperator)
+		}
+
 		compiled := *p
 		compiled.Predicates = make([]models.Predicate, len(p.Predicates))
 
@@ -459,6 +483,11 @@ func compilePredicate(fieldTypes map[models.FieldName]models.DataType, pi models
 
 		return &compiled, nil
 	case *models.SimpleSetPredicate:
+		if p.BooleanOperator != models.SimpleSetPredicateOperatorIsIn &&
+			p.BooleanOperator != models.SimpleSetPredicateOperatorIsNotIn {
+			return nil, fmt.Errorf("unsupported set predicate operator %q", p.BooleanOperator)
+		}
+
 		literals, err := setLiterals(fieldTypes, p)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 78e2526b5bd63a77d4b98549add2392cdacf7879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:48 +0000
Subject: [PATCH 55/72] fix: refuse trees with a strategy that is not evaluated

---
 evaluation/tree.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 7a27497..0bac903 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -400,6 +400,20 @@ func (m *TreeModel) Validate() error {
 		return fmt.Errorf("unsupported mining function %s", m.model.FunctionName)
 	}
 
+	switch m.model.MissingValueStrategy {
+	case "", models.MissingValueStrategyNone, models.MissingValueStrategyLastPrediction,
+		models.MissingValueStrategyNullPrediction, models.MissingValueStrategyDefaultChild,
+		models.MissingValueStrategyWeightedConfidence, models.MissingValueStrategyAggregateNodes:
+	default:
+		return fmt.Errorf("unsupported missing value strategy %s", m.model.MissingValueStrategy)
+	}
+
+	switch m.model.NoTrueChildStrategy {
+	case "", models.NoTrueChildStrategyReturnLastPrediction, models.NoTrueChildStrategyReturnNullPrediction:
+	default:
+		return fmt.Errorf("unsupported no true child strategy %s", m.model.NoTrueChildStrategy)
+	}
+
 	for i, f := range m.model.MiningSchema.MiningFields {
 		if f.UsageType == "" {
 			f.UsageType = models.FieldUsageTypeActive
-- 
2.43.0


From 8fd8af8250ae72d65ce91e6422c9370d1c92f7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:09 +0000
Subject: [PATCH 56/72] fix: a missing key of MapValues has no default value

---
 evaluation/input.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/evaluation/input.go b/evaluation/input.go
index 8c9f698..e71b13a 100644
--- a/evaluation/input.go
+++ b/evaluation/input.go
@@ -142,15 +142,19 @@ func handleMapValuesExpression(expr *models.MapValues, in DataRow, dd *models.Da
 		}
 	}
 
-	if missing && expr.MapMissingTo != nil {
-		return NewValue(*expr.MapMissingTo), nil
+	if missing {
+		if expr.MapMissingTo != nil {
+			return NewValue(*expr.MapMissingTo), nil
+		}
+
+		return NewValue(nil), nil
 	}
 
 	var output interface{}
 
 	for _, mapping := range expr.InlineTables {
 		for _, row := range mapping.Rows {
-			match := !missing && len(expr.FieldColumnPairs) > 0
+			match := len(expr.FieldColumnPairs) > 0
 
 			for _, pair := range expr.FieldColumnPairs {
 				match = match && row[localName(pair.Column)] == in[pair.Field].String()
-- 
2.43.0


From a5f71102efb76ee68ef23ce7ea262062a58b9361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:31 +0000
Subject: [PATCH 57/72] fix: a value in the row took the place of a derived
 field of the dictionary

---
 evaluation/input.go      | 14 +++++++-------
 evaluation/mining.go     | 12 +++++++++++-
 evaluation/regression.go |  3 ++-
 evaluation/tree.go       |  3 ++-
 4 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/evaluation/input.go b/evaluation/input.go
index e71b13a..8872e6b 100644
--- a/evaluation/input.go
+++ b/evaluation/input.go
@@ -256,15 +256,15 @@ func HandleExpression(expr models.Expression, in DataRow, dd *models.DataDiction
 }
 
 func HandleInput(in DataRow, dd *models.DataDictionary, td *models.TransformationDictionary, lt *models.LocalTransformations, ms *models.MiningSchema) (DataRow, error) {
+	return handleInput(in, dd, td, lt, ms, false)
+}
+
+func handleInput(in DataRow, dd *models.DataDictionary, td *models.TransformationDictionary, lt *models.LocalTransformations, ms *models.MiningSchema, enclosed bool) (DataRow, error) {
 	derivedFields := make([]models.DerivedField, 0, len(lt.DerivedFields))
 
-	if td != nil {
-		for _, df := range td.DerivedFields {
-			// the enclosing model has evaluated it for its segments
-			if _, ok := in[df.Name]; !ok {
-				derivedFields = append(derivedFields, df)
-			}
-		}
+	// an enclosing model has evaluated the dictionary for its segments
+	if td != nil && !enclosed {
+		derivedFields = append(derivedFields, td.DerivedFields...)
 	}
 
 	derivedFields = append(derivedFields, lt.DerivedFields...)
diff --git a/evaluation/mining.go b/evaluation/mining.go
index b557ebc..d43b4be 100644
--- a/evaluation/mining.go
+++ b/evaluation/mining.go
@@ -9,6 +9,7 @@ import (
 type MiningModel struct {
 	validated bool
 	compiled  bool
+	enclosed  bool // a segment of another model
 
 	dd    *models.DataDictionary
 	td    *models.TransformationDictionary
@@ -119,6 +120,15 @@ func (m *MiningModel) Compile() error {
 			return err
 		}
 
+		switch segment := mdl.(type) {
+		case *TreeModel:
+			segment.enclosed = true
+		case *RegressionModel:
+			segment.enclosed = true
+		case *MiningModel:
+			segment.enclosed = true
+		}
+
 		m.segmodels = append(m.segmodels, mdl)
 
 		// a segment without a predicate always applies
@@ -309,7 +319,7 @@ func (m *MiningModel) Evaluate(input DataRow) (DataRow, error) {
 		return nil, err
 	}
 
-	input, err = HandleInput(input, m.dd, m.td, &m.model.LocalTransformations, &m.model.MiningSchema)
+	input, err = handleInput(input, m.dd, m.td, &m.model.LocalTransformations, &m.model.MiningSchema, m.enclosed)
 	if err != nil {
 		return nil, err
 	}
diff --git a/evaluation/regression.go b/evaluation/regression.go
index f0bde75..4d3f8ec 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -10,6 +10,7 @@ import (
 type RegressionModel struct {
 	validated bool
 	compiled  bool
+	enclosed  bool // a segment of another model
 
 	dd *models.DataDictionary
 	td *models.TransformationDictionary
@@ -87,7 +88,7 @@ func (m *RegressionModel) normalize(term float64) (float64, error) {
 }
 
 func (m *RegressionModel) Evaluate(input DataRow) (DataRow, error) {
-	input, err := HandleInput(input, m.dd, m.td, &m.model.LocalTransformations, &m.model.MiningSchema)
+	input, err := handleInput(input, m.dd, m.td, &m.model.LocalTransformations, &m.model.MiningSchema, m.enclosed)
 	if err != nil {
 		return nil, err
 	}
diff --git a/evaluation/tree.go b/evaluation/tree.go
index 0bac903..89e71e4 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -9,6 +9,7 @@ import (
 type TreeModel struct {
 	validated bool
 	compiled  bool
+	enclosed  bool // a segment of another model
 
 	dd *models.DataDictionary
 	td *models.TransformationDictionary
@@ -881,7 +882,7 @@ func (m *TreeModel) Evaluate(input DataRow) (DataRow, error) {
 		return nil, ErrNotCompiled
 	}
 
-	input, err = HandleInput(input, m.dd, m.td, &m.model.LocalTransformations, &m.model.MiningSchema)
+	input, err = handleInput(input, m.dd, m.td, &m.model.LocalTransformations, &m.model.MiningSchema, m.enclosed)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 60f198e18888ba2f73476815ef61d83ab2f5df2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:59 +0000
Subject: [PATCH 58/72] fix: look the keys of MapValues up in the types of
 their fields

---
 evaluation/input.go | 51 ++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 50 insertions(+), 1 deletion(-)

diff --git a/evaluation/input.go b/evaluation/input.go
index 8872e6b..4874b01 100644
--- a/evaluation/input.go
+++ b/evaluation/input.go
@@ -150,6 +150,11 @@ func handleMapValuesExpression(expr *models.MapValues, in DataRow, dd *models.Da
 		return NewValue(nil), nil
 	}
 
+	types := make(map[string]models.DataType, len(expr.FieldColumnPairs))
+	for _, pair := range expr.FieldColumnPairs {
+		types[pair.Field] = fieldType(pair.Field, dd, td, lt)
+	}
+
 	var output interface{}
 
 	for _, mapping := range expr.InlineTables {
@@ -157,7 +162,7 @@ func handleMapValuesExpression(expr *models.MapValues, in DataRow, dd *models.Da
 			match := len(expr.FieldColumnPairs) > 0
 
 			for _, pair := range expr.FieldColumnPairs {
-				match = match && row[localName(pair.Column)] == in[pair.Field].String()
+				match = match && isCell(row[localName(pair.Column)], in[pair.Field], types[pair.Field])
 			}
 
 			if match {
@@ -192,6 +197,50 @@ func handleMapValuesExpression(expr *models.MapValues, in DataRow, dd *models.Da
 	return NewValue(nil), nil
 }
 
+// fieldType is the declared type of a field, if it has one.
+func fieldType(name string, dd *models.DataDictionary, td *models.TransformationDictionary, lt *models.LocalTransformations) models.DataType {
+	if lt != nil {
+		for _, df := range lt.DerivedFields {
+			if df.Name == name {
+				return df.DataType
+			}
+		}
+	}
+
+	if td != nil {
+		for _, df := range td.DerivedFields {
+			if df.Name == name {
+				return df.DataType
+			}
+		}
+	}
+
+	if dd != nil {
+		for _, df := range dd.DataFields {
+			if string(df.Name) == name {
+				return df.DataType
+			}
+		}
+	}
+
+	return ""
+}
+
+// isCell tells whether a table's cell holds the value, which has the type of
+// its field.
+func isCell(cell interface{}, val Value, dataType models.DataType) bool {
+	text, ok := cell.(string)
+	if !ok {
+		return false
+	}
+
+	if literal, err := getRawValue(dataType, text); err == nil {
+		return val.equal(literal)
+	}
+
+	return val.String() == text
+}
+
 // localName strips the namespace prefix, which the keys of a row do not have.
 func localName(column string) string {
 	return column[strings.LastIndex(column, ":")+1:]
-- 
2.43.0


From 57906b87c4ae98354d1d65a803cc3ce0d2e5f5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:00 +0000
Subject: [PATCH 59/72] fix: predict the first class when all have probability
 0

---
 evaluation/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 89e71e4..36ecd34 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -68,7 +68,7 @@ const (
 */
 
 func pickBest(scores []scoreDist) scoreDist {
-	best := scoreDist{probability: 0.0}
+	best := scores[0]
 
 	for _, score := range scores {
 		if score.predicted {
-- 
2.43.0


From 7b5cdc2bf8d6520e0b99bfc505db40c357b61852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:01 +0000
Subject: [PATCH 60/72] fix: predict a node's score also when its distribution
 does not list it

---
 evaluation/tree.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 36ecd34..eec7608 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -48,6 +48,17 @@ func (n node) leaf() bool {
 	return len(n.children) == 0
 }
 
+// lists tells whether the node's distribution has the class.
+func (n node) lists(class string) bool {
+	for _, sc := range n.scoreDist {
+		if sc.value == class {
+			return true
+		}
+	}
+
+	return false
+}
+
 type predicateResult int
 
 const (
@@ -590,6 +601,11 @@ func newNode(m *TreeModel, modelNode models.Node) (node, error) {
 
 	n.score = score
 
+	// the node predicts its score also when it has no records of it
+	if len(n.scoreDist) > 0 && score.value != "" && !n.lists(score.value) {
+		n.scoreDist = append(n.scoreDist, scoreDist{value: score.value, predicted: true})
+	}
+
 	for _, child := range modelNode.Nodes {
 		nn, err := newNode(m, child)
 		if err != nil {
-- 
2.43.0


From e658091cff59b7d4866da7b282a4159212657903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:02 +0000
Subject: [PATCH 61/72] fix: refuse to combine the scores of a regression tree

---
 evaluation/tree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index eec7608..4961e38 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -919,6 +919,10 @@ func (m *TreeModel) Evaluate(input DataRow) (DataRow, error) {
 				out[key] = NewValue(score.probability)
 			}
 		} else if m.model.FunctionName == models.MiningFunctionRegression {
+			if len(scores) != 1 {
+				return nil, fmt.Errorf("cannot combine the %d scores of a regression tree", len(scores))
+			}
+
 			score, err := strconv.ParseFloat(scores[0].value, 64)
 			if err != nil {
 				return nil, err
-- 
2.43.0


From 02e9c7bf131c299377cf44ee9843b4521cc7d380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:03 +0000
Subject: [PATCH 62/72] fix: the result of if is missing when its condition is

---
 evaluation/input.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/evaluation/input.go b/evaluation/input.go
index 4874b01..7f61d75 100644
--- a/evaluation/input.go
+++ b/evaluation/input.go
@@ -105,6 +105,10 @@ func handleApplyExpression(apply *models.Apply, in DataRow, dd *models.DataDicti
 			return NewValue(nil), err
 		}
 
+		if condition.Raw() == nil {
+			return NewValue(nil), nil
+		}
+
 		if condition.Bool() {
 			return HandleExpression(apply.Expressions[1], in, dd, td, lt, ms)
 		} else {
-- 
2.43.0


From 36a9840d909cd8243a66abaa4d09cabcd8d8ddda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:36 +0000
Subject: [PATCH 63/72] fix: write a nil pointer with a String method without
 calling it

---
 evaluation/miningschema.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/evaluation/miningschema.go b/evaluation/miningschema.go
index 3cf6b90..5ce0870 100644
--- a/evaluation/miningschema.go
+++ b/evaluation/miningschema.go
@@ -2,6 +2,7 @@ package evaluation
 
 import (
 	"fmt"
+	"reflect"
 	"strconv"
 )
 
@@ -135,13 +136,20 @@ func (v Value) String() string {
 		return s
 	}
 
-	if s, ok := v.val.(stringer); ok {
+	// a nil pointer has no value to call the method on
+	if s, ok := v.val.(stringer); ok && !isNilPointer(v.val) {
 		return s.String()
 	}
 
 	return fmt.Sprintf("%v", v.val)
 }
 
+func isNilPointer(val interface{}) bool {
+	rv := reflect.ValueOf(val)
+
+	return rv.Kind() == reflect.Ptr && rv.IsNil()
+}
+
 // equal reports whether the value denotes the literal, which has the Go type
 // getRawValue gives for the field's declared data type.
 func (v Value) equal(literal interface{}) bool {
-- 
2.43.0


From 6106fc1ab3ff696ad91aecad46d78254b66ddab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:08 +0000
Subject: [PATCH 64/72] fix: never leave out a segment whose score is one of
 several outputs

---
 evaluation/mining.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/evaluation/mining.go b/evaluation/mining.go
index d43b4be..7b6cd22 100644
--- a/evaluation/mining.go
+++ b/evaluation/mining.go
@@ -200,19 +200,27 @@ func (m *MiningModel) evaluateMultipleModelSum(input DataRow) (DataRow, error) {
 }
 
 // regressionScore picks the prediction from a segment's output. Tree models call
-// it "score", the other models name it after their only output.
-func regressionScore(segout DataRow) (Value, bool) {
+// it "score", the other models name it after their only output or the target.
+func (m *MiningModel) regressionScore(segout DataRow) (Value, bool, error) {
 	if score, ok := segout["score"]; ok {
-		return score, true
+		return score, true, nil
 	}
 
 	if len(segout) == 1 {
 		for _, score := range segout {
-			return score, true
+			return score, true, nil
 		}
 	}
 
-	return Value{}, false
+	if score, ok := segout[string(m.targetField)]; ok {
+		return score, true, nil
+	}
+
+	if len(segout) > 0 {
+		return Value{}, false, fmt.Errorf("cannot tell which of a segment's %d outputs is its score", len(segout))
+	}
+
+	return Value{}, false, nil
 }
 
 // sumSegments adds up the segments that apply, and counts them.
@@ -247,7 +255,11 @@ func (m *MiningModel) sumSegments(input DataRow) (map[models.FieldName]float64,
 					scoreMap[k] = v + outval.Float64()
 				}
 			} else {
-				outval, ok := regressionScore(segout)
+				outval, ok, err := m.regressionScore(segout)
+				if err != nil {
+					return nil, 0, err
+				}
+
 				if ok {
 					scoreMap[k] = v + outval.Float64()
 				}
-- 
2.43.0


From 57536cbdca83fe7ae448f13a7cb743a8a1bd5b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:09 +0000
Subject: [PATCH 65/72] fix: find the class of an ensemble's output also when
 its name is another

---
 evaluation/mining.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/evaluation/mining.go b/evaluation/mining.go
index 7b6cd22..4b654be 100644
--- a/evaluation/mining.go
+++ b/evaluation/mining.go
@@ -223,6 +223,23 @@ func (m *MiningModel) regressionScore(segout DataRow) (Value, bool, error) {
 	return Value{}, false, nil
 }
 
+// classScore picks the value of an output from a segment's output: by its name,
+// or by the name that tree models give the probability of its class.
+func (m *MiningModel) classScore(segout DataRow, name models.FieldName) (Value, bool) {
+	if score, ok := segout[string(name)]; ok {
+		return score, true
+	}
+
+	for _, field := range m.outputFields {
+		if field.Name == name && field.Feature == models.ResultFeatureProbability {
+			score, ok := segout[fmt.Sprintf("probability(%s)", field.Value)]
+			return score, ok
+		}
+	}
+
+	return Value{}, false
+}
+
 // sumSegments adds up the segments that apply, and counts them.
 func (m *MiningModel) sumSegments(input DataRow) (map[models.FieldName]float64, int, error) {
 	count := 0
@@ -250,7 +267,7 @@ func (m *MiningModel) sumSegments(input DataRow) (map[models.FieldName]float64,
 
 		for k, v := range scoreMap {
 			if m.model.FunctionName == models.MiningFunctionClassification {
-				outval, ok := segout[string(k)]
+				outval, ok := m.classScore(segout, k)
 				if ok {
 					scoreMap[k] = v + outval.Float64()
 				}
-- 
2.43.0


From e9a071431e1fef27cb7a78f49fe5cb78a882208b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:23 +0000
Subject: [PATCH 66/72] fix: do not predict 0 for the label of a classification
 ensemble

---
 evaluation/mining.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/evaluation/mining.go b/evaluation/mining.go
index 4b654be..5994319 100644
--- a/evaluation/mining.go
+++ b/evaluation/mining.go
@@ -250,7 +250,10 @@ func (m *MiningModel) sumSegments(input DataRow) (map[models.FieldName]float64,
 	}
 
 	for _, target := range m.targets {
-		scoreMap[target.Field] = 0.0
+		// the label of a classification is no sum
+		if m.model.FunctionName != models.MiningFunctionClassification {
+			scoreMap[target.Field] = 0.0
+		}
 	}
 
 	for i, segmodel := range m.segmodels {
@@ -289,6 +292,10 @@ func (m *MiningModel) sumSegments(input DataRow) (map[models.FieldName]float64,
 
 func (m *MiningModel) rescale(scoreMap map[models.FieldName]float64) DataRow {
 	for _, target := range m.targets {
+		if _, ok := scoreMap[target.Field]; !ok {
+			continue
+		}
+
 		if target.RescaleFactor != nil {
 			scoreMap[target.Field] = scoreMap[target.Field] * *target.RescaleFactor
 		}
-- 
2.43.0


From ea09e30d25af0cfb056ad75fb7bb312184c955fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:38 +0000
Subject: [PATCH 67/72] fix: refuse to sum the labels of segments

---
 evaluation/mining.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/evaluation/mining.go b/evaluation/mining.go
index 5994319..c6a7864 100644
--- a/evaluation/mining.go
+++ b/evaluation/mining.go
@@ -269,20 +269,23 @@ func (m *MiningModel) sumSegments(input DataRow) (map[models.FieldName]float64,
 		}
 
 		for k, v := range scoreMap {
+			outval, ok := Value{}, false
+
 			if m.model.FunctionName == models.MiningFunctionClassification {
-				outval, ok := m.classScore(segout, k)
-				if ok {
-					scoreMap[k] = v + outval.Float64()
-				}
+				outval, ok = m.classScore(segout, k)
 			} else {
-				outval, ok, err := m.regressionScore(segout)
+				outval, ok, err = m.regressionScore(segout)
 				if err != nil {
 					return nil, 0, err
 				}
+			}
 
-				if ok {
-					scoreMap[k] = v + outval.Float64()
-				}
+			if _, label := outval.Raw().(string); label {
+				return nil, 0, fmt.Errorf("cannot sum the label %q", outval.String())
+			}
+
+			if ok {
+				scoreMap[k] = v + outval.Float64()
 			}
 		}
 	}
-- 
2.43.0


From 9efae554f937dfd1061314b1d5291601ff711ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:18 +0000
Subject: [PATCH 68/72] fix: compare categories of derived fields in their type

---
 evaluation/regression.go | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index 4d3f8ec..1fb3e52 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -154,20 +154,17 @@ func (m *RegressionModel) evaluateTable(rtbl models.RegressionTable, input DataR
 
 // isCategory compares the value in the declared type of the predictor's field.
 func (m *RegressionModel) isCategory(val Value, cp models.CategoricalPredictor) (bool, error) {
-	for _, df := range m.dd.DataFields {
-		if df.Name != cp.Name {
-			continue
-		}
-
-		category, err := getRawValue(df.DataType, cp.Value)
-		if err != nil {
-			return false, fmt.Errorf("category %q of %s: %v", cp.Value, cp.Name, err)
-		}
+	dataType := fieldType(string(cp.Name), m.dd, m.td, &m.model.LocalTransformations)
+	if dataType == "" {
+		return val.equal(cp.Value), nil
+	}
 
-		return val.equal(category), nil
+	category, err := getRawValue(dataType, cp.Value)
+	if err != nil {
+		return false, fmt.Errorf("category %q of %s: %v", cp.Value, cp.Name, err)
 	}
 
-	return val.equal(cp.Value), nil
+	return val.equal(category), nil
 }
 
 func (m *RegressionModel) EvaluateRegression(input DataRow) (DataRow, error) {
-- 
2.43.0


From dd9a66113d34d6502444914f1249f7a62c81fd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:11 +0000
Subject: [PATCH 69/72] fix: zeroThreshold is 1E-16 where none is given

---
 evaluation/evaluation.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/evaluation/evaluation.go b/evaluation/evaluation.go
index 7fbee32..0327559 100644
--- a/evaluation/evaluation.go
+++ b/evaluation/evaluation.go
@@ -84,8 +84,11 @@ func verifyModel(m Model, mv *models.ModelVerification) error {
 				}
 				predicted := predictedVal.Float64()
 				delta := expected - predicted
-				if vField.ZeroThreshold != nil && math.Abs(expected) <= *vField.ZeroThreshold &&
-					math.Abs(predicted) <= *vField.ZeroThreshold {
+				zeroThreshold := 1e-16
+				if vField.ZeroThreshold != nil {
+					zeroThreshold = *vField.ZeroThreshold
+				}
+				if math.Abs(expected) <= zeroThreshold && math.Abs(predicted) <= zeroThreshold {
 					continue
 				}
 				// NaN is not within any tolerance
-- 
2.43.0


From 308eb590ca39180b8b3bd5995c4f0cc25b379fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:34 +0000
Subject: [PATCH 70/72] fix: refuse outputs of a classification that are no
 probabilities

---
 evaluation/regression.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index 1fb3e52..2a64de8 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -219,6 +219,9 @@ func (m *RegressionModel) EvaluateBinaryClassification(input DataRow) (DataRow,
 
 		for _, output := range m.model.Output.Fields {
 			if rtbl.TargetCategory == output.Value {
+				if output.Feature != models.ResultFeatureProbability {
+					return nil, fmt.Errorf("unsupported output feature %s", output.Feature)
+				}
 				out[string(output.Name)] = NewValue(pred)
 			}
 		}
@@ -263,6 +266,9 @@ func (m *RegressionModel) EvaluateMulticlassClassification(input DataRow) (DataR
 
 		for _, output := range m.model.Output.Fields {
 			if rtbl.TargetCategory == output.Value {
+				if output.Feature != models.ResultFeatureProbability {
+					return nil, fmt.Errorf("unsupported output feature %s", output.Feature)
+				}
 				out[string(output.Name)] = NewValue(prob)
 			}
 		}
-- 
2.43.0


From 381155be115dee405019c8b03609cb553377e4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:35 +0000
Subject: [PATCH 71/72] fix: verify labels that look like numbers as labels

---
 evaluation/evaluation.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/evaluation/evaluation.go b/evaluation/evaluation.go
index 0327559..430d98e 100644
--- a/evaluation/evaluation.go
+++ b/evaluation/evaluation.go
@@ -71,9 +71,10 @@ func verifyModel(m Model, mv *models.ModelVerification) error {
 				if !ok {
 					return fmt.Errorf("expected output: %s not produced by model", fieldName)
 				}
-				// a label is compared as it is
-				if _, numeric := predictedVal.number(); !numeric {
-					if predictedVal.String() != NewValue(v).String() {
+				// a label is compared as it is, also one that looks like a number
+				if _, label := predictedVal.Raw().(string); label {
+					n, numeric := NewValue(v).number()
+					if predictedVal.String() != NewValue(v).String() && !(numeric && predictedVal.equal(n)) {
 						return fmt.Errorf("%s: expected %v, predicted %v", k, v, predictedVal.Raw())
 					}
 					continue
-- 
2.43.0


From 53cfa234d69e4f0a87eceb60a120df060bf7d042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:39 +0000
Subject: [PATCH 72/72] fix: convert unsigned values above the int64 range to
 float32

---
 evaluation/miningschema.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/evaluation/miningschema.go b/evaluation/miningschema.go
index 5ce0870..d5091fa 100644
--- a/evaluation/miningschema.go
+++ b/evaluation/miningschema.go
@@ -35,6 +35,15 @@ func (v Value) Float32() float32 {
 		return float32(v.Float64())
 	}
 
+	// above the int64 range
+	if u, ok := v.val.(uint64); ok {
+		return float32(u)
+	}
+
+	if u, ok := v.val.(uint); ok {
+		return float32(u)
+	}
+
 	return float32(v.Int64())
 }
 
-- 
2.43.0

