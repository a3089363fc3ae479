package main

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"math"
	"sort"
	"strings"
	"testing/iotest"

	"github.com/flukeish/pmml/evaluation"
	"github.com/flukeish/pmml/models"
)

// ---- C28: every way into the package gives the same answer.

// decodeVia decodes a document in one of several ways.
func decodeVia(how int, text string) (doc *models.PMML, err error) {
	defer guard(&err)

	doc = new(models.PMML)

	switch how {
	case 0:
		err = xml.Unmarshal([]byte(text), doc)
	case 1:
		err = xml.NewDecoder(iotest.OneByteReader(strings.NewReader(text))).Decode(doc)
	case 2:
		err = xml.NewDecoder(iotest.HalfReader(bytes.NewBufferString(text))).Decode(doc)
	case 3:
		err = xml.NewDecoder(iotest.DataErrReader(strings.NewReader(text))).Decode(doc)
	case 4:
		// two documents after each other on one decoder
		d := xml.NewDecoder(strings.NewReader(text + "\n" + text))
		if err = d.Decode(new(models.PMML)); err == nil {
			err = d.Decode(doc)
		}
	case 5:
		// what comes after the document is not read
		err = xml.NewDecoder(io.MultiReader(strings.NewReader(text), strings.NewReader("<and then"))).Decode(doc)
	case 6:
		// as a part of something else
		d := xml.NewDecoder(strings.NewReader("<envelope><PMML-is-next/>" + text + "</envelope>"))

		for {
			var tok xml.Token
			if tok, err = d.Token(); err != nil {
				return nil, err
			}

			if start, ok := tok.(xml.StartElement); ok && start.Name.Local == "PMML" {
				err = d.DecodeElement(doc, &start)
				break
			}
		}
	}

	return doc, err
}

var decodeWays = []string{"unmarshal", "byte_by_byte", "in_halves", "data_with_eof", "second_on_decoder", "followed_by_junk", "inside_an_envelope"}

// buildKind builds the first model with the constructor of its kind.
func buildKind(doc *models.PMML) (m evaluation.Model, err error) {
	defer guard(&err)

	// the dictionaries by value: nothing may depend on where they are kept
	dd, td := doc.DataDictionary, doc.TransformationDictionary

	switch mdl := doc.Models[0].(type) {
	case *models.TreeModel:
		return evaluation.NewTreeModel(&dd, &td, mdl)
	case *models.RegressionModel:
		return evaluation.NewRegressionModel(&dd, &td, mdl)
	case *models.MiningModel:
		return evaluation.NewMiningModel(&dd, &td, mdl)
	}

	return nil, fmt.Errorf("unexpected model %T", doc.Models[0])
}

// buildAlone decodes the model's element by itself.
func buildAlone(doc *models.PMML, e *El) (m evaluation.Model, err error) {
	defer guard(&err)

	var mdl models.ModelElement

	switch e.Name {
	case "TreeModel":
		mdl = new(models.TreeModel)
	case "RegressionModel":
		mdl = new(models.RegressionModel)
	case "MiningModel":
		mdl = new(models.MiningModel)
	}

	if err = xml.Unmarshal([]byte(e.String()), mdl); err != nil {
		return nil, err
	}

	return evaluation.NewModel(&doc.DataDictionary, &doc.TransformationDictionary, mdl)
}

// partsOf are the local transformations and the schema of the first model.
func partsOf(doc *models.PMML) (*models.LocalTransformations, *models.MiningSchema) {
	switch mdl := doc.Models[0].(type) {
	case *models.TreeModel:
		return &mdl.LocalTransformations, &mdl.MiningSchema
	case *models.RegressionModel:
		return &mdl.LocalTransformations, &mdl.MiningSchema
	case *models.MiningModel:
		return &mdl.LocalTransformations, &mdl.MiningSchema
	}

	return nil, nil
}

func prepare(doc *models.PMML, row evaluation.DataRow) (out evaluation.DataRow, err error) {
	defer guard(&err)

	lt, ms := partsOf(doc)

	return evaluation.HandleInput(row, &doc.DataDictionary, &doc.TransformationDictionary, lt, ms)
}

// byHand evaluates the derived fields one by one.
func byHand(doc *models.PMML, row evaluation.DataRow) (out evaluation.DataRow, err error) {
	defer guard(&err)

	lt, ms := partsOf(doc)
	out = copyRow(row)

	for _, mf := range ms.MiningFields {
		if mf.MissingValueReplacement != nil && out[string(mf.Name)].Raw() == nil {
			out[string(mf.Name)] = evaluation.NewValue(*mf.MissingValueReplacement)
		}
	}

	for _, df := range append(append([]models.DerivedField{}, doc.TransformationDictionary.DerivedFields...), lt.DerivedFields...) {
		v, err := evaluation.HandleExpression(df.Expression, out, &doc.DataDictionary, &doc.TransformationDictionary, lt, ms)
		if err != nil {
			return nil, err
		}

		if df.OpType == models.OpTypeContinuous && v.Raw() != nil {
			v = evaluation.NewValue(v.Float64())
		}

		out[df.Name] = v
	}

	return out, nil
}

// present is a row without its missing values.
func present(row evaluation.DataRow, err error) string {
	if err != nil {
		return exact(row, err)
	}

	out := evaluation.DataRow{}
	for k, v := range row {
		if v.Raw() != nil {
			out[k] = v
		}
	}

	return exact(out, nil)
}

func runEntryPoints(c *Ctx) {
	g, docEl, ok := c.anyModel()
	if !ok {
		return
	}

	text := docEl.String()

	doc, m, err := load(text)
	if err != nil {
		c.note("document:\n%s", text)
		c.fail("a valid document was refused: %v", err)

		return
	}

	type way struct {
		name string
		m    evaluation.Model
	}

	var ways []way

	add := func(name string, m evaluation.Model, err error) {
		c.event(name)

		if err != nil {
			c.note("document:\n%s", text)
			c.fail("%s: %v", name, err)

			return
		}

		ways = append(ways, way{name, m})
	}

	k := c.Intn(len(decodeWays))

	d, err := decodeVia(k, text)
	if err == nil {
		m, err := buildDoc(d)
		add("decoded_"+decodeWays[k], m, err)
	} else {
		add("decoded_"+decodeWays[k], nil, err)
	}

	kind, err := buildKind(doc)
	add("constructor_of_its_kind", kind, err)

	alone, err := buildAlone(doc, docEl.All(modelNames...)[0])
	add("element_by_itself", alone, err)

	for i := 0; i < 5 && !c.cut; i++ {
		row := toRow(c.Rng, g.modestRow())
		out, err := evaluate(m, copyRow(row))
		base := exact(out, err)

		report := func(way, got string) {
			c.note("document:\n%s", text)
			c.note("row: %s", showRow(row))
			c.fail("%s gives %s, NewModel and Evaluate give %s (%v)", way, got, base, err)
		}

		for _, w := range ways {
			c.eval()

			got, gerr := evaluate(w.m, copyRow(row))
			if s := exact(got, gerr); s != base {
				report(w.name, s)
				return
			}
		}

		// the steps of an evaluation, one by one
		in, perr := prepare(doc, copyRow(row))
		hand, herr := byHand(doc, copyRow(row))
		c.eval()
		c.event("derived_fields_by_hand")

		if a, b := present(in, perr), present(hand, herr); a != b {
			report("HandleInput makes of the row "+a+" but HandleExpression", b)
			return
		}

		if perr != nil && err == nil {
			report("HandleInput", perr.Error())
			return
		}

		if r, ok := m.(*evaluation.RegressionModel); ok && perr == nil {
			mdl := doc.Models[0].(*models.RegressionModel)

			f, name := r.EvaluateMulticlassClassification, "evaluate_multiclass"

			switch {
			case mdl.FunctionName == models.MiningFunctionRegression:
				f, name = r.EvaluateRegression, "evaluate_regression"
			case len(mdl.RegressionTables) == 2 && mdl.RegressionNormalizationMethod != "softmax" && mdl.RegressionNormalizationMethod != "simplemax":
				f, name = r.EvaluateBinaryClassification, "evaluate_binary"
			}

			c.eval()
			c.event(name)

			var got evaluation.DataRow

			gerr := call(func() (err error) { got, err = f(copyRow(in)); return err })
			if s := exact(got, gerr); s != base {
				report(name, s)
				return
			}
		}

		c.nontrivial(text, showRow(row), k)
		c.sample("%s\nrow %s", text, showRow(row))
	}
}

// ---- C29: where order has no meaning, it makes no difference.

func (c *Ctx) mix(kids []*El, names ...string) []*El {
	// the children with these names change places among themselves
	var at []int

	for i, k := range kids {
		for _, n := range names {
			if k.Name == n {
				at = append(at, i)
			}
		}
	}

	out := append([]*El{}, kids...)
	for i, j := range c.Perm(len(at)) {
		out[at[i]] = kids[at[j]]
	}

	return out
}

// mentions tells whether an element or what it contains has the name in an
// attribute.
func mentions(e *El, name string) bool {
	found := false

	e.walk(func(e *El) {
		for _, a := range e.Attrs {
			found = found || a[1] == name
		}
	})

	return found
}

// reorder puts what may stand in any order in another order.
func (c *Ctx) reorder(doc *El) *El {
	doc = doc.clone()

	types := newRef(doc).types

	// an expression that cannot be evaluated may hide behind a missing operand
	sound := true

	doc.walk(func(e *El) {
		if e.Name == "Apply" {
			switch fn := e.A("function"); fn {
			case "+", "-", "*", "/", "sum", "if", "isMissing", "isNotMissing":
				n := len(e.All(expressionNames...))
				if strings.Contains("+-*/", fn) && n != 2 || fn == "if" && n != 3 {
					sound = false
				}
			default:
				sound = false
			}
		}
	})

	did := func(e *El, what string, names ...string) {
		if c.P(0.7) {
			before := e.Kids
			e.Kids = c.mix(e.Kids, names...)

			for i := range before {
				if before[i] != e.Kids[i] {
					c.event("reordered_" + what)
					break
				}
			}
		}
	}

	doc.walk(func(e *El) {
		switch e.Name {
		case "DataDictionary":
			did(e, "data_fields", "DataField")
		case "DataField":
			did(e, "values", "Value")
		case "MiningSchema":
			did(e, "mining_fields", "MiningField")
		case "Output":
			// a regression has one output; of several it predicts each
			did(e, "outputs", "OutputField")
		case "Targets":
			did(e, "targets", "Target")
		case "RegressionTable":
			did(e, "predictors", "NumericPredictor", "CategoricalPredictor", "PredictorTerm")
		case "PredictorTerm":
			did(e, "factors", "FieldRef")
		case "RegressionModel":
			if e.A("normalizationMethod") == "softmax" && e.A("functionName") == "classification" {
				did(e, "tables", "RegressionTable")
			}
		case "CompoundPredicate":
			if e.A("booleanOperator") != "surrogate" {
				did(e, "operands_"+e.A("booleanOperator"), predicateNames...)
			}
		case "InlineTable":
			did(e, "table_rows", "row")
		case "row":
			var names []string
			for _, k := range e.Kids {
				names = append(names, k.Name)
			}

			did(e, "cells", names...)
		case "MapValues":
			did(e, "keys", "FieldColumnPair")
		case "Segmentation":
			if m := e.A("multipleModelMethod"); m == "sum" || m == "average" || m == "" {
				did(e, "segments", "Segment")
			}
		case "Apply":
			if fn := e.A("function"); sound && (fn == "+" || fn == "*" || fn == "sum" && len(e.All(expressionNames...)) == 2) {
				did(e, "summands_and_factors", expressionNames...)
			}
		case "SimpleSetPredicate":
			if a := e.Kid("Array"); a != nil && c.P(0.7) {
				ms := refSplit(a.Text)
				for i, j := range c.Perm(len(ms)) {
					ms[i], ms[j] = ms[j], ms[i]
				}

				if t := types[e.A("field")]; t != "double" && t != "float" && t != "integer" {
					for i := range ms {
						ms[i] = `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(ms[i]) + `"`
					}
				}

				a.Text = strings.Join(ms, " ")

				c.event("reordered_members")
			}
		case "TransformationDictionary", "LocalTransformations":
			// neighbours which do not read each other
			for i := 0; i+1 < len(e.Kids); i++ {
				a, b := e.Kids[i], e.Kids[i+1]
				if a.Name == "DerivedField" && b.Name == "DerivedField" && !mentions(a, b.A("name")) && !mentions(b, a.A("name")) && c.P(0.7) {
					e.Kids[i], e.Kids[i+1] = b, a

					c.event("reordered_derived_fields")
				}
			}
		}
	})

	return doc
}

// alike compares two predictions, numbers up to rounding, and labels that are
// equally probable with each other.
func alike(a, b evaluation.DataRow) string {
	if (a == nil) != (b == nil) || len(a) != len(b) {
		return "different outputs"
	}

	for k, v := range a {
		w, ok := b[k]
		if !ok {
			return fmt.Sprintf("output %q in one only", k)
		}

		if isNumber(v) != isNumber(w) {
			return fmt.Sprintf("output %q has another type", k)
		}

		if isNumber(v) {
			x, y := v.Float64(), w.Float64()
			if x == y || math.IsNaN(x) && math.IsNaN(y) {
				continue
			}

			if !(math.Abs(x-y) <= 1e-7*math.Max(1, math.Max(math.Abs(x), math.Abs(y)))) {
				return fmt.Sprintf("output %q", k)
			}

			continue
		}

		if v.String() == w.String() {
			continue
		}

		p, q := a["probability("+v.String()+")"], a["probability("+w.String()+")"]
		if !isNumber(p) || !isNumber(q) || math.Abs(p.Float64()-q.Float64()) > 1e-9 {
			return fmt.Sprintf("output %q", k)
		}
	}

	return ""
}

func runOrder(c *Ctx) {
	g, docEl, ok := c.anyModel()
	if !ok {
		return
	}

	other := c.reorder(docEl)
	text, otherText := docEl.String(), other.String()

	_, m, err := load(text)
	if err == nil {
		var n evaluation.Model

		if _, n, err = load(otherText); err == nil {
			c.sameUpTo("reordered", g, text, otherText, m, n)
			return
		}

		text = otherText
	}

	c.note("document:\n%s", text)
	c.fail("a valid document was refused: %v", err)
}

func (c *Ctx) sameUpTo(what string, g *Gen, text, otherText string, m, n evaluation.Model) {
	for i := 0; i < 6 && !c.cut; i++ {
		row := g.modestRow()
		a, aerr := evaluate(m, toRow(c.Rng, row))
		b, berr := evaluate(n, toRow(c.Rng, row))
		c.eval()

		d := ""

		switch {
		case isPanic(aerr) || isPanic(berr) || (aerr == nil) != (berr == nil):
			d = "one fails"
		case aerr != nil:
			c.event("both_fail")
			continue
		default:
			d = alike(a, b)
		}

		if d != "" {
			c.note("document:\n%s", text)
			c.note("%s:\n%s", what, otherText)
			c.note("row: %s", showRef(row))
			c.fail("%s: %s (%v) but %s (%v) %s", d, showRow(a), aerr, showRow(b), berr, what)

			return
		}

		if a == nil {
			c.event("null_prediction")
		} else {
			c.event("same_prediction")
		}

		if text != otherText {
			c.nontrivial(text, otherText, showRef(row))
			c.sample("%s\n%s\n%s\nrow %s", text, what, otherText, showRef(row))
		}
	}
}

// ---- C30: names are only names.

var oddNames = []string{"target", "prediction", "value", "id", "null", "nil", "0", "-1", "1e3", "NaN", "Score", "SCORE", "score ", " score", "scores", "probability", "probability()",
	"Probability(yes)", "predictedValue", "x", "X", "x ", "field", "true", "false", "True", "a.b", "a:b", "data:x", "data:", "x(y)", "{x}", "$1", "%s", "%", "\\", "'", `"`, "&amp;", "<", ">", "ä", "a\u0308", "Ä",
	"日本", "\U0001F600", "y", "n1", "n2", "1", "01", "long long name with spaces", "missing", "None", "any", "default", "*", "/", "+", "if", "sum", "isMissing", "n", "feature", "probability(", "robability(x)",
	"predicted", "other", "Other", "others", "unknown", "result", "results", "output", "outcome", "class", "label", "intercept", "root", "main", "N/A", "NA", "na", "?", "-", "_", ".", "weight", "count",
	"confidence", "segment", "model", "row", "input", "data", "response", "Sum", "avg", "log", "T", "F", "yes", "no", "on", "off", "inf", "+Inf", "0x1", "1_000", "TRUE", "empty", "winner", "rest", "else"}

// fieldAttrs are the attributes that hold the name of a field.
var fieldAttrs = map[string][]string{
	"DataField": {"name"}, "DerivedField": {"name"}, "MiningField": {"name"}, "FieldRef": {"field"}, "SimplePredicate": {"field"}, "SimpleSetPredicate": {"field"},
	"NumericPredictor": {"name"}, "CategoricalPredictor": {"name"}, "FieldColumnPair": {"field"}, "Target": {"field"}, "OutputField": {"name"}, "VerificationField": {"field"},
}

type renaming struct {
	fields, classes, ids map[string]string
	strings              map[string]string // nil when strings stay
	types                map[string]string
}

func (r *renaming) name(s string) string {
	if n, ok := r.fields[s]; ok {
		return n
	}

	// the names that trees give to their outputs
	if strings.HasPrefix(s, "probability(") && strings.HasSuffix(s, ")") {
		if cl, ok := r.classes[s[12:len(s)-1]]; ok {
			return "probability(" + cl + ")"
		}
	}

	return s
}

func (r *renaming) class(s string) string {
	if n, ok := r.classes[s]; ok {
		return n
	}

	return s
}

func (r *renaming) text(s string) string {
	if n, ok := r.strings[s]; ok {
		return n
	}

	return s
}

// apply renames in a document. The target's values are classes, the values of
// string fields are strings.
func (r *renaming) apply(e *El, target string, class bool) {
	switch e.Name {
	case "TreeModel", "MiningModel", "RegressionModel":
		class = e.A("functionName") == "classification"
	}

	isText := false

	for i, a := range e.Attrs {
		switch {
		case e.Name == "Node" && a[0] == "score" && class,
			e.Name == "ScoreDistribution" && a[0] == "value",
			e.Name == "RegressionTable" && a[0] == "targetCategory",
			e.Name == "OutputField" && a[0] == "value":
			e.Attrs[i][1] = r.class(a[1])
		case e.Name == "Node" && (a[0] == "id" || a[0] == "defaultChild"):
			if n, ok := r.ids[a[1]]; ok {
				e.Attrs[i][1] = n
			}
		case (e.Name == "SimplePredicate" || e.Name == "CategoricalPredictor") && a[0] == "value",
			e.Name == "FieldRef" && a[0] == "mapMissingTo",
			e.Name == "MiningField" && a[0] == "missingValueReplacement":
			f := e.A("field")
			if f == "" {
				f = e.A("name")
			}

			isText = r.types[f] == "string"
			if isText {
				e.Attrs[i][1] = r.text(a[1])
			}
		}
	}

	if e.Name == "SimpleSetPredicate" && r.types[e.A("field")] == "string" && r.strings != nil {
		a := e.Kid("Array")
		ms := refSplit(a.Text)

		for i := range ms {
			ms[i] = `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(r.text(ms[i])) + `"`
		}

		a.Text = strings.Join(ms, " ")
	}

	if e.Name == "DataField" {
		for _, v := range e.All("Value") {
			if e.A("name") == target {
				v.set("value", r.class(v.A("value")))
			} else if e.A("dataType") == "string" {
				v.set("value", r.text(v.A("value")))
			}
		}
	}

	for _, k := range e.Kids {
		r.apply(k, target, class)
	}

	// last, as the types go by the old names
	for i, a := range e.Attrs {
		for _, n := range fieldAttrs[e.Name] {
			if a[0] == n {
				e.Attrs[i][1] = r.name(a[1])
			}
		}
	}
}

// almost is another text that is easily taken for this one.
func (c *Ctx) almost(s string) string {
	switch c.Intn(9) {
	case 0:
		return " " + s
	case 1:
		return s + " "
	case 2:
		return strings.ToUpper(s)
	case 3:
		return strings.ToLower(s)
	case 4:
		return "p:" + s
	case 5:
		return strings.TrimSpace(s)
	case 6:
		return s[strings.LastIndexAny(s, ":.")+1:]
	case 7:
		return s + "0"
	}

	return "0" + s
}

// fresh gives each name another one; no two the same.
func (c *Ctx) fresh(names []string, keep map[string]bool) map[string]string {
	sort.Strings(names)

	out := map[string]string{}
	taken := map[string]bool{}

	for _, n := range names {
		if c.P(0.25) && !taken[n] {
			// keeps its name
			out[n] = n
			taken[n] = true
		}
	}

	for _, n := range names {
		if out[n] != "" {
			continue
		}

		for {
			x := oddNames[c.Intn(len(oddNames))]

			switch c.Intn(6) {
			case 0:
				x = n + x
			case 1:
				x += n
			case 2:
				// one of the others' names, unless it keeps it
				x = names[c.Intn(len(names))]
			case 3, 4:
				// almost the name that another one has got
				if y := out[names[c.Intn(len(names))]]; y != "" {
					x = c.almost(y)
				}
			}

			if !taken[x] && !keep[x] && x != "" {
				out[n] = x
				taken[x] = true

				break
			}

			if c.P(0.01) {
				x = fmt.Sprintf("fresh %d", len(taken))
				out[n] = x
				taken[x] = true

				break
			}
		}
	}

	return out
}

// rename gives other names to what the document names: the renaming, and the
// document under the other names.
func (c *Ctx) rename(g *Gen, docEl *El) (*renaming, *El) {
	ref := newRef(docEl)
	r := &renaming{types: ref.types}

	fields, classes, ids, texts := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}

	// names which the package itself gives to outputs stay
	keep := map[string]bool{"score": true}
	tables := false

	var collect func(e *El, class bool)

	collect = func(e *El, class bool) {
		switch e.Name {
		case "TreeModel", "MiningModel", "RegressionModel":
			class = e.A("functionName") == "classification"
		case "Node":
			if s, ok := e.Has("score"); ok && class {
				classes[s] = true
			}

			for _, k := range []string{"id", "defaultChild"} {
				if s, ok := e.Has(k); ok {
					ids[s] = true
				}
			}
		case "ScoreDistribution":
			classes[e.A("value")] = true
		case "MapValues", "Apply":
			tables = tables || e.Name == "MapValues"

			if _, ok := e.Has("defaultValue"); ok && e.Name == "MapValues" {
				tables = true
			}
		}

		for _, n := range fieldAttrs[e.Name] {
			if v, ok := e.Has(n); ok {
				fields[v] = true
			}
		}

		for _, k := range e.Kids {
			collect(k, class)
		}
	}

	collect(docEl, false)

	for _, f := range g.fields {
		fields[f.name] = true

		for _, v := range f.values {
			texts[v] = true
		}
	}

	for _, cl := range g.classes {
		classes[cl] = true
	}

	for _, v := range append(append([]string{}, stringPool...), "something else", "true", "false") {
		texts[v] = true
	}

	fields[g.target] = true
	delete(fields, "score")

	for f := range fields {
		if strings.HasPrefix(f, "probability(") {
			delete(fields, f)
			keep[f] = true
		}
	}

	list := func(m map[string]bool) []string {
		var out []string
		for k := range m {
			out = append(out, k)
		}

		return out
	}

	r.classes, r.ids = map[string]string{}, map[string]string{}

	if c.P(0.7) {
		r.classes = c.fresh(list(classes), map[string]bool{})
		c.event("renamed_classes")
	}

	for cl := range classes {
		keep["probability("+cl+")"] = true
		keep["probability("+r.class(cl)+")"] = true
	}

	r.fields = map[string]string{}
	if c.P(0.8) {
		r.fields = c.fresh(list(fields), keep)
		c.event("renamed_fields")
	}

	if c.P(0.7) {
		r.ids = c.fresh(list(ids), map[string]bool{})
		c.event("renamed_nodes")
	}

	if !tables && c.P(0.6) {
		r.strings = c.fresh(list(texts), map[string]bool{})
		c.event("renamed_strings")
	}

	other := docEl.clone()
	r.apply(other, g.target, false)

	return r, other
}

// under is the generator of the rows of a document which was renamed.
func (r *renaming) under(g *Gen) {
	for i, f := range g.fields {
		g.fields[i].name = r.name(f.name)
		g.fields[i].values = nil

		for _, v := range f.values {
			g.fields[i].values = append(g.fields[i].values, r.text(v))
		}
	}

	for i, cl := range g.classes {
		g.classes[i] = r.class(cl)
	}

	g.target = r.name(g.target)
}

func runNames(c *Ctx) {
	g, docEl, ok := c.anyModel()
	if !ok {
		return
	}

	r, other := c.rename(g, docEl)
	text, otherText := docEl.String(), other.String()

	_, m, err := load(text)
	if err != nil {
		c.note("document:\n%s", text)
		c.fail("a valid document was refused: %v", err)

		return
	}

	_, n, err := load(otherText)
	if err != nil {
		c.note("document:\n%s", otherText)
		c.fail("a valid document was refused: %v", err)

		return
	}

	for i := 0; i < 5 && !c.cut; i++ {
		row := g.modestRow()
		renamed := Row{}

		for k, v := range row {
			if v.K == 's' {
				v = vs(r.text(v.S))
			}

			renamed[r.name(k)] = v
		}

		a, aerr := evaluate(m, toRow(nil, row))
		b, berr := evaluate(n, toRow(nil, renamed))
		c.eval()

		// what the first prediction is called under the new names
		var want evaluation.DataRow

		if a != nil {
			want = evaluation.DataRow{}

			for k, v := range a {
				if s, ok := v.Raw().(string); ok {
					v = evaluation.NewValue(r.class(s))
				}

				want[r.name(k)] = v
			}
		}

		if exact(want, aerr) != exact(b, berr) {
			c.note("document:\n%s", text)
			c.note("renamed:\n%s", otherText)
			c.note("row: %s, renamed: %s", showRef(row), showRef(renamed))
			c.fail("%s (%v) but %s (%v) under other names", showRow(a), aerr, showRow(b), berr)

			return
		}

		if a != nil {
			c.event("same_prediction")
		}

		if text != otherText {
			c.nontrivial(text, otherText, showRef(row))
			c.sample("%s\nrenamed\n%s\nrow %s", text, otherText, showRef(row))
		}
	}
}
