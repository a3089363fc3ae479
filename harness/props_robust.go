package main

import (
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io/ioutil"
	"math"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/flukeish/pmml/evaluation"
	"github.com/flukeish/pmml/models"
)

// C20: the members of an array are the values its text lists.
func runArrays(c *Ctx) {
	kind := c.Str("string", "string", "int", "real")

	var toks []string

	for i := c.Intn(9); i > 0; i-- {
		switch kind {
		case "string":
			toks = append(toks, c.Str("a", "red", "light blue", `say "hi"`, `c:\dir`, "é", "日本 語", "", " ", "x\ty", "0", "<&>", "it's", `\`, `"`, "a,b", strings.Repeat("long ", 40)))
		case "int":
			toks = append(toks, c.Str("0", "-1", "42", "+7", "007", "010", "-0012", "+08", "0777", "9223372036854775807", "-9223372036854775808", strconv.Itoa(c.Range(-1000, 1000))))
		case "real":
			toks = append(toks, c.Str("0", "-1.5", "1e10", "1E-300", ".5", "5.", "-0", "4.9e-324", "1.7976931348623157e308", "0.1", strconv.FormatFloat(c.Float()*1e6-5e5, 'g', -1, 64)))
		}
	}

	space := func() string {
		n := c.Range(1, 3)
		s := ""

		for ; n > 0; n-- {
			s += c.Str(" ", " ", "\n", "\t", "\r\n")
		}

		return s
	}

	var b strings.Builder

	if c.P(0.3) {
		b.WriteString(space())
	}

	for i, t := range toks {
		if i > 0 {
			b.WriteString(space())
		}

		quote := kind == "string" && (t == "" || c.P(0.3))
		if kind != "string" && c.P(0.05) {
			quote = true
		}

		if quote {
			c.event("quoted")
			b.WriteString(`"`)
		}

		for _, r := range t {
			switch {
			case r == '"' || r == '\\':
				c.event("escaped")
				b.WriteString(`\`)
			case !quote && strings.ContainsRune(" \t\r\n", r):
				b.WriteString(`\`)
			}

			b.WriteRune(r)
		}

		if quote {
			b.WriteString(`"`)
		}
	}

	if c.P(0.3) {
		b.WriteString(space())
	}

	content := b.String()
	wrong := ""

	switch c.Intn(8) {
	case 0:
		wrong = "unterminated quote"
		content += ` "open end`
	case 1:
		wrong = "lone backslash"
		content += ` x\`
	case 2:
		if kind != "string" {
			wrong = "not a number"
			content += " " + c.Str("abc", "1x", "--3", "1 . 5x", "0x", "''", "1,5", "0b", "1e", "+", "12a", "0o7q", "five")
		}
	case 3:
		if kind == "int" {
			wrong = "not an integer"
			content += " " + c.Str("1.5", "1e3", "9223372036854775808", "-9223372036854775809", "0x10", "0b1", "0o17", "1_0", "5.", "")
			if strings.HasSuffix(content, " ") {
				wrong = ""
			}
		}
	}

	e := el("Array", "type", kind)
	if c.P(0.5) {
		e.set("n", strconv.Itoa(len(toks)))
	}

	e.Text = content
	text := e.String()

	if c.P(0.5) {
		text = newDisguise(c.Rng, true).write(e)
	}

	var at models.ArrayType

	if err := call(func() error { return xml.Unmarshal([]byte(text), &at) }); err != nil {
		c.note("%s", text)
		c.fail("decoding an array: %v", err)

		return
	}

	read := func(as string) (out []string, err error) {
		defer guard(&err)

		switch as {
		case "string":
			out, err = at.Strings()
			// the result belongs to the caller
			defer func(got []string) {
				for i := range got {
					got[i] = "overwritten"
				}
			}(out)

			return append([]string{}, out...), err
		case "int":
			xs, err := at.Int64s()
			for i, x := range xs {
				out = append(out, strconv.FormatInt(x, 10))
				xs[i] = 77
			}

			return out, err
		}

		xs, err := at.Float64s()
		for i, x := range xs {
			out = append(out, strconv.FormatUint(math.Float64bits(x), 16))
			xs[i] = 77
		}

		return out, err
	}

	var want []string

	for _, t := range toks {
		switch kind {
		case "string":
			want = append(want, t)
		case "int":
			n, _ := strconv.ParseInt(t, 10, 64)
			want = append(want, strconv.FormatInt(n, 10))
		case "real":
			f, _ := strconv.ParseFloat(t, 64)
			want = append(want, strconv.FormatUint(math.Float64bits(f), 16))
		}
	}

	// any order, and again: nothing is remembered from one reading to the next
	for _, k := range []int{c.Intn(3), c.Intn(3), c.Intn(3), 3, 3} {
		as := kind
		if k < 3 {
			as = []string{"string", "int", "real"}[k]
		}

		got, err := read(as)
		c.eval()

		switch {
		case isPanic(err):
			c.note("%s", text)
			c.fail("%v", err)

			return
		case as != kind || wrong != "":
			if err == nil {
				c.note("%s", text)
				c.fail("an array of type %s (%s) read as %s without an error: %q", kind, wrong, as, got)

				return
			}

			c.event("refused_" + map[bool]string{true: "other_type", false: wrong}[as != kind])
		case err != nil:
			c.note("%s", text)
			c.fail("reading an array of type %s: %v", kind, err)

			return
		case fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want):
			c.note("%s", text)
			c.fail("an array of type %s reads as %q, not %q", kind, got, want)

			return
		default:
			c.event("read_" + kind)
		}
	}

	c.nontrivial(kind, content)
	c.sample("%s reads as %q", text, want)
}

// breakDoc puts something into a document which the package cannot evaluate,
// where evaluation is bound to meet it. It returns what, or "".
func (g *Gen) breakDoc(doc *El) string {
	top := doc.All(modelNames...)[0]

	pick := func(es []*El) *El {
		if len(es) == 0 {
			return nil
		}

		return es[g.Intn(len(es))]
	}

	all := func(names ...string) (out []*El) {
		top.walk(func(e *El) {
			for _, n := range names {
				if e.Name == n {
					out = append(out, e)
				}
			}
		})

		return out
	}

	derived := func(expr *El) {
		lt := top.Kid("LocalTransformations")
		if lt == nil {
			lt = el("LocalTransformations")
			top.add(lt)
		}

		lt.add(el("DerivedField", "name", "added by the check", "dataType", "double", "optype", "continuous").add(expr))
	}

	ref := func() *El { return el("FieldRef", "field", g.fields[g.Intn(len(g.fields))].name) }
	konst := func(typ, v string) *El {
		k := el("Constant", "dataType", typ)
		k.Text = v

		return k
	}

	switch g.Intn(30) {
	case 23:
		if sg := pick(all("Segment")); sg != nil {
			for _, k := range sg.Kids {
				if isPred(k) {
					extra := el(g.Str("True", "False"))
					if g.P(0.5) {
						extra = k.clone()
					}

					sg.add(extra)

					return "a segment with two predicates"
				}
			}
		}
	case 24:
		if n := pick(all("Node")); n != nil {
			for _, k := range n.Kids {
				if isPred(k) && n.Kid("Node") == nil && len(all("Node")) > 1 {
					n.Kids = without(n.Kids, k.Name)
					return "a leaf without a predicate"
				}
			}
		}
	case 25:
		types := newRef(doc).types

		var ps []*El

		for _, p := range all("CategoricalPredictor") {
			if t := types[p.A("name")]; (t == "double" || t == "float" || t == "integer" || t == "boolean") && top.Name == "RegressionModel" {
				ps = append(ps, p)
			}
		}

		// the last of two categories takes what the first leaves
		if ts := top.All("RegressionTable"); len(ts) == 2 {
			var first []*El

			for _, p := range ps {
				for _, k := range ts[0].Kids {
					if k == p {
						first = append(first, p)
					}
				}
			}

			ps = first
		}

		if p := pick(ps); p != nil {
			// evaluation looks at it when the field is there
			p.set("value", g.Str("abc", "1,5", "", "--1", "1e", "yes?"))

			for _, f := range g.fields {
				if f.name == p.A("name") {
					g.looksAt = f.name
				}
			}

			if g.looksAt == "" {
				return ""
			}

			return "a category which is not of the field's type: " + p.A("name")
		}
	case 26, 27:
		// below something that looks at whether its operand is there
		bad := []*El{
			el("Apply", "function", "lowercase").add(konst("string", "A")),
			el("NormDiscrete", "field", g.fields[0].name, "value", "1"),
			el("Apply", "function", "+").add(konst("double", "1")),
			konst("double", "one"),
			konst("blob", "1"),
		}[g.Intn(5)]

		what := bad.Name

		for i := g.Range(1, 3); i > 0; i-- {
			switch g.Intn(6) {
			case 0:
				bad = el("Apply", "function", "isMissing").add(bad)
			case 1:
				bad = el("Apply", "function", "isNotMissing").add(bad)
			case 2:
				bad = el("Apply", "function", "if").add(bad, konst("double", "1"), konst("double", "2"))
			case 3:
				bad = el("Apply", "function", "if").add(konst("boolean", "true"), bad, konst("double", "2"))
			case 4:
				bad = el("Apply", "function", "if").add(konst("boolean", "false"), konst("double", "2"), bad)
			case 5:
				bad = el("Apply", "function", g.Str("+", "-", "*", "/", "sum")).add(konst("double", "2"), bad)
			}

			// what counts for missing operands does not for these
			if g.P(0.2) {
				bad.set("mapMissingTo", g.Str("true", "1", "0"))
			}

			if g.P(0.1) {
				bad.set("defaultValue", g.Str("true", "1", "0"))
			}
		}

		derived(bad)

		return "an expression that cannot be evaluated within others: " + what
	case 28:
		if top.Name == "RegressionModel" && top.A("functionName") == "classification" {
			if f := pick(all("OutputField")); f != nil {
				f.set("feature", g.Str("entityId", "reasonCode", "affinity", "transformedValue", "decision", "residual"))
				for _, t := range top.All("RegressionTable") {
					if t.A("targetCategory") == f.A("value") {
						return "an output of classification by " + f.A("feature")
					}
				}
			}
		}
	case 29:
		if top.Name == "RegressionModel" && top.A("functionName") == "regression" {
			o := top.Kid("Output")
			if o != nil && g.P(0.5) {
				o.Kids = nil
			} else if o != nil {
				o.add(el("OutputField", "name", "a second output", "feature", "predictedValue", "dataType", "double", "optype", "continuous"))
			}

			if o != nil {
				return fmt.Sprintf("regression with %d outputs", len(o.Kids))
			}
		}
	case 22:
		types := newRef(doc).types

		var ps []*El

		for _, p := range all("SimpleSetPredicate") {
			switch types[p.A("field")] {
			case "double", "float", "integer", "boolean":
				ps = append(ps, p)
			}
		}

		if p := pick(ps); p != nil {
			if a := p.Kid("Array"); a != nil {
				a.Text += g.Str(" abc", " \"\"", " 1,5", " --1")
				a.del("n")

				return "a set member which is not of the field's type"
			}
		}
	case 0:
		top.Name = g.Str("NeuralNetwork", "Scorecard", "GeneralRegressionModel", "SupportVectorMachineModel", "RuleSetModel", "ClusteringModel",
			"NaiveBayesModel", "NearestNeighborModel", "AssociationModel", "BaselineModel", "TimeSeriesModel", "TextModel", "SequenceModel",
			"BayesianNetworkModel", "GaussianProcessModel")
		// attributes of the one kind may be nonsense in the other
		top.Attrs = [][2]string{{"functionName", "regression"}}
		top.Kids = nil

		return "a model of another kind: " + top.Name
	case 1:
		top.Name = g.Str("DeepModel", "Treemodel", "treeModel")
		return "an element which is no model: " + top.Name
	case 2:
		if s := pick(all("Segmentation")); s != nil {
			s.set("multipleModelMethod", g.Str("majorityVote", "weightedMajorityVote", "weightedAverage", "median", "max", "selectAll", "weightedSum", "x-stack"))
			return "segments combined by " + s.A("multipleModelMethod")
		}
	case 3:
		if m := pick(all("TreeModel")); m != nil {
			m.set("functionName", g.Str("clustering", "associationRules", "mixed", "timeSeries", ""))
			return "a tree for " + m.A("functionName")
		}
	case 4:
		if top.Name == "RegressionModel" {
			top.set("normalizationMethod", g.Str("probit", "loglog", "identity?", "SOFTMAX"))
			return "normalization by " + top.A("normalizationMethod")
		}
	case 5:
		if top.Name == "RegressionModel" {
			top.set("functionName", g.Str("clustering", "mixed", ""))
			return "a regression model for " + top.A("functionName")
		}
	case 6:
		fn := g.Str("pow", "max", "min", "lowercase", "round", "myFunction", "and", "equal", "log10", "exp", "Sum", "++", "")
		a := el("Apply", "function", fn).add(konst("double", "1"), konst("double", "2"))

		if g.P(0.4) {
			// also of what is missing
			for i := range a.Kids {
				if g.P(0.6) {
					a.Kids[i] = el("FieldRef", "field", "never there")
				}
			}
		}

		if g.P(0.1) {
			a.set("defaultValue", "1")
		}

		derived(a)

		return "an unsupported function " + fn
	case 7:
		fn := g.Str("+", "-", "*", "/")
		a := el("Apply", "function", fn)

		for i := []int{0, 1, 3, 4}[g.Intn(4)]; i > 0; i-- {
			if g.P(0.2) {
				a.add(el("FieldRef", "field", "never there"))
				continue
			}

			a.add(konst("double", "1"))
		}

		derived(a)

		return fmt.Sprintf("%s with %d arguments", fn, len(a.Kids))
	case 8:
		fn := g.Str("isMissing", "isNotMissing", "if")
		a := el("Apply", "function", fn)

		n := []int{0, 2, 4, 5}[g.Intn(4)]
		for i := 0; i < n; i++ {
			a.add(ref())
		}

		derived(a)

		return fmt.Sprintf("%s with %d arguments", fn, n)
	case 9:
		f := g.fields[g.Intn(len(g.fields))].name
		x := []*El{
			el("NormContinuous", "field", f).add(el("LinearNorm", "orig", "0", "norm", "0"), el("LinearNorm", "orig", "1", "norm", "2")),
			el("NormDiscrete", "field", f, "value", "1"),
			el("Discretize", "field", f).add(el("DiscretizeBin", "binValue", "1")),
			el("Aggregate", "field", f, "function", "sum"),
			el("Lag", "field", f),
			el("TextIndex", "textField", f),
		}[g.Intn(6)]

		if g.P(0.4) {
			derived(el("Apply", "function", g.Str("+", "sum")).add(x, konst("double", "1")))
		} else {
			derived(x)
		}

		return "a derived field by " + x.Name
	case 10:
		typ, v := "double", g.Str("abc", "1,5", "", "1 2", "one")
		derived(konst(typ, v))

		return fmt.Sprintf("a constant %q of type %s", v, typ)
	case 11:
		if n := pick(all("Node")); n != nil {
			var keep []*El

			for _, k := range n.Kids {
				pred := false
				for _, p := range predicateNames {
					pred = pred || k.Name == p
				}

				if !pred {
					keep = append(keep, k)
				}
			}

			n.Kids = keep

			return "a node without a predicate"
		}
	case 12:
		if p := pick(all("SimplePredicate", "SimpleSetPredicate")); p != nil {
			p.set("field", "no such field")
			return "a predicate on an undeclared field"
		}
	case 13:
		types := newRef(doc).types

		var ps []*El

		for _, p := range all("SimplePredicate") {
			t := types[p.A("field")]
			op := p.A("operator")

			if (t == "double" || t == "float" || t == "integer" || t == "boolean") && op != "isMissing" && op != "isNotMissing" {
				ps = append(ps, p)
			}
		}

		if p := pick(ps); p != nil {
			wrong := []string{"abc", "1,5", "", "0x", "1 2", "--1", "1e", "1..5", "\u0661"}

			switch types[p.A("field")] {
			case "integer":
				wrong = append(wrong, "2.5", "-0.5", "1e-3", "9223372036854775808", "-99999999999999999999", "true")
			case "boolean":
				wrong = append(wrong, "yes", "2", "truee", "-1", "0.0")
			default:
				wrong = append(wrong, "true", "1e5x", "5 %")
			}

			p.set("value", g.Str(wrong...))
			return "a literal which is not of the field's type"
		}
	case 14:
		if s := pick(all("Segment")); s != nil {
			var m *El

			for _, k := range s.Kids {
				for _, n := range modelNames {
					if k.Name == n {
						m = k
					}
				}
			}

			if m == nil {
				return ""
			}

			if g.P(0.5) {
				s.add(m.clone())
				return "a segment with two models"
			}

			s.Kids = without(s.Kids, m.Name)

			return "a segment without a model"
		}
	case 15:
		switch p := pick(all("SimplePredicate", "SimpleSetPredicate", "CompoundPredicate")); {
		case p == nil:
		case p.Name == "SimplePredicate":
			p.set("operator", g.Str("equals", "==", "lessthan", "isIn", "")).set("value", "1")
			return "an operator of simple predicates that does not exist"
		case p.Name == "SimpleSetPredicate":
			p.set("booleanOperator", g.Str("isin", "in", "notIn", "equal", ""))
			return "an operator of set predicates that does not exist"
		default:
			p.set("booleanOperator", g.Str("And", "nor", "nand", "not", ""))
			return "an operator of compound predicates that does not exist"
		}
	case 16:
		if m := pick(all("TreeModel")); m != nil {
			if g.P(0.6) {
				m.set("missingValueStrategy", g.Str("lastPredicition", "None", "surrogate", "skip"))
				return "a missing value strategy that does not exist"
			}

			m.set("noTrueChildStrategy", g.Str("returnDefault", "lastPrediction", "ReturnLastPrediction"))

			return "a strategy for no true child that does not exist"
		}
	case 17:
		types := newRef(doc).types

		var ps []*El

		for _, p := range all("SimplePredicate") {
			if t := types[p.A("field")]; (t == "string" || t == "boolean") && (p.A("operator") == "equal" || p.A("operator") == "notEqual") {
				ps = append(ps, p)
			}
		}

		if p := pick(ps); p != nil {
			p.set("operator", g.Str("lessThan", "lessOrEqual", "greaterThan", "greaterOrEqual"))
			return "an order among values that have none"
		}
	case 18:
		if top.Name == "RegressionModel" && top.A("functionName") == "regression" {
			if g.P(0.5) {
				top.add(el("RegressionTable", "intercept", "1"))
				return "a second table for regression"
			}

			top.Kids = without(top.Kids, "RegressionTable")

			return "no table for regression"
		}
	case 19:
		if top.Name == "RegressionModel" && top.A("functionName") == "classification" {
			for len(top.All("RegressionTable")) < 3 {
				top.add(el("RegressionTable", "intercept", "1", "targetCategory", fmt.Sprintf("a further one, %d", len(top.Kids))))
			}

			top.set("normalizationMethod", g.Str("logit", "exp", "cloglog", "cauchit", "none", "probit"))

			return "three categories by " + top.A("normalizationMethod")
		}
	case 20:
		typ := g.Str("date", "time", "dateTime", "dateDaysSince[1970]", "timeSeconds", "blob")
		derived(konst(typ, "1"))

		return "a constant of type " + typ
	case 21:
		if top.Name == "MiningModel" {
			o := top.Kid("Output")
			if o == nil {
				o = el("Output")
				top.add(o)
			}

			o.add(el("OutputField", "name", "added by the check", "feature", g.Str("entityId", "reasonCode", "clusterAffinity", "ruleValue", "warning")))

			return "an output by " + o.Kids[len(o.Kids)-1].A("feature")
		}
	}

	return ""
}

// C21: what cannot be evaluated is refused.
func runRefuse(c *Ctx) {
	if c.P(0.01) {
		// a model that was never built
		row := toRow(c.Rng, newGen(c.Rng).row())

		for _, m := range []evaluation.Model{new(evaluation.TreeModel), new(evaluation.MiningModel)} {
			out, err := evaluate(m, row)
			c.eval()

			if err == nil || isPanic(err) {
				c.fail("an unbuilt %T evaluated a row: %s, %v", m, showRow(out), err)
			}

			c.event("unbuilt_refused")
		}
	}

	if c.P(0.1) {
		c.refuseToCombine()
		return
	}

	g := newGen(c.Rng)
	g.need("double")
	g.miss = c.F(0, 0.2)

	doc := g.anyDoc()
	whole := doc.clone()

	what := g.breakDoc(doc)
	if what == "" {
		c.event("nothing_broken")
		return
	}

	kind := what
	if i := strings.IndexAny(kind, ":\""); i > 0 {
		kind = kind[:i]
	}

	_, m, err := load(doc.String())

	c.eval()

	if isPanic(err) {
		c.note("document:\n%s", doc)
		c.fail("%s: %v", what, err)

		return
	}

	if err != nil {
		c.event("refused_to_build")
		c.nontrivial(doc.String())
		c.sample("%s\nwith %s: %v", doc, what, err)
		c.event("because_of_" + strings.ReplaceAll(strings.Join(strings.Fields(kind)[:2], "_"), " ", "_"))

		return
	}

	_, sound, err := load(whole.String())
	if err != nil {
		c.note("document:\n%s", whole)
		c.fail("a valid document was refused: %v", err)

		return
	}

	for i := 0; i < 4; i++ {
		row := g.modestRow()

		if _, err := evaluate(sound, toRow(nil, row)); err != nil {
			continue
		}

		if g.looksAt != "" && row[g.looksAt].K == 0 {
			continue
		}

		out, err := evaluate(m, toRow(nil, row))
		c.eval()

		if err == nil || isPanic(err) {
			c.note("document:\n%s", doc)
			c.note("row: %s", showRef(row))
			c.fail("%s, but it predicts %s (%v)", what, showRow(out), err)

			return
		}

		c.event("refused_to_evaluate")
	}

	c.nontrivial(doc.String())
	c.event("because_of_" + strings.ReplaceAll(strings.Join(strings.Fields(kind)[:2], "_"), " ", "_"))
}

// hostile values for a row.
func (g *Gen) hostile() interface{} {
	xs := []interface{}{
		nil, math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, math.Copysign(0, -1),
		float32(math.NaN()), float32(math.Inf(1)), int64(math.MaxInt64), int64(math.MinInt64), uint64(math.MaxUint64), int8(-128),
		"", " ", "NaN", "Inf", "-inf", "1e999", "0x10", "1_000", "\x00", "\xff\xfe", strings.Repeat("9", 500), strings.Repeat("é", 3000), "true", "TRUE", "t",
		true, false, complex(1, 2), []byte("1"), []int{1, 2}, map[string]int{"a": 1}, struct{ A int }{3}, [2]string{"a", "b"},
		time.Unix(0, 0).UTC(), named("red"), fmt.Errorf("an error"), func() {}, make(chan int), &struct{}{}, (*int)(nil), evaluation.NewValue(1.5),
		evaluation.NewValue(nil), rune('x'), uintptr(3), odd{},
		(*time.Time)(nil), (*named)(nil), (*big.Int)(nil), (*big.Rat)(nil), big.NewInt(7), (fmt.Stringer)(nil), error(nil), json.Number("12"), &[]string{"a"},
	}

	return xs[g.Intn(len(xs))]
}

type odd struct{ m map[string]interface{} }

// mutate changes the structure of a document at random.
func (g *Gen) mutate(doc *El) {
	var es []*El

	parents := map[*El]*El{}

	doc.walk(func(e *El) {
		es = append(es, e)
		for _, k := range e.Kids {
			parents[k] = e
		}
	})

	e := es[g.Intn(len(es))]
	other := es[g.Intn(len(es))]
	p := parents[e]

	drop := func() {
		var keep []*El
		for _, k := range p.Kids {
			if k != e {
				keep = append(keep, k)
			}
		}

		p.Kids = keep
	}

	switch g.Intn(10) {
	case 9:
		// a value that lacks some characters, or has some too many
		if len(e.Attrs) > 0 {
			a := e.Attrs[g.Intn(len(e.Attrs))]
			rs := []rune(a[1])
			i, j := g.Intn(len(rs)+1), g.Intn(len(rs)+1)

			if i > j {
				i, j = j, i
			}

			switch g.Intn(4) {
			case 0:
				e.set(a[0], string(rs[:j]))
			case 1:
				e.set(a[0], string(rs[i:]))
			case 2:
				e.set(a[0], string(rs[:i])+string(rs[j:]))
			case 3:
				e.set(a[0], string(rs[:j])+g.Str(":", " ", "\"", "x", "0", "é")+string(rs[i:]))
			}
		}
	case 0:
		if p != nil {
			drop()
		}
	case 1:
		if p != nil {
			p.add(e.clone())
		}
	case 2:
		if p != nil && other != e {
			c := e.clone()
			other.add(c)

			if g.P(0.5) {
				drop()
			}
		}
	case 3:
		e.Name = fidNames[g.Intn(len(fidNames))]
	case 4, 5:
		if len(e.Attrs) > 0 {
			e.del(e.Attrs[g.Intn(len(e.Attrs))][0])
		}
	case 6, 7:
		if len(e.Attrs) > 0 && len(other.Attrs) > 0 {
			k := e.Attrs[g.Intn(len(e.Attrs))][0]
			v := other.Attrs[g.Intn(len(other.Attrs))][1]

			e.set(k, g.Str(v, v, "", "0", "-1", "1e308", "NaN", "Inf", "isMissing", "isIn", "xor", "surrogate", "weightedConfidence", "aggregateNodes", "defaultChild", "integer", "string", "date"))
		}
	case 8:
		e.Text = g.Str("", "1 2 3", `"`, "abc", "1e400")
		e.Kids = nil
	}
}

// C24: whatever the document and whatever the row, a call returns.
func runHostile(c *Ctx) {
	g, doc, _ := c.anyModel()

	n := 0
	if c.P(0.8) {
		n = c.Range(1, 8)
	}

	for i := 0; i < n; i++ {
		g.mutate(doc)
	}

	c.event(fmt.Sprintf("mutations_%d", n))

	text := doc.String()

	if c.P(0.2) {
		b := []byte(text)
		for i := c.Range(1, 6); i > 0 && len(b) > 0; i-- {
			k := c.Intn(len(b))

			switch c.Intn(4) {
			case 0:
				b[k] = byte(c.Intn(256))
			case 1:
				b = append(b[:k], b[k+1:]...)
			case 2:
				b[k] = "<>&\"'/= 0\n"[c.Intn(10)]
			case 3:
				b = append(b[:k:k], append([]byte(c.Str("<!--", "]]>", "&x;", "</Node>", "<Node>", "\x00", "é", "<?", "<![CDATA[")), b[k:]...)...)
			}
		}

		text = string(b)

		c.event("bytes_changed")
	}

	doc2, m, err := load(text)

	c.eval()
	c.nontrivial(text)

	report := func(what string, err error) {
		c.note("document:\n%s", text)
		c.fail("%s: %v", what, err)
	}

	if isPanic(err) {
		report("loading", err)
		return
	}

	// all the models of the document, not the first one only
	if doc2 != nil && len(doc2.Models) > 1 {
		for _, mdl := range doc2.Models[1:] {
			err := call(func() error {
				_, err := evaluation.NewModel(&doc2.DataDictionary, &doc2.TransformationDictionary, mdl)
				return err
			})

			if isPanic(err) {
				report("building", err)
				return
			}
		}
	}

	if err != nil {
		c.event("refused")
		return
	}

	c.event("built")

	if err := verify(m); isPanic(err) {
		report("verifying", err)
		return
	}

	for i := 0; i < 6; i++ {
		in := toRow(c.Rng, g.modestRow())

		for _, f := range g.fields {
			if g.P(0.4) {
				in[f.name] = evaluation.NewValue(g.hostile())
			}
		}

		if i == 0 && g.P(0.2) {
			in = nil
		}

		_, err := evaluate(m, in)
		c.eval()

		if isPanic(err) {
			c.note("row: %s", showRow(in))
			report("evaluating", err)

			return
		}

		if err != nil {
			c.event("evaluation_error")
		} else {
			c.event("evaluated")
		}
	}

	for _, f := range []func() error{m.Compile, m.Validate, m.Verify} {
		if err := call(f); isPanic(err) {
			report("calling again", err)
			return
		}
	}
}

// ---- the documents which come with the package

type shipped struct {
	name, text string
	doc        *El
	fields     []string
	types      map[string]string
	numbers    map[string][]float64
	strings    map[string][]string
	m          evaluation.Model
}

var corpus []*shipped

func corpusSetup() error {
	dir := os.Getenv("VERIF_REPO")
	if dir == "" {
		dir = "/repo"
	}

	names, err := filepath.Glob(filepath.Join(dir, "evaluation", "testdata", "*", "*.xml"))
	if err != nil || len(names) == 0 {
		return fmt.Errorf("no documents in %s: %v", dir, err)
	}

	sort.Strings(names)

	for _, n := range names {
		data, err := ioutil.ReadFile(n)
		if err != nil {
			return err
		}

		doc, err := parseDOM(strings.NewReader(string(data)))
		if err != nil {
			return fmt.Errorf("%s: %v", n, err)
		}

		s := &shipped{name: filepath.Base(n), text: string(data), doc: doc, types: map[string]string{}, numbers: map[string][]float64{}, strings: map[string][]string{}}

		target := map[string]bool{}
		doc.walk(func(e *El) {
			if e.Name == "MiningField" && (e.A("usageType") == "target" || e.A("usageType") == "predicted") {
				target[e.A("name")] = true
			}
		})

		for _, f := range doc.Kid("DataDictionary").All("DataField") {
			if target[f.A("name")] {
				continue
			}

			s.fields = append(s.fields, f.A("name"))
			s.types[f.A("name")] = f.A("dataType")

			for _, v := range f.All("Value") {
				s.strings[f.A("name")] = append(s.strings[f.A("name")], v.A("value"))
			}
		}

		doc.walk(func(e *El) {
			if e.Name == "SimplePredicate" {
				if x, err := strconv.ParseFloat(e.A("value"), 64); err == nil {
					s.numbers[e.A("field")] = append(s.numbers[e.A("field")], x)
				}

				s.strings[e.A("field")] = append(s.strings[e.A("field")], e.A("value"))
			}

			if e.Name == "MapValues" {
				for _, p := range e.All("FieldColumnPair") {
					for _, t := range e.All("InlineTable") {
						for _, r := range t.All("row") {
							if x := cell(r, p.A("column")); x != nil {
								s.strings[p.A("field")] = append(s.strings[p.A("field")], x.Text)
							}
						}
					}
				}
			}

			if e.Name == "SimpleSetPredicate" {
				s.strings[e.A("field")] = append(s.strings[e.A("field")], refSplit(e.Kid("Array").Text)...)
			}

		})

		if _, s.m, err = load(s.text); err != nil {
			s.m = nil
		}

		corpus = append(corpus, s)
	}

	return nil
}

// next is the neighbouring value of the type.
func next(x, to float64, typ string) float64 {
	if typ == "float" {
		return float64(math.Nextafter32(float32(x), float32(to)))
	}

	return math.Nextafter(x, to)
}

func (s *shipped) row(r *Rng) Row {
	miss := r.F(0, 0, 0.02, 0.1, 0.4)
	row := Row{}

	for _, f := range s.fields {
		if r.P(miss) {
			row[f] = Val{}
			continue
		}

		switch s.types[f] {
		case "string":
			if vs0 := s.strings[f]; len(vs0) > 0 && r.P(0.9) {
				row[f] = vs(vs0[r.Intn(len(vs0))])
			} else {
				row[f] = vs(r.Str("unseen", "", "0"))
			}
		case "boolean":
			row[f] = vb(r.P(0.5))
		default:
			x := (r.Float() - 0.5) * r.F(0.1, 2, 10, 1000)

			if ns := s.numbers[f]; len(ns) > 0 && r.P(0.85) {
				x = ns[r.Intn(len(ns))]

				switch r.Intn(5) {
				case 0:
				case 1:
					x = next(x, math.Inf(1), s.types[f])
				case 2:
					x = next(x, math.Inf(-1), s.types[f])
				case 3:
					x += r.F(-1, 1, 0.5, -0.5)
				case 4:
					y := ns[r.Intn(len(ns))]
					x = (x + y) / 2
				}
			}

			if s.types[f] == "float" {
				x = float64(float32(x))
			}

			if s.types[f] == "integer" {
				row[f] = vi(int64(math.Round(x)))
			} else {
				row[f] = vf(x)
			}
		}
	}

	return row
}

// C22: the shipped documents, over rows around all of their thresholds.
func runCorpus(c *Ctx) {
	s := corpus[c.i%len(corpus)]

	if s.m == nil {
		c.fail("the shipped document %s was refused", s.name)
		return
	}

	for i := 0; i < 3 && !c.cut; i++ {
		row := s.row(c.Rng)
		ref := newRef(s.doc)
		want, werr := ref.Eval(row)

		if _, ok := werr.(outOfDomain); ok {
			c.event("out_of_domain_" + s.name)
			continue
		}

		in := toRow(c.Rng, row)
		shown := showRow(in)
		got, err := evaluate(s.m, in)

		c.eval()
		c.merge(ref.ev)
		c.event("decided_" + s.name)

		msg := ""

		switch {
		case isPanic(err):
			msg = err.Error()
		case (werr != nil) != (err != nil):
			msg = fmt.Sprintf("expected %s (%v), got %s (%v)", showRef(want), werr, showRow(got), err)
		case err == nil:
			msg = diff(want, got)
		}

		if msg != "" {
			c.note("document: %s", s.name)
			c.note("row: %s", shown)
			c.fail("%s: %s", s.name, msg)

			return
		}

		c.nontrivial(s.name, shown)
		c.sample("%s\nrow %s\n-> %s", s.name, shown, showRow(got))
	}
}

// refuseToCombine: the strategies which combine children do so with the
// classes' shares, not with numbers.
func (c *Ctx) refuseToCombine() {
	g := newGen(c.Rng)
	g.miss = c.F(0.3, 0.6)
	g.missOps = false

	o := &treeOpts{reg: true, noTrue: c.Str("", "returnLastPrediction"), counts: true, exhaust: 0.9, depth: c.Range(1, 3), strategy: c.Str("weightedConfidence", "aggregateNodes")}
	mdl := g.tree(o)

	if c.P(0.4) {
		// labels, which may look like numbers
		if c.P(0.7) {
			g.classes = []string{"1", "0", "2.5", "-1"}[:c.Range(2, 4)]
		}

		g.need("double")
		g.miss = 0

		mdl = g.ensemble(true, c.Str("sum", "average", ""), c.P(0.3), 0)
		sg := mdl.Kid("Segmentation")
		sg.Kids[c.Intn(len(sg.Kids))] = g.segment(el("True"), g.segTree(false, ""))
	}

	doc := g.doc(true, mdl)

	m, ok := c.open(doc)
	if !ok {
		return
	}

	for i := 0; i < 4 && !c.cut; i++ {
		row := g.row()

		if decided, held := c.judge(doc, m, row); decided && held {
			c.nontrivial(doc.String(), showRef(row))
		}
	}
}
