package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/flukeish/pmml/evaluation"
)

// ---- C31: what says the same predicts the same.

func isPred(e *El) bool {
	switch e.Name {
	case "SimplePredicate", "SimpleSetPredicate", "CompoundPredicate", "True", "False":
		return true
	}

	return false
}

func compound(op string, kids ...*El) *El {
	return el("CompoundPredicate", "booleanOperator", op).add(kids...)
}

// not is the negation, as PMML has no other way to write it.
func not(p *El) *El { return compound("xor", p, el("True")) }

// inOtherWords is another predicate with the same outcome for every row,
// unknown ones included.
//
// What is no number (0/0) is neither less than a number nor not: where there
// may be such, orders are not turned around.
func (c *Ctx) inOtherWords(p *El, typ string, numbers bool) *El {
	op, value := p.A("operator"), p.A("value")
	simple := func(op string) *El {
		return el("SimplePredicate", "field", p.A("field"), "operator", op, "value", value)
	}

	if p.Name == "SimplePredicate" && c.P(0.7) {
		c.event("said_otherwise_" + op)

		switch op {
		case "lessOrEqual":
			if !numbers || c.P(0.5) {
				return compound("or", simple("equal"), simple("lessThan"))
			}

			return not(simple("greaterThan"))
		case "greaterOrEqual":
			if !numbers || c.P(0.5) {
				return compound("or", simple("greaterThan"), simple("equal"))
			}

			return not(simple("lessThan"))
		case "lessThan":
			if !numbers || c.P(0.5) {
				return compound("and", simple("lessOrEqual"), simple("notEqual"))
			}

			return not(simple("greaterOrEqual"))
		case "greaterThan":
			if !numbers || c.P(0.5) {
				return compound("and", simple("notEqual"), simple("greaterOrEqual"))
			}

			return not(simple("lessOrEqual"))
		case "isMissing", "isNotMissing":
			other := map[string]string{"isMissing": "isNotMissing", "isNotMissing": "isMissing"}[op]
			return not(el("SimplePredicate", "field", p.A("field"), "operator", other))
		case "equal", "notEqual":
			other := map[string]string{"equal": "notEqual", "notEqual": "equal"}[op]
			if c.P(0.5) || typ == "" || typ == "boolean" {
				return not(simple(other))
			}

			set := el("SimpleSetPredicate", "field", p.A("field"), "booleanOperator", map[string]string{"equal": "isIn", "notEqual": "isNotIn"}[op])

			return set.add(setArray(typ, value))
		}
	}

	if p.Name == "SimpleSetPredicate" && p.Kid("Array") != nil && c.P(0.8) {
		members := refSplit(p.Kid("Array").Text)
		if len(members) > 0 && len(members) < 40 {
			out, op := compound("or"), "equal"
			if p.A("booleanOperator") == "isNotIn" {
				out, op = compound("and"), "notEqual"
			}

			for _, m := range members {
				out.add(el("SimplePredicate", "field", p.A("field"), "operator", op, "value", m))
			}

			c.event("said_otherwise_" + p.A("booleanOperator"))

			if len(out.Kids) == 1 {
				return out.Kids[0]
			}

			return out
		}
	}

	if p.Name == "CompoundPredicate" && len(p.Kids) > 1 && c.P(0.8) {
		switch op := p.A("booleanOperator"); op {
		case "and", "or":
			c.event("said_otherwise_" + op)

			if c.P(0.5) {
				// the others' negations joined by the other operator
				out := compound(map[string]string{"and": "or", "or": "and"}[op])
				for _, k := range p.Kids {
					out.add(not(k))
				}

				return not(out)
			}

			fallthrough
		case "xor":
			// operands in groups
			if len(p.Kids) > 2 {
				c.event("grouped_" + op)
				at := c.Range(1, len(p.Kids)-1)

				var a, b []*El
				a, b = append(a, p.Kids[:at]...), append(b, p.Kids[at:]...)

				group := func(ks []*El) *El {
					if len(ks) == 1 {
						return ks[0]
					}

					return compound(op, ks...)
				}

				return compound(op, group(a), group(b))
			}
		case "surrogate":
			// the second of two only counts when the first is unknown
			c.event("said_otherwise_surrogate")

			return compound("surrogate", p.Kids[0], compound("surrogate", append([]*El{p.Kids[0].clone()}, p.Kids[1:]...)...))
		}
	}

	c.event("wrapped_predicate")

	switch c.Intn(7) {
	case 0:
		return compound("and", p, el("True"))
	case 1:
		return compound("or", el("False"), p)
	case 2:
		return compound("xor", p, el("False"))
	case 3:
		return compound("and", p, p.clone())
	case 4:
		return compound("or", p, p.clone(), p.clone())
	case 5:
		return not(not(p))
	}

	return compound("surrogate", p, p.clone())
}

func setArray(typ string, member string) *El {
	t := map[string]string{"double": "real", "float": "real", "integer": "int"}[typ]
	if t == "" {
		t = "string"
		member = `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(member) + `"`
	}

	return &El{Name: "Array", Attrs: [][2]string{{"type", t}}, Text: member}
}

// respell writes a number in another way.
func (c *Ctx) respell(s string) string {
	v, err := strconv.ParseFloat(s, 64)
	if err != nil || math.IsInf(v, 0) || math.IsNaN(v) {
		return s
	}

	sign, abs := "", math.Abs(v)
	if math.Signbit(v) {
		sign = "-"
	} else if c.P(0.2) {
		sign = "+"
	}

	switch c.Intn(6) {
	case 0:
		return sign + strconv.FormatFloat(abs, 'e', -1, 64)
	case 1:
		return sign + strconv.FormatFloat(abs, 'E', -1, 64)
	case 2:
		return sign + "00" + strconv.FormatFloat(abs, 'f', -1, 64)
	case 3:
		d := strconv.FormatFloat(abs, 'f', -1, 64)
		if !strings.Contains(d, ".") {
			d += "."
		}

		return sign + d + "000"
	case 4:
		d := strconv.FormatFloat(abs, 'f', -1, 64)
		if strings.HasPrefix(d, "0.") {
			d = d[1:]
		}

		return sign + d
	}

	return sign + strconv.FormatFloat(abs, 'f', -1, 64)
}

// numberAttrs are attributes that hold real numbers.
var numberAttrs = map[string][]string{
	"RegressionTable": {"intercept"}, "NumericPredictor": {"coefficient"}, "CategoricalPredictor": {"coefficient"}, "PredictorTerm": {"coefficient"},
	"Target": {"rescaleFactor", "rescaleConstant"}, "Node": {"recordCount"}, "ScoreDistribution": {"recordCount"}, "TreeModel": {"missingValuePenalty"},
}

func (c *Ctx) respellAll(doc *El, types map[string]string) {
	doc.walk(func(e *El) {
		for _, n := range numberAttrs[e.Name] {
			if v, ok := e.Has(n); ok && c.P(0.5) {
				e.set(n, c.respell(v))
				c.event("respelled_number")
			}
		}

		if t := types[e.A("field")]; e.Name == "SimplePredicate" && (t == "double" || t == "float") && e.A("value") != "" && c.P(0.5) {
			e.set("value", c.respell(e.A("value")))
			c.event("respelled_literal")
		}

		if t := types[e.A("name")]; e.Name == "CategoricalPredictor" && (t == "double" || t == "float") && c.P(0.5) {
			e.set("value", c.respell(e.A("value")))
			c.event("respelled_literal")
		}

		if e.Name == "Constant" && e.A("dataType") == "double" && c.P(0.5) {
			e.Text = c.respell(strings.TrimSpace(e.Text))
			c.event("respelled_constant")
		}
	})
}

// predicates says predicates in other words.
func (c *Ctx) predicates(e *El, types map[string]string, p float64, numbers bool) {
	for i, k := range e.Kids {
		c.predicates(k, types, p, numbers)

		if isPred(k) && c.P(p) {
			e.Kids[i] = c.inOtherWords(k, types[k.A("field")], numbers)
		}
	}
}

// nodes changes the shape of trees but not what they predict.
func (c *Ctx) nodes(tree *El, fields []Field) {
	strategy := tree.A("missingValueStrategy")
	counting := strategy == "weightedConfidence" || strategy == "aggregateNodes"
	wanted := map[string]bool{}

	tree.walk(func(e *El) {
		if e.Name == "Node" && e.A("defaultChild") != "" {
			wanted[e.A("defaultChild")] = true
		}
	})

	var all []*El

	tree.walk(func(e *El) {
		if e.Name == "Node" {
			all = append(all, e)
		}
	})

	for _, n := range all {
		children := n.All("Node")

		if c.P(0.15) {
			// one step more on the way
			inner := &El{Name: "Node", Attrs: append([][2]string{}, n.Attrs...)}
			inner.del("id")
			inner.add(el("True"))

			var outer []*El

			for _, k := range n.Kids {
				switch {
				case isPred(k):
					outer = append(outer, k)
				case k.Name == "ScoreDistribution":
					outer = append(outer, k)
					inner.add(k.clone())
				default:
					inner.add(k)
				}
			}

			n.del("defaultChild")
			n.Kids = append(outer, inner)

			c.event("node_between")

			continue
		}

		if len(children) == 0 {
			continue
		}

		if c.P(0.15) {
			// a child that no row reaches
			dead := children[c.Intn(len(children))].clone()
			dead.walk(func(e *El) { e.del("id"); e.del("defaultChild") })

			for i, k := range dead.Kids {
				if isPred(k) {
					dead.Kids[i] = el("False")
				}
			}

			at := c.Intn(len(n.Kids))
			for at < len(n.Kids) && n.Kids[at].Name != "Node" {
				at++
			}

			n.Kids = append(n.Kids[:at:at], append([]*El{dead}, n.Kids[at:]...)...)

			c.event("unreachable_node")
		}

		if c.P(0.15) && !counting {
			// the same child once more, after itself
			var out []*El

			pick := c.Intn(len(children))

			for _, k := range n.Kids {
				out = append(out, k)

				if k == children[pick] {
					again := k.clone()
					again.walk(func(e *El) { e.del("id"); e.del("defaultChild") })

					if strategy == "defaultChild" {
						// it is reached only when the first one does not apply
						continue
					}

					out = append(out, again)
					c.event("node_again")
				}
			}

			n.Kids = out
		}

		if c.P(0.15) && len(fields) > 0 && strategy != "defaultChild" {
			// one child for the rows that have some field and one for the others
			var out []*El

			pick := c.Intn(len(children))
			f := fields[c.Intn(len(fields))]

			for _, k := range n.Kids {
				if k != children[pick] {
					out = append(out, k)
					continue
				}

				for _, op := range []string{"isMissing", "isNotMissing"} {
					half := k.clone()
					if op == "isNotMissing" {
						half.walk(func(e *El) { e.del("id") })
					}

					for i, p := range half.Kids {
						if isPred(p) {
							half.Kids[i] = compound("and", p, el("SimplePredicate", "field", f.name, "operator", op))
						}
					}

					out = append(out, half)
				}

				c.event("node_in_two")
			}

			n.Kids = out
		}
	}

	if c.P(0.3) {
		by := c.F(2, 4, 10, 0.5)

		tree.walk(func(e *El) {
			if v, ok := e.Has("recordCount"); ok && (e.Name == "Node" || e.Name == "ScoreDistribution") {
				e.set("recordCount", strconv.FormatFloat(atof(v)*by, 'g', -1, 64))
			}
		})

		c.event("other_unit_of_counts")
	}
}

// tables writes the terms of regressions in other ways.
func (c *Ctx) tables(m *El, numbers bool) {
	ts := m.All("RegressionTable")

	for _, t := range ts {
		var out []*El

		for _, k := range t.Kids {
			coef := k.A("coefficient")
			half := strconv.FormatFloat(atof(coef)/2, 'g', -1, 64)

			switch {
			case (k.Name == "NumericPredictor" || k.Name == "CategoricalPredictor" || k.Name == "PredictorTerm") && c.P(0.15):
				a, b := k.clone().set("coefficient", half), k.clone().set("coefficient", half)
				out = append(out, a, b)
				c.event("coefficient_in_halves")
			case k.Name == "NumericPredictor" && numbers && c.P(0.3) && (k.A("exponent") == "" || k.A("exponent") == "1" || k.A("exponent") == "2" || k.A("exponent") == "3"):
				term := el("PredictorTerm", "coefficient", coef)

				n := 1
				if e := k.A("exponent"); e != "" {
					n, _ = strconv.Atoi(e)
				}

				for ; n > 0; n-- {
					term.add(el("FieldRef", "field", k.A("name")))
				}

				out = append(out, term)
				c.event("power_as_product")
			case k.Name == "PredictorTerm" && numbers && len(k.All("FieldRef")) == 1 && c.P(0.5):
				out = append(out, el("NumericPredictor", "name", k.Kid("FieldRef").A("field"), "coefficient", coef))
				c.event("product_as_power")
			default:
				out = append(out, k)
			}
		}

		t.Kids = out
	}

	if m.A("functionName") == "classification" && m.A("normalizationMethod") == "logit" && len(ts) == 2 && numbers && c.P(0.5) {
		// the odds against nothing
		m.set("normalizationMethod", "softmax")
		ts[1].Kids = nil
		ts[1].set("intercept", "0")
		c.event("logit_as_softmax")
	}
}

// segments changes ensembles but not what they predict.
func (c *Ctx) segments(m *El) {
	sg := m.Kid("Segmentation")
	method := sg.A("multipleModelMethod")
	ss := sg.All("Segment")

	if len(ss) == 0 {
		return
	}

	if c.P(0.3) {
		// one which never applies
		dead := ss[c.Intn(len(ss))].clone()

		for i, k := range dead.Kids {
			if isPred(k) {
				dead.Kids[i] = el("False")
			}
		}

		at := c.Intn(len(sg.Kids) + 1)
		sg.Kids = append(sg.Kids[:at:at], append([]*El{dead}, sg.Kids[at:]...)...)

		c.event("unreachable_segment")
	}

	if method == "average" && c.P(0.3) && len(ss) < 20 {
		for _, s := range ss {
			sg.Kids = append(sg.Kids, s.clone())
		}

		c.event("average_over_each_twice")
	}

	if method == "selectFirst" && c.P(0.3) {
		sg.Kids = append(sg.Kids, ss[c.Intn(len(ss))].clone())

		c.event("segment_after_itself")
	}

	if t := m.Kid("Targets"); t != nil {
		for _, x := range t.All("Target") {
			if _, ok := x.Has("rescaleFactor"); !ok && c.P(0.4) {
				x.set("rescaleFactor", "1")
				c.event("rescaled_by_nothing")
			}

			if _, ok := x.Has("rescaleConstant"); !ok && c.P(0.4) {
				x.set("rescaleConstant", "0")
				c.event("rescaled_by_nothing")
			}
		}
	}
}

// arithmetic writes operands of arithmetic in other ways.
func (c *Ctx) arithmetic(e *El) {
	for i, k := range e.Kids {
		c.arithmetic(k)

		operand := e.Name == "Apply" && strings.Contains("*+-/", e.A("function"))
		if !operand || k.Name != "FieldRef" && k.Name != "Constant" && k.Name != "Apply" || !c.P(0.3) {
			continue
		}

		one := &El{Name: "Constant", Attrs: [][2]string{{"dataType", "double"}}, Text: "1"}
		nought := &El{Name: "Constant", Attrs: [][2]string{{"dataType", "double"}}, Text: "0"}

		c.event("neutral_operation")

		switch c.Intn(5) {
		case 0:
			e.Kids[i] = el("Apply", "function", "*").add(k, one)
		case 1:
			e.Kids[i] = el("Apply", "function", "*").add(one, k)
		case 2:
			e.Kids[i] = el("Apply", "function", "/").add(k, one)
		case 3:
			e.Kids[i] = el("Apply", "function", "-").add(k, nought)
		case 4:
			// a choice that is none
			e.Kids[i] = el("Apply", "function", "if").add(el("Apply", "function", "isNotMissing").add(one), k, el("FieldRef", "field", "no such field"))
		}
	}
}

// indirect puts derived fields between fields and what reads them: each is the
// field itself.
//
// Given a model instead of a document, they are that model's own.
func (c *Ctx) indirect(doc *El, fields []Field, p float64) { c.indirectly(doc, fields, p, false) }

// indirectly does the same. A model that replaces a missing value is another
// reader of it, unless the outcome may change.
func (c *Ctx) indirectly(doc *El, fields []Field, p float64, change bool) {
	var ms []*El

	alone := doc.Name != "PMML"

	doc.walk(func(e *El) {
		for _, n := range modelNames {
			if e.Name == n {
				ms = append(ms, e)
			}
		}
	})

	top := map[*El]bool{}
	for _, m := range append(doc.All(modelNames...), doc) {
		top[m] = true
	}

	for i, f := range fields {
		if !c.P(p) {
			continue
		}

		// where it is derived: the dictionary or a model
		at := c.Intn(len(ms) + 1)
		if at < len(ms) && c.P(0.4) {
			at = len(ms)
		}

		if alone {
			at = c.Intn(len(ms))
		}

		scope := doc
		if at < len(ms) {
			scope = ms[at]
		}

		// inner models that replace a missing value see another field
		replaced := false

		var look func(e, m *El)

		look = func(e, m *El) {
			for _, n := range modelNames {
				if e.Name == n {
					m = e
				}
			}

			if _, ok := e.Has("missingValueReplacement"); ok && e.Name == "MiningField" && e.A("name") == f.name && m != scope && !(scope == doc && top[m]) {
				replaced = true
			}

			for _, k := range e.Kids {
				look(k, m)
			}
		}

		look(scope, nil)

		if replaced && !change {
			continue
		}

		name := fmt.Sprintf("by way of %d", i)
		if c.P(0.3) {
			name = fmt.Sprintf("%s %d", f.name, i)
		}

		scope.walk(func(e *El) {
			switch e.Name {
			case "FieldRef", "SimplePredicate", "SimpleSetPredicate", "FieldColumnPair":
				if e.A("field") == f.name {
					e.set("field", name)
				}
			case "NumericPredictor", "CategoricalPredictor":
				if e.A("name") == f.name {
					e.set("name", name)
				}
			}
		})

		op := "categorical"
		if f.typ == "double" || f.typ == "float" {
			op = "continuous"
		}

		d := el("DerivedField", "name", name, "optype", op, "dataType", f.typ).add(c.itself(f))

		if scope == doc && !alone {
			td := doc.Kid("TransformationDictionary")
			if td == nil {
				td = el("TransformationDictionary")
				at := 0

				for at < len(doc.Kids) && doc.Kids[at].Name != "DataDictionary" {
					at++
				}

				doc.Kids = append(doc.Kids[:at+1:at+1], append([]*El{td}, doc.Kids[at+1:]...)...)
			}

			td.Kids = append([]*El{d}, td.Kids...)

			c.event("indirect_by_dictionary")

			continue
		}

		lt := scope.Kid("LocalTransformations")
		if lt == nil {
			lt = el("LocalTransformations")
			at := 0

			for at < len(scope.Kids) && scope.Kids[at].Name != "MiningSchema" {
				at++
			}

			for at+1 < len(scope.Kids) && (scope.Kids[at+1].Name == "Output" || scope.Kids[at+1].Name == "Targets") {
				at++
			}

			scope.Kids = append(scope.Kids[:at+1:at+1], append([]*El{lt}, scope.Kids[at+1:]...)...)
		}

		lt.Kids = append([]*El{d}, lt.Kids...)

		if top[scope] {
			c.event("indirect_by_model")
		} else {
			c.event("indirect_by_segment")
		}
	}
}

// itself is an expression with the value of a field.
func (c *Ctx) itself(f Field) *El {
	ref := func() *El { return el("FieldRef", "field", f.name) }

	switch c.Intn(5) {
	case 0:
		return el("Apply", "function", "if").add(el("Apply", "function", "isMissing").add(ref()), ref(), ref())
	case 1:
		return el("Apply", "function", "if").add(el("Apply", "function", "isNotMissing").add(ref()), ref(), el("FieldRef", "field", "no such field"))
	case 2:
		if f.typ == "double" || f.typ == "float" {
			return el("Apply", "function", "*").add(ref(), &El{Name: "Constant", Attrs: [][2]string{{"dataType", "double"}}, Text: "1"})
		}
	case 3:
		if f.typ == "double" || f.typ == "float" {
			return el("Apply", "function", "sum").add(ref())
		}
	}

	return ref()
}

// wrap makes the model the only segment of an ensemble.
func (c *Ctx) wrap(doc *El) {
	for i, k := range doc.Kids {
		for _, n := range modelNames {
			if k.Name != n {
				continue
			}

			m := el("MiningModel", "functionName", k.A("functionName")).add(k.Kid("MiningSchema").clone())
			sg := el("Segmentation", "multipleModelMethod", []string{"selectFirst", "modelChain"}[c.Intn(2)])
			doc.Kids[i] = m.add(sg.add(el("Segment").add(el("True"), k)))

			c.event("only_segment")

			return
		}
	}
}

// move takes derived fields from the dictionary to the model or the other way.
func (c *Ctx) move(doc *El) {
	m := doc.All(modelNames...)[0]
	td, lt := doc.Kid("TransformationDictionary"), m.Kid("LocalTransformations")

	if td == nil || lt == nil {
		return
	}

	ds := append(append([]*El{}, td.All("DerivedField")...), lt.All("DerivedField")...)
	at := c.Intn(len(ds) + 1)

	if at != len(td.All("DerivedField")) {
		c.event("derived_elsewhere")
	}

	td.Kids, lt.Kids = append(without(td.Kids, "DerivedField"), ds[:at]...), append(without(lt.Kids, "DerivedField"), ds[at:]...)
}

func (c *Ctx) sayOtherwise(doc *El, g *Gen) *El {
	doc = doc.clone()
	types := newRef(doc).types

	// no infinities and nothing that is no number
	numbers := true

	doc.walk(func(e *El) {
		numbers = numbers && !(e.Name == "Apply" && e.A("function") == "/") && !strings.HasPrefix(e.A("exponent"), "-") && e.A("normalizationMethod") != "exp"
	})

	if c.P(0.6) {
		doc.walk(func(e *El) {
			switch e.Name {
			case "TreeModel":
				c.nodes(e, g.fields)
			case "RegressionModel":
				c.tables(e, numbers)
			case "MiningModel":
				c.segments(e)
			}
		})
	}

	if c.P(0.7) {
		c.predicates(doc, types, []float64{0.05, 0.2, 0.6}[c.Intn(3)], numbers)
	}

	if c.P(0.5) {
		c.arithmetic(doc)
	}

	if c.P(0.6) {
		c.indirect(doc, g.fields, []float64{0.3, 0.7, 1}[c.Intn(3)])
	}

	if c.P(0.5) {
		c.move(doc)
	}

	if c.P(0.4) {
		c.respellAll(doc, types)
	}

	if c.P(0.2) {
		c.wrap(doc)
	}

	return doc
}

func runSame(c *Ctx) {
	g, docEl, ok := c.anyModel()
	if !ok {
		return
	}

	other := c.sayOtherwise(docEl, g)
	text, otherText := docEl.String(), other.String()

	_, m, err := load(text)
	if err == nil {
		var n evaluation.Model

		if _, n, err = load(otherText); err == nil {
			c.sameUpTo("said otherwise", g, text, otherText, m, n)
			return
		}

		text = otherText
	}

	c.note("document:\n%s", text)
	c.fail("a valid document was refused: %v", err)
}
