package main

import (
	"fmt"
	"strconv"
)

var coefs = []float64{-3, -1.5, -1, -0.25, 0, 0.125, 0.5, 1, 2, 7.75, 0.1, 0.3, -0.7, 1234.5678}

// regFields narrows the value pools of numeric fields for regression: the
// values stay where every link function is well conditioned.
var modest = []float64{-3, -1.5, -1, -0.5, 0, 0.25, 0.5, 1, 2, 2.5, 4}

type regOpts struct {
	exps, cats, terms bool
	extra             []string // further numeric names: derived fields, outputs
	allNumeric        bool
}

func (g *Gen) numericNames(o *regOpts) []string {
	var ns []string

	for _, f := range g.fields {
		if f.typ == "double" || f.typ == "float" || f.typ == "integer" {
			ns = append(ns, f.name)
		}
	}

	return append(ns, o.extra...)
}

func (g *Gen) table(o *regOpts, category string) *El {
	t := el("RegressionTable", "intercept", g.num(g.F(coefs...)))
	if category != "" {
		t.set("targetCategory", category)
	}

	ns := g.numericNames(o)
	for _, i := range g.Perm(len(ns)) {
		if g.P(0.3) {
			continue
		}

		p := el("NumericPredictor", "name", ns[i], "coefficient", g.num(g.F(coefs...)))
		if o.exps && g.P(0.4) {
			p.set("exponent", strconv.Itoa(g.Range(1, 3)))

			if g.P(0.1) {
				p.set("exponent", strconv.Itoa(g.Pick(-3, -2, -1, 0, 4, 5)))
			} else if g.P(0.04) {
				p.set("exponent", strconv.Itoa(g.Pick(7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 129, 200, 255, 256, 257, -7, -64, -128, -200)))
			}
		}

		t.add(p)
	}

	if o.cats {
		for _, f := range g.fields {
			if f.typ == "string" {
				for _, v := range f.values {
					if g.P(0.6) {
						t.add(el("CategoricalPredictor", "name", f.name, "value", v, "coefficient", g.num(g.F(coefs...))))
					}
				}
			}

			if f.typ == "boolean" && g.P(0.7) {
				t.add(el("CategoricalPredictor", "name", f.name, "value", g.Str("true", "false"), "coefficient", g.num(g.F(coefs...))))
			}
		}
	}

	if o.terms && len(ns) > 0 {
		for i := g.Range(0, 2); i > 0; i-- {
			t.add(g.term(ns))
		}
	}

	// the order of the children carries no meaning
	p := g.Perm(len(t.Kids))
	mixed := make([]*El, len(p))

	if g.P(0.3) {
		for i, j := range p {
			mixed[i] = t.Kids[j]
		}

		t.Kids = mixed
	}

	return t
}

func (g *Gen) term(ns []string) *El {
	e := el("PredictorTerm", "coefficient", g.num(g.F(coefs...)))
	n := g.Range(1, 3)
	if g.P(0.1) {
		n = g.Range(4, 8)
	}

	for i := n; i > 0; i-- {
		e.add(el("FieldRef", "field", ns[g.Intn(len(ns))]))
	}

	return e
}

var links = []string{"", "none", "logit", "softmax", "exp", "cloglog", "cauchit"}

func (g *Gen) regression(o *regOpts, method, output string) *El {
	m := el("RegressionModel", "functionName", "regression")
	if method != "" {
		m.set("normalizationMethod", method)
	}

	return m.add(g.schema(), el("Output").add(el("OutputField", "name", output, "optype", "continuous", "dataType", "double", "feature", "predictedValue")), g.table(o, ""))
}

func (g *Gen) classifier(o *regOpts, method string) *El {
	m := el("RegressionModel", "functionName", "classification")
	if method != "" {
		m.set("normalizationMethod", method)
	}

	cs := g.classes
	if method != "softmax" && method != "simplemax" {
		cs = cs[:2]
	}

	out := el("Output")
	for _, i := range g.Perm(len(cs)) {
		if g.P(0.1) {
			continue
		}

		out.add(el("OutputField", "name", fmt.Sprintf("probability(%s)", cs[i]), "optype", "continuous", "dataType", "double", "feature", "probability", "value", cs[i]))

		if g.P(0.1) {
			out.add(el("OutputField", "name", "again "+cs[i], "optype", "continuous", "dataType", "double", "feature", "probability", "value", cs[i]))
		}
	}

	m.add(g.schema(), out)

	for _, c := range cs {
		m.add(g.table(o, c))
	}

	return m
}

// modestRow draws numeric values from a range in which sums of products stay
// well conditioned.
func (g *Gen) modestRow() Row {
	row := Row{}

	for _, f := range g.fields {
		if g.P(g.miss) {
			row[f.name] = Val{}
			continue
		}

		switch f.typ {
		case "double", "float":
			row[f.name] = vf(g.F(modest...))
		case "integer":
			row[f.name] = vi(smallInts[g.Intn(len(smallInts))])
		default:
			row[f.name] = g.value(f)
		}
	}

	return row
}

// classTree is a classification tree that always predicts, with a
// distribution over all classes.
func (g *Gen) segTree(reg bool, strategy string) *El {
	o := &treeOpts{reg: reg, dist: 0.5, noTrue: "returnLastPrediction", exhaust: 0.6, depth: g.Range(0, 3), strategy: strategy, noTarget: reg && g.P(0.5)}
	if strategy == "" {
		o.strategy = g.Str("", "none", "lastPrediction")
	}

	g.missOps = g.P(0.3)
	m := g.tree(o)
	root := m.Kid("Node")

	// some segments give no prediction
	if g.P(0.15) {
		m.set("noTrueChildStrategy", "returnNullPrediction")
		return m
	}

	for i, k := range root.Kids {
		for _, n := range predicateNames {
			if k.Name == n {
				root.Kids[i] = el("True")
			}
		}
	}

	m.walk(func(e *El) {
		if e.Name == "Node" && !reg && e.A("score") == "" && len(e.All("ScoreDistribution")) == 0 {
			e.set("score", g.classes[g.Intn(len(g.classes))])
		}
	})

	return m
}

func (g *Gen) segment(p, model *El) *El {
	g.nodeID++

	return el("Segment", "id", strconv.Itoa(g.nodeID)).add(p, model)
}

func (g *Gen) outputs() *El {
	out := el("Output")
	other := g.P(0.15)

	for _, i := range g.Perm(len(g.classes)) {
		c := g.classes[i]
		name := fmt.Sprintf("probability(%s)", c)
		if other {
			name = fmt.Sprintf("p_%d", i)
		}

		out.add(el("OutputField", "name", name, "optype", "continuous", "dataType", "double", "feature", "probability", "value", c))
	}

	return out
}

func (g *Gen) targets(field string) *El {
	t := el("Target", "field", field)
	if g.P(0.6) {
		t.set("rescaleFactor", g.num(g.F(-1, 0.5, 2, 0.125, 10, 0)))
	}

	if g.P(0.6) {
		t.set("rescaleConstant", g.num(g.F(-1, 0.5, 2, 100, 0)))
	}

	return t
}

// ensemble is a sum or average over segments; when pred is set, segments have
// predicates of their own.
func (g *Gen) ensemble(reg bool, method string, pred bool, depth int) *El {
	m := el("MiningModel", "functionName", "classification")

	ms := g.schema()
	if !reg || g.P(0.95) {
		ms.add(el("MiningField", "name", g.target, "usageType", "target"))
	}

	m.add(ms)

	if reg {
		m.set("functionName", "regression")
		if g.P(0.4) {
			m.add(el("Output").add(el("OutputField", "name", "sumValue", "optype", "continuous", "dataType", "double")))
		}

		ts := []*El{g.targets(g.target)}
		for _, f := range []string{"another target", "a", "zz"} {
			if g.P(0.1) {
				ts = append(ts, g.targets(f))
			}
		}

		g.Shuffle(len(ts), func(i, j int) { ts[i], ts[j] = ts[j], ts[i] })
		m.add(el("Targets").add(ts...))
	} else {
		out := g.outputs()
		m.add(out)

		t := el("Targets")
		if g.P(0.2) {
			t.add(g.targets(out.Kids[0].A("name")))
		}

		if g.P(0.1) {
			t.add(g.targets(g.target))
		}

		m.add(t)
	}

	sg := el("Segmentation")
	if method != "" {
		sg.set("multipleModelMethod", method)
	}

	n := g.Range(1, 5)
	if g.P(0.01) {
		n = g.Range(20, 70)
	}

	// of hundreds
	many := depth == 1 && g.P(0.002)
	if many {
		n = g.Range(200, 1400)
	}

	for i := n; i > 0; i-- {
		p := el("True")
		if pred && g.P(0.7) {
			p = g.pred(g.Range(0, 1))
		}

		var sm *El

		switch {
		case many:
			sm = g.stump(reg)
		case depth > 0 && g.P(0.25):
			switch {
			case g.P(0.2):
				sm = g.first(reg, 0.7)
			case g.P(0.2):
				sm = g.chainTo(reg, depth-1)
			default:
				sm = g.ensemble(reg, g.Str("sum", "average", ""), pred, depth-1)
			}

			// one output, so that the enclosing sum has one to take
			if reg && g.P(0.7) {
				sm.Kids = without(sm.Kids, "Output")
			}
		case reg && g.P(0.01):
			// which has a label to sum
			sm = g.segTree(false, "")
		case reg && g.P(0.3):
			sm = g.regression(&regOpts{exps: true, cats: true}, g.Str(links...), "out")
		case !reg && g.P(0.2):
			sm = g.classifier(&regOpts{cats: true}, "softmax")
		default:
			sm = g.segTree(reg, "")
		}

		sg.add(g.segment(p, sm))
	}

	return m.add(sg)
}

// first is a model of which the first segment that applies is evaluated.
func (g *Gen) first(reg bool, fallback float64) *El {
	m := el("MiningModel", "functionName", "classification")

	if reg {
		m.set("functionName", "regression")
	}

	m.add(g.schema().add(el("MiningField", "name", g.target, "usageType", "target")))
	sg := el("Segmentation", "multipleModelMethod", "selectFirst")

	n := g.Range(1, 5)
	if g.P(0.01) {
		n = g.Range(10, 40)
	}

	for i := n; i > 0; i-- {
		var sm *El

		switch {
		case g.P(0.06):
			sm = g.ensemble(reg, g.Str("sum", "average", ""), g.P(0.3), 0)
		case g.P(0.06):
			sm = g.chainTo(reg, 0)
		case reg && g.P(0.4):
			sm = g.regression(&regOpts{cats: true}, g.Str(links...), "out")
		case !reg && g.P(0.3):
			sm = g.classifier(&regOpts{cats: true}, "softmax")
		default:
			sm = g.segTree(reg, "")
		}

		p := g.pred(g.Range(0, 2))
		if i == 1 && g.P(fallback) {
			p = el("True")
		}

		sg.add(g.segment(p, sm))
	}

	return m.add(sg)
}

// stump is a tree of one node.
func (g *Gen) stump(reg bool) *El {
	n := el("Node").add(el("True"))

	if reg {
		return el("TreeModel", "functionName", "regression").add(el("MiningSchema"), n.set("score", g.num(g.F(modest...))))
	}

	for _, c := range g.classes {
		n.add(el("ScoreDistribution", "value", c, "recordCount", strconv.Itoa(g.Range(1, 9))))
	}

	return el("TreeModel", "functionName", "classification").add(el("MiningSchema"), n.set("score", g.classes[0]))
}

func without(kids []*El, name string) []*El {
	var out []*El

	for _, k := range kids {
		if k.Name != name {
			out = append(out, k)
		}
	}

	return out
}
