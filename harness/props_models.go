package main

import (
	"fmt"
	"math"
)

// byTheWay lets some of what reads a field read one derived from it.
func (c *Ctx) byTheWay(g *Gen, doc *El) {
	if c.P(0.15) {
		c.indirectly(doc, g.fields, c.F(0.2, 0.7), true)
	}
}

func (c *Ctx) modestRows(g *Gen, doc *El, n int) {
	c.byTheWay(g, doc)

	m, ok := c.open(doc)
	if !ok {
		return
	}

	for i := 0; i < n && !c.cut; i++ {
		row := g.modestRow()

		decided, held := c.judge(doc, m, row)
		if decided && held {
			c.nontrivial(doc.String(), showRef(row))
			c.sample("%s\nrow %s", doc, showRef(row))
		}
	}
}

// C08
func runRegression(c *Ctx) {
	g := newGen(c.Rng)
	g.need("double")
	g.miss = c.F(0, 0, 0.1)

	method := links[c.Intn(len(links))]
	if c.P(0.05) {
		method = c.Str("probit", "loglog")
	}

	o := &regOpts{exps: c.P(0.5), cats: c.P(0.6), terms: c.P(0.4)}
	doc := g.doc(true, g.regression(o, method, "prediction"))
	c.modestRows(g, doc, 8)
}

// C09: probabilities against the reference, and the simplex laws on their own.
func runClassifier(c *Ctx) {
	g := newGen(c.Rng)
	g.need("double")
	g.miss = c.F(0, 0, 0.1)

	method := c.Str("", "none", "logit", "exp", "cloglog", "cauchit", "softmax", "softmax", "softmax", "simplemax")
	if c.P(0.03) {
		method = c.Str("probit", "loglog")
	}

	o := &regOpts{exps: c.P(0.3), cats: c.P(0.6), terms: c.P(0.3)}
	mdl := g.classifier(o, method)

	extreme := method == "softmax" && c.P(0.4)
	if extreme {
		// scores far apart and far out: the probabilities stay a distribution
		for _, t := range mdl.All("RegressionTable") {
			t.set("intercept", g.num(c.F(-1e4, -800, -745, 0, 709, 710, 800, 5000, 1e6)))
		}
	}

	// scores of both signs have shares of the sum, too
	signed := c.P(0.5)

	if method == "simplemax" {
		for _, t := range mdl.All("RegressionTable") {
			if signed {
				t.set("intercept", g.num(c.F(-3, -1, 0, 2, 9, 40)))
				continue
			}

			t.set("intercept", g.num(c.F(1000, 2000, 50000)))
		}
	}

	doc := g.doc(false, mdl)

	c.byTheWay(g, doc)

	m, ok := c.open(doc)
	if !ok {
		return
	}

	for i := 0; i < 8 && !c.cut; i++ {
		row := g.modestRow()

		decided, held := c.judge(doc, m, row)
		if !decided || !held {
			continue
		}

		c.nontrivial(doc.String(), showRef(row))
		c.sample("%s\nrow %s", doc, showRef(row))

		got, err := evaluate(m, toRow(c.Rng, row))
		if err != nil || method == "" || method == "none" || method == "exp" || method == "simplemax" {
			continue
		}

		seen, sum := map[string]bool{}, 0.0
		complete := true

		for _, t := range mdl.All("RegressionTable") {
			found := false

			for _, f := range mdl.Kid("Output").All("OutputField") {
				if f.A("value") != t.A("targetCategory") || seen[t.A("targetCategory")] {
					continue
				}

				p := got[f.A("name")].Float64()
				if math.IsNaN(p) || p < -1e-12 || p > 1+1e-12 {
					c.note("document:\n%s", doc)
					c.fail("%s is no probability: %v", f.A("name"), p)
				}

				seen[t.A("targetCategory")], found = true, true
				sum += p
			}

			complete = complete && found
		}

		if complete {
			c.event("sum_checked")

			if extreme {
				c.event("sum_checked_extreme")
			}

			if math.Abs(sum-1) > 1e-9 {
				c.note("document:\n%s", doc)
				c.note("row: %s", showRef(row))
				c.fail("the probabilities add up to %v: %s", sum, showRow(got))
			}
		}
	}
}

// C10
func runEnsemble(c *Ctx) {
	g := newGen(c.Rng)
	g.need("double")
	g.miss = c.F(0, 0, 0.3)

	reg := c.P(0.5)
	method := c.Str("sum", "average", "average", "sum", "")
	doc := g.doc(reg, g.ensemble(reg, method, c.P(0.3), 1))

	c.byTheWay(g, doc)

	m, ok := c.open(doc)
	if !ok {
		return
	}

	// the order of the segments carries no meaning
	turned := doc.clone()
	sg := turned.Kid("MiningModel").Kid("Segmentation")

	p := c.Perm(len(sg.Kids))
	mixed := make([]*El, len(p))

	for i, j := range p {
		mixed[i] = sg.Kids[j]
	}

	sg.Kids = mixed

	m2, ok := c.open(turned)
	if !ok {
		return
	}

	for i := 0; i < 6 && !c.cut; i++ {
		row := g.modestRow()

		decided, held := c.judge(doc, m, row)
		if decided && held {
			c.nontrivial(doc.String(), showRef(row))
			c.sample("%s\nrow %s", doc, showRef(row))
			c.judge(turned, m2, row)
		}
	}
}

// chain builds a modelChain in which later segments use earlier outputs.
func (g *Gen) chain(depth int) (*El, bool) { return g.chainTo(false, depth), true }

// outNames are the names under which a model gives numbers, and those which
// only stages inside it give.
func outNames(m *El) (names, inner []string) {
	switch m.Name {
	case "TreeModel":
		if m.A("functionName") == "regression" {
			return []string{"score"}, nil
		}

		m.walk(func(e *El) {
			if e.Name == "ScoreDistribution" && len(names) == 0 {
				names = append(names, fmt.Sprintf("probability(%s)", e.A("value")))
			}
		})

		return names, nil
	case "RegressionModel":
		for _, o := range m.Kid("Output").All("OutputField") {
			names = append(names, o.A("name"))
		}

		return names, nil
	}

	sg := m.Kid("Segmentation")

	switch sg.A("multipleModelMethod") {
	case "modelChain", "selectFirst":
		last := map[string]bool{}

		for i := len(sg.Kids) - 1; i >= 0; i-- {
			for _, k := range sg.Kids[i].All(modelNames...) {
				ns, in := outNames(k)
				inner = append(inner, in...)

				if len(names) == 0 {
					names = ns
					for _, n := range ns {
						last[n] = true
					}

					continue
				}

				for _, n := range ns {
					if !last[n] {
						inner = append(inner, n)
					}
				}
			}
		}

		return names, inner
	}

	for _, o := range m.Kid("Output").All("OutputField") {
		names = append(names, o.A("name"))
	}

	for _, t := range m.Kid("Targets").All("Target") {
		names = append(names, t.A("field"))
	}

	return names, nil
}

// chainTo is a chain whose last stage is a regression or a classifier.
func (g *Gen) chainTo(regression bool, depth int) *El {
	m := el("MiningModel", "functionName", "classification")
	if regression {
		m.set("functionName", "regression")
	}

	m.add(g.schema().add(el("MiningField", "name", g.target, "usageType", "target")))

	sg := el("Segmentation", "multipleModelMethod", "modelChain")

	o := &regOpts{exps: g.P(0.3), cats: g.P(0.5)}

	pred := func() *El {
		if g.P(0.25) {
			return g.pred(g.Range(0, 1))
		}

		return el("True")
	}

	for i := g.Range(1, 3); i > 0; i-- {
		name := fmt.Sprintf("stage%d", i)
		if len(o.extra) > 0 && g.P(0.25) {
			// a later output takes the place of the earlier one
			name = o.extra[g.Intn(len(o.extra))]
		}

		if g.P(0.15) {
			// a tree, possibly without a prediction: it names its output itself
			reg := g.P(0.7)
			g.missOps = g.P(0.5)
			sg.add(g.segment(pred(), g.tree(&treeOpts{reg: reg, dist: 0.5, noTrue: g.Str("", "returnLastPrediction"), exhaust: 0.7, depth: g.Range(0, 2),
				strategy: g.Str("", "none", "lastPrediction", "nullPrediction"), noTarget: g.P(0.3)})))

			name = "score"
			if !reg {
				name = fmt.Sprintf("probability(%s)", g.classes[0])
			}
		} else if g.P(0.25) && depth > 0 {
			// a model of several segments, whose own stages stay inside it
			var sm *El

			switch reg := g.P(0.7); g.Intn(4) {
			case 0, 1:
				sm = g.chainTo(reg, depth-1)
			case 2:
				sm = g.first(reg, 0.7)
			default:
				sm = g.ensemble(reg, g.Str("sum", "average", ""), g.P(0.3), 0)
			}

			sg.add(g.segment(pred(), sm))

			names, inner := outNames(sm)
			if len(names) > 0 {
				name = names[g.Intn(len(names))]
			}

			if len(inner) > 0 && g.P(0.15) {
				o.extra = append(o.extra, inner[g.Intn(len(inner))])
			}
		} else if g.P(0.3) && depth > 0 {
			e := g.ensemble(true, g.Str("sum", "average"), false, 0)
			e.Kids = append(without(without(e.Kids, "Output"), "Targets"), el("Output").add(el("OutputField", "name", name, "optype", "continuous", "dataType", "double")))
			// Output comes after MiningSchema wherever it is put
			sg.add(g.segment(pred(), e))
		} else {
			sg.add(g.segment(pred(), g.regression(o, g.Str(links...), name)))
		}

		// a stage whose predicate does not hold leaves its output missing,
		// which later numeric predictors report
		o.extra = append(o.extra, name)
	}

	switch {
	case regression:
		sg.add(g.segment(el("True"), g.regression(o, g.Str(links...), "out")))
	case g.P(0.8):
		sg.add(g.segment(el("True"), g.classifier(o, g.Str("softmax", "logit", "cauchit"))))
	}

	return m.add(sg)
}

// C11
func runSelect(c *Ctx) {
	g := newGen(c.Rng)
	g.need("double")
	g.miss = c.F(0, 0, 0.2, 0.4)

	if c.P(0.5) {
		mdl, _ := g.chain(1)
		doc := g.doc(false, mdl)

		c.byTheWay(g, doc)

		m, ok := c.open(doc)
		if !ok {
			return
		}

		for i := 0; i < 8 && !c.cut; i++ {
			row := g.modestRow()

			// a value the row has under the name of an output counts until a
			// stage has produced that output
			if c.P(0.2) {
				row[c.Str("stage1", "stage2", "score")] = vf(c.F(modest...))
				c.event("row_has_an_output")
			}

			decided, held := c.judge(doc, m, row)
			if decided && held {
				c.nontrivial(doc.String(), showRef(row))
				c.sample("%s\nrow %s", doc, showRef(row))
			}
		}

		return
	}

	reg := c.P(0.4)
	c.modestRows(g, g.doc(reg, g.first(reg, 0.5)), 8)
}

// C12: a missing value with a declared replacement is that value.
func runReplacement(c *Ctx) {
	g := newGen(c.Rng)
	g.need("double")
	g.miss = c.F(0.3, 0.6)

	var doc *El

	reg := false

	switch c.Intn(5) {
	case 0:
		reg = c.P(0.4)
		doc = g.doc(reg, g.tree(&treeOpts{reg: reg, dist: 0.5, noTrue: c.Str("", "returnLastPrediction"), exhaust: 0.6, depth: 3,
			strategy: c.Str("", "none", "lastPrediction", "nullPrediction", "defaultChild")}))
	case 1:
		reg = true
		doc = g.doc(true, g.regression(&regOpts{cats: true, exps: true, terms: c.P(0.3)}, c.Str(links...), "prediction"))
	case 2:
		doc = g.doc(false, g.classifier(&regOpts{cats: true}, c.Str("softmax", "logit")))
	case 3:
		reg = c.P(0.5)
		doc = g.doc(reg, g.ensemble(reg, c.Str("sum", "average"), c.P(0.3), c.Intn(5)/4+1))
	case 4:
		m, _ := g.chain(1)
		doc = g.doc(false, m)
	}

	// replacements in the top-level model, and in some nested ones
	top := newRef(doc).model()
	types := map[string]Field{}

	for _, f := range g.fields {
		types[f.name] = f
	}

	repl := map[string]bool{}

	doc.walk(func(e *El) {
		if e.Name != "MiningSchema" {
			return
		}

		isTop := e == top.Kid("MiningSchema")

		for _, mf := range e.All("MiningField") {
			f, ok := types[mf.A("name")]
			if !ok || !c.P(map[bool]float64{true: 0.6, false: 0.1}[isTop]) {
				continue
			}

			v := g.literal(f)

			switch f.typ {
			case "double", "float":
				v = g.num(c.F(modest...))
			case "integer":
				v = fmt.Sprint(smallInts[c.Intn(len(smallInts))])
			}

			mf.set("missingValueReplacement", v)

			if c.P(0.5) {
				mf.set("missingValueTreatment", c.Str("asMean", "asValue", "asMode", "asMedian"))
			}

			// every field a model has is replaced, whatever its use
			if c.P(0.15) {
				mf.set("usageType", c.Str("supplementary", "active", "order", "group"))
			}

			if isTop {
				repl[mf.A("name")] = true
			}
		}
	})

	c.byTheWay(g, doc)

	m, ok := c.open(doc)
	if !ok {
		return
	}

	for i := 0; i < 8 && !c.cut; i++ {
		row := g.modestRow()

		decided, held := c.judge(doc, m, row)
		if !decided || !held {
			continue
		}

		n := 0

		for f := range repl {
			if row[f].K == 0 {
				n++
			}
		}

		if n == 0 {
			c.event("nothing_to_replace")
			continue
		}

		c.nontrivial(doc.String(), showRef(row))
		c.sample("%s\nrow %s", doc, showRef(row))

		// without the reference: writing the replacement into the row changes nothing
		full := row.clone()

		for _, mf := range top.Kid("MiningSchema").All("MiningField") {
			if v, ok := mf.Has("missingValueReplacement"); ok && full[mf.A("name")].K == 0 {
				full[mf.A("name")] = vs(v)
			}
		}

		a, aerr := evaluate(m, toRow(c.Rng, row))
		b, berr := evaluate(m, toRow(c.Rng, full))
		c.eval()

		if exact(a, aerr) != exact(b, berr) {
			c.note("document:\n%s", doc)
			c.note("row: %s", showRef(row))
			c.fail("with the value missing: %s (%v); with its replacement given: %s (%v)", showRow(a), aerr, showRow(b), berr)
		}
	}
}
