package main

import (
	"fmt"
	"strconv"
	"time"

	"github.com/flukeish/pmml/evaluation"
	"github.com/flukeish/pmml/models"
)

// C25: work is bounded by the size of the document. Every shape below nests n
// deep and takes the package well under a second; work that multiplies at
// each level would not end at these depths.

const patience = 40 * time.Second

// within runs an operation against the clock; it reports whether it ended.
func within(op func()) bool {
	done := make(chan struct{})

	go func() {
		defer close(done)
		op()
	}()

	t := time.NewTimer(patience)
	defer t.Stop()

	select {
	case <-done:
		return true
	case <-t.C:
		return false
	}
}

// spine is a numeric expression n deep: at each level one operand goes on.
func (e *exprGen) spine(n int, mode int) *El {
	cur := e.ref(e.nums)

	// an operand that cannot be evaluated, far down: the failure is one, too
	if e.P(0.2) {
		cur = el("Apply", "function", "/")
	}

	for i := 0; i < n; i++ {
		var a *El

		leaf := func() *El {
			if e.P(0.7) {
				return e.constant()
			}

			return e.ref(e.nums).set("mapMissingTo", "1")
		}

		k := e.Intn(8)
		if mode < 8 {
			k = mode
		}

		switch k {
		case 0:
			a = el("Apply", "function", "+").add(cur, leaf())
		case 1:
			a = el("Apply", "function", "-").add(leaf(), cur)
		case 2:
			a = el("Apply", "function", "if").add(e.cond(0), cur, leaf())
		case 3:
			a = el("Apply", "function", "if").add(e.cond(0), leaf(), cur)
		case 4:
			a = el("Apply", "function", "sum").add(leaf(), cur, leaf())
		case 5:
			a = el("Apply", "function", "if").add(el("Apply", "function", e.Str("isMissing", "isNotMissing")).add(cur), leaf(), leaf())
		case 6, 7:
			// straight down: the branch taken is the deep one
			fn, arms := "isNotMissing", []*El{cur, leaf()}
			if k == 7 {
				fn, arms = "isMissing", []*El{leaf(), cur}
			}

			a = el("Apply", "function", "if").add(el("Apply", "function", fn).add(e.constant()))
			a.add(arms...)
		}

		if a.A("function") != "if" && e.P(0.4) {
			a.set("mapMissingTo", e.num(e.F(dyadic...)))
		}

		if e.P(0.4) {
			a.set("defaultValue", e.num(e.F(dyadic...)))
		}

		cur = a
	}

	return cur
}

func (g *Gen) deepPred(n int) *El {
	cur := g.simple()

	// one operator and one side throughout, or any mixture
	op, side := "", g.F(0, 1, 0.5)
	if g.P(0.6) {
		op = g.Str("and", "or", "xor", "surrogate")
	}

	for i := 0; i < n; i++ {
		e := el("CompoundPredicate", "booleanOperator", g.Str("and", "or", "xor", "surrogate", "and", "or"))
		if op != "" {
			e.set("booleanOperator", op)
		}

		if g.P(side) {
			e.add(cur, g.simple())
		} else {
			e.add(g.simple(), cur)
		}

		cur = e
	}

	return cur
}

// deepTree has one long path; short leaves hang off it.
func (g *Gen) deepTree(n int, o *treeOpts) *El {
	m := g.tree(&treeOpts{strategy: o.strategy, noTrue: o.noTrue, penalty: o.penalty, counts: true, dist: 0.5})
	m.Kids = without(m.Kids, "Node")

	leaf := func(p *El) *El {
		return g.node(&treeOpts{counts: true, dist: 0.8, depth: 0}, 0, p)
	}

	cur := leaf(g.simple())

	// straight down: every row goes all the way
	straight := g.P(0.5)

	for i := 0; i < n; i++ {
		p := el("True")
		if !straight && g.P(0.6) {
			p = g.simple()
		}

		up := leaf(p)
		other := leaf(g.simple())

		if straight {
			other = leaf(el("False"))
		}

		kidsOf := []*El{cur, other}
		if g.P(0.5) {
			kidsOf = []*El{other, cur}
		}

		up.add(kidsOf...)

		if o.strategy == "defaultChild" {
			up.set("defaultChild", cur.A("id"))
		}

		cur = up
	}

	return m.add(cur)
}

func runBounded(c *Ctx) {
	e := newExprGen(c.Rng)
	e.miss = c.F(0, 0.3, 0.6)
	g := e.Gen

	var doc *El

	depth := c.Range(40, 70)
	shape := c.i % 10
	name := ""

	switch shape {
	case 0, 1:
		name = "expression"
		d := el("DerivedField", "name", "deep", "optype", "continuous", "dataType", "double").add(e.spine(depth, c.Intn(11)))
		m := g.reader("deep", "double", nil)
		doc = g.place(m.Name == "RegressionModel", m, []*El{d})
	case 2:
		name = "derived_fields"

		var ds []*El

		last := e.need("double").name

		for i := 0; i < depth; i++ {
			d := el("DerivedField", "name", fmt.Sprintf("step %d", i), "optype", "continuous", "dataType", "double")
			half := el("Constant", "dataType", "double")
			half.Text = "0.5"

			a := el("Apply", "function", "+").add(el("FieldRef", "field", last), el("FieldRef", "field", last))
			if g.P(0.3) {
				a = el("Apply", "function", "if").add(el("Apply", "function", "isMissing").add(el("FieldRef", "field", last)),
					el("FieldRef", "field", last), el("FieldRef", "field", last))
				d.add(a)
			} else {
				d.add(el("Apply", "function", "*").add(a, half))
			}

			ds = append(ds, d)
			last = d.A("name")
		}

		m := g.reader(last, "double", nil)
		doc = g.place(m.Name == "RegressionModel", m, ds)
	case 3:
		name = "predicate"
		m := el("TreeModel", "functionName", "classification", "missingValueStrategy", "nullPrediction", "noTrueChildStrategy", "returnLastPrediction")
		m.add(g.schema(), el("Node", "score", "F").add(el("True"), el("Node", "score", "T").add(g.deepPred(depth))))
		doc = g.doc(false, m)
	case 4, 5, 6:
		strategy := c.Str("none", "lastPrediction", "nullPrediction", "defaultChild", "weightedConfidence", "aggregateNodes")
		name = "tree_" + strategy
		doc = g.doc(false, g.deepTree(depth*c.Range(1, 4), &treeOpts{strategy: strategy, noTrue: c.Str("", "returnLastPrediction"), penalty: c.Str("", "0.9")}))
	case 7, 8:
		method := c.Str("selectFirst", "sum", "average", "modelChain")
		name = "nested_" + method
		inner := g.regression(&regOpts{}, "", "value")

		if method == "selectFirst" && c.P(0.5) {
			inner = g.segTree(false, "")
		}

		for i := 0; i < depth; i++ {
			m := el("MiningModel", "functionName", inner.A("functionName"))

			ms := g.schema()
			if method == "sum" || method == "average" {
				ms.add(el("MiningField", "name", g.target, "usageType", "target"))
			}

			m.add(ms)

			sg := el("Segmentation", "multipleModelMethod", method)
			if method == "modelChain" && i > 0 {
				sg.set("multipleModelMethod", c.Str("modelChain", "selectFirst"))
			}

			sg.add(g.segment(el("True"), inner))
			inner = m.add(sg)
		}

		doc = g.doc(inner.A("functionName") == "regression", inner)
	case 9:
		name = "foreign"
		other, docEl, _ := c.anyModel()
		g = other
		deep := el("Anything")

		for i := 0; i < depth*4; i++ {
			up := el(c.Str("Anything", "Extension", "Node", "Apply", "Segment")).add(deep)
			if c.P(0.3) {
				up.add(el("Beside"))
			}

			deep = up
		}

		doc = docEl
		doc.Kid("Header").add(el("Extension").add(deep))
	}

	text := doc.String()

	var (
		p   *models.PMML
		m   evaluation.Model
		err error
	)

	stuck := func(what string) {
		if len(text) > 8000 {
			c.note("document (%d bytes):\n%s ...", len(text), text[:8000])
		} else {
			c.note("document:\n%s", text)
		}

		c.fail("%s a document of %d bytes (%s, %d deep) did not end in %v", what, len(text), name, depth, patience)
		c.w.stop = true
	}

	if !within(func() { p, err = decodeDoc(text) }) {
		stuck("decoding")
		return
	}

	if err == nil && !within(func() { m, err = buildDoc(p) }) {
		stuck("building")
		return
	}

	if err != nil {
		c.note("document:\n%s", text)
		c.fail("a valid document was refused: %v", err)

		return
	}

	c.event("built_" + name)

	rows := make([]evaluation.DataRow, 3)
	refs := make([]Row, 3)

	for i := range rows {
		refs[i] = g.modestRow()
		if i == 0 && g.P(0.5) {
			// nothing is known, on all levels
			refs[i] = Row{}
			c.event("row_of_nothing")
		}

		rows[i] = toRow(c.Rng, refs[i])
		row := copyRow(rows[i])

		var (
			out  evaluation.DataRow
			oerr error
		)

		if !within(func() { out, oerr = evaluate(m, row) }) {
			stuck("evaluating a row against")
			return
		}

		c.eval()

		if isPanic(oerr) {
			c.note("document:\n%s", text)
			c.note("row: %s", showRow(rows[i]))
			c.fail("%v", oerr)

			return
		}

		c.event("evaluated_" + name)

		ref := newRef(doc)

		want, werr := ref.Eval(refs[i])
		if _, isLoud := werr.(loud); isLoud && oerr == nil {
			c.note("document:\n%s", text)
			c.note("row: %s", showRow(rows[i]))
			c.fail("%v, but it predicts %s", werr, showRow(out))

			return
		}

		if werr == nil && oerr != nil {
			c.note("document:\n%s", text)
			c.note("row: %s", showRow(rows[i]))
			c.fail("%s was expected: %v", showRow(toRow(c.Rng, want)), oerr)

			return
		}

		if werr == nil {
			if d := diff(want, out); d != "" {
				c.note("document:\n%s", text)
				c.note("row: %s", showRow(rows[i]))
				c.fail("%s", d)

				return
			}

			c.event("compared_with_reference")
		}
	}

	if !within(func() { err = verify(m) }) {
		stuck("verifying")
		return
	}

	c.nontrivial(text)
	c.sample("%s, %d deep, %s bytes, row %s", name, depth, strconv.Itoa(len(text)), showRow(rows[0]))
}
