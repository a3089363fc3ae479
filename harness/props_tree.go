package main

import (
	"github.com/flukeish/pmml/evaluation"
)

// open loads a generated document that the package has to accept.
func (c *Ctx) open(doc *El) (evaluation.Model, bool) {
	text := doc.String()

	_, m, err := load(text)
	if err != nil {
		c.note("document:\n%s", text)
		c.fail("a valid document was refused: %v", err)

		return nil, false
	}

	return m, true
}

// judge compares one prediction with the reference; it returns whether the
// case was decided and whether it held.
func (c *Ctx) judge(doc *El, m evaluation.Model, row Row) (decided, held bool) {
	return c.judgeAs(doc, m, row, toRow(c.Rng, row))
}

func (c *Ctx) judgeAs(doc *El, m evaluation.Model, row Row, in evaluation.DataRow) (decided, held bool) {
	ref := newRef(doc)
	want, werr := ref.Eval(row)

	if _, ok := werr.(outOfDomain); ok {
		c.event("skipped_out_of_domain")
		return false, true
	}

	c.merge(ref.ev)
	c.eval()

	shown := showRow(in)
	got, err := evaluate(m, in)

	report := func(format string, args ...interface{}) {
		c.note("document:\n%s", doc)
		c.note("row: %s", shown)
		c.fail(format, args...)
	}

	switch {
	case isPanic(err):
		report("%v", err)
		return true, false
	case werr != nil && err == nil:
		report("expected an error (%v), got %s", werr, showRow(got))
		return true, false
	case werr == nil && err != nil:
		report("expected %s, got error: %v", showRef(want), err)
		return true, false
	case werr != nil:
		c.event("error_as_expected")
		return true, true
	}

	if d := diff(want, got); d != "" {
		report("%s", d)
		return true, false
	}

	if want == nil {
		c.event("null_prediction")
	}

	c.w.res.Events["compared_outputs"] += len(want)

	return true, true
}

func (c *Ctx) rows(g *Gen, doc *El, n int) {
	c.byTheWay(g, doc)

	m, ok := c.open(doc)
	if !ok {
		return
	}

	for i := 0; i < n && !c.cut; i++ {
		row := g.row()
		before := snapshot(c.w.res.Events)
		decided, held := c.judge(doc, m, row)

		if decided && held {
			after := c.w.res.Events
			if interesting(before, after) {
				c.nontrivial(doc.String(), showRef(row))
			}

			c.sample("%s\nrow %s", doc, showRef(row))
		}
	}
}

func snapshot(m map[string]int) map[string]int {
	o := make(map[string]int, len(m))
	for k, v := range m {
		o[k] = v
	}

	return o
}

// interesting: the reference visited more than one event kind besides the
// trivial predicate True.
func interesting(before, after map[string]int) bool {
	n := 0

	for k, v := range after {
		if v > before[k] && k != "pred_True_T" && k != "compared_outputs" && k != "node" {
			n++
		}
	}

	return n >= 2
}

// C01: one predicate, made observable by a two-node tree: true gives "T",
// false the root's "F", unknown no prediction at all.
func runPredicates(c *Ctx) {
	g := newGen(c.Rng)
	g.miss = c.F(0, 0.25, 0.5)

	p := g.pred(c.Range(0, 3))

	m := el("TreeModel", "functionName", "classification", "missingValueStrategy", "nullPrediction", "noTrueChildStrategy", "returnLastPrediction")
	ms := g.schema()
	m.add(ms, el("Node", "score", "F").add(el("True"), el("Node", "score", "T").add(p)))

	doc := g.doc(false, m)
	c.rows(g, doc, 12)
}

func runTreeComplete(c *Ctx) {
	g := newGen(c.Rng)
	g.miss = 0

	o := &treeOpts{reg: c.P(0.25), dist: c.F(0, 0.5, 1), noTrue: c.Str("", "returnLastPrediction", "returnNullPrediction", "returnLastPrediction"),
		exhaust: c.F(0, 0.5, 0.9), depth: c.Range(1, 4), noTarget: c.P(0.15),
		strategy: c.Str("", "none", "lastPrediction", "nullPrediction", "defaultChild", "weightedConfidence", "aggregateNodes")}
	if c.P(0.3) {
		o.penalty = "0.5"
	}

	o.counts = o.strategy == "weightedConfidence" || o.strategy == "aggregateNodes"
	doc := g.doc(o.reg, g.tree(o))
	c.rows(g, doc, 8)
}

func runTreeStop(c *Ctx) {
	g := newGen(c.Rng)
	g.miss = c.F(0.2, 0.5, 0.8)
	o := &treeOpts{reg: c.P(0.25), dist: c.F(0, 0.5, 1), noTrue: c.Str("", "returnLastPrediction", "returnNullPrediction", "returnLastPrediction"),
		exhaust: c.F(0.3, 0.9), depth: c.Range(1, 4), noTarget: c.P(0.1),
		strategy: c.Str("", "none", "lastPrediction", "nullPrediction", "lastPrediction", "nullPrediction")}

	g.missOps = c.P(0.3)
	doc := g.doc(o.reg, g.tree(o))
	c.rows(g, doc, 10)
}

func runTreeDefault(c *Ctx) {
	g := newGen(c.Rng)
	g.miss = c.F(0.3, 0.6, 0.9)
	o := &treeOpts{reg: c.P(0.2), dist: c.F(0, 0.5, 1), noTrue: c.Str("", "returnLastPrediction", "returnNullPrediction", "returnLastPrediction"),
		exhaust: c.F(0.5, 0.9), depth: c.Range(1, 4), strategy: "defaultChild", penalty: c.Str("", "1", "0.5", "0.8", "0.25", "0.9", "0.5", "0", "1.5", "2", "1e-3", "0.999"), noTarget: c.P(0.1)}

	g.missOps = c.P(0.3)
	doc := g.doc(o.reg, g.tree(o))
	c.rows(g, doc, 10)
}

func runTreeCombine(c *Ctx) {
	g := newGen(c.Rng)
	g.miss = c.F(0.3, 0.6, 0.9)
	o := &treeOpts{dist: c.F(0.5, 1, 1), noTrue: c.Str("", "returnLastPrediction", "returnNullPrediction"), counts: true,
		exhaust: c.F(0.5, 0.9), depth: c.Range(1, 4), strategy: c.Str("weightedConfidence", "aggregateNodes"), noTarget: c.P(0.1)}

	g.missOps = c.P(0.3)
	doc := g.doc(false, g.tree(o))
	c.rows(g, doc, 10)
}
