package main

import (
	"fmt"
)

var dyadic = []float64{-8, -3, -1.5, -1, -0.5, 0, 0.25, 0.5, 1, 2, 4, 5, 16}

type exprGen struct {
	*Gen
	nums []string // names of numeric fields and derived fields
	strs []string // names of string-valued ones
	flag []string // names of boolean ones
	all  []string
}

func (e *exprGen) constant() *El {
	k := el("Constant", "dataType", "double")
	k.Text = e.num(e.F(dyadic...))

	if e.P(0.1) {
		// which have no short form in binary
		k.Text = e.num(e.F(0.1, -0.3, 1.0/3, 16777217, 1234567.891, 2.718281828459045, -9.87654321e-5, 123456789.125))
	}

	return k
}

func (e *exprGen) ref(names []string) *El {
	f := el("FieldRef", "field", names[e.Intn(len(names))])
	return f
}

func (e *exprGen) cond(depth int) *El {
	if len(e.flag) > 0 && e.P(0.2) {
		return e.ref(e.flag)
	}

	a := el("Apply", "function", e.Str("isMissing", "isNotMissing")).add(e.any(depth))

	if depth > 0 && e.P(0.08) {
		// a choice between conditions
		a = el("Apply", "function", "if").add(e.cond(depth-1), e.cond(depth-1), e.cond(depth-1))
	}

	if e.P(0.05) {
		a.set("mapMissingTo", e.Str("true", "false", "1", "0"))
	}

	if e.P(0.06) {
		// which only a choice can need
		a.set("defaultValue", e.Str("true", "false"))
	}

	return a
}

// any is an operand whose type does not matter.
func (e *exprGen) any(depth int) *El {
	if e.P(0.6) {
		return e.ref(e.all)
	}

	return e.numeric(depth - 1)
}

func (e *exprGen) numeric(depth int) *El {
	if depth <= 0 || e.P(0.2) {
		if e.P(0.3) || len(e.nums) == 0 {
			return e.constant()
		}

		f := e.ref(e.nums)
		if e.P(0.25) {
			f.set("mapMissingTo", e.num(e.F(dyadic...)))
		}

		return f
	}

	a := el("Apply")

	switch e.Intn(7) {
	case 0, 1, 2, 3:
		a.set("function", e.Str("+", "-", "*", "/")).add(e.numeric(depth-1), e.numeric(depth-1))
	case 4:
		a.set("function", "sum")
		for i := e.Range(1, 4); i > 0; i-- {
			a.add(e.numeric(depth - 1))
		}
	default:
		a.set("function", "if").add(e.cond(depth-1), e.numeric(depth-1), e.numeric(depth-1))

		if e.P(0.06) {
			// what cannot be evaluated does no harm where it is not needed
			k := e.Range(1, 2)
			a.Kids[k] = el("Apply", "function", e.Str("erf", "x-median", "-")).add(e.constant())

			if e.P(0.6) {
				a.Kids[0] = el("Apply", "function", []string{"isMissing", "isNotMissing"}[k-1]).add(e.constant())
			}
		}
	}

	if a.A("function") != "if" && e.P(0.15) {
		a.set("mapMissingTo", e.num(e.F(dyadic...)))
	}

	if e.P(0.15) {
		a.set("defaultValue", e.num(e.F(dyadic...)))
	}

	return a
}

// derive adds a derived field and returns it.
func (e *exprGen) derive(name string) *El {
	switch {
	case len(e.strs) > 0 && e.P(0.15):
		d := el("DerivedField", "name", name, "optype", "categorical", "dataType", "string")
		if e.P(0.5) {
			f := e.ref(e.strs)
			if e.P(0.5) {
				f.set("mapMissingTo", e.Str(stringPool...))

				if e.P(0.2) {
					f.set("mapMissingTo", "")
				}
			}

			d.add(f)
		} else {
			d.add(el("Apply", "function", "if").add(e.cond(1), e.ref(e.strs), e.ref(e.strs)))
		}

		e.strs = append(e.strs, name)
		e.all = append(e.all, name)

		return d
	case e.P(0.15):
		d := el("DerivedField", "name", name, "optype", "categorical", "dataType", "boolean")
		d.add(el("Apply", "function", e.Str("isMissing", "isNotMissing")).add(e.any(1)))
		e.flag = append(e.flag, name)
		e.all = append(e.all, name)

		return d
	}

	d := el("DerivedField", "name", name, "optype", e.Str("continuous", "continuous", "continuous", "continuous", "categorical", "ordinal"), "dataType", "double").add(e.numeric(e.Range(1, 3)))
	e.nums = append(e.nums, name)
	e.all = append(e.all, name)

	return d
}

func newExprGen(r *Rng) *exprGen {
	e := &exprGen{Gen: newGen(r)}
	e.need("double")
	e.miss = r.F(0, 0.3, 0.5)

	for _, f := range e.fields {
		switch f.typ {
		case "double", "float", "integer":
			e.nums = append(e.nums, f.name)
		case "string":
			e.strs = append(e.strs, f.name)
		case "boolean":
			e.flag = append(e.flag, f.name)
		}

		e.all = append(e.all, f.name)
	}

	return e
}

// place spreads derived fields, in order, over the transformation dictionary
// and the local transformations of an outer ensemble and of the model itself.
// Fields of the dictionary come first, then the outer ones, then the inner.
func (g *Gen) place(reg bool, model *El, ds []*El) *El {
	td, outer, inner := el("TransformationDictionary"), el("LocalTransformations"), el("LocalTransformations")
	wrap := g.P(0.4)

	a := g.Intn(len(ds) + 1)
	if g.P(0.3) {
		a = 0
	} else if g.P(0.3) {
		a = len(ds)
	}

	b := a
	if wrap {
		b = g.Range(a, len(ds))
	}

	td.add(ds[:a]...)
	outer.add(ds[a:b]...)
	inner.add(ds[b:]...)

	if len(inner.Kids) > 0 {
		model.add(inner)
	}

	if len(td.Kids) == 0 {
		td = nil
	}

	if !wrap {
		return g.doc(reg, td, model)
	}

	m := el("MiningModel", "functionName", model.A("functionName")).add(g.schema())
	if len(outer.Kids) > 0 {
		m.add(outer)
	}

	m.add(el("Segmentation", "multipleModelMethod", g.Str("selectFirst", "modelChain")).add(g.segment(el("True"), model)))

	return g.doc(reg, td, m)
}

// reader makes a model whose prediction shows the value of one derived field.
func (g *Gen) reader(name, typ string, values []string) *El {
	if typ == "double" && g.P(0.7) {
		return el("RegressionModel", "functionName", "regression").add(g.schema(),
			el("Output").add(el("OutputField", "name", "value", "optype", "continuous", "dataType", "double")),
			el("RegressionTable", "intercept", "0").add(el("NumericPredictor", "name", name, "coefficient", "1")))
	}

	if g.P(0.25) {
		// each category adds a number of its own
		t := el("RegressionTable", "intercept", "0")
		cats := append([]string{}, values...)

		switch typ {
		case "double":
			cats = []string{"-4", "-1.0", "0", "0.50", "1e0", "2", "3.000", "8.0", "250", "1e-1", "1e6", "1.5"}
		case "boolean":
			cats = []string{"true", "false"}
			if g.P(0.4) {
				cats = []string{"1", "0"}
			}
		}

		for i, v := range cats {
			t.add(el("CategoricalPredictor", "name", name, "value", v, "coefficient", fmt.Sprint(int64(1)<<uint(i%40))))
		}

		return el("RegressionModel", "functionName", "regression").add(g.schema(),
			el("Output").add(el("OutputField", "name", "value", "optype", "continuous", "dataType", "double")), t)
	}

	root := el("Node", "score", "otherwise").add(el("True"))
	root.add(el("Node", "score", "missing").add(el("SimplePredicate", "field", name, "operator", "isMissing")))

	switch typ {
	case "double":
		for _, t := range []float64{-4, -1, 0, 0.5, 1, 3, 8} {
			root.add(el("Node", "score", "below "+g.num(t)).add(el("SimplePredicate", "field", name, "operator", "lessThan", "value", g.num(t))))
		}
	default:
		for i, v := range values {
			root.add(el("Node", "score", fmt.Sprintf("value %d", i)).add(el("SimplePredicate", "field", name, "operator", "equal", "value", v)))
		}
	}

	return el("TreeModel", "functionName", "classification", "noTrueChildStrategy", "returnLastPrediction").add(g.schema(), root)
}

func (g *Gen) strings() []string {
	seen := map[string]bool{}

	var out []string

	for _, f := range g.fields {
		for _, v := range f.values {
			if !seen[v] {
				out = append(out, v)
			}

			seen[v] = true
		}
	}

	return out
}

// C06
func runExpressions(c *Ctx) {
	e := newExprGen(c.Rng)

	var ds []*El

	for i := e.Range(1, 4); i > 0; i-- {
		ds = append(ds, e.derive(fmt.Sprintf("derived %d", i)))
	}

	last := ds[len(ds)-1]

	if c.P(0.03) {
		// the package says so when it cannot evaluate an expression
		bad := []*El{
			el("Apply", "function", "+").add(e.constant()),
			el("Apply", "function", "-").add(e.constant(), e.constant(), e.constant()),
			el("Apply", "function", "median").add(e.constant(), e.constant()),
			el("Apply", "function", "isMissing"),
			el("Apply", "function", "if").add(e.cond(1)),
		}
		last.Kids = []*El{bad[c.Intn(len(bad))]}
	}

	typ := last.A("dataType")
	values := []string{"true", "false"}

	if typ == "string" {
		values = append(e.strings(), stringPool...)
	}

	mdl := e.reader(last.A("name"), typ, values)
	doc := e.place(mdl.A("functionName") == "regression", mdl, ds)

	m, ok := c.open(doc)
	if !ok {
		return
	}

	for i := 0; i < 10 && !c.cut; i++ {
		row := e.modestRow()

		// a derived field is computed, whatever the row calls by its name
		if c.P(0.15) {
			row[ds[c.Intn(len(ds))].A("name")] = e.value(e.fields[c.Intn(len(e.fields))])
			c.event("row_holds_a_derived_name")
		}

		decided, held := c.judge(doc, m, row)
		if decided && held {
			c.nontrivial(doc.String(), showRef(row))
			c.sample("%s\nrow %s", doc, showRef(row))
		}
	}
}

// C07
func runMapValues(c *Ctx) {
	g := newGen(c.Rng)
	g.miss = c.F(0, 0.2, 0.4)

	doc := g.mapDoc(c.event)

	m, ok := c.open(doc)
	if !ok {
		return
	}

	for i := 0; i < 10 && !c.cut; i++ {
		row := g.modestRow()

		decided, held := c.judge(doc, m, row)
		if decided && held {
			c.nontrivial(doc.String(), showRef(row))
			c.sample("%s\nrow %s", doc, showRef(row))
		}
	}
}

// mapDoc makes a document whose prediction shows what a MapValues yields.
func (g *Gen) mapDoc(event func(string)) *El {
	c := g.Rng
	g.need("string")

	if c.P(0.5) {
		g.fields = append(g.fields, Field{name: "second", typ: "string", values: []string{"red", "A", "b c", "1"}})
	}

	if c.P(0.12) {
		// pairs of keys which would be one when written next to each other
		s := c.Str("", "|", ",", " ", ":", "_", "-", ";", "/", ".", "#")
		for i, f := range g.fields {
			if f.typ == "string" {
				g.fields[i].values = []string{"a", s + "a", "a" + s, "a" + s + "a", "aa", "a" + s + s}
			}
		}
	} else if c.P(0.03) {
		for i, f := range g.fields {
			if f.typ == "string" {
				for j := 0; j < 60; j++ {
					g.fields[i].values = append(g.fields[i].values, fmt.Sprintf("k%d", j))
				}
			}
		}
	}

	var keys []Field

	for _, f := range g.fields {
		if f.typ == "string" || (f.typ == "boolean" && c.P(0.3)) || c.P(0.2) {
			keys = append(keys, f)
		}
	}

	// a key which is itself derived
	var before []*El

	if c.P(0.15) {
		f := keys[c.Intn(len(keys))]
		d := el("DerivedField", "name", "derived key", "optype", "categorical", "dataType", f.typ).add(el("FieldRef", "field", f.name))
		before = append(before, d)
		f.name = "derived key"
		keys = append(keys, f)
	}

	p := c.Perm(len(keys))
	k := c.Range(1, len(keys))

	if k > 3 {
		k = 3
	}

	numeric := c.P(0.4)
	outs := []string{"alpha", "beta", "gamma delta", "red", "<none>"}

	if numeric {
		outs = []string{"0", "1", "-2.5", "100", "0.125"}
	} else if c.P(0.4) {
		outs = append(outs, "", "")
	}

	outCol := c.Str("data:output", "output", "data:result", "out")
	mv := el("MapValues", "outputColumn", outCol)

	if numeric {
		mv.set("dataType", "double")
	} else if c.P(0.5) {
		mv.set("dataType", "string")
	}

	if c.P(0.5) || numeric {
		mv.set("defaultValue", c.Str(outs...))
	}

	if c.P(0.4) {
		mv.set("mapMissingTo", c.Str(outs...))
	}

	table := el("InlineTable")
	cols := []string{"data:input", "data:second", "third"}

	if k == 1 && c.P(0.5) {
		cols[0] = c.Str("input", "data:key")
	}

	for i := 0; i < k; i++ {
		mv.add(el("FieldColumnPair", "field", keys[p[i]].name, "column", cols[i]))
	}

	// rows with distinct keys
	seen := map[string]bool{}

	n := c.Range(0, 8)
	if c.P(0.05) {
		n = c.Range(10, 60)
	}

	if c.P(0.003) {
		n = c.Range(200, 1500)
	}

	for i := n; i > 0; i-- {
		row := el("row")
		key := ""

		for j := 0; j < k; j++ {
			f := keys[p[j]]
			lit := g.value(f)

			switch {
			case f.typ == "integer" && c.P(0.8):
				lit = vi(smallInts[c.Intn(len(smallInts))])
			case (f.typ == "double" || f.typ == "float") && c.P(0.9):
				lit = vf(c.F(modest...))
			}

			v := lit.String()
			key += v + "\x00"

			if lit.K == 'f' {
				v = g.num(lit.F)
			}

			// XML Schema's other spelling of a truth value
			if lit.K == 'b' && c.P(0.15) {
				v = map[bool]string{true: "1", false: "0"}[lit.B]
			}

			if lit.K == 'f' || lit.K == 'i' {
				event("numeric_key")
			}

			if f.name == "derived key" {
				event("derived_key")
			}

			cell := el(cols[j])
			cell.Text = v

			// a row without a cell for a key matches nothing
			if !c.P(0.03) {
				row.add(cell)
			}
		}

		if seen[key] {
			continue
		}

		seen[key] = true
		out := el(outCol)
		out.Text = outs[c.Intn(len(outs))]
		row.add(out)

		if c.P(0.3) {
			q := c.Perm(len(row.Kids))
			mixed := make([]*El, len(q))

			for a, b := range q {
				mixed[a] = row.Kids[b]
			}

			row.Kids = mixed
		}

		table.add(row)
	}

	mv.add(table)

	// the table's value also as an operand
	var inner *El = mv

	if c.P(0.3) {
		konst := el("Constant", "dataType", "double")
		konst.Text = "7"

		switch {
		case numeric && c.P(0.3):
			inner = el("Apply", "function", c.Str("+", "-", "*", "sum")).add(mv, konst)
		case numeric && c.P(0.4):
			inner = el("Apply", "function", "if").add(el("Apply", "function", c.Str("isMissing", "isNotMissing")).add(mv), konst, mv.clone())
		case numeric:
			inner = el("Apply", "function", "*", "mapMissingTo", "2.5").add(konst, mv)
		default:
			f := g.need("string")
			inner = el("Apply", "function", "if").add(el("Apply", "function", c.Str("isMissing", "isNotMissing")).add(mv), el("FieldRef", "field", f.name), mv.clone())
		}

		event("map_as_operand")
	}

	d := el("DerivedField", "name", "mapped", "optype", "categorical", "dataType", "string").add(inner)
	typ := "string"

	if numeric {
		d = el("DerivedField", "name", "mapped", "optype", "continuous", "dataType", "double").add(inner)
		typ = "double"
	}

	mdl := g.reader("mapped", typ, append(append([]string{}, outs...), append(g.strings(), "true", "false", "something else")...))
	doc := g.place(mdl.A("functionName") == "regression", mdl, append(before, d))

	// the data: prefix is declared where a document uses it
	doc.set("xmlns:data", "http://jpmml.org/jpmml-model/InlineTable")

	return doc
}
