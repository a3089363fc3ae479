package main

import (
	"fmt"
	"sort"

	"github.com/flukeish/pmml/evaluation"
)

// C26: what a row holds besides the fields of the model does not matter.
func runExtras(c *Ctx) {
	g, doc, _ := c.anyModel()

	if c.P(0.4) {
		r, other := c.rename(g, doc)
		r.under(g)

		doc = other
		c.event("odd_names")
	}

	text := doc.String()

	_, m, err := load(text)
	if err != nil {
		c.note("document:\n%s", text)
		c.fail("a valid document was refused: %v", err)

		return
	}

	used := map[string]bool{}
	doc.walk(func(e *El) {
		for _, a := range e.Attrs {
			used[a[1]] = true
		}
	})

	var said []string

	doc.walk(func(e *El) {
		for _, a := range fieldAttrs[e.Name] {
			if n := e.A(a); n != "" {
				said = append(said, n)
			}
		}
	})

	names := []string{"unrelated", "Row_id", "", " ", "prediction_", "wide", "0", "nil", "true", "None"}

	for _, f := range g.fields {
		names = append(names, f.name+" ", " "+f.name, f.name+"2", "data:"+f.name, f.name+".1", "x:"+f.name)

		if up := upper(f.name); up != f.name {
			names = append(names, up)
		}
	}

	for _, cl := range g.classes {
		names = append(names, cl, "probability("+cl+")!")
	}

	// names the document gives to results only
	results := map[string]bool{"score": true}
	for _, cl := range g.classes {
		results["probability("+cl+")"] = true
	}

	doc.walk(func(e *El) {
		if e.Name == "OutputField" {
			results[e.A("name")] = true
		}
	})

	doc.walk(func(e *El) {
		for _, a := range e.Attrs {
			if e.Name != "OutputField" && e.Name != "VerificationField" && e.Name != "Target" {
				delete(results, a[1])
			}
		}
	})

	var resultNames []string
	for n := range results {
		resultNames = append(resultNames, n)
	}

	sort.Strings(resultNames)

	// so do derived fields, which are computed
	var derived []string

	doc.walk(func(e *El) {
		if e.Name == "DerivedField" {
			derived = append(derived, e.A("name"))
		}
	})

	produced := stageOutputs(doc)

	// a later stage may read what an earlier one predicts for the target
	targetRead := false

	doc.walk(func(e *El) {
		switch e.Name {
		case "FieldRef", "SimplePredicate", "SimpleSetPredicate", "FieldColumnPair", "NumericPredictor", "CategoricalPredictor":
			targetRead = targetRead || e.A("field") == g.target || e.A("name") == g.target
		}
	})

	values := []interface{}{0.0, 1.0, -1e9, int64(3), 7, "red", "", "1", true, false, nil, float32(2.5), uint8(1)}

	for i := 0; i < 5 && !c.cut; i++ {
		row := toRow(c.Rng, g.modestRow())
		a, aerr := evaluate(m, copyRow(row))

		for j := 0; j < 3 && !c.cut; j++ {
			more := copyRow(row)
			n := 0

			for k := c.Range(1, 6); k > 0; k-- {
				name := names[c.Intn(len(names))]
				if c.P(0.4) {
					name = c.almost(said[c.Intn(len(said))])
				}

				if used[name] {
					continue
				}

				more[name] = evaluation.NewValue(values[c.Intn(len(values))])
				n++
			}

			// so are earlier predictions
			if len(resultNames) > 0 && c.P(0.4) {
				for k := c.Range(1, 2); k > 0; k-- {
					more[resultNames[c.Intn(len(resultNames))]] = evaluation.NewValue(values[c.Intn(len(values))])
				}

				c.event("result_in_row")
				n++
			}

			if len(derived) > 0 && c.P(0.4) {
				more[derived[c.Intn(len(derived))]] = evaluation.NewValue(values[c.Intn(len(values))])

				c.event("derived_in_row")
				n++
			}

			// so are the outputs of stages that always give them
			if len(produced) > 0 && c.P(0.5) {
				more[produced[c.Intn(len(produced))]] = evaluation.NewValue(values[c.Intn(len(values))])

				c.event("stage_output_in_row")
				n++
			}

			// the true outcome is often at hand, in records put by
			if !targetRead && c.P(0.5) {
				if c.P(0.5) {
					more[g.target] = evaluation.NewValue(g.classes[c.Intn(len(g.classes))])
				} else {
					more[g.target] = evaluation.NewValue(c.F(-3, 0, 1, 250))
				}

				c.event("target_in_row")
				n++
			}

			if n == 0 {
				continue
			}

			shown := showRow(more)
			b, berr := evaluate(m, more)
			c.eval()

			if exact(a, aerr) != exact(b, berr) {
				c.note("document:\n%s", text)
				c.note("row: %s", showRow(row))
				c.note("with more: %s", shown)
				c.fail("%s (%v) but %s (%v) with values the model does not use", showRow(a), aerr, showRow(b), berr)
			}

			c.events("extra_values", n)
			c.nontrivial(text, shown)
			c.sample("%s\nrow %s\nwith more %s", text, showRow(row), shown)
		}
	}
}

// stageOutputs are the outputs of regressions which, in a chain, always come
// before whatever reads them.
func stageOutputs(doc *El) []string {
	top := doc.All(modelNames...)[0]
	if top.Name != "MiningModel" || top.Kid("Segmentation").A("multipleModelMethod") != "modelChain" {
		return nil
	}

	segs := top.Kid("Segmentation").All("Segment")

	var out []string

	for i, s := range segs {
		m := s.Kid("RegressionModel")
		if s.Kid("True") == nil || m == nil || m.A("functionName") != "regression" {
			continue
		}

		name := m.Kid("Output").Kid("OutputField").A("name")

		// nothing else may have the name until then
		rest := doc.clone()
		tail := rest.All(modelNames...)[0].Kid("Segmentation")
		tail.Kids = nil

		for _, e := range segs[:i] {
			tail.add(e)
		}

		own := m.clone()
		own.Kids = without(own.Kids, "Output")
		tail.add(el("Segment").add(own))

		free := true

		rest.walk(func(e *El) {
			for _, a := range e.Attrs {
				free = free && a[1] != name
			}
		})

		if free {
			out = append(out, name)
		}
	}

	return out
}

func upper(s string) string {
	b := []rune(s)
	for i, r := range b {
		if r >= 'a' && r <= 'z' {
			b[i] = r - 32
		} else if r >= 'A' && r <= 'Z' {
			b[i] = r + 32
		}
	}

	return string(b)
}

// C27: the models of one document stand each for itself.
func runSeveral(c *Ctx) {
	g := newGen(c.Rng)
	g.need("double")
	g.miss = c.F(0, 0.3, 0.5)

	first := g.anyDoc()
	if c.P(0.4) {
		g.sprinkle(first)
	}

	kind := func(d *El) string {
		for _, f := range d.Kid("DataDictionary").All("DataField") {
			if f.A("name") == g.target {
				return f.A("optype")
			}
		}

		return ""
	}

	if c.P(0.4) {
		c.indirect(first, g.fields, 0.5)
	}

	if td := first.Kid("TransformationDictionary"); td != nil && c.P(0.5) {
		// which none of them uses
		for i := c.Range(1, 7); i > 0; i-- {
			td.add(el("DerivedField", "name", fmt.Sprintf("spare %d", i), "optype", "categorical", "dataType", "string").add(el("FieldRef", "field", g.fields[0].name)))
		}
	}

	ms := []*El{first.All(modelNames...)[0]}

	for i := c.Range(2, 6); i > 0; i-- {
		d := g.anyDoc()
		if c.P(0.4) {
			g.sprinkle(d)
		}

		if c.P(0.4) && d.Kid("TransformationDictionary") == nil {
			// fields of its own
			c.indirect(d.All(modelNames...)[0], g.fields, 0.5)
		}

		if kind(d) != kind(first) || d.Kid("TransformationDictionary") != nil {
			continue
		}

		ms = append(ms, d.All(modelNames...)[0])
	}

	if len(ms) < 2 {
		c.event("only_one_model")
		return
	}

	var base []*El

	for _, k := range first.Kids {
		// the later models may have brought fields of their own
		if k.Name == "DataDictionary" {
			k = g.dictionary(kind(first) == "continuous")
		}

		if k != ms[0] {
			base = append(base, k)
		}
	}

	// in any order: the dictionaries come first
	p := c.Perm(len(ms))
	order := make([]*El, len(ms))

	for i, j := range p {
		order[i] = ms[j]
	}

	if c.P(0.3) {
		// one of them twice
		order = append(order, order[0].clone())
	}

	all := &El{Name: first.Name, Attrs: first.Attrs, Kids: append(append([]*El{}, base...), order...)}

	// models may have the same name
	if c.P(0.5) {
		for _, m := range order {
			if g.ornament(m, c.F(0, 0.3, 0.9)) > 0 {
				c.event("ornamented_model")
			}
		}
	}

	text := all.String()

	doc, err := decodeDoc(text)
	if err != nil {
		c.note("document:\n%s", text)
		c.fail("a valid document was refused: %v", err)

		return
	}

	if len(doc.Models) != len(order) {
		c.note("document:\n%s", text)
		c.fail("the document has %d models, %d were decoded", len(order), len(doc.Models))

		return
	}

	var together, alone []evaluation.Model

	build := func(i int) (m evaluation.Model, err error) {
		defer guard(&err)
		return evaluation.NewModel(&doc.DataDictionary, &doc.TransformationDictionary, doc.Models[i])
	}

	together = make([]evaluation.Model, len(order))

	for _, i := range c.Perm(len(order)) {
		if together[i], err = build(i); err != nil {
			c.note("document:\n%s", text)
			c.fail("model %d of the document: %v", i, err)

			return
		}
	}

	for i := range order {
		single := &El{Name: first.Name, Attrs: first.Attrs, Kids: append(append([]*El{}, base...), order[i])}

		_, m, err := load(single.String())
		if err != nil {
			c.note("document:\n%s", single)
			c.fail("a valid document was refused: %v", err)

			return
		}

		alone = append(alone, m)
	}

	for i := 0; i < 12 && !c.cut; i++ {
		row := toRow(c.Rng, g.modestRow())
		k := c.Intn(len(order))
		a, aerr := evaluate(alone[k], copyRow(row))
		b, berr := evaluate(together[k], copyRow(row))
		c.eval()

		if exact(a, aerr) != exact(b, berr) {
			c.note("document:\n%s", text)
			c.note("row: %s", showRow(row))
			c.fail("model %d of the document gives %s (%v), on its own %s (%v)", k, showRow(b), berr, showRow(a), aerr)
		}

		c.event(fmt.Sprintf("model_%d_of_%d", k+1, len(order)))
		c.nontrivial(text, showRow(row), k)
	}

	c.sample("%d models:\n%s", len(order), text)

	c.strangers(g, first, base, order)
}

// strangers: a model that reads a name which only another one derives knows as
// little of it as it would alone.
func (c *Ctx) strangers(g *Gen, first *El, base, order []*El) {
	var names []string

	for _, m := range order {
		m.walk(func(e *El) {
			if e.Name == "LocalTransformations" {
				for _, d := range e.All("DerivedField") {
					names = append(names, d.A("name"))
				}
			}
		})
	}

	if len(names) == 0 {
		return
	}

	name := names[c.Intn(len(names))]
	if c.P(0.3) {
		name = c.almost(name)
	}

	var reader *El

	if c.P(0.5) {
		reader = el("RegressionModel", "functionName", "regression").add(el("MiningSchema"),
			el("Output").add(el("OutputField", "name", "value", "optype", "continuous", "dataType", "double")),
			el("RegressionTable", "intercept", "0").add(el("CategoricalPredictor", "name", name, "value", g.Str("1", "1.0", "true", "red"), "coefficient", "1")))

		if c.P(0.4) {
			reader.Kid("RegressionTable").add(el("NumericPredictor", "name", name, "coefficient", "1"))
		}
	} else {
		reader = el("TreeModel", "functionName", "classification").add(el("MiningSchema"),
			el("Node", "score", "no").add(el("True"), el("Node", "score", "yes").add(el("SimplePredicate", "field", name, "operator", "isNotMissing"))))
	}

	whole := &El{Name: first.Name, Attrs: first.Attrs, Kids: append(append(append([]*El{}, base...), order...), reader)}
	single := &El{Name: first.Name, Attrs: first.Attrs, Kids: append(append([]*El{}, base...), reader)}

	_, alone, aerr := load(single.String())

	doc, err := decodeDoc(whole.String())
	if err != nil {
		c.note("document:\n%s", whole)
		c.fail("a valid document was refused: %v", err)

		return
	}

	var last evaluation.Model

	for i := range doc.Models {
		mdl := doc.Models[i]

		err = call(func() (err error) {
			last, err = evaluation.NewModel(&doc.DataDictionary, &doc.TransformationDictionary, mdl)
			return err
		})

		if err == nil && i < len(order) {
			_, _ = evaluate(last, toRow(c.Rng, g.modestRow()))
		}
	}

	if (aerr == nil) != (err == nil) {
		c.note("document:\n%s", whole)
		c.fail("the last model of the document: %v, on its own: %v", err, aerr)

		return
	}

	if err != nil {
		c.event("stranger_refused")
		return
	}

	for i := 0; i < 3 && !c.cut; i++ {
		row := toRow(c.Rng, g.modestRow())
		a, aerr := evaluate(alone, copyRow(row))
		b, berr := evaluate(last, copyRow(row))
		c.eval()

		if exact(a, aerr) != exact(b, berr) {
			c.note("document:\n%s", whole)
			c.note("row: %s", showRow(row))
			c.fail("the last model of the document gives %s (%v), on its own %s (%v)", showRow(b), berr, showRow(a), aerr)
		}

		c.event("stranger_evaluated")
	}
}
