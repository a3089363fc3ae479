package main

import (
	"encoding/xml"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/flukeish/pmml/evaluation"
	"github.com/flukeish/pmml/models"
)

// act is something to ask of the package beside evaluating a valid document:
// the answer is the same whenever it is asked.
type act struct {
	what, text string
	do         func() string
}

var actKinds = []string{"element", "unsupported", "records", "array", "value", "steps", "lookup", "mutilated", "unbuilt", "cut", "odd_row"}

// cheap tells which of them are done in no time.
func cheap(kind string) bool {
	return kind == "element" || kind == "array" || kind == "value" || kind == "lookup" || kind == "unbuilt"
}

var ownDecodingNames []string

// ownDecoding are the types with a method for it.
func ownDecoding() []string {
	if ownDecodingNames == nil {
		for _, n := range fidNames {
			if _, ok := reflect.New(fidTypes[n].typ).Interface().(xml.Unmarshaler); ok {
				ownDecodingNames = append(ownDecodingNames, n)
			}
		}

		if ownDecodingNames == nil {
			ownDecodingNames = fidNames
		}
	}

	return ownDecodingNames
}

// outcome of an error: its text may well depend on what was looked at first.
func outcome(err error) string {
	switch {
	case err == nil:
		return "fine"
	case isPanic(err):
		return "panic"
	}

	return "error"
}

func answers(text string, rows []evaluation.DataRow) string {
	doc, m, err := load(text)
	if err != nil || doc == nil {
		return outcome(err)
	}

	s := outcome(verify(m))

	for _, row := range rows {
		out, err := evaluate(m, copyRow(row))
		s += " " + exact(out, err)
	}

	return s
}

// oddly is a row in other Go types, some of which denote no value of the field.
func oddly(g *Gen, row Row, hostile float64) evaluation.DataRow {
	in := toRow(g.Rng, row)

	for _, f := range g.fields {
		v, ok := row[f.name]

		switch {
		case g.P(hostile):
			in[f.name] = evaluation.NewValue(g.hostile())
		case ok && v.K != 0:
			if xs := append(reps(v, f.typ), spellings(v)...); len(xs) > 0 {
				in[f.name] = evaluation.NewValue(xs[g.Intn(len(xs))])
			}
		}
	}

	return in
}

func (c *Ctx) newAct(kind string) act {
	g := newGen(c.Rng)
	g.need("double")
	g.miss = c.F(0, 0.3)

	rows := func(hostile float64) (out []evaluation.DataRow) {
		for i := 0; i < 2; i++ {
			out = append(out, oddly(g, g.modestRow(), hostile))
		}

		return out
	}

	a := act{what: kind}

	switch kind {
	case "element":
		type one struct{ typ, text string }

		var all []one

		for i := 0; i < 5; i++ {
			f := &fidGen{Rng: c.Rng, budget: 20}
			typ := fidNames[c.Intn(len(fidNames))]

			if c.P(0.6) {
				typ = ownDecoding()[c.Intn(len(ownDecoding()))]
			}

			name := typ

			if typ == "NumArray" || typ == "ArrayType" || typ == "IntArray" || typ == "StringArray" {
				name = "Array"
			}

			all = append(all, one{typ, f.element(name, typ, c.Range(1, 4)).String()})
			a.text += all[i].text + "\n"
		}

		a.do = func() string {
			s := ""

			for _, e := range all {
				x := reflect.New(fidTypes[e.typ].typ)
				err := call(func() error { return xml.Unmarshal([]byte(e.text), x.Interface()) })
				s += outcome(err) + " " + dumpOf(x.Interface())
			}

			return s
		}
	case "unsupported":
		doc := g.anyDoc()
		if c.P(0.3) {
			// a field derived in a way it does not know
			top := doc.All(modelNames...)[0]

			lt := top.Kid("LocalTransformations")
			if lt == nil {
				lt = el("LocalTransformations")
				top.add(lt)
			}

			lt.add(el("DerivedField", "name", "unknown", "optype", "continuous", "dataType", "double").add(
				el(c.Str("NormContinuous", "NormDiscrete", "Discretize", "TextIndex", "Lag", "Aggregate"), "field", g.fields[0].name)))
		} else if c.P(0.4) {
			g.spoil(doc)
		} else if c.P(0.8) {
			g.breakDoc(doc)
		} else {
			// no model of a kind it knows
			doc.Kids = append(without(without(without(doc.Kids, "TreeModel"), "RegressionModel"), "MiningModel"),
				el(c.Str("Scorecard", "ClusteringModel", "NeuralNetwork"), "functionName", "regression").add(el("MiningSchema")))
		}

		a.text = doc.String()
		in := rows(0)
		a.do = func() string { return answers(a.text, in) }
	case "records":
		doc := g.anyDoc()
		if v := withRecords(c.Rng, g, doc, func(string) {}); v != nil {
			_ = v.hard(c, g, doc)

			if c.P(0.5) {
				for _, r := range v.table.Kids {
					for _, cell := range r.Kids {
						if c.P(0.1) {
							cell.Text = c.Str("17", "no number", "", cell.Text)
						}
					}
				}
			}
		}

		a.text = doc.String()
		a.do = func() string { return answers(a.text, nil) }
	case "array":
		var all []string

		for i := 0; i < 6; i++ {
			e := el("Array", "type", c.Str("string", "int", "real", "int", "real", "other"), "n", "3")
			e.Text = c.Str("1 2 3", `a "b c" d`, `"open`, `lone\`, "1.5 2e3 x", "", " 7 ", strings.Repeat("12 ", 50), "") + fmt.Sprint(c.Next()>>1)
			all = append(all, e.String())
		}

		a.text = strings.Join(all, "\n")
		a.do = func() (s string) {
			for _, text := range all {
				var at models.ArrayType

				err := call(func() error { return xml.Unmarshal([]byte(text), &at) })
				s += outcome(err)
				err = call(func() error { x, err := at.Strings(); s += fmt.Sprintf(" %q", x); return err })
				s += outcome(err)
				err = call(func() error { x, err := at.Int64s(); s += fmt.Sprint(x); return err })
				s += outcome(err)
				err = call(func() error { x, err := at.Float64s(); s += fmt.Sprint(x); return err })
				s += outcome(err)
			}

			return s
		}
	case "value":
		var vs []evaluation.Value

		for i := 0; i < 10; i++ {
			f := g.fields[c.Intn(len(g.fields))]
			xs := append(reps(g.value(f), f.typ), g.hostile(), fmt.Sprintf("%x", c.Next()))
			vs = append(vs, evaluation.NewValue(xs[c.Intn(len(xs))]))
		}

		a.do = func() (s string) {
			for _, v := range vs {
				s += outcome(call(func() error {
					s += fmt.Sprint(v.Float32(), v.Float64(), v.Int64(), v.Bool(), v.String())
					return nil
				}))
			}

			return s
		}
	case "steps":
		doc := g.anyDoc()
		if doc.All(modelNames...)[0].Name == "RegressionModel" && c.P(0.3) {
			doc.All(modelNames...)[0].set("normalizationMethod", c.Str("simplemax", "simplemax", "softmax", "exp", "probit"))
		}

		a.text = doc.String()
		in := rows(0.05)
		a.do = func() string {
			doc, err := decodeDoc(a.text)
			if err != nil {
				return outcome(err)
			}

			m, err := buildKind(doc)
			s := outcome(err)

			if err != nil {
				return s
			}

			s += outcome(call(m.Validate)) + outcome(call(m.Compile)) + outcome(call(m.Verify))

			for _, row := range in {
				p, err := prepare(doc, copyRow(row))
				s += " " + present(p, err)
				p, err = byHand(doc, copyRow(row))
				s += " " + present(p, err)

				if r, ok := m.(*evaluation.RegressionModel); ok {
					for _, f := range []func(evaluation.DataRow) (evaluation.DataRow, error){r.EvaluateRegression, r.EvaluateBinaryClassification, r.EvaluateMulticlassClassification} {
						var out evaluation.DataRow

						err := call(func() (err error) { out, err = f(copyRow(row)); return err })
						s += " " + exact(out, err)
					}
				}
			}

			return s
		}
	case "lookup":
		var names []string

		for i := 0; i < 20; i++ {
			names = append(names, c.Str(fidNames...), c.Str(modelNames...), fmt.Sprintf("x%x", c.Next()))
		}

		var fns []string
		for fn := range lookups {
			fns = append(fns, fn)
		}

		sort.Strings(fns)

		a.do = func() string {
			s := ""

			for _, fn := range fns {
				for _, name := range names {
					x, ok := lookups[fn].get(name)
					s += fmt.Sprintf("%s %T %v ", fn, x, ok)
				}
			}

			return s
		}
	case "mutilated":
		doc := g.anyDoc()
		for i := c.Range(1, 5); i > 0; i-- {
			g.mutate(doc)
		}

		a.text = doc.String()
		in := rows(0.2)
		a.do = func() string { return answers(a.text, in) }
	case "unbuilt":
		in := rows(0)[0]
		a.do = func() string {
			s := ""

			for _, m := range []evaluation.Model{new(evaluation.TreeModel), new(evaluation.MiningModel)} {
				_, err := evaluate(m, in)
				s += fmt.Sprint(err, " ")
			}

			return s
		}
	case "cut":
		text := g.anyDoc().String()
		a.text = text[:c.Range(1, len(text)-1)]
		a.do = func() string { return answers(a.text, nil) }
	case "odd_row":
		a.text = g.anyDoc().String()
		in := rows(0.3)
		a.do = func() string { return answers(a.text, in) }
	}

	return a
}
