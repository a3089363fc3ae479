package main

import (
	"fmt"
	"math"
	"strings"
)

type spot struct{ r, o int }

// records is a ModelVerification put into a document: what a reference
// evaluation predicts for rows of the generator.
type records struct {
	vf, table  *El
	rows, outs []Row
	outNames   []string
	cells      [][]*El
	spots      []spot
	prec, zero float64

	inCols, outCols []string
}

// hard adds a record that no prediction can meet: for inputs that cannot be
// evaluated, or for which nothing is predicted.
func (v *records) hard(c *Ctx, g *Gen, doc *El) string {
	ref := newRef(doc)

	for i := 0; i < 6; i++ {
		row := g.modestRow()

		for _, f := range g.fields {
			if c.P(0.5) {
				delete(row, f.name)
			}
		}

		out, err := ref.Eval(row)
		if _, ok := err.(outOfDomain); ok || err == nil && len(out) > 0 {
			continue
		}

		e := el("row")

		for i, f := range g.fields {
			if x := row[f.name]; x.K != 0 {
				cell := el("data:" + v.inCols[i])
				cell.Text = x.String()
				e.add(cell)
			}
		}

		if err != nil {
			c.event("record_of_an_error")
		} else {
			c.event("record_of_no_prediction")
		}

		for o := range v.outCols {
			if err == nil && o == 0 || c.P(0.5) {
				cell := el("data:" + v.outCols[o])
				cell.Text = c.Str("0", "1", "0.5", "red")
				e.add(cell)
			}
		}

		at := c.Intn(len(v.table.Kids) + 1)
		v.table.Kids = append(v.table.Kids[:at:at], append([]*El{e}, v.table.Kids[at:]...)...)

		return fmt.Sprintf("a record for which the reference has %v, %v", out, err)
	}

	return ""
}

// withRecords adds verification records to the outermost model of a document.
// It returns nil, and leaves the document alone, where nothing is predicted.
func withRecords(c *Rng, g *Gen, doc *El, event func(string)) *records {
	ref := newRef(doc)
	top := ref.model()
	var rows, outs []Row

	names := map[string]bool{}

	for i := 0; i < 8 && len(rows) < 4; i++ {
		row := g.modestRow()

		out, err := ref.Eval(row)
		if err != nil {
			continue
		}

		// subnormal numbers have no relative precision
		tiny := false
		for _, v := range out {
			tiny = tiny || v.K == 'f' && v.F != 0 && math.Abs(v.F) < 1e-280
		}

		if tiny {
			continue
		}

		rows = append(rows, row)
		outs = append(outs, out)

		for k := range out {
			names[k] = true
		}
	}

	if len(rows) == 0 || len(names) == 0 {
		event("nothing_to_verify")
		return nil
	}

	prec := c.F(1e-13, 1e-6, 1e-5, 1e-3, 0.01, 0, 0.3, 1, 2)
	zero := c.F(1e-16, 1e-13, 1e-6)

	mv := el("ModelVerification", "recordCount", fmt.Sprint(len(rows)))
	vf1 := el("VerificationFields")
	table := el("InlineTable")

	var inCols, outCols []string

	for i, f := range g.fields {
		col := fmt.Sprintf("in%d", i)
		inCols = append(inCols, col)
		vf1.add(el("VerificationField", "field", f.name, "column", "data:"+col))
	}

	var outNames []string

	for _, k := range sortedSet(names) {
		col := fmt.Sprintf("out%d", len(outNames))
		outCols = append(outCols, col)
		outNames = append(outNames, k)

		f := el("VerificationField", "field", k, "column", "data:"+col, "precision", g.num(prec))
		if c.P(0.7) {
			f.set("zeroThreshold", g.num(zero))
		}

		vf1.add(f)
	}

	var spots []spot

	cells := make([][]*El, len(rows))

	for r, row := range rows {
		e := el("row")

		for i, f := range g.fields {
			if v := row[f.name]; v.K != 0 {
				cell := el("data:" + inCols[i])
				cell.Text = v.String()
				e.add(cell)
			}
		}

		cells[r] = make([]*El, len(outNames))

		for o, k := range outNames {
			v, ok := outs[r][k]
			if !ok {
				continue
			}

			cell := el("data:" + outCols[o])
			cell.Text = v.String()
			cells[r][o] = cell
			e.add(cell)

			if n, isNum := v.num(); v.K == 'f' && isNum && math.Abs(n) > 1e-300 || v.K == 's' {
				spots = append(spots, spot{r, o})
			}
		}

		if c.P(0.3) {
			q := c.Perm(len(e.Kids))
			mixed := make([]*El, len(q))

			for a, b := range q {
				mixed[a] = e.Kids[b]
			}

			e.Kids = mixed
		}

		table.add(e)
	}

	mv.add(vf1, table)
	top.add(mv)
	doc.set("xmlns:data", "http://jpmml.org/jpmml-model/InlineTable")

	return &records{vf: vf1, table: table, rows: rows, outs: outs, outNames: outNames, cells: cells, spots: spots, prec: prec, zero: zero, inCols: inCols, outCols: outCols}
}

// aroundZero moves an expected value about, and lets zeroThreshold decide.
func (v *records) aroundZero(c *Ctx, tol float64) (want bool, said string) {
	if !c.P(0.3) {
		return true, ""
	}

	var at []spot

	for r := range v.rows {
		for o, k := range v.outNames {
			if out, ok := v.outs[r][k]; ok && out.K == 'f' && !math.IsInf(out.F, 0) && !math.IsNaN(out.F) && math.Abs(out.F) < 1e15 {
				at = append(at, spot{r, o})
			}
		}
	}

	if len(at) == 0 {
		return true, ""
	}

	s := at[c.Intn(len(at))]
	p := v.outs[s.r][v.outNames[s.o]].F

	var field *El

	for _, f := range v.vf.Kids {
		if f.A("field") == v.outNames[s.o] && f.A("precision") != "" {
			field = f
		}
	}

	zero := math.Abs(p) * c.F(1.5, 10, 1e4, 0.5, 0.01)
	if p == 0 {
		zero = c.F(1e-16, 1e-10, 0.01, 1, 100)
	}

	if math.Abs(p) < 1e-17 && c.P(0.4) {
		// what holds where none is given
		zero = 1e-16

		field.del("zeroThreshold")
		c.event("zero_by_default")
	} else {
		field.set("zeroThreshold", c.spell(zero))
	}

	e := zero * c.F(0.9, 0.5, 0.01, 0, 1.2, 3, 1e3)
	if c.P(0.5) {
		e = -e
	}

	v.cells[s.r][s.o].Text = Val{K: 'f', F: e}.String()

	near := math.Abs(e - p)

	switch {
	case math.Abs(e) <= zero && math.Abs(p) <= zero:
		want = true

		c.event("both_within_zero")
	case near > 1.2*tol*math.Abs(e):
		c.event("one_beyond_zero")
	case near < 0.8*tol*math.Abs(e):
		want = true

		c.event("beyond_zero_but_near")
	default:
		// too close to the tolerance: what is predicted will do
		v.cells[s.r][s.o].Text = Val{K: 'f', F: p}.String()
		want = true
	}

	return want, fmt.Sprintf("expected %g for %q, which is %g in record %d, zeroThreshold %g, tolerance %g", e, v.outNames[s.o], p, s.r, zero, tol)
}

func (c *Ctx) spell(f float64) string { return Val{K: 'f', F: f}.String() }

// C13: a document's own verification records decide acceptance.
func runVerify(c *Ctx) {
	g := newGen(c.Rng)
	g.need("double")
	g.miss = c.F(0, 0.3)

	doc := g.anyDoc()
	if c.P(0.3) {
		g.sprinkle(doc)
	}

	v := withRecords(c.Rng, g, doc, c.event)
	if v == nil {
		return
	}

	if c.P(0.02) {
		// many records, of which the others come first
		var more []*El

		for i := c.Range(50, 300); i > 0; i-- {
			more = append(more, v.table.Kids[c.Intn(len(v.table.Kids))].clone())
		}

		v.table.Kids = append(more, v.table.Kids...)
		c.event("many_records")
	}

	vf1, table, outs, outNames, cells, spots, zero := v.vf, v.table, v.outs, v.outNames, v.cells, v.spots, v.zero
	tol := math.Max(1e-5, v.prec)

	want, why := true, "exact"

	if c.P(0.12) {
		if said := v.hard(c, g, doc); said != "" {
			want, why = false, said
		}
	} else if w, said := v.aroundZero(c, tol); said != "" {
		want, why = w, said
	} else if len(spots) > 0 {
		s := spots[c.Intn(len(spots))]
		v := outs[s.r][outNames[s.o]]
		cell := cells[s.r][s.o]

		switch c.Intn(7) {
		case 0:
		case 1, 2:
			if v.K == 'f' {
				// within the tolerance
				d := c.F(0.1, 0.4, 0.8, -0.1, -0.4, -0.8) * tol
				if math.Abs(d) > 0.9*tol*math.Abs(1+d) {
					return
				}

				cell.Text = Val{K: 'f', F: v.F * (1 + d)}.String()
				why = fmt.Sprintf("output %q of record %d off by %g, tolerance %g", outNames[s.o], s.r, d, tol)
				c.event("within")
			}
		case 3, 4, 5:
			if v.K == 'f' {
				d := c.F(1.5, 3, 100, 1e4, -1.5, -3, -100) * tol
				if math.Abs(v.F*(1+d)) <= zero && math.Abs(v.F) <= zero {
					return
				}

				cell.Text = Val{K: 'f', F: v.F * (1 + d)}.String()

				// the tolerance is a fraction of the expected value
				e := math.Abs(v.F * (1 + d))
				if math.Abs(v.F*d) <= 1.2*tol*e {
					return
				}

				if tol >= 1 {
					c.event("beyond_coarse")
				}

				want = false
				why = fmt.Sprintf("output %q of record %d off by %g, tolerance %g", outNames[s.o], s.r, d, tol)
				c.event("beyond")

				if v.F < 0 {
					c.event("beyond_negative")
				}
			} else {
				label := cell.Text
				x, number := v.num()

				switch c.Intn(5) {
				case 0:
					cell.Text = otherCase(label)
				case 1:
					cell.Text = label + c.Str("s", "_", "0", label)
				case 2:
					cell.Text = firstRune(label)
				}

				if number {
					// the nearest label, which is no equal number
					cell.Text = "9" + label + "1"

					for _, k := range g.classes {
						if n, _ := (Val{K: 's', S: k}).num(); k != label && n != x {
							cell.Text = k
						}
					}

					c.event("numeric_label")
				} else if cell.Text == label {
					cell.Text = "another label"
				} else {
					c.event("similar_label")
				}

				want, why = false, "wrong label"
				c.event("wrong_label")
			}
		case 6:
			switch c.Intn(3) {
			case 0:
				// an output the model does not produce
				f := el("VerificationField", "field", "no such output", "column", "data:extra", "precision", "0.1")
				vf1.add(f)

				x := el("data:extra")
				x.Text = "0.5"
				table.Kids[len(table.Kids)-1].add(x)

				want, why = false, "output not produced"
			case 1:
				vf1.Kids[c.Intn(len(vf1.Kids))].set("column", "noprefix")
				want, why = false, "column without the data: prefix"
			case 2:
				cell.Text = "not-a-number-nor-label"
				want, why = false, "not the predicted value"
			}
		}
	} else {
		c.event("no_spot")
	}

	m, ok := c.open(doc)
	if !ok {
		return
	}

	c.eval()
	err := verify(m)

	if isPanic(err) || (err == nil) != want {
		c.note("document:\n%s", doc)
		c.fail("verification should %s (%s): %v", map[bool]string{true: "accept", false: "reject"}[want], why, err)

		return
	}

	c.event(map[bool]string{true: "accepted", false: "rejected"}[want])
	c.nontrivial(doc.String())
	c.sample("%s\n%s: %v", doc, why, err)

	// the outcome does not depend on how often one asks
	if again := verify(m); (again == nil) != (err == nil) {
		c.note("document:\n%s", doc)
		c.fail("verification gave %v, then %v", err, again)
	}
}

// otherCase is another label, unless there are no letters in it.
func otherCase(s string) string {
	if up := strings.ToUpper(s); up != s {
		return up
	}

	return strings.ToLower(s)
}

func firstRune(s string) string {
	for _, r := range s {
		return string(r)
	}

	return ""
}

func sortedSet(m map[string]bool) []string {
	r := Row{}
	for k := range m {
		r[k] = Val{}
	}

	return sortedKeys(r)
}
