package main

import (
	"encoding/xml"
	"fmt"
	"math"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"

	"github.com/flukeish/pmml/evaluation"
	"github.com/flukeish/pmml/models"
)

// The package under test, driven through its public API only. A panic is
// caught and returned as a *panicked error, which every monitor reports.

type panicked struct{ msg string }

func (p *panicked) Error() string { return "panic: " + p.msg }

func guard(err *error) {
	if r := recover(); r != nil {
		*err = &panicked{fmt.Sprintf("%v\n%s", r, debug.Stack())}
	}
}

func decodeDoc(text string) (doc *models.PMML, err error) {
	defer guard(&err)

	doc = new(models.PMML)
	err = xml.NewDecoder(strings.NewReader(text)).Decode(doc)

	return doc, err
}

func buildDoc(doc *models.PMML) (m evaluation.Model, err error) {
	defer guard(&err)

	if len(doc.Models) == 0 {
		return nil, fmt.Errorf("no model in the document")
	}

	return evaluation.NewModel(&doc.DataDictionary, &doc.TransformationDictionary, doc.Models[0])
}

func load(text string) (*models.PMML, evaluation.Model, error) {
	doc, err := decodeDoc(text)
	if err != nil {
		return nil, nil, err
	}

	m, err := buildDoc(doc)

	return doc, m, err
}

func evaluate(m evaluation.Model, row evaluation.DataRow) (out evaluation.DataRow, err error) {
	defer guard(&err)

	return m.Evaluate(row)
}

func verify(m evaluation.Model) (err error) {
	defer guard(&err)

	return m.Verify()
}

func isPanic(err error) bool {
	_, ok := err.(*panicked)
	return ok
}

// canon is the plain Go representation of a value.
func canon(v Val) evaluation.Value {
	switch v.K {
	case 'f':
		return evaluation.NewValue(v.F)
	case 'i':
		return evaluation.NewValue(v.I)
	case 's':
		return evaluation.NewValue(v.S)
	case 'b':
		return evaluation.NewValue(v.B)
	}

	return evaluation.NewValue(nil)
}

type named string

func (n named) String() string { return string(n) }

// reps lists Go representations which denote the same value for a field of
// the given type.
func reps(v Val, typ string) []interface{} {
	var out []interface{}

	integral := func(i int64) {
		out = append(out, i)

		if int64(int(i)) == i {
			out = append(out, int(i))
		}

		if int64(int32(i)) == i {
			out = append(out, int32(i))
		}

		if int64(int16(i)) == i {
			out = append(out, int16(i))
		}

		if int64(int8(i)) == i {
			out = append(out, int8(i))
		}

		if i >= 0 {
			out = append(out, uint64(i), uint(i))

			if int64(uint32(i)) == i {
				out = append(out, uint32(i))
			}

			if int64(uint16(i)) == i {
				out = append(out, uint16(i))
			}

			if int64(uint8(i)) == i {
				out = append(out, uint8(i))
			}
		}
	}

	switch v.K {
	case 'f':
		out = append(out, v.F, v.String())

		if float64(float32(v.F)) == v.F {
			out = append(out, float32(v.F))
		}

		// an integer has no negative zero
		if v.F == math.Trunc(v.F) && math.Abs(v.F) < 1<<63 && !(v.F == 0 && math.Signbit(v.F)) {
			integral(int64(v.F))
		}

		if v.F >= 1<<63 && v.F < 1<<64 {
			out = append(out, uint64(v.F), uint(v.F))
		}
	case 'i':
		integral(v.I)
		out = append(out, v.String())

		if f := float64(v.I); math.Abs(f) < 1<<62 && int64(f) == v.I {
			out = append(out, f)
		}

		if f := float32(v.I); math.Abs(float64(f)) < 1<<62 && int64(f) == v.I {
			out = append(out, f)
		}
	case 's':
		out = append(out, v.S)
	case 'b':
		out = append(out, v.B, v.String())
	}

	return out
}

// spellings are other strings for a number or a truth value.
func spellings(v Val) []interface{} {
	switch v.K {
	case 'f':
		out := []interface{}{strconv.FormatFloat(v.F, 'e', -1, 64), strconv.FormatFloat(v.F, 'E', -1, 64)}
		if s := strconv.FormatFloat(v.F, 'f', -1, 64); len(s) < 40 {
			out = append(out, s)

			if strings.Contains(s, ".") {
				out = append(out, s+"0")
			} else {
				out = append(out, s+".0", s+".")
			}

			if v.F > 0 {
				out = append(out, "+"+s, "0"+s)
			}
		}

		return out
	case 'i':
		s := v.String()
		out := []interface{}{s}

		if v.I > 0 {
			out = append(out, "+"+s, "0"+s)
		}

		if v.I > -(1<<53) && v.I < 1<<53 {
			out = append(out, s+".0", strconv.FormatFloat(float64(v.I), 'e', -1, 64))
		}

		return out
	case 'b':
		if v.B {
			return []interface{}{"1", "TRUE", "True"}
		}

		return []interface{}{"0", "FALSE", "False"}
	}

	return nil
}

// toRow converts a row; missing values are left out or put in as nil.
func toRow(r *Rng, row Row) evaluation.DataRow {
	out := evaluation.DataRow{}

	for _, k := range sortedKeys(row) {
		v := row[k]
		if v.K == 0 && (r == nil || r.P(0.6)) {
			continue
		}

		out[k] = canon(v)
	}

	return out
}

func sortedKeys(row Row) []string {
	ks := make([]string, 0, len(row))
	for k := range row {
		ks = append(ks, k)
	}

	sort.Strings(ks)

	return ks
}

func showRow(row evaluation.DataRow) string {
	if row == nil {
		return "(null prediction)"
	}

	ks := make([]string, 0, len(row))
	for k := range row {
		ks = append(ks, k)
	}

	sort.Strings(ks)

	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%s=%T:%v ", k, row[k].Raw(), row[k].Raw())
	}

	return "{" + strings.TrimSpace(b.String()) + "}"
}

func showRef(row Row) string {
	if row == nil {
		return "(null prediction)"
	}

	var b strings.Builder
	for _, k := range sortedKeys(row) {
		fmt.Fprintf(&b, "%s=%s ", k, row[k])
	}

	return "{" + strings.TrimSpace(b.String()) + "}"
}

func close1(a, b float64) bool {
	if a == b || (math.IsNaN(a) && math.IsNaN(b)) {
		return true
	}

	// nothing else is near an infinity
	if math.IsInf(a, 0) || math.IsInf(b, 0) {
		return false
	}

	d := math.Abs(a - b)

	return d <= 1e-12 || d <= 1e-9*math.Max(math.Abs(a), math.Abs(b))
}

func closeRelative(a, b float64) bool {
	return a == b || math.Abs(a-b) <= 1e-6*math.Abs(a) || math.Abs(a) < 1e-300
}

func isNumber(v evaluation.Value) bool {
	switch v.Raw().(type) {
	case float32, float64, int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:
		return true
	}

	return false
}

// diff compares an observed prediction with the expected one.
func diff(want Row, got evaluation.DataRow) string {
	if (want == nil) != (len(got) == 0) && (len(want) != 0 || len(got) != 0) {
		return fmt.Sprintf("expected %s, got %s", showRef(want), showRow(got))
	}

	for k, w := range want {
		g, ok := got[k]
		if !ok {
			return fmt.Sprintf("output %q is absent: expected %s, got %s", k, showRef(want), showRow(got))
		}

		switch w.K {
		case 'f', 'i':
			n, _ := w.num()
			if !isNumber(g) || !close1(n, g.Float64()) || w.R && !closeRelative(n, g.Float64()) {
				return fmt.Sprintf("output %q: expected %v, got %v (%s vs %s)", k, n, g.Raw(), showRef(want), showRow(got))
			}
		default:
			if w.String() != g.String() {
				return fmt.Sprintf("output %q: expected %v, got %v (%s vs %s)", k, w, g.Raw(), showRef(want), showRow(got))
			}
		}
	}

	for k := range got {
		if _, ok := want[k]; !ok {
			return fmt.Sprintf("unexpected output %q: expected %s, got %s", k, showRef(want), showRow(got))
		}
	}

	return ""
}

// exact is an exact rendering, for comparing runs with each other.
func exact(row evaluation.DataRow, err error) string {
	if err != nil {
		if isPanic(err) {
			return "panic"
		}

		return "error"
	}

	if row == nil {
		return "null"
	}

	ks := make([]string, 0, len(row))
	for k := range row {
		ks = append(ks, k)
	}

	sort.Strings(ks)

	var b strings.Builder

	for _, k := range ks {
		if isNumber(row[k]) {
			fmt.Fprintf(&b, "%q=%x;", k, math.Float64bits(row[k].Float64()))
		} else {
			fmt.Fprintf(&b, "%q=%q;", k, row[k].String())
		}
	}

	return b.String()
}
