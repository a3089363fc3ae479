package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

// The reference interpreter: PMML semantics over the generic XML tree, written
// from the documentation and sharing nothing with the package under test.

type Val struct {
	K byte // 0 missing, 'f' float, 'i' integer, 's' string, 'b' boolean
	F float64
	I int64
	S string
	B bool

	R bool // a small number is known relative to its size, too
}

func vf(f float64) Val { return Val{K: 'f', F: f} }
func vi(i int64) Val   { return Val{K: 'i', I: i} }
func vs(s string) Val  { return Val{K: 's', S: s} }
func vb(b bool) Val    { return Val{K: 'b', B: b} }

func (v Val) num() (float64, bool) {
	switch v.K {
	case 'f':
		return v.F, true
	case 'i':
		return float64(v.I), true
	case 's':
		f, err := strconv.ParseFloat(v.S, 64)
		return f, err == nil
	}

	return 0, false
}

func (v Val) String() string {
	switch v.K {
	case 'f':
		return strconv.FormatFloat(v.F, 'g', -1, 64)
	case 'i':
		return strconv.FormatInt(v.I, 10)
	case 's':
		return v.S
	case 'b':
		return strconv.FormatBool(v.B)
	}

	return "(missing)"
}

type Row map[string]Val

func (r Row) clone() Row {
	c := Row{}
	for k, v := range r {
		c[k] = v
	}

	return c
}

type tri byte

const (
	T tri = 'T'
	F tri = 'F'
	U tri = 'U'
)

// outOfDomain marks situations for which no semantics is claimed.
type outOfDomain string

func (e outOfDomain) Error() string { return "out of domain: " + string(e) }

// loud is an error the package is expected to report.
type loud string

func (e loud) Error() string { return string(e) }

type Ref struct {
	doc    *El
	types  map[string]string
	values map[string][]string
	td     []*El

	// fields whose value is the one of the row, not a computed one: these
	// compare exactly, the others are not decided next to a threshold
	raw map[string]bool

	// what the interpreter saw, for the evidence
	ev map[string]int
}

func newRef(doc *El) *Ref {
	r := &Ref{doc: doc, types: map[string]string{}, values: map[string][]string{}, ev: map[string]int{}}

	for _, f := range doc.Kid("DataDictionary").All("DataField") {
		n := f.A("name")
		r.types[n] = f.A("dataType")

		for _, v := range f.All("Value") {
			r.values[n] = append(r.values[n], v.A("value"))
		}
	}

	doc.walk(func(e *El) {
		if e.Name == "DerivedField" {
			r.types[e.A("name")] = e.A("dataType")
		}
	})

	r.td = doc.Kid("TransformationDictionary").All("DerivedField")

	return r
}

var modelNames = []string{"TreeModel", "MiningModel", "RegressionModel"}

func (r *Ref) model() *El {
	ms := r.doc.All(modelNames...)
	if len(ms) == 0 {
		return nil
	}

	return ms[0]
}

// Eval evaluates the document's model. A nil row is the null prediction.
func (r *Ref) Eval(row Row) (Row, error) {
	r.raw = map[string]bool{}
	for k := range row {
		r.raw[k] = true
	}

	return r.evalModel(r.model(), row.clone(), r.td)
}

// exact tells whether a field's value is compared as it was given.
func (r *Ref) exact(field string) bool { return r.raw[field] && r.types[field] == "double" }

func (r *Ref) prepare(m *El, row Row, td []*El) (Row, error) {
	row = row.clone()

	for _, f := range m.Kid("MiningSchema").All("MiningField") {
		if v, ok := f.Has("missingValueReplacement"); ok && row[f.A("name")].K == 0 {
			row[f.A("name")] = vs(v)
			r.ev["replaced"]++
		}
	}

	var todo []*El

	// an enclosing model has evaluated them for its segments
	if m == r.model() {
		todo = append(todo, td...)
	}

	todo = append(todo, m.Kid("LocalTransformations").All("DerivedField")...)

	for _, d := range todo {
		v, err := r.expr(expressionOf(d), row)
		if err != nil {
			return nil, err
		}

		if d.A("optype") == "continuous" && v.K != 0 {
			n, ok := v.num()
			if !ok {
				return nil, outOfDomain("continuous derived field from a non-number")
			}

			v = vf(n)
		}

		if v.K == 0 {
			r.ev["derived_missing"]++
		} else {
			r.ev["derived"]++
		}

		row[d.A("name")] = v
		delete(r.raw, d.A("name"))
	}

	return row, nil
}

func (r *Ref) evalModel(m *El, row Row, td []*El) (Row, error) {
	row, err := r.prepare(m, row, td)
	if err != nil {
		return nil, err
	}

	switch m.Name {
	case "TreeModel":
		return r.tree(m, row)
	case "RegressionModel":
		return r.regression(m, row)
	case "MiningModel":
		return r.mining(m, row, append(append([]*El{}, td...), m.Kid("LocalTransformations").All("DerivedField")...))
	}

	return nil, loud("unsupported model " + m.Name)
}

// ---- expressions

var expressionNames = []string{"FieldRef", "Constant", "Apply", "MapValues"}

func expressionOf(d *El) *El {
	es := d.All(expressionNames...)
	if len(es) == 0 {
		return &El{Name: "(none)"}
	}

	return es[0]
}

func (r *Ref) expr(e *El, row Row) (Val, error) {
	r.ev["expr_"+e.Name]++

	switch e.Name {
	case "FieldRef":
		v := row[e.A("field")]
		if m, ok := e.Has("mapMissingTo"); ok && v.K == 0 {
			r.ev["mapMissingTo"]++
			return vs(m), nil
		}

		return v, nil
	case "Constant":
		if e.A("dataType") != "double" {
			return Val{}, loud("unsupported constant type")
		}

		f, err := strconv.ParseFloat(strings.TrimSpace(e.Text), 64)
		if err != nil {
			return Val{}, loud(err.Error())
		}

		return vf(f), nil
	case "Apply":
		return r.apply(e, row)
	case "MapValues":
		return r.mapValues(e, row)
	}

	return Val{}, loud("unsupported expression " + e.Name)
}

func (r *Ref) apply(e *El, row Row) (Val, error) {
	fn := e.A("function")
	args := e.All(expressionNames...)
	vals := make([]Val, len(args))
	errs := make([]error, len(args))

	for i, a := range args {
		vals[i], errs[i] = r.expr(a, row)
	}

	m, mapped := e.Has("mapMissingTo")

	for i, err := range errs {
		if err == nil {
			continue
		}

		if mapped {
			// an operand that is missing decides the result, and it may come first
			for j := range vals {
				if errs[j] == nil && vals[j].K == 0 || fn == "if" && i > 0 {
					return Val{}, outOfDomain("mapMissingTo with an operand that fails")
				}
			}
		}

		if fn != "if" || mapped {
			return Val{}, err
		}
	}

	if mapped {
		for i := range vals {
			if vals[i].K == 0 {
				r.ev["mapMissingTo"]++
				return vs(m), nil
			}
		}
	}

	v, err := r.function(fn, vals, errs)
	if err != nil {
		return Val{}, err
	}

	if d, ok := e.Has("defaultValue"); ok && v.K == 0 {
		r.ev["apply_default"]++
		return vs(d), nil
	}

	return v, nil
}

func (r *Ref) function(fn string, vals []Val, errs []error) (Val, error) {
	r.ev["fn_"+fn]++

	nums := make([]float64, len(vals))

	number := func() error {
		for i, v := range vals {
			if v.K == 0 {
				continue
			}

			n, ok := v.num()
			if !ok {
				return outOfDomain("arithmetic on " + v.String())
			}

			nums[i] = n
		}

		return nil
	}

	switch fn {
	case "+", "-", "*", "/":
		if len(vals) != 2 {
			return Val{}, loud("arity of " + fn)
		}

		if vals[0].K == 0 || vals[1].K == 0 {
			r.ev["arith_missing"]++
			return Val{}, nil
		}

		if err := number(); err != nil {
			return Val{}, err
		}

		switch fn {
		case "+":
			return vf(nums[0] + nums[1]), nil
		case "-":
			return vf(nums[0] - nums[1]), nil
		case "*":
			return vf(nums[0] * nums[1]), nil
		}

		if nums[1] == 0 {
			return Val{}, outOfDomain("division by zero")
		}

		return vf(nums[0] / nums[1]), nil
	case "sum":
		if err := number(); err != nil {
			return Val{}, err
		}

		s, n := 0.0, 0

		for i, v := range vals {
			if v.K != 0 {
				s += nums[i]
				n++
			}
		}

		if n == 0 {
			return Val{}, nil
		}

		return vf(s), nil
	case "isMissing", "isNotMissing":
		if len(vals) != 1 {
			return Val{}, loud("arity of " + fn)
		}

		return vb((vals[0].K == 0) == (fn == "isMissing")), nil
	case "if":
		if len(vals) != 3 {
			return Val{}, loud("arity of if")
		}

		if errs[0] != nil {
			return Val{}, errs[0]
		}

		var cond bool

		switch vals[0].K {
		case 0:
			r.ev["if_missing_condition"]++
			return Val{}, nil
		case 'b':
			cond = vals[0].B
		case 's':
			b, err := strconv.ParseBool(vals[0].S)
			if err != nil {
				return Val{}, outOfDomain("if condition")
			}

			cond = b
		default:
			return Val{}, outOfDomain("if condition")
		}

		if cond {
			r.ev["if_then"]++
			return vals[1], errs[1]
		}

		r.ev["if_else"]++

		return vals[2], errs[2]
	}

	return Val{}, loud("unsupported function " + fn)
}

// cell finds a column in a row of an inline table: prefixes do not count.
func cell(row *El, column string) *El {
	for _, k := range row.Kids {
		if local(k.Name) == local(column) {
			return k
		}
	}

	return nil
}

func (r *Ref) mapValues(e *El, row Row) (Val, error) {
	pairs := e.All("FieldColumnPair")
	missing := false

	for _, p := range pairs {
		if row[p.A("field")].K == 0 {
			missing = true
		}
	}

	if missing {
		r.ev["map_missing"]++

		if m, ok := e.Has("mapMissingTo"); ok {
			return vs(m), nil
		}

		if _, ok := e.Has("defaultValue"); ok {
			r.ev["missing_key_with_default"]++
		}

		return Val{}, nil
	}

	var hits []string

	if !missing {
		for _, rowEl := range e.Kid("InlineTable").All("row") {
			match := len(pairs) > 0

			for _, p := range pairs {
				c := cell(rowEl, p.A("column"))
				if c == nil {
					match = false
					continue
				}

				eq, err := same(r.types[p.A("field")], row[p.A("field")], c.Text, r.exact(p.A("field")))
				if err != nil {
					return Val{}, err
				}

				match = match && eq
			}

			if out := cell(rowEl, e.A("outputColumn")); match && out != nil {
				hits = append(hits, out.Text)
			}
		}
	}

	if len(hits) > 0 {
		for _, h := range hits {
			if h != hits[0] {
				return Val{}, outOfDomain("ambiguous mapping")
			}
		}

		r.ev["map_hit"]++

		return vs(hits[0]), nil
	}

	if d, ok := e.Has("defaultValue"); ok {
		r.ev["map_default"]++

		switch e.A("dataType") {
		case "", "string":
			return vs(d), nil
		case "double", "float":
			f, err := strconv.ParseFloat(d, 64)
			if err != nil {
				return Val{}, loud(err.Error())
			}

			return vf(f), nil
		case "integer":
			i, err := strconv.ParseInt(d, 10, 64)
			if err != nil {
				return Val{}, loud(err.Error())
			}

			return vi(i), nil
		case "boolean":
			b, err := strconv.ParseBool(d)
			if err != nil {
				return Val{}, loud(err.Error())
			}

			return vb(b), nil
		}

		return Val{}, loud("unsupported data type")
	}

	if len(pairs) == 1 {
		r.ev["map_self"]++
		return row[pairs[0].A("field")], nil
	}

	return Val{}, nil
}

// ---- predicates

var predicateNames = []string{"True", "False", "SimplePredicate", "SimpleSetPredicate", "CompoundPredicate"}

func predicateOf(e *El) *El {
	ps := e.All(predicateNames...)
	if len(ps) == 0 {
		return nil
	}

	return ps[0]
}

// same compares a value with a literal in the declared type of the field.
func same(typ string, v Val, lit string, exact bool) (bool, error) {
	switch typ {
	case "double", "float":
		n, ok := v.num()
		l, err := strconv.ParseFloat(lit, 64)

		if !ok || err != nil {
			return false, outOfDomain("not a number")
		}

		if n != l && !exact && close1(n, l) {
			return false, outOfDomain("too close to the literal")
		}

		return n == l, nil
	case "integer":
		i, err := asInt(v)
		if err != nil {
			return false, err
		}

		l, err := strconv.ParseInt(lit, 10, 64)
		if err != nil {
			return false, outOfDomain("literal")
		}

		return i == l, nil
	case "boolean":
		l, err := strconv.ParseBool(lit)
		if err != nil {
			return false, outOfDomain("literal")
		}

		b, err := strconv.ParseBool(v.String())
		if err != nil {
			return false, outOfDomain("not a boolean")
		}

		return b == l, nil
	case "string":
		return v.String() == lit, nil
	}

	return false, outOfDomain("type " + typ)
}

func asInt(v Val) (int64, error) {
	switch v.K {
	case 'i':
		return v.I, nil
	case 'f':
		if v.F == math.Trunc(v.F) && math.Abs(v.F) < 1<<62 {
			return int64(v.F), nil
		}
	case 's':
		i, err := strconv.ParseInt(v.S, 10, 64)
		if err == nil {
			return i, nil
		}
	}

	return 0, outOfDomain("not an integer: " + v.String())
}

func (r *Ref) pred(p *El, row Row) (tri, error) {
	v, err := r.pred1(p, row)
	if err == nil {
		r.ev["pred_"+p.Name+"_"+string(v)]++
	}

	return v, err
}

func btri(b bool) tri {
	if b {
		return T
	}

	return F
}

func (r *Ref) pred1(p *El, row Row) (tri, error) {
	switch p.Name {
	case "True":
		return T, nil
	case "False":
		return F, nil
	case "SimplePredicate":
		field, op := p.A("field"), p.A("operator")
		v := row[field]

		switch op {
		case "isMissing":
			return btri(v.K == 0), nil
		case "isNotMissing":
			return btri(v.K != 0), nil
		}

		if v.K == 0 {
			return U, nil
		}

		typ := r.types[field]

		switch op {
		case "equal", "notEqual":
			eq, err := same(typ, v, p.A("value"), r.exact(field))
			return btri(eq == (op == "equal")), err
		}

		var cmp int

		switch typ {
		case "double", "float":
			n, ok := v.num()
			l, err := strconv.ParseFloat(p.A("value"), 64)

			if !ok || err != nil || math.IsNaN(n) || math.IsNaN(l) {
				return F, outOfDomain("ordering")
			}

			if n != l && !r.exact(field) && math.Abs(n-l) <= 1e-9*math.Max(math.Abs(n), math.Abs(l)) {
				return F, outOfDomain("too close to the threshold")
			}

			switch {
			case n < l:
				cmp = -1
			case n > l:
				cmp = 1
			}
		case "integer":
			i, err := asInt(v)
			if err != nil {
				return F, err
			}

			l, err := strconv.ParseInt(p.A("value"), 10, 64)
			if err != nil {
				return F, outOfDomain("literal")
			}

			switch {
			case i < l:
				cmp = -1
			case i > l:
				cmp = 1
			}
		default:
			return F, outOfDomain("ordering on " + typ)
		}

		if cmp == 0 {
			r.ev["boundary"]++
		}

		switch op {
		case "lessThan":
			return btri(cmp < 0), nil
		case "lessOrEqual":
			return btri(cmp <= 0), nil
		case "greaterThan":
			return btri(cmp > 0), nil
		case "greaterOrEqual":
			return btri(cmp >= 0), nil
		}

		return F, outOfDomain("operator " + op)
	case "SimpleSetPredicate":
		v := row[p.A("field")]
		if v.K == 0 {
			return U, nil
		}

		in := false

		for _, lit := range refSplit(p.Kid("Array").Text) {
			eq, err := same(r.types[p.A("field")], v, lit, r.exact(p.A("field")))
			if err != nil {
				return F, err
			}

			in = in || eq
		}

		return btri(in == (p.A("booleanOperator") == "isIn")), nil
	case "CompoundPredicate":
		var vals []tri

		n := map[tri]int{}

		for _, k := range p.All(predicateNames...) {
			v, err := r.pred(k, row)
			if err != nil {
				return F, err
			}

			vals = append(vals, v)
			n[v]++
		}

		op := p.A("booleanOperator")
		r.ev["compound_"+op]++

		switch op {
		case "and":
			switch {
			case n[F] > 0:
				return F, nil
			case n[U] > 0:
				return U, nil
			}

			return T, nil
		case "or":
			switch {
			case n[T] > 0:
				return T, nil
			case n[U] > 0:
				return U, nil
			}

			return F, nil
		case "xor":
			if n[U] > 0 {
				return U, nil
			}

			return btri(n[T]%2 == 1), nil
		case "surrogate":
			for _, v := range vals {
				if v != U {
					return v, nil
				}
			}

			return U, nil
		}
	}

	return F, outOfDomain("predicate " + p.Name)
}

// refSplit reads array content: white space separates, double quotes group,
// a backslash takes the next character literally.
func refSplit(s string) []string {
	var out []string

	rs := []rune(s)

	for i := 0; i < len(rs); {
		if strings.ContainsRune(" \t\r\n", rs[i]) {
			i++
			continue
		}

		tok, q := "", false

		for i < len(rs) && (q || !strings.ContainsRune(" \t\r\n", rs[i])) {
			switch {
			case rs[i] == '\\' && i+1 < len(rs):
				i++
				tok += string(rs[i])
			case rs[i] == '"':
				q = !q
			default:
				tok += string(rs[i])
			}

			i++
		}

		out = append(out, tok)
	}

	return out
}

// ---- trees

type entry struct {
	label string
	p     float64
	n     float64
	score bool // the node's score attribute names this class
}

type treeRef struct {
	r      *Ref
	m      *El
	row    Row
	target string
	reg    bool
}

func nodePred(n *El) *El { return predicateOf(n) }

func kids(n *El) []*El { return n.All("Node") }

func atof(s string) float64 {
	f, _ := strconv.ParseFloat(s, 64)
	return f
}

func targetOf(m *El) string {
	t := ""

	for _, f := range m.Kid("MiningSchema").All("MiningField") {
		if f.A("usageType") == "target" {
			t = f.A("name")
		}
	}

	return t
}

func (r *Ref) tree(m *El, row Row) (Row, error) {
	t := &treeRef{r: r, m: m, row: row, target: targetOf(m), reg: m.A("functionName") == "regression"}
	root := m.Kid("Node")

	v, err := r.pred(nodePred(root), row)
	if err != nil {
		return nil, err
	}

	strategy := m.A("missingValueStrategy")
	if strategy == "" {
		strategy = "none"
	}

	if v == F || (v == U && strategy != "weightedConfidence" && strategy != "aggregateNodes" && strategy != "lastPrediction") {
		r.ev["tree_null"]++
		return nil, nil
	}

	if v == U {
		// an unknown root gives no prediction whatever the strategy
		r.ev["tree_null"]++
		return nil, nil
	}

	dist, err := t.descend(root, strategy)
	if err != nil {
		return nil, err
	}

	if len(dist) == 0 {
		r.ev["tree_null"]++
		return nil, nil
	}

	out := Row{}

	if t.reg {
		if len(dist) > 1 {
			for _, e := range dist {
				if e.label != dist[0].label && atof(e.label) == atof(dist[0].label) {
					return nil, outOfDomain("one score in two spellings")
				}
			}

			r.ev["several_scores"]++

			return nil, loud("several scores")
		}

		f, err := strconv.ParseFloat(dist[0].label, 64)
		if err != nil {
			return nil, loud(err.Error())
		}

		out["score"] = vf(f)

		if t.target != "" {
			out[t.target] = vf(f)
		}

		return out, nil
	}

	best, near, scored := 0, false, false

	for i, e := range dist {
		if math.IsNaN(e.p) || math.IsInf(e.p, 0) {
			return nil, outOfDomain("no records")
		}

		out["probability("+e.label+")"] = vf(e.p)

		if e.p > dist[best].p && !scored {
			best = i
		}

		if e.score {
			best, scored = i, true
		}
	}

	for i, e := range dist {
		if scored {
			if e.p > dist[best].p {
				r.ev["score_is_not_the_most_probable"]++
			}

			continue
		}

		if i != best && e.p != dist[best].p && math.Abs(e.p-dist[best].p) <= 1e-9 {
			near = true
		}

		if i != best && e.p == dist[best].p {
			r.ev["tie"]++

			if strategy == "weightedConfidence" || strategy == "aggregateNodes" {
				near = true
			}
		}
	}

	if near {
		return nil, outOfDomain("near tie")
	}

	if dist[best].p <= 0 && !scored {
		t.r.ev["all_probabilities_zero"]++
	}

	if t.target != "" {
		out[t.target] = vs(dist[best].label)
	}

	return out, nil
}

func (t *treeRef) own(n *El) []entry {
	if t.reg {
		return []entry{{label: n.A("score")}}
	}

	var out []entry

	sds := n.All("ScoreDistribution")
	if len(sds) > 0 {
		total := 0.0
		for _, s := range sds {
			total += atof(s.A("recordCount"))
		}

		for _, s := range sds {
			e := entry{label: s.A("value"), n: atof(s.A("recordCount")), p: atof(s.A("recordCount")) / total}
			if p, ok := s.Has("probability"); ok {
				e.p = atof(p)
			}

			if score := n.A("score"); score != "" && score == e.label {
				e.score = true
				t.r.ev["score_among_distribution"]++
			}

			out = append(out, e)
		}

		t.r.ev["dist"]++

		// the score is the class also when the distribution lacks it
		if score := n.A("score"); score != "" {
			listed := false
			for _, e := range out {
				listed = listed || e.label == score
			}

			if !listed {
				t.r.ev["score_beside_distribution"]++

				out = append(out, entry{label: score, score: true})
			}
		}

		return out
	}

	score, has := n.Has("score")
	if !has || score == "" {
		return nil
	}

	found := false

	if t.target != "" {
		for _, v := range t.r.values[t.target] {
			e := entry{label: v}
			if v == score {
				e.p, e.n, e.score, found = 1, atof(n.A("recordCount")), true, true
			}

			out = append(out, e)
		}
	}

	if !found {
		out = append(out, entry{label: score, p: 1, n: atof(n.A("recordCount")), score: true})
	}

	t.r.ev["onehot"]++

	return out
}

// stop is the result at a node none of whose children is taken.
func (t *treeRef) stop(n *El) []entry {
	if len(kids(n)) == 0 {
		t.r.ev["leaf"]++
		return t.own(n)
	}

	if t.m.A("noTrueChildStrategy") == "returnLastPrediction" {
		t.r.ev["no_true_child_last"]++
		return t.own(n)
	}

	t.r.ev["no_true_child_null"]++

	return nil
}

func (t *treeRef) descend(n *El, strategy string) ([]entry, error) {
	cs := kids(n)
	vals := make([]tri, len(cs))

	for i, c := range cs {
		v, err := t.r.pred(nodePred(c), t.row)
		if err != nil {
			return nil, err
		}

		vals[i] = v
	}

	t.r.ev["node"]++

	for i, c := range cs {
		if vals[i] == F {
			continue
		}

		if vals[i] == T {
			return t.descend(c, strategy)
		}

		t.r.ev["unknown_"+strategy]++

		switch strategy {
		case "none":
			continue
		case "nullPrediction":
			return nil, nil
		case "lastPrediction":
			return t.own(n), nil
		case "defaultChild":
			for _, d := range cs {
				if id, ok := d.Has("id"); ok && id != "" && id == n.A("defaultChild") {
					sub, err := t.descend(d, strategy)
					if err != nil {
						return nil, err
					}

					penalty := 1.0
					if s, ok := t.m.Has("missingValuePenalty"); ok {
						penalty = atof(s)
					}

					out := append([]entry{}, sub...)
					for j := range out {
						out[j].p *= penalty
					}

					t.r.ev["default_child"]++

					return out, nil
				}
			}

			t.r.ev["no_default_child"]++

			return nil, nil
		case "weightedConfidence", "aggregateNodes":
			return t.combine(cs, vals, strategy)
		}

		return nil, outOfDomain("strategy " + strategy)
	}

	return t.stop(n), nil
}

func (t *treeRef) combine(cs []*El, vals []tri, strategy string) ([]entry, error) {
	var out []entry

	at := func(label string) *entry {
		for i := range out {
			if out[i].label == label {
				return &out[i]
			}
		}

		out = append(out, entry{label: label})

		return &out[len(out)-1]
	}

	total := 0.0

	for i, c := range cs {
		if vals[i] != F {
			total += atof(c.A("recordCount"))
		}
	}

	sum := 0.0

	for i, c := range cs {
		if vals[i] == F {
			continue
		}

		sub, err := t.descend(c, strategy)
		if err != nil {
			return nil, err
		}

		t.r.ev["combined_"+string(vals[i])]++

		if t.reg && len(sub) == 0 {
			return nil, outOfDomain("regression tree, combination with nothing")
		}

		for _, s := range sub {
			e := at(s.label)
			e.n += s.n
			sum += s.n

			if strategy == "weightedConfidence" && !t.reg {
				if total == 0 {
					return nil, outOfDomain("no records")
				}

				e.p += s.p * atof(c.A("recordCount")) / total
			}
		}
	}

	if strategy == "aggregateNodes" && !t.reg {
		if sum == 0 && len(out) > 0 {
			return nil, outOfDomain("no records")
		}

		for i := range out {
			out[i].p = out[i].n / sum
		}
	}

	return out, nil
}

// ---- regression

func link(method string, y float64) (float64, error) {
	switch method {
	case "", "none":
		return y, nil
	case "logit", "softmax":
		return 1 / (1 + math.Exp(-y)), nil
	case "exp":
		return math.Exp(y), nil
	case "cloglog":
		return 1 - math.Exp(-math.Exp(y)), nil
	case "cauchit":
		return 0.5 + math.Atan(y)/math.Pi, nil
	}

	return 0, loud("unsupported normalization " + method)
}

func (r *Ref) table(t *El, row Row) (float64, error) {
	y := atof(t.A("intercept"))
	size := math.Abs(y)

	value := func(field string) (float64, error) {
		v := row[field]
		if v.K == 0 {
			return 0, loud("missing term " + field)
		}

		n, ok := v.num()
		if !ok {
			return 0, outOfDomain("non-numeric term")
		}

		return n, nil
	}

	// errors first: any absent numeric term makes the prediction fail
	var bad error

	for _, p := range t.All("NumericPredictor") {
		v, err := value(p.A("name"))
		if err != nil {
			bad = err
			continue
		}

		e := 1.0
		if s, ok := p.Has("exponent"); ok {
			e = atof(s)
		}

		y += atof(p.A("coefficient")) * math.Pow(v, e)
		size += math.Abs(atof(p.A("coefficient")) * math.Pow(v, e))
	}

	for _, p := range t.All("CategoricalPredictor") {
		v := row[p.A("name")]
		if v.K == 0 {
			r.ev["category_missing"]++
			continue
		}

		eq, err := same(r.types[p.A("name")], v, p.A("value"), r.exact(p.A("name")))
		if err != nil {
			return 0, err
		}

		if eq {
			r.ev["category_hit"]++
			y += atof(p.A("coefficient"))
		}
	}

	for _, p := range t.All("PredictorTerm") {
		prod := atof(p.A("coefficient"))

		for _, f := range p.All("FieldRef") {
			v, err := value(f.A("field"))
			if err != nil {
				bad = err
				continue
			}

			prod *= v
		}

		y += prod
		size += math.Abs(prod)
	}

	// so large that cancellation hides what the order of the terms does
	alone := len(r.model().All("RegressionTable")) == 1 && r.model().A("functionName") == "regression"
	if bad == nil && !(size < 1e7) && !(alone && !math.IsInf(size, 0) && math.Abs(y) > 1e-2*size) {
		return 0, outOfDomain("ill-conditioned score")
	}

	return y, bad
}

func (r *Ref) regression(m *El, row Row) (Row, error) {
	tables := m.All("RegressionTable")
	outputs := m.Kid("Output").All("OutputField")
	method := m.A("normalizationMethod")
	ys := make([]float64, len(tables))

	classify := m.A("functionName") == "classification"

	for i, t := range tables {
		// the remaining category of a binary model has no score of its own
		if classify && len(tables) == 2 && i == 1 && method != "softmax" && method != "simplemax" {
			continue
		}

		y, err := r.table(t, row)
		if err != nil {
			return nil, err
		}

		ys[i] = y
	}

	out := Row{}

	switch m.A("functionName") {
	case "regression":
		if len(tables) != 1 || len(outputs) != 1 {
			return nil, loud("one table and one output")
		}

		p, err := link(method, ys[0])
		if err != nil {
			return nil, err
		}

		if math.IsInf(p, 0) {
			return nil, outOfDomain("overflow")
		}

		r.ev["link_"+method]++
		v := vf(p)
		v.R = method == "logit" || method == "softmax" || method == "exp"
		out[outputs[0].A("name")] = v

		return out, nil
	case "classification":
		probs := make([]float64, len(tables))

		switch {
		case method == "softmax":
			max := math.Inf(-1)
			for _, y := range ys {
				max = math.Max(max, y)
			}

			s := 0.0
			for _, y := range ys {
				s += math.Exp(y - max)
			}

			for i, y := range ys {
				probs[i] = math.Exp(y-max) / s
			}
		case method == "simplemax":
			s, size := 0.0, 0.0
			for _, y := range ys {
				s += y
				size += math.Abs(y)
			}

			if math.Abs(s) < 0.01*size || s == 0 {
				return nil, outOfDomain("simplemax of nearly nothing")
			}

			for i, y := range ys {
				probs[i] = y / s
			}
		case len(tables) == 2:
			p, err := link(method, ys[0])
			if err != nil {
				return nil, err
			}

			probs[0], probs[1] = p, 1-p
		default:
			return nil, loud("unsupported normalization " + method)
		}

		r.ev["classify_"+method]++

		for i, t := range tables {
			for _, o := range outputs {
				if o.A("value") == t.A("targetCategory") {
					v := vf(probs[i])
					v.R = method == "softmax" || method == "logit" && i == 0
					out[o.A("name")] = v
				}
			}
		}

		return out, nil
	}

	return nil, loud("unsupported function")
}

// ---- ensembles

func sortedFloats(m map[string]float64) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}

	sort.Strings(ks)

	return ks
}

func (r *Ref) mining(m *El, row Row, td []*El) (Row, error) {
	sg := m.Kid("Segmentation")
	segs := sg.All("Segment")

	method := sg.A("multipleModelMethod")
	if method == "" {
		method = "sum"
	}

	applies := func(s *El) (bool, error) {
		p := predicateOf(s)
		if p == nil {
			return true, nil
		}

		v, err := r.pred(p, row)
		r.ev["segment_"+string(v)]++

		return v == T, err
	}

	switch method {
	case "selectFirst":
		for _, s := range segs {
			ok, err := applies(s)
			if err != nil {
				return nil, err
			}

			if ok {
				return r.evalModel(s.All(modelNames...)[0], row, td)
			}
		}

		r.ev["no_segment"]++

		return nil, nil
	case "modelChain":
		last := Row{}

		for _, s := range segs {
			for k, v := range last {
				row[k] = v
				delete(r.raw, k)
			}

			ok, err := applies(s)
			if err != nil {
				return nil, err
			}

			if !ok {
				continue
			}

			last, err = r.evalModel(s.All(modelNames...)[0], row, td)
			if err != nil {
				return nil, err
			}

			if last == nil {
				r.ev["stage_without_prediction"]++
			}
		}

		return last, nil
	case "sum", "average":
	default:
		return nil, loud("unsupported method " + method)
	}

	classify := m.A("functionName") == "classification"
	acc := map[string]float64{}

	for _, o := range m.Kid("Output").All("OutputField") {
		acc[o.A("name")] = 0
	}

	targets := m.Kid("Targets").All("Target")
	for _, t := range targets {
		// the label of a classification is no sum
		if !classify {
			acc[t.A("field")] = 0
		}
	}

	// the class an output shows
	class := map[string]string{}

	for _, o := range m.Kid("Output").All("OutputField") {
		if v, ok := o.Has("value"); ok && o.A("feature") == "probability" {
			class[o.A("name")] = "probability(" + v + ")"
		}
	}

	n := 0

	for _, s := range segs {
		ok, err := applies(s)
		if err != nil {
			return nil, err
		}

		if !ok {
			continue
		}

		n++

		seg, err := r.evalModel(s.All(modelNames...)[0], row, td)
		if err != nil {
			return nil, err
		}

		if seg == nil {
			// it adds nothing
			r.ev["segment_without_prediction"]++
			continue
		}

		if len(acc) == 0 || len(seg) == 0 {
			continue
		}

		for _, k := range sortedFloats(acc) {
			v, ok := seg[k]

			switch {
			case classify && ok:
			case classify:
				v, ok = seg[class[k]]
				if ok {
					r.ev["class_by_value"]++
				} else if s.Kid("TreeModel") == nil {
					return nil, outOfDomain(fmt.Sprintf("no %q in %v", k, seg))
				}
			default:
				v, ok = seg["score"]

				for _, only := range seg {
					if !ok && len(seg) == 1 {
						v, ok = only, true
					}
				}

				if !ok {
					v, ok = seg[targetOf(m)]
					if ok {
						r.ev["score_by_target"]++
					}
				}

				if !ok {
					r.ev["ambiguous_score"]++
					return nil, loud(fmt.Sprintf("which of %v is the score", seg))
				}
			}

			if v.K == 's' {
				r.ev["sum_of_labels"]++
				return nil, loud("sum of labels")
			}

			if f, isNum := v.num(); ok && isNum {
				acc[k] += f
			} else if ok {
				return nil, outOfDomain("sum of " + v.String())
			}
		}
	}

	if n == 0 {
		r.ev["no_segment"]++
		return nil, nil
	}

	r.ev["ensemble_"+method]++

	out := Row{}

	for k, v := range acc {
		if method == "average" {
			v /= float64(n)
		}

		out[k] = vf(v)
	}

	for _, t := range targets {
		if _, ok := out[t.A("field")]; !ok {
			continue
		}

		v := out[t.A("field")].F

		if s, ok := t.Has("rescaleFactor"); ok {
			v *= atof(s)
			r.ev["rescale"]++
		}

		if s, ok := t.Has("rescaleConstant"); ok {
			v += atof(s)
			r.ev["rescale"]++
		}

		out[t.A("field")] = vf(v)
	}

	return out, nil
}
