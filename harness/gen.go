package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
)

type Field struct {
	name, typ string
	values    []string // the string values rows and literals are drawn from
	ints      []int64  // if set, the integers they are drawn from
	nums      []float64
}

// Gen builds random documents over a random set of fields.
type Gen struct {
	*Rng
	fields  []Field
	classes []string
	target  string
	miss    float64 // how often a row lacks a field
	looksAt string  // a field without which something broken is not met
	missOps bool    // isMissing and isNotMissing in predicates
	nodeID  int
	idStyle int // how nodes are named
}

var doubles = []float64{-3.5, -2, -1, -0.5, 0, 0.25, 0.5, 1, 1.5, 2, 3, 10, 1e6, -1e6, 0.001, 123456789.125}
var floats = []float64{-2.5, -1, 0, 0.5, 1, 2, 8, 1024, float64(float32(0.1)), -33.33333206176758}
var ints = []int64{-5, -2, -1, 0, 1, 2, 3, 5, 100, 1 << 53, 1<<53 + 1, -(1 << 53) - 1, 1<<63 - 1, -1 << 63}
var smallInts = []int64{-2, -1, 0, 1, 2, 3, 5}

var fieldNames = []string{"x", "Petal.Length", "income (k$)", "größe", "a b", "v<w", "p&q", `"q"`, "age", "t-1", "n_2", "X"}
var stringPool = []string{"red", "green", "blue", "light blue", "a&b", "<x>", "true", "1", "1.0", "É", "NaN", "Red", "it's", `say "hi"`, `c:\d`, "x,y", "0", "", " ", " red", "red ", "RED", "light  blue", "null", "1e0", "+1", "0x10", "-0", "日本", "<nil>"}

// classes that are easily taken for each other
var alikePool = []string{"yes", "Yes", "YES", " yes", "yes ", "yes no", "yes,no", "1", "1.0", "01", "+1", "1e0", "true", "True", "ye\u0301s", "y\u00e9s", "900001", "900002", "nan", "NaN"}
var classPool = []string{"yes", "no", "maybe", "will play", "fraud & co", "<5", "0", "1", "false", "ça"}

// longer adds strings which are alike but in one place.
func (r *Rng) longer(to []string) []string {
	seen := map[string]bool{}

	for j := 0; j < 3; j++ {
		b := []byte(strings.Repeat("a long label, ", 6))
		b[r.Pick(0, 7, 31, 32, 40, 63, 64, len(b)-1)] = "bdfhjm"[r.Intn(6)]

		if s := string(b); !seen[s] {
			seen[s] = true
			to = append(to, s)
		}
	}

	return to
}

func newGen(r *Rng) *Gen {
	g := &Gen{Rng: r, target: "y", miss: 0.3, missOps: true}
	names := r.Perm(len(fieldNames))
	n := r.Range(2, 6)

	for i := 0; i < n; i++ {
		f := Field{name: fieldNames[names[i]]}

		switch r.Intn(8) {
		case 0, 1, 2:
			f.typ = "double"
		case 3:
			f.typ = "float"
		case 4, 5:
			f.typ = "integer"
		case 6:
			f.typ = "string"
		case 7:
			f.typ = "boolean"
		}

		if f.typ == "string" {
			p := r.Perm(len(stringPool))
			for j := 0; j < r.Range(2, 5); j++ {
				f.values = append(f.values, stringPool[p[j]])
			}

			if r.P(0.05) {
				f.values = r.longer(f.values)
			}
		}

		// values so close to each other that a lesser type confuses them
		if f.typ == "integer" && r.P(0.15) {
			edge := int64(1) << uint(r.Pick(24, 31, 32, 53, 53, 54, 55, 60, 62))
			if r.P(0.3) {
				edge = -edge
			}

			f.ints = []int64{edge - 1, edge, edge + 1, edge + 2}
		}

		if f.typ == "double" && r.P(0.1) {
			x := doubles[r.Intn(len(doubles))]
			f.nums = []float64{x, math.Nextafter(x, 1e9), math.Nextafter(x, -1e9), x}
		}

		g.fields = append(g.fields, f)
	}

	wide := r.P(0.02)

	for i := r.Range(10, 40); wide && i > 0; i-- {
		name := fmt.Sprintf("wide %d", i)
		if i%3 == 0 {
			name = strings.Repeat("a wide field, ", 6) + name
		}

		f := Field{name: name, typ: r.Str("double", "float", "integer", "string", "boolean")}
		if f.typ == "string" {
			f.values = []string{fmt.Sprintf("v%d", i), "red", "green"}
		}

		g.fields = append(g.fields, f)
	}

	if r.P(0.7) {
		f := Field{name: "colour", typ: "string"}
		p := r.Perm(len(stringPool))

		for j := 0; j < r.Range(2, 5); j++ {
			f.values = append(f.values, stringPool[p[j]])
		}

		if r.P(0.05) {
			f.values = r.longer(f.values)
		}

		g.fields = append(g.fields, f)
	}

	pool := classPool
	if r.P(0.15) {
		pool = alikePool
	}

	p := r.Perm(len(pool))
	for j := 0; j < r.Range(2, 4); j++ {
		g.classes = append(g.classes, pool[p[j]])
	}

	if r.P(0.02) {
		g.classes = r.longer(g.classes)
	}

	if wide && r.P(0.5) {
		for j := r.Range(5, 20); j > 0; j-- {
			g.classes = append(g.classes, fmt.Sprintf("class %d", j))
		}
	}

	return g
}

func (g *Gen) field(types ...string) (Field, bool) {
	p := g.Perm(len(g.fields))
	for _, i := range p {
		for _, t := range types {
			if g.fields[i].typ == t {
				return g.fields[i], true
			}
		}
	}

	return Field{}, false
}

// need returns a field of the type, adding one when there is none.
func (g *Gen) need(typ string) Field {
	if f, ok := g.field(typ); ok {
		return f
	}

	f := Field{name: "z_" + typ, typ: typ}
	if typ == "string" {
		f.values = []string{"red", "green", "light blue"}
	}

	g.fields = append(g.fields, f)

	return f
}

func (g *Gen) value(f Field) Val {
	switch f.typ {
	case "double":
		if f.nums != nil && g.P(0.9) {
			return vf(f.nums[g.Intn(len(f.nums))])
		}

		x := doubles[g.Intn(len(doubles))]
		if g.P(0.1) {
			x = math.Nextafter(x, g.F(-1e9, 1e9))
		}

		if g.P(0.02) {
			x = g.F(math.Copysign(0, -1), 5e-324, -1e-300, 1.7e308, 1<<53+2, 1<<63, 1<<64-2048, -1e21)
		}

		return vf(x)
	case "float":
		return vf(floats[g.Intn(len(floats))])
	case "integer":
		if f.ints != nil && g.P(0.9) {
			return vi(f.ints[g.Intn(len(f.ints))])
		}

		if g.P(0.8) {
			return vi(smallInts[g.Intn(len(smallInts))])
		}

		if g.P(0.4) {
			// next to where the Go types end
			edge := int64(1) << uint(g.Pick(7, 8, 15, 16, 31, 32, 52, 53, 62))
			if g.P(0.3) {
				edge = -edge
			}

			return vi(edge + int64(g.Range(-1, 1)))
		}

		return vi(ints[g.Intn(len(ints))])
	case "boolean":
		return vb(g.P(0.5))
	}

	if g.P(0.1) {
		return vs("something else")
	}

	return vs(f.values[g.Intn(len(f.values))])
}

func (g *Gen) row() Row {
	row := Row{}

	for _, f := range g.fields {
		if g.P(g.miss) {
			row[f.name] = Val{}
		} else {
			row[f.name] = g.value(f)
		}
	}

	return row
}

// num writes a float in one of several equivalent ways.
func (g *Gen) num(f float64) string {
	s := strconv.FormatFloat(f, 'g', -1, 64)

	switch g.Intn(6) {
	case 0:
		return strconv.FormatFloat(f, 'e', -1, 64)
	case 1:
		return strconv.FormatFloat(f, 'f', -1, 64)
	case 2:
		return strings.ToUpper(s)
	case 3:
		if !strings.ContainsAny(s, ".e") {
			return s + ".0"
		}
	case 4:
		if strings.Contains(s, ".") && !strings.Contains(s, "e") && g.P(0.1) {
			return s + strings.Repeat("0", g.Range(1, 30))
		}
	}

	return s
}

func (g *Gen) literal(f Field) string {
	v := g.value(f)
	if v.K == 'f' {
		return g.num(v.F)
	}

	if v.K == 'i' && g.P(0.05) {
		// the same integer, spelled otherwise
		if s := v.String(); v.I < 0 {
			return "-0" + s[1:]
		} else if g.P(0.5) {
			return "+" + s
		} else {
			return g.Str("0", "00") + s
		}
	}

	// XML Schema's other spelling of a truth value
	if v.K == 'b' && g.P(0.1) {
		return map[bool]string{true: "1", false: "0"}[v.B]
	}

	return v.String()
}

func (g *Gen) simple() *El {
	f := g.fields[g.Intn(len(g.fields))]

	if g.missOps && g.P(0.12) {
		return el("SimplePredicate", "field", f.name, "operator", g.Str("isMissing", "isNotMissing"))
	}

	ops := []string{"equal", "notEqual"}
	if f.typ == "double" || f.typ == "float" || f.typ == "integer" {
		ops = append(ops, "lessThan", "lessOrEqual", "greaterThan", "greaterOrEqual", "lessThan", "greaterOrEqual", "lessOrEqual", "greaterThan")
	}

	return el("SimplePredicate", "field", f.name, "operator", ops[g.Intn(len(ops))], "value", g.literal(f))
}

// quote writes an array member.
func (g *Gen) quote(s string) string {
	plain := s != "" && !strings.ContainsAny(s, " \t\r\n\"\\")
	if plain && g.P(0.6) {
		return s
	}

	return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(s) + `"`
}

func (g *Gen) array(typ string, members []string) *El {
	e := el("Array", "n", strconv.Itoa(len(members)), "type", typ)
	if g.P(0.2) {
		e.del("n")
	}

	sep := g.Str(" ", " ", "  ", "\n\t")
	e.Text = strings.Join(members, sep)

	if g.P(0.3) {
		e.Text = g.Str("\n ", " ", "\t") + e.Text + g.Str("\n", "  ")
	}

	return e
}

func (g *Gen) set() *El {
	f := g.fields[g.Intn(len(g.fields))]
	typ := map[string]string{"double": "real", "float": "real", "integer": "int"}[f.typ]

	if typ == "" {
		typ = "string"
	}

	var ms []string

	n := g.Range(0, 4)
	if g.P(0.02) {
		n = g.Range(10, 80)
	}

	if g.P(0.03) {
		// nothing is in an empty set
		n = -1
	}

	for i := n; i >= 0; i-- {
		l := g.literal(f)
		if i > 4 && f.typ == "string" {
			l = fmt.Sprintf("member %d", i)
		} else if i > 4 && f.typ != "boolean" {
			l = strconv.Itoa(i + 20)
		}

		if typ == "string" {
			l = g.quote(l)
		}

		ms = append(ms, l)
	}

	return el("SimpleSetPredicate", "field", f.name, "booleanOperator", g.Str("isIn", "isNotIn")).add(g.array(typ, ms))
}

func (g *Gen) pred(depth int) *El {
	if depth > 0 && g.P(0.4) {
		e := el("CompoundPredicate", "booleanOperator", g.Str("and", "or", "xor", "surrogate"))
		n := g.Range(2, 4)
		if g.P(0.05) {
			n = g.Pick(1, 5, 6, 9)
		}

		for i := n; i > 0; i-- {
			e.add(g.pred(depth - 1))
		}

		return e
	}

	switch {
	case g.P(0.04):
		return el("True")
	case g.P(0.04):
		return el("False")
	case g.P(0.18):
		return g.set()
	}

	return g.simple()
}

// treeOpts steers the tree generator.
type treeOpts struct {
	reg      bool
	strategy string // "" leaves the attribute out
	noTrue   string
	penalty  string
	dist     float64 // how often a node has a score distribution
	counts   bool    // every node has record counts
	exhaust  float64 // how often a node's last child is the complement of the first
	depth    int
	noTarget bool
}

func (g *Gen) dist(n *El) {
	// the node's score, when given, is one of the classes, most often the one
	// with the most records
	var total float64

	best, bestAt := -1.0, ""

	p := g.Perm(len(g.classes))
	k := g.Range(1, len(g.classes))
	mode := g.Intn(4)

	left := 1.0

	// counts need not be whole (weighted records), nor be there when the
	// probabilities are
	part, uncounted := 0.0, mode == 1 && g.P(0.15)
	if g.P(0.15) {
		part = g.F(0.5, 0.25, 0.75, 0.3)
	}

	for i := 0; i < k; i++ {
		w := float64(g.Range(0, 12))
		if i == 0 {
			w++
		}

		if part > 0 && g.P(0.7) {
			w += part
		}

		if uncounted {
			w = 0
		}

		total += w
		sd := el("ScoreDistribution", "value", g.classes[p[i]], "recordCount", g.num(w))

		if mode == 1 {
			pr := left
			if i < k-1 {
				pr = left * g.F(0.25, 0.5, 0.75, 0.125, 0, 1, 1e-5)
			}

			left -= pr
			w = pr

			sd.set("probability", g.num(pr))
		}

		// some classes give a probability, the others take their share
		if mode == 3 && g.P(0.5) {
			w = g.F(0.05, 0.2, 0.45, 0.7, 0)
			sd.set("probability", g.num(w))
		}

		if mode == 2 && g.P(0.5) {
			sd.set("confidence", g.num(g.F(0.1, 0.5, 0.9)))
		}

		if w > best {
			best, bestAt = w, g.classes[p[i]]
		}

		n.add(sd)
	}

	if g.P(0.7) {
		n.set("score", bestAt)

		if g.P(0.2) {
			n.set("score", g.classes[p[g.Intn(k)]])
		}

		// a score which the distribution may not list
		if g.P(0.05) {
			n.set("score", g.Str(append([]string{"unlisted"}, g.classes...)...))
		}
	} else {
		n.del("score")
	}

	if _, ok := n.Has("recordCount"); ok {
		n.set("recordCount", g.num(total))
	}
}

// ids names the nodes: most often by a running number, but also by names that
// are easily taken for each other. Nodes of one tree have distinct names.
func (g *Gen) ids(i int) string {
	switch g.idStyle {
	case 1:
		return string(rune('a'+i%26)) + g.letters(i/26) + "1"
	case 2:
		return "node" + strings.Repeat(" ", i%7) + g.letters(i/7)
	case 3:
		if i%2 == 0 {
			return fmt.Sprintf("N%d", i/2)
		}

		return fmt.Sprintf("n%d", i/2)
	case 4:
		return fmt.Sprintf("1.%0*d", 1+i%3, i/3)
	case 5:
		return strings.Repeat("0", i%5) + strconv.Itoa(1+i/5)
	case 6:
		// the later ones begin, and end, the earlier ones
		return g.letters(i/30) + strings.Repeat("n", 30-i%30)
	}

	return fmt.Sprintf("n%d", i)
}

func (g *Gen) letters(i int) string {
	if i == 0 {
		return ""
	}

	return string(rune('a'+i%26)) + g.letters(i/26)
}

var complement = map[string]string{"equal": "notEqual", "notEqual": "equal", "lessThan": "greaterOrEqual",
	"greaterOrEqual": "lessThan", "lessOrEqual": "greaterThan", "greaterThan": "lessOrEqual", "isMissing": "isNotMissing", "isNotMissing": "isMissing"}

func (g *Gen) node(o *treeOpts, depth int, pred *El) *El {
	g.nodeID++
	n := el("Node", "id", g.ids(g.nodeID))

	if o.reg {
		n.set("score", g.num(g.F(-10, -2.5, 0, 0.5, 1, 3.25, 100, 1e-3, -7)+float64(g.nodeID)))
	} else if g.P(0.9) || depth <= 0 {
		n.set("score", g.classes[g.Intn(len(g.classes))])

		if g.P(0.05) {
			n.set("score", "unlisted")
		}
	}

	if o.counts || g.P(0.3) {
		n.set("recordCount", g.num(float64(g.Range(1, 40))+g.F(0, 0, 0, 0.5, 0.125)))
	}

	n.add(pred)

	if !o.reg && g.P(o.dist) {
		g.dist(n)
	}

	if depth <= 0 || g.P(0.15) {
		return n
	}

	k := g.Range(1, 4)
	if g.P(0.005) {
		k = g.Range(10, 40)
	}

	var ids []string

	for i := 0; i < k; i++ {
		var p *El

		if i > 0 && g.P(o.exhaust) {
			first := predicateOf(kids(n)[i-1])
			if c := complement[first.A("operator")]; first.Name == "SimplePredicate" && c != "" {
				p = first.clone().set("operator", c)
			}
		}

		if p == nil {
			p = g.pred(g.Range(0, 2))
		}

		c := g.node(o, depth-1, p)
		ids = append(ids, c.A("id"))
		n.add(c)
	}

	if o.strategy == "defaultChild" && g.P(0.85) {
		n.set("defaultChild", ids[g.Intn(k)])

		if g.P(0.05) {
			n.set("defaultChild", "nobody")
		}

		// a node, but no child of this one
		if g.P(0.06) {
			var far []string

			for _, c := range kids(n) {
				for _, d := range kids(c) {
					far = append(far, d.A("id"))
				}
			}

			if len(far) > 0 {
				n.set("defaultChild", far[g.Intn(len(far))])
			}
		}
	}

	return n
}

func (g *Gen) schema() *El {
	ms := el("MiningSchema")

	for _, f := range g.fields {
		mf := el("MiningField", "name", f.name)
		if g.P(0.3) {
			mf.set("usageType", "active")
		}

		ms.add(mf)
	}

	return ms
}

func (g *Gen) tree(o *treeOpts) *El {
	m := el("TreeModel", "functionName", "classification")
	if o.reg {
		m.set("functionName", "regression")
	}

	if o.strategy != "" {
		m.set("missingValueStrategy", o.strategy)
	}

	if o.noTrue != "" {
		m.set("noTrueChildStrategy", o.noTrue)
	}

	if o.penalty != "" {
		m.set("missingValuePenalty", o.penalty)
	}

	ms := g.schema()
	if !o.noTarget {
		t := el("MiningField", "name", g.target, "usageType", "target")
		if g.P(0.5) {
			ms.add(t)
		} else {
			ms.Kids = append([]*El{t}, ms.Kids...)
		}
	}

	m.add(ms)

	root := el("True")
	if g.P(0.1) {
		root = g.pred(1)
	}

	// another tree of the document may use the same ids
	if g.P(0.5) {
		g.nodeID = 0
	}

	g.idStyle = g.Pick(0, 0, 0, 1, 2, 3, 4, 5, 6)

	root = g.node(o, o.depth, root)

	if o.strategy != "defaultChild" && g.P(0.1) {
		root.walk(func(e *El) {
			if e.Name == "Node" && g.P(0.8) {
				e.del("id")
			}
		})
	}

	return m.add(root)
}

// dictionary declares the fields and the target.
func (g *Gen) dictionary(regTarget bool) *El {
	dd := el("DataDictionary")

	for _, f := range g.fields {
		op := "continuous"
		if f.typ == "string" || f.typ == "boolean" {
			op = "categorical"
		}

		d := el("DataField", "name", f.name, "optype", op, "dataType", f.typ)
		for _, v := range f.values {
			d.add(el("Value", "value", v))
		}

		dd.add(d)
	}

	t := el("DataField", "name", g.target, "optype", "categorical", "dataType", "string")
	if regTarget {
		t = el("DataField", "name", g.target, "optype", "continuous", "dataType", "double")
	} else {
		for _, c := range g.classes {
			t.add(el("Value", "value", c))
		}
	}

	at := g.Intn(len(dd.Kids) + 1)
	dd.Kids = append(dd.Kids[:at], append([]*El{t}, dd.Kids[at:]...)...)

	return dd
}

func (g *Gen) doc(regTarget bool, kids ...*El) *El {
	d := el("PMML", "xmlns", "http://www.dmg.org/PMML-4_3", "version", "4.3")
	d.add(el("Header", "copyright", "monitor"), g.dictionary(regTarget))
	d.add(kids...)

	return d
}
