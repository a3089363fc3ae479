package main

import (
	"encoding/xml"
	"fmt"
	"github.com/flukeish/pmml/models"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
)

type fidAttr struct {
	name, field    string
	absent, schema string // what an absent attribute may decode to
	values         []string
}

type fidKid struct {
	name, field, typ string
	many, group      bool
}

type fidType struct {
	typ   reflect.Type
	attrs []fidAttr
	kids  []fidKid
	text  string
}

// Elements which may stand where the schema has a choice.
var fidGroups = map[string][]string{
	"Expression": {"Aggregate", "Apply", "Constant", "Discretize", "FieldRef", "Lag", "MapValues", "NormContinuous", "NormDiscrete", "TextIndex"},
	"Predicate":  {"CompoundPredicate", "False", "SimplePredicate", "SimpleSetPredicate", "True"},
	"ModelElement": {"AssociationModel", "BaselineModel", "BayesianNetworkModel", "ClusteringModel", "GaussianProcessModel",
		"GeneralRegressionModel", "MiningModel", "NaiveBayesModel", "NearestNeighborModel", "NeuralNetwork", "RegressionModel",
		"RuleSetModel", "Scorecard", "SequenceModel", "SupportVectorMachineModel", "TextModel", "TimeSeriesModel", "TreeModel"},
	"EmbeddedModel":              {"DecisionTree", "Regression"},
	"ContinuousDistributionType": {"AnyDistribution", "GaussianDistribution", "PoissonDistribution", "UniformDistribution"},
	"Table":                      {"InlineTable", "TableLocator"},
}

type fidGen struct {
	*Rng
	budget int
	wide   bool
}

func (g *fidGen) text() string {
	words := []string{"a", "Zz", "0", "-1.5", "x y", "é", "日本", "<&>", "\"q\"", "it's", "true", "probability(1)", "", "  ", "#id", "\tt"}

	n := g.Range(1, 3)

	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(words[g.Intn(len(words))])
	}

	return b.String()
}

func (g *fidGen) number() string {
	switch g.Intn(4) {
	case 0:
		return strconv.Itoa(g.Range(-50, 50))
	case 1:
		return strconv.FormatFloat(g.Float()*1e3-500, 'g', -1, 64)
	case 2:
		return strconv.FormatFloat(math.Ldexp(g.Float()+0.5, g.Range(-200, 200)), 'e', -1, 64)
	}

	return g.Str("0", "-0.25", "1e-16", "+2", "007", "1E5", ".5")
}

// value makes an attribute value of the kind of Go type the field has.
func (g *fidGen) value(owner string, a fidAttr, t reflect.Type) (string, bool) {
	if t.Kind() == reflect.Ptr {
		t = t.Elem()
	}

	switch t.Kind() {
	case reflect.String:
		if len(a.values) > 0 {
			return a.values[g.Intn(len(a.values))], true
		}

		return g.text(), true
	case reflect.Bool:
		if owner == "ChildParent" {
			return g.Str("yes", "no"), true
		}

		return g.Str("true", "false", "1", "0"), true
	case reflect.Int, reflect.Int32, reflect.Int64, reflect.Int16, reflect.Int8:
		return strconv.Itoa(g.Range(-99, 99)), true
	case reflect.Uint, reflect.Uint32, reflect.Uint64, reflect.Uint16, reflect.Uint8:
		return strconv.Itoa(g.Range(0, 99)), true
	case reflect.Float32, reflect.Float64:
		return g.number(), true
	}

	return "", false
}

func (g *fidGen) element(name, typ string, depth int) *El {
	g.budget--

	e := el(name)

	if typ == "row" {
		for _, k := range []string{"alpha", "beta", "data:out", "c-1", "d_2"} {
			if g.P(0.5) {
				cell := el(k)
				cell.Text = g.text()
				e.add(cell)
			}
		}

		return e
	}

	ft := fidTypes[typ]

	for _, a := range ft.attrs {
		if !g.P(0.6) {
			continue
		}

		f, ok := ft.typ.FieldByName(a.field)
		if !ok {
			continue
		}

		if v, ok := g.value(typ, a, f.Type); ok {
			e.set(a.name, v)
		}
	}

	g.Shuffle(len(e.Attrs), func(i, j int) { e.Attrs[i], e.Attrs[j] = e.Attrs[j], e.Attrs[i] })

	if ft.text != "" && g.P(0.7) {
		e.Text = g.text()
		if typ == "Extension" {
			e.Text = g.Str("plain", "more words", "1 2 3")
		}
	}

	if depth <= 0 || typ == "Extension" {
		return e
	}

	var kids []*El

	for _, k := range ft.kids {
		if g.budget <= 0 || !g.P(0.5) {
			continue
		}

		n := 1
		if k.many {
			n = g.Range(1, 3)

			if !g.wide && g.P(0.0003) {
				// a long list of one kind
				g.wide = true
				depth = 1
				n = g.Range(100, 2500)
				g.budget += n
			}
		}

		for i := 0; i < n; i++ {
			name, typ := k.name, k.typ

			if k.group {
				opts := fidGroups[k.typ]
				name = opts[g.Intn(len(opts))]
				typ = name
			}

			kids = append(kids, g.element(name, typ, depth-1))
		}
	}

	g.Shuffle(len(kids), func(i, j int) { kids[i], kids[j] = kids[j], kids[i] })
	e.add(kids...)

	return e
}

type fidCheck struct {
	attrs, absent, kids, texts, elements int
	types                                map[string]bool
	problem                              string
}

func (f *fidCheck) say(path, format string, args ...interface{}) {
	if f.problem == "" {
		f.problem = path + ": " + fmt.Sprintf(format, args...)
	}
}

// scalar renders the value of a field for comparison; nil pointers are "nil".
func scalar(v reflect.Value) (string, reflect.Kind) {
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return "nil", v.Type().Elem().Kind()
		}

		v = v.Elem()
	}

	switch v.Kind() {
	case reflect.Float32, reflect.Float64:
		return strconv.FormatFloat(v.Float(), 'g', -1, 64), v.Kind()
	}

	return fmt.Sprint(v.Interface()), v.Kind()
}

func sameScalar(want, got string, k reflect.Kind, bits int) bool {
	switch k {
	case reflect.Float32, reflect.Float64:
		a, err1 := strconv.ParseFloat(want, bits)
		b, err2 := strconv.ParseFloat(got, 64)

		return err1 == nil && err2 == nil && a == b
	case reflect.Bool:
		w := want == "true" || want == "1" || want == "yes"
		return (got == "true") == w
	case reflect.String:
		return want == got
	}

	a, err1 := strconv.ParseInt(want, 10, 64)
	b, err2 := strconv.ParseInt(got, 10, 64)

	return err1 == nil && err2 == nil && a == b
}

func (f *fidCheck) element(path string, e *El, typ string, v reflect.Value) {
	f.elements++
	f.types[typ] = true

	if typ == "row" {
		if v.Kind() != reflect.Map || v.Len() != len(e.Kids) {
			f.say(path, "%d cells decoded as %v", len(e.Kids), v.Interface())
			return
		}

		for _, k := range e.Kids {
			cell := v.MapIndex(reflect.ValueOf(local(k.Name)))
			if !cell.IsValid() || fmt.Sprint(cell.Interface()) != k.Text {
				f.say(path, "cell %s holds %q, decoded as %v", k.Name, k.Text, v.Interface())
			}

			f.texts++
		}

		return
	}

	ft := fidTypes[typ]

	if v.Type() != ft.typ {
		f.say(path, "decoded as a %s", v.Type())
		return
	}

	for _, a := range ft.attrs {
		fv := v.FieldByName(a.field)
		if !fv.IsValid() {
			f.say(path, "nothing holds attribute %s", a.name)
			continue
		}

		got, kind := scalar(fv)
		bits := 64

		if kind == reflect.Float32 {
			bits = 32
		}

		if want, ok := e.Has(a.name); ok {
			f.attrs++

			if !sameScalar(want, got, kind, bits) {
				f.say(path, "attribute %s=%q decoded as %q", a.name, want, got)
			}

			continue
		}

		f.absent++

		if got != a.absent && (a.schema == "" || !sameScalar(a.schema, got, kind, bits)) {
			f.say(path, "attribute %s is absent but decoded as %q", a.name, got)
		}
	}

	if ft.text != "" {
		f.texts++

		if got := v.FieldByName(ft.text).String(); strings.TrimRight(got, " \n") != strings.TrimRight(e.Text, " \n") {
			f.say(path, "text %q decoded as %q", e.Text, got)
		}
	}

	for _, k := range ft.kids {
		if typ == "Extension" {
			break
		}

		var want []*El

		var types []string

		for _, x := range e.Kids {
			if !k.group && x.Name == k.name {
				want, types = append(want, x), append(types, k.typ)
			}

			if k.group {
				for _, n := range fidGroups[k.typ] {
					if x.Name == n {
						want, types = append(want, x), append(types, n)
					}
				}
			}
		}

		fv := v.FieldByName(k.field)
		if !fv.IsValid() {
			f.say(path, "nothing holds the %s elements", k.name)
			continue
		}

		f.kids += len(want)

		if k.many {
			if fv.Len() != len(want) {
				f.say(path, "%d %s%s elements decoded as %d", len(want), k.name, groupName(k), fv.Len())
				continue
			}

			for i := range want {
				f.element(fmt.Sprintf("%s/%s[%d]", path, want[i].Name, i), want[i], types[i], deref(fv.Index(i)))
			}

			continue
		}

		if len(want) == 0 {
			if (fv.Kind() == reflect.Ptr || fv.Kind() == reflect.Interface) && !fv.IsNil() {
				f.say(path, "no %s%s element, but decoded as one", k.name, groupName(k))
			}

			continue
		}

		d := deref(fv)
		if !d.IsValid() {
			f.say(path, "the %s element was lost", want[0].Name)
			continue
		}

		f.element(path+"/"+want[0].Name, want[0], types[0], d)
	}
}

func groupName(k fidKid) string {
	if k.group {
		return k.typ
	}

	return ""
}

func deref(v reflect.Value) reflect.Value {
	for v.IsValid() && (v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface) {
		v = v.Elem()
	}

	return v
}

var fidNames []string

func fidSetup() error {
	for n := range fidTypes {
		fidNames = append(fidNames, n)
	}

	sort.Strings(fidNames)

	for _, n := range fidNames {
		for _, a := range fidTypes[n].attrs {
			if f, ok := fidTypes[n].typ.FieldByName(a.field); ok {
				typ := f.Type
				if typ.Kind() == reflect.Ptr {
					typ = typ.Elem()
				}

				enumerated[typ] = append(enumerated[typ], [3]string{n, a.name, a.field})
			}
		}
	}

	return nil
}

// lookups are the exported ways from the name of an element to its type.
var lookups = map[string]struct {
	names []string
	get   func(string) (interface{}, bool)
}{
	"GetContinuousDistributionType": {strings.Fields("AnyDistribution GaussianDistribution PoissonDistribution UniformDistribution"),
		func(n string) (interface{}, bool) { return models.GetContinuousDistributionType(n) }},
	"GetExpression": {strings.Fields("Aggregate Apply Constant Discretize FieldRef Lag MapValues NormContinuous NormDiscrete TextIndex"),
		func(n string) (interface{}, bool) { return models.GetExpression(n) }},
	"GetEmbeddedModel": {strings.Fields("DecisionTree Regression"),
		func(n string) (interface{}, bool) { return models.GetEmbeddedModel(n) }},
	"GetModelElement": {strings.Fields("AssociationModel BaselineModel BayesianNetworkModel ClusteringModel GaussianProcessModel GeneralRegressionModel MiningModel NaiveBayesModel NearestNeighborModel NeuralNetwork RegressionModel RuleSetModel Scorecard SequenceModel SupportVectorMachineModel TextModel TimeSeriesModel TreeModel"),
		func(n string) (interface{}, bool) { return models.GetModelElement(n) }},
	"GetPredicate": {strings.Fields("CompoundPredicate False SimplePredicate SimpleSetPredicate True"),
		func(n string) (interface{}, bool) { return models.GetPredicate(n) }},
	"GetTable": {strings.Fields("InlineTable TableLocator"),
		func(n string) (interface{}, bool) { return models.GetTable(n) }},
}

// enumerated are the elements, attributes and struct fields of a Go type.
var enumerated = map[reflect.Type][][3]string{}

// constant looks at a named constant: it is what the schema's value decodes to.
func (c *Ctx) constant() {
	k := constants[c.Intn(len(constants))]
	c.eval()
	c.event("constant")

	if got := reflect.ValueOf(k.value).String(); got != k.text {
		c.fail("the %T constant for %q is %q", k.value, k.text, got)
		return
	}

	at := enumerated[reflect.TypeOf(k.value)]
	if len(at) == 0 {
		return
	}

	a := at[c.Intn(len(at))]
	e := el(a[0], a[1], k.text)
	x := reflect.New(fidTypes[a[0]].typ)

	if err := call(func() error { return xml.Unmarshal([]byte(e.String()), x.Interface()) }); err != nil {
		c.fail("decoding %s: %v", e, err)
		return
	}

	f := x.Elem().FieldByName(a[2])
	if f.Kind() == reflect.Ptr && !f.IsNil() {
		f = f.Elem()
	}

	if f.Interface() != k.value {
		c.fail("%s decodes to %v, not to the constant for %q", e, f.Interface(), k.text)
		return
	}

	c.event("constant_decoded")
}

// lookup asks for the type of an element by its name.
func (c *Ctx) lookup() {
	for fn, l := range lookups {
		name := fidNames[c.Intn(len(fidNames))]
		if c.P(0.6) {
			name = l.names[c.Intn(len(l.names))]
		}

		if c.P(0.2) {
			name = c.Str(strings.ToLower(name), name+" ", "x:"+name, "", name+"s")
		}

		known := false
		for _, n := range l.names {
			known = known || n == name
		}

		one, ok := l.get(name)
		two, _ := l.get(name)

		c.eval()

		switch {
		case ok != known:
			c.fail("%s(%q) gives %T, %v", fn, name, one, ok)
		case !ok && one != nil:
			c.fail("%s(%q) gives %T, false", fn, name, one)
		case ok && (reflect.TypeOf(one) != reflect.PtrTo(fidTypes[name].typ) || reflect.ValueOf(one).IsNil()):
			c.fail("%s(%q) gives %T", fn, name, one)
		case ok && reflect.ValueOf(one).Pointer() == reflect.ValueOf(two).Pointer() && reflect.TypeOf(one).Elem().Size() > 0:
			c.fail("%s(%q) gives the same one twice", fn, name)
		case ok && !reflect.ValueOf(one).Elem().IsZero():
			c.fail("%s(%q) gives one that is not empty: %+v", fn, name, one)
		case ok:
			c.event("found_by_name")
		default:
			c.event("not_found_by_name")
		}
	}
}

// C18: what a document says is what the decoded value holds.
func runFidelity(c *Ctx) {
	c.lookup()
	c.constant()

	g := &fidGen{Rng: c.Rng, budget: 60}

	typ := fidNames[c.i%len(fidNames)]
	if c.P(0.4) {
		typ = c.Str("PMML", "PMML", "TreeModel", "Node", "MiningModel", "RegressionModel", "Segment", "MapValues", "Apply", "DerivedField",
			"DataDictionary", "MiningSchema", "ModelVerification", "Targets", "CompoundPredicate", "SimpleSetPredicate", "Output")
	}

	name := typ
	if typ == "NumArray" || typ == "ArrayType" || typ == "IntArray" || typ == "StringArray" {
		name = "Array"
	}

	e := g.element(name, typ, c.Range(1, 6))
	text := e.String()

	if c.P(0.5) {
		text = newDisguise(c.Rng, true).write(e)
	}

	out := reflect.New(fidTypes[typ].typ)

	err := call(func() error { return xml.Unmarshal([]byte(text), out.Interface()) })

	c.eval()

	if err != nil {
		c.note("element:\n%s", text)
		c.fail("decoding a %s: %v", typ, err)

		return
	}

	f := &fidCheck{types: map[string]bool{}}
	f.element(name, e, typ, out.Elem())

	if f.problem != "" {
		c.note("element:\n%s", text)
		c.fail("%s", f.problem)

		return
	}

	c.events("attributes_compared", f.attrs)
	c.events("absent_attributes", f.absent)
	c.events("children_compared", f.kids)
	c.events("texts_compared", f.texts)
	c.events("elements_compared", f.elements)

	for t := range f.types {
		c.event("type_" + t)
	}

	if f.attrs+f.kids+f.texts > 0 {
		c.nontrivial(text)
	}

	c.sample("%s", text)
}

// disguise writes a document in another way which means the same.
type disguise struct {
	*Rng
	prefix                                              string
	attrs, comments, pis, cdata, refs, unknown, foreign bool
	layout                                              string
	exact                                               bool // do not touch text
	n                                                   map[string]int
}

func newDisguise(r *Rng, exact bool) *disguise {
	d := &disguise{Rng: r, exact: exact, n: map[string]int{}, attrs: r.P(0.5), comments: r.P(0.4), pis: r.P(0.3),
		cdata: r.P(0.3), refs: r.P(0.3), unknown: r.P(0.4), foreign: r.P(0.3), layout: r.Str("", "\n", "\r\n\t")}
	if r.P(0.2) {
		d.prefix = r.Str("pmml:", "p:", "ns0:")
	}

	return d
}

func (d *disguise) write(root *El) string {
	var b strings.Builder

	if d.P(0.5) {
		b.WriteString("<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n")
	}

	if d.comments {
		b.WriteString("<!-- made by a generator > with & odd <Node> text -->")
	}

	root = root.clone()

	switch {
	case d.prefix != "":
		d.n["prefixed"]++
		root.set("xmlns:"+strings.TrimSuffix(d.prefix, ":"), "http://www.dmg.org/PMML-4_3")
	case d.P(0.5):
		root.set("xmlns", "http://www.dmg.org/PMML-4_3")
	}

	d.element(&b, root, "")

	if d.comments {
		b.WriteString("<!-- end -->")
	}

	return b.String()
}

func (d *disguise) charref(r rune) string {
	if d.P(0.5) {
		return fmt.Sprintf("&#%d;", r)
	}

	return fmt.Sprintf("&#x%x;", r)
}

func (d *disguise) quoted(s string) string {
	var b strings.Builder

	q := d.Str(`"`, "'")

	for _, r := range s {
		switch {
		case d.refs && d.P(0.2):
			d.n["character_reference"]++
			b.WriteString(d.charref(r))
		case r == '&':
			b.WriteString("&amp;")
		case r == '<':
			b.WriteString("&lt;")
		case string(r) == q:
			b.WriteString(d.charref(r))
		case r == '\n' || r == '\t' || r == '\r':
			b.WriteString(d.charref(r))
		default:
			b.WriteRune(r)
		}
	}

	return q + b.String() + q
}

func (d *disguise) chars(s string) string {
	if d.cdata && s != "" && !strings.Contains(s, "]]>") && !strings.Contains(s, "\r") && d.P(0.6) {
		d.n["cdata"]++

		rs := []rune(s)
		k := d.Intn(len(rs) + 1)

		return esc(string(rs[:k]), false) + "<![CDATA[" + string(rs[k:]) + "]]>"
	}

	var b strings.Builder

	for _, r := range s {
		if d.refs && d.P(0.2) {
			d.n["character_reference"]++
			b.WriteString(d.charref(r))
		} else {
			b.WriteString(esc(string(r), false))
		}
	}

	return b.String()
}

// between is what may stand between two elements without any meaning.
func (d *disguise) between(parent string) string {
	var b strings.Builder

	b.WriteString(d.layout)

	if d.comments && d.P(0.2) {
		d.n["comment"]++
		b.WriteString(d.Str("<!-- <Node score=\"x\"/> -->", "<!---->", "<!-- ü & < -->"))
	}

	if d.pis && d.P(0.2) {
		d.n["processing_instruction"]++
		b.WriteString(d.Str("<?editor fold?>", "<?x <True/> ?>"))
	}

	if d.unknown && d.P(0.15) {
		d.n["unknown_element"]++
		n := d.Str("X-Vendor", "Info", "NodeInfo", "vendor:Node2")
		if d.P(0.3) {
			// case matters
			n = caseVariant(d.Rng, d.Str("Node", "True", "False", "Segment", "TreeModel", "MiningSchema", "Output", "Targets", "SimplePredicate", "Segmentation", "RegressionTable",
				"LocalTransformations", "DerivedField", "MiningField", "ScoreDistribution", "DataField", "Value", "Apply", "FieldRef", "Constant", "NumericPredictor", "ModelVerification"))
		}

		b.WriteString(d.junk(n, 2))
	}

	return b.String()
}

// junk is an element outside the schema; inside it anything may stand.
func (d *disguise) junk(name string, depth int) string {
	if strings.HasPrefix(name, "vendor:") {
		name = strings.TrimPrefix(name, "vendor:")
	}

	var b strings.Builder

	b.WriteString("<" + name + " name=\"junk\" score=\"7\" id=\"zz\"")

	if depth == 0 || d.P(0.2) {
		b.WriteString("/>")
		return b.String()
	}

	b.WriteString(">text ")

	for i := d.Range(0, 3); i > 0; i-- {
		n := d.Str("Node", "True", "False", "Segment", "MiningField", "TreeModel", "ScoreDistribution", "SimplePredicate", "Extension", "row",
			"DerivedField", "Array", "Constant", "X-Vendor", "InlineTable", "RegressionTable", name)
		b.WriteString(d.junk(n, depth-1))
	}

	b.WriteString("</" + name + ">")

	return b.String()
}

func (d *disguise) element(b *strings.Builder, e *El, parent string) {
	name := e.Name
	if !strings.Contains(name, ":") && parent != "row" {
		name = d.prefix + name
	}

	attrs := append([][2]string{}, e.Attrs...)

	if d.attrs {
		d.n["shuffled_attributes"]++
		d.Shuffle(len(attrs), func(i, j int) { attrs[i], attrs[j] = attrs[j], attrs[i] })
	}

	if d.foreign && d.P(0.1) {
		d.n["unknown_attribute"]++
		extra := d.Str("x-info", "vendorVersion", "Score")

		if known := fidAttrNames(); d.P(0.5) {
			// case matters
			extra = known[d.Intn(len(known))]
			if len(e.Attrs) > 0 && d.P(0.4) {
				extra = e.Attrs[d.Intn(len(e.Attrs))][0]
			}

			extra = caseVariant(d.Rng, extra)
		}

		attrs = append(attrs, [2]string{extra, d.Str("9", "9", "0", "true", "continuous", "x")})
	}

	b.WriteString("<" + name)

	for _, a := range attrs {
		b.WriteString(d.Str(" ", "  ", "\n "))
		b.WriteString(a[0] + d.Str("=", " = ") + d.quoted(a[1]))
	}

	if len(e.Kids) == 0 && e.Text == "" && d.P(0.7) {
		b.WriteString(d.Str("/>", " />"))
		return
	}

	b.WriteString(">")

	own := local(e.Name)
	leaf := own == "Array" || own == "Constant" || own == "Extension" || parent == "row" || own == "Annotation" || own == "Timestamp"

	switch {
	case own == "Extension":
		// kept as it was written
		b.WriteString(esc(e.Text, false))
	case e.Text != "":
		b.WriteString(d.chars(e.Text))
	}

	if leaf && d.comments && own != "Extension" && d.P(0.3) {
		d.n["comment_in_text"]++
		b.WriteString("<!-- 3 -->")
	}

	for _, k := range e.Kids {
		if !leaf && own != "row" && !(d.exact && e.Text != "") {
			b.WriteString(d.between(own))

			if own != "Extension" && d.unknown && !d.exact && d.P(0.15) {
				d.n["extension"]++
				b.WriteString(d.junk(d.prefix+"Extension", 3))
			}
		}

		d.element(b, k, own)
	}

	if !leaf && own != "row" && len(e.Kids) > 0 {
		b.WriteString(d.between(own))
	}

	b.WriteString("</" + name + d.Str("", " ") + ">")
}

// C19: what has no meaning in a document does not change its predictions,
// and a document which was cut off is refused.
func runDisguise(c *Ctx) {
	g, doc, _ := c.anyModel()
	plain := doc.String()

	_, m, err := load(plain)
	if err != nil {
		c.note("document:\n%s", plain)
		c.fail("a valid document was refused: %v", err)

		return
	}

	type item struct {
		row  Row
		want string
	}

	var items []item

	for i := 0; i < 4; i++ {
		row := g.modestRow()
		out, err := evaluate(m, toRow(nil, row))
		items = append(items, item{row, exact(out, err)})
	}

	for k := 0; k < 3 && !c.cut; k++ {
		d := newDisguise(c.Rng, false)
		worn := doc

		if c.P(0.4) {
			worn = doc.clone()
			d.n["ornament"] += g.ornament(worn, c.F(0.05, 0.3))
		}

		text := d.write(worn)

		_, other, err := load(text)
		if err != nil {
			c.note("document:\n%s", text)
			c.fail("the same document, written differently, was refused: %v", err)

			return
		}

		for _, it := range items {
			out, err := evaluate(other, toRow(nil, it.row))
			c.eval()

			if s := exact(out, err); s != it.want {
				c.note("document:\n%s", plain)
				c.note("written differently:\n%s", text)
				c.note("row: %s", showRef(it.row))
				c.fail("the plain document predicts %s, the other %s (%v)", it.want, s, err)

				return
			}
		}

		c.merge(d.n)
		c.nontrivial(text)
		c.sample("%s", text)

		// cut off anywhere before its end
		for j := 0; j < 3 && !c.cut; j++ {
			end := strings.LastIndex(text, "</")
			if end < 2 {
				break
			}

			cut := c.Intn(end)
			c.eval()
			c.event("truncated")

			if _, _, err := load(text[:cut]); err == nil || isPanic(err) {
				c.note("document:\n%s", text[:cut])
				c.fail("a document cut off after %d of %d bytes: %v", cut, len(text), err)
			}
		}
	}
}

// fidAttrNames are the names of all attributes of the schema.
var fidAttrNames = func() func() []string {
	var (
		once  sync.Once
		names []string
	)

	return func() []string {
		once.Do(func() { names = listAttrNames() })
		return names
	}
}()

func listAttrNames() []string {
	all := map[string]bool{}

	for _, t := range fidTypes {
		for _, a := range t.attrs {
			all[a.name] = true
		}
	}

	var names []string
	for n := range all {
		names = append(names, n)
	}

	sort.Strings(names)

	return names
}

// caseVariant is a name that differs from this one in case only, and means
// nothing in any document.
func caseVariant(r *Rng, name string) string {
	s := name

	switch r.Intn(4) {
	case 0:
		s = strings.ToLower(name)
	case 1:
		s = strings.ToUpper(name)
	case 2:
		s = strings.ToUpper(name[:1]) + name[1:]
	default:
		s = upper(name)
	}

	for _, n := range fidAttrNames() {
		if n == s {
			return "x-" + name
		}
	}

	for n := range fidTypes {
		if n == s {
			return "x-" + name
		}
	}

	return s
}
