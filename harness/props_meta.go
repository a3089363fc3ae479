package main

import (
	"fmt"
	"math"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/flukeish/pmml/evaluation"
	"github.com/flukeish/pmml/models"
)

// C14: the Go type which carries a value does not matter.
func runRepresentation(c *Ctx) {
	g := newGen(c.Rng)
	g.need("double")
	g.need("integer")
	g.miss = c.F(0, 0.2)

	doc := g.anyDoc()
	if c.P(0.3) {
		g.sprinkle(doc)
	}

	m, ok := c.open(doc)
	if !ok {
		return
	}

	types := map[string]string{}
	for _, f := range g.fields {
		types[f.name] = f.typ
	}

	keys := map[string]bool{}

	doc.walk(func(e *El) {
		if e.Name == "FieldColumnPair" {
			keys[e.A("field")] = true
		}

		// a key may be derived from another field
		if e.Name == "DerivedField" && e.A("name") == "derived key" {
			keys[e.Kid("FieldRef").A("field")] = true
		}
	})

	for i := 0; i < 5 && !c.cut; i++ {
		row := g.modestRow()
		if c.P(0.3) {
			row = g.row()
		}

		base := toRow(nil, row)
		a, aerr := evaluate(m, copyRow(base))

		for j := 0; j < 4 && !c.cut; j++ {
			in := evaluation.DataRow{}

			for _, k := range sortedKeys(row) {
				v := row[k]
				if v.K == 0 {
					if c.P(0.5) {
						in[k] = evaluation.NewValue(nil)
					}

					continue
				}

				rs := reps(v, types[k])

				// other spellings of the number, unless it may be shown as a string
				if !keys[k] && c.P(0.3) {
					if more := spellings(v); len(more) > 0 {
						rs = more
						c.event("spelled_otherwise")
					}
				}

				if v.K == 's' {
					rs = append(rs, named(v.S))
				}

				x := rs[c.Intn(len(rs))]
				in[k] = evaluation.NewValue(x)
				c.event(fmt.Sprintf("as_%T_for_%s", x, types[k]))
			}

			shown := showRow(in)
			b, berr := evaluate(m, in)
			c.eval()

			if exact(a, aerr) != exact(b, berr) {
				c.note("document:\n%s", doc)
				c.note("row: %s", showRow(base))
				c.note("the same row: %s", shown)
				c.fail("%s (%v) but %s (%v)", showRow(a), aerr, showRow(b), berr)
			} else {
				c.nontrivial(doc.String(), shown)
			}

			c.sample("%s\nrow %s\nas %s", doc, showRow(base), shown)
		}
	}

	// the conversions themselves
	for i := 0; i < 4 && !c.cut; i++ {
		c.conversions(g)
	}
}

func (c *Ctx) conversions(g *Gen) {
	f := Field{typ: c.Str("double", "float", "integer", "integer", "boolean")}
	v := g.value(f)

	switch {
	case f.typ == "integer" && c.P(0.3):
		// about the bounds of the types
		v.I = int64(1)<<uint(c.Pick(7, 8, 15, 16, 24, 31, 32, 53, 62)) + int64(c.Range(-2, 2))
		if c.P(0.3) {
			v.I = -v.I
		}
	case f.typ == "double" && c.P(0.2):
		v.F = math.Ldexp(float64(c.Range(1<<16, 1<<20-1)), c.Pick(0, 5, 20, 40, 43, 44, 44))
	}

	xs := reps(v, f.typ)
	if v.K == 'b' {
		xs = append(xs, spellings(v)...)
	}

	for _, x := range xs {
		val := evaluation.NewValue(x)
		c.eval()
		c.event("conversion")

		var got, want interface{}

		switch v.K {
		case 'f':
			got, want = val.Float64(), v.F

			// the float32 next to it, whichever way a tie goes
			if f := val.Float32(); f != float32(v.F) && math.Nextafter32(f, float32(v.F)) != float32(v.F) {
				c.fail("Float32 of %T(%v) is %v", x, x, f)
			}

			if v.F == math.Trunc(v.F) && math.Abs(v.F) < 1<<53 && val.Int64() != int64(v.F) {
				c.fail("Int64 of %T(%v) is %v", x, x, val.Int64())
			}
		case 'i':
			got, want = val.Int64(), v.I
			if v.I > -(1<<53) && v.I < 1<<53 && val.Float64() != float64(v.I) {
				c.fail("Float64 of %T(%v) is %v", x, x, val.Float64())
			}

			// a string or a float may take the way round a float64
			if f := val.Float32(); f != float32(v.I) && f != float32(float64(v.I)) {
				c.fail("Float32 of %T(%v) is %v", x, x, f)
			}
		case 'b':
			got, want = val.Bool(), v.B
		}

		if got != want {
			c.fail("%T(%v) converts to %v, not %v", x, x, got, want)
		}
	}
}

func (c *Ctx) anyModel() (*Gen, *El, bool) {
	g := newGen(c.Rng)
	g.need("double")
	g.miss = c.F(0, 0.3, 0.5)
	doc := g.anyDoc()

	if c.P(0.4) {
		g.sprinkle(doc)
	}

	if c.P(0.25) {
		c.indirect(doc, g.fields, 0.5)
	}

	if c.P(0.3) && withRecords(c.Rng, g, doc, c.event) != nil {
		c.event("with_verification_records")
	}

	return g, doc, true
}

// C15: a prediction is a function of the document and the row.
func runDeterminism(c *Ctx) {
	g, doc, _ := c.anyModel()
	broken := c.P(0.2) && g.spoil(doc)
	text := doc.String()

	var ms []evaluation.Model

	for i := 0; i < 3; i++ {
		_, m, err := load(text)
		if err != nil && broken {
			c.event("refused")
			return
		}

		if err != nil {
			c.note("document:\n%s", text)
			c.fail("a valid document was refused: %v", err)

			return
		}

		ms = append(ms, m)
	}

	var rows []Row
	for i := 0; i < 4; i++ {
		rows = append(rows, g.modestRow())
	}

	first := map[int]string{}

	// other things asked of the package in between
	var other act
	if c.P(0.3) {
		other = c.newAct(actKinds[c.Intn(len(actKinds))])
	}

	said := ""

	for i := 0; i < 48 && !c.cut; i++ {
		if other.do != nil && i%8 == 4 {
			got := other.do()
			if said == "" {
				said = got
			}

			if got != said {
				c.note("%s of:\n%s", other.what, other.text)
				c.fail("asked again it says %s, at first %s", got, said)
			}

			c.event("in_between")
		}

		k := c.Intn(len(rows))
		w := c.Intn(len(ms))

		// rows are rebuilt: Go randomises the order of each map anew
		out, err := evaluate(ms[w], toRow(c.Rng, rows[k]))
		c.eval()

		s := exact(out, err)
		if was, ok := first[k]; !ok {
			first[k] = s
			c.nontrivial(text, showRef(rows[k]))
		} else if was != s {
			c.note("document:\n%s", text)
			c.note("row: %s", showRef(rows[k]))
			c.fail("evaluation %d gave %s, an earlier one %s", i, s, was)
		} else {
			c.event("repeated_equal")
		}
	}

	c.sample("%s\nrow %s", text, showRef(rows[0]))
}

// spoil puts something into a document which cannot be evaluated, but where it
// may well be met by some rows only.
func (g *Gen) spoil(doc *El) bool {
	if g.P(0.3) {
		return g.breakDoc(doc) != ""
	}

	var es []*El

	doc.walk(func(e *El) {
		switch e.Name {
		case "Node":
			if _, ok := e.Has("score"); ok && len(e.All("ScoreDistribution")) == 0 {
				es = append(es, e)
			}
		case "Apply", "Constant", "NumericPredictor":
			es = append(es, e)
		}
	})

	if len(es) == 0 {
		return false
	}

	e := es[g.Intn(len(es))]

	switch e.Name {
	case "Node":
		e.set("score", "no number")
	case "Apply":
		e.set("function", g.Str("min", "equal", "concat"))

		if g.P(0.5) {
			*e = *el(g.Str("NormContinuous", "NormDiscrete", "Discretize", "TextIndex", "Lag", "Aggregate"), "field", "x")
		}
	case "Constant":
		e.set("dataType", "string")
	case "NumericPredictor":
		e.set("name", "no such field")
	}

	return true
}

// mess makes records of which verification cannot approve.
func (g *Gen) mess(doc *El) bool {
	done := false

	doc.walk(func(e *El) {
		if e.Name != "InlineTable" {
			return
		}

		for _, r := range e.Kids {
			for _, cell := range r.Kids {
				if strings.HasPrefix(cell.Name, "data:") && g.P(0.2) {
					cell.Text = g.Str("17", "no number", "-1e9")
					done = true
				}
			}
		}
	})

	return done
}

// dump writes out everything reachable from a value.
func dump(b *strings.Builder, v reflect.Value, depth int) {
	if depth > 200 {
		b.WriteString("...")
		return
	}

	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}

		fmt.Fprintf(b, "&%s(", v.Elem().Type())
		dump(b, v.Elem(), depth+1)
		b.WriteString(")")
	case reflect.Struct:
		b.WriteString("{")

		for i := 0; i < v.NumField(); i++ {
			b.WriteString(v.Type().Field(i).Name + ":")
			dump(b, v.Field(i), depth+1)
			b.WriteString(",")
		}

		b.WriteString("}")
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			b.WriteString("nil")
			return
		}

		b.WriteString("[")

		for i := 0; i < v.Len(); i++ {
			dump(b, v.Index(i), depth+1)
			b.WriteString(",")
		}

		b.WriteString("]")
	case reflect.Map:
		var parts []string

		for _, k := range v.MapKeys() {
			var kb strings.Builder
			dump(&kb, k, depth+1)
			kb.WriteString("=")
			dump(&kb, v.MapIndex(k), depth+1)
			parts = append(parts, kb.String())
		}

		sort.Strings(parts)
		b.WriteString("map" + strings.Join(parts, ";"))
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(b, "%v", v.Float())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprintf(b, "%d", v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprintf(b, "%d", v.Uint())
	case reflect.Bool:
		fmt.Fprintf(b, "%t", v.Bool())
	default:
		fmt.Fprintf(b, "(%s)", v.Kind())
	}
}

func dumpOf(x interface{}) string {
	var b strings.Builder
	dump(&b, reflect.ValueOf(x), 0)

	return b.String()
}

func firstDifference(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}

	cut := func(s string) string {
		from, to := i-80, i+80
		if from < 0 {
			from = 0
		}

		if to > len(s) {
			to = len(s)
		}

		return s[from:to]
	}

	return fmt.Sprintf("...%s... became ...%s...", cut(a), cut(b))
}

// C17: building, compiling, validating, verifying and evaluating leave the
// document and the caller's row as they are, and do not change predictions.
func runNoEffects(c *Ctx) {
	g, docEl, _ := c.anyModel()
	spoilt := c.P(0.2) && g.spoil(docEl)

	if c.P(0.3) && g.mess(docEl) {
		c.event("records_not_met")
	}

	text := docEl.String()

	doc, err := decodeDoc(text)
	if err != nil && spoilt {
		c.event("refused")
		return
	}

	if err != nil {
		c.note("document:\n%s", text)
		c.fail("a valid document was refused: %v", err)

		return
	}

	before := dumpOf(doc)

	if _, err := buildDoc(doc); err != nil && spoilt {
		if after := dumpOf(doc); after != before {
			c.note("document:\n%s", text)
			c.fail("building, which failed, changed the decoded document: %s", firstDifference(before, after))
		}

		c.event("refused")

		return
	}

	approved := ""

	var ms []evaluation.Model

	build := func() bool {
		m, err := buildDoc(doc)
		if err != nil {
			c.note("document:\n%s", text)
			c.fail("building model %d from the document: %v", len(ms), err)

			return false
		}

		ms = append(ms, m)

		return true
	}

	if !build() {
		return
	}

	var rows []Row
	for i := 0; i < 3; i++ {
		rows = append(rows, g.modestRow())
	}

	base := make([]string, len(rows))

	for i := range rows {
		out, err := evaluate(ms[0], toRow(nil, rows[i]))
		base[i] = exact(out, err)
	}

	log := []string{}
	check := func() {
		if after := dumpOf(doc); after != before {
			c.note("document:\n%s", text)
			c.note("operations: %s", strings.Join(log, ", "))
			c.fail("the decoded document changed: %s", firstDifference(before, after))
		}
	}

	check()

	for i := 0; i < 16 && !c.cut; i++ {
		m := ms[c.Intn(len(ms))]

		var opErr error

		switch c.Intn(11) {
		case 9:
			a := c.newAct(actKinds[c.Intn(len(actKinds))])
			log = append(log, "something else: "+a.what)
			_ = a.do()

			c.event("something_else")
		case 10:
			// the steps of an evaluation, on the document
			in := toRow(c.Rng, rows[c.Intn(len(rows))])
			rowBefore := showRow(in)

			switch c.Intn(3) {
			case 0:
				log = append(log, "HandleInput")
				out, _ := prepare(doc, in)

				if s := showRow(in); s != rowBefore {
					c.note("document:\n%s", text)
					c.fail("HandleInput made of the caller's row %s the row %s", rowBefore, s)
				}

				for o := range out {
					out[o] = evaluation.NewValue("overwritten")
				}
			case 1:
				log = append(log, "HandleExpression")
				_, _ = byHand(doc, in)
			case 2:
				log = append(log, "the constructor of its kind")

				if own, err := buildKind(doc); err == nil {
					_, _ = evaluate(own, in)
				}
			}

			c.event("steps")
		case 0:
			log = append(log, "compile")
			opErr = call(m.Compile)
		case 1:
			log = append(log, "validate")
			if opErr = call(m.Validate); spoilt && !isPanic(opErr) {
				opErr = nil
			}
		case 2:
			log = append(log, "verify")

			s := outcome(call(m.Verify))
			if approved == "" {
				approved = s
			}

			if s != approved || s == "panic" {
				opErr = fmt.Errorf("verification says %s, at first %s", s, approved)
			}
		case 3:
			if len(ms) < 4 {
				log = append(log, "build")

				if !build() {
					return
				}
			}
		default:
			k := c.Intn(len(rows))
			in := toRow(c.Rng, rows[k])
			rowBefore := showRow(in)
			out, err := evaluate(m, in)
			c.eval()
			log = append(log, fmt.Sprintf("evaluate row %d", k))

			if s := exact(out, err); s != base[k] {
				c.note("document:\n%s", text)
				c.note("operations: %s", strings.Join(log, ", "))
				c.note("row: %s", showRef(rows[k]))
				c.fail("after these operations the prediction is %s, at first it was %s", s, base[k])
			}

			if s := showRow(in); s != rowBefore {
				c.note("document:\n%s", text)
				c.note("row before: %s", rowBefore)
				c.note("row after: %s", s)
				c.fail("evaluating changed the caller's row")
			}

			// the result belongs to the caller
			for o := range out {
				out[o] = evaluation.NewValue("overwritten")
			}

			if out != nil {
				out["further"] = evaluation.NewValue(1)
			}

			for o := range in {
				in[o] = evaluation.NewValue("overwritten")
			}
		}

		if opErr != nil {
			c.note("document:\n%s", text)
			c.note("operations: %s", strings.Join(log, ", "))
			c.fail("%v", opErr)
		}

		if c.P(0.4) || i == 15 {
			check()
		}
	}

	c.events("operations", len(log))
	c.nontrivial(text, log)
	c.sample("%s\noperations: %s", text, strings.Join(log, ", "))
}

func call(f func() error) (err error) {
	defer guard(&err)
	return f()
}

// C16: under the race detector, everything at once from many goroutines.
func runConcurrent(c *Ctx) {
	type subject struct {
		text string
		doc  *models.PMML
		m    evaluation.Model
		rows []evaluation.DataRow
		want []string
		once sync.Once

		approved string
		err      error
	}

	// what the first of all to meet a document's texts, names and categories
	// leaves behind in the process must not come from this goroutine
	afterwards := c.P(0.5) || !c.w.warm
	c.w.warm = true

	var subjects []*subject

	// two documents at once, often: what is shared between models counts too
	for len(subjects) == 0 || len(subjects) < 3 && c.P(0.5) {
		g, docEl, _ := c.anyModel()
		if c.P(0.2) && g.mess(docEl) {
			c.event("records_not_met")
		}

		s := &subject{text: docEl.String()}
		c.note("document:\n%s", s.text)

		odd := c.P(0.3)

		for i := 0; i < 6; i++ {
			if odd {
				s.rows = append(s.rows, oddly(g, g.modestRow(), 0.1))
			} else {
				s.rows = append(s.rows, toRow(c.Rng, g.modestRow()))
			}
		}

		subjects = append(subjects, s)
	}

	// and what else there is to ask
	var acts []act
	for i := c.Range(1, 3); i > 0; i-- {
		acts = append(acts, c.newAct(actKinds[c.Intn(len(actKinds))]))
	}

	// the reference is a model of its own, so that the shared one is used
	// for the first time by many goroutines at once
	reference := func() bool {
		for _, s := range subjects {
			_, alone, err := load(s.text)
			if err != nil {
				c.fail("a valid document was refused: %v", err)
				return false
			}

			for _, row := range s.rows {
				out, err := evaluate(alone, copyRow(row))
				s.want = append(s.want, exact(out, err))
			}

			s.approved = outcome(verify(alone))
		}

		return true
	}

	share := func(s *subject) {
		s.once.Do(func() { s.doc, s.m, s.err = load(s.text) })
	}

	if afterwards {
		c.event("alone_afterwards")
	} else {
		c.event("alone_before")

		if !reference() {
			return
		}

		for _, s := range subjects {
			if share(s); s.err != nil {
				c.fail("a valid document was refused: %v", s.err)
				return
			}
		}
	}

	type seen struct {
		s    *subject
		row  int
		got  string
		what string
	}

	workers := c.Range(2, 12)
	runtime.GOMAXPROCS([]int{1, 2, 4, 8}[c.Intn(4)])

	var wg sync.WaitGroup

	var start sync.WaitGroup

	start.Add(1)

	problems := make([]string, workers)
	counts := make([]map[string]int, workers)
	log := make([][]seen, workers)

	type told struct {
		act int
		got string
	}

	answers := make([][]told, workers)

	var inFlight, most int32

	for w := 0; w < workers; w++ {
		wg.Add(1)

		r := &Rng{s: c.Next()}

		go func(w int) {
			defer wg.Done()

			n := map[string]int{}
			counts[w] = n

			start.Wait()

			for i := 0; i < 20 && problems[w] == ""; i++ {
				now := atomic.AddInt32(&inFlight, 1)
				for {
					was := atomic.LoadInt32(&most)
					if now <= was || atomic.CompareAndSwapInt32(&most, was, now) {
						break
					}
				}

				s := subjects[r.Intn(len(subjects))]

				switch r.Intn(13) {
				case 10, 11:
					k := r.Intn(len(acts))
					answers[w] = append(answers[w], told{k, acts[k].do()})
					n[acts[k].what]++
				case 12:
					// the steps of an evaluation, on the shared document
					if share(s); s.err == nil {
						_, _ = prepare(s.doc, s.rows[r.Intn(len(s.rows))])
						_, _ = byHand(s.doc, s.rows[r.Intn(len(s.rows))])
						n["steps_on_shared"]++
					}
				case 0:
					if _, err := decodeDoc(s.text); err != nil {
						problems[w] = fmt.Sprintf("decoding: %v", err)
					}

					n["decode"]++
				case 1:
					var own evaluation.Model

					share(s)

					err := s.err
					if err == nil {
						own, err = buildDoc(s.doc)
					}

					if err != nil {
						problems[w] = fmt.Sprintf("building from the shared document: %v", err)
						break
					}

					k := r.Intn(len(s.rows))
					out, err := evaluate(own, s.rows[k])
					log[w] = append(log[w], seen{s, k, exact(out, err), "a model built concurrently"})

					n["build"]++
				case 2:
					if share(s); s.err != nil {
						problems[w] = fmt.Sprintf("a valid document was refused: %v", s.err)
						break
					}

					log[w] = append(log[w], seen{s, -1, outcome(verify(s.m)), "verification"})

					n["verify"]++
				case 3:
					// all of its own
					_, own, err := load(s.text)
					if err != nil {
						problems[w] = fmt.Sprintf("a valid document was refused: %v", err)
						break
					}

					k := r.Intn(len(s.rows))
					out, err := evaluate(own, s.rows[k])
					log[w] = append(log[w], seen{s, k, exact(out, err), "a document of its own"})

					n["load"]++
				default:
					if share(s); s.err != nil {
						problems[w] = fmt.Sprintf("a valid document was refused: %v", s.err)
						break
					}

					k := r.Intn(len(s.rows))

					in := s.rows[k]
					if r.P(0.5) {
						in = copyRow(in)
					}

					out, err := evaluate(s.m, in)
					n["evaluate"]++
					log[w] = append(log[w], seen{s, k, exact(out, err), "the shared model"})
				}

				if r.P(0.2) {
					runtime.Gosched()
				}

				atomic.AddInt32(&inFlight, -1)
			}
		}(w)
	}

	start.Done()
	wg.Wait()

	if afterwards && !reference() {
		return
	}

	for w := range log {
		for _, e := range log[w] {
			if e.row < 0 {
				if e.got != e.s.approved && problems[w] == "" {
					problems[w] = fmt.Sprintf("verification: %s concurrently, alone %s", e.got, e.s.approved)
				}

				continue
			}

			if want := e.s.want[e.row]; e.got != want && problems[w] == "" {
				problems[w] = fmt.Sprintf("%s gave %s concurrently, alone %s, for row %s", e.what, e.got, want, showRow(e.s.rows[e.row]))
			}
		}
	}

	for w := range answers {
		for _, e := range answers[w] {
			if want := acts[e.act].do(); e.got != want && problems[w] == "" {
				problems[w] = fmt.Sprintf("%s of\n%s\ngave %s concurrently, alone %s", acts[e.act].what, acts[e.act].text, e.got, want)
			}
		}
	}

	for w := range problems {
		for k, v := range counts[w] {
			c.events("concurrent_"+k, v)
			c.w.res.Evals += v
		}

		if problems[w] != "" {
			c.fail("%s", problems[w])
			return
		}
	}

	if len(subjects) > 1 {
		c.event("several_documents_at_once")
	}

	c.event(fmt.Sprintf("at_most_%d_in_flight", most))
	c.nontrivial(subjects[0].text, workers)
	c.sample("%d goroutines over %d documents, the first\n%s", workers, len(subjects), subjects[0].text)
}

// C23: nothing accumulates.
func runSteady(c *Ctx) {
	g, docEl, _ := c.anyModel()
	text := docEl.String()

	doc, m, err := load(text)
	if err != nil {
		c.note("document:\n%s", text)
		c.fail("a valid document was refused: %v", err)

		return
	}

	heap := func() uint64 {
		var s runtime.MemStats

		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&s)

		return s.HeapAlloc
	}

	types := g.fields
	asStrings, bad, extra := c.P(0.4), c.P(0.2), c.P(0.2)

	hostile := c.P(0.1)
	if hostile {
		c.event("hostile_rows")
	}

	if asStrings {
		c.event("numbers_as_strings")
	}

	if bad {
		c.event("strings_that_are_no_numbers")
	}

	if extra {
		c.event("ever_new_names")
	}

	round := func(n int) {
		for i := 0; i < n; i++ {
			row := g.modestRow()
			in := toRow(c.Rng, row)

			// values never seen before
			for _, f := range types {
				if f.typ == "double" && row[f.name].K != 0 {
					in[f.name] = evaluation.NewValue(c.Float() * 4)
				}

				if f.typ == "string" && row[f.name].K != 0 && c.P(0.3) {
					in[f.name] = evaluation.NewValue(fmt.Sprintf("value %x", c.Next()))
				}

				if bad && row[f.name].K != 0 && f.typ != "string" && c.P(0.5) {
					in[f.name] = evaluation.NewValue(fmt.Sprintf("no number %x", c.Next()))
				} else if asStrings && row[f.name].K != 0 {
					switch f.typ {
					case "double", "float":
						in[f.name] = evaluation.NewValue(strconv.FormatFloat(c.Float()*4, 'g', -1, 64))
					case "integer":
						in[f.name] = evaluation.NewValue(strconv.Itoa(c.Intn(1 << 40)))
					}
				}
			}

			for _, f := range types {
				if f.typ == "integer" && row[f.name].K != 0 && !asStrings && c.P(0.5) {
					in[f.name] = evaluation.NewValue(c.Intn(1 << 40))
				}
			}

			if extra {
				in[fmt.Sprintf("name %x", c.Next())] = evaluation.NewValue(1.5)
			}

			if hostile {
				for _, f := range types {
					if c.P(0.3) {
						in[f.name] = evaluation.NewValue(g.hostile())
					}
				}
			}

			_, err := evaluate(m, in)
			if isPanic(err) {
				c.note("document:\n%s", text)
				c.fail("%v", err)

				return
			}

			if err != nil {
				c.event("evaluation_errors")
			}

			c.eval()
		}
	}

	round(500)

	a := heap()
	round(4000)

	b := heap()

	// a fixed-size cache is allowed for by looking at whether growth goes on
	if b > a+24_000 {
		if d, e, on := c.goesOn(heap, round, 8000, 48_000); on {
			c.note("document:\n%s", text)
			c.fail("live memory grows: %d bytes after 500 evaluations, %d after 4500, %d after 12500, %d after 36500", a, b, d, e)
		}
	}

	runtime.KeepAlive(m)

	// nor with the number of models built from the document and dropped
	rebuild := func(n int) {
		for i := 0; i < n; i++ {
			if again, err := buildDoc(doc); err == nil {
				_, _ = evaluate(again, toRow(nil, g.modestRow()))
				c.eval()
			}
		}
	}

	if c.P(0.2) && !c.cut {
		rebuild(50)

		a := heap()
		rebuild(400)

		b := heap()

		if b > a+24_000 {
			if d, e, on := c.goesOn(heap, rebuild, 800, 48_000); on {
				c.note("document:\n%s", text)
				c.fail("live memory grows with models rebuilt: %d bytes after 50, %d after 450, %d after 1250, %d after 3650", a, b, d, e)
			}
		}

		runtime.KeepAlive(doc)
		c.event("steady_rebuilding")
	}

	// nor with the number of documents decoded, built, used and dropped
	decode := func(n int) {
		for i := 0; i < n; i++ {
			_, again, err := load(text)
			if err == nil && i%2 == 0 {
				_ = verify(again)
				_, _ = evaluate(again, toRow(nil, g.modestRow()))
			}

			c.eval()
		}
	}

	if c.P(0.1) && !c.cut {
		decode(50)

		a := heap()
		decode(400)

		b := heap()

		if b > a+24_000 {
			if d, e, on := c.goesOn(heap, decode, 800, 48_000); on {
				c.note("document:\n%s", text)
				c.fail("live memory grows with documents decoded and built: %d bytes after 50, %d after 450, %d after 1250, %d after 3650", a, b, d, e)
			}
		}

		c.event("steady_decoding")
	}

	// nor with anything else asked of the package
	for i := 0; i < 2 && !c.cut && c.P(0.5); i++ {
		c.steadyActs(actKinds[c.Intn(len(actKinds))], heap)
	}

	c.event("steady")
	c.nontrivial(text)
	c.sample("%s\nlive bytes after 500 evaluations %d, after 4500 %d", text, a, b)
}

func (c *Ctx) steadyActs(kind string, heap func() uint64) {
	few := make([]act, 2)

	for i := range few {
		few[i] = c.newAct(kind)
	}

	asked := 0
	ask := func(n int) {
		for i := 0; i < n; i++ {
			if cheap(kind) || i%16 == 15 {
				// an ever new one
				_ = c.newAct(kind).do()
			} else {
				_ = few[asked%len(few)].do()
			}

			asked++

			c.eval()
		}
	}

	n := 400
	if cheap(kind) {
		n = 1500
	}

	ask(80)

	a := heap()
	ask(n)

	b := heap()

	if b > a+16_000 {
		if d, e, on := c.goesOn(heap, ask, 2*n, 32_000); on {
			c.note("%s of:\n%s", kind, few[0].text)
			c.fail("live memory grows: %d bytes after 80 times, %d after %d more, %d after %d more, %d after %d more", a, b, n, d, 2*n, e, 6*n)
		}
	}

	runtime.KeepAlive(few)
	c.event("steady_" + kind)
}

// goesOn tells whether live memory goes on growing, by the same amount for each
// repetition and no less.
func (c *Ctx) goesOn(heap func() uint64, repeat func(int), n int, bytes uint64) (d, e uint64, on bool) {
	b := heap()

	repeat(n)

	if d = heap(); d < b+bytes {
		c.event("growth_that_stopped")
		return d, 0, false
	}

	repeat(3 * n)

	if e = heap(); e < d+3*bytes {
		c.event("growth_that_stopped")
		return d, e, false
	}

	return d, e, true
}

func copyRow(row evaluation.DataRow) evaluation.DataRow {
	out := make(evaluation.DataRow, len(row))
	for k, v := range row {
		out[k] = v
	}

	return out
}
