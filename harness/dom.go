package main

import (
	"encoding/xml"
	"fmt"
	"io"
	"strings"
)

// El is a generic XML element. Generators build documents out of it and the
// reference interpreter reads them from it: neither uses the package under test.
type El struct {
	Name  string
	Attrs [][2]string
	Kids  []*El
	Text  string
}

func el(name string, attrs ...string) *El {
	e := &El{Name: name}
	for i := 0; i+1 < len(attrs); i += 2 {
		e.Attrs = append(e.Attrs, [2]string{attrs[i], attrs[i+1]})
	}

	return e
}

func (e *El) add(kids ...*El) *El {
	for _, k := range kids {
		if k != nil {
			e.Kids = append(e.Kids, k)
		}
	}

	return e
}

func (e *El) set(k, v string) *El {
	for i := range e.Attrs {
		if e.Attrs[i][0] == k {
			e.Attrs[i][1] = v
			return e
		}
	}

	e.Attrs = append(e.Attrs, [2]string{k, v})

	return e
}

func (e *El) del(k string) {
	for i := range e.Attrs {
		if e.Attrs[i][0] == k {
			e.Attrs = append(e.Attrs[:i], e.Attrs[i+1:]...)
			return
		}
	}
}

func (e *El) A(k string) string {
	v, _ := e.Has(k)
	return v
}

func (e *El) Has(k string) (string, bool) {
	for _, a := range e.Attrs {
		if a[0] == k {
			return a[1], true
		}
	}

	return "", false
}

func (e *El) Kid(name string) *El {
	if e == nil {
		return nil
	}

	for _, k := range e.Kids {
		if k.Name == name {
			return k
		}
	}

	return nil
}

func (e *El) All(names ...string) []*El {
	if e == nil {
		return nil
	}

	var out []*El

	for _, k := range e.Kids {
		for _, n := range names {
			if k.Name == n {
				out = append(out, k)
			}
		}
	}

	return out
}

func (e *El) clone() *El {
	c := &El{Name: e.Name, Text: e.Text}
	c.Attrs = append(c.Attrs, e.Attrs...)

	for _, k := range e.Kids {
		c.Kids = append(c.Kids, k.clone())
	}

	return c
}

func (e *El) walk(f func(*El)) {
	f(e)

	for _, k := range e.Kids {
		k.walk(f)
	}
}

func local(name string) string { return name[strings.LastIndex(name, ":")+1:] }

func esc(s string, attr bool) string {
	var b strings.Builder

	for _, r := range s {
		switch {
		case r == '&':
			b.WriteString("&amp;")
		case r == '<':
			b.WriteString("&lt;")
		case r == '>':
			b.WriteString("&gt;")
		case attr && r == '"':
			b.WriteString("&quot;")
		case attr && (r == '\n' || r == '\t' || r == '\r'):
			fmt.Fprintf(&b, "&#%d;", r)
		case r == '\r':
			b.WriteString("&#13;")
		default:
			b.WriteRune(r)
		}
	}

	return b.String()
}

func (e *El) write(b *strings.Builder, indent string) {
	b.WriteString(indent + "<" + e.Name)

	for _, a := range e.Attrs {
		b.WriteString(" " + a[0] + `="` + esc(a[1], true) + `"`)
	}

	if len(e.Kids) == 0 && e.Text == "" {
		b.WriteString("/>\n")
		return
	}

	b.WriteString(">" + esc(e.Text, false))

	if len(e.Kids) > 0 {
		b.WriteString("\n")

		for _, k := range e.Kids {
			k.write(b, indent+" ")
		}

		b.WriteString(indent)
	}

	b.WriteString("</" + e.Name + ">\n")
}

func (e *El) String() string {
	var b strings.Builder
	e.write(&b, "")

	return b.String()
}

// parseDOM reads a document without the package under test.
func parseDOM(r io.Reader) (*El, error) {
	d := xml.NewDecoder(r)

	var stack []*El

	var root *El

	for {
		tok, err := d.Token()
		if err == io.EOF {
			break
		}

		if err != nil {
			return nil, err
		}

		switch t := tok.(type) {
		case xml.StartElement:
			e := &El{Name: t.Name.Local}
			for _, a := range t.Attr {
				if a.Name.Space == "xmlns" || a.Name.Local == "xmlns" {
					continue
				}

				e.Attrs = append(e.Attrs, [2]string{a.Name.Local, a.Value})
			}

			if len(stack) > 0 {
				p := stack[len(stack)-1]
				p.Kids = append(p.Kids, e)
			} else {
				root = e
			}

			stack = append(stack, e)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
		case xml.CharData:
			if len(stack) > 0 {
				stack[len(stack)-1].Text += string(t)
			}
		}
	}

	if root == nil {
		return nil, fmt.Errorf("no root element")
	}

	return root, nil
}
