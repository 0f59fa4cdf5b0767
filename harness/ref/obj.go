// Package ref is an independent model of the PDF file format: an object model,
// a serializer, a strict reader and the standard security handler. It shares no
// code with the library under test and serves as its oracle.
package ref

import (
	"bytes"
	"fmt"
	"sort"
	"strconv"
)

type Obj interface{}

type Null struct{}
type Name string
type Ref struct{ N, G int }
type Str struct {
	B   []byte
	Hex bool
}
type Real string // textual form
type Arr []Obj
type KV struct {
	K string
	V Obj
}
type Dict []KV
type Stream struct {
	D    Dict
	Data []byte // raw (encoded) data
}

func (d Dict) Get(k string) Obj {
	for i := len(d) - 1; i >= 0; i-- {
		if d[i].K == k {
			return d[i].V
		}
	}
	return nil
}

func (d Dict) Has(k string) bool {
	for _, e := range d {
		if e.K == k {
			return true
		}
	}
	return false
}

func (d Dict) With(k string, v Obj) Dict {
	out := Dict{}
	done := false
	for _, e := range d {
		if e.K == k {
			if !done {
				out = append(out, KV{k, v})
				done = true
			}
			continue
		}
		out = append(out, e)
	}
	if !done {
		out = append(out, KV{k, v})
	}
	return out
}

func (d Dict) Without(k string) Dict {
	out := Dict{}
	for _, e := range d {
		if e.K != k {
			out = append(out, e)
		}
	}
	return out
}

// Fmt controls the concrete syntax of a serialized object.
type Fmt struct {
	Sp    string // separator between dict entries and array elements (non-empty)
	Tight bool   // omit whitespace where the syntax allows it
}

var Plain = Fmt{Sp: " "}

func isRegular(c byte) bool {
	switch c {
	case 0, 9, 10, 12, 13, 32, '(', ')', '<', '>', '[', ']', '{', '}', '/', '%':
		return false
	}
	return true
}

func IsWhite(c byte) bool {
	switch c {
	case 0, 9, 10, 12, 13, 32:
		return true
	}
	return false
}

func WriteName(b *bytes.Buffer, n Name) {
	b.WriteByte('/')
	for i := 0; i < len(n); i++ {
		c := n[i]
		if c < 33 || c > 126 || c == '#' || !isRegular(c) {
			fmt.Fprintf(b, "#%02X", c)
		} else {
			b.WriteByte(c)
		}
	}
}

func WriteStr(b *bytes.Buffer, s Str) {
	if s.Hex {
		fmt.Fprintf(b, "<%X>", s.B)
		return
	}
	b.WriteByte('(')
	for _, c := range s.B {
		switch c {
		case '(', ')', '\\':
			b.WriteByte('\\')
			b.WriteByte(c)
		case '\r':
			b.WriteString("\\r")
		case '\n':
			b.WriteString("\\n")
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte(')')
}

func startsDelim(o Obj) bool {
	switch v := o.(type) {
	case Name, Arr, Dict, Str:
		_ = v
		return true
	}
	return false
}
func endsDelim(o Obj) bool {
	switch o.(type) {
	case Arr, Dict, Str:
		return true
	}
	return false
}

// Write serializes o (streams excluded).
func (f Fmt) Write(b *bytes.Buffer, o Obj) {
	switch v := o.(type) {
	case nil, Null:
		b.WriteString("null")
	case bool:
		if v {
			b.WriteString("true")
		} else {
			b.WriteString("false")
		}
	case int:
		b.WriteString(strconv.Itoa(v))
	case Real:
		b.WriteString(string(v))
	case Name:
		WriteName(b, v)
	case Ref:
		fmt.Fprintf(b, "%d %d R", v.N, v.G)
	case Str:
		WriteStr(b, v)
	case Arr:
		b.WriteByte('[')
		for i, e := range v {
			if i > 0 && !(f.Tight && (startsDelim(e) || endsDelim(v[i-1]))) {
				b.WriteString(f.Sp)
			}
			f.Write(b, e)
		}
		b.WriteByte(']')
	case Dict:
		b.WriteString("<<")
		for i, e := range v {
			if !f.Tight {
				b.WriteString(f.Sp)
			} else if i > 0 && false {
				b.WriteString(f.Sp)
			}
			WriteName(b, Name(e.K))
			if !(f.Tight && startsDelim(e.V)) {
				b.WriteByte(' ')
			}
			f.Write(b, e.V)
		}
		if !f.Tight {
			b.WriteString(f.Sp)
		}
		b.WriteString(">>")
	default:
		panic(fmt.Sprintf("ref: cannot write %T", o))
	}
}

func (f Fmt) Bytes(o Obj) []byte {
	var b bytes.Buffer
	f.Write(&b, o)
	return b.Bytes()
}

// Canon gives a canonical text of an object, independent of concrete syntax and
// of the order of dictionary keys; two objects are equal iff their Canon is.
func Canon(o Obj) string {
	var b bytes.Buffer
	canon(&b, o)
	return b.String()
}

func canon(b *bytes.Buffer, o Obj) {
	switch v := o.(type) {
	case nil, Null:
		b.WriteString("null")
	case Real:
		f, err := strconv.ParseFloat(string(v), 64)
		if err != nil {
			b.WriteString("real?" + string(v))
			return
		}
		if f == float64(int64(f)) {
			fmt.Fprintf(b, "%d", int64(f))
		} else {
			b.WriteString(strconv.FormatFloat(f, 'g', -1, 64))
		}
	case Name:
		fmt.Fprintf(b, "/%q", string(v))
	case Str:
		fmt.Fprintf(b, "(%x)", v.B)
	case Arr:
		b.WriteByte('[')
		for _, e := range v {
			canon(b, e)
			b.WriteByte(' ')
		}
		b.WriteByte(']')
	case Dict:
		m := map[string]Obj{}
		for _, e := range v {
			m[e.K] = e.V
		}
		ks := make([]string, 0, len(m))
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		b.WriteString("<<")
		for _, k := range ks {
			fmt.Fprintf(b, "%q ", k)
			canon(b, m[k])
			b.WriteByte(' ')
		}
		b.WriteString(">>")
	case *Stream:
		canon(b, v.D)
		fmt.Fprintf(b, "stream(%x)", v.Data)
	default:
		fmt.Fprintf(b, "%v", v)
	}
}
