package props

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"github.com/benedoc-inc/pdfer/core/parse"
	"verif/harness/hx"
	"verif/harness/ref"
)

// genLinear draws a document in the layout of linearised files: the cross-reference section that startxref names comes first and its /Prev points forward to the main section near the end. Either section may be a table or a stream, the latter with object streams.
func genLinear(c *hx.C) *model {
	m := &model{classes: map[string]bool{"linearised": true}, gone: map[int]bool{}, version: pick(c, "ver", "1.5", "1.7", "1.4")}
	eol := pick(c, "eol", "\n", "\n", "\r\n", "\r")
	f := ref.NewFile(m.version, eol, flip(c, "bin"))
	n := num(c, "n", 3, 25)
	first := num(c, "first", 1, n) // objects first..n are those of the first section
	if first == 1 {
		m.classes["main-empty"] = true
	}
	cur, views := map[int]mobj{}, map[int]mobj{}
	texts := map[int][]byte{}
	var order [2][]int // objects of the main and of the first section, in file order
	kind := [2]bool{flip(c, "mainStream"), flip(c, "firstStream")}
	entries := [2]map[int]ref.Entry{{0: {Gen: 65535}}, {}}
	next := n + 1
	for p := 0; p < 2; p++ {
		lo, hi := 1, first-1
		if p == 1 {
			lo, hi = first, n
		}
		var members []ref.Member
		sn := 0
		if kind[p] && flip(c, "objstm") {
			sn = next
			next++
		}
		for i := lo; i <= hi; i++ {
			if sn != 0 && flip(c, "compressed") {
				body := genBody(c, f, n, false, m.classes)
				entries[p][i] = ref.Entry{Type: 2, Offset: sn, Gen: len(members)}
				members = append(members, ref.Member{N: i, Body: body})
				cur[i] = mobj{n: i, body: body, instm: sn}
				continue
			}
			body := genBody(c, f, n, true, m.classes)
			texts[i] = f.Obj(i, 0, body)
			cur[i] = mobj{n: i, body: body}
			order[p] = append(order[p], i)
		}
		if len(members) > 0 {
			off := f.Len()
			f.ObjStm(sn, genFmt(c), members, flip(c, "zip"), pick(c, "sep", " ", "\n"), nil)
			texts[sn] = bytes.TrimSpace(f.Bytes()[off:])
			cur[sn] = mobj{n: sn, body: objText(f, off, sn, 0)}
			order[p] = append(order[p], sn)
		}
		if flip(c, "backwards") {
			for i, j := 0, len(order[p])-1; i < j; i, j = i+1, j-1 {
				order[p][i], order[p][j] = order[p][j], order[p][i]
			}
		}
	}
	xnum := [2]int{}
	for p := range kind {
		if kind[p] {
			xnum[p] = next
			next++
		}
	}
	size := next
	root, info := num(c, "root", 1, n), num(c, "info", 1, n)
	fm := ref.Fmt{Sp: " "}
	id := ref.Arr{ref.Str{B: blob(c, "id", 16), Hex: true}, ref.Str{B: blob(c, "id", 16), Hex: true}}
	mainRoot, inner, wide := flip(c, "mainRoot"), !oneIn(c, "noInnerEOF", 4), num(c, "wide", 3, 6)
	firstObjsBefore := flip(c, "firstObjsBefore")
	at := [2]int{} // offsets of the sections
	section := func(out *bytes.Buffer, p int) {
		at[p] = out.Len()
		if kind[p] {
			entries[p][xnum[p]] = ref.Entry{Type: 1, Offset: at[p]}
		}
		var runs [][]int
		ns := sortedKeys(entries[p])
		for i, k := range ns {
			if i == 0 || ns[i-1] != k-1 {
				runs = append(runs, nil)
			}
			runs[len(runs)-1] = append(runs[len(runs)-1], k)
		}
		tr := ref.Dict{{K: "Size", V: size}}
		if p == 1 || mainRoot {
			tr = append(tr, ref.KV{K: "Root", V: ref.Ref{N: root}}, ref.KV{K: "Info", V: ref.Ref{N: info}}, ref.KV{K: "ID", V: id})
		}
		prev := ""
		if p == 1 {
			prev = fmt.Sprintf("/Prev %-10d ", m.xrefs[0])
		}
		if !kind[p] {
			out.WriteString("xref" + eol)
			e := " " + eol
			if len(eol) == 2 {
				e = eol
			}
			for _, r := range runs {
				fmt.Fprintf(out, "%d %d%s", r[0], len(r), eol)
				for _, k := range r {
					t := "n"
					if entries[p][k].Type == 0 {
						t = "f"
					}
					fmt.Fprintf(out, "%010d %05d %s%s", entries[p][k].Offset, entries[p][k].Gen, t, e)
				}
			}
			d := fm.Bytes(tr)
			out.WriteString("trailer" + eol + string(d[:len(d)-2]) + prev + ">>" + eol)
		} else {
			var data []byte
			idx := ref.Arr{}
			for _, r := range runs {
				idx = append(idx, r[0], len(r))
				for _, k := range r {
					var b [8]byte
					binary.BigEndian.PutUint64(b[:], uint64(entries[p][k].Offset))
					data = append(append(data, byte(entries[p][k].Type)), b[8-wide:]...)
					data = append(data, byte(entries[p][k].Gen>>8), byte(entries[p][k].Gen))
				}
			}
			tr = append(tr, ref.KV{K: "Type", V: ref.Name("XRef")}, ref.KV{K: "W", V: ref.Arr{1, wide, 2}}, ref.KV{K: "Index", V: idx}, ref.KV{K: "Length", V: len(data)})
			d := fm.Bytes(tr)
			seol := eol
			if eol == "\r" {
				seol = "\r\n"
			}
			body := string(d[:len(d)-2]) + prev + ">>" + seol + "stream" + seol + string(data) + seol + "endstream"
			fmt.Fprintf(out, "%d 0 obj%s%s%sendobj%s", xnum[p], eol, body, eol, eol)
			views[xnum[p]] = mobj{n: xnum[p], body: []byte(body)}
		}
	}
	m.xrefs = []int{0, 0}
	for pass := 0; pass < 3; pass++ {
		var out bytes.Buffer
		out.Write(f.Bytes()[:bytes.Index(f.Bytes(), []byte(eol))+len(eol)])
		objs := func(p int) {
			for _, k := range order[p] {
				e := ref.Entry{Type: 1, Offset: out.Len()}
				entries[p][k] = e
				out.Write(texts[k])
				out.WriteString(eol)
			}
		}
		if firstObjsBefore {
			objs(1)
		}
		section(&out, 1)
		if inner {
			out.WriteString("startxref" + eol + "0" + eol + "%%EOF" + eol)
		}
		if !firstObjsBefore {
			objs(1)
		}
		objs(0)
		section(&out, 0)
		fmt.Fprintf(&out, "startxref%s%d%s%%%%EOF%s", eol, at[1], eol, eol)
		m.bytes = out.Bytes()
		m.xrefs = []int{at[0], at[1]}
	}
	for k, o := range cur {
		views[k] = o
	}
	m.views = []map[int]mobj{views}
	m.root, m.info, m.size, m.ends = []int{root}, []int{info}, []int{size}, []int{len(m.bytes)}
	for p, s := range kind {
		m.classes[[]string{"main", "first"}[p]+map[bool]string{true: "-stream", false: "-table"}[s]] = true
	}
	return m
}

func init() {
	hx.Reg("C02", "linearised", 2000, "documents in the layout of linearised files: startxref names a section at the beginning of the file whose /Prev points forward to the main one, each a table or a stream; non-trivial: the main section has objects", func(c *hx.C) {
		m := genLinear(c)
		c.Dump("input.pdf", m.bytes)
		for k := range m.classes {
			c.Class(k)
		}
		if d, err := ref.ReadDoc(m.bytes); err != nil || len(d.XrefAt) != 2 {
			panic(fmt.Sprintf("harness: the reference reader refuses the document: %v", err))
		}
		if !m.classes["main-empty"] {
			c.NT(fmt.Sprintf("%x", fnvb(m.bytes)))
		}
		for _, perfect := range []bool{false, true} {
			pdf, err := parse.OpenWithOptions(m.bytes, parse.ParseOptions{BytePerfect: perfect})
			if err != nil {
				c.Fail("Open (byte-perfect %v): %v", perfect, err)
			}
			checkView(c, pdf, m, 0, fmt.Sprintf("byte-perfect %v", perfect))
			if !bytes.Equal(pdf.Bytes(), m.bytes) {
				c.Fail("Bytes() differs from the input")
			}
		}
		for n, o := range m.views[0] {
			b, err := parse.GetObject(m.bytes, n, nil, false)
			if err != nil || !bytes.Equal(stripIndirect(b, o.n, o.g), bytes.TrimSpace(o.body)) {
				c.Fail("parse.GetObject(%d) err=%v\n got %q\nwant %q", n, err, b, o.body)
			}
		}
	})
}
