package props

import (
	"bytes"
	"fmt"

	"verif/harness/hx"
	"verif/harness/ref"

	"github.com/benedoc-inc/pdfer/core/manipulate"
	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/core/write"
)

// C14: extract, split and merge keep every page intact.

// srcPage is a page of a source document.
type srcPage struct {
	d *pageModel
	i int
}

// graphCmp compares what objects of a source and of a result lead to. Pairs already met are taken as equal.
type graphCmp struct {
	src    *ref.Doc
	dst    *ref.Doc
	pages  map[int]bool         // page tree objects of the source
	copies map[int]map[int]bool // page of the source -> its copies in the result
	seen   map[[2]int]bool
	n      int
}

func (g *graphCmp) same(a, b ref.Obj, path string) error {
	if r, ok := a.(ref.Ref); ok {
		q, isRef := b.(ref.Ref)
		if !g.src.InUse()[r.N] {
			a = ref.Null{}
		} else if g.pages[r.N] {
			if len(g.copies[r.N]) == 0 {
				a = ref.Null{}
			} else if !isRef || !g.copies[r.N][q.N] {
				return fmt.Errorf("%s: leads to %s, want a copy of page object %d", path, canonOrNone(b), r.N)
			} else {
				return nil
			}
		} else if !isRef {
			o, err := g.src.Get(r.N)
			if err != nil {
				return err
			}
			if _, ok := o.(*ref.Stream); ok {
				return fmt.Errorf("%s: %s, want a reference to a stream", path, canonOrNone(b))
			}
			g.n++
			if g.n > 10000 {
				return fmt.Errorf("%s: reference replaced by its value without end", path)
			}
			return g.same(o, b, path)
		} else {
			k := [2]int{r.N, q.N}
			if g.seen[k] {
				return nil
			}
			g.seen[k] = true
			o, err := g.src.Get(r.N)
			if err != nil {
				return err
			}
			p, err := g.dst.Get(q.N)
			if err != nil {
				return fmt.Errorf("%s: %v", path, err)
			}
			return g.same(o, p, fmt.Sprintf("%s>%d:%d", path, r.N, q.N))
		}
	}
	switch v := a.(type) {
	case ref.Arr:
		w, ok := b.(ref.Arr)
		if !ok || len(v) != len(w) {
			return fmt.Errorf("%s: %s, want %s", path, canonOrNone(b), canonOrNone(a))
		}
		for i := range v {
			if err := g.same(v[i], w[i], fmt.Sprintf("%s[%d]", path, i)); err != nil {
				return err
			}
		}
		return nil
	case ref.Dict:
		w, ok := b.(ref.Dict)
		if !ok {
			return fmt.Errorf("%s: %s, want %s", path, canonOrNone(b), canonOrNone(a))
		}
		return g.dict(v, w, path)
	case *ref.Stream:
		w, ok := b.(*ref.Stream)
		if !ok {
			return fmt.Errorf("%s: %s, want a stream", path, canonOrNone(b))
		}
		if !bytes.Equal(v.Data, w.Data) {
			return fmt.Errorf("%s: stream data %.80q, want %.80q", path, w.Data, v.Data)
		}
		return g.dict(v.D.Without("Length"), w.D.Without("Length"), path)
	}
	if canonOrNone(a) != canonOrNone(b) {
		return fmt.Errorf("%s: %s, want %s", path, canonOrNone(b), canonOrNone(a))
	}
	return nil
}

// dict compares dictionaries; an entry that is null counts as absent.
func (g *graphCmp) dict(a, b ref.Dict, path string) error {
	for _, e := range a {
		v := b.Get(e.K)
		if v == nil {
			v = ref.Null{}
		}
		if err := g.same(e.V, v, path+"/"+e.K); err != nil {
			return err
		}
	}
	for _, e := range b {
		if !a.Has(e.K) {
			if _, null := e.V.(ref.Null); !null {
				return fmt.Errorf("%s/%s: %s, want none", path, e.K, canonOrNone(e.V))
			}
		}
	}
	return nil
}

// checkCopied compares a result with the source pages it was made of.
func checkCopied(out []byte, want []srcPage) error {
	dst, err := strictErr(out, nil, nil)
	if err != nil {
		return fmt.Errorf("strict reader: %v", err)
	}
	if dst.Trailer.Get("Encrypt") != nil {
		return fmt.Errorf("result is encrypted")
	}
	ps, err := dst.Pages()
	if err != nil {
		return fmt.Errorf("page tree: %v", err)
	}
	if len(ps) != len(want) {
		return fmt.Errorf("%d pages, want %d", len(ps), len(want))
	}
	cmps := map[*pageModel]*graphCmp{}
	for i, w := range want {
		g := cmps[w.d]
		if g == nil {
			g = &graphCmp{src: w.d.src, dst: dst, pages: map[int]bool{}, copies: map[int]map[int]bool{}, seen: map[[2]int]bool{}}
			for n := range w.d.nodes {
				g.pages[n] = true
			}
			for _, p := range w.d.pages {
				g.pages[p.n] = true
			}
			cmps[w.d] = g
		}
		n := w.d.pages[w.i].n
		if g.copies[n] == nil {
			g.copies[n] = map[int]bool{}
		}
		g.copies[n][ps[i].N] = true
	}
	for i, w := range want {
		p := w.d.pages[w.i]
		g := cmps[w.d]
		path := fmt.Sprintf("page %d (object %d, was page %d, object %d)", i+1, ps[i].N, w.i+1, p.n)
		own, got := p.d.Without("Parent"), ps[i].D.Without("Parent")
		for _, k := range inheritable {
			own, got = own.Without(k), got.Without(k)
			a, b := p.attr[k], ps[i].Attr[k]
			if a == nil {
				a = ref.Null{}
			}
			if b == nil {
				b = ref.Null{}
			}
			if err := g.same(a, b, path+"/"+k); err != nil {
				return err
			}
		}
		if err := g.dict(own, got, path); err != nil {
			return err
		}
	}
	if _, err := parse.Open(out); err != nil {
		return fmt.Errorf("the result does not open: %v", err)
	}
	return nil
}

func genSource(c *hx.C, tag string, max int) (*fd, *pageModel, []byte) {
	f, b := genPageDoc(c, tag, max)
	pw := f.user
	if pw != nil && flip(c, "byowner") {
		pw = f.owner
	}
	f.user = pw // the password to use
	return f, newPageModel(c, b, pw), b
}

func init() {
	hx.Reg("C14", "extract", 2000, "pages selected in any order, with repetitions and out of range, from documents of 1-8 pages with cyclic objects, links between pages, inherited attributes, encryption: every page of the result compared with its source, following all references, by an independent reader; non-trivial: 2+ pages selected of 2+, keyed by selection and file",
		func(c *hx.C) {
			f, m, b := genSource(c, "doc", 8)
			c.Dump("in.pdf", b)
			same := guard(b)
			n := len(m.pages)
			var sel []int
			bad := false
			for i, k := 0, count(c, "count", 0, 8, 40); i < k; i++ {
				p := 1 + spread(c, "page", n)
				if oneIn(c, "out", 30) {
					p = pick(c, "outpos", 0, -1, n+1, 1<<40)
				}
				bad = bad || p < 1 || p > n
				sel = append(sel, p)
			}
			bad = bad || len(sel) == 0
			keep := append([]int(nil), sel...)
			c.Keep("selection", sel)
			out, err := manipulate.ExtractPages(b, sel, f.user, false)
			c.See("extracted", out)
			if (err != nil) != bad {
				c.Fail("ExtractPages(%v) of %d pages: error %v, want one: %v", sel, n, err, bad)
			}
			if !same() || fmt.Sprint(keep) != fmt.Sprint(sel) {
				c.Fail("ExtractPages changed its arguments")
			}
			if bad {
				if len(out) > 0 {
					c.Fail("ExtractPages returned data with error %v", err)
				}
				c.Class("refused")
				return
			}
			var want []srcPage
			dup := map[int]bool{}
			for _, p := range sel {
				c.ClassIf(dup[p], "repeated page")
				dup[p] = true
				want = append(want, srcPage{m, p - 1})
			}
			if err := checkCopied(out, want); err != nil {
				c.Dump("out.pdf", out)
				c.Fail("ExtractPages(%v) of %d pages: %v", sel, n, err)
			}
			c.ClassIf(m.src.Crypt != nil, "encrypted")
			c.ClassIf(len(dup) < n, "pages left out")
			if len(sel) > 1 && n > 1 {
				c.NT(fmt.Sprintf("%v of %d %s hash %x", sel, n, f.form, fnvb(b)))
			}
		})

	hx.Reg("C14", "split-merge", 1000, "documents of 1-8 pages split by any ranges or by page count; every part compared page by page, and the parts merged compared with the original; non-trivial: 2+ parts, keyed by the ranges and file",
		func(c *hx.C) {
			f, m, b := genSource(c, "doc", 8)
			c.Dump("in.pdf", b)
			same := guard(b)
			n := len(m.pages)
			var ranges []manipulate.PageRange
			var parts [][]byte
			var err error
			bad := false
			partition := true
			desc := ""
			if flip(c, "bycount") {
				k := num(c, "per", 1, n+1)
				if oneIn(c, "badper", 20) {
					k = pick(c, "badk", 0, -1, -1<<62)
				} else if oneIn(c, "bigper", 20) {
					k = pick(c, "bigk", n+5, 1<<62, 1<<63-1)
				}
				bad = k < 1
				for s := 1; s <= n && !bad; s += k {
					e := n
					if k < n && s+k-1 < n {
						e = s + k - 1
					}
					ranges = append(ranges, manipulate.PageRange{Start: s, End: e})
					if k >= n {
						break
					}
				}
				desc = fmt.Sprintf("SplitPDFByPageCount(%d)", k)
				parts, err = manipulate.SplitPDFByPageCount(b, k, f.user, false)
			} else {
				if flip(c, "partition") {
					for s := 1; s <= n; {
						e := s + num(c, "len", 0, n-s)
						ranges = append(ranges, manipulate.PageRange{Start: s, End: e})
						s = e + 1
					}
				} else {
					partition = false
					for i, k := 0, num(c, "nr", 0, 4); i < k; i++ {
						s := num(c, "s", 1, n)
						r := manipulate.PageRange{Start: s, End: num(c, "e", s, n)}
						if oneIn(c, "badrange", 15) {
							r = pick(c, "br", manipulate.PageRange{Start: 0, End: 1}, manipulate.PageRange{Start: 1, End: n + 1}, manipulate.PageRange{Start: n + 1, End: n + 1}, manipulate.PageRange{Start: 2, End: 1}, manipulate.PageRange{Start: -1, End: n})
							bad = true
						}
						ranges = append(ranges, r)
					}
					bad = bad || len(ranges) == 0
				}
				desc = fmt.Sprintf("SplitPDF(%v)", ranges)
				keep := fmt.Sprint(ranges)
				c.Keep("ranges", ranges)
				parts, err = manipulate.SplitPDF(b, ranges, f.user, false)
				if keep != fmt.Sprint(ranges) {
					c.Fail("SplitPDF changed its ranges")
				}
			}
			if (err != nil) != bad {
				c.Fail("%s of %d pages: error %v, want one: %v", desc, n, err, bad)
			}
			if !same() {
				c.Fail("%s changed its input", desc)
			}
			if bad {
				if len(parts) > 0 {
					c.Fail("%s returned parts with error %v", desc, err)
				}
				c.Class("refused")
				return
			}
			if len(parts) != len(ranges) {
				c.Fail("%s of %d pages: %d parts, want %d", desc, n, len(parts), len(ranges))
			}
			var all []srcPage
			for i, r := range ranges {
				var want []srcPage
				for p := r.Start; p <= r.End; p++ {
					want = append(want, srcPage{m, p - 1})
				}
				all = append(all, want...)
				if err := checkCopied(parts[i], want); err != nil {
					c.Dump("part.pdf", parts[i])
					c.Fail("%s of %d pages, part %d: %v", desc, n, i+1, err)
				}
			}
			c.Keep("parts", parts)
			c.See("parts", parts)
			merged, err := manipulate.MergePDFs(parts, nil, false)
			c.See("merged", merged)
			if err != nil {
				c.Fail("MergePDFs of the parts: %v", err)
			}
			if err := sameSequence(merged, all); err != nil {
				c.Dump("merged.pdf", merged)
				c.Fail("%s of %d pages, merged again: %v", desc, n, err)
			}
			c.ClassIf(partition, "partition")
			if len(parts) > 1 {
				c.NT(fmt.Sprintf("%s of %d %s hash %x", desc, n, f.form, fnvb(b)))
			}
		})

	hx.Reg("C14", "merge", 1000, "1-4 documents (the same one twice, encrypted ones with their passwords, colliding object numbers) merged: every page compared with its source following all references; a wrong or missing password is refused; non-trivial: 2+ documents, keyed by the files",
		func(c *hx.C) {
			var files, pws, right [][]byte
			var want []srcPage
			key := ""
			var opens []bool
			bad := false
			k := num(c, "docs", 0, 4)
			for i := 0; i < k; i++ {
				var m *pageModel
				var b, pw []byte
				open := false // the user password is empty
				switch {
				case i > 0 && oneIn(c, "again", 5):
					b, pw, open = files[i-1], right[i-1], opens[i-1]
					m = newPageModel(c, b, pw)
				case oneIn(c, "built", 5):
					sb := write.NewSimplePDFBuilder()
					for j, n := 0, count(c, "bp", 1, 3, 40); j < n; j++ {
						pg := sb.AddPage(write.PageSizeLetter)
						builderProgram(c, pg.Content(), pg.AddStandardFont("Helvetica"))
						sb.FinalizePage(pg)
					}
					var err error
					if b, err = sb.Bytes(); err != nil {
						c.Fail("Bytes: %v", err)
					}
					m = newPageModel(c, b, nil)
				default:
					var f *fd
					f, m, b = genSource(c, fmt.Sprintf("doc%d", i), 3)
					pw, open = f.user, f.open
					if open && flip(c, "asuser") {
						pw = []byte{}
					}
				}
				right, opens = append(right, pw), append(opens, open)
				if m.src.Crypt != nil && !open && len(pw) > 0 && oneIn(c, "nopw", 10) {
					bad = true
					pw = pick(c, "wrongpw", []byte(nil), []byte("nope"))
				}
				c.Dump(fmt.Sprintf("in%d.pdf", i), b)
				files, pws = append(files, b), append(pws, pw)
				for j := range m.pages {
					want = append(want, srcPage{m, j})
				}
				key += fmt.Sprintf("%d pages hash %x; ", len(m.pages), fnvb(b))
				c.ClassIf(m.src.Crypt != nil, "encrypted source")
			}
			// an empty password need not be given
			for i := range pws {
				if len(pws[i]) == 0 {
					pws[i] = pick(c, "emptypw", nil, []byte{})
				}
			}
			list := pws
			for len(list) > 0 && len(list[len(list)-1]) == 0 && flip(c, "nopwentry") {
				list = list[:len(list)-1]
			}
			c.ClassIf(len(list) > 0 && len(list) < len(pws), "fewer passwords than documents")
			var sums []func() bool
			for _, b := range files {
				sums = append(sums, guard(b))
			}
			c.Keep("files", files)
			c.Keep("passwords", list)
			out, err := manipulate.MergePDFs(files, list, false)
			c.See("merged", out)
			bad = bad || k == 0
			if (err != nil) != bad {
				c.Fail("MergePDFs of %d documents: error %v, want one: %v", k, err, bad)
			}
			for _, s := range sums {
				if !s() {
					c.Fail("MergePDFs changed an input")
				}
			}
			if bad {
				c.Class("refused")
				return
			}
			if err := checkCopied(out, want); err != nil {
				c.Dump("out.pdf", out)
				c.Fail("MergePDFs of %d documents: %v", k, err)
			}
			if k > 1 {
				c.NT(key)
			}
		})
}

// sameSequence compares the pages of a merge of a split with the original pages: content, boxes, rotation.
func sameSequence(out []byte, want []srcPage) error {
	d, err := strictErr(out, nil, nil)
	if err != nil {
		return fmt.Errorf("strict reader: %v", err)
	}
	ps, err := d.Pages()
	if err != nil || len(ps) != len(want) {
		return fmt.Errorf("%d pages, want %d (%v)", len(ps), len(want), err)
	}
	for i, w := range want {
		p := w.d.pages[w.i]
		a, err := w.d.src.PageContent(ref.Page{D: p.d})
		if err != nil {
			return fmt.Errorf("harness: %v", err)
		}
		b, err := d.PageContent(ps[i])
		if err != nil || !bytes.Equal(a, b) {
			return fmt.Errorf("page %d: content %.80q, want %.80q (%v)", i+1, b, a, err)
		}
		g := &graphCmp{src: w.d.src, dst: d, seen: map[[2]int]bool{}, pages: map[int]bool{}}
		for _, k := range []string{"MediaBox", "CropBox"} {
			if (p.attr[k] == nil) != (ps[i].Attr[k] == nil) {
				return fmt.Errorf("page %d: %s %s, want %s", i+1, k, canonOrNone(ps[i].Attr[k]), canonOrNone(p.attr[k]))
			}
			if p.attr[k] != nil {
				if err := g.same(p.attr[k], ps[i].Attr[k], fmt.Sprintf("page %d/%s", i+1, k)); err != nil {
					return err
				}
			}
		}
		if r, err := rotation(d, ps[i].Attr["Rotate"]); err != nil || r != p.rot {
			return fmt.Errorf("page %d: rotation %d, want %d (%v)", i+1, r, p.rot, err)
		}
	}
	return nil
}
