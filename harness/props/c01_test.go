package props

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/benedoc-inc/pdfer/core/parse"
	"verif/harness/hx"
	"verif/harness/ref"
)

// rev is one revision of a modelled document.
type mobj struct {
	n, g  int
	body  []byte // text between the header and endobj
	instm int    // containing object stream, 0 if direct
	slen  int    // length of the stream data when /Length is indirect
}

type model struct {
	bytes   []byte
	ends    []int // end offset of each revision
	xrefs   []int
	views   []map[int]mobj // objects visible as of each revision (xref streams and object streams included)
	direct  []map[int]mobj // objects written directly in each revision
	freed   []map[int]bool // numbers freed as of each revision
	gone    map[int]bool   // numbers ever used but free in the last revision
	version string
	root    []int
	info    []int
	size    []int
	kinds   []string
	freedIn [][]int       // numbers each revision frees
	member  []map[int]int // objects each revision writes into object streams, with the stream
	offs    []map[int]int // where each revision writes its direct objects
	ids     [][][]byte    // file identifiers of each revision
	classes map[string]bool
}

type histOpts struct {
	maxRev    int
	big       bool // allow many objects
	noFree    bool
	tableOnly bool
}

// genBody draws the text of an object; streams get an exact /Length.
func genBody(c *hx.C, f *ref.File, maxRef int, streamOK bool, cls map[string]bool) []byte {
	fm := genFmt(c)
	if streamOK && oneIn(c, "isStream", 3) {
		var data []byte
		switch num(c, "sdata", 0, 4) {
		case 0:
			data = nil
			cls["empty-stream"] = true
		case 1, 2:
			data = blob(c, "data", num(c, "dlen", 1, 300))
		case 3:
			data = nastyBytes(c, "ndata", 12)
			cls["nasty-stream"] = true
		case 4:
			data = append(blob(c, "data", num(c, "dlen", 1, 30)), pick(c, "tail", "\n", "\r", "\r\n", " ", "\x00", "\n\n")...)
			cls["eol-tail-stream"] = true
		}
		d := genDict(c, 2, maxRef).Without("Length")
		return f.StreamBody(fm, d, data)
	}
	o := genObj(c, 3, maxRef)
	b := fm.Bytes(o)
	if bytes.Contains(b, []byte("stream")) || bytes.Contains(b, []byte("endobj")) || bytes.Contains(b, []byte(" obj")) {
		cls["nasty-object"] = true
	}
	return b
}

// indirectLength rewrites a stream body so that its /Length refers to object ln.
func indirectLength(body []byte, ln int) ([]byte, int, bool) {
	p := &ref.Parser{B: body}
	o, err := p.Object()
	if err != nil {
		return nil, 0, false
	}
	d, ok := o.(ref.Dict)
	if !ok {
		return nil, 0, false
	}
	end := p.Pos
	p.SkipWS()
	if !bytes.HasPrefix(body[p.Pos:], []byte("stream")) {
		return nil, 0, false
	}
	l := d.Get("Length").(int)
	d = append(d.Without("Length"), ref.KV{K: "Length", V: ref.Ref{N: ln}})
	return append([]byte(ref.Fmt{Sp: " "}.Bytes(d)), body[end:]...), l, true
}

// genHistory draws a document with 1..maxRev revisions and its model.
func genHistory(c *hx.C, o histOpts) *model {
	m := &model{classes: map[string]bool{}, gone: map[int]bool{}}
	m.version = pick(c, "ver", "1.7", "1.4", "1.5", "2.0", "1.0")
	eol := pick(c, "eol", "\n", "\n", "\r\n", "\r")
	f := ref.NewFile(m.version, eol, flip(c, "bin"))
	nrev := num(c, "nrev", 1, o.maxRev)
	if o.maxRev > 1 && oneIn(c, "longHistory", 10) {
		nrev = num(c, "nrevLong", o.maxRev, 16)
		m.classes["long-history"] = true
	}
	cur := map[int]mobj{}
	maxN := num(c, "maxN", 3, 30)
	if o.big && oneIn(c, "many", 8) {
		maxN = num(c, "maxNbig", 400, 1500)
		m.classes["many-objects"] = true
	}
	stmNums := map[int]bool{} // numbers holding object streams
	live := map[int]int{}     // object stream -> members currently resolved through it
	for r := 0; r < nrev; r++ {
		m.member = append(m.member, map[int]int{})
		useStream := !o.tableOnly && flip(c, "xrefstream")
		hybrid := !o.tableOnly && !useStream && oneIn(c, "hybrid", 3)
		direct := map[int]mobj{}
		put := func(n, g int, body []byte) {
			f.Obj(n, g, body)
			if old, ok := cur[n]; ok && old.instm != 0 {
				live[old.instm]--
				m.classes["redefine-compressed-as-direct"] = true
			}
			cur[n] = mobj{n: n, g: g, body: body}
			direct[n] = cur[n]
		}
		// choose numbers to write in this revision
		var ns []int
		if r == 0 {
			for n := 1; n <= maxN; n++ {
				if maxN > 100 {
					ns = append(ns, n)
				} else if !oneIn(c, "skip", 5) {
					ns = append(ns, n)
				}
			}
			if len(ns) == 0 {
				ns = []int{1}
			}
		} else {
			cnt := num(c, "nmod", 0, 5)
			seen := map[int]bool{}
			for i := 0; i < cnt; i++ {
				n := num(c, "mod", 1, maxN+2)
				if !seen[n] && live[n] == 0 && !stmNums[n] {
					seen[n] = true
					ns = append(ns, n)
				}
			}
		}
		for i, n := range ns {
			if stmNums[n] {
				ns[i] = 0
			}
		}
		// object streams need cross-reference streams
		var members []int
		if (useStream || hybrid) && len(ns) > 0 && flip(c, "useObjStm") {
			for _, n := range ns {
				if n != 0 && (maxN > 100 && n%3 == 0 || maxN <= 100 && flip(c, "compressed")) {
					members = append(members, n)
				}
			}
		}
		inM := map[int]bool{}
		for _, n := range members {
			inM[n] = true
		}
		order := append([]int(nil), ns...)
		if flip(c, "reverse") {
			for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
				order[i], order[j] = order[j], order[i]
			}
		}
		written := map[int]bool{}
		lenCount := 0
		for _, n := range order {
			if n == 0 || inM[n] {
				continue
			}
			g := 0
			if old, ok := cur[n]; ok {
				g = old.g
				if old.instm != 0 {
					g = 0
				}
			} else if !useStream && maxN <= 100 && oneIn(c, "gen", 8) {
				g = num(c, "g", 1, 65534)
				m.classes["nonzero-generation"] = true
			}
			var body []byte
			if maxN > 100 && n%17 != 0 {
				body = []byte(fmt.Sprintf("<< /K %d >>", n))
			} else {
				body = genBody(c, f, maxN, true, m.classes)
			}
			if maxN <= 100 && oneIn(c, "indirectLength", 3) && lenCount < 60 {
				if nb, l, ok := indirectLength(body, maxN+10*(nrev+2)+100*r+lenCount); ok {
					ln := maxN + 10*(nrev+2) + 100*r + lenCount
					lenCount++
					stmNums[ln] = true
					m.classes["indirect-length"] = true
					first := flip(c, "lengthFirst")
					if first {
						put(ln, 0, []byte(fmt.Sprint(l)))
					}
					put(n, g, nb)
					x := cur[n]
					x.slen = l
					cur[n], direct[n] = x, x
					if !first {
						put(ln, 0, []byte(fmt.Sprint(l)))
					}
					written[n] = true
					continue
				}
			}
			put(n, g, body)
			written[n] = true
		}
		next := maxN + 10*(r+1)
		for k := 0; len(members) > 0 && k < 2; k++ {
			ms := members
			if k == 0 && len(members) > 2 {
				ms = members[:len(members)/2]
			}
			members = members[len(ms):]
			var list []ref.Member
			sn := next
			if oneIn(c, "lowStm", 4) { // an object stream whose number is a suffix/prefix of another one
				for _, cand := range []int{1, 2, 3, 11, 12} {
					if _, used := cur[cand]; !used && !inM[cand] && !written[cand] && !stmNums[cand] && cand <= maxN {
						sn = cand
						break
					}
				}
			}
			if sn == next {
				next++
			}
			stmNums[sn] = true
			for _, n := range ms {
				body := []byte(fmt.Sprintf("<</K %d>>", n))
				if maxN <= 100 {
					body = genBody(c, f, maxN, false, m.classes)
				}
				list = append(list, ref.Member{N: n, Body: body})
				if old, ok := cur[n]; ok {
					if old.instm != 0 {
						live[old.instm]--
						m.classes["redefine-compressed-as-compressed"] = true
					} else {
						m.classes["redefine-direct-as-compressed"] = true
					}
				}
				cur[n] = mobj{n: n, body: body, instm: sn}
				m.member[r][n] = sn
				live[sn]++
			}
			off := f.Len()
			f.ObjStm(sn, genFmt(c), list, flip(c, "zip"), pick(c, "sep", " ", "\n"), nil)
			cur[sn] = mobj{n: sn, body: objText(f, off, sn, 0)}
			direct[sn] = cur[sn]
			m.classes["object-streams"] = true
		}
		// free something
		if r > 0 && !o.noFree && oneIn(c, "free", 2) {
			var cand []int
			for _, n := range sortedKeys(cur) {
				if !stmNums[n] && direct[n].n == 0 && !inM[n] {
					cand = append(cand, n)
				}
			}
			if len(cand) > 0 {
				n := cand[num(c, "freeIdx", 0, len(cand)-1)]
				f.Free(n, cur[n].g+1)
				if cur[n].instm != 0 {
					live[cur[n].instm]--
				}
				delete(cur, n)
				m.gone[n] = true
				m.classes["freed"] = true
			}
		}
		root := 1 + num(c, "root", 0, maxN-1)
		info := 1 + num(c, "info", 0, maxN-1)
		size := maxN + 10*(nrev+2) + 100*nrev + 1
		tr := ref.Dict{{K: "Size", V: size}, {K: "Root", V: ref.Ref{N: root}}, {K: "Info", V: ref.Ref{N: info}}}
		var ids [][]byte
		if flip(c, "id") {
			ids = [][]byte{blob(c, "id1", 16), blob(c, "id2", 16)}
			hex := flip(c, "idHex")
			tr = append(tr, ref.KV{K: "ID", V: ref.Arr{ref.Str{B: ids[0], Hex: hex}, ref.Str{B: ids[1], Hex: hex}}})
		}
		m.ids = append(m.ids, ids)
		if r > 0 {
			// keep the section non-empty
			if len(direct) == 0 && !useStream {
				n := 1
				for stmNums[n] || inM[n] || live[n] > 0 {
					n++
				}
				put(n, cur[n].g, []byte("(touched)"))
			}
		}
		fm := genFmt(c)
		var freed []int
		for _, n := range f.Freed() {
			freed = append(freed, n)
		}
		m.freedIn = append(m.freedIn, freed)
		if useStream || hybrid {
			xs := ref.XS{Num: next, Compress: flip(c, "xzip"), WidePad: pick(c, "wide", 0, 0, 1, 1, 2, 2, 8), Untyped: flip(c, "untyped"), MinLast: num(c, "minLast", 0, 3), Index: flip(c, "index")}
			if oneIn(c, "pred", 2) {
				xs.PredTags = pick(c, "tags", []byte{2}, []byte{0}, []byte{1}, []byte{1, 2}, []byte{2, 0, 1}, []byte{3}, []byte{4}, []byte{4, 3, 2, 1, 0})
				m.classes["xref-predictor"] = true
				if bytes.ContainsAny(xs.PredTags, "\x03\x04") {
					m.classes["xref-predictor-avg-paeth"] = true
				}
			}
			if !xs.Compress && xs.PredTags == nil {
				m.classes["xref-stream-uncompressed"] = true
			}
			off := f.Len()
			if hybrid {
				f.Decoys = oneIn(c, "decoys", 3)
				f.EndHybrid(fm, tr, xs, flip(c, "listFree"))
			} else {
				f.EndStream(fm, tr, xs)
			}
			cur[xs.Num] = mobj{n: xs.Num, body: objText(f, off, xs.Num, 0)}
			direct[xs.Num] = cur[xs.Num]
			stmNums[xs.Num] = true
			if hybrid {
				m.kinds = append(m.kinds, "hybrid")
				m.classes["hybrid"] = true
			} else {
				m.kinds = append(m.kinds, "stream")
				m.classes["xref-stream"] = true
			}
		} else {
			f.EndTable(fm, tr)
			m.kinds = append(m.kinds, "table")
			m.classes["xref-table"] = true
		}
		v := map[int]mobj{}
		for k, o := range cur {
			v[k] = o
			delete(m.gone, k)
		}
		offs := map[int]int{}
		for n := range direct {
			offs[n] = f.Off[n]
		}
		m.offs = append(m.offs, offs)
		m.views = append(m.views, v)
		m.direct = append(m.direct, direct)
		m.root = append(m.root, root)
		m.info = append(m.info, info)
		m.size = append(m.size, size)
		maxN = maxN + 0
	}
	m.bytes = f.Bytes()
	m.ends = f.Ends
	m.xrefs = f.Xrefs
	if eol == "\r" {
		m.classes["cr-eol"] = true
	}
	if len(m.views) > 1 {
		m.classes["incremental"] = true
	}
	return m
}

// objText returns the body of the indirect object the reference just wrote at off.
func objText(f *ref.File, off, n, g int) []byte {
	b := f.Bytes()[off:]
	i := bytes.Index(b, []byte(" obj")) + 4
	// these objects are streams with a binary payload; find the end with the reference parser
	p := &ref.Parser{B: b, Pos: i}
	o, err := p.Object()
	if err != nil {
		panic(err)
	}
	ln := o.(ref.Dict).Get("Length").(int)
	j := p.Pos + bytes.Index(b[p.Pos:], []byte("stream")) + 6
	if b[j] == '\r' {
		j++
	}
	if b[j] == '\n' {
		j++
	}
	j += ln
	j += bytes.Index(b[j:], []byte("endstream")) + 9
	return append([]byte(nil), bytes.TrimSpace(b[i:j])...)
}

func describe(m *model) string {
	s := ""
	for i := range m.views {
		s += fmt.Sprintf("rev%d[%s objs=%d direct=%d] ", i+1, m.kinds[i], len(m.views[i]), len(m.direct[i]))
	}
	var cl []string
	for k := range m.classes {
		cl = append(cl, k)
	}
	sort.Strings(cl)
	return fmt.Sprintf("%d bytes v%s %s%v hash=%x", len(m.bytes), m.version, s, cl, fnvb(m.bytes))
}

func fnvb(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, x := range b {
		h = (h ^ uint64(x)) * 1099511628211
	}
	return h
}

func (m *model) count(c *hx.C) {
	for k := range m.classes {
		c.Class(k)
	}
}

// checkView compares an opened document with the model as of revision r.
func checkView(c *hx.C, pdf *parse.PDF, m *model, r int, mode string) {
	want := m.views[r]
	got := map[int]bool{}
	for _, n := range pdf.Objects() {
		if got[n] {
			c.Fail("%s rev %d: Objects() lists %d twice", mode, r+1, n)
		}
		got[n] = true
	}
	for n, o := range want {
		if !got[n] || !pdf.HasObject(n) {
			c.Fail("%s rev %d: object %d is in use but not reported (in object stream: %d)", mode, r+1, n, o.instm)
		}
	}
	for n := range got {
		if _, ok := want[n]; !ok && n != 0 {
			c.Fail("%s rev %d: object %d is reported but not in use", mode, r+1, n)
		}
	}
	if pdf.ObjectCount() != len(want) {
		c.Fail("%s rev %d: ObjectCount %d, want %d", mode, r+1, pdf.ObjectCount(), len(want))
	}
	for _, n := range sortedKeys(want) {
		o := want[n]
		b, err := pdf.GetObject(n)
		if err != nil {
			c.Fail("%s rev %d: GetObject(%d): %v (in object stream %d)", mode, r+1, n, err, o.instm)
		}
		if g := stripIndirect(b, o.n, o.g); !bytes.Equal(g, bytes.TrimSpace(o.body)) {
			c.Fail("%s rev %d: GetObject(%d) (generation %d, object stream %d)\n got %q\nwant %q", mode, r+1, n, o.g, o.instm, b, o.body)
		}
	}
	for _, n := range []int{0, -1, 1 << 20, m.size[r] + 7} {
		if pdf.HasObject(n) && n != 0 {
			c.Fail("%s: HasObject(%d) is true", mode, n)
		}
		if _, err := pdf.GetObject(n); err == nil && n != 0 {
			c.Fail("%s: GetObject(%d) succeeded for an unused number", mode, n)
		}
	}
	if r == len(m.views)-1 {
		for n := range m.gone {
			if pdf.HasObject(n) {
				c.Fail("%s: freed object %d still reported", mode, n)
			}
		}
	}
	t := pdf.Trailer()
	if t == nil {
		c.Fail("%s: no trailer", mode)
	}
	if w := fmt.Sprintf("%d 0 R", m.root[r]); t.RootRef != w {
		c.Fail("%s rev %d: trailer root %q want %q", mode, r+1, t.RootRef, w)
	}
	if w := fmt.Sprintf("%d 0 R", m.info[r]); t.InfoRef != w {
		c.Fail("%s rev %d: trailer info %q want %q", mode, r+1, t.InfoRef, w)
	}
	if t.Size != m.size[r] {
		c.Fail("%s rev %d: trailer size %d want %d", mode, r+1, t.Size, m.size[r])
	}
	if v := pdf.Version(); v != m.version {
		c.Fail("%s: version %q want %q", mode, v, m.version)
	}
	if pdf.IsEncrypted() {
		c.Fail("%s: reported encrypted", mode)
	}
	if n := pdf.RevisionCount(); n != r+1 {
		c.Fail("%s: RevisionCount %d want %d", mode, n, r+1)
	}
}

func init() {
	hx.Reg("C02", "object-retrieval", 6000, "single-revision documents from the reference generator (tables, cross-reference streams, object streams, predictors, EOL styles, look-alike content); non-trivial: every one with at least 3 objects", func(c *hx.C) {
		m := genHistory(c, histOpts{maxRev: 1, big: true})
		c.Dump("input.pdf", m.bytes)
		m.count(c)
		if len(m.views[0]) >= 3 {
			c.NT(describe(m))
		}
		same := guard(m.bytes)
		pdf, err := parse.Open(m.bytes)
		if err != nil {
			c.Fail("Open: %v", err)
		}
		checkView(c, pdf, m, 0, "standard")
		if !bytes.Equal(pdf.Bytes(), m.bytes) || !bytes.Equal(pdf.Raw(), m.bytes) {
			c.Fail("Bytes()/Raw() differ from the input")
		}
		for n, o := range m.views[0] {
			b, err := parse.GetObject(m.bytes, n, nil, false)
			if err != nil || !bytes.Equal(stripIndirect(b, o.n, o.g), bytes.TrimSpace(o.body)) {
				c.Fail("parse.GetObject(%d) err=%v\n got %q\nwant %q", n, err, b, o.body)
			}
			if len(m.views[0]) > 100 && n > 20 {
				break
			}
		}
		if !same() {
			c.Fail("the input bytes were modified")
		}
	})
	hx.Reg("C03", "incremental-history", 6000, "documents with up to 5 revisions that add, replace, move between direct and compressed storage, and free objects; non-trivial: at least 2 revisions", func(c *hx.C) {
		m := genHistory(c, histOpts{maxRev: 5})
		c.Dump("input.pdf", m.bytes)
		m.count(c)
		if len(m.views) >= 2 {
			c.NT(describe(m))
		}
		last := len(m.views) - 1
		pdf, err := parse.Open(m.bytes)
		if err != nil {
			c.Fail("Open: %v", err)
		}
		checkView(c, pdf, m, last, "standard")
		if n := parse.CountRevisions(m.bytes); n != last+1 {
			c.Fail("CountRevisions %d want %d", n, last+1)
		}
		for r := 0; r <= last; r++ {
			b, err := parse.ExtractRevision(m.bytes, r+1)
			if err != nil {
				c.Fail("ExtractRevision(%d): %v", r+1, err)
			}
			if !bytes.Equal(bytes.TrimRight(b, "\r\n"), bytes.TrimRight(m.bytes[:m.ends[r]], "\r\n")) {
				c.Fail("ExtractRevision(%d) returned %d bytes, want the first %d", r+1, len(b), m.ends[r])
			}
			p2, err := parse.Open(b)
			if err != nil {
				c.Fail("opening extracted revision %d: %v", r+1, err)
			}
			checkView(c, p2, m, r, "extracted")
		}
		for _, n := range []int{0, -1, last + 2} {
			if _, err := parse.ExtractRevision(m.bytes, n); err == nil {
				c.Fail("ExtractRevision(%d) succeeded with %d revisions", n, last+1)
			}
		}
	})
	hx.Reg("C01", "byte-perfect", 5000, "documents with up to 4 revisions; raw objects, revisions and the whole document are compared byte for byte with the generator's layout; non-trivial: at least 3 objects", func(c *hx.C) {
		m := genHistory(c, histOpts{maxRev: 4})
		c.Dump("input.pdf", m.bytes)
		m.count(c)
		last := len(m.views) - 1
		if len(m.views[last]) >= 3 {
			c.NT(describe(m))
		}
		same := guard(m.bytes)
		pdf, err := parse.OpenWithOptions(m.bytes, parse.ParseOptions{BytePerfect: true})
		if err != nil {
			c.Fail("Open: %v", err)
		}
		if !bytes.Equal(pdf.Bytes(), m.bytes) {
			c.Fail("Bytes() differs from the input")
		}
		checkView(c, pdf, m, last, "byte-perfect")
		doc := pdf.Document()
		if doc == nil || doc.RevisionCount() != last+1 {
			c.Fail("document revisions")
		}
		if !bytes.Equal(doc.Bytes(), m.bytes) {
			c.Fail("Document().Bytes() differs from the input")
		}
		for n, o := range m.views[last] {
			raw, err := pdf.GetRawObject(n)
			if o.instm != 0 {
				continue
			}
			if err != nil {
				c.Fail("GetRawObject(%d): %v", n, err)
			}
			checkRaw(c, m, raw, o)
		}
		for r := 0; r <= last; r++ {
			for n, o := range m.direct[r] {
				raw := doc.GetObjectInRevision(n, r+1)
				if raw == nil {
					c.Fail("GetObjectInRevision(%d, %d) is nil", n, r+1)
				}
				checkRaw(c, m, raw, o)
			}
			rv := doc.Revisions[r]
			for n := range rv.Objects {
				if _, ok := m.direct[r][n]; !ok {
					c.Fail("revision %d reports object %d, which it does not contain", r+1, n)
				}
			}
			if int(rv.StartXRef) != m.xrefs[r] || int(rv.EndOffset) != m.ends[r] || rv.Number != r+1 {
				c.Fail("revision %d: startxref %d (want %d) end %d (want %d)", r+1, rv.StartXRef, m.xrefs[r], rv.EndOffset, m.ends[r])
			}
		}
		if doc.GetObject(1<<20) != nil || doc.GetObjectInRevision(1, last+2) != nil || doc.GetObjectInRevision(1, 0) != nil {
			c.Fail("absent object or revision reported")
		}
		if !same() {
			c.Fail("the input bytes were modified")
		}
	})
}

func checkRaw(c *hx.C, m *model, raw *parse.PDFRawObject, o mobj) {
	if raw.Number != o.n || raw.Generation != o.g {
		c.Fail("raw object is %d %d, want %d %d", raw.Number, raw.Generation, o.n, o.g)
	}
	if raw.Offset < 0 || int(raw.EndOffset) > len(m.bytes) || !bytes.Equal(m.bytes[raw.Offset:raw.EndOffset], raw.RawBytes) || !bytes.Equal(raw.Bytes(), raw.RawBytes) {
		c.Fail("raw object %d: bytes are not the slice [%d,%d) of the file", o.n, raw.Offset, raw.EndOffset)
	}
	if !bytes.HasPrefix(raw.RawBytes, []byte(fmt.Sprintf("%d %d obj", o.n, o.g))) || !bytes.HasSuffix(raw.RawBytes, []byte("endobj")) {
		c.Fail("raw object %d does not span header to endobj: %q", o.n, raw.RawBytes)
	}
	if got := stripIndirect(raw.RawBytes, o.n, o.g); !bytes.Equal(got, bytes.TrimSpace(o.body)) {
		c.Fail("raw object %d\n got %q\nwant %q", o.n, got, o.body)
	}
	if got := bytes.TrimSpace(raw.Content()); !bytes.Equal(got, bytes.TrimSpace(o.body)) {
		c.Fail("Content() of object %d\n got %q\nwant %q", o.n, got, o.body)
	}
	p := &ref.Parser{B: o.body}
	ob, err := p.Object()
	if err != nil {
		panic(err)
	}
	d, isDict := ob.(ref.Dict)
	p.SkipWS()
	isStream := isDict && bytes.HasPrefix(o.body[p.Pos:], []byte("stream"))
	if raw.IsStream != isStream {
		c.Fail("raw object %d: IsStream %v want %v: %q", o.n, raw.IsStream, isStream, o.body)
	}
	if isStream {
		j := p.Pos + 6
		if o.body[j] == '\r' {
			j++
		}
		if o.body[j] == '\n' {
			j++
		}
		n, ok := d.Get("Length").(int)
		if !ok {
			n = o.slen
		}
		want := o.body[j : j+n]
		if !bytes.Equal(raw.StreamRaw, want) || !bytes.Equal(raw.StreamData(), want) {
			c.Fail("raw object %d: stream data\n got %q\nwant %q", o.n, raw.StreamRaw, want)
		}
		if got, err := ref.ParseObject(raw.DictRaw); err != nil || ref.Canon(got) != ref.Canon(d) {
			c.Fail("raw object %d: dictionary %q (%v)", o.n, raw.DictRaw, err)
		}
	}
}
