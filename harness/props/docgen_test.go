package props

import (
	"bytes"
	"encoding/ascii85"
	"fmt"

	"verif/harness/hx"
	"verif/harness/ref"
)

// fd assembles a document as an object graph and renders it in a drawn file form.
type fd struct {
	c       *hx.C
	objs    map[int]ref.Obj
	next    int
	trailer ref.Dict
	noInd   bool // never wrap values in indirect objects
	version string
	user    []byte // non-nil: encrypt
	owner   []byte
	open    bool // the user password is empty
	crypt   *ref.Crypt
	form    string
	reused  int         // not 0: one in so many objects has a generation other than 0
	gens    map[int]int // those generations

	cryptFilters []func() // what takes the crypt filters out of streams again
}

func newFD(c *hx.C) *fd {
	f := &fd{c: c, objs: map[int]ref.Obj{}, next: num(c, "firstObj", 1, 3), version: pick(c, "version", "1.4", "1.5", "1.7", "2.0")}
	if oneIn(c, "reused", 6) {
		f.reused, f.gens = num(c, "reusedn", 1, 4), map[int]int{}
	}
	return f
}

func (f *fd) reserve() ref.Ref {
	r := ref.Ref{N: f.next}
	if f.reused > 0 && r.N%f.reused == 0 {
		r.G = pick(f.c, "gen", 1, 2, 9, 10, 255, 256, 300, 65534)
		f.gens[r.N] = r.G
	}
	f.next++
	if oneIn(f.c, "gap", 10) {
		f.next += num(f.c, "gapn", 1, 12)
	}
	return r
}

func (f *fd) add(o ref.Obj) ref.Ref {
	r := f.reserve()
	f.objs[r.N] = o
	return r
}

func (f *fd) set(r ref.Ref, o ref.Obj) { f.objs[r.N] = o }

// ind returns the value itself or, one time in four, a reference to an object holding it.
func (f *fd) ind(o ref.Obj) ref.Obj {
	if f.noInd || !oneIn(f.c, "ind", 4) {
		return o
	}
	return f.add(o)
}

// stream adds a stream object, compressed or not, with its length direct or indirect.
func (f *fd) stream(d ref.Dict, data []byte) ref.Ref {
	c := f.c
	switch num(c, "sfilter", 0, 6) {
	case 1:
		data = ref.Deflate(data)
		d = d.With("Filter", ref.Name("FlateDecode"))
	case 2:
		data = ref.Deflate(data)
		d = d.With("Filter", ref.Arr{ref.Name("FlateDecode")})
	case 3:
		if len(data) < 4000 {
			data = []byte(fmt.Sprintf("%x>", ref.Deflate(data)))
			d = d.With("Filter", ref.Arr{ref.Name("ASCIIHexDecode"), ref.Name("FlateDecode")})
		}
	case 4: // a predictor, whose rows the data fills
		cols := num(c, "columns", 1, 7)
		for len(data)%cols != 0 {
			cols--
		}
		tags := make([]byte, max(1, len(data)/cols))
		for i := range tags {
			tags[i] = byte(i*cols+i/3) % 5
		}
		data = ref.Deflate(ref.Predict(data, cols, 1, 8, tags))
		var p ref.Obj = ref.Dict{{K: "Columns", V: cols}, {K: "Predictor", V: num(c, "predictor", 10, 15)}}
		var filter ref.Obj = ref.Name("FlateDecode")
		if flip(c, "listed") {
			filter = ref.Arr{filter}
			p = ref.Arr{p}
		}
		d = d.With("Filter", filter).With("DecodeParms", p)
	case 5: // two filters, the second one with parameters
		var enc []byte
		data = ref.Deflate(ref.Predict(data, 1, 1, 8, []byte{1}))
		for len(data) > 0 {
			n := min(len(data), 128)
			enc = append(append(enc, byte(n-1)), data[:n]...)
			data = data[n:]
		}
		data = append(enc, 128)
		d = d.With("Filter", ref.Arr{ref.Name("RunLengthDecode"), ref.Name("FlateDecode")}).With("DecodeParms", ref.Arr{ref.Null{}, ref.Dict{{K: "Predictor", V: 12}}})
	case 6:
		var b bytes.Buffer
		w := ascii85.NewEncoder(&b)
		w.Write(data)
		w.Close()
		data = append(b.Bytes(), "~>"...)
		d = d.With("Filter", ref.Name("ASCII85Decode"))
	}
	if f.user == nil && oneIn(c, "cryptFilter", 30) {
		n := f.rawStream(withCrypt(d), data)
		f.cryptFilters = append(f.cryptFilters, func() {
			if s, ok := f.objs[n.N].(*ref.Stream); ok {
				s.D = d
			}
		})
		return n
	}
	return f.rawStream(d, data)
}

// withCrypt gives a stream a crypt filter that changes nothing.
func withCrypt(d ref.Dict) ref.Dict {
	filters, parms := ref.Arr{ref.Name("Crypt")}, ref.Arr{ref.Null{}}
	list := func(l ref.Arr, o ref.Obj) ref.Arr {
		switch o := o.(type) {
		case nil:
			return l
		case ref.Arr:
			return append(l, o...)
		}
		return append(l, o)
	}
	filters, parms = list(filters, d.Get("Filter")), list(parms, d.Get("DecodeParms"))
	if d = d.With("Filter", filters); len(parms) == 1 {
		return d
	}
	return d.With("DecodeParms", parms)
}

func (f *fd) rawStream(d ref.Dict, data []byte) ref.Ref {
	return f.add(&ref.Stream{D: d, Data: append([]byte(nil), data...)})
}

// emit renders the file: table or stream cross-reference, objects in object streams,
// ascending or shuffled order, any line ending, in one revision or two.
func (f *fd) emit() []byte {
	c := f.c
	if change, ok := c.Local["emit"].(func(*fd)); ok { // changes the objects before they are rendered
		change(f)
	}
	eol := pick(c, "eol", "\n", "\r\n", "\r")
	file := ref.NewFile(f.version, eol, flip(c, "bin"))
	fm := genFmt(c)
	stream := flip(c, "xstream")
	f.form = "table"
	if stream {
		f.form = "stream"
	}
	id := ref.Arr{ref.Str{B: []byte("0123456789abcdef")}, ref.Str{B: []byte("fedcba9876543210"), Hex: true}}
	tr := append(ref.Dict{}, f.trailer...)
	encN := 0
	var iv func() []byte
	if f.user != nil {
		// before version 4 there are no crypt filters
		for _, undo := range f.cryptFilters {
			undo()
		}
		v, r, kl, aes := 2, 3, 16, false
		switch num(c, "alg", 0, 6) {
		case 0:
			v, r, kl = 1, 2, 5
		case 1:
			v, r, kl = 1, 3, 5
		case 2:
			kl = num(c, "klen", 5, 16)
		case 3:
			v, r = 4, 4
		case 4:
			v, r, aes = 4, 4, true
		case 5:
			v, r, kl, aes = 5, 5, 32, true
		case 6:
			v, r, kl, aes = 5, 6, 32, true
		}
		idb := []byte("0123456789abcdef")
		switch num(c, "fid", 0, 3) {
		case 0:
			idb = nastyBytes(c, "fidn", 2)
		case 1:
			idb = blob(c, "fidb", num(c, "fidl", 0, 40))
		}
		id[0] = ref.Str{B: idb, Hex: flip(c, "fidhex")}
		p := int32(pick(c, "perms", -44, -4, -1, -3904, 0, 4, -2147483648, 0x7ffffffc))
		salt := uint32(num(c, "salts", 0, 1<<30))
		rnd := func(n int) []byte {
			out := make([]byte, n)
			for i := range out {
				salt = salt*1664525 + 1013904223
				out[i] = byte(salt >> 24)
			}
			return out
		}
		f.crypt = ref.NewCrypt(v, r, kl, aes, f.user, f.owner, idb, p, v < 4 || !oneIn(c, "nometa", 3), rnd)
		f.crypt.Lit = flip(c, "enclit")
		f.crypt.Opt = num(c, "encopt", 0, 15)
		if v >= 4 && oneIn(c, "split", 4) {
			own := "V2"
			if aes {
				own = "AESV2"
			}
			if v == 5 {
				own = "AESV3"
			}
			ms := [][2]string{{own, "Identity"}, {"Identity", own}}
			if v == 4 {
				ms = append(ms, [2]string{"V2", "AESV2"}, [2]string{"AESV2", "V2"})
			}
			m := ms[num(c, "splitm", 0, len(ms)-1)]
			f.crypt.StmM, f.crypt.StrM = m[0], m[1]
		}
		iv = func() []byte { return rnd(16) }
		file.Crypt, file.IV = f.crypt, iv
		f.form += fmt.Sprintf(" enc V%d R%d len%d %s/%s", v, r, kl, f.crypt.Method(f.crypt.StmM), f.crypt.Method(f.crypt.StrM))
		if oneIn(c, "encdirect", 4) {
			tr = tr.With("Encrypt", f.crypt.Dict())
			f.form += " direct"
		} else {
			encN = f.next
			f.next++
			tr = tr.With("Encrypt", ref.Ref{N: encN})
		}
	}
	if f.user != nil || flip(c, "hasID") {
		tr = tr.With("ID", id)
	}
	ns := sortedKeys(f.objs)
	switch num(c, "order", 0, 2) {
	case 1:
		for i, j := 0, len(ns)-1; i < j; i, j = i+1, j-1 {
			ns[i], ns[j] = ns[j], ns[i]
		}
	case 2:
		x := uint32(num(c, "shuffle", 1, 1<<20))
		for i := len(ns) - 1; i > 0; i-- {
			x ^= x << 13
			x ^= x >> 17
			x ^= x << 5
			j := int(x % uint32(i+1))
			ns[i], ns[j] = ns[j], ns[i]
		}
	}
	inStm := map[int]bool{}
	if stream {
		k := num(c, "objstm", 0, 4) // 0: none, 4: all that may
		for _, n := range ns {
			if _, ok := f.objs[n].(*ref.Stream); !ok && k > 0 && f.gens[n] == 0 && (k == 4 || n%k == 0) {
				inStm[n] = true
			}
		}
	}
	second := map[int]bool{}
	stale := map[int]ref.Obj{} // earlier versions of the objects of the second revision
	freed := 0                 // an object that the second revision removes
	if oneIn(c, "tworev", 4) {
		k := num(c, "revmod", 2, 4)
		for _, n := range ns {
			second[n] = n%k == 0
		}
		f.form += " 2rev"
		if flip(c, "stale") {
			k := num(c, "stalemod", 1, 3)
			for _, n := range ns {
				if second[n] && n%k == 0 {
					stale[n] = earlier(f.objs[n])
				}
			}
			f.form += " stale"
		}
		if len(ns) > 0 && flip(c, "freed") {
			freed = f.next
			f.next++
			stale[freed] = earlier(f.objs[ns[num(c, "freedn", 0, len(ns)-1)]])
			f.form += " freed"
		}
	}
	if len(f.gens) > 0 {
		f.form += " generations"
	}
	linear := oneIn(c, "linear", 8)
	linMod := 1
	if linear {
		linMod = num(c, "linmod", 2, 5)
		f.form += " linear"
	}
	inFirst := func(n int) bool { return n%linMod == 1 }
	section := func(want bool, last bool) {
		var ms []ref.Member
		flush := func() {
			if len(ms) > 0 {
				n := f.next
				f.next++
				file.ObjStm(n, fm, ms, flip(c, "oscomp"), pick(c, "ossep", " ", "\n"), nil)
				ms = nil
			}
		}
		write := func(n int, o ref.Obj) {
			if _, ok := o.(*ref.Stream); inStm[n] && !ok {
				ms = append(ms, ref.Member{N: n, Body: fm.Bytes(o)})
				if len(ms) >= 20 {
					flush()
				}
				return
			}
			f.write(file, fm, n, o, iv)
		}
		for _, n := range ns {
			if second[n] == want {
				write(n, f.objs[n])
			} else if o, ok := stale[n]; ok && !want {
				write(n, o)
			}
		}
		if freed > 0 && !want {
			write(freed, stale[freed])
		} else if freed > 0 {
			file.Free(freed, 1)
		}
		flush()
		if encN != 0 && !want {
			file.Obj(encN, 0, fm.Bytes(f.crypt.Dict()))
		}
		if stream {
			xn := f.next
			f.next++
			xs := ref.XS{Num: xn, Compress: flip(c, "xcomp")}
			if linear && !want {
				file.EndLinear(fm, tr.With("Size", f.next), &xs, inFirst)
				return
			}
			file.EndStream(fm, tr.With("Size", f.next), xs)
		} else if linear && !want {
			file.EndLinear(fm, tr.With("Size", f.next), nil, inFirst)
		} else {
			file.EndTable(fm, tr.With("Size", f.next))
		}
	}
	if len(second) > 0 {
		section(false, false)
		section(true, true)
	} else {
		section(false, true)
	}
	return file.Bytes()
}

// earlier returns what an object might have been before an update: the same
// with other numbers and strings, or something else altogether.
func earlier(o ref.Obj) ref.Obj {
	switch v := o.(type) {
	case int:
		return v + 1
	case ref.Str:
		return ref.Str{B: []byte("earlier"), Hex: v.Hex}
	case ref.Arr:
		out := ref.Arr{}
		for _, e := range v {
			out = append(out, earlier(e))
		}
		return out
	case ref.Dict:
		out := ref.Dict{}
		for _, e := range v {
			if e.K != "Encrypt" {
				out = append(out, ref.KV{K: e.K, V: earlier(e.V)})
			}
		}
		return append(out, ref.KV{K: "Earlier", V: true})
	case *ref.Stream:
		return &ref.Stream{D: ref.Dict{{K: "Earlier", V: true}}, Data: []byte("BT (earlier) Tj ET")}
	}
	return o
}

func (f *fd) write(file *ref.File, fm ref.Fmt, n int, o ref.Obj, iv func() []byte) {
	if st, ok := o.(*ref.Stream); ok {
		d := st.D
		if f.crypt != nil {
			d = f.crypt.Encrypt(d, n, f.gens[n], iv).(ref.Dict)
		}
		file.Stream(n, f.gens[n], fm, d, st.Data)
		return
	}
	if f.crypt != nil {
		o = f.crypt.Encrypt(o, n, f.gens[n], iv)
	}
	file.Obj(n, f.gens[n], fm.Bytes(o))
}

// pageSpec is one page of a generated document with its effective attributes.
type pageSpec struct {
	ref     ref.Ref
	d       ref.Dict // entries of the page itself
	eff     ref.Dict // effective inheritable entries (MediaBox, CropBox, Rotate, Resources)
	content []byte
}

var inheritable = []string{"Resources", "MediaBox", "CropBox", "Rotate"}

// pageTree builds a page tree over the pages, in order: flat, nested, or a chain,
// with inherited attributes pushed up to intermediate nodes at random.
// mk makes the page entries (without Type, Parent and inheritable entries that the tree places).
func (f *fd) pageTree(n int, mk func(i int) (own ref.Dict, inh ref.Dict)) (ref.Ref, []pageSpec) {
	c := f.c
	pages := make([]pageSpec, n)
	for i := range pages {
		own, inh := mk(i)
		pages[i] = pageSpec{d: own, eff: inh}
	}
	var build func(lo, hi, depth int, parent *ref.Ref, have ref.Dict) ref.Ref
	build = func(lo, hi, depth int, parent *ref.Ref, have ref.Dict) ref.Ref {
		self := f.reserve()
		d := ref.Dict{{"Type", ref.Name("Pages")}, {"Count", hi - lo}}
		if parent != nil {
			d = append(d, ref.KV{K: "Parent", V: *parent})
		}
		// push an attribute to this node when every page below shares it, or shadow it
		scope := have
		for _, k := range inheritable {
			if hi > lo && oneIn(c, "push"+k, 2) {
				v := pages[lo+num(c, "pushfrom", 0, hi-lo-1)].eff.Get(k)
				if v != nil {
					d = append(d, ref.KV{K: k, V: v})
					scope = scope.With(k, v)
				}
			}
		}
		kids := ref.Arr{}
		for i := lo; i < hi; {
			span := 1
			if depth > 0 && oneIn(c, "nest", 3) {
				span = num(c, "span", 1, hi-i)
				kids = append(kids, build(i, i+span, depth-1, &self, scope))
			} else {
				p := &pages[i]
				p.ref = f.reserve()
				pd := ref.Dict{{"Type", ref.Name("Page")}, {"Parent", self}}
				pd = append(pd, p.d...)
				for _, k := range inheritable {
					v := p.eff.Get(k)
					if v == nil {
						if scope.Has(k) {
							p.eff = p.eff.With(k, scope.Get(k))
						}
						continue
					}
					if scope.Has(k) && ref.Canon(scope.Get(k)) == ref.Canon(v) && !oneIn(c, "repeat", 3) {
						continue
					}
					pd = append(pd, ref.KV{K: k, V: v})
				}
				p.d = pd
				f.set(p.ref, pd)
				kids = append(kids, p.ref)
			}
			i += span
		}
		if oneIn(c, "emptynode", 12) && depth > 0 {
			e := f.add(ref.Dict{{"Type", ref.Name("Pages")}, {"Count", 0}, {"Kids", ref.Arr{}}, {"Parent", self}})
			at := num(c, "emptyat", 0, len(kids))
			kids = append(kids[:at:at], append(ref.Arr{e}, kids[at:]...)...)
		}
		d = append(d, ref.KV{K: "Kids", V: f.ind(kids)})
		f.set(self, d)
		return self
	}
	root := build(0, n, 3, nil, ref.Dict{})
	return root, pages
}
