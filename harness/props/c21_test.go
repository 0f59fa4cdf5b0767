package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode/utf16"

	"github.com/benedoc-inc/pdfer/content/extract"
	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/resources/font"
	"verif/harness/hx"
	"verif/harness/ref"
)

// mfont is a generated font with what it defines.
type mfont struct {
	b                              []byte
	otf                            bool
	upm, glyphs                    int
	ascent, descent, capH, xH      int
	box                            [4]int
	italic                         int
	ulPos, ulThick                 int
	fixed                          bool
	names                          map[int][]string // the Unicode records of a name identifier
	cmap                           map[rune]int
	tables                         map[string][]byte
	adv                            []int
	chars                          []rune
	desc                           string
	longLoca, composite, hmShort   bool
	cmapFormat, cmapEnc, cmapExtra string
}

type bb struct{ b []byte }

func (w *bb) u8(v ...int) {
	for _, x := range v {
		w.b = append(w.b, byte(x))
	}
}
func (w *bb) u16(v ...int) {
	for _, x := range v {
		w.b = append(w.b, byte(x>>8), byte(x))
	}
}
func (w *bb) u32(v ...int) {
	for _, x := range v {
		w.b = append(w.b, byte(x>>24), byte(x>>16), byte(x>>8), byte(x))
	}
}

// glyphBytes renders glyph gid; components may be any of the simple glyphs below it.
func glyphBytes(c *hx.C, r *prng, gid int, simple []int, m *mfont) ([]byte, bool) {
	w := &bb{}
	if len(simple) > 0 && r.n(5) == 0 {
		m.composite = true
		w.u16(-1, 0, 0, 500, 700)
		for i, n := 0, 1+r.n(3); i < n; i++ {
			flags := 2
			if i < n-1 {
				flags |= 0x20
			}
			k := []int{0, 0, 8, 0x40, 0x80}[r.n(5)]
			flags |= k
			words := r.n(2) == 0
			if words {
				flags |= 1
			}
			w.u16(flags, simple[r.n(len(simple))])
			if words {
				w.u16(r.n(2000)-1000, r.n(2000)-1000)
			} else {
				w.u8(r.n(256)-128, r.n(256)-128)
			}
			for j := map[int]int{8: 1, 0x40: 2, 0x80: 4}[k]; j > 0; j-- {
				w.u16(r.n(65536) - 32768)
			}
		}
		return w.b, false
	}
	nc := 1 + r.n(3)
	w.u16(nc, 0, -100, 800, 900)
	np := 0
	for i := 0; i < nc; i++ {
		np += 1 + r.n(5)
		w.u16(np - 1)
	}
	ins := r.n(4)
	w.u16(ins)
	for i := 0; i < ins; i++ {
		w.u8(r.n(256))
	}
	var xs, ys bb
	for i := 0; i < np; i++ {
		fl := r.n(2)
		for axis, o := range []*bb{&xs, &ys} {
			short, same := 2<<axis, 16<<axis
			v := r.n(1200) - 600
			if i == 0 && axis == 0 {
				v = gid%30000 + 300 // every glyph is unlike any other
			}
			switch k := r.n(3); {
			case k == 0 && i > 0: // no change
				fl |= same
			case k == 1 && v > -256 && v < 256:
				fl |= short
				if v >= 0 {
					fl |= same
					o.u8(v)
				} else {
					o.u8(-v)
				}
			default:
				o.u16(v)
			}
		}
		w.u8(fl)
	}
	w.b = append(append(w.b, xs.b...), ys.b...)
	return w.b, true
}

var charRanges = [][2]rune{{0x20, 0x7e}, {0x20, 0x7e}, {0xa0, 0xff}, {0x100, 0x17f}, {0x300, 0x33f}, {0x391, 0x3c9}, {0x410, 0x44f}, {0x5d0, 0x5ea}, {0x7fa, 0x820}, {0x2010, 0x2044}, {0x4e00, 0x4eff}, {0xac00, 0xacff}, {0xe000, 0xe0ff}, {0xf020, 0xf0ff}, {0xfb00, 0xfb06}, {0xff01, 0xff5e}, {0xfff0, 0xfffd}, {0xffe0, 0xfffe}}
var astral = [][2]rune{{0x10000, 0x100ff}, {0x1d400, 0x1d4ff}, {0x1f600, 0x1f64f}, {0x20000, 0x200ff}, {0x2fffe, 0x30003}, {0x10ff00, 0x10ffff}, {0x1fffd, 0x20002}}

// cmapBytes renders a subtable of the map in the format (0 if it cannot hold it).
func cmapBytes(r *prng, format int, cm map[rune]int, glyphs int) []byte {
	var cs []rune
	for k := range cm {
		cs = append(cs, k)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i] < cs[j] })
	w := &bb{}
	switch format {
	case 4:
		type seg struct {
			lo, hi rune
			delta  int
			gids   []int // nil: the delta gives the glyph
		}
		var segs []seg
		for i := 0; i < len(cs); {
			if cs[i] > 0xfffe {
				break
			}
			j := i + 1
			if r.n(2) == 0 { // consecutive glyphs
				for j < len(cs) && cs[j] == cs[j-1]+1 && cm[cs[j]] == cm[cs[j-1]]+1 && cs[j] < 0xffff && r.n(20) != 0 {
					j++
				}
				segs = append(segs, seg{cs[i], cs[j-1], cm[cs[i]] - int(cs[i]), nil})
			} else {
				for j < len(cs) && cs[j]-cs[j-1] <= 4 && cs[j] < 0xffff && r.n(30) != 0 {
					j++
				}
				s := seg{lo: cs[i], hi: cs[j-1]}
				if r.n(3) == 0 {
					s.delta = r.n(65536)
				}
				for k := s.lo; k <= s.hi; k++ {
					g := cm[k]
					if g != 0 {
						g = (g - s.delta) & 0xffff
						if g == 0 { // would mean no glyph
							s.delta++
							s.gids = nil
							k = s.lo - 1
							continue
						}
					}
					s.gids = append(s.gids, g)
				}
				segs = append(segs, s)
			}
			i = j
		}
		if k := len(segs) - 1; k >= 0 && segs[k].gids != nil && segs[k].hi > 0xff00 && r.n(2) == 0 {
			// the last segment need not be of the last character alone
			for segs[k].hi < 0xffff {
				segs[k].hi++
				segs[k].gids = append(segs[k].gids, 0)
			}
		} else {
			segs = append(segs, seg{0xffff, 0xffff, 1, nil})
		}
		n := len(segs)
		var arr bb
		offs := make([]int, n)
		for i, s := range segs {
			if s.gids != nil {
				offs[i] = 2*(n-i) + len(arr.b)
				if offs[i] > 65535 {
					return nil
				}
				arr.u16(s.gids...)
			}
		}
		p := 1
		e := 0
		for p*2 <= n {
			p, e = p*2, e+1
		}
		l := 16 + 8*n + len(arr.b)
		if l > 65535 {
			return nil
		}
		w.u16(4, l, 0, 2*n, 2*p, e, 2*n-2*p)
		for _, s := range segs {
			w.u16(int(s.hi))
		}
		w.u16(0)
		for _, s := range segs {
			w.u16(int(s.lo))
		}
		for _, s := range segs {
			w.u16(s.delta)
		}
		w.u16(offs...)
		w.b = append(w.b, arr.b...)
	case 6, 10:
		if len(cs) == 0 {
			return nil
		}
		lo, hi := int(cs[0]), int(cs[len(cs)-1])
		if hi-lo > 8000 || format == 6 && hi > 0xffff {
			return nil
		}
		n := hi - lo + 1
		if format == 6 {
			w.u16(6, 10+2*n, 0, lo, n)
		} else {
			w.u16(10, 0)
			w.u32(20+2*n, 0, lo, n)
		}
		for k := lo; k <= hi; k++ {
			w.u16(cm[rune(k)])
		}
	case 12, 13:
		var groups bb
		n := 0
		for i := 0; i < len(cs); {
			j := i + 1
			for j < len(cs) && cs[j] == cs[j-1]+1 && cm[cs[j]] == cm[cs[j-1]]+13-format {
				j++
			}
			groups.u32(int(cs[i]), int(cs[j-1]), cm[cs[i]])
			n, i = n+1, j
		}
		w.u16(format, 0)
		w.u32(16+12*n, 0, n)
		w.b = append(w.b, groups.b...)
	}
	return w.b
}

// genTTF draws a well-formed font.
func genTTF(c *hx.C) *mfont {
	r := prng(num(c, "font", 0, 1<<30))
	m := &mfont{names: map[int][]string{}, cmap: map[rune]int{}, tables: map[string][]byte{}}
	m.otf = oneIn(c, "otf", 8)
	m.upm = pick(c, "upm", 1000, 1000, 2048, 2048, 16, 256, 1024, 4096, 16384, 16, 999, 1500)
	m.glyphs = num(c, "glyphs", 1, 40)
	if oneIn(c, "manyGlyphs", 6) {
		m.glyphs = num(c, "lotsOfGlyphs", 250, 700)
	}
	if oneIn(c, "hugeFont", 30) {
		m.glyphs = pick(c, "hugeGlyphs", 16400, 33000, 65535)
	}
	// outlines
	if !m.otf {
		var glyf bb
		loca := []int{}
		var simple []int
		for g := 0; g < m.glyphs; g++ {
			loca = append(loca, len(glyf.b))
			if r.n(8) == 0 || m.glyphs > 1000 && g > 40 && g < m.glyphs-20 && r.n(500) != 0 {
				continue
			}
			b, ok := glyphBytes(c, &r, g, simple, m)
			if ok {
				simple = append(simple, g)
			}
			glyf.b = append(glyf.b, b...)
			for len(glyf.b)%2 != 0 || len(glyf.b)%4 != 0 && r.n(2) == 0 {
				glyf.u8(0)
			}
		}
		loca = append(loca, len(glyf.b))
		m.longLoca = flip(c, "longLoca") || len(glyf.b) >= 0x20000
		var lw bb
		for _, o := range loca {
			if m.longLoca {
				lw.u32(o)
			} else {
				lw.u16(o / 2)
			}
		}
		m.tables["glyf"], m.tables["loca"] = glyf.b, lw.b
	} else {
		m.tables["CFF "] = blob(c, "cff", num(c, "cffLen", 4, 300))
	}
	// metrics
	nh := m.glyphs
	if flip(c, "monoTail") {
		nh = 1 + r.n(m.glyphs)
		m.hmShort = nh < m.glyphs
	}
	var hm bb
	last := 0
	top := 2*m.upm + 1
	if top > 65536 {
		top = 65536
	}
	if oneIn(c, "wide", 10) {
		top = 65536
	}
	for g := 0; g < m.glyphs; g++ {
		if g < nh {
			last = r.n(top)
			hm.u16(last)
		}
		hm.u16(r.n(65536))
		m.adv = append(m.adv, last)
	}
	m.tables["hmtx"] = hm.b
	i16 := func(l string) int {
		return pick(c, l, 0, 1, -1, 700, 1900, -200, -500, 32767, -32768, 450, 12000)
	}
	m.ascent, m.descent, m.ulPos, m.ulThick = i16("ascent"), i16("descent"), i16("ulPos"), i16("ulThick")
	m.box = [4]int{-num(c, "xmin", 0, 3000), -num(c, "ymin", 0, 3000), num(c, "xmax", 0, 30000), num(c, "ymax", 0, 9000)}
	var head bb
	head.u32(0x10000, r.n(1<<30), r.n(1<<30), 0x5F0F3CF5)
	head.u16(r.n(32), m.upm)
	head.u32(0, r.n(1<<30), 0, r.n(1<<30))
	head.u16(m.box[0], m.box[1], m.box[2], m.box[3], r.n(4), 8, 2, map[bool]int{true: 1}[m.longLoca], 0)
	m.tables["head"] = head.b
	var hhea bb
	hhea.u32(0x10000)
	hhea.u16(m.ascent, m.descent, r.n(300), r.n(65536), r.n(500), r.n(500), r.n(500), 1, 0, 0, 0, 0, 0, 0, 0, nh)
	m.tables["hhea"] = hhea.b
	var maxp bb
	if m.otf || oneIn(c, "maxp05", 9) && m.otf {
		maxp.u32(0x5000)
		maxp.u16(m.glyphs)
	} else {
		maxp.u32(0x10000)
		maxp.u16(m.glyphs, 20, 3, 60, 9, 1, 0, 0, 0, 0, 0, 4, 4, 1)
	}
	m.tables["maxp"] = maxp.b
	// post
	m.italic = pick(c, "italic", 0, 0, 0x10000, -12<<16, -0xc8000, 0x7fff0000, -1<<31+1, 1)
	m.fixed = flip(c, "fixed")
	var post bb
	post.u32(0x30000, m.italic)
	post.u16(m.ulPos, m.ulThick)
	post.u32(map[bool]int{true: pick(c, "pitch", 1, 1, 0x10000, 1<<31)}[m.fixed], 0, 0, 0, 0)
	m.tables["post"] = post.b
	// OS/2
	if v := num(c, "os2", -1, 5); v >= 0 {
		var o bb
		o.u16(v)
		l := []int{78, 86, 96, 96, 96, 100}[v]
		for len(o.b) < l {
			o.u16(r.n(65536))
		}
		if v >= 2 {
			m.xH, m.capH = int(int16(binary.BigEndian.Uint16(o.b[86:]))), int(int16(binary.BigEndian.Uint16(o.b[88:])))
			if flip(c, "saneHeights") {
				m.xH, m.capH = 480, 700
				binary.BigEndian.PutUint16(o.b[86:], 480)
				binary.BigEndian.PutUint16(o.b[88:], 700)
			}
		}
		m.tables["OS/2"] = o.b
	}
	// names
	var recs []string
	var store bb
	pad := 0
	if oneIn(c, "bigStore", 10) {
		pad = 60000 + r.n(5000)
		store.b = append(store.b, bytes.Repeat([]byte{'x', 0}, pad/2)...)
	}
	for i, n := 0, count(c, "names", 0, 8, 60); i < n; i++ {
		id := pick(c, "nameID", 1, 2, 4, 6, 1, 4, 6, 0, 16)
		s := pick(c, "name", "Test Font", "TestFont-Bold", "Ünïcode", "日本語", "a(b)", "x/y#z", "A", "Emoji \U0001F600", "Go-Regular", "back\\slash", "a b[c]<d>")
		if id == 6 && flip(c, "sanePS") {
			s = pick(c, "ps", "TestFont-Bold", "Go-Regular", "AAA.b_c", "Sfnt2")
		}
		plat := pick(c, "platform", 3, 3, 0, 1)
		raw := []byte(s)
		if plat != 1 {
			var u bb
			for _, x := range utf16.Encode([]rune(s)) {
				u.u16(int(x))
			}
			raw = u.b
			m.names[id] = append(m.names[id], s)
		}
		if len(store.b)+len(raw) > 65535 {
			break
		}
		var rec bb
		rec.u16(plat, map[int]int{3: pick(c, "encID", 1, 1, 10), 0: pick(c, "encU", 0, 3, 4), 1: 0}[plat], map[int]int{3: 0x409 + i, 0: 0, 1: i}[plat], id, len(raw), len(store.b))
		recs = append(recs, string(rec.b))
		store.b = append(store.b, raw...)
	}
	if flip(c, "sortNames") {
		sort.Strings(recs)
	}
	var name bb
	name.u16(0, len(recs), 6+12*len(recs))
	name.b = append(append(name.b, strings.Join(recs, "")...), store.b...)
	m.tables["name"] = name.b
	// characters
	full := flip(c, "full")
	many := num(c, "chars", 0, 40)
	if oneIn(c, "manyChars", 5) {
		many = num(c, "lots", 100, 500)
	}
	kind := num(c, "cmapKind", 0, 9)
	if kind >= 8 { // one stretch, which the trimmed formats can hold
		b := append(append([][2]rune{}, charRanges...), astral...)[spread(c, "block", len(charRanges)+map[bool]int{true: len(astral)}[full])]
		for i := 0; i < many; i++ {
			m.cmap[b[0]+rune(r.n(int(b[1]-b[0]+1)))] = r.n(m.glyphs)
		}
	} else {
		for tries := 0; len(m.cmap) < many && tries < 3*many; tries++ {
			rs := charRanges
			if full && r.n(3) == 0 {
				rs = astral
			}
			b := rs[r.n(len(rs))]
			at, g := b[0]+rune(r.n(int(b[1]-b[0]+1))), r.n(m.glyphs)
			run := 1
			if r.n(3) == 0 {
				run = 1 + r.n(30)
			}
			step := 1
			if kind == 7 {
				step = 0
			}
			for i := 0; i < run && at+rune(i) <= b[1] && g+i*step < m.glyphs; i++ {
				m.cmap[at+rune(i)] = g + i*step
			}
		}
	}
	for _, k := range sortedRunes(m.cmap) {
		if g := m.cmap[k]; !full && k > 0xfffe {
			delete(m.cmap, k)
		} else if g == 0 && r.n(2) == 0 {
			delete(m.cmap, k)
		}
	}
	bmp := map[rune]int{}
	for k, g := range m.cmap {
		if k <= 0xfffe {
			bmp[k] = g
		}
	}
	type sub struct {
		plat, enc int
		b         []byte
	}
	var subs []sub
	main := func(want []int, cm map[rune]int) ([]byte, int) {
		for _, f := range want {
			if b := cmapBytes(&r, f, cm, m.glyphs); b != nil {
				return b, f
			}
		}
		return cmapBytes(&r, 12, cm, m.glyphs), 12
	}
	order := map[int][]int{7: {13}, 8: {6, 10, 4}, 9: {10, 6}}[kind]
	if full {
		e := pick(c, "fullEnc", [2]int{3, 10}, [2]int{0, 4}, [2]int{0, 6})
		want := append(append([]int(nil), order...), 12)
		if e[0] == 3 && want[0] == 13 || e[0] == 0 && e[1] == 4 && want[0] == 13 {
			want = []int{12}
		}
		b, f := main(want, m.cmap)
		if f == 4 {
			b, f = cmapBytes(&r, 12, m.cmap, m.glyphs), 12
		}
		m.cmapFormat, m.cmapEnc = fmt.Sprint(f), fmt.Sprint(e)
		if b != nil {
			subs = append(subs, sub{e[0], e[1], b})
		}
		if flip(c, "bmpToo") {
			if b := cmapBytes(&r, 4, bmp, m.glyphs); b != nil {
				subs = append(subs, sub{3, 1, b})
			}
		}
		if e[0] == 3 && oneIn(c, "u4too", 3) {
			subs = append(subs, sub{0, 4, cmapBytes(&r, 12, m.cmap, m.glyphs)})
		}
	} else {
		e := pick(c, "bmpEnc", [2]int{3, 1}, [2]int{3, 1}, [2]int{0, 3}, [2]int{0, 1}, [2]int{0, 0})
		want := append(append([]int(nil), order...), 4)
		if want[0] == 13 || want[0] == 10 {
			want = []int{4}
		}
		b := []byte(nil)
		f := 0
		for _, x := range want {
			if b = cmapBytes(&r, x, bmp, m.glyphs); b != nil && x != 10 {
				f = x
				break
			}
		}
		m.cmap = bmp
		if b == nil {
			b, f = cmapBytes(&r, 4, map[rune]int{}, m.glyphs), 4
			m.cmap = map[rune]int{}
		}
		m.cmapFormat, m.cmapEnc = fmt.Sprint(f), fmt.Sprint(e)
		subs = append(subs, sub{e[0], e[1], b})
		if e[0] == 3 && oneIn(c, "u3too", 3) {
			if b := cmapBytes(&r, 4, m.cmap, m.glyphs); b != nil {
				subs = append(subs, sub{0, 3, b})
			}
		}
	}
	if flip(c, "macDecoy") {
		var d bb
		d.u16(0, 262, 0)
		for i := 0; i < 256; i++ {
			d.u8(r.n(m.glyphs))
		}
		subs = append(subs, sub{1, 0, d.b})
	}
	if oneIn(c, "uvsDecoy", 4) {
		var d bb
		d.u16(14)
		d.u32(10, 0)
		subs = append(subs, sub{0, 5, d.b})
	}
	sort.Slice(subs, func(i, j int) bool {
		return subs[i].plat*100+subs[i].enc < subs[j].plat*100+subs[j].enc
	})
	var cm, body bb
	cm.u16(0, len(subs))
	perm := flip(c, "cmapOrder")
	offs := make([]int, len(subs))
	for i := range subs {
		j := i
		if perm {
			j = len(subs) - 1 - i
		}
		offs[j] = 4 + 8*len(subs) + len(body.b)
		body.b = append(body.b, subs[j].b...)
	}
	for i, s := range subs {
		cm.u16(s.plat, s.enc)
		cm.u32(offs[i])
	}
	m.tables["cmap"] = append(cm.b, body.b...)
	for k, g := range m.cmap {
		if g == 0 {
			delete(m.cmap, k)
		}
	}
	for _, k := range sortedRunes(m.cmap) {
		m.chars = append(m.chars, k)
	}
	// other tables
	for i, n := 0, num(c, "otherTables", 0, 3); i < n; i++ {
		m.tables[pick(c, "otherTag", "cvt ", "fpgm", "prep", "GSUB", "kern", "DSIG", "zzzz")] = blob(c, "other", num(c, "otherLen", 0, 40))
	}
	// file
	var tags []string
	for t := range m.tables {
		tags = append(tags, t)
	}
	sort.Strings(tags)
	layout := append([]string(nil), tags...)
	for i := len(layout) - 1; i > 0; i-- {
		j := r.n(i + 1)
		layout[i], layout[j] = layout[j], layout[i]
	}
	var out bb
	sig := 0x10000
	if m.otf {
		sig = 0x4F54544F
	} else if oneIn(c, "appleSig", 6) {
		sig = 0x74727565
	}
	out.u32(sig)
	p, e := 1, 0
	for p*2 <= len(tags) {
		p, e = p*2, e+1
	}
	out.u16(len(tags), 16*p, e, 16*(len(tags)-p))
	at := map[string]int{}
	pos := 12 + 16*len(tags)
	for _, t := range layout {
		at[t] = pos
		pos += (len(m.tables[t]) + 3) &^ 3
	}
	for _, t := range tags {
		out.b = append(out.b, t...)
		sum := uint32(0)
		padded := append(append([]byte(nil), m.tables[t]...), 0, 0, 0)
		for i := 0; i+4 <= len(padded); i += 4 {
			sum += binary.BigEndian.Uint32(padded[i:])
		}
		out.u32(int(sum), at[t], len(m.tables[t]))
	}
	for _, t := range layout {
		out.b = append(out.b, m.tables[t]...)
		for len(out.b)%4 != 0 {
			out.u8(0)
		}
	}
	m.b = out.b
	m.desc = fmt.Sprintf("otf %v upm %d glyphs %d hmetrics %d longloca %v cmap %s%s chars %d fnv %x", m.otf, m.upm, m.glyphs, nh, m.longLoca, m.cmapEnc, m.cmapFormat, len(m.chars), fnvb(m.b))
	c.Dump("font.ttf", m.b)
	return m
}

func sortedRunes(m map[rune]int) []rune {
	var ks []rune
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	return ks
}

func (m *mfont) classes(c *hx.C) {
	c.Class("cmap format " + m.cmapFormat)
	c.Class("cmap encoding " + m.cmapEnc)
	c.ClassIf(m.otf, "CFF outlines")
	c.ClassIf(m.longLoca, "long loca")
	c.ClassIf(m.composite, "composite glyphs")
	c.ClassIf(m.hmShort, "fewer metrics than glyphs")
	c.ClassIf(len(m.chars) > 100, "over 100 characters mapped")
	c.ClassIf(m.glyphs > 1000, "over 1000 glyphs")
	c.ClassIf(len(m.chars) > 0 && m.chars[len(m.chars)-1] > 0xffff, "characters beyond the BMP")
}

// genSubset draws characters, most of which the font has.
func (m *mfont) genSubset(c *hx.C, max int) []rune {
	r := prng(num(c, "subset", 0, 1<<30))
	var out []rune
	n := num(c, "subsetLen", 1, max)
	if oneIn(c, "all", 3) {
		n = max * 10
	}
	for i := 0; i < n; i++ {
		if len(m.chars) > 0 && r.n(6) != 0 {
			out = append(out, m.chars[r.n(len(m.chars))])
		} else {
			rs := append(append([][2]rune{}, charRanges...), astral...)
			b := rs[r.n(len(rs))]
			out = append(out, b[0]+rune(r.n(int(b[1]-b[0]+1))))
		}
	}
	return out
}

func anyOf(got string, of []string) bool {
	for _, s := range of {
		if s == got {
			return true
		}
	}
	return len(of) == 0 && got == ""
}

// ---- embedded fonts, read independently ----

type codeRange struct{ lo, hi []byte }

type refCMap struct {
	spaces []codeRange
	cid    map[string]int
	text   map[string]string
}

var cmapSection = regexp.MustCompile(`(\d+)\s+begin(codespacerange|cidchar|cidrange|bfchar|bfrange)\b`)

// readCMap reads a CMap file.
func readCMap(b []byte) (*refCMap, error) {
	m := &refCMap{cid: map[string]int{}, text: map[string]string{}}
	u16 := func(b []byte) string {
		var u []uint16
		for i := 0; i+1 < len(b); i += 2 {
			u = append(u, uint16(b[i])<<8|uint16(b[i+1]))
		}
		return string(utf16.Decode(u))
	}
	inc := func(b []byte, k int) []byte {
		out := append([]byte(nil), b...)
		for i := len(out) - 1; i >= 0 && k > 0; i-- {
			k += int(out[i])
			out[i] = byte(k)
			k >>= 8
		}
		return out
	}
	val := func(b []byte) int {
		v := 0
		for _, x := range b {
			v = v<<8 | int(x)
		}
		return v
	}
	for _, s := range cmapSection.FindAllSubmatchIndex(b, -1) {
		n, _ := strconv.Atoi(string(b[s[2]:s[3]]))
		kind := string(b[s[4]:s[5]])
		if n > 100 {
			return nil, fmt.Errorf("section of %d entries", n)
		}
		p := &ref.Parser{B: b, Pos: s[1]}
		str := func() ([]byte, error) {
			o, err := p.Object()
			if err != nil {
				return nil, err
			}
			v, ok := o.(ref.Str)
			if !ok {
				return nil, fmt.Errorf("%s: %v is not a string", kind, o)
			}
			return v.B, nil
		}
		for i := 0; i < n; i++ {
			lo, err := str()
			if err != nil {
				return nil, err
			}
			hi := lo
			if strings.HasSuffix(kind, "range") {
				if hi, err = str(); err != nil {
					return nil, err
				}
				if len(hi) != len(lo) || bytes.Compare(lo, hi) > 0 {
					return nil, fmt.Errorf("range %x-%x", lo, hi)
				}
			}
			if kind == "codespacerange" {
				m.spaces = append(m.spaces, codeRange{lo, hi})
				continue
			}
			o, err := p.Object()
			if err != nil {
				return nil, err
			}
			for k := 0; k <= val(hi)-val(lo); k++ {
				code := string(inc(lo, k))
				switch v := o.(type) {
				case int:
					m.cid[code] = v + k
				case ref.Str:
					m.text[code] = u16(inc(v.B, k))
				case ref.Arr:
					if k >= len(v) {
						return nil, fmt.Errorf("short array")
					}
					m.text[code] = u16(v[k].(ref.Str).B)
				default:
					return nil, fmt.Errorf("%s entry %v", kind, o)
				}
			}
		}
		p.SkipWS()
		if err := p.Keyword("end" + kind); err != nil {
			return nil, err
		}
	}
	return m, nil
}

// split divides a string into codes.
func (m *refCMap) split(b []byte) ([]string, error) {
	var out []string
next:
	for len(b) > 0 {
		for _, s := range m.spaces {
			n := len(s.lo)
			if n > len(b) {
				continue
			}
			in := true
			for i := 0; i < n; i++ {
				if b[i] < s.lo[i] || b[i] > s.hi[i] {
					in = false
				}
			}
			if in {
				out = append(out, string(b[:n]))
				b = b[n:]
				continue next
			}
		}
		return nil, fmt.Errorf("bytes %x are in no codespace range", b)
	}
	return out, nil
}

type embedded struct {
	enc, uni *refCMap
	prog     *ref.TTF
	raw      []byte
	gid      func(cid int) int
	w        map[int]float64
	dw       float64
	base     string
}

func number(o ref.Obj) (float64, error) {
	switch v := o.(type) {
	case int:
		return float64(v), nil
	case ref.Real:
		return strconv.ParseFloat(string(v), 64)
	}
	return 0, fmt.Errorf("%v is not a number", o)
}

// readEmbedded reads a composite font with an embedded program.
func readEmbedded(d *ref.Doc, o ref.Obj, m *mfont) (*embedded, error) {
	e := &embedded{w: map[int]float64{}, dw: 1000}
	fd, err := d.Dict(o)
	if err != nil {
		return nil, err
	}
	stream := func(o ref.Obj, what string) (ref.Dict, []byte, error) {
		v, err := d.Resolve(o)
		if err != nil {
			return nil, nil, err
		}
		st, ok := v.(*ref.Stream)
		if !ok {
			return nil, nil, fmt.Errorf("%s: %T is not a stream", what, v)
		}
		b, err := ref.Decode(st)
		return st.D, b, err
	}
	if fd.Get("Type") != ref.Name("Font") || fd.Get("Subtype") != ref.Name("Type0") {
		return nil, fmt.Errorf("font dictionary %v", fd)
	}
	bn, _ := fd.Get("BaseFont").(ref.Name)
	e.base = string(bn)
	encObj, err := d.Resolve(fd.Get("Encoding"))
	if err != nil {
		return nil, err
	}
	identity := false
	if n, ok := encObj.(ref.Name); ok {
		if n != "Identity-H" {
			return nil, fmt.Errorf("encoding %s", n)
		}
		identity = true
		e.enc = &refCMap{spaces: []codeRange{{[]byte{0, 0}, []byte{255, 255}}}}
	} else {
		ed, b, err := stream(fd.Get("Encoding"), "encoding")
		if err != nil {
			return nil, err
		}
		if ed.Get("CMapName") == nil {
			return nil, fmt.Errorf("encoding CMap without a name: %v", ed)
		}
		if e.enc, err = readCMap(b); err != nil {
			return nil, fmt.Errorf("encoding CMap: %v", err)
		}
	}
	if identity {
		e.enc.cid = nil
	}
	_, b, err := stream(fd.Get("ToUnicode"), "ToUnicode")
	if err != nil {
		return nil, err
	}
	if e.uni, err = readCMap(b); err != nil {
		return nil, fmt.Errorf("ToUnicode: %v", err)
	}
	desc, err := d.Resolve(fd.Get("DescendantFonts"))
	if err != nil {
		return nil, err
	}
	a, ok := desc.(ref.Arr)
	if !ok || len(a) != 1 {
		return nil, fmt.Errorf("descendants %v", desc)
	}
	cf, err := d.Dict(a[0])
	if err != nil {
		return nil, err
	}
	want, file := "CIDFontType2", "FontFile2"
	if m.otf {
		want, file = "CIDFontType0", "FontFile3"
	}
	if cf.Get("Type") != ref.Name("Font") || cf.Get("Subtype") != ref.Name(want) {
		return nil, fmt.Errorf("descendant %v", cf)
	}
	e.gid = func(cid int) int { return cid }
	if cm := cf.Get("CIDToGIDMap"); cm != nil && cm != ref.Name("Identity") {
		_, b, err := stream(cm, "CIDToGIDMap")
		if err != nil {
			return nil, err
		}
		e.gid = func(cid int) int {
			if 2*cid+2 > len(b) {
				return 0
			}
			return int(b[2*cid])<<8 | int(b[2*cid+1])
		}
	}
	si, err := d.Dict(cf.Get("CIDSystemInfo"))
	if err != nil {
		return nil, fmt.Errorf("CIDSystemInfo: %v", err)
	}
	if _, ok := si.Get("Registry").(ref.Str); !ok {
		return nil, fmt.Errorf("CIDSystemInfo %v", si)
	}
	if o := cf.Get("DW"); o != nil {
		if e.dw, err = number(o); err != nil {
			return nil, err
		}
	}
	if o := cf.Get("W"); o != nil {
		v, err := d.Resolve(o)
		if err != nil {
			return nil, err
		}
		wa, _ := v.(ref.Arr)
		for i := 0; i < len(wa); {
			first, ok := wa[i].(int)
			if !ok || i+1 >= len(wa) {
				return nil, fmt.Errorf("W %v", wa)
			}
			if l, ok := wa[i+1].(ref.Arr); ok {
				for k, x := range l {
					if e.w[first+k], err = number(x); err != nil {
						return nil, err
					}
				}
				i += 2
				continue
			}
			lastCID, ok := wa[i+1].(int)
			if !ok || i+2 >= len(wa) || lastCID < first || lastCID > 65535 {
				return nil, fmt.Errorf("W %v", wa)
			}
			x, err := number(wa[i+2])
			if err != nil {
				return nil, err
			}
			for k := first; k <= lastCID; k++ {
				e.w[k] = x
			}
			i += 3
		}
	}
	ds, err := d.Dict(cf.Get("FontDescriptor"))
	if err != nil {
		return nil, err
	}
	if ds.Get("Type") != ref.Name("FontDescriptor") || ds.Get("FontName") != ref.Name(e.base) || cf.Get("BaseFont") != ref.Name(e.base) {
		return nil, fmt.Errorf("font names %v, %v, %v", e.base, cf.Get("BaseFont"), ds.Get("FontName"))
	}
	k := 1000 / float64(m.upm)
	near1 := func(o ref.Obj, units int) bool {
		v, err := number(o)
		return err == nil && math.Abs(v-float64(units)*k) <= 1.0001
	}
	if !near1(ds.Get("Ascent"), m.ascent) || !near1(ds.Get("Descent"), m.descent) {
		return nil, fmt.Errorf("descriptor ascent %v descent %v, the font has %d %d of %d", ds.Get("Ascent"), ds.Get("Descent"), m.ascent, m.descent, m.upm)
	}
	if m.capH != 0 && !near1(ds.Get("CapHeight"), m.capH) {
		return nil, fmt.Errorf("descriptor cap height %v, the font has %d of %d", ds.Get("CapHeight"), m.capH, m.upm)
	}
	if v, err := number(ds.Get("ItalicAngle")); err != nil || math.Abs(v-float64(m.italic)/65536) > 0.01 {
		return nil, fmt.Errorf("descriptor italic angle %v, the font has %v", ds.Get("ItalicAngle"), float64(m.italic)/65536)
	}
	box, err := d.Resolve(ds.Get("FontBBox"))
	if err != nil {
		return nil, err
	}
	ba, _ := box.(ref.Arr)
	for i := 0; i < 4; i++ {
		if len(ba) != 4 || !near1(ba[i], m.box[i]) {
			return nil, fmt.Errorf("descriptor box %v, the font has %v of %d", ba, m.box, m.upm)
		}
	}
	fl, ok := ds.Get("Flags").(int)
	if !ok || fl&1 != 0 != m.fixed || fl&4 != 0 == (fl&32 != 0) {
		return nil, fmt.Errorf("descriptor flags %v, fixed pitch %v", ds.Get("Flags"), m.fixed)
	}
	fdict, b, err := stream(ds.Get(file), file)
	if err != nil {
		return nil, err
	}
	if m.otf {
		if fdict.Get("Subtype") != ref.Name("OpenType") {
			return nil, fmt.Errorf("font file %v", fdict)
		}
	} else if l, ok := fdict.Get("Length1").(int); !ok || l != len(b) {
		return nil, fmt.Errorf("font file of %d bytes with /Length1 %v", len(b), fdict.Get("Length1"))
	}
	e.raw = b
	if e.prog, err = ref.ReadTTF(b); err != nil {
		return nil, fmt.Errorf("embedded program: %v", err)
	}
	return e, nil
}

// sameGlyphs checks that a shown string draws the characters' glyphs with their widths.
func (e *embedded) sameGlyphs(shown []byte, text []rune, m *mfont, orig *ref.TTF) error {
	codes, err := e.enc.split(shown)
	if err != nil {
		return err
	}
	if len(codes) != len(text) {
		return fmt.Errorf("%d codes for %d characters", len(codes), len(text))
	}
	for i, code := range codes {
		want := m.cmap[text[i]]
		cid := e.enc.cid[code]
		if e.enc.cid == nil {
			cid = int(code[0])<<8 | int(code[1])
		}
		gid := e.gid(cid)
		if m.otf {
			if gid != want {
				return fmt.Errorf("%U is shown with glyph %d, the font has %d", text[i], gid, want)
			}
		} else {
			got, err := e.prog.Outline(gid)
			if err != nil {
				return fmt.Errorf("%U, glyph %d of the embedded program: %v", text[i], gid, err)
			}
			exp, err := orig.Outline(want)
			if err != nil {
				return fmt.Errorf("harness: glyph %d: %v", want, err)
			}
			if fmt.Sprint(got) != fmt.Sprint(exp) {
				return fmt.Errorf("%U is shown with glyph %d outlined %v, the font's glyph %d is %v", text[i], gid, got, want, exp)
			}
		}
		if a := e.prog.Advance(gid); a != m.adv[want] {
			return fmt.Errorf("%U: embedded glyph %d is %d wide, the font's %d", text[i], gid, a, m.adv[want])
		}
		w, ok := e.w[cid]
		if !ok {
			w = e.dw
		}
		if exp := float64(m.adv[want]) * 1000 / float64(m.upm); math.Abs(w-exp) > 1.0001 {
			return fmt.Errorf("%U (glyph %d) is declared %v wide, the font says %v", text[i], want, w, exp)
		}
		if want != 0 && e.uni.text[code] != string(text[i]) {
			return fmt.Errorf("code %x for %U maps to %q", code, text[i], e.uni.text[code])
		}
	}
	return nil
}

var subsetTag = regexp.MustCompile(`^[A-Z]{6}\+`)

func init() {
	hx.Reg("C21", "parse", 5000, "fonts with any table order and padding, TrueType and CFF, short and long loca, composite glyphs, name records of several platforms, languages and storage offsets, OS/2 versions 0-5, character maps in formats 4, 6, 10, 12 and 13 for several encodings with decoy maps; ParseTTF must report the metrics, names and tables; non-trivial: has a name and an OS/2 table, keyed by the font",
		func(c *hx.C) {
			m := genTTF(c)
			m.classes(c)
			if _, err := ref.ReadTTF(m.b); err != nil {
				c.Fail("harness: %v", err)
			}
			before := append([]byte(nil), m.b...)
			t, err := font.ParseTTF(m.b)
			if err != nil {
				c.Fail("ParseTTF: %v", err)
			}
			if !bytes.Equal(before, m.b) {
				c.Fail("ParseTTF changed its input")
			}
			if int(t.NumGlyphs) != m.glyphs || int(t.UnitsPerEm) != m.upm || int(t.Ascent) != m.ascent || int(t.Descent) != m.descent || int(t.UnderlinePosition) != m.ulPos || int(t.UnderlineThickness) != m.ulThick || t.IsFixedPitch != m.fixed {
				c.Fail("metrics %d %d %d %d %d %d %v, want %d %d %d %d %d %d %v", t.NumGlyphs, t.UnitsPerEm, t.Ascent, t.Descent, t.UnderlinePosition, t.UnderlineThickness, t.IsFixedPitch, m.glyphs, m.upm, m.ascent, m.descent, m.ulPos, m.ulThick, m.fixed)
			}
			if t.ItalicAngle != float32(float64(m.italic)/65536) {
				c.Fail("italic angle %v, want %v", t.ItalicAngle, float64(m.italic)/65536)
			}
			if int(t.CapHeight) != m.capH || int(t.XHeight) != m.xH {
				c.Fail("cap height %d x height %d, want %d %d", t.CapHeight, t.XHeight, m.capH, m.xH)
			}
			if !anyOf(t.FamilyName, m.names[1]) || !anyOf(t.FullName, m.names[4]) || !anyOf(t.PostScriptName, m.names[6]) {
				c.Fail("names %q %q %q, the font has %q", t.FamilyName, t.FullName, t.PostScriptName, m.names)
			}
			for _, n := range []string{t.PostScriptName, t.FullName, t.FamilyName} {
				if n != "" {
					if t.FontName != n {
						c.Fail("font name %q, want %q", t.FontName, n)
					}
					break
				}
			}
			if len(t.Tables) != len(m.tables) {
				c.Fail("%d tables, want %d", len(t.Tables), len(m.tables))
			}
			for tag, b := range m.tables {
				if g := t.Tables[tag]; g == nil || !bytes.Equal(g.Data, b) || int(g.Length) != len(b) || g.Tag != tag || !bytes.Equal(m.b[g.Offset:int(g.Offset)+len(b)], b) {
					c.Fail("table %q: %+v", tag, g)
				}
			}
			if m.tables["OS/2"] != nil && len(m.names) > 0 {
				c.NT(m.desc)
			}
		})
	hx.Reg("C21", "glyphs", 5000, "the same fonts and subsets of 1-200 characters, mapped or not, added by rune and by string; the glyphs and widths reported must be those the character map and the metrics define; non-trivial: 3+ mapped characters, keyed by font and subset",
		func(c *hx.C) {
			m := genTTF(c)
			m.classes(c)
			f, err := font.NewFont("Name", m.b)
			if err != nil {
				c.Fail("NewFont: %v", err)
			}
			chars := m.genSubset(c, 20)
			want := map[int]bool{0: true}
			set := map[rune]bool{}
			for _, r := range chars {
				want[m.cmap[r]] = true
				set[r] = true
			}
			if cut := num(c, "byString", 0, len(chars)); true {
				f.AddString(string(chars[:cut]))
				for _, r := range chars[cut:] {
					f.AddRune(r)
				}
			}
			got := map[rune]bool{}
			for _, r := range f.Subset {
				if got[r] || !set[r] {
					c.Fail("subset has %U twice or without it being added", r)
				}
				got[r] = true
			}
			if len(got) != len(set) {
				c.Fail("subset of %d characters, %d were added", len(got), len(set))
			}
			for i := 0; i < 2; i++ {
				gs, err := f.GetSubsetGlyphs()
				if err != nil {
					c.Fail("GetSubsetGlyphs: %v", err)
				}
				ws, err := f.GetWidths()
				if err != nil {
					c.Fail("GetWidths: %v", err)
				}
				if len(gs) != len(want) || len(ws) != len(gs) {
					c.Fail("%d glyphs and %d widths, want %d: %v", len(gs), len(ws), len(want), gs)
				}
				for j, g := range gs {
					if !want[int(g)] || j > 0 && gs[j-1] >= g {
						c.Fail("glyphs %v, want %v in order", gs, want)
					}
					if ws[j] != m.adv[g] {
						c.Fail("glyph %d is %d wide, want %d", g, ws[j], m.adv[g])
					}
				}
			}
			if len(want) > 3 {
				c.NT(m.desc + fmt.Sprint(chars))
			}
		})
	hx.Reg("C21", "embed", 1500, "documents of 1-3 pages built with 1-2 such fonts embedded, each with its own characters, in classic and stream cross-reference form, encrypted or not; read back independently, each shown string must draw the outlines the font maps its characters to, with their widths, and map back to the characters, and the library must extract them; non-trivial: 3+ mapped characters shown, keyed by fonts and text",
		func(c *hx.C) {
			nf := num(c, "fonts", 1, 2)
			var ms []*mfont
			var fs []*font.Font
			var sets [][]rune
			for i := 0; i < nf; i++ {
				if i > 0 && flip(c, "sameFont") { // the same program with other characters
					ms = append(ms, ms[0])
				} else {
					ms = append(ms, genTTF(c))
				}
				f, err := font.NewFont("Name", append([]byte(nil), ms[i].b...))
				if err != nil {
					c.Fail("NewFont: %v", err)
				}
				if oneIn(c, "fontID", 4) {
					f.FontID = pick(c, "id", "ABCDEF", "XYZXYZ")
				}
				chars := ms[i].genSubset(c, 30)
				f.AddString(string(chars))
				fs, sets = append(fs, f), append(sets, chars)
			}
			b := write.NewSimplePDFBuilder()
			b.Writer().UseXRefStream(flip(c, "xrefStream"))
			var pw []byte
			if oneIn(c, "encrypted", 4) {
				pw = []byte("pw")
				if _, err := b.Writer().SetupEncryptionWithPasswords(pw, []byte("owner"), -4, true); err != nil {
					c.Fail("encryption: %v", err)
				}
			}
			type shown struct {
				font int
				text []rune
			}
			var pages [][]shown
			names := map[[2]int]string{}
			mapped := map[rune]bool{}
			key := ""
			for p, np := 0, count(c, "pages", 1, 3, 20); p < np; p++ {
				pg := b.AddPage(write.PageSizeLetter)
				if flip(c, "standardToo") {
					pg.AddStandardFont("Helvetica")
				}
				var page []shown
				for i := range fs {
					if nf > 1 && oneIn(c, "skip", 4) {
						continue
					}
					n, err := pg.AddEmbeddedFont(fs[i])
					if err != nil {
						c.Fail("AddEmbeddedFont: %v", err)
					}
					names[[2]int{p, i}] = strings.TrimPrefix(n, "/")
					var text []rune
					for k, l := 0, num(c, "textLen", 1, 12); k < l; k++ {
						text = append(text, sets[i][spread(c, "char", len(sets[i]))])
					}
					if flip(c, "wholeSet") {
						text = append(text, sets[i]...)
					}
					pg.Content().BeginText().SetFont(n, 12).SetTextPosition(72, 700).ShowText(string(text)).EndText()
					page = append(page, shown{i, text})
					key += string(text) + "|"
					for _, r := range text {
						if ms[i].cmap[r] != 0 {
							mapped[r] = true
						}
					}
				}
				b.FinalizePage(pg)
				pages = append(pages, page)
			}
			out, err := b.Bytes()
			if err != nil {
				c.Fail("Bytes: %v", err)
			}
			c.Emits("out.pdf", out, b.Bytes)
			for i, f := range fs {
				if !bytes.Equal(f.Data, ms[i].b) {
					c.Fail("embedding changed the font program")
				}
			}
			d := strictDoc(c, out, pw, nil)
			rp, err := d.Pages()
			if err != nil || len(rp) != len(pages) {
				c.Fail("%d pages, want %d (%v)", len(rp), len(pages), err)
			}
			doc, err := extract.ExtractContent(out, pw, false)
			if err != nil {
				c.Fail("ExtractContent: %v", err)
			}
			if len(doc.Pages) != len(pages) {
				c.Fail("%d pages extracted, want %d", len(doc.Pages), len(pages))
			}
			for p, page := range pages {
				res, err := d.Dict(rp[p].Attr["Resources"])
				if err != nil {
					c.Fail("resources: %v", err)
				}
				fonts := ref.Dict{}
				if len(page) > 0 {
					if fonts, err = d.Dict(res.Get("Font")); err != nil {
						c.Fail("fonts: %v", err)
					}
				}
				content, err := d.PageContent(rp[p])
				if err != nil {
					c.Fail("content: %v", err)
				}
				strs := shownStrings(content)
				if len(strs) != len(page) || len(doc.Pages[p].Text) != len(page) {
					c.Fail("page %d shows %d strings and %d were extracted, want %d", p+1, len(strs), len(doc.Pages[p].Text), len(page))
				}
				for i, s := range page {
					m := ms[s.font]
					e, err := readEmbedded(d, fonts.Get(names[[2]int{p, s.font}]), m)
					if err != nil {
						c.Fail("page %d font %d: %v", p+1, s.font, err)
					}
					if !subsetTag.MatchString(e.base) {
						c.Fail("subset font name %q has no tag", e.base)
					}
					if fs[s.font].FontID != "" && !strings.HasPrefix(e.base, fs[s.font].FontID+"+") {
						c.Fail("font name %q, the font was identified as %q", e.base, fs[s.font].FontID)
					}
					nm := e.base[7:]
					if ps := m.names[6]; len(ps) > 0 && !anyOf(nm, ps) {
						c.Fail("font name %q, the font's names are %q", nm, ps)
					}
					if m.otf && !bytes.Equal(e.prog.Tables["CFF "], m.tables["CFF "]) {
						c.Fail("the CFF table changed")
					}
					orig, err := ref.ReadTTF(m.b)
					if err != nil {
						c.Fail("harness: %v", err)
					}
					if err := e.sameGlyphs(strs[i], s.text, m, orig); err != nil {
						c.Fail("page %d font %d (%s): %v", p+1, s.font, m.desc, err)
					}
					all := true
					for _, r := range s.text {
						all = all && m.cmap[r] != 0
					}
					if all {
						if got := doc.Pages[p].Text[i].Text; got != string(s.text) {
							c.Fail("page %d: extracted %q, shown %q", p+1, got, string(s.text))
						}
					}
					c.ClassIf(all, "all characters mapped")
				}
			}
			for _, m := range ms {
				m.classes(c)
				key += m.desc
			}
			c.ClassIf(pw != nil, "encrypted")
			c.ClassIf(len(mapped) > 100, "over 100 characters shown")
			if len(mapped) >= 3 {
				c.NT(key)
			}
		})
}

// shownStrings returns the operands of the Tj operators of a content stream.
func shownStrings(b []byte) [][]byte {
	var out [][]byte
	p := &ref.Parser{B: b}
	for {
		p.SkipWS()
		ch, ok := p.Peek()
		if !ok {
			return out
		}
		if ch == '/' || ch == '(' || ch == '<' || ch == '[' || ch == '-' || ch == '+' || ch == '.' || ch >= '0' && ch <= '9' {
			o, err := p.Object()
			if err != nil {
				return out
			}
			if s, ok := o.(ref.Str); ok {
				out = append(out, s.B)
			}
			continue
		}
		for p.Pos < len(b) && !ref.IsWhite(b[p.Pos]) {
			p.Pos++
		}
	}
}
