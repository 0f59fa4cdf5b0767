package props

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"unicode/utf16"

	"github.com/benedoc-inc/pdfer/content/extract"
	"verif/harness/hx"
	"verif/harness/ref"
)

// code is one character code as bytes, with the texts it may stand for.
type fcode struct {
	b    []byte
	text []string
}

// encodingText returns what a code of a named encoding stands for ("" list: not defined).
func encodingText(enc string, code int) []string {
	n := ref.EncodingNames[enc][code]
	if n == "" {
		return nil
	}
	out := []string{string(ref.GlyphText[n])}
	switch {
	case n == "space" && code != 32:
		out = append(out, "\u00A0")
	case n == "hyphen" && code == 0xAD:
		out = append(out, "\u00AD")
	case n == "Omega":
		out = append(out, "\u03A9")
	case n == "bullet" && enc == "WinAnsiEncoding" && code != 0x95:
		return nil // unused codes
	}
	return out
}

// genTargets draws the text a ToUnicode entry stands for.
func genTarget(c *hx.C) string {
	return pick(c, "target", "A", "z", "é", "Ω", "漢", "\U0001F600", "ffi", "ﬁ", "a\u0301", "\u00a0", "e\U00010348", "()", "\u0416", "𝒳y", "\uE000", " ", "0")
}

func hex4(units []uint16) string {
	s := ""
	for _, u := range units {
		s += fmt.Sprintf("%04X", u)
	}
	return s
}

// genCMap draws ToUnicode entries over codes of the given width, renders them and returns code → text.
func genCMap(c *hx.C, r *prng, width int, lo, hi int, taken map[int]bool) (map[int]string, []string) {
	m := map[int]string{}
	type entry struct{ sec, line string }
	var es []entry
	hexc := func(code int) string {
		s := fmt.Sprintf("%0*X", width*2, code)
		if r.n(3) == 1 {
			s = strings.ToLower(s)
		}
		if r.n(9) == 1 {
			s = s[:1] + " " + s[1:]
		}
		return "<" + s + ">"
	}
	sep := func() string { return []string{" ", "", "\n", "\t"}[r.n(4)] }
	// span reports whether n codes from start are free and differ in the last byte only
	span := func(start, n int) bool {
		if start < lo || start+n-1 > hi || start>>8 != (start+n-1)>>8 {
			return false
		}
		for i := 0; i < n; i++ {
			if taken[start+i] {
				return false
			}
		}
		return true
	}
	for i, n := 0, count(c, "cmapEntries", 1, 12, 250); i < n; i++ {
		start := lo + spread(c, "code", hi-lo+1)
		kind := num(c, "cmapKind", 0, 3)
		if width > 1 && lo&0xff == 0 && hi&0xff == 0xff && hi-lo > 0x1ff && oneIn(c, "wideRange", 8) {
			kind = 4
		}
		switch kind {
		case 4: // codes that differ in more than the last byte
			k := num(c, "wideLen", 257, min(hi-lo, 0xa000))
			start = lo + num(c, "wideAt", 0, hi-lo+1-k)
			base := 0x20 + num(c, "wideTo", 0, 0xd7ff-0x20-k)
			free := true
			for j := 0; j < k && free; j++ {
				free = !taken[start+j]
			}
			if !free {
				continue
			}
			for j := 0; j < k; j++ {
				taken[start+j] = true
				if j < 3 || j > k-3 || r.n(k) < 40 || start+j&0xff == 0 && r.n(4) == 0 {
					m[start+j] = string(rune(base + j))
				}
			}
			es = append(es, entry{"bfrange", hexc(start) + sep() + hexc(start+k-1) + sep() + "<" + hex4([]uint16{uint16(base)}) + ">"})
		case 0, 1:
			if !span(start, 1) {
				continue
			}
			t := genTarget(c)
			m[start], taken[start] = t, true
			es = append(es, entry{"bfchar", hexc(start) + sep() + "<" + hex4(utf16.Encode([]rune(t))) + ">"})
		case 2: // range from a base: the last unit counts up, within its low byte
			k := num(c, "rangeLen", 1, 40)
			if oneIn(c, "longRange", 8) {
				k = num(c, "rangeLong", 100, 256)
				start &^= 0xff
			}
			u := utf16.Encode([]rune(genTarget(c)))
			last := int(u[len(u)-1])
			if last&0xff+k-1 > 0xff {
				if last >= 0xDC00 && last < 0xE000 {
					continue // the pair would change its other half
				}
				u[len(u)-1] = uint16(last &^ 0xff)
			}
			if !span(start, k) {
				continue
			}
			for j := 0; j < k; j++ {
				v := append([]uint16(nil), u...)
				v[len(v)-1] += uint16(j)
				m[start+j], taken[start+j] = string(utf16.Decode(v)), true
			}
			es = append(es, entry{"bfrange", hexc(start) + sep() + hexc(start+k-1) + sep() + "<" + hex4(u) + ">"})
		case 3: // range with an array
			k := num(c, "arrayLen", 1, 6)
			if !span(start, k) {
				continue
			}
			a := "["
			for j := 0; j < k; j++ {
				t := genTarget(c)
				m[start+j], taken[start+j] = t, true
				a += sep() + "<" + hex4(utf16.Encode([]rune(t))) + ">"
			}
			es = append(es, entry{"bfrange", hexc(start) + sep() + hexc(start+k-1) + sep() + a + sep() + "]"})
		}
	}
	var lines []string
	if flip(c, "groupCMap") {
		sort.SliceStable(es, func(i, j int) bool { return es[i].sec < es[j].sec })
	}
	for i := 0; i < len(es); {
		j := i
		for j < len(es) && es[j].sec == es[i].sec && j-i < 100 {
			j++
		}
		lines = append(lines, fmt.Sprintf("%d begin%s", j-i, es[i].sec))
		for ; i < j; i++ {
			lines = append(lines, es[i].line)
		}
		lines = append(lines, "end"+es[i-1].sec)
	}
	return m, lines
}

func cmapFile(r *prng, spaces []string, lines []string) []byte {
	eol := []string{"\n", "\r\n", "\r"}[r.n(3)]
	head := []string{"/CIDInit /ProcSet findresource begin", "12 dict begin", "begincmap", "/CIDSystemInfo <</Registry (Adobe) /Ordering (UCS) /Supplement 0>> def", "/CMapName /Adobe-Identity-UCS def", "/CMapType 2 def"}
	if r.n(3) == 1 {
		head = append(head, "% 1 beginbfchar <41> <0042> endbfchar")
	}
	all := append(head, fmt.Sprintf("%d begincodespacerange", len(spaces)))
	all = append(all, spaces...)
	all = append(append(all, "endcodespacerange"), lines...)
	all = append(all, "endcmap", "CMapName currentdict /CMap defineresource pop", "end", "end")
	return []byte(strings.Join(all, eol))
}

// genFont draws a font with its encoding and returns the codes that have a defined meaning.
func genFont(c *hx.C, f *fd, r *prng) (ref.Obj, []fcode, string) {
	var codes []fcode
	d := ref.Dict{{K: "Type", V: ref.Name("Font")}}
	if num(c, "fontKind", 0, 3) < 3 {
		base := pick(c, "base", "WinAnsiEncoding", "MacRomanEncoding", "StandardEncoding", "MacExpertEncoding", "")
		eff := base
		if base == "" {
			eff = "StandardEncoding"
		}
		desc := "simple " + base
		d = append(d, ref.KV{K: "Subtype", V: ref.Name(pick(c, "fsub", "Type1", "Type1", "TrueType", "MMType1"))}, ref.KV{K: "BaseFont", V: ref.Name("Helvetica")})
		if base == "" {
			d = d.With("Subtype", ref.Name("Type1"))
		}
		text := map[int][]string{}
		for i := 0; i < 256; i++ {
			if t := encodingText(eff, i); t != nil {
				text[i] = t
			}
		}
		withDiff := flip(c, "diffs")
		if withDiff {
			a := ref.Arr{}
			used := map[int]bool{}
			for i, n := 0, count(c, "diffRuns", 1, 5, 60); i < n; i++ {
				at := spread(c, "diffAt", 256)
				a = append(a, at)
				for j, k := 0, num(c, "diffLen", 0, 6); j < k && at+j < 256; j++ {
					nm, t := "", ""
					switch num(c, "gk", 0, 6) {
					case 0, 1, 2:
						nm = ref.GlyphNames[spread(c, "glyph", len(ref.GlyphNames))]
						t = string(ref.GlyphText[nm])
					case 3:
						nm, t = pick(c, "un", "uni0041", "uni20AC", "uni6F22"), ""
						t = map[string]string{"uni0041": "A", "uni20AC": "€", "uni6F22": "漢"}[nm]
					case 4:
						nm = pick(c, "u", "u0041", "u1F600", "u10FFFF")
						t = map[string]string{"u0041": "A", "u1F600": "\U0001F600", "u10FFFF": "\U0010FFFF"}[nm]
					case 5:
						nm = pick(c, "lig", "f_f_i", "A.swash", "uni00410042", "s_t.alt")
						t = map[string]string{"f_f_i": "ffi", "A.swash": "A", "uni00410042": "AB", "s_t.alt": "st"}[nm]
					case 6:
						nm = pick(c, "unknown", "g123", "nosuchglyph", ".notdef", "cid00001")
					}
					a = append(a, ref.Name(nm))
					if used[at+j] && t != "" || !used[at+j] {
						used[at+j] = true
						if t == "" {
							delete(text, at+j) // nothing defined
						} else {
							text[at+j] = []string{t}
						}
					} else {
						delete(text, at+j)
					}
				}
			}
			e := ref.Dict{{K: "Type", V: ref.Name("Encoding")}}
			if base != "" {
				e = append(e, ref.KV{K: "BaseEncoding", V: f.ind(ref.Name(base))})
			}
			e = append(e, ref.KV{K: "Differences", V: f.ind(a)})
			d = append(d, ref.KV{K: "Encoding", V: f.ind(e)})
			desc += fmt.Sprintf(" diffs %s", ref.Plain.Bytes(a))
		} else if base != "" {
			if oneIn(c, "encdict", 4) {
				d = append(d, ref.KV{K: "Encoding", V: ref.Dict{{K: "BaseEncoding", V: ref.Name(base)}}})
			} else {
				d = append(d, ref.KV{K: "Encoding", V: f.ind(ref.Name(base))})
			}
		}
		if oneIn(c, "toU", 3) {
			m, lines := genCMap(c, r, 1, 0, 255, map[int]bool{})
			for k, t := range m {
				text[k] = []string{t}
			}
			d = append(d, ref.KV{K: "ToUnicode", V: f.stream(nil, cmapFile(r, []string{"<00> <FF>"}, lines))})
			desc += " toUnicode " + strings.Join(lines, " ")
		}
		for _, k := range sortedKeys(text) {
			codes = append(codes, fcode{[]byte{byte(k)}, text[k]})
		}
		return f.ind(d), codes, desc
	}
	// composite
	desc := "composite"
	type space struct{ w, lo, hi int }
	spaces := []space{{2, 0, 0xffff}}
	enc := ref.Obj(ref.Name(pick(c, "ident", "Identity-H", "Identity-V")))
	var cs []string
	if flip(c, "mixedWidth") {
		spaces = pick(c, "spaces", []space{{1, 0, 0x7f}, {2, 0x8000, 0x9fff}, {3, 0xa00000, 0xafffff}, {4, 0xe0000000, 0xe0ffffff}}, []space{{1, 0x20, 0xff}}, []space{{4, 0, 0x0010ffff}}, []space{{3, 0, 0xffff}}, []space{{1, 0, 0x80}, {2, 0x8100, 0xfefe}})
	}
	for _, s := range spaces {
		cs = append(cs, fmt.Sprintf("<%0*X> <%0*X>", s.w*2, s.lo, s.w*2, s.hi))
	}
	var all []string
	for _, s := range spaces {
		hi := s.hi
		if s.w == 2 && hi == 0xfefe {
			hi = 0x81fe
		}
		taken := map[int]bool{}
		if s.w == 4 && s.hi == 0x10ffff || s.w == 3 && s.hi == 0xffff {
			hi = s.lo + 0xff
		}
		lo := s.lo
		if s.w == 2 && hi == 0xffff && flip(c, "lowcodes") {
			hi = 0x2ff // single bytes of these codes are codes of other fonts
		}
		m, lines := genCMap(c, r, s.w, lo, hi, taken)
		all = append(all, lines...)
		for _, k := range sortedKeys(m) {
			b := make([]byte, s.w)
			for i := range b {
				b[i] = byte(k >> (8 * (s.w - 1 - i)))
			}
			codes = append(codes, fcode{b, []string{m[k]}})
		}
	}
	if len(spaces) > 1 || spaces[0].w != 2 {
		enc = f.stream(ref.Dict{{K: "Type", V: ref.Name("CMap")}, {K: "CMapName", V: ref.Name("Custom")}}, cmapFile(r, cs, nil))
	}
	desc += fmt.Sprint(cs) + strings.Join(all, " ")
	desc0 := ref.Dict{{K: "Type", V: ref.Name("Font")}, {K: "Subtype", V: ref.Name("CIDFontType2")}, {K: "BaseFont", V: ref.Name("X")}}
	d = append(d, ref.KV{K: "Subtype", V: ref.Name("Type0")}, ref.KV{K: "BaseFont", V: ref.Name("X")}, ref.KV{K: "Encoding", V: enc}, ref.KV{K: "DescendantFonts", V: ref.Arr{f.ind(desc0)}}, ref.KV{K: "ToUnicode", V: f.stream(nil, cmapFile(r, cs, all))})
	return f.ind(d), codes, desc
}

// acceptable reports whether got is a concatenation of one text of each code.
func acceptable(got string, codes []fcode) bool {
	set := map[string]bool{"": true}
	for _, k := range codes {
		next := map[string]bool{}
		for p := range set {
			for _, t := range k.text {
				if strings.HasPrefix(got, p+t) {
					next[p+t] = true
				}
			}
		}
		set = next
	}
	return set[got]
}

func init() {
	hx.Reg("C10", "fonts", 3500, "documents of 1-3 pages with 1-3 fonts each under equal or different names: every named base encoding, Differences over the Adobe Glyph List and algorithmic names, composite fonts with 1-4 byte codes, ToUnicode maps of characters, ranges and arrays, shown as strings of 1-20 codes with font changes between them; the extracted text must be what the tables define; non-trivial: 3+ distinct codes shown, keyed by fonts and codes",
		func(c *hx.C) {
			f := newFD(c)
			g := &cgen{c: c, r: prng(num(c, "layout", 0, 1<<30))}
			np := count(c, "pages", 1, 3, 12)
			type shown struct {
				codes []fcode
				font  string
			}
			want := make([][]shown, np)
			key, distinct := "", map[string]bool{}
			root, _ := f.pageTree(np, func(i int) (ref.Dict, ref.Dict) {
				fonts := ref.Dict{}
				var names []string
				codes := map[string][]fcode{}
				for j, n := 0, count(c, "fonts", 1, 3, 20); j < n; j++ {
					nm := fmt.Sprintf("F%d", j+1)
					o, cs, desc := genFont(c, f, &g.r)
					fonts = append(fonts, ref.KV{K: nm, V: o})
					if len(cs) > 0 {
						names = append(names, nm)
						codes[nm] = cs
					}
					key += desc + "\n"
				}
				var b bytes.Buffer
				b.WriteString("BT ")
				cur := ""
				for j, n := 0, count(c, "strings", 1, 6, 80); j < n && len(names) > 0; j++ {
					if cur == "" || flip(c, "switch") {
						cur = pick(c, "use", names...)
						b.WriteString("/" + cur + " 12 Tf ")
					}
					var s shown
					s.font = cur
					var raw []byte
					parts := []string{}
					for k, m := 0, num(c, "codes", 1, 20); k < m; k++ {
						x := codes[cur][spread(c, "codeIdx", len(codes[cur]))]
						s.codes = append(s.codes, x)
						raw = append(raw, x.b...)
						distinct[cur+string(x.b)] = true
						if oneIn(c, "splitTJ", 6) {
							parts = append(parts, g.str(raw))
							raw = nil
						}
					}
					if len(parts) > 0 {
						b.WriteString("[" + strings.Join(parts, " -20 ") + g.str(raw) + "] TJ ")
					} else {
						b.WriteString(g.str(raw) + " Tj ")
					}
					key += fmt.Sprintf("%s %x\n", cur, raw)
					want[i] = append(want[i], s)
				}
				b.WriteString("ET")
				return ref.Dict{{K: "Contents", V: f.stream(nil, b.Bytes())}}, ref.Dict{{K: "MediaBox", V: ref.Arr{0, 0, 612, 792}}, {K: "Resources", V: f.ind(ref.Dict{{K: "Font", V: f.ind(fonts)}})}}
			})
			f.trailer = ref.Dict{{K: "Root", V: f.add(ref.Dict{{K: "Type", V: ref.Name("Catalog")}, {K: "Pages", V: root}})}}
			b := f.emit()
			c.Dump("in.pdf", b)
			doc, err := extract.ExtractContent(b, nil, false)
			if err != nil || len(doc.Pages) != np {
				c.Fail("ExtractContent: %v", err)
			}
			for i := range want {
				got := doc.Pages[i].Text
				if len(got) != len(want[i]) {
					c.Fail("page %d: %d text elements, want %d", i+1, len(got), len(want[i]))
				}
				for j, w := range want[i] {
					if got[j].FontName != "/"+w.font || !acceptable(got[j].Text, w.codes) {
						c.Fail("page %d text %d: %q, want %s\nfonts:\n%s", i+1, j, got[j].Text, fmtCodes(w.codes), key)
					}
				}
			}
			if len(distinct) >= 3 {
				c.NT(key)
			}
		})

	hx.Reg("C10", "decoder", 12000, "the font decoder used directly: base encoding, Differences text or single entries, a ToUnicode map or single entries, in any order of calls, and strings of codes as bytes and in hexadecimal; decoding twice and decoding each code alone must agree; non-trivial: 3+ codes, keyed by the tables and codes",
		func(c *hx.C) {
			r := prng(num(c, "layout", 0, 1<<30))
			fd := extract.NewFontDecoder("/F1")
			text := map[int][]string{}
			wide := oneIn(c, "wide", 3)
			key := ""
			lo, hi, w := 0, 255, 1
			if wide {
				hi, w = 0x3ff, 2
				fd.SetBaseEncoding(pick(c, "ident", "/Identity-H", "Identity-V"))
			} else {
				base := pick(c, "base", "WinAnsiEncoding", "MacRomanEncoding", "StandardEncoding", "MacExpertEncoding")
				key = base
				fd.SetBaseEncoding(pick(c, "slash", "", "/") + base)
				for i := 0; i < 256; i++ {
					if t := encodingText(base, i); t != nil {
						text[i] = t
					}
				}
				var s strings.Builder
				s.WriteString("[")
				for i, n := 0, count(c, "diffs", 0, 4, 60); i < n; i++ {
					at := num(c, "at", 0, 250)
					fmt.Fprintf(&s, " %d", at)
					for j, k := 0, num(c, "run", 1, 4); j < k; j++ {
						nm := ref.GlyphNames[spread(c, "glyph", len(ref.GlyphNames))]
						s.WriteString([]string{"/", " /", "\n/"}[r.n(3)] + nm)
						text[at+j] = []string{string(ref.GlyphText[nm])}
					}
				}
				s.WriteString("]")
				fd.ParseDifferencesArray(s.String())
				key += s.String()
				if flip(c, "single") {
					at := num(c, "at1", 0, 255)
					nm := ref.GlyphNames[spread(c, "glyph", len(ref.GlyphNames))]
					fd.SetDifferences(at, nm)
					text[at] = []string{string(ref.GlyphText[nm])}
				}
			}
			if wide || flip(c, "toU") {
				m, lines := genCMap(c, &r, w, lo, hi, map[int]bool{})
				fd.ParseToUnicodeCMap(string(cmapFile(&r, []string{fmt.Sprintf("<%0*X> <%0*X>", 2*w, 0, 2*w, 1<<(8*w)-1)}, lines)))
				for k, t := range m {
					text[k] = []string{t}
				}
				key += strings.Join(lines, " ")
			}
			if flip(c, "setToU") {
				at := num(c, "at2", lo, hi)
				rn := []rune(genTarget(c))[0]
				if _, ok := text[at]; !ok {
					fd.SetToUnicode(at, rn)
					text[at] = []string{string(rn)}
				}
			}
			ks := sortedKeys(text)
			if len(ks) == 0 {
				return
			}
			var cs []fcode
			var raw []byte
			for i, n := 0, count(c, "codes", 1, 30, 400); i < n; i++ {
				k := ks[spread(c, "idx", len(ks))]
				b := []byte{byte(k)}
				if w == 2 {
					b = []byte{byte(k >> 8), byte(k)}
				}
				cs = append(cs, fcode{b, text[k]})
				raw = append(raw, b...)
			}
			got := fd.Decode(raw)
			if !acceptable(got, cs) {
				c.Fail("Decode(%x) = %q, want %s\n%s", raw, got, fmtCodes(cs), key)
			}
			if again := fd.Decode(raw); again != got {
				c.Fail("Decode(%x) = %q and then %q", raw, got, again)
			}
			one := ""
			for _, x := range cs {
				one += fd.Decode(x.b)
			}
			if one != got {
				c.Fail("codes of %x decode to %q alone and %q together", raw, one, got)
			}
			for _, h := range []string{fmt.Sprintf("%x", raw), fmt.Sprintf("<%X>", raw)} {
				if hd := fd.DecodeHex(h); hd != got {
					c.Fail("DecodeHex(%s) = %q, want %q", h, hd, got)
				}
			}
			// another decoder with the same base encoding is not affected
			if !wide {
				other := extract.NewFontDecoder("/F2")
				base := pick(c, "other", "WinAnsiEncoding", "MacRomanEncoding", "StandardEncoding", "MacExpertEncoding")
				other.SetBaseEncoding(base)
				k := num(c, "probe", 32, 255)
				if t := encodingText(base, k); t != nil && !acceptable(other.Decode([]byte{byte(k)}), []fcode{{nil, t}}) {
					c.Fail("code %d of %s is %q after another decoder was changed, want %q", k, base, other.Decode([]byte{byte(k)}), t)
				}
			}
			if len(cs) > 2 {
				c.NT(fmt.Sprintf("%s %x", key, raw))
			}
		})

	hx.Reg("C10", "tables", 60, "one encoding or the glyph list swept over all codes and names, in a drawn order of calls; non-trivial: always, keyed by encoding and order",
		func(c *hx.C) {
			enc := pick(c, "enc", "WinAnsiEncoding", "MacRomanEncoding", "StandardEncoding", "MacExpertEncoding", "glyphs")
			off := num(c, "off", 0, 4300)
			if enc == "glyphs" {
				fd := extract.NewFontDecoder("/F")
				fd.SetBaseEncoding("WinAnsiEncoding")
				for i := range ref.GlyphNames {
					nm := ref.GlyphNames[(i+off)%len(ref.GlyphNames)]
					fd.SetDifferences(i%256, nm)
					if got := fd.Decode([]byte{byte(i)}); got != string(ref.GlyphText[nm]) {
						c.Fail("glyph %s is %q, want %q", nm, got, string(ref.GlyphText[nm]))
					}
				}
			} else {
				fd := extract.NewFontDecoder("/F")
				fd.SetBaseEncoding(enc)
				for i := 0; i < 256; i++ {
					k := (i + off) % 256
					if t := encodingText(enc, k); t != nil && !acceptable(fd.Decode([]byte{byte(k)}), []fcode{{nil, t}}) {
						c.Fail("code %d of %s is %q, want %q", k, enc, fd.Decode([]byte{byte(k)}), t)
					}
				}
			}
			c.Class(enc)
			c.NT(fmt.Sprintf("%s %d", enc, off))
		})
}

func fmtCodes(cs []fcode) string {
	var s []string
	for _, x := range cs {
		s = append(s, fmt.Sprintf("%x=%q", x.b, x.text))
	}
	return strings.Join(s, " ")
}
