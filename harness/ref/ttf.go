package ref

import (
	"encoding/binary"
	"fmt"
	"sort"
)

// TTF is a strictly read TrueType (or OpenType CFF) font program.
type TTF struct {
	Tables  map[string][]byte
	UPM     int
	Glyphs  int
	nh      int
	loca    []int
	outline bool
}

func be16(b []byte, i int) int { return int(binary.BigEndian.Uint16(b[i:])) }
func bei16(b []byte, i int) int {
	return int(int16(binary.BigEndian.Uint16(b[i:])))
}

// ReadTTF reads the structure a glyph renderer needs and refuses anything malformed.
func ReadTTF(b []byte) (*TTF, error) {
	if len(b) < 12 {
		return nil, fmt.Errorf("font program of %d bytes", len(b))
	}
	sig := binary.BigEndian.Uint32(b)
	if sig != 0x00010000 && sig != 0x74727565 && sig != 0x4F54544F {
		return nil, fmt.Errorf("signature %08x", sig)
	}
	f := &TTF{Tables: map[string][]byte{}}
	n := be16(b, 4)
	if len(b) < 12+16*n {
		return nil, fmt.Errorf("table directory cut short")
	}
	type span struct{ lo, hi int }
	var spans []span
	for i := 0; i < n; i++ {
		e := b[12+16*i:]
		tag := string(e[:4])
		off, l := int(binary.BigEndian.Uint32(e[8:])), int(binary.BigEndian.Uint32(e[12:]))
		if _, dup := f.Tables[tag]; dup {
			return nil, fmt.Errorf("table %q twice", tag)
		}
		if off+l > len(b) || off < 12+16*n {
			return nil, fmt.Errorf("table %q outside the file", tag)
		}
		f.Tables[tag] = b[off : off+l]
		if l > 0 {
			spans = append(spans, span{off, off + l})
		}
	}
	sort.Slice(spans, func(i, j int) bool { return spans[i].lo < spans[j].lo })
	for i := 1; i < len(spans); i++ {
		if spans[i].lo < spans[i-1].hi {
			return nil, fmt.Errorf("overlapping tables")
		}
	}
	need := map[string]int{"head": 54, "maxp": 6, "hhea": 36, "hmtx": 0}
	for tag, l := range need {
		if t, ok := f.Tables[tag]; !ok || len(t) < l {
			return nil, fmt.Errorf("table %q missing or short", tag)
		}
	}
	head := f.Tables["head"]
	if binary.BigEndian.Uint32(head[12:]) != 0x5F0F3CF5 {
		return nil, fmt.Errorf("head magic")
	}
	f.UPM, f.Glyphs, f.nh = be16(head, 18), be16(f.Tables["maxp"], 4), be16(f.Tables["hhea"], 34)
	if f.nh < 1 || f.nh > f.Glyphs || len(f.Tables["hmtx"]) < 4*f.nh+2*(f.Glyphs-f.nh) {
		return nil, fmt.Errorf("hmtx of %d bytes for %d metrics, %d glyphs", len(f.Tables["hmtx"]), f.nh, f.Glyphs)
	}
	if sig == 0x4F54544F {
		if f.Tables["CFF "] == nil {
			return nil, fmt.Errorf("no CFF table")
		}
		return f, nil
	}
	f.outline = true
	loca, glyf := f.Tables["loca"], f.Tables["glyf"]
	if loca == nil || glyf == nil {
		return nil, fmt.Errorf("no outlines")
	}
	w := 2
	if be16(head, 50) != 0 {
		w = 4
	}
	if len(loca) < w*(f.Glyphs+1) {
		return nil, fmt.Errorf("loca cut short")
	}
	for i := 0; i <= f.Glyphs; i++ {
		o := 0
		if w == 2 {
			o = 2 * be16(loca, 2*i)
		} else {
			o = int(binary.BigEndian.Uint32(loca[4*i:]))
		}
		if o > len(glyf) || i > 0 && o < f.loca[i-1] {
			return nil, fmt.Errorf("loca entry %d", i)
		}
		f.loca = append(f.loca, o)
	}
	return f, nil
}

// Advance is the advance width of a glyph in font units.
func (f *TTF) Advance(gid int) int {
	if gid >= f.nh {
		gid = f.nh - 1
	}
	return be16(f.Tables["hmtx"], 4*gid)
}

// Pt is a point of a flattened outline; End marks the last one of a contour.
type Pt struct {
	X, Y    float64
	On, End bool
}

// Outline returns the points a glyph is drawn with.
func (f *TTF) Outline(gid int) ([]Pt, error) { return f.glyph(gid, 0) }

func (f *TTF) glyph(gid, depth int) ([]Pt, error) {
	if gid < 0 || gid >= f.Glyphs {
		return nil, fmt.Errorf("glyph %d of %d", gid, f.Glyphs)
	}
	if depth > 8 {
		return nil, fmt.Errorf("composite glyphs too deep")
	}
	if !f.outline {
		return nil, fmt.Errorf("no TrueType outlines")
	}
	g := f.Tables["glyf"][f.loca[gid]:f.loca[gid+1]]
	if len(g) == 0 {
		return nil, nil
	}
	bad := fmt.Errorf("glyph %d cut short", gid)
	if len(g) < 10 {
		return nil, bad
	}
	nc := bei16(g, 0)
	at := 10
	ok := func(n int) bool { return at+n <= len(g) }
	if nc < 0 {
		var out []Pt
		for {
			if !ok(4) {
				return nil, bad
			}
			flags, sub := be16(g, at), be16(g, at+2)
			at += 4
			var dx, dy int
			if flags&1 != 0 {
				if !ok(4) {
					return nil, bad
				}
				dx, dy = bei16(g, at), bei16(g, at+2)
				at += 4
			} else {
				if !ok(2) {
					return nil, bad
				}
				dx, dy = int(int8(g[at])), int(int8(g[at+1]))
				at += 2
			}
			if flags&2 == 0 {
				return nil, fmt.Errorf("glyph %d: point-matched component", gid)
			}
			m := [4]float64{1, 0, 0, 1}
			k := 0
			switch {
			case flags&8 != 0:
				k = 1
			case flags&0x40 != 0:
				k = 2
			case flags&0x80 != 0:
				k = 4
			}
			if !ok(2 * k) {
				return nil, bad
			}
			v := make([]float64, k)
			for i := range v {
				v[i] = float64(bei16(g, at+2*i)) / 16384
			}
			at += 2 * k
			switch k {
			case 1:
				m = [4]float64{v[0], 0, 0, v[0]}
			case 2:
				m = [4]float64{v[0], 0, 0, v[1]}
			case 4:
				m = [4]float64{v[0], v[1], v[2], v[3]}
			}
			pts, err := f.glyph(sub, depth+1)
			if err != nil {
				return nil, err
			}
			for _, p := range pts {
				out = append(out, Pt{p.X*m[0] + p.Y*m[2] + float64(dx), p.X*m[1] + p.Y*m[3] + float64(dy), p.On, p.End})
			}
			if flags&0x20 == 0 {
				return out, nil
			}
		}
	}
	if !ok(2*nc + 2) {
		return nil, bad
	}
	ends := map[int]bool{}
	np := 0
	for i := 0; i < nc; i++ {
		e := be16(g, at+2*i)
		if e+1 <= np {
			return nil, fmt.Errorf("glyph %d: contour ends", gid)
		}
		ends[e] = true
		np = e + 1
	}
	at += 2 * nc
	il := be16(g, at)
	at += 2
	if !ok(il) {
		return nil, bad
	}
	at += il
	var flags []byte
	for len(flags) < np {
		if !ok(1) {
			return nil, bad
		}
		fl := g[at]
		at++
		flags = append(flags, fl)
		if fl&8 != 0 {
			if !ok(1) {
				return nil, bad
			}
			for r := int(g[at]); r > 0; r-- {
				flags = append(flags, fl)
			}
			at++
		}
	}
	if len(flags) != np {
		return nil, fmt.Errorf("glyph %d: flags", gid)
	}
	out := make([]Pt, np)
	for axis := 0; axis < 2; axis++ {
		short, same := byte(2)<<axis, byte(16)<<axis
		v := 0
		for i, fl := range flags {
			switch {
			case fl&short != 0:
				if !ok(1) {
					return nil, bad
				}
				if fl&same != 0 {
					v += int(g[at])
				} else {
					v -= int(g[at])
				}
				at++
			case fl&same == 0:
				if !ok(2) {
					return nil, bad
				}
				v += bei16(g, at)
				at += 2
			}
			if axis == 0 {
				out[i] = Pt{X: float64(v), On: fl&1 != 0, End: ends[i]}
			} else {
				out[i].Y = float64(v)
			}
		}
	}
	return out, nil
}
