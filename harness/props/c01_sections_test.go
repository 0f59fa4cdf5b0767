package props

import (
	"bytes"
	"fmt"
	"reflect"
	"strconv"

	"github.com/benedoc-inc/pdfer/core/parse"
	"verif/harness/hx"
	"verif/harness/ref"
)

func init() {
	hx.Reg("C01", "sections", 2500, "documents with up to 4 revisions (tables, streams, hybrids); header, cross-reference entries, trailer, offsets and bytes of every revision are compared with the generator's layout, and the functions that read one part agree with the whole; non-trivial: at least 3 objects", func(c *hx.C) {
		m := genHistory(c, histOpts{maxRev: 4})
		c.Dump("input.pdf", m.bytes)
		m.count(c)
		last := len(m.views) - 1
		if len(m.views[last]) >= 3 {
			c.NT(describe(m))
		}
		doc, err := parse.ParsePDFDocument(m.bytes)
		if err != nil {
			c.Fail("ParsePDFDocument: %v", err)
		}
		if !bytes.Equal(doc.RawBytes, m.bytes) {
			c.Fail("RawBytes differs from the input")
		}
		h := doc.Header
		major, minor := int(m.version[0]-'0'), int(m.version[2]-'0')
		first := len(m.bytes)
		for _, off := range m.offs[0] {
			first = min(first, off)
		}
		if h.Version != m.version || h.MajorVersion != major || h.MinorVersion != minor || !bytes.Equal(h.RawBytes, m.bytes[:first]) {
			c.Fail("header %q %d.%d %q, want %q and the first %d bytes", h.Version, h.MajorVersion, h.MinorVersion, h.RawBytes, m.version, first)
		}
		if h2, err := parse.ParsePDFHeader(m.bytes); err != nil || !reflect.DeepEqual(h, h2) {
			c.Fail("ParsePDFHeader gives %+v (%v), the document has %+v", h2, err, h)
		}
		if len(doc.Revisions) != last+1 || doc.LatestRevision() != doc.Revisions[last] {
			c.Fail("%d revisions, want %d; the latest is the last", len(doc.Revisions), last+1)
		}
		if got, want := parse.FindAllEOFMarkers(m.bytes), m.ends; len(got) != len(want) {
			c.Fail("end markers at %v, want %d", got, len(want))
		} else {
			b := parse.GetRevisionBoundaries(m.bytes)
			for i, x := range got {
				if !bytes.Equal(bytes.TrimRight(m.bytes[x:want[i]], "\r\n"), []byte("%%EOF")) || b[i] != x+5 {
					c.Fail("end marker %d at %d with the boundary %d, want them before %d", i, x, b[i], want[i])
				}
			}
		}
		newest := map[int]int{} // number -> revision that holds it directly
		for r, rv := range doc.Revisions {
			checkSection(c, m, doc, r, rv)
			for n := range m.direct[r] {
				newest[n] = r
			}
		}
		all := doc.AllObjects()
		if len(all) != len(newest) || doc.ObjectCount() != len(newest) {
			c.Fail("AllObjects has %d and ObjectCount says %d, want %d", len(all), doc.ObjectCount(), len(newest))
		}
		for n, r := range newest {
			if all[n] == nil || all[n] != doc.Revisions[r].Objects[n] || doc.GetObject(n) != all[n] {
				c.Fail("object %d is not the one of revision %d", n, r+1)
			}
		}
	})
	hx.Reg("C02", "every-way", 1200, "documents with up to 4 revisions; each object is asked for by number, by location, by offset and by container, in the whole file and in every extracted revision, with the low-level functions, which have to give what the file defines; non-trivial: at least 3 objects", func(c *hx.C) {
		m := genHistory(c, histOpts{maxRev: 4})
		c.Dump("input.pdf", m.bytes)
		m.count(c)
		last := len(m.views) - 1
		if len(m.views[last]) >= 3 {
			c.NT(describe(m))
		}
		for r := last; r >= 0; r-- {
			b := m.bytes[:m.ends[r]]
			t, err := parse.ParsePDFTrailer(b)
			if err != nil || t.RootRef != fmt.Sprintf("/Root %d 0 R", m.root[r]) || t.InfoRef != fmt.Sprintf("/Info %d 0 R", m.info[r]) || t.EncryptRef != "" || int(t.StartXRef) != m.xrefs[r] {
				c.Fail("revision %d: ParsePDFTrailer %+v (%v), want root %d, info %d, startxref %d", r+1, t, err, m.root[r], m.info[r], m.xrefs[r])
			}
			at := map[int]int{}
			for q := 0; q <= r; q++ {
				for n, off := range m.offs[q] {
					at[n] = off
				}
			}
			// the map of one section
			mp, err := parse.ParseCrossReferenceTable(b, int64(m.xrefs[r]))
			if len(m.offs[r]) > 0 {
				if err != nil || len(mp) != len(m.offs[r]) {
					c.Fail("revision %d: ParseCrossReferenceTable gives %v (%v), want %v", r+1, mp, err, m.offs[r])
				}
				for n, off := range m.offs[r] {
					if mp[n] != int64(off) {
						c.Fail("revision %d: ParseCrossReferenceTable has object %d at %d, want %d", r+1, n, mp[n], off)
					}
				}
				var same map[int]int64
				if m.kinds[r] == "stream" {
					same, err = parse.ParseXRefStream(b, int64(m.xrefs[r]))
				} else {
					same, err = parse.ParseTraditionalXRefTable(b, int64(m.xrefs[r]))
				}
				if err != nil || !reflect.DeepEqual(mp, same) {
					c.Fail("revision %d (%s): %v (%v) read directly, %v by kind", r+1, m.kinds[r], same, err, mp)
				}
			}
			if m.kinds[r] == "stream" {
				full, err := parse.ParseXRefStreamFull(b, int64(m.xrefs[r]), false)
				if err != nil || len(full.Objects) != len(m.offs[r]) || len(full.ObjectStreams) != len(m.member[r]) {
					c.Fail("revision %d: ParseXRefStreamFull: %v, %d direct and %d compressed objects, want %d and %d", r+1, err, len(full.Objects), len(full.ObjectStreams), len(m.offs[r]), len(m.member[r]))
				}
				for n, sn := range m.member[r] {
					if full.ObjectStreams[n].StreamObjNum != sn {
						c.Fail("revision %d: object %d is in %d, want %d", r+1, n, full.ObjectStreams[n].StreamObjNum, sn)
					}
				}
				for n, off := range m.offs[r] {
					if full.Objects[n] != int64(off) || full.Generations[n] != m.direct[r][n].g {
						c.Fail("revision %d: object %d at %d with generation %d, want %d and %d", r+1, n, full.Objects[n], full.Generations[n], off, m.direct[r][n].g)
					}
				}
				for _, n := range m.freedIn[r] {
					if !full.Free[n] {
						c.Fail("revision %d: object %d is not free", r+1, n)
					}
				}
			}
			ns := sortedKeys(m.views[r])
			step := 1 + len(ns)/num(c, "asked", 3, 10)
			for i := num(c, "from", 0, step-1); i < len(ns); i += step {
				n, o := ns[i], m.views[r][ns[i]]
				want := bytes.TrimSpace(o.body)
				loc, err := parse.FindObjectLocation(b, n, false)
				if err != nil {
					c.Fail("revision %d: FindObjectLocation(%d): %v", r+1, n, err)
				}
				off, ferr := parse.FindObjectByNumber(b, n, nil, false)
				if o.instm == 0 {
					if !loc.IsDirect || int(loc.ByteOffset) != at[n] || ferr != nil || off != at[n] {
						c.Fail("revision %d: object %d located at %+v and %d (%v), want %d", r+1, n, loc, off, ferr, at[n])
					}
					got, err := parse.GetDirectObject(b, n, int64(at[n]), nil, false)
					if err != nil || !bytes.Equal(stripIndirect(got, n, o.g), want) {
						c.Fail("revision %d: GetDirectObject(%d): %v\n got %q\nwant %q", r+1, n, err, got, want)
					}
					raw, err := parse.ParseRawObjectAt(b, int64(at[n]))
					if err != nil {
						c.Fail("revision %d: ParseRawObjectAt(%d): %v", r+1, at[n], err)
					}
					checkRaw(c, m, raw, o)
					if raw2, err := parse.ParseRawObject(b, n, o.g, int64(at[n])); err != nil || !reflect.DeepEqual(raw, raw2) {
						c.Fail("revision %d: ParseRawObject(%d): %+v (%v), want %+v", r+1, n, raw2, err, raw)
					}
				} else {
					if loc.IsDirect || loc.StreamObjNum != o.instm || ferr == nil {
						c.Fail("revision %d: object %d located at %+v and %d (%v), want it in %d", r+1, n, loc, off, ferr, o.instm)
					}
					got, err := parse.GetObjectFromStream(b, n, o.instm, loc.IndexInStream, nil, false)
					if err != nil || !bytes.Equal(bytes.TrimSpace(got), want) {
						c.Fail("revision %d: GetObjectFromStream(%d): %v\n got %q\nwant %q", r+1, n, err, got, want)
					}
				}
				got, err := parse.GetObject(b, n, nil, false)
				if err != nil || !bytes.Equal(stripIndirect(got, n, o.g), want) {
					c.Fail("revision %d: GetObject(%d): %v\n got %q\nwant %q", r+1, n, err, got, want)
				}
			}
		}
		for n := range m.gone {
			if _, err := parse.GetObject(m.bytes, n, nil, false); err == nil {
				c.Fail("GetObject(%d) succeeded for a free object", n)
			}
		}
	})
}

// checkSection compares what is reported about a revision with the model.
func checkSection(c *hx.C, m *model, doc *parse.PDFDocument, r int, rv *parse.PDFRevision) {
	b := m.bytes
	end := m.ends[r]
	if int(rv.StartXRef) != m.xrefs[r] || int(rv.EndOffset) != end || !bytes.Equal(bytes.TrimRight(b[rv.EOFOffset:end], "\r\n"), []byte("%%EOF")) {
		c.Fail("revision %d: startxref %d, end marker at %d, end %d, want %d and %d", r+1, rv.StartXRef, rv.EOFOffset, rv.EndOffset, m.xrefs[r], end)
	}
	start := m.xrefs[r]
	for n, off := range m.offs[r] {
		start = min(start, off)
		o := rv.Objects[n]
		if o == nil || int(o.Offset) != off {
			c.Fail("revision %d: object %d is %+v, want it at %d", r+1, n, o, off)
		}
		if o.IsStream {
			if !bytes.Equal(o.RawBytes[o.DictStart:o.DictEnd], o.DictRaw) || !bytes.Equal(o.RawBytes[o.StreamStart:o.StreamEnd], o.StreamRaw) {
				c.Fail("revision %d: object %d: dictionary and data are not where they are said to be", r+1, n)
			}
		}
	}
	if got := rv.RevisionBytes(doc); !bytes.Equal(got, b[start:end]) {
		c.Fail("revision %d: RevisionBytes has %d bytes, want those from %d to %d", r+1, len(got), start, end)
	}
	// cross-reference data
	x := rv.XRef
	if x == nil || int(x.Offset) != m.xrefs[r] || (x.Type == parse.XRefTypeStream) != (m.kinds[r] == "stream") || !bytes.HasPrefix(b[x.Offset:end], x.RawBytes) || !bytes.Equal(x.Bytes(), x.RawBytes) {
		c.Fail("revision %d: cross-reference data %+v is not that of the file", r+1, x)
	}
	seen := map[int]bool{}
	free := map[int]bool{}
	for _, e := range x.Entries {
		n := e.ObjectNum
		if seen[n] {
			c.Fail("revision %d: two entries for object %d", r+1, n)
		}
		seen[n] = true
		off, direct := m.offs[r][n]
		sn, member := m.member[r][n]
		switch {
		case !e.InUse:
			if free[n] = true; direct || member && m.kinds[r] != "hybrid" {
				c.Fail("revision %d: object %d is reported free", r+1, n)
			}
		case e.InObjectStream:
			if !member || e.StreamObjNum != sn {
				c.Fail("revision %d: object %d is reported in stream %d, want %d", r+1, n, e.StreamObjNum, sn)
			}
			if got, err := parse.GetObjectFromStream(b[:end], n, sn, e.IndexInStream, nil, false); err != nil || !bytes.Equal(bytes.TrimSpace(got), bytes.TrimSpace(m.views[r][n].body)) {
				c.Fail("revision %d: index %d of stream %d is %q (%v), not object %d", r+1, e.IndexInStream, sn, got, err, n)
			}
		default:
			if !direct || int(e.Offset) != off || e.Generation != m.direct[r][n].g {
				c.Fail("revision %d: object %d is reported at %d with generation %d, want %d and %d", r+1, n, e.Offset, e.Generation, off, m.direct[r][n].g)
			}
		}
		if x.Type == parse.XRefTypeTable {
			var o, g int
			var kind string
			if k, err := fmt.Sscanf(string(e.RawBytes), "%d %d %s", &o, &g, &kind); k != 3 || err != nil || o != int(e.Offset) || g != e.Generation || (kind == "n") != e.InUse || !bytes.Contains(x.RawBytes, e.RawBytes) {
				c.Fail("revision %d: entry of object %d has the text %q", r+1, n, e.RawBytes)
			}
		}
	}
	for n := range m.offs[r] {
		if !seen[n] {
			c.Fail("revision %d: no entry for object %d", r+1, n)
		}
	}
	for n := range m.member[r] {
		if !seen[n] && m.kinds[r] != "hybrid" {
			c.Fail("revision %d: no entry for object %d", r+1, n)
		}
	}
	for _, n := range m.freedIn[r] {
		if x.Type == parse.XRefTypeTable && !free[n] {
			c.Fail("revision %d: no entry for the freed object %d", r+1, n)
		}
	}
	if x.Type == parse.XRefTypeStream {
		if o := x.StreamObject; o == nil || int(o.Offset) != m.xrefs[r] || !bytes.Equal(o.RawBytes, x.RawBytes) || !o.IsStream {
			c.Fail("revision %d: the cross-reference stream is reported as %+v", r+1, o)
		}
	} else if !bytes.HasPrefix(x.RawBytes, []byte("xref")) || !bytes.HasPrefix(bytes.TrimLeft(b[int(x.Offset)+len(x.RawBytes):], " \r\n"), []byte("trailer")) {
		c.Fail("revision %d: the cross-reference table is reported as %q", r+1, x.RawBytes)
	}
	if y, err := parse.ParseXRefDataRaw(b, int64(m.xrefs[r])); err != nil || !reflect.DeepEqual(x, y) {
		c.Fail("revision %d: ParseXRefDataRaw gives %+v (%v), the revision has %+v", r+1, y, err, x)
	}
	// trailer
	t := rv.Trailer
	prev := 0
	if r > 0 {
		prev = m.xrefs[r-1]
	}
	if t == nil || t.Size != m.size[r] || t.Root != fmt.Sprintf("%d 0 R", m.root[r]) || t.Info != fmt.Sprintf("%d 0 R", m.info[r]) || t.Encrypt != "" || int(t.Prev) != prev {
		c.Fail("revision %d: trailer %+v, want size %d, root %d, info %d, prev %d", r+1, t, m.size[r], m.root[r], m.info[r], prev)
	}
	if len(t.ID) != len(m.ids[r]) || len(t.ID) == 2 && (!bytes.Equal(t.ID[0], m.ids[r][0]) || !bytes.Equal(t.ID[1], m.ids[r][1])) {
		c.Fail("revision %d: file identifier %q, want %q", r+1, t.ID, m.ids[r])
	}
	dict := t.RawBytes
	if x.Type == parse.XRefTypeTable {
		if !bytes.HasPrefix(b[t.Offset:end], t.RawBytes) || !bytes.HasPrefix(t.RawBytes, []byte("trailer")) || !bytes.Equal(t.Bytes(), t.RawBytes) {
			c.Fail("revision %d: trailer at %d is %q", r+1, t.Offset, t.RawBytes)
		}
		if rest := b[int(t.Offset)+len(t.RawBytes) : end]; !bytes.HasPrefix(rest, []byte("startxref")) {
			c.Fail("revision %d: the trailer is followed by %q", r+1, rest)
		}
		dict = bytes.TrimSpace(dict[len("trailer"):])
	} else if !bytes.Equal(t.RawBytes, x.StreamObject.DictRaw) {
		c.Fail("revision %d: trailer %q is not the dictionary of the stream", r+1, t.RawBytes)
	}
	o, err := ref.ParseObject(dict)
	d, ok := o.(ref.Dict)
	if err != nil || !ok || ref.Canon(d.Get("Root")) != ref.Canon(ref.Ref{N: m.root[r]}) || ref.Canon(d.Get("Size")) != strconv.Itoa(m.size[r]) {
		c.Fail("revision %d: trailer dictionary %q (%v)", r+1, dict, err)
	}
	if t2, err := parse.ParseTrailerDataRaw(b, int64(m.xrefs[r]), int(rv.EOFOffset)); err != nil || !reflect.DeepEqual(t, t2) {
		c.Fail("revision %d: ParseTrailerDataRaw gives %+v (%v), the revision has %+v", r+1, t2, err, t)
	}
}
