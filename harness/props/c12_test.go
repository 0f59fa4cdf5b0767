package props

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"image/jpeg"
	"image/png"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"unicode/utf8"

	"verif/harness/hx"
	"verif/harness/ref"

	"github.com/benedoc-inc/pdfer/content/extract"
	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/types"
)

// C12: images and resources of a page are extracted completely.

// ximg is an XObject of a generated document and what extraction should say of it.
type ximg struct {
	ref    ref.Ref
	sub    string // "Image", "Form" or another subtype
	w, h   int
	bpc    int
	cs     ref.Obj
	filter ref.Obj
	format string
	data   []byte // decoded up to the image codec
	matrix []float64
	kids   [][2]interface{} // name, *ximg: the resources of a form
}

// xfont is a font object and what the resources should say of it.
type xfont struct {
	o ref.Obj
	i types.FontInfo
}

// genCodec encodes the data of an image by a drawn chain of filters, in front of which an image codec may come.
func genCodec(c *hx.C, f *fd, x *ximg) (ref.Dict, []byte) {
	format := "unknown"
	var names ref.Arr
	var parms ref.Arr
	enc := x.data
	codec := pick(c, "codec", "", "", "", "DCTDecode", "JPXDecode", "CCITTFaxDecode", "JBIG2Decode")
	push := func(n string, p ref.Obj) {
		names = append(ref.Arr{ref.Name(n)}, names...)
		parms = append(ref.Arr{p}, parms...)
	}
	if codec != "" {
		var p ref.Obj
		if codec == "CCITTFaxDecode" {
			p = ref.Dict{{K: "K", V: -1}, {K: "Columns", V: x.w}}
		}
		push(codec, p)
		format = map[string]string{"DCTDecode": "jpeg", "JPXDecode": "jpeg2000", "CCITTFaxDecode": "tiff", "JBIG2Decode": ""}[codec]
	}
	for i, n := 0, count(c, "chain", 0, 2, 6); i < n; i++ {
		switch pick(c, "stage", "flate", "flate", "pred", "hex", "run") {
		case "flate":
			enc = ref.Deflate(enc)
			push("FlateDecode", nil)
			if format == "unknown" && codec == "" {
				format = "png"
			}
		case "pred":
			cols := num(c, "cols", 1, 4)
			if len(enc)%cols != 0 {
				cols = 1
			}
			tags := make([]byte, len(enc)/cols)
			for j := range tags {
				tags[j] = byte((j*7 + cols) % 5)
			}
			enc = ref.Deflate(ref.Predict(enc, cols, 1, 8, tags))
			push("FlateDecode", ref.Dict{{K: "Predictor", V: num(c, "predictor", 10, 15)}, {K: "Columns", V: cols}})
			if format == "unknown" && codec == "" {
				format = "png"
			}
		case "hex":
			enc = []byte(fmt.Sprintf("%X>", enc))
			push("ASCIIHexDecode", nil)
		case "run":
			var b []byte
			for k := 0; k < len(enc); k += 100 {
				e := min(k+100, len(enc))
				b = append(append(b, byte(e-k-1)), enc[k:e]...)
			}
			enc = append(b, 128)
			push("RunLengthDecode", nil)
		}
	}
	x.format = format
	d := ref.Dict{}
	some := false
	for _, p := range parms {
		some = some || p != nil
	}
	switch {
	case len(names) == 0 && flip(c, "nofilter"):
	case len(names) == 1 && flip(c, "one"):
		x.filter = names[0]
		d = append(d, ref.KV{K: "Filter", V: f.ind(names[0])})
		if some {
			d = append(d, ref.KV{K: "DecodeParms", V: f.ind(parms[0])})
		}
	default:
		for i := range names {
			if oneIn(c, "indname", 5) {
				names[i] = f.ind(names[i])
			}
		}
		x.filter = names
		d = append(d, ref.KV{K: "Filter", V: f.ind(names)})
		if some {
			for i := range parms {
				if parms[i] == nil {
					parms[i] = ref.Null{}
				}
			}
			d = append(d, ref.KV{K: "DecodeParms", V: f.ind(parms)})
		}
	}
	return d, enc
}

func genXImage(c *hx.C, f *fd) *ximg {
	x := &ximg{sub: "Image", w: num(c, "w", 1, 40), h: num(c, "h", 1, 40), bpc: pick(c, "bpc", 1, 2, 4, 8, 16)}
	switch num(c, "cs", 0, 6) {
	case 0, 1, 2:
		x.cs = pick(c, "csn", ref.Name("DeviceRGB"), ref.Name("DeviceGray"), ref.Name("DeviceCMYK"))
	case 3:
		x.cs = ref.Arr{ref.Name("Indexed"), ref.Name("DeviceRGB"), 1, ref.Str{B: nastyBytes(c, "lut", 6), Hex: true}}
		if f.user != nil {
			x.cs = ref.Arr{ref.Name("Indexed"), ref.Name("DeviceRGB"), 1, f.add(ref.Str{B: []byte("abcdef")})}
		}
	case 4:
		icc := f.stream(ref.Dict{{K: "N", V: 3}}, blob(c, "icc", 20))
		x.cs = ref.Arr{ref.Name("ICCBased"), icc}
	case 5:
		x.cs = ref.Arr{ref.Name("CalGray"), ref.Dict{{K: "WhitePoint", V: ref.Arr{ref.Real("0.95"), 1, ref.Real("1.09")}}}}
	}
	switch num(c, "data", 0, 5) {
	case 0:
		x.data = nastyBytes(c, "idata", num(c, "ilen", 1, 6))
	case 1:
		x.data = append([]byte("endstream\nendobj\n"), blob(c, "idata", num(c, "ilen", 1, 40))...)
	default:
		x.data = blob(c, "idata", num(c, "ilen", 1, 900))
	}
	if len(x.data) == 0 {
		x.data = []byte{0}
	}
	d := ref.Dict{{K: "Type", V: ref.Name("XObject")}, {K: "Subtype", V: ref.Name("Image")}, {K: "Width", V: f.ind(x.w)}, {K: "Height", V: f.ind(x.h)}}
	if oneIn(c, "notype", 5) {
		d = d.Without("Type")
	}
	if oneIn(c, "mask", 5) {
		x.bpc, x.cs = 0, nil
		d = append(d, ref.KV{K: "ImageMask", V: true})
	} else {
		d = append(d, ref.KV{K: "BitsPerComponent", V: f.ind(x.bpc)})
		if x.cs != nil {
			d = append(d, ref.KV{K: "ColorSpace", V: f.ind(x.cs)})
		}
	}
	fd2, enc := genCodec(c, f, x)
	d = append(d, fd2...)
	if oneIn(c, "smask", 5) {
		d = append(d, ref.KV{K: "SMask", V: f.rawStream(ref.Dict{{K: "Type", V: ref.Name("XObject")}, {K: "Subtype", V: ref.Name("Image")}, {K: "Width", V: 1}, {K: "Height", V: 1}, {K: "ColorSpace", V: ref.Name("DeviceGray")}, {K: "BitsPerComponent", V: 8}}, []byte{9})})
	}
	x.ref = f.rawStream(d, enc)
	return x
}

// xres draws a resource dictionary over a pool of XObjects and fonts.
type xres struct {
	obj   ref.Obj
	xobjs map[string]*ximg
	fonts map[string]types.FontInfo
}

var resNames = []string{"Im0", "Im1", "X", "F1", "a b", "Fm(1)", "é", "Q/q", "Im", "Im10", "0", "R#41"}

func genXRes(c *hx.C, f *fd, pool []*ximg, fonts []xfont, maxX int) *xres {
	r := &xres{xobjs: map[string]*ximg{}, fonts: map[string]types.FontInfo{}}
	xd, fn := ref.Dict{}, ref.Dict{}
	if len(pool) > 0 {
		for i, n := 0, num(c, "nx", 0, maxX); i < n; i++ {
			name := resNames[spread(c, "xname", len(resNames))]
			if r.xobjs[name] != nil {
				continue
			}
			x := pool[spread(c, "xpick", len(pool))]
			r.xobjs[name] = x
			xd = append(xd, ref.KV{K: name, V: x.ref})
		}
	}
	if len(fonts) > 0 {
		for i, n := 0, count(c, "nf", 0, 3, 30); i < n; i++ {
			name := resNames[spread(c, "fname", len(resNames))]
			if _, ok := r.fonts[name]; ok {
				continue
			}
			ft := fonts[spread(c, "fpick", len(fonts))]
			info := ft.i
			info.ID = "/" + name
			r.fonts[name] = info
			fn = append(fn, ref.KV{K: name, V: ft.o})
		}
	}
	d := ref.Dict{}
	if len(xd) > 0 || flip(c, "emptyx") {
		d = append(d, ref.KV{K: "XObject", V: f.ind(xd)})
	}
	if oneIn(c, "procset", 3) {
		d = append(d, ref.KV{K: "ProcSet", V: ref.Arr{ref.Name("PDF"), ref.Name("ImageC")}})
	}
	if len(fn) > 0 || flip(c, "emptyf") {
		d = append(d, ref.KV{K: "Font", V: f.ind(fn)})
	}
	if oneIn(c, "decoy", 3) {
		// entries elsewhere that look like the categories
		d = append(d, ref.KV{K: "Properties", V: ref.Dict{{K: "MC0", V: ref.Dict{{K: "XObject", V: ref.Dict{{K: "No", V: 1}}}, {K: "Font", V: ref.Dict{{K: "No", V: 1}}}}}}})
	}
	r.obj = f.ind(d)
	return r
}

func genXFont(c *hx.C, f *fd) (ref.Obj, types.FontInfo) {
	base := pick(c, "base", "Helvetica", "Helvetica-Bold", "ABCDEF+My Font", "Times-Roman-Odd", "Zapf")
	sub := pick(c, "fsub", "Type1", "TrueType", "Type0", "Type3")
	info := types.FontInfo{Subtype: "/" + sub, Name: "/" + base, Family: strings.SplitN(base, "-", 2)[0]}
	d := ref.Dict{{K: "Type", V: ref.Name("Font")}, {K: "Subtype", V: f.ind(ref.Name(sub))}, {K: "BaseFont", V: f.ind(ref.Name(base))}}
	enc := pick(c, "fenc", "", "WinAnsiEncoding", "MacRomanEncoding", "Identity-H")
	switch {
	case enc == "":
	case sub != "Type0" && flip(c, "encdict"):
		d = append(d, ref.KV{K: "Encoding", V: f.ind(ref.Dict{{K: "Type", V: ref.Name("Encoding")}, {K: "BaseEncoding", V: ref.Name(enc)}, {K: "Differences", V: ref.Arr{65, ref.Name("B")}}})})
		info.Encoding = "/" + enc
	default:
		d = append(d, ref.KV{K: "Encoding", V: f.ind(ref.Name(enc))})
		info.Encoding = "/" + enc
	}
	if flip(c, "tou") {
		d = append(d, ref.KV{K: "ToUnicode", V: f.stream(nil, []byte("1 beginbfchar <41> <0042> endbfchar"))})
		info.ToUnicode = true
	}
	if flip(c, "desc") {
		dd := ref.Dict{{K: "Type", V: ref.Name("FontDescriptor")}, {K: "FontName", V: ref.Name(base)}}
		if flip(c, "embed") {
			dd = append(dd, ref.KV{K: pick(c, "ff", "FontFile", "FontFile2", "FontFile3"), V: f.stream(nil, blob(c, "fp", 9))})
			info.Embedded = true
		}
		if oneIn(c, "famk", 3) {
			dd = append(dd, ref.KV{K: "FontFamily", V: ref.Str{B: []byte("My (Fam)")}})
			info.Family = "My (Fam)"
		}
		if sub == "Type0" {
			d = append(d, ref.KV{K: "DescendantFonts", V: f.ind(ref.Arr{f.ind(ref.Dict{{K: "Type", V: ref.Name("Font")}, {K: "Subtype", V: ref.Name("CIDFontType2")}, {K: "FontDescriptor", V: f.ind(dd)}})})})
		} else {
			d = append(d, ref.KV{K: "FontDescriptor", V: f.ind(dd)})
		}
	}
	return f.ind(d), info
}

// imageDoc draws a document of pages with images, forms and fonts.
type imageDoc struct {
	f     *fd
	pages []*xres
	b     []byte
	order []*ximg // the images the pages use, in no particular order, each once
	names map[*ximg]map[string]bool
}

func (m *imageDoc) walk(xs map[string]*ximg, seen map[*ximg]bool) {
	for name, x := range xs {
		if x.sub == "Image" {
			if m.names[x] == nil {
				m.names[x] = map[string]bool{}
				m.order = append(m.order, x)
			}
			m.names[x][name] = true
		}
		if x.sub == "Form" && !seen[x] {
			seen[x] = true
			sub := map[string]*ximg{}
			for _, k := range x.kids {
				sub[k[0].(string)] = k[1].(*ximg)
			}
			m.walk(sub, seen)
		}
	}
}

func genImageDoc(c *hx.C) *imageDoc {
	f := newFD(c)
	m := &imageDoc{f: f, names: map[*ximg]map[string]bool{}}
	if oneIn(c, "encrypt", 4) {
		f.user, f.owner = []byte("user"), []byte("owner")
	}
	var pool []*ximg
	for i, n := 0, count(c, "imgs", 0, 6, 40); i < n; i++ {
		pool = append(pool, genXImage(c, f))
	}
	var fonts []xfont
	for i, n := 0, count(c, "fonts", 0, 3, 30); i < n; i++ {
		o, info := genXFont(c, f)
		fonts = append(fonts, xfont{o, info})
	}
	for i, n := 0, count(c, "forms", 0, 3, 20); i < n; i++ {
		x := &ximg{sub: "Form"}
		d := ref.Dict{{K: "Type", V: ref.Name("XObject")}, {K: "Subtype", V: ref.Name("Form")}, {K: "BBox", V: ref.Arr{0, 0, 10, 10}}}
		if flip(c, "fmat") {
			x.matrix = []float64{1, 0, 0.5, 1, 10, float64(i)}
			d = append(d, ref.KV{K: "Matrix", V: f.ind(ref.Arr{1, 0, ref.Real(".5"), 1, 10, i})})
		}
		if !oneIn(c, "nores", 3) {
			r := genXRes(c, f, pool, fonts, 3)
			for _, name := range resNames {
				if k := r.xobjs[name]; k != nil {
					x.kids = append(x.kids, [2]interface{}{name, k})
				}
			}
			d = append(d, ref.KV{K: "Resources", V: r.obj})
		}
		x.ref = f.stream(d, []byte("q Q"))
		pool = append(pool, x)
	}
	if oneIn(c, "other", 4) {
		pool = append(pool, &ximg{sub: "PS", ref: f.stream(ref.Dict{{K: "Subtype", V: ref.Name("PS")}}, []byte("x"))})
	}
	np := count(c, "pages", 1, 4, 30)
	var shared *xres
	root, pages := f.pageTree(np, func(i int) (ref.Dict, ref.Dict) {
		r := shared
		if r == nil || !oneIn(c, "shareres", 3) {
			r = genXRes(c, f, pool, fonts, 5)
			shared = r
		}
		m.pages = append(m.pages, r)
		var b bytes.Buffer
		for _, name := range resNames {
			if x := r.xobjs[name]; x != nil && x.sub == "Image" {
				b.WriteString("q 10 0 0 20 30 40 cm ")
				ref.WriteName(&b, ref.Name(name))
				b.WriteString(" Do Q\n")
			}
		}
		own := ref.Dict{{K: "Contents", V: f.stream(nil, b.Bytes())}}
		return own, ref.Dict{{K: "MediaBox", V: ref.Arr{0, 0, 612, 792}}, {K: "Resources", V: r.obj}}
	})
	_ = pages
	d := ref.Dict{{K: "Type", V: ref.Name("Catalog")}, {K: "Pages", V: root}}
	switch num(c, "acro", 0, 7) {
	case 0:
		d = append(d, ref.KV{K: "AcroForm", V: f.ind(ref.Dict{{K: "Fields", V: f.ind(ref.Arr{f.add(ref.Dict{{K: "T", V: ref.Str{B: []byte("a")}}, {K: "FT", V: ref.Name("Tx")}})})}})})
	case 1:
		d = append(d, ref.KV{K: "AcroForm", V: ref.Dict{{K: "Fields", V: ref.Arr{}}}})
	case 2:
		d = append(d, ref.KV{K: "AcroForm", V: ref.Dict{{K: "Fields", V: ref.Arr{}}, {K: "XFA", V: f.ind(ref.Arr{ref.Str{B: []byte("datasets")}, f.stream(nil, []byte("<a/>"))})}}})
	}
	cat := f.add(d)
	f.trailer = ref.Dict{{K: "Root", V: cat}}
	m.b = f.emit()
	for _, p := range m.pages {
		m.walk(p.xobjs, map[*ximg]bool{})
	}
	return m
}

// sameText reports whether text is the PDF syntax of the object (both absent included).
func sameText(text string, o ref.Obj) error {
	if o == nil {
		if text != "" {
			return fmt.Errorf("%q, want none", text)
		}
		return nil
	}
	got, err := ref.ParseObject([]byte(text))
	if err != nil || ref.Canon(got) != ref.Canon(o) {
		return fmt.Errorf("%q, want %s (%v)", text, ref.Canon(o), err)
	}
	return nil
}

func (x *ximg) check(got types.Image, names map[string]bool, withData bool) error {
	if got.Width != x.w || got.Height != x.h || got.BitsPerComponent != x.bpc {
		return fmt.Errorf("image is %dx%d depth %d, want %dx%d depth %d", got.Width, got.Height, got.BitsPerComponent, x.w, x.h, x.bpc)
	}
	if err := sameText(got.ColorSpace, x.cs); err != nil {
		return fmt.Errorf("colour space: %v", err)
	}
	if err := sameText(got.Filter, x.filter); err != nil {
		return fmt.Errorf("filter: %v", err)
	}
	if got.Format != x.format && x.format != "" {
		return fmt.Errorf("format %q, want %q (filter %v)", got.Format, x.format, x.filter)
	}
	if !names[strings.TrimPrefix(got.ID, "/")] {
		return fmt.Errorf("ID %q, want one of %v", got.ID, names)
	}
	if !withData {
		return nil
	}
	if !bytes.Equal(got.Data, x.data) {
		return fmt.Errorf("data differs: %d bytes %.60x, want %d bytes %.60x (filter %v)", len(got.Data), got.Data, len(x.data), x.data, x.filter)
	}
	if got.DataBase64 != base64.StdEncoding.EncodeToString(x.data) {
		return fmt.Errorf("base64 data differs")
	}
	return nil
}

// checkImages compares extracted images with those of the model, matching by object number.
func (m *imageDoc) checkImages(got []types.Image, withData bool) error {
	if len(got) != len(m.order) {
		return fmt.Errorf("%d images, want %d", len(got), len(m.order))
	}
	byN := map[int]*ximg{}
	for _, x := range m.order {
		byN[x.ref.N] = x
	}
	for _, g := range got {
		n, _ := g.Metadata["object_number"].(int)
		x := byN[n]
		if x == nil {
			return fmt.Errorf("image of object %v not used by any page, or twice", g.Metadata["object_number"])
		}
		delete(byN, n)
		if err := x.check(g, m.names[x], withData); err != nil {
			return fmt.Errorf("object %d: %v", n, err)
		}
	}
	return nil
}

func (m *imageDoc) checkResources(r *types.PageResources, want *xres) error {
	if r == nil {
		return fmt.Errorf("no resources")
	}
	if len(r.Fonts) != len(want.fonts) {
		return fmt.Errorf("%d fonts, want %d: %v", len(r.Fonts), len(want.fonts), r.Fonts)
	}
	for name, w := range want.fonts {
		if g, ok := r.Fonts[name]; !ok || g != w {
			return fmt.Errorf("font %q: %+v, want %+v", name, g, w)
		}
	}
	if len(r.XObjects) != len(want.xobjs) {
		return fmt.Errorf("%d XObjects, want %d", len(r.XObjects), len(want.xobjs))
	}
	ni := 0
	for name, x := range want.xobjs {
		g, ok := r.XObjects[name]
		if !ok || g.Subtype != "/"+x.sub || g.ID != "/"+name {
			return fmt.Errorf("XObject %q: %+v, want a %s", name, g, x.sub)
		}
		var mx [6]float64
		copy(mx[:], x.matrix)
		if x.sub == "Form" && g.Matrix != mx {
			return fmt.Errorf("matrix of form %q: %v, want %v", name, g.Matrix, mx)
		}
		im, ok := r.Images[name]
		if ok != (x.sub == "Image") {
			return fmt.Errorf("XObject %q (%s) among the images: %v", name, x.sub, ok)
		}
		if ok {
			ni++
			if g.Width != float64(x.w) || g.Height != float64(x.h) {
				return fmt.Errorf("XObject %q is %gx%g, want %dx%d", name, g.Width, g.Height, x.w, x.h)
			}
			if err := x.check(im, map[string]bool{name: true}, false); err != nil {
				return fmt.Errorf("image %q: %v", name, err)
			}
		}
	}
	if len(r.Images) != ni {
		return fmt.Errorf("%d images, want %d", len(r.Images), ni)
	}
	return nil
}

// listDir returns the files below a directory, with their content.
func listDir(dir string) (map[string][]byte, error) {
	out := map[string][]byte{}
	err := filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		b, err := os.ReadFile(p)
		out[rel] = b
		return err
	})
	return out, err
}

// exportCheck exports a document and compares the directory with the extraction results.
func exportCheck(c *hx.C, b, pw []byte, images []types.Image, doc *types.ContentDocument) {
	base, err := os.MkdirTemp("", "c12-")
	if err != nil {
		c.Fail("scratch directory: %v", err)
	}
	defer os.RemoveAll(base)
	os.WriteFile(filepath.Join(base, "beside.txt"), []byte("beside"), 0644)
	sub := pick(c, "outdir", "out", "a/b c/out", "out.d/x", "x/../y")
	dir := filepath.Join(base, "w") + "/" + sub
	if oneIn(c, "relative", 4) {
		cwd, _ := os.Getwd()
		if rel, err := filepath.Rel(cwd, dir); err == nil {
			dir = rel
		}
	}
	var out *extract.DirectoryOutput
	if oneIn(c, "fromfile", 4) {
		os.WriteFile(filepath.Join(base, "in.pdf"), b, 0644)
		out, err = extract.ExtractToDirectoryFromFile(filepath.Join(base, "in.pdf"), pw, dir, false)
		os.Remove(filepath.Join(base, "in.pdf"))
	} else {
		out, err = extract.ExtractToDirectory(b, pw, dir, false)
	}
	if err != nil {
		c.Fail("ExtractToDirectory: %v", err)
	}
	all, err := listDir(base)
	if err != nil {
		c.Fail("%v", err)
	}
	pre, _ := filepath.Rel(base, filepath.Clean(filepath.Join(base, "w", sub)))
	var index extract.ExtractedContent
	if err := json.Unmarshal(all[pre+"/content.json"], &index); err != nil {
		c.Fail("content.json: %v", err)
	}
	if string(all["beside.txt"]) != "beside" {
		c.Fail("a file beside the directory was changed")
	}
	want := map[string]bool{"beside.txt": true, pre + "/content.json": true}
	if len(index.Images) != len(images) || len(out.ImageFiles) != len(images) {
		c.Fail("%d images in the index, %d files reported, %d images extracted", len(index.Images), len(out.ImageFiles), len(images))
	}
	fileOf := map[int]string{}
	for i, im := range images {
		ir := index.Images[i]
		name := pre + "/" + ir.Filename
		if want[name] {
			c.Fail("file %s used for two images", name)
		}
		want[name] = true
		n, _ := im.Metadata["object_number"].(int)
		fileOf[n] = ir.Filename
		if got, ok := all[name]; !ok || !bytes.Equal(got, im.Data) {
			c.Fail("file %s (present %v, %d bytes) is not the image's data (%d bytes)", name, ok, len(got), len(im.Data))
		}
		if ir.Format != im.Format || ir.Width != im.Width || ir.Height != im.Height || ir.Size != len(im.Data) || ir.ID != jsonString(im.ID) || ir.ColorSpace != jsonString(im.ColorSpace) || ir.Filter != jsonString(im.Filter) {
			c.Fail("index entry %+v does not describe image %s %dx%d %s %s %s", ir, im.ID, im.Width, im.Height, im.Format, im.ColorSpace, im.Filter)
		}
		if abs, _ := filepath.Abs(out.ImageFiles[i]); abs != filepath.Clean(filepath.Join(base, pre, ir.Filename)) {
			c.Fail("reported file %s, indexed as %s", out.ImageFiles[i], ir.Filename)
		}
	}
	for name := range all {
		if !want[name] {
			c.Fail("unexpected file %s", name)
		}
	}
	chars, text := 0, false
	if len(index.Pages) != len(doc.Pages) || out.PageCount != len(doc.Pages) || index.Summary.PageCount != len(doc.Pages) {
		c.Fail("%d pages in the index, %d reported, want %d", len(index.Pages), out.PageCount, len(doc.Pages))
	}
	for i, p := range doc.Pages {
		ip := index.Pages[i]
		for _, t := range p.Text {
			chars += utf8.RuneCountInString(t.Text)
		}
		text = text || len(p.Text) > 0
		if ip.PageNumber != p.PageNumber || ip.Width != p.Width || ip.Height != p.Height || ip.Rotation != p.Rotation || !reflect.DeepEqual(ip.MediaBox, p.MediaBox) || !reflect.DeepEqual(ip.CropBox, p.CropBox) {
			c.Fail("page %d in the index: %+v", i+1, ip)
		}
		same := func(what string, a, b interface{}) {
			x, _ := json.Marshal(a)
			y, _ := json.Marshal(b)
			if jsonCanon(x) != jsonCanon(y) {
				c.Fail("page %d: %s in the index differ: %s, want %s", i+1, what, x, y)
			}
		}
		if len(ip.Text)+len(p.Text) > 0 {
			same("text elements", ip.Text, p.Text)
		}
		if len(ip.Graphics)+len(p.Graphics) > 0 {
			same("graphics", ip.Graphics, p.Graphics)
		}
		if len(ip.Annotations)+len(p.Annotations) > 0 {
			same("annotations", ip.Annotations, p.Annotations)
		}
		same("resources", ip.Resources, p.Resources)
		if len(ip.ImageRefs) != len(p.Images) {
			c.Fail("page %d: %d image references in the index, want %d", i+1, len(ip.ImageRefs), len(p.Images))
		}
		for j, r := range p.Images {
			ir := ip.ImageRefs[j]
			if ir.ImageID != jsonString(r.ImageID) || ir.X != r.X || ir.Y != r.Y || ir.Width != r.Width || ir.Height != r.Height || ir.Transform != r.Transform {
				c.Fail("page %d: image reference %+v, want %+v", i+1, ir, r)
			}
			if ir.Filename != fileOf[r.ObjectNumber] {
				c.Fail("page %d: image %s (object %d) refers to file %q, want %q", i+1, r.ImageID, r.ObjectNumber, ir.Filename, fileOf[r.ObjectNumber])
			}
		}
	}
	if out.HasText != text || out.TextCharCount != chars || out.HasImages != (len(images) > 0) || out.ImageCount != len(images) {
		c.Fail("summary %+v; %d images, %d characters", out, len(images), chars)
	}
	form := hasForm(c, b, pw)
	if scanned := len(images) > 0 && !text && len(doc.Pages) > 0; out.IsScannedPDF != scanned || out.HasForms != form {
		c.Fail("reported scanned %v, forms %v; %d images on %d pages, text %v, form %v", out.IsScannedPDF, out.HasForms, len(images), len(doc.Pages), text, form)
	}
	if s := index.Summary; s.HasText != out.HasText || s.TextCharCount != out.TextCharCount || s.HasImages != out.HasImages || s.ImageCount != out.ImageCount || s.HasForms != out.HasForms || s.IsScannedPDF != out.IsScannedPDF {
		c.Fail("the index has the summary %+v, reported is %+v", s, *out)
	}
	c.ClassIf(out.IsScannedPDF && len(images) < len(doc.Pages), "scanned, pages without image")
	c.ClassIf(form, "form")
	// exporting again gives the same directory
	if _, err := extract.ExtractToDirectory(b, pw, dir, false); err != nil {
		c.Fail("second ExtractToDirectory: %v", err)
	}
	again, err := listDir(base)
	if err != nil || !reflect.DeepEqual(again, all) {
		c.Fail("exporting again changed the directory (%v)", err)
	}
}

// hasForm tells whether a document has an interactive form.
func hasForm(c *hx.C, b, pw []byte) bool {
	d, err := ref.ReadDoc(b)
	if err == nil && pw != nil {
		_, err = d.Unlock(pw)
	}
	if err != nil {
		c.Fail("strict reader: %v", err)
	}
	cat, err := d.Catalog()
	if err != nil {
		c.Fail("catalog: %v", err)
	}
	form, _ := d.Resolve(cat.Get("AcroForm"))
	f, _ := form.(ref.Dict)
	x, _ := d.Resolve(f.Get("XFA"))
	fields, _ := d.Resolve(f.Get("Fields"))
	if _, none := x.(ref.Null); x != nil && !none {
		return true
	}
	a, _ := fields.(ref.Arr)
	return len(a) > 0
}

// jsonString is a string as it survives JSON.
func jsonString(s string) string {
	b, _ := json.Marshal(s)
	var out string
	json.Unmarshal(b, &out)
	return out
}

func jsonCanon(b []byte) string {
	var v interface{}
	json.Unmarshal(b, &v)
	out, _ := json.Marshal(v)
	return string(out)
}

func init() {
	hx.Reg("C12", "documents", 2500, "documents of 1-4 pages over a pool of images (any filter chain and image codec, colour space, depth, mask), forms with their own resources, and fonts, shared or not between pages, under equal or different resource names, directly or indirectly held, inherited or not, encrypted or not: images (once each, data, attributes), page resources and positions compared with the model; non-trivial: 2+ images or an image under a form, keyed by the file",
		func(c *hx.C) {
			m := genImageDoc(c)
			c.Dump("in.pdf", m.b)
			pw := m.f.user
			same := guard(m.b)
			all, err := extract.ExtractAllImages(m.b, pw, false)
			if err != nil {
				c.Fail("ExtractAllImages: %v", err)
			}
			if err := m.checkImages(all, true); err != nil {
				c.Fail("ExtractAllImages: %v", err)
			}
			doc, err := extract.ExtractContent(m.b, pw, false)
			if err != nil || len(doc.Pages) != len(m.pages) {
				c.Fail("ExtractContent: %v", err)
			}
			onPages := &imageDoc{f: m.f, names: map[*ximg]map[string]bool{}}
			for i, p := range m.pages {
				if err := m.checkResources(doc.Pages[i].Resources, p); err != nil {
					c.Fail("page %d: %v", i+1, err)
				}
				top := map[string]*ximg{}
				for name, x := range p.xobjs {
					if x.sub == "Image" {
						top[name] = x
					}
				}
				onPages.walk(top, map[*ximg]bool{})
				if len(doc.Pages[i].Images) != len(top) {
					c.Fail("page %d: %d images placed, want %d", i+1, len(doc.Pages[i].Images), len(top))
				}
				for _, r := range doc.Pages[i].Images {
					x := top[strings.TrimPrefix(r.ImageID, "/")]
					if x == nil || r.ObjectNumber != x.ref.N {
						c.Fail("page %d: image %q of object %d placed, want %v", i+1, r.ImageID, r.ObjectNumber, x)
					}
					delete(top, strings.TrimPrefix(r.ImageID, "/"))
				}
			}
			if err := onPages.checkImages(doc.Images, false); err != nil {
				c.Fail("ExtractContent images: %v", err)
			}
			wantFonts := map[types.FontInfo]bool{}
			for _, p := range m.pages {
				for _, ft := range p.fonts {
					wantFonts[ft] = true
				}
			}
			for _, ft := range doc.Fonts {
				if !wantFonts[ft] {
					c.Fail("font %+v not declared, or listed twice", ft)
				}
				delete(wantFonts, ft)
			}
			if len(wantFonts) > 0 {
				c.Fail("fonts missing: %v", wantFonts)
			}
			again, err := extract.ExtractAllImages(m.b, pw, false)
			if err != nil || !reflect.DeepEqual(all, again) {
				c.Fail("extracting again gave other images (%v)", err)
			}
			doc2, err := extract.ExtractContent(m.b, pw, false)
			if err != nil || !reflect.DeepEqual(doc, doc2) {
				c.Fail("extracting again gave another document (%v)", err)
			}
			if !same() {
				c.Fail("extraction changed its input")
			}
			if oneIn(c, "export", 3) {
				exportCheck(c, m.b, pw, all, doc)
				c.Class("exported")
			}
			nested := len(m.order) > len(onPages.order)
			c.ClassIf(nested, "image only under a form")
			c.ClassIf(m.f.user != nil, "encrypted")
			for _, x := range m.order {
				c.ClassIf(len(m.names[x]) > 1, "image under two names")
				c.Class("format " + x.format)
			}
			if len(m.order) > 1 || nested {
				c.NT(fmt.Sprintf("%d images %d pages %s hash %x", len(m.order), len(m.pages), m.f.form, fnvb(m.b)))
			}
		})

	hx.Reg("C12", "export", 1200, "documents with drawn text, graphics and images exported to a scratch directory with files beside it: exactly content.json and one file per image with its data, an index that says what extraction says, and the same again; non-trivial: 1+ image and 1+ text, keyed by the file",
		func(c *hx.C) {
			sb := write.NewSimplePDFBuilder()
			np := count(c, "pages", 1, 4, 30)
			nimg, some := 0, false
			for i := 0; i < np; i++ {
				pg := sb.AddPage(write.PageSizeLetter)
				if flip(c, "font") {
					fn := pg.AddStandardFont(pick(c, "std", "Helvetica", "Times-Roman", "Courier"))
					builderProgram(c, pg.Content(), strings.TrimPrefix(fn, "/"))
					some = true
				}
				if oneIn(c, "accents", 3) {
					fn := pg.AddStandardFont("Courier")
					pg.Content().BeginText().SetFont(fn, 9).ShowText(pick(c, "accented", "Été", "naïve Straße", "“quoted”", "5 €")).EndText()
					some = true
				}
				for j, n := 0, num(c, "n", 0, 3); j < n; j++ {
					var buf bytes.Buffer
					if img := genImage(c); oneIn(c, "jpeg", 3) {
						jpeg.Encode(&buf, img, nil)
					} else {
						png.Encode(&buf, img)
					}
					info, err := sb.Writer().AddImage(held(c, buf.Bytes()), fmt.Sprintf("Im%d", j))
					if err != nil {
						c.Fail("AddImage: %v", err)
					}
					nm := pg.AddImage(info)
					pg.Content().DrawImageAt(nm, float64(num(c, "x", -20, 600)), float64(num(c, "y", 0, 800)), 50, 70)
					nimg++
				}
				sb.FinalizePage(pg)
			}
			b, err := sb.Bytes()
			if err != nil {
				c.Fail("Bytes: %v", err)
			}
			c.Emits("in.pdf", b, sb.Bytes)
			images, err := extract.ExtractAllImages(b, nil, false)
			if err != nil || len(images) != nimg {
				c.Fail("%d images extracted, %d added (%v)", len(images), nimg, err)
			}
			doc, err := extract.ExtractContent(b, nil, false)
			if err != nil {
				c.Fail("ExtractContent: %v", err)
			}
			exportCheck(c, b, nil, images, doc)
			if nimg > 0 && some {
				c.NT(fmt.Sprintf("%d images %d pages %x", nimg, np, fnvb(b)))
			}
		})
}
