package props

import (
	"bytes"
	"fmt"

	"github.com/benedoc-inc/pdfer/content/extract"
	"github.com/benedoc-inc/pdfer/core/write"
	"verif/harness/hx"
	"verif/harness/ref"
)

// genJPEG draws the structure of a JPEG file: segments in front of the frame
// header, whose contents may look like one, and any frame.
func genJPEG(c *hx.C) (b []byte, w, h, comps int) {
	b = []byte{0xff, 0xd8}
	segment := func(marker byte, data []byte) {
		for i, n := 0, pick(c, "fill", 0, 0, 0, 1, 2, 3); i < n; i++ {
			b = append(b, 0xff) // fill bytes may precede any marker
		}
		b = append(append(b, 0xff, marker, byte((len(data)+2)>>8), byte(len(data)+2)), data...)
	}
	for i, n := 0, count(c, "segments", 0, 5, 60); i < n; i++ {
		var data []byte
		switch num(c, "segment", 0, 5) {
		case 0:
			data = []byte("JFIF\x00\x01\x02\x00\x00\x01\x00\x01\x00\x00")
		case 1: // a thumbnail with a frame of its own
			data = append([]byte("Exif\x00\x00"), 0xff, 0xd8, 0xff, 0xc0, 0, 11, 8, 0, 7, 0, 9, 1, 1, 0x11, 0, 0xff, 0xd9)
		case 2:
			data = blob(c, "seg", num(c, "segn", 0, 60))
		case 3:
			data = bytes.Repeat([]byte{0xff, 0xc0, 0xff, 0xc2}, num(c, "segr", 1, 40))
		case 4:
			data = make([]byte, 65533)
		case 5:
			data = []byte("Adobe\x00\x64\x00\x00\x00\x00\x02")
		}
		segment(pick(c, "marker", byte(0xe0), byte(0xe1), byte(0xee), byte(0xfe), byte(0xdb), byte(0xc4), byte(0xdd), byte(0xef), byte(0xcc), byte(0xc8)), data)
	}
	size := func(label string) int {
		return pick(c, label, 1, 2, 255, 256, 257, 640, 65535, num(c, label+"n", 1, 65535))
	}
	w, h, comps = size("width"), size("height"), pick(c, "comps", 1, 3, 4)
	frame := []byte{8, byte(h >> 8), byte(h), byte(w >> 8), byte(w), byte(comps)}
	for i := 0; i < comps; i++ {
		frame = append(frame, byte(i+1), 0x11, 0)
	}
	segment(pick(c, "frame", byte(0xc0), byte(0xc1), byte(0xc2)), frame)
	if flip(c, "scan") {
		segment(0xc4, blob(c, "huffman", 20))
		scan := []byte{byte(comps)}
		for i := 0; i < comps; i++ {
			scan = append(scan, byte(i+1), 0)
		}
		segment(0xda, append(scan, 0, 63, 0))
		b = append(b, blob(c, "entropy", num(c, "entropyn", 0, 60))...)
	}
	return append(b, 0xff, 0xd9), w, h, comps
}

func init() {
	hx.Reg("C04", "jpeg", 900, "documents with 1-4 JPEG images of any structure: up to 60 segments before the frame header (application data, thumbnails with headers of their own, tables, comments, segments full of markers or of the largest size), fill bytes, baseline, extended and progressive frames of 1, 3 or 4 components and any size; the image objects must describe the frame and hold the file byte for byte, and extraction gives the same; non-trivial: a segment before the frame, keyed by the images",
		func(c *hx.C) {
			b := write.NewSimplePDFBuilder()
			w := b.Writer()
			mode := num(c, "mode", 0, 2)
			w.UseXRefStream(mode >= 1)
			w.UseObjectStream(mode == 2)
			type pic struct {
				num, w, h int
				data      []byte
				space     string
			}
			var pics []pic
			pb := b.AddPage(write.PageSizeA4)
			key := ""
			for i, n := 0, num(c, "images", 1, 4); i < n; i++ {
				data, iw, ih, comps := genJPEG(c)
				c.Dump(fmt.Sprintf("%d.jpg", i), data)
				name := fmt.Sprintf("Pic%d", i)
				info, err := w.AddJPEGImage(held(c, data), name)
				if err != nil {
					c.Fail("AddJPEGImage of a %dx%d image of %d components: %v", iw, ih, comps, err)
				}
				space := map[int]string{1: "DeviceGray", 3: "DeviceRGB", 4: "DeviceCMYK"}[comps]
				if info.Width != iw || info.Height != ih || info.ColorSpace != "/"+space || info.Name != name {
					c.Fail("info %+v of a %dx%d %s image %s", *info, iw, ih, space, name)
				}
				if res := pb.AddImage(info); res != "/"+name {
					c.Fail("resource %s of image %s", res, name)
				}
				pics = append(pics, pic{info.ObjectNum, iw, ih, data, space})
				if len(data) > 60 {
					key += fmt.Sprintf("%dx%d/%d %d;", iw, ih, comps, len(data))
				}
			}
			b.FinalizePage(pb)
			out, err := b.Bytes()
			if err != nil {
				c.Fail("Bytes: %v", err)
			}
			c.Dump("out.pdf", out)
			d := strictDoc(c, out, nil, nil)
			for i, p := range pics {
				o, err := d.Get(p.num)
				s, ok := o.(*ref.Stream)
				if err != nil || !ok {
					c.Fail("image %d: %v, %v", i, o, err)
				}
				if !bytes.Equal(s.Data, p.data) || s.D.Get("Filter") != ref.Obj(ref.Name("DCTDecode")) || s.D.Has("DecodeParms") {
					c.Fail("image %d: %d bytes of %s, want the %d bytes of the file", i, len(s.Data), ref.Canon(s.D), len(p.data))
				}
				want := ref.Dict{{K: "Type", V: ref.Name("XObject")}, {K: "Subtype", V: ref.Name("Image")}, {K: "Width", V: p.w}, {K: "Height", V: p.h}, {K: "ColorSpace", V: ref.Name(p.space)}, {K: "BitsPerComponent", V: 8}}
				for _, kv := range want {
					if ref.Canon(s.D.Get(kv.K)) != ref.Canon(kv.V) {
						c.Fail("image %d: %s, want %s", i, ref.Canon(s.D), ref.Canon(want))
					}
				}
			}
			images, err := extract.ExtractAllImages(held(c, out), nil, false)
			if err != nil || len(images) != len(pics) {
				c.Fail("%d images extracted, %v; want %d", len(images), err, len(pics))
			}
			for i, im := range images {
				p := pics[i]
				if im.Width != p.w || im.Height != p.h || im.ColorSpace != "/"+p.space && im.ColorSpace != p.space || im.BitsPerComponent != 8 || im.Format != "jpeg" || !bytes.Equal(im.Data, p.data) {
					c.Fail("image %d extracted as %s %dx%d %s %d bits, %d bytes; want %dx%d %s, %d bytes", i, im.ID, im.Width, im.Height, im.ColorSpace, im.BitsPerComponent, len(im.Data), p.w, p.h, p.space, len(p.data))
				}
			}
			if key != "" {
				c.NT(key)
			}
		})
}
