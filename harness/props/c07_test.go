package props

import (
	"bytes"
	"compress/zlib"
	"encoding/ascii85"
	"fmt"
	"strings"

	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/forms/xfa"
	"pgregory.net/rapid"
	"verif/harness/hx"
	"verif/harness/ref"
)

// filterData draws a payload with the shapes filters are sensitive to: runs of
// every length, zero groups, all lengths modulo 4, high bytes.
func filterData(c *hx.C) []byte {
	var out []byte
	for i, n := 0, count(c, "parts", 0, 6, 60); i < n; i++ {
		switch num(c, "part", 0, 6) {
		case 0: // run around the RunLength limits
			l := pick(c, "run", 1, 2, 3, 126, 127, 128, 129, 130, 255, 256, 257, 300)
			out = append(out, bytes.Repeat([]byte{hx.Draw(c, rapid.Byte(), "b")}, l)...)
		case 1: // no two equal neighbours
			l := pick(c, "lit", 1, 2, 126, 127, 128, 129, 130, 255, 256, 260)
			s := num(c, "start", 0, 255)
			for j := 0; j < l; j++ {
				out = append(out, byte(s+j*(1+s%3)))
			}
		case 2:
			out = append(out, make([]byte, num(c, "zeros", 1, 13))...)
		case 3:
			out = append(out, bytes.Repeat([]byte{0xff}, num(c, "ffs", 1, 9))...)
		case 4:
			out = append(out, hx.Draw(c, rapid.SliceOfN(rapid.Byte(), 0, 9), "raw")...)
		case 5:
			out = append(out, blob(c, "blob", num(c, "bl", 1, 700))...)
		case 6:
			out = append(out, nastyBytes(c, "nasty", 3)...)
		}
	}
	return out
}

var wsChars = []string{"", "", "", " ", "\n", "\r\n", "\t", "\f", "\x00", "  "}

// sprinkle inserts white space drawn from the PDF set between characters.
func sprinkle(c *hx.C, b []byte) []byte {
	if !flip(c, "spaces") {
		return b
	}
	pat := hx.Draw(c, rapid.SliceOfN(rapid.SampledFrom(wsChars), 1, 9), "ws")
	var out []byte
	for i, x := range b {
		out = append(out, pat[i%len(pat)]...)
		out = append(out, x)
	}
	return out
}

func decode2(c *hx.C, name string, enc []byte) ([]byte, error) {
	same := guard(enc)
	slash := flip(c, "slash")
	n := name
	if slash {
		n = "/" + name
	}
	c.Dump("encoded", enc)
	a, e1 := parse.DecodeFilter(enc, n)
	if !same() {
		c.Fail("DecodeFilter(%s) changed its input", n)
	}
	var b []byte
	var e2 error
	switch name {
	case "FlateDecode":
		b, e2 = parse.DecodeFlateDecode(enc)
	case "ASCIIHexDecode":
		b, e2 = parse.DecodeASCIIHex(enc)
	case "ASCII85Decode":
		b, e2 = parse.DecodeASCII85(enc)
	case "RunLengthDecode":
		b, e2 = parse.DecodeRunLength(enc)
	}
	if (e1 == nil) != (e2 == nil) || (e1 == nil && !bytes.Equal(a, b)) {
		c.Fail("%s: DecodeFilter and the direct decoder disagree: %v / %v", name, e1, e2)
	}
	return a, e1
}

func init() {
	hx.Reg("C07", "library-round-trip", 8000,
		"payloads built from runs, literals, zero groups and blobs around the encoders' limits; every library encoder then decoder; non-trivial: payload of 2+ bytes, keyed by payload",
		func(c *hx.C) {
			data := filterData(c)
			c.Dump("data", data)
			same := guard(data)
			check := func(name string, enc []byte) {
				dec, err := decode2(c, name, enc)
				if err != nil || !bytes.Equal(dec, data) {
					c.Fail("%s: decode(encode(x)) != x (err %v)\n x   %.300x\n enc %.300q\n got %.300x", name, err, data, enc, dec)
				}
			}
			check("ASCIIHexDecode", parse.EncodeASCIIHex(data))
			check("ASCII85Decode", parse.EncodeASCII85(data))
			rl := parse.EncodeRunLength(data)
			check("RunLengthDecode", rl)
			// the library's encoders must also satisfy independent decoders
			h := bytes.TrimSuffix(parse.EncodeASCIIHex(data), []byte(">"))
			if fmt.Sprintf("%X", data) != strings.ToUpper(string(h)) {
				c.Fail("EncodeASCIIHex: %q for %x", h, data)
			}
			a := parse.EncodeASCII85(data)
			body := bytes.TrimSuffix(bytes.TrimPrefix(a, []byte("<~")), []byte("~>"))
			dst := make([]byte, len(data)+8+4*len(body))
			nd, _, err := ascii85.Decode(dst, body, true)
			if err != nil || !bytes.Equal(dst[:nd], data) {
				c.Fail("EncodeASCII85 is not valid ASCII85: %v", err)
			}
			if got, err := refRunLength(rl); err != nil || !bytes.Equal(got, data) {
				c.Fail("EncodeRunLength is not valid RunLength: %v (%x)", err, rl)
			}
			z, err := xfa.CompressStream(data)
			if err != nil {
				c.Fail("CompressStream: %v", err)
			}
			check("FlateDecode", z)
			if got, was, err := xfa.DecompressStream(z); err != nil || !was || !bytes.Equal(got, data) {
				c.Fail("DecompressStream(CompressStream(x)) != x: compressed=%v err=%v", was, err)
			}
			if !same() {
				c.Fail("an encoder changed its input")
			}
			if len(data) > 1 {
				c.NT(fmt.Sprintf("%d bytes %.80x hash %x", len(data), data, fnvb(data)))
			}
			c.ClassIf(len(data)%4 != 0, "partial-group")
			c.ClassIf(bytes.Contains(data, []byte{0, 0, 0, 0}), "zero-group")
		})

	hx.Reg("C07", "foreign-encodings", 20000,
		"payloads encoded by the harness with random letter case, white space, end markers, odd digits, run splitting, flate levels; non-trivial: payload of 2+ bytes, keyed by the encoding",
		func(c *hx.C) {
			data := filterData(c)
			c.Dump("data", data)
			want := data
			name := pick(c, "filter", "ASCIIHexDecode", "ASCII85Decode", "RunLengthDecode", "FlateDecode")
			var enc []byte
			switch name {
			case "ASCIIHexDecode":
				enc = []byte(fmt.Sprintf(pick(c, "case", "%x", "%X"), data))
				if flip(c, "mixed") {
					for i := range enc {
						if i%3 == 0 {
							enc[i] = strings.ToLower(string(enc[i]))[0]
						}
					}
				}
				if len(enc) > 0 && enc[len(enc)-1] == '0' && flip(c, "odd") {
					enc = enc[:len(enc)-1]
					c.Class("odd-digits")
				}
				enc = sprinkle(c, enc)
				enc = append(enc, pick(c, "end", ">", "", " >", ">\n", ">garbage zz!")...)
			case "ASCII85Decode":
				var b bytes.Buffer
				w := ascii85.NewEncoder(&b)
				w.Write(data)
				w.Close()
				enc = b.Bytes()
				if flip(c, "noz") {
					enc = bytes.ReplaceAll(enc, []byte("z"), []byte("!!!!!"))
				}
				enc = sprinkle(c, enc)
				if flip(c, "open") {
					enc = append([]byte("<~"), enc...)
				}
				enc = append(enc, pick(c, "end", "~>", "~>\n", "\n~>", "", "~>~~zz")...)
			case "RunLengthDecode":
				i := 0
				for i < len(data) {
					run := 1
					for i+run < len(data) && data[i+run] == data[i] && run < 128 {
						run++
					}
					if run >= 2 && flip(c, "asrun") {
						n := num(c, "runlen", 2, run)
						enc = append(enc, byte(257-n), data[i])
						i += n
						continue
					}
					m := len(data) - i
					if m > 128 {
						m = 128
					}
					n := num(c, "litlen", 1, m)
					enc = append(enc, byte(n-1))
					enc = append(enc, data[i:i+n]...)
					i += n
				}
				enc = append(enc, 128)
				if flip(c, "trail") {
					enc = append(enc, blob(c, "tr", 5)...)
				}
			case "FlateDecode":
				var b bytes.Buffer
				w, _ := zlib.NewWriterLevel(&b, pick(c, "level", zlib.NoCompression, zlib.BestSpeed, zlib.BestCompression, zlib.HuffmanOnly, zlib.DefaultCompression))
				if len(data) > 10 && flip(c, "flush") {
					w.Write(data[:len(data)/2])
					w.Flush()
					w.Write(data[len(data)/2:])
				} else {
					w.Write(data)
				}
				w.Close()
				enc = b.Bytes()
			}
			dec, err := decode2(c, name, enc)
			if err != nil || !bytes.Equal(dec, want) {
				c.Fail("%s: legal encoding decoded wrongly (err %v)\n want %.300x\n got  %.300x\n enc  %.300q", name, err, want, dec, enc)
			}
			c.Class(name)
			if len(data) > 1 {
				c.NT(fmt.Sprintf("%s %d bytes enc %.60q hash %x", name, len(data), enc, fnvb(enc)))
			}
		})

	hx.Reg("C07", "damage-rejected", 15000,
		"encodings damaged so that no reading of the format accepts them (bad character, z inside a group, single left-over character, group out of range, truncated run, broken checksum); must be an error; non-trivial: all, keyed by the damaged bytes",
		func(c *hx.C) {
			data := filterData(c)
			if len(data) == 0 {
				data = []byte{1}
			}
			name := pick(c, "filter", "ASCIIHexDecode", "ASCII85Decode", "RunLengthDecode", "FlateDecode")
			var enc []byte
			what := ""
			ins := func(b []byte, at int, s ...byte) []byte {
				return append(append(append([]byte{}, b[:at]...), s...), b[at:]...)
			}
			switch name {
			case "ASCIIHexDecode":
				enc = []byte(fmt.Sprintf("%X>", data))
				enc = ins(enc, num(c, "at", 0, len(enc)-1), pick(c, "bad", byte('G'), 'g', '<', 'x', '@', '`', '/', ':', 0x80, 0xff))
				what = "bad character"
			case "ASCII85Decode":
				var b bytes.Buffer
				w := ascii85.NewEncoder(&b)
				w.Write(data)
				w.Close()
				enc = bytes.ReplaceAll(b.Bytes(), []byte("z"), []byte("!!!!!"))
				switch num(c, "how", 0, 3) {
				case 0:
					enc = ins(enc, num(c, "at", 0, len(enc)), pick(c, "bad", byte('v'), 'w', 'y', '{', 0x7f, 0x80, 0xff))
					what = "bad character"
				case 1:
					for len(enc)%5 == 0 {
						enc = append(enc, '5')
					}
					enc = append(enc, 'z')
					what = "z inside a group"
				case 2:
					enc = append(enc[:len(enc)/5*5], '"')
					what = "single left-over character"
				case 3:
					enc = append(enc[:len(enc)/5*5], pick(c, "big", "s8W-\"", "uuuuu", "s9000", "t!!!!")...)
					what = "group above 2^32-1"
				}
				enc = append(enc, "~>"...)
			case "RunLengthDecode":
				n := num(c, "n", 0, 127)
				l := num(c, "have", 0, n)
				enc = append([]byte{byte(n)}, blob(c, "lit", l)...)
				what = "truncated literal run"
				if flip(c, "rep") {
					enc = []byte{byte(num(c, "rl", 129, 255))}
					what = "truncated repeat run"
				}
				if flip(c, "prefix") {
					pre := parse.EncodeRunLength(data)
					enc = append(pre[:len(pre)-1:len(pre)-1], enc...)
				}
			case "FlateDecode":
				enc = ref.Deflate(data)
				switch num(c, "how", 0, 2) {
				case 0:
					enc = enc[:num(c, "cut", 0, len(enc)-1)]
					what = "truncated"
				case 1:
					enc[len(enc)-1-num(c, "ck", 0, 3)] ^= byte(num(c, "x", 1, 255))
					what = "checksum"
				case 2:
					enc[num(c, "hd", 0, 1)] ^= byte(1 << num(c, "bit", 0, 3))
					what = "header"
				}
			}
			if dec, err := decode2(c, name, enc); err == nil {
				c.Fail("%s: damaged data (%s) decoded without an error\n enc %.300q\n got %.300x", name, what, enc, dec)
			}
			c.Class(name + " " + what)
			c.NT(fmt.Sprintf("%s %s %.60q hash %x", name, what, enc, fnvb(enc)))
		})

	hx.Reg("C07", "predictors-and-chains", 6000,
		"object streams behind 1-3 chained filters with any PNG predictor, column count and row tags; members read back; non-trivial: predictor or 2+ filters, keyed by configuration",
		func(c *hx.C) {
			f := ref.NewFile("1.5", "\n", false)
			f.Obj(1, 0, []byte("<</Type/Catalog>>"))
			var hdr, data bytes.Buffer
			n := count(c, "members", 1, 6, 80)
			var want []string
			for i := 0; i < n; i++ {
				o := string(ref.Plain.Bytes(ref.Dict{{K: "V", V: ref.Str{B: blob(c, "v", num(c, "vl", 0, 40)), Hex: true}}}))
				want = append(want, o)
				fmt.Fprintf(&hdr, "%d %d ", 10+i, data.Len())
				data.WriteString(o + " ")
				f.SetEntry(10+i, ref.Entry{Type: 2, Offset: 5, Gen: i})
			}
			all := append(append([]byte{}, hdr.Bytes()...), data.Bytes()...)
			d := ref.Dict{{K: "Type", V: ref.Name("ObjStm")}, {K: "N", V: n}, {K: "First", V: hdr.Len()}}
			desc := ""
			enc := all
			cols := num(c, "cols", 1, 40)
			pred := flip(c, "pred")
			if pred {
				for len(enc)%cols != 0 {
					enc = append(enc, ' ')
				}
				tags := hx.Draw(c, rapid.SliceOfN(rapid.SampledFrom([]byte{0, 1, 2, 3, 4}), 1, 6), "tags")
				enc = ref.Predict(enc, cols, 1, 8, tags)
				desc = fmt.Sprintf("pred %d cols %d tags %v ", num(c, "P", 10, 15), cols, tags)
			}
			var names []string
			k := num(c, "filters", 1, 3)
			for i := 0; i < k; i++ {
				name := pick(c, "filter", "FlateDecode", "ASCIIHexDecode", "ASCII85Decode", "RunLengthDecode")
				if i == 0 && pred {
					name = "FlateDecode"
				}
				switch name {
				case "FlateDecode":
					enc = ref.Deflate(enc)
				case "ASCIIHexDecode":
					enc = []byte(fmt.Sprintf("%x>", enc))
				case "ASCII85Decode":
					var b bytes.Buffer
					w := ascii85.NewEncoder(&b)
					w.Write(enc)
					w.Close()
					enc = append(b.Bytes(), "~>"...)
				case "RunLengthDecode":
					var b []byte
					for len(enc) > 0 {
						m := len(enc)
						if m > 100 {
							m = 100
						}
						b = append(append(b, byte(m-1)), enc[:m]...)
						enc = enc[m:]
					}
					enc = append(b, 128)
				}
				names = append([]string{name}, names...)
			}
			if pred && k > 1 {
				// the parameters belong to the last filter applied when decoding
				a := ref.Arr{}
				for i := 0; i < k-1; i++ {
					a = append(a, ref.Null{})
				}
				k0 := ref.Dict{{K: "Predictor", V: 12}, {K: "Columns", V: cols}}
				d = append(d, ref.KV{K: "DecodeParms", V: append(a, k0)})
			} else if pred {
				d = append(d, ref.KV{K: "DecodeParms", V: ref.Dict{{K: "Columns", V: cols}, {K: "Predictor", V: 15}}})
			}
			if k == 1 {
				d = append(d, ref.KV{K: "Filter", V: ref.Name(names[0])})
			} else {
				a := ref.Arr{}
				for _, x := range names {
					a = append(a, ref.Name(x))
				}
				d = append(d, ref.KV{K: "Filter", V: a})
			}
			f.Stream(5, 0, ref.Plain, d, enc)
			f.EndStream(ref.Plain, ref.Dict{{K: "Size", V: 30}, {K: "Root", V: ref.Ref{N: 1}}}, ref.XS{Num: 6, Compress: flip(c, "z")})
			c.Dump("in.pdf", f.Bytes())
			pdf, err := parse.Open(f.Bytes())
			if err != nil {
				c.Fail("open: %v", err)
			}
			for i := range want {
				got, err := pdf.GetObject(10 + i)
				if err != nil || string(bytes.TrimSpace(got)) != want[i] {
					c.Fail("object %d behind %v %s: got %q err %v want %q", 10+i, names, desc, got, err, want[i])
				}
			}
			c.ClassIf(pred, "predictor")
			c.ClassIf(k > 1, "chain")
			if pred || k > 1 {
				c.NT(fmt.Sprintf("%v %s %d members hash %x", names, desc, n, fnvb(enc)))
			}
		})

	hx.Reg("C07", "stream-data", 4000,
		"documents of 1-6 streams behind chains of up to 8 filters, each with parameters of its own (PNG predictors of any colours, bits and columns, TIFF predictors, crypt filters that change nothing), an image codec behind some, filters and parameters as one value or listed, direct or indirect; the data up to the codec, and what remains; non-trivial: a chain with a predictor, keyed by the chain",
		func(c *hx.C) {
			type expect struct {
				plain []byte
				codec string
				hard  bool // uses a predictor that may be refused
				desc  string
			}
			f := newFD(c)
			want := map[int]expect{}
			for i, n := 0, num(c, "streams", 1, 6); i < n; i++ {
				e := expect{plain: blob(c, "data", count(c, "n", 0, 60, 3000))}
				var filters, parms ref.Arr
				data := e.plain
				if oneIn(c, "codec", 4) {
					e.codec = pick(c, "codecName", "DCTDecode", "JPXDecode", "CCITTFaxDecode", "JBIG2Decode")
					filters = ref.Arr{ref.Name(e.codec)}
					parms = ref.Arr{pick[ref.Obj](c, "codecParms", ref.Null{}, ref.Dict{{K: "ColorTransform", V: 0}}, ref.Dict{{K: "K", V: -1}, {K: "Columns", V: 7}})}
				}
				k := count(c, "filters", 0, 3, 8)
				if e.codec != "" {
					k = min(k, 7)
				}
				for j := 0; j < k; j++ {
					name := pick(c, "filter", "FlateDecode", "FlateDecode", "ASCIIHexDecode", "ASCII85Decode", "RunLengthDecode", "Crypt")
					if name == "ASCIIHexDecode" && len(data) > 4000 {
						name = "FlateDecode"
					}
					if name == "Crypt" && f.user != nil {
						name = "RunLengthDecode"
					}
					var p ref.Obj = ref.Null{}
					if name == "FlateDecode" {
						colors, bits := num(c, "colors", 1, 5), pick(c, "bits", 8, 8, 1, 2, 4, 16)
						cols := pick(c, "cols", 1, 2, 3, 5, 8, 13, 40)
						d := ref.Dict{{K: "Columns", V: cols}, {K: "Colors", V: colors}, {K: "BitsPerComponent", V: bits}}
						row := (cols*colors*bits + 7) / 8
						kind := pick(c, "pred", "none", "one", "png", "png", "png", "tiff")
						// the rows must be full: shorter ones have no defined meaning
						if len(data) == 0 || len(data)%row != 0 {
							kind = pick(c, "pred1", "none", "one", "png1", "tiff1")
							row = 1
							for _, r := range []int{7, 5, 3, 2} {
								if len(data)%r == 0 {
									row = r
									break
								}
							}
							cols, colors, bits = row, 1, 8
							d = ref.Dict{{K: "Columns", V: cols}}
						}
						def := func(d ref.Dict) ref.Dict { // what has its default value may be left out
							out := ref.Dict{}
							for _, kv := range d {
								if kv.K != "Predictor" && kv.V == ref.Obj(map[string]int{"Columns": 1, "Colors": 1, "BitsPerComponent": 8}[kv.K]) && flip(c, "default") {
									continue
								}
								out = append(out, kv)
							}
							return out
						}
						switch kind {
						case "one":
							p = def(d.With("Predictor", 1))
						case "png", "png1":
							if len(data) > 0 {
								data = ref.Predict(data, cols, colors, bits, hx.Draw(c, rapid.SliceOfN(rapid.SampledFrom([]byte{0, 1, 2, 3, 4}), 1, 6), "tags"))
							}
							p = def(d.With("Predictor", num(c, "P", 10, 15)))
						case "tiff", "tiff1":
							data = tiffPredict(data, row, colors, bits)
							p = def(d.With("Predictor", 2))
							e.hard = e.hard || bits != 8
						}
						if p != ref.Obj(ref.Null{}) || kind == "none" {
							e.desc += fmt.Sprintf("%s/%d/%d/%d ", kind, cols, colors, bits)
						}
					}
					if name == "Crypt" && flip(c, "identity") {
						p = ref.Dict{{K: "Name", V: ref.Name("Identity")}}
					}
					data = encodeFilter(name, data)
					e.desc += name + " "
					filters, parms = append(ref.Arr{ref.Name(name)}, filters...), append(ref.Arr{p}, parms...)
				}
				d := ref.Dict{}
				bare := true // no filter has parameters
				for _, p := range parms {
					bare = bare && p == ref.Obj(ref.Null{})
				}
				switch {
				case len(filters) == 1 && flip(c, "single"):
					d = d.With("Filter", filters[0])
					if !bare {
						d = d.With("DecodeParms", parms[0])
					}
				case len(filters) > 0 || flip(c, "emptyList"):
					d = d.With("Filter", filters)
					if !bare || flip(c, "nulls") {
						d = d.With("DecodeParms", parms)
					}
				}
				want[f.rawStream(d, data).N] = e
			}
			root, _ := f.pageTree(1, func(i int) (ref.Dict, ref.Dict) { return nil, ref.Dict{{K: "MediaBox", V: ref.Arr{0, 0, 9, 9}}} })
			f.trailer = ref.Dict{{K: "Root", V: f.add(ref.Dict{{K: "Type", V: ref.Name("Catalog")}, {K: "Pages", V: root}})}}
			b := f.emit()
			c.Dump("in.pdf", b)
			pdf, err := parse.Open(b)
			if err != nil {
				c.Fail("%s: open: %v", f.form, err)
			}
			for _, n := range sortedKeys(want) {
				e := want[n]
				_, data, rest, err := pdf.ImageData(n)
				if err != nil && e.hard {
					c.Class("predictor refused")
				} else if err != nil || !bytes.Equal(data, e.plain) || strings.Join(rest, " ") != e.codec {
					c.Fail("stream %d (%s%s): %d bytes %.100x, %q left, %v; want %d bytes %.100x, %q left", n, e.desc, e.codec, len(data), data, rest, err, len(e.plain), e.plain, e.codec)
				}
				_, data, err2 := pdf.StreamData(n)
				switch {
				case e.codec != "":
					if err2 == nil {
						c.Fail("stream %d (%s%s): the data is coded still, but was returned", n, e.desc, e.codec)
					}
				case (err == nil) != (err2 == nil) || err == nil && !bytes.Equal(data, e.plain):
					c.Fail("stream %d (%s): %d bytes %.100x, %v; want %d bytes %.100x", n, e.desc, len(data), data, err2, len(e.plain), e.plain)
				}
				c.ClassIf(e.codec != "", "image codec")
				c.ClassIf(e.hard, "TIFF predictor with other than 8 bits")
				if strings.Contains(e.desc, "png") || strings.Contains(e.desc, "tiff") {
					c.NT(fmt.Sprintf("%s%s %d bytes", e.desc, e.codec, len(e.plain)))
				}
			}
		})
}

// tiffPredict replaces each sample of a row by its difference to that of the pixel before.
func tiffPredict(data []byte, row, colors, bits int) []byte {
	out := append([]byte{}, data...)
	for start := 0; start < len(data); start += row {
		line, to := data[start:start+row], out[start:start+row]
		get := func(i int) int {
			v := 0
			for b := i * bits; b < (i+1)*bits; b++ {
				v = v<<1 | int(line[b/8]>>(7-b%8)&1)
			}
			return v
		}
		for i := colors; (i+1)*bits <= row*8; i++ {
			v := get(i) - get(i-colors)
			for b := (i+1)*bits - 1; b >= i*bits; b-- {
				to[b/8] = to[b/8]&^(1<<(7-b%8)) | byte(v&1)<<(7-b%8)
				v >>= 1
			}
		}
	}
	return out
}

// encodeFilter encodes data for a filter.
func encodeFilter(name string, data []byte) []byte {
	switch name {
	case "FlateDecode":
		return ref.Deflate(data)
	case "ASCIIHexDecode":
		return []byte(fmt.Sprintf("%x>", data))
	case "ASCII85Decode":
		var b bytes.Buffer
		w := ascii85.NewEncoder(&b)
		w.Write(data)
		w.Close()
		return append(b.Bytes(), "~>"...)
	case "RunLengthDecode":
		var b []byte
		for len(data) > 0 {
			m := min(len(data), 100)
			b = append(append(b, byte(m-1)), data[:m]...)
			data = data[m:]
		}
		return append(b, 128)
	}
	return data
}

func refRunLength(b []byte) ([]byte, error) {
	var out []byte
	for i := 0; i < len(b); {
		l := int(b[i])
		i++
		switch {
		case l == 128:
			if i != len(b) {
				return nil, fmt.Errorf("data after EOD")
			}
			return out, nil
		case l < 128:
			if i+l+1 > len(b) {
				return nil, fmt.Errorf("short literal")
			}
			out = append(out, b[i:i+l+1]...)
			i += l + 1
		default:
			if i >= len(b) {
				return nil, fmt.Errorf("short repeat")
			}
			out = append(out, bytes.Repeat(b[i:i+1], 257-l)...)
			i++
		}
	}
	return nil, fmt.Errorf("no EOD")
}
