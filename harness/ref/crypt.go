package ref

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/md5"
	"crypto/rc4"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"errors"
	"fmt"
)

var pwPad = []byte{0x28, 0xBF, 0x4E, 0x5E, 0x4E, 0x75, 0x8A, 0x41, 0x64, 0x00, 0x4E, 0x56, 0xFF, 0xFA, 0x01, 0x08,
	0x2E, 0x2E, 0x00, 0xB6, 0xD0, 0x68, 0x3E, 0x80, 0x2F, 0x0C, 0xA9, 0xFE, 0x64, 0x53, 0x69, 0x7A}

// Crypt is the standard security handler with an established file key.
type Crypt struct {
	V, R    int
	KeyLen  int // bytes
	AES     bool
	Key     []byte
	O, U    []byte
	OE, UE  []byte
	Perms   []byte
	P       int32
	EncMeta bool
	StmM    string // method of streams: V2, AESV2, AESV3, Identity ("": by V and AES)
	StrM    string // method of strings
	Lit     bool   // write the binary entries as literal strings
	Opt     int    // bit 0: no /Length, 1: no /Length in the crypt filter, 2: unsigned /P, 3: /Length of crypt filter in bits
}

func (c *Crypt) Method(m string) string {
	if m != "" {
		return m
	}
	switch {
	case c.V == 5:
		return "AESV3"
	case c.AES:
		return "AESV2"
	}
	return "V2"
}

// streamMethod honours the stream's own crypt filter and unencrypted metadata.
func (c *Crypt) streamMethod(d Dict) string {
	if c.V >= 4 && !c.EncMeta && d.Get("Type") == Obj(Name("Metadata")) {
		return "Identity"
	}
	f, p := d.Get("Filter"), d.Get("DecodeParms")
	if a, ok := f.(Arr); ok && len(a) > 0 {
		f = a[0]
		if pa, ok := p.(Arr); ok && len(pa) > 0 {
			p = pa[0]
		}
	}
	if f != Obj(Name("Crypt")) {
		return c.Method(c.StmM)
	}
	pd, _ := p.(Dict)
	switch pd.Get("Name") {
	case Obj(Name("StdCF")):
		return c.Method(c.StmM)
	case Obj(Name("StrCF")):
		return c.Method(c.StrM)
	}
	return "Identity"
}

func padPw(pw []byte) []byte {
	b := append(append([]byte{}, pw...), pwPad...)
	return b[:32]
}

func rc4x(key, data []byte) []byte {
	c, _ := rc4.NewCipher(key)
	out := make([]byte, len(data))
	c.XORKeyStream(out, data)
	return out
}

func (c *Crypt) ownerKey(owner []byte) []byte {
	h := md5.Sum(padPw(owner))
	k := h[:]
	if c.R >= 3 {
		for i := 0; i < 50; i++ {
			s := md5.Sum(k[:c.KeyLen])
			k = s[:]
		}
	}
	return k[:c.KeyLen]
}

// fileKey computes algorithm 2 for a user password.
func (c *Crypt) fileKey(user []byte, id []byte) []byte {
	h := md5.New()
	h.Write(padPw(user))
	h.Write(c.O[:32])
	var p [4]byte
	binary.LittleEndian.PutUint32(p[:], uint32(c.P))
	h.Write(p[:])
	h.Write(id)
	if c.R >= 4 && !c.EncMeta {
		h.Write([]byte{0xff, 0xff, 0xff, 0xff})
	}
	k := h.Sum(nil)
	if c.R >= 3 {
		for i := 0; i < 50; i++ {
			s := md5.Sum(k[:c.KeyLen])
			k = s[:]
		}
	}
	return k[:c.KeyLen]
}

func (c *Crypt) uValue(key, id []byte) []byte {
	if c.R == 2 {
		return rc4x(key, pwPad)
	}
	h := md5.New()
	h.Write(pwPad)
	h.Write(id)
	x := h.Sum(nil)
	for i := 0; i < 20; i++ {
		k := make([]byte, len(key))
		for j := range k {
			k[j] = key[j] ^ byte(i)
		}
		x = rc4x(k, x)
	}
	return append(x, make([]byte, 16)...)
}

// NewCrypt builds a security handler for generation. rnd supplies salts, keys and padding.
// v/r: 1/2, 2/3, 4/4 (aes or rc4), 5/5, 5/6.
func NewCrypt(v, r, keyLen int, aesOn bool, user, owner, id []byte, p int32, encMeta bool, rnd func(n int) []byte) *Crypt {
	c := &Crypt{V: v, R: r, KeyLen: keyLen, AES: aesOn, P: p, EncMeta: encMeta}
	if v == 5 {
		c.KeyLen = 32
		c.AES = true
		c.Key = rnd(32)
		if len(user) > 127 {
			user = user[:127]
		}
		if len(owner) > 127 {
			owner = owner[:127]
		}
		us := rnd(16)
		c.U = append(c.hash5(user, us[:8], nil), us...)
		c.UE = cbcNoPad(c.hash5(user, us[8:], nil), make([]byte, 16), c.Key)
		os := rnd(16)
		c.O = append(c.hash5(owner, os[:8], c.U), os...)
		c.OE = cbcNoPad(c.hash5(owner, os[8:], c.U), make([]byte, 16), c.Key)
		var pb [16]byte
		binary.LittleEndian.PutUint32(pb[:], uint32(p))
		copy(pb[4:], []byte{0xff, 0xff, 0xff, 0xff})
		if encMeta {
			pb[8] = 'T'
		} else {
			pb[8] = 'F'
		}
		copy(pb[9:], "adb")
		copy(pb[12:], rnd(4))
		blk, _ := aes.NewCipher(c.Key)
		c.Perms = make([]byte, 16)
		blk.Encrypt(c.Perms, pb[:])
		return c
	}
	if len(owner) == 0 {
		owner = user
	}
	ok := c.ownerKey(owner)
	x := padPw(user)
	if r == 2 {
		x = rc4x(ok, x)
	} else {
		for i := 0; i < 20; i++ {
			k := make([]byte, len(ok))
			for j := range k {
				k[j] = ok[j] ^ byte(i)
			}
			x = rc4x(k, x)
		}
	}
	c.O = x
	c.Key = c.fileKey(user, id)
	c.U = c.uValue(c.Key, id)
	return c
}

func cbcNoPad(key, iv, data []byte) []byte {
	b, _ := aes.NewCipher(key)
	out := make([]byte, len(data))
	cipher.NewCBCEncrypter(b, iv).CryptBlocks(out, data)
	return out
}

func (c *Crypt) hash5(pw, salt, u []byte) []byte {
	in := append(append(append([]byte{}, pw...), salt...), u...)
	k0 := sha256.Sum256(in)
	k := k0[:]
	if c.R == 5 {
		return k
	}
	for i := 0; ; i++ {
		blk := append(append(append([]byte{}, pw...), k...), u...)
		k1 := bytes.Repeat(blk, 64)
		e := cbcNoPad(k[:16], k[16:32], k1)
		m := 0
		for _, x := range e[:16] {
			m += int(x)
		}
		switch m % 3 {
		case 0:
			s := sha256.Sum256(e)
			k = s[:]
		case 1:
			s := sha512.Sum384(e)
			k = s[:]
		case 2:
			s := sha512.Sum512(e)
			k = s[:]
		}
		if i >= 63 && int(e[len(e)-1]) <= i-31 {
			break
		}
	}
	return k[:32]
}

// Dict returns the encryption dictionary.
func (c *Crypt) Dict() Dict {
	str := func(b []byte) Str { return Str{B: b, Hex: !c.Lit} }
	p := int(c.P)
	if c.Opt&4 != 0 {
		p = int(uint32(c.P))
	}
	d := Dict{{"Filter", Name("Standard")}, {"V", c.V}, {"R", c.R}, {"O", str(c.O)}, {"U", str(c.U)}, {"P", p}}
	if c.V >= 2 && (c.Opt&1 == 0 || c.V < 4 && c.KeyLen != 5) {
		d = append(d, KV{"Length", c.KeyLen * 8})
	}
	if c.V == 5 {
		d = append(d, KV{"OE", str(c.OE)}, KV{"UE", str(c.UE)}, KV{"Perms", str(c.Perms)})
	}
	if c.V >= 4 {
		cf := Dict{}
		filter := func(name, m string) Name {
			if m == "Identity" {
				return "Identity"
			}
			fd := Dict{{"AuthEvent", Name("DocOpen")}, {"CFM", Name(m)}}
			if c.Opt&2 == 0 {
				l := c.KeyLen
				if c.Opt&8 != 0 {
					l *= 8
				}
				fd = append(fd, KV{"Length", l})
			}
			cf = cf.With(name, fd)
			return Name(name)
		}
		sm, tm := c.Method(c.StmM), c.Method(c.StrM)
		sn := filter("StdCF", sm)
		tn := sn
		if tm != sm {
			tn = filter("StrCF", tm)
		}
		d = append(d, KV{"CF", cf}, KV{"StmF", sn}, KV{"StrF", tn})
		if !c.EncMeta {
			d = append(d, KV{"EncryptMetadata", false})
		}
	}
	return d
}

func (c *Crypt) objKey(m string, n, g int) []byte {
	if m == "AESV3" {
		return c.Key
	}
	h := md5.New()
	h.Write(c.Key)
	h.Write([]byte{byte(n), byte(n >> 8), byte(n >> 16), byte(g), byte(g >> 8)})
	if m == "AESV2" {
		h.Write([]byte("sAlT"))
	}
	k := h.Sum(nil)
	l := len(c.Key) + 5
	if l > 16 {
		l = 16
	}
	return k[:l]
}

// encBytes encrypts one string or stream.
func (c *Crypt) encBytes(m string, b []byte, n, g int, iv []byte) []byte {
	if m == "Identity" {
		return b
	}
	k := c.objKey(m, n, g)
	if m == "V2" {
		return rc4x(k, b)
	}
	pad := 16 - len(b)%16
	x := append(append([]byte{}, b...), bytes.Repeat([]byte{byte(pad)}, pad)...)
	return append(append([]byte{}, iv...), cbcNoPad(k, iv, x)...)
}

// EncStream encrypts the data of a stream with the given dictionary.
func (c *Crypt) EncStream(d Dict, b []byte, n, g int, iv []byte) []byte {
	return c.encBytes(c.streamMethod(d), b, n, g, iv)
}

func (c *Crypt) decBytes(m string, b []byte, n, g int) ([]byte, error) {
	if m == "Identity" {
		return b, nil
	}
	k := c.objKey(m, n, g)
	if m == "V2" {
		return rc4x(k, b), nil
	}
	if len(b) < 32 || len(b)%16 != 0 {
		return nil, fmt.Errorf("AES data of %d bytes", len(b))
	}
	blk, err := aes.NewCipher(k)
	if err != nil {
		return nil, err
	}
	out := make([]byte, len(b)-16)
	cipher.NewCBCDecrypter(blk, b[:16]).CryptBlocks(out, b[16:])
	p := int(out[len(out)-1])
	if p < 1 || p > 16 || p > len(out) {
		return nil, errors.New("bad AES padding")
	}
	return out[:len(out)-p], nil
}

// Encrypt returns o with strings and stream data encrypted.
func (c *Crypt) Encrypt(o Obj, n, g int, iv func() []byte) Obj {
	switch v := o.(type) {
	case Str:
		return Str{B: c.encBytes(c.Method(c.StrM), v.B, n, g, iv()), Hex: v.Hex}
	case Arr:
		a := Arr{}
		for _, e := range v {
			a = append(a, c.Encrypt(e, n, g, iv))
		}
		return a
	case Dict:
		d := Dict{}
		for _, e := range v {
			d = append(d, KV{e.K, c.Encrypt(e.V, n, g, iv)})
		}
		return d
	case *Stream:
		d := c.Encrypt(v.D, n, g, iv).(Dict)
		data := c.EncStream(v.D, v.Data, n, g, iv())
		if _, ok := d.Get("Length").(int); ok {
			d = d.With("Length", len(data))
		}
		return &Stream{D: d, Data: data}
	}
	return o
}

func (c *Crypt) Decrypt(o Obj, n, g int) (Obj, error) {
	switch v := o.(type) {
	case Str:
		b, err := c.decBytes(c.Method(c.StrM), v.B, n, g)
		return Str{B: b, Hex: v.Hex}, err
	case Arr:
		a := Arr{}
		for _, e := range v {
			x, err := c.Decrypt(e, n, g)
			if err != nil {
				return nil, err
			}
			a = append(a, x)
		}
		return a, nil
	case Dict:
		d := Dict{}
		for _, e := range v {
			x, err := c.Decrypt(e.V, n, g)
			if err != nil {
				return nil, err
			}
			d = append(d, KV{e.K, x})
		}
		return d, nil
	case *Stream:
		if v.D.Get("Type") == Obj(Name("XRef")) {
			return v, nil
		}
		dd, err := c.Decrypt(v.D, n, g)
		if err != nil {
			return nil, err
		}
		b, err := c.decBytes(c.streamMethod(v.D), v.Data, n, g)
		if err != nil {
			return nil, err
		}
		return &Stream{D: dd.(Dict), Data: b}, nil
	}
	return o, nil
}

func sb(d Dict, k string) []byte {
	if s, ok := d.Get(k).(Str); ok {
		return s.B
	}
	return nil
}

// OpenCrypt authenticates a password ("user" or "owner" is returned) against an encryption dictionary.
func OpenCrypt(ed Dict, id, pw []byte) (*Crypt, string, error) {
	c := &Crypt{V: dint(ed, "V", 0), R: dint(ed, "R", 0), P: int32(uint32(int64(dint(ed, "P", 0)))), EncMeta: true}
	if b, ok := ed.Get("EncryptMetadata").(bool); ok {
		c.EncMeta = b
	}
	c.KeyLen = dint(ed, "Length", 40) / 8
	if c.V == 1 {
		c.KeyLen = 5
	}
	c.O, c.U, c.OE, c.UE = sb(ed, "O"), sb(ed, "U"), sb(ed, "OE"), sb(ed, "UE")
	if c.V >= 4 {
		cf, _ := ed.Get("CF").(Dict)
		for k, dst := range map[string]*string{"StmF": &c.StmM, "StrF": &c.StrM} {
			sn, _ := ed.Get(k).(Name)
			if sn == "" || sn == "Identity" {
				*dst = "Identity"
				continue
			}
			f, _ := cf.Get(string(sn)).(Dict)
			switch m, _ := f.Get("CFM").(Name); m {
			case "V2", "AESV2", "AESV3":
				*dst = string(m)
			default:
				return nil, "", errors.New("bad crypt filter")
			}
		}
		if c.V == 4 {
			c.KeyLen = 16
		}
	}
	if c.V == 5 {
		if len(c.U) < 48 || len(c.O) < 48 || len(c.UE) < 32 || len(c.OE) < 32 {
			return nil, "", errors.New("short V5 entries")
		}
		if len(pw) > 127 {
			pw = pw[:127]
		}
		u := c.U[:48]
		dec := func(k, d []byte) []byte {
			b, _ := aes.NewCipher(k)
			out := make([]byte, 32)
			cipher.NewCBCDecrypter(b, make([]byte, 16)).CryptBlocks(out, d[:32])
			return out
		}
		if bytes.Equal(c.hash5(pw, c.U[32:40], nil), c.U[:32]) {
			c.Key = dec(c.hash5(pw, c.U[40:48], nil), c.UE)
			return c, "user", nil
		}
		if bytes.Equal(c.hash5(pw, c.O[32:40], u), c.O[:32]) {
			c.Key = dec(c.hash5(pw, c.O[40:48], u), c.OE)
			return c, "owner", nil
		}
		return nil, "", errors.New("wrong password")
	}
	if len(c.O) < 32 || len(c.U) < 16 {
		return nil, "", errors.New("short O/U")
	}
	try := func(user []byte) bool {
		k := c.fileKey(user, id)
		u := c.uValue(k, id)
		n := 16
		if c.R == 2 {
			n = 32
		}
		if len(c.U) >= n && bytes.Equal(u[:n], c.U[:n]) {
			c.Key = k
			return true
		}
		return false
	}
	if try(pw) {
		return c, "user", nil
	}
	ok := c.ownerKey(pw)
	x := c.O[:32]
	if c.R == 2 {
		x = rc4x(ok, x)
	} else {
		for i := 19; i >= 0; i-- {
			k := make([]byte, len(ok))
			for j := range k {
				k[j] = ok[j] ^ byte(i)
			}
			x = rc4x(k, x)
		}
	}
	if try(x) {
		return c, "owner", nil
	}
	return nil, "", errors.New("wrong password")
}

// Unlock authenticates and attaches the handler to the document.
func (d *Doc) Unlock(pw []byte) (string, error) {
	e := d.Trailer.Get("Encrypt")
	if e == nil {
		return "", errors.New("document is not encrypted")
	}
	if r, ok := e.(Ref); ok {
		d.CryptNo = r.N
	}
	ed, err := d.Dict(e)
	if err != nil {
		return "", err
	}
	var id []byte
	if a, ok := d.Trailer.Get("ID").(Arr); ok && len(a) > 0 {
		if s, ok := a[0].(Str); ok {
			id = s.B
		}
	}
	c, who, err := OpenCrypt(ed, id, pw)
	if err != nil {
		return "", err
	}
	no := d.CryptNo
	d.cache = map[int]Obj{}
	if no != 0 {
		d.cache[no] = ed
	}
	d.Crypt = c
	return who, nil
}

// ObjKey returns the key of an object for a method.
func (c *Crypt) ObjKey(m string, n, g int) []byte { return c.objKey(m, n, g) }
