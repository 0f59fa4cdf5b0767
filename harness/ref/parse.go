package ref

import (
	"bytes"
	"errors"
	"fmt"
	"strconv"
)

// Parser is a tokenizer and object parser following ISO 32000-1 section 7.
type Parser struct {
	B   []byte
	Pos int
}

var errEOF = errors.New("unexpected end of data")

func (p *Parser) SkipWS() {
	for p.Pos < len(p.B) {
		c := p.B[p.Pos]
		if IsWhite(c) {
			p.Pos++
		} else if c == '%' {
			for p.Pos < len(p.B) && p.B[p.Pos] != '\n' && p.B[p.Pos] != '\r' {
				p.Pos++
			}
		} else {
			return
		}
	}
}

func (p *Parser) Peek() (byte, bool) {
	if p.Pos >= len(p.B) {
		return 0, false
	}
	return p.B[p.Pos], true
}

func (p *Parser) regularRun() string {
	s := p.Pos
	for p.Pos < len(p.B) && isRegular(p.B[p.Pos]) {
		p.Pos++
	}
	return string(p.B[s:p.Pos])
}

// Keyword consumes the given keyword.
func (p *Parser) Keyword(k string) error {
	p.SkipWS()
	if !bytes.HasPrefix(p.B[p.Pos:], []byte(k)) {
		end := p.Pos + 20
		if end > len(p.B) {
			end = len(p.B)
		}
		return fmt.Errorf("offset %d: expected %q, found %q", p.Pos, k, p.B[p.Pos:end])
	}
	p.Pos += len(k)
	return nil
}

func (p *Parser) Int() (int, error) {
	p.SkipWS()
	at := p.Pos
	s := p.regularRun()
	n, err := strconv.Atoi(s)
	if err != nil {
		return 0, fmt.Errorf("offset %d: expected integer, found %q", at, s)
	}
	return n, nil
}

func hexv(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

func (p *Parser) Object() (Obj, error) {
	return p.object(0)
}

func (p *Parser) object(depth int) (Obj, error) {
	if depth > 200 {
		return nil, errors.New("nesting too deep")
	}
	p.SkipWS()
	c, ok := p.Peek()
	if !ok {
		return nil, errEOF
	}
	switch {
	case c == '/':
		p.Pos++
		raw := p.regularRun()
		var out []byte
		for i := 0; i < len(raw); i++ {
			if raw[i] == '#' && i+2 < len(raw) && hexv(raw[i+1]) >= 0 && hexv(raw[i+2]) >= 0 {
				out = append(out, byte(hexv(raw[i+1])<<4|hexv(raw[i+2])))
				i += 2
			} else {
				out = append(out, raw[i])
			}
		}
		return Name(out), nil
	case c == '(':
		return p.litString()
	case c == '<':
		if p.Pos+1 < len(p.B) && p.B[p.Pos+1] == '<' {
			p.Pos += 2
			d := Dict{}
			for {
				p.SkipWS()
				if bytes.HasPrefix(p.B[p.Pos:], []byte(">>")) {
					p.Pos += 2
					return d, nil
				}
				at := p.Pos
				k, err := p.object(depth + 1)
				if err != nil {
					return nil, err
				}
				kn, ok := k.(Name)
				if !ok {
					return nil, fmt.Errorf("offset %d: dictionary key is %T", at, k)
				}
				v, err := p.object(depth + 1)
				if err != nil {
					return nil, err
				}
				if d.Has(string(kn)) {
					return nil, fmt.Errorf("offset %d: duplicate dictionary key /%s", at, kn)
				}
				d = append(d, KV{string(kn), v})
			}
		}
		p.Pos++
		var out []byte
		hi := -1
		for {
			if p.Pos >= len(p.B) {
				return nil, errEOF
			}
			ch := p.B[p.Pos]
			p.Pos++
			if ch == '>' {
				break
			}
			if IsWhite(ch) {
				continue
			}
			v := hexv(ch)
			if v < 0 {
				return nil, fmt.Errorf("offset %d: bad hex digit %q", p.Pos-1, ch)
			}
			if hi < 0 {
				hi = v
			} else {
				out = append(out, byte(hi<<4|v))
				hi = -1
			}
		}
		if hi >= 0 {
			out = append(out, byte(hi<<4))
		}
		return Str{B: out, Hex: true}, nil
	case c == '[':
		p.Pos++
		a := Arr{}
		for {
			p.SkipWS()
			if ch, ok := p.Peek(); ok && ch == ']' {
				p.Pos++
				return a, nil
			}
			v, err := p.object(depth + 1)
			if err != nil {
				return nil, err
			}
			a = append(a, v)
		}
	case c == '+' || c == '-' || c == '.' || (c >= '0' && c <= '9'):
		at := p.Pos
		s := p.regularRun()
		if n, err := strconv.Atoi(s); err == nil {
			// reference?
			if n >= 0 {
				save := p.Pos
				p.SkipWS()
				s2 := p.regularRun()
				if g, err := strconv.Atoi(s2); err == nil && g >= 0 && s2[0] != '+' {
					p.SkipWS()
					if ch, ok := p.Peek(); ok && ch == 'R' && (p.Pos+1 >= len(p.B) || !isRegular(p.B[p.Pos+1])) {
						p.Pos++
						return Ref{n, g}, nil
					}
				}
				p.Pos = save
			}
			return n, nil
		}
		if _, err := strconv.ParseFloat(s, 64); err == nil {
			for i := 0; i < len(s); i++ {
				if !(s[i] == '+' || s[i] == '-' || s[i] == '.' || (s[i] >= '0' && s[i] <= '9')) {
					return nil, fmt.Errorf("offset %d: bad number %q", at, s)
				}
			}
			return Real(s), nil
		}
		return nil, fmt.Errorf("offset %d: bad number %q", at, s)
	default:
		at := p.Pos
		s := p.regularRun()
		switch s {
		case "null":
			return Null{}, nil
		case "true":
			return true, nil
		case "false":
			return false, nil
		}
		return nil, fmt.Errorf("offset %d: unexpected token %q (byte %q)", at, s, c)
	}
}

func (p *Parser) litString() (Obj, error) {
	p.Pos++
	depth := 1
	out := []byte{}
	for {
		if p.Pos >= len(p.B) {
			return nil, errEOF
		}
		c := p.B[p.Pos]
		p.Pos++
		switch c {
		case '(':
			depth++
			out = append(out, c)
		case ')':
			depth--
			if depth == 0 {
				return Str{B: out}, nil
			}
			out = append(out, c)
		case '\r':
			out = append(out, '\n')
			if p.Pos < len(p.B) && p.B[p.Pos] == '\n' {
				p.Pos++
			}
		case '\\':
			if p.Pos >= len(p.B) {
				return nil, errEOF
			}
			e := p.B[p.Pos]
			p.Pos++
			switch e {
			case 'n':
				out = append(out, '\n')
			case 'r':
				out = append(out, '\r')
			case 't':
				out = append(out, '\t')
			case 'b':
				out = append(out, '\b')
			case 'f':
				out = append(out, '\f')
			case '\r':
				if p.Pos < len(p.B) && p.B[p.Pos] == '\n' {
					p.Pos++
				}
			case '\n':
			default:
				if e >= '0' && e <= '7' {
					v := int(e - '0')
					for i := 0; i < 2 && p.Pos < len(p.B) && p.B[p.Pos] >= '0' && p.B[p.Pos] <= '7'; i++ {
						v = v*8 + int(p.B[p.Pos]-'0')
						p.Pos++
					}
					out = append(out, byte(v))
				} else {
					out = append(out, e)
				}
			}
		default:
			out = append(out, c)
		}
	}
}

// ParseObject parses a single object from b, requiring nothing but whitespace after it.
func ParseObject(b []byte) (Obj, error) {
	p := &Parser{B: b}
	o, err := p.Object()
	if err != nil {
		return nil, err
	}
	p.SkipWS()
	if p.Pos != len(b) {
		return nil, fmt.Errorf("trailing data after object at %d: %.40q", p.Pos, b[p.Pos:])
	}
	return o, nil
}
