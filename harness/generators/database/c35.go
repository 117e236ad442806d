package main

import (
	"unicode/utf8"

	"github.com/stampzilla/gozwave/zzverif/sym"
)

// vUnquote is the text denoted by a Go string literal with the contents s, and whether it is one.
func vUnquote(s string) ([]byte, bool) {
	hex := func(c byte) (byte, bool) {
		switch {
		case '0' <= c && c <= '9':
			return c - '0', true
		case 'a' <= c && c <= 'f':
			return c - 'a' + 10, true
		case 'A' <= c && c <= 'F':
			return c - 'A' + 10, true
		}
		return 0, false
	}
	var out []byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '"' || c == '\n' || c == 0 {
			return nil, false
		}
		if c == 0xef && i+2 < len(s) && sym.And(s[i+1] == 0xbb, s[i+2] == 0xbf) {
			return nil, false // a byte order mark
		}
		if c != '\\' {
			out = append(out, c)
			continue
		}
		i++
		if i >= len(s) {
			return nil, false
		}
		switch s[i] {
		case 'a':
			out = append(out, 7)
		case 'b':
			out = append(out, 8)
		case 'f':
			out = append(out, 12)
		case 'n':
			out = append(out, 10)
		case 'r':
			out = append(out, 13)
		case 't':
			out = append(out, 9)
		case 'v':
			out = append(out, 11)
		case '\\':
			out = append(out, '\\')
		case '"':
			out = append(out, '"')
		case 'x':
			if i+2 >= len(s) {
				return nil, false
			}
			h, ok := hex(s[i+1])
			l, ok2 := hex(s[i+2])
			if !ok || !ok2 {
				return nil, false
			}
			out = append(out, h<<4|l)
			i += 2
		case '0', '1', '2', '3', '4', '5', '6', '7':
			if i+2 >= len(s) {
				return nil, false
			}
			v := 0
			for k := 0; k < 3; k++ {
				if s[i+k] < '0' || s[i+k] > '7' {
					return nil, false
				}
				v = v<<3 | int(s[i+k]-'0')
			}
			if v > 255 {
				return nil, false
			}
			out = append(out, byte(v))
			i += 2
		case 'u', 'U':
			n := 4
			if s[i] == 'U' {
				n = 8
			}
			if i+n >= len(s) {
				return nil, false
			}
			v := rune(0)
			for k := 1; k <= n; k++ {
				h, ok := hex(s[i+k])
				if !ok || v > 0x10ffff>>4 {
					return nil, false
				}
				v = v<<4 | rune(h)
			}
			switch {
			case v > 0x10ffff || 0xd800 <= v && v < 0xe000:
				return nil, false
			case v < 0x80:
				out = append(out, byte(v))
			case v < 0x800:
				out = append(out, byte(0xc0|v>>6), byte(0x80|v&63))
			case v < 0x10000:
				out = append(out, byte(0xe0|v>>12), byte(0x80|v>>6&63), byte(0x80|v&63))
			default:
				out = append(out, byte(0xf0|v>>18), byte(0x80|v>>12&63), byte(0x80|v>>6&63), byte(0x80|v&63))
			}
			i += n
		default:
			return nil, false
		}
	}
	return out, true
}

//verif:goal property=C35 reach=plain,escaped timeout=200 thorough.timeout=850 steps=3000000
//verif:doc every text of 0 to 4 (thorough: 5) bytes of UTF-8 without NUL: its escaped form between quotes is one string literal that denotes exactly this text
func VerifC35Escape() {
	n := sym.Choice("length", sym.Bound("length", 4, 5)+1)
	in := sym.Str("text", n)
	for i := 0; i < n; i++ {
		sym.Assume(in[i] != 0)
	}
	sym.Assume(utf8.ValidString(in))
	f, ok := funcMap["escape"].(func(string) string)
	sym.Assert(ok, "the escape function is given to the template")
	s := f(in)
	out, good := vUnquote(s)
	sym.Assert(good, "the escaped text is the contents of one string literal")
	sym.Assert(sym.EqStr(string(out), in), "the escaped text denotes the original")
	if len(s) == n {
		sym.Reach("plain")
	} else {
		sym.Reach("escaped")
	}
}

//verif:goal property=C35 reach=done timeout=200 steps=3000000
//verif:doc every text of 0 to 3 (thorough: 5) bytes: escaping one text does not influence the escaped form of another
func VerifC35Again() {
	n := sym.Choice("length", sym.Bound("length", 3, 5)+1)
	in := sym.Str("text", n)
	f := funcMap["escape"].(func(string) string)
	a := f(in)
	f("\"\\\r\nother")
	sym.Assert(sym.EqStr(f(in), a), "the same text is escaped in the same way")
	sym.Reach("done")
}

//verif:goal property=C35 reach=done timeout=200 steps=3000000
//verif:doc ids of 0 to 4 arbitrary ASCII characters: the id in the lookup key is the id in lower case (as node reports are printed)
func VerifC35Key() {
	n := sym.Choice("length", 5)
	in := sym.Str("id", n)
	want := make([]byte, n)
	for i := 0; i < n; i++ {
		c := in[i]
		sym.Assume(c < 0x80)
		want[i] = sym.IteByte(sym.And('A' <= c, c <= 'Z'), c|0x20, c)
	}
	s := funcMap["lowercase"].(func(string) string)(in)
	sym.Assert(sym.EqStr(s, string(want)), "the key has the id in lower case")
	sym.Reach("done")
}

//verif:goal property=C35 reach=both,one timeout=200 steps=3000000
//verif:doc device references "type:id" with 0 to 4 arbitrary letters and digits on each side: type and id are taken over, also without an id
func VerifC35Ref() {
	part := func(name string) string {
		s := sym.Str(name, sym.Choice(name, 5))
		for i := 0; i < len(s); i++ {
			c := s[i]
			sym.Assume(sym.Or(sym.And('0' <= c, c <= '9'), sym.And('A' <= c, c <= 'F'), sym.And('a' <= c, c <= 'f')))
		}
		return s
	}
	t, id := part("type"), ""
	doc := t
	two := sym.Choice("parts", 2) == 1
	if two {
		id = part("id")
		doc = t + ":" + id
		sym.Reach("both")
	} else {
		sym.Reach("one")
	}
	var ref deviceRef
	sym.Assert(ref.UnmarshalJSON([]byte("\""+doc+"\"")) == nil, "the reference is decoded")
	sym.Assert(sym.EqStr(ref.ProductType, t), "the product type is taken over")
	sym.Assert(sym.EqStr(ref.ProductID, id), "the product id is taken over")
}
