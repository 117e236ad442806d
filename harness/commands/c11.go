package commands

import "github.com/stampzilla/gozwave/zzverif/sym"

//verif:goal property=C11 reach=binary,zero,middle,top timeout=200
//verif:doc binary set for every node and value; multilevel set for every node and every float64 (NaN and infinities included)
func VerifC11Switch() {
	node := sym.Byte("node")
	if sym.Choice("kind", 2) == 0 {
		v := sym.Bool("on")
		b := NewSwitchBinary().SetNode(int(node)).SetValue(v).Encode()
		sym.Reach("binary")
		sym.Assert(sym.EqBytes(b, []byte{0x13, node, 0x03, 0x25, 0x01, sym.IteByte(v, 0xff, 0), 0x25}), "layout and value of a binary switch set")
		return
	}
	v := sym.F64("level")
	b := NewSwitchMultilevel().SetNode(int(node)).SetValue(v).Encode()
	sym.Assert(len(b) == 7, "length of a multilevel set")
	l := b[5]
	sym.Assert(sym.EqBytes(b, []byte{0x13, node, 0x03, 0x26, 0x01, l, 0x25}), "layout of a multilevel switch set")
	sym.Assert(l <= 99, "the level is within 0..99")
	switch {
	case !(v >= 1): // also not a number
		sym.Reach("zero")
		sym.Assert(l == 0, "anything below one is level 0")
	case v > 99:
		sym.Reach("top")
		sym.Assert(l == 99, "anything above 99 is level 99")
	default:
		sym.Reach("middle")
		sym.Assert(float64(l) <= v && v < float64(l)+1, "the level is the integer part")
	}
}

//verif:goal property=C11 timeout=60
//verif:doc the last value set before Encode counts, and encoding twice gives the same bytes
func VerifC11Again() {
	n1, n2 := sym.Byte("node1"), sym.Byte("node2")
	c := NewSwitchBinary().SetNode(int(n1)).SetValue(sym.Bool("first"))
	on := sym.Bool("on")
	c.SetValue(on).SetNode(int(n2))
	b := c.Encode()
	sym.Assert(b[1] == n2 && b[5] == sym.IteByte(on, 0xff, 0), "the last node and value count")
	b[1], b[5] = 7, 7
	b2 := c.Encode()
	sym.Assert(b2[1] == n2 && b2[5] == sym.IteByte(on, 0xff, 0), "encoding again gives the same bytes")
	m := NewSwitchMultilevel().SetNode(int(n1)).SetValue(50)
	m.SetNode(int(n2)).SetValue(float64(sym.Int("v", 1, 99)))
	x := m.Encode()
	want := append([]byte{}, x...)
	x[1], x[5] = 7, 7
	sym.Assert(sym.EqBytes(m.Encode(), want), "encoding again gives the same bytes")
}

//verif:goal property=C11 reach=raw timeout=60
//verif:doc raw commands for every node and every payload of 0..40, 47, 48, 63, 64, 127, 128, 200, 250 (thorough every length to 254) bytes
func VerifC11Raw() {
	n := sym.Choice("n", sym.Bound("lengths", 49, 255))
	if k := sym.Bound("lengths", 49, 255); k == 49 && n > 40 {
		n = []int{47, 48, 63, 64, 127, 128, 200, 250}[n-41]
	}
	p := sym.Bytes("payload", n)
	in := append([]byte{}, p...)
	node := sym.Byte("node")
	r := NewRaw(in)
	r.SetNode(int(node))
	b := r.Encode()
	sym.Reach("raw")
	sym.Assert(sym.EqBytes(b, append([]byte{0x13, node, byte(n + 1)}, p...)), "a raw command carries node, length plus one and payload")
	sym.Assert(sym.EqBytes(in, p), "the payload is not changed")
}
