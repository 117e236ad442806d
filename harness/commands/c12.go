package commands

import "github.com/stampzilla/gozwave/zzverif/sym"

//verif:goal property=C12 reach=encap timeout=60
//verif:doc encapsulation of every command of 3..40 (thorough 200) bytes for every endpoint 0..255
func VerifC12Encap() {
	n := 3 + sym.Choice("n", sym.Bound("lengths", 38, 198))
	m := sym.Bytes("command", n)
	ep := sym.Byte("endpoint")
	in := append(append(make([]byte, 0, n+8), m...), 1, 2, 3, 4)[:n]
	c := NewMultiChannelEncap(in, int(ep))
	b := c.Encode()
	sym.Reach("encap")
	want := append([]byte{m[0], m[1], m[2] + 4, 0x60, 0x0d, 0x01, ep}, m[3:]...)
	sym.Assert(sym.EqBytes(b, want), "the command is wrapped for the endpoint with nothing lost")
	sym.Assert(sym.EqBytes(in[:n+4], append(append([]byte{}, m...), 1, 2, 3, 4)), "the wrapped command is not changed")
	for i := range b {
		b[i] = 0xee
	}
	sym.Assert(sym.EqBytes(in, m), "the result does not share memory with the wrapped command")
	sym.Assert(sym.EqBytes(c.Encode(), want), "encoding again gives the same bytes")
}

//verif:goal property=C12 reach=encap timeout=60
//verif:doc encapsulated binary and multilevel sets: the set command arrives whole inside the encapsulation
func VerifC12Switch() {
	node, ep := sym.Byte("node"), sym.Byte("endpoint")
	var cmd []byte
	if sym.Choice("kind", 2) == 0 {
		cmd = NewSwitchBinary().SetNode(int(node)).SetValue(sym.Bool("on")).Encode()
	} else {
		cmd = NewSwitchMultilevel().SetNode(int(node)).SetValue(float64(sym.Byte("level"))).Encode()
	}
	b := NewMultiChannelEncap(cmd, int(ep)).Encode()
	sym.Reach("encap")
	sym.Assert(b[1] == node && b[6] == ep, "node and endpoint")
	sym.Assert(int(b[2]) == 4+3 && len(b) == 3+int(b[2])+1, "the declared length covers the encapsulation header and the command")
	sym.Assert(sym.EqBytes(b[7:10], cmd[3:6]), "the command inside")
	sym.Assert(b[10] == cmd[6], "the transmit options stay behind the command")
}
