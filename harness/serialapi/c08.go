package serialapi

import "github.com/stampzilla/gozwave/zzverif/sym"

func vBitmap(d *DiscoverdNodes, bits []byte) {
	ok := true
	for i := 0; i < 232; i++ {
		want := false
		if i/8 < len(bits) {
			want = bits[i/8]>>(uint(i)%8)&1 == 1
		}
		ok = sym.And(ok, d.ActiveNodes[i] == want)
	}
	sym.Assert(ok, "a node is active exactly if its bit is set")
}

func vInfo(p *FuncGetNodeProtocolInfo, d []byte, specific byte) {
	sym.Assert(p.Listening == (d[0]&0x80 != 0), "listening")
	sym.Assert(p.Routing == (d[0]&0x40 != 0), "routing")
	sym.Assert(p.Version == d[0]&7+1, "version")
	sym.Assert(sym.Iff(p.MaxBaud == 40000, d[0]&0x38 == 0x10), "40000 baud")
	sym.Assert(sym.Or(p.MaxBaud == 40000, p.MaxBaud == 9600), "9600 baud otherwise")
	sym.Assert(p.Flirs == (d[1]&0x60 != 0), "flirs")
	sym.Assert(p.Beaming == (d[1]&0x10 != 0), "beaming")
	sym.Assert(p.Security == (d[1]&0x01 != 0), "security")
	sym.Assert(p.Basic == d[3] && p.Generic == d[4] && p.Specific == specific, "device classes")
}

//verif:goal property=C08 reach=nodes,short timeout=60
//verif:doc NewDiscoverdNodes for every bitmap of 0..29 bytes
func VerifC08Bitmap() {
	n := sym.Choice("n", 30)
	bits := sym.Bytes("bits", n)
	d, err := NewDiscoverdNodes(append([]byte{}, bits...))
	if n < 6 {
		sym.Reach("short")
		sym.Assert(err != nil && d == nil, "a short bitmap is an error")
		return
	}
	sym.Reach("nodes")
	sym.Assert(err == nil && d != nil, "a bitmap of 6..29 bytes is accepted")
	vBitmap(d, bits)
}

//verif:goal property=C08 reach=info,short timeout=60
//verif:doc NewGetNodeProtocolInfo for every payload of 0..12 bytes
func VerifC08Info() {
	n := sym.Choice("n", 13)
	b := sym.Bytes("info", n)
	p, err := NewGetNodeProtocolInfo(append([]byte{}, b...))
	if n < 6 {
		sym.Reach("short")
		sym.Assert(err != nil && p == nil, "a short protocol info is an error")
		return
	}
	sym.Reach("info")
	sym.Assert(err == nil && p != nil, "a complete protocol info is accepted")
	vInfo(p, b, b[5])
}

//verif:goal property=C08 reach=nodes,info,short timeout=100
//verif:uses util.go
//verif:doc the same through Decode: discovery responses with 6..29 bitmap bytes and 0..3 bytes behind it, protocol info responses with 4..9 bytes
func VerifC08Frame() {
	if sym.Choice("kind", 2) == 0 {
		n := 6 + sym.Choice("n", 24)
		k := sym.Choice("trailer", 4)
		bits := sym.Bytes("bits", n)
		body := []byte{0x01, DiscoveryNodes, sym.Byte("version"), sym.Byte("capabilities"), byte(n)}
		body = append(append(body, bits...), sym.Bytes("trailer", k)...)
		_, msg, err := Decode(vFrame(body))
		sym.Assert(err == nil && msg != nil, "the discovery response is accepted")
		if d, ok := msg.Data.(*DiscoverdNodes); ok {
			sym.Reach("nodes")
			vBitmap(d, bits)
		} else {
			sym.Assert(false, "the content is a discovery response")
		}
		return
	}
	n := 4 + sym.Choice("n", 6)
	b := sym.Bytes("info", n)
	_, msg, err := Decode(vFrame(append([]byte{0x01, GetNodeProtocolInfo}, b...)))
	if n < 5 {
		sym.Reach("short")
		sym.Assert(err != nil && msg == nil, "a short protocol info is an error")
		return
	}
	sym.Assert(err == nil && msg != nil, "the protocol info is accepted")
	p, ok := msg.Data.(*FuncGetNodeProtocolInfo)
	sym.Assert(ok, "the content is a protocol info")
	sym.Reach("info")
	specific := byte(0) // a response without specific device class, as in the repository's test
	if n > 5 {
		specific = b[5]
	}
	vInfo(p, b, specific)
}
