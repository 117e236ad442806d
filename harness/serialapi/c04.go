package serialapi

import "github.com/stampzilla/gozwave/zzverif/sym"

//verif:goal property=C04 reach=short,long timeout=200
//verif:uses util.go
//verif:doc CompileMessage for every payload of each length 0..252: layout, checksum, payload unchanged, decodable (content decoding only up to 8 bytes)
func VerifC04Compile() {
	n := sym.Choice("n", 253)
	p := sym.Bytes("payload", n)
	if n > 8 {
		vUncommon(p[0])
		sym.Reach("long")
	} else {
		sym.Reach("short")
	}
	spare := append(append(make([]byte, 0, n+4), p...), 0xaa, 0xbb)[:n]
	f := CompileMessage(spare)
	sym.Assert(len(f) == n+4, "frame length")
	sym.Assert(f[0] == 0x01, "the frame starts with SOF")
	sym.Assert(f[1] == byte(n+2), "the length byte is the payload length plus two")
	sym.Assert(f[2] == 0x00, "the frame is a request")
	sym.Assert(sym.EqBytes(f[3:3+n], p), "the payload is carried unchanged")
	x := byte(0xff)
	for _, b := range f[1 : n+3] {
		x ^= b
	}
	sym.Assert(f[n+3] == x, "the last byte is the checksum")
	sym.Assert(sym.EqBytes(spare[:n+2], append(append([]byte{}, p...), 0xaa, 0xbb)), "the caller's payload or what lies behind it was changed")
	l, _, _ := Decode(f)
	sym.Assert(l == len(f), "the decoder accepts the frame and consumes all of it")
}
