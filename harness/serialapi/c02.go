package serialapi

import "github.com/stampzilla/gozwave/zzverif/sym"

// vC02 states the framing rules for one buffer.
func vC02(data []byte) {
	n := len(data)
	l, msg, err := Decode(data)
	switch data[0] {
	case 0x01:
		if n < 2 {
			sym.Assert(l > n && msg == nil && err == nil, "a lone SOF asks for more data")
			return
		}
		L := sym.Concrete(int(data[1]))
		if n < L+2 {
			sym.Reach("more")
			sym.Assert(l == L+2 && msg == nil && err == nil, "an incomplete frame asks for exactly the declared number of bytes")
			return
		}
		want := byte(0xff)
		for i := 1; i <= L; i++ {
			want ^= data[i]
		}
		if L > 0 && data[L+1] == want {
			sym.Reach("valid")
			sym.Assert(l == L+2, "a frame with the right checksum consumes exactly its length plus two bytes")
			if msg != nil {
				sym.Assert(!msg.IsACK() && !msg.IsNAK() && !msg.IsCAN(), "a data frame is not a control byte")
			}
		} else if L > 0 {
			sym.Reach("invalid")
			sym.Assert(l == -1 && msg == nil && err != nil, "a frame with a wrong checksum is reported as invalid")
		} else {
			sym.Assert(l == -1 || l == 2, "an empty frame consumes nothing but itself")
		}
	case 0x06, 0x15, 0x18:
		sym.Reach("control")
		sym.Assert(l == 1 && err == nil && msg != nil, "a control byte consumes one byte")
		if msg != nil {
			sym.Assert(msg.IsACK() == (data[0] == 0x06) && msg.IsNAK() == (data[0] == 0x15) && msg.IsCAN() == (data[0] == 0x18), "a control byte is classified as what it is")
		}
	default:
		sym.Reach("noise")
		sym.Assert(l == -1 && msg == nil, "any other byte is not a frame")
	}
}

//verif:uses util.go
//verif:goal property=C02 reach=more,valid,invalid,control,noise timeout=200
//verif:doc framing of every buffer of 1..11 (thorough 16) bytes with any content
func VerifC02Content() {
	n := 1 + sym.Choice("n", sym.Bound("bytes", 11, 16))
	vC02(sym.Bytes("data", n))
}

//verif:goal property=C02 reach=more,valid,invalid timeout=240 thorough.timeout=850
//verif:doc framing for every declared length 0..255 with 3 (thorough 20) buffer lengths between 12 and 260, functions without decoded content
func VerifC02Length() {
	ns := []int{13, 129, 260, 40, 257, 12, 20, 33, 64, 65, 100, 127, 128, 130, 131, 200, 254, 255, 256, 258}
	n := ns[sym.Choice("n", sym.Bound("buffer lengths", 3, len(ns)))]
	data := sym.Bytes("data", n)
	sym.Assume(data[0] == 0x01)
	vUncommon(data[3])
	vC02(data)
}
