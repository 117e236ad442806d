package serialapi

import (
	"github.com/stampzilla/gozwave/commands"
	"github.com/stampzilla/gozwave/zzverif/sym"
)

//verif:uses util.go
//verif:goal property=C01 reach=frame,control,noise,decoded,more timeout=200 thorough.timeout=800
//verif:doc Decode of every buffer of 1..12 (thorough 16) arbitrary bytes returns normally
func VerifC01Decode() {
	n := 1 + sym.Choice("n", sym.Bound("bytes", 12, 16))
	data := sym.Bytes("data", n)
	vC01(data)
}

//verif:uses util.go
//verif:goal property=C01 reach=frame,control,noise,decoded,more timeout=200 thorough.timeout=800
//verif:doc Decode of every buffer of 13..26 (thorough 40) bytes that carries no multilevel sensor command returns normally
func VerifC01Longer() {
	n := 13 + sym.Choice("n", sym.Bound("bytes", 14, 28))
	data := sym.Bytes("data", n)
	sym.Assume(data[7] != commands.SensorMultiLevel)
	vC01(data)
}

//verif:uses util.go
//verif:goal property=C01 reach=frame,decoded timeout=200
//verif:doc Decode of every maximal frame (declared length 255, with 0 or 3 bytes following) carrying an application command or discovery response, any sub-length, returns normally
func VerifC01Maximal() {
	n := 257 + 3*sym.Choice("following", 2)
	data := sym.Bytes("data", n)
	sym.Assume(data[0] == 0x01 && data[1] == 255)
	sym.Assume(sym.Or(data[3] == ApplicationCommandHandler, data[3] == DiscoveryNodes))
	sym.Assume(data[7] != commands.SensorMultiLevel)
	vC01(data)
}

func vC01(data []byte) {
	n := len(data)
	l, msg, err := Decode(data)
	if data[0] == 0x01 && l > 0 && l <= n {
		sym.Reach("frame")
		if err == nil && msg != nil {
			sym.Reach("decoded")
		}
		sym.Assert((err == nil) == (msg != nil), "a complete frame gives either a message or an error")
	}
	if l > n {
		sym.Reach("more")
	}
	if l == 1 {
		sym.Reach("control")
		sym.Assert(msg != nil, "a control byte gives a message")
	}
	if l == -1 && data[0] != 0x01 {
		sym.Reach("noise")
	}
}

//verif:uses util.go
//verif:goal property=C01 reach=message,error timeout=100
//verif:doc NewMessage of every 1..12 bytes beginning with a start byte returns normally
func VerifC01NewMessage() {
	n := 1 + sym.Choice("n", sym.Bound("bytes", 12, 16))
	data := sym.Bytes("data", n)
	sym.Assume(sym.Or(data[0] == 0x01, data[0] == 0x06, data[0] == 0x15, data[0] == 0x18))
	msg, err := NewMessage(data)
	if err != nil {
		sym.Reach("error")
	} else {
		sym.Reach("message")
		sym.Assert(msg != nil, "neither a message nor an error")
	}
}

//verif:uses util.go
//verif:goal property=C01 reach=report,error timeout=200
//verif:doc the payload decoders NewApplicationCommandHandler (0..12 bytes), NewDiscoverdNodes (0..40) and NewGetNodeProtocolInfo (0..12) return normally
func VerifC01Payload() {
	switch sym.Choice("kind", 3) {
	case 0:
		d := sym.Bytes("data", sym.Choice("n", 13))
		f, err := NewApplicationCommandHandler(d)
		if err != nil {
			sym.Reach("error")
		} else {
			sym.Reach("report")
			sym.Assert(f != nil && f.Report != nil, "no error but no report")
		}
	case 1:
		d := sym.Bytes("data", sym.Choice("n", 41))
		f, err := NewDiscoverdNodes(d)
		sym.Assert((err == nil) == (f != nil), "either nodes or an error")
	case 2:
		d := sym.Bytes("data", sym.Choice("n", 13))
		f, err := NewGetNodeProtocolInfo(d)
		sym.Assert((err == nil) == (f != nil), "either info or an error")
	}
}
