package serialapi

import (
	"github.com/stampzilla/gozwave/commands"
	"github.com/stampzilla/gozwave/zzverif/sym"
)

//verif:goal property=C03 reach=valid,invalid,control timeout=200
//verif:uses util.go
//verif:doc every byte of the caller's buffer (1..11, thorough 14, arbitrary bytes; also the spare capacity behind it) is unchanged by Decode
func VerifC03Unchanged() {
	n := 1 + sym.Choice("n", sym.Bound("bytes", 11, 14))
	all := sym.Bytes("data", n+2)
	before := append([]byte{}, all...)
	l, _, err := Decode(all[:n])
	if l > 1 && l <= n {
		sym.Reach("valid")
	}
	if l == -1 && err != nil {
		sym.Reach("invalid")
	}
	if l == 1 {
		sym.Reach("control")
	}
	sym.Assert(sym.EqBytes(all, before), "decoding changed the caller's buffer")
}

//verif:goal property=C03 reach=frame,message timeout=240 thorough.timeout=800
//verif:uses util.go
//verif:doc the outcome for a complete frame of up to 16 (thorough 20) bytes is the same with 1..12 arbitrary bytes following it in the buffer
func VerifC03Following() {
	m := sym.Choice("body", sym.Bound("bodies", 14, 18))
	k := []int{1, 2, 7, 12}[sym.Choice("following", 4)]
	body := sym.Bytes("frame", m)
	if m > 9 {
		sym.Assume(body[5] != commands.SensorMultiLevel) // the sensor decoder is covered by the shorter frames
	}
	frame := vFrame(body)
	more := append(append([]byte{}, frame...), sym.Bytes("more", k)...)
	vC03Same(frame, more)
}

func vC03Same(frame, more []byte) {
	l1, m1, e1 := Decode(frame)
	l2, m2, e2 := Decode(more)
	sym.Reach("frame")
	sym.Assert(l1 == l2, "bytes after the frame change the consumed length")
	sym.Assert((e1 == nil) == (e2 == nil), "bytes after the frame change the error outcome")
	sym.Assert((m1 == nil) == (m2 == nil), "bytes after the frame change whether there is a message")
	if m1 != nil && m2 != nil {
		sym.Reach("message")
		sym.Assert(sym.And(m1.Length == m2.Length, m1.MessageType == m2.MessageType, m1.Function == m2.Function, m1.NodeID == m2.NodeID, m1.startByte == m2.startByte), "bytes after the frame change the message header")
		sym.Assert(vSameData(m1.Data, m2.Data), "bytes after the frame change the message content")
		if m1.startByte != 0x01 {
			sym.Reach("control")
		}
	}
}

//verif:goal property=C03 reach=control timeout=60
//verif:uses util.go
//verif:doc the outcome for ACK, NAK and CAN is the same with 1..12 arbitrary bytes following
func VerifC03Control() {
	c := []byte{[]byte{0x06, 0x15, 0x18}[sym.Choice("control", 3)]}
	k := 1 + sym.Choice("following", 12)
	vC03Same(c, append(append([]byte{}, c...), sym.Bytes("more", k)...))
}
