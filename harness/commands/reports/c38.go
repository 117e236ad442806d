package reports

import (
	"strconv"

	"github.com/stampzilla/gozwave/commands"
	"github.com/stampzilla/gozwave/zzverif/sym"
)

func vText(r Report, want string) {
	sym.Assert(sym.EqStr(r.String(), want), "the text of the report shows its values")
}

func vFlag(b bool) string {
	if b {
		return "true"
	}
	return "false"
}

// vByteHex is a byte in hex without leading zeros.
func vByteHex(b byte) string {
	d := func(n byte) byte { return sym.IteByte(n < 10, '0'+n, 'a'+n-10) }
	if b < 16 {
		return string([]byte{d(b)})
	}
	return string([]byte{d(b >> 4), d(b & 15)})
}

// vPercent is the text of a level.
func vPercent(b byte) string {
	if b == 0xfe {
		return "unknown"
	}
	if b > 100 {
		return "100.000000"
	}
	return strconv.Itoa(int(b)) + ".000000"
}

//verif:goal property=C38 reach=v1,v2 timeout=100
//verif:uses c09.go
//verif:doc the text of every binary switch report
func VerifC38Switch() {
	d := sym.Bytes("data", 3)
	if sym.Bool("v2") {
		sym.Reach("v2")
		r, err := New(0x25, 0x03, d)
		sym.Assert(err == nil, "accepted")
		vText(r, "current:"+vFlag(d[0] > 0)+" target:"+vFlag(d[1] > 0)+" duration:"+commands.Duration(d[2]).String())
		return
	}
	sym.Reach("v1")
	r, err := New(0x25, 0x03, d[:1])
	sym.Assert(err == nil, "accepted")
	vText(r, "current:"+vFlag(d[0] == 0xff))
}

//verif:goal property=C38 reach=v1,v4 timeout=200
//verif:uses c09.go
//verif:doc the text of every level report: all current values, all target values, all durations, the others unknown
func VerifC38Level() {
	d := sym.Bytes("data", 3)
	if sym.Bool("v4") {
		sym.Reach("v4")
		some := func(b byte) bool { return b == 0xfe }
		sym.Assume(sym.Or(sym.And(some(d[0]), some(d[1])), sym.Or(sym.And(some(d[1]), some(d[2])), sym.And(some(d[0]), some(d[2])))))
		r, err := New(0x26, 0x03, d)
		sym.Assert(err == nil, "accepted")
		vText(r, "current:"+vPercent(d[0])+" target:"+vPercent(d[1])+" duration:"+commands.Duration(d[2]).String())
		return
	}
	sym.Reach("v1")
	r, err := New(0x26, 0x03, d[:1])
	sym.Assert(err == nil, "accepted")
	vText(r, "current:"+vPercent(d[0]))
}

//verif:goal property=C38 reach=short,long,manufacturer,endpoints,wakeup timeout=100
//verif:uses c09.go
//verif:doc the text of every alarm (2 to 9 bytes), manufacturer, end-point and wake-up report
func VerifC38Others() {
	switch sym.Choice("kind", 4) {
	case 0:
		n := 2 + sym.Choice("n", 8)
		d := sym.Bytes("alarm", n)
		r, err := New(0x71, 0x05, d)
		sym.Assert(err == nil, "accepted")
		if n < 6 {
			sym.Reach("short")
			vText(r, "alarm type:"+vByteHex(d[0])+" level:"+vByteHex(d[1]))
			return
		}
		sym.Reach("long")
		vText(r, "alarm type:"+vByteHex(d[0])+" level:"+vByteHex(d[1])+" sensorSrcID:"+vByteHex(d[2])+" status:"+vByteHex(d[3])+" sensorType:"+vByteHex(d[4])+" event:"+vByteHex(d[5]))
	case 1:
		sym.Reach("manufacturer")
		d := sym.Bytes("manufacturer", 6)
		r, err := New(0x72, 0x05, d)
		sym.Assert(err == nil, "accepted")
		m, t, i := vHex4(d[0], d[1]), vHex4(d[2], d[3]), vHex4(d[4], d[5])
		vText(r, "manufacturerSpecific manufacturer:"+m+" type:"+t+" id:"+i+" ("+m+":"+t+":"+i+")")
	case 2:
		sym.Reach("endpoints")
		d := sym.Bytes("end points", 2)
		r, err := New(0x60, 0x08, d)
		sym.Assert(err == nil, "accepted")
		vText(r, "multiChannelEndpoints dynamic:"+vFlag(d[0] >= 0x80)+" identical:"+vFlag(d[0]&0x40 != 0)+" endpoints:"+strconv.Itoa(int(d[1])))
	default:
		sym.Reach("wakeup")
		r, err := New(0x84, 0x07, nil)
		sym.Assert(err == nil, "accepted")
		vText(r, "wakeup")
	}
}

//verif:goal property=C38 reach=sensor timeout=200
//verif:uses c09.go
//verif:doc the text of sensor reports of one byte, precision 0 or 1, of every type and scale: the value (five values) with six decimals, the type and the unit
func VerifC38Sensor() {
	t, scale, prec, v := sym.Byte("type"), sym.Byte("scale"), byte(sym.Choice("precision", 2)), []byte{0, 215, 127, 255, 128}[sym.Choice("value", 5)]
	sym.Assume(scale < 4)
	r, err := New(0x31, 0x05, []byte{t, prec<<5 | scale<<3 | 1, v})
	sym.Assert(err == nil, "accepted")
	s := r.(*SensorMultiLevel)
	n, text := int(int8(v)), ""
	if n < 0 {
		n, text = -n, "-"
	}
	if prec == 1 {
		text += strconv.Itoa(n/10) + "." + strconv.Itoa(n%10) + "00000"
	} else {
		text += strconv.Itoa(n) + ".000000"
	}
	sym.Reach("sensor")
	vText(r, text+" "+s.TypeString+" "+s.Unit)
}
