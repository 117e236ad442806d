package reports

import (
	"github.com/stampzilla/gozwave/commands"
	"github.com/stampzilla/gozwave/zzverif/sym"
)

func vHex4(hi, lo byte) string {
	d := func(n byte) byte { return sym.IteByte(n < 10, '0'+n, 'a'+n-10) }
	return string([]byte{d(hi >> 4), d(hi & 15), d(lo >> 4), d(lo & 15)})
}

// vLevel is the level of a byte: at most 100.
func vLevel(v float64, b byte) bool { return v == float64(sym.IteByte(b > 100, 100, b)) }

//verif:goal property=C09 reach=alarm,alarmlong,manufacturer,endpoints,sensor,binary1,binary2,multilevel1,multilevel4,wakeup,error timeout=100
//verif:doc New for every command class, command and payload of 0..12 bytes: kind, fields, and error for everything else (the sensor fields are C10)
func VerifC09New() {
	c, class := sym.Byte("class"), sym.Byte("command")
	n := sym.Choice("n", 13)
	d := sym.Bytes("data", n)
	in := append([]byte{}, d...)
	r, err := New(commands.ZWaveCommand(c), class, in)
	sym.Assert(sym.EqBytes(in, d), "decoding changed the payload")

	known := false
	switch c {
	case 0x71: // alarm
		known = class == 0x05 && n >= 2
	case 0x72: // manufacturer specific
		known = class == 0x05 && n == 6
	case 0x60: // multi channel
		known = class == 0x08 && n >= 2
	case 0x31: // sensor
		known = class == 0x05 && n >= 2 && n >= 2+int(d[1]&7)
	case 0x25, 0x26: // switches
		known = class == 0x03 && (n == 1 || n == 3)
	case 0x84: // wake up
		known = true
	}
	if !known {
		sym.Reach("error")
		sym.Assert(err != nil, "an unknown command or a wrong length is an error")
		return
	}
	sym.Assert(err == nil, "a known report is accepted")
	if err != nil {
		return
	}
	switch c {
	case 0x71:
		x, ok := r.(*Alarm)
		sym.Assert(ok && x != nil, "an alarm report")
		sym.Assert(x.Type == d[0] && x.Level == d[1], "alarm type and level")
		if n >= 6 {
			sym.Reach("alarmlong")
			sym.Assert(x.SensorSourceID == d[2] && x.Status == d[3] && x.SensorType == d[4] && x.Event == d[5], "long alarm fields")
		} else {
			sym.Reach("alarm")
			sym.Assert(x.SensorSourceID == 0 && x.Status == 0 && x.SensorType == 0 && x.Event == 0, "a short alarm has no further fields")
		}
	case 0x72:
		x, ok := r.(*ManufacturerSpecific)
		sym.Assert(ok && x != nil, "a manufacturer specific report")
		sym.Reach("manufacturer")
		sym.Assert(sym.EqStr(x.Manufacturer, vHex4(d[0], d[1])), "manufacturer id as four lower-case hex digits")
		sym.Assert(sym.EqStr(x.Type, vHex4(d[2], d[3])), "product type as four lower-case hex digits")
		sym.Assert(sym.EqStr(x.ID, vHex4(d[4], d[5])), "product id as four lower-case hex digits")
	case 0x60:
		x, ok := r.(*MultiChannelEndpoints)
		sym.Assert(ok && x != nil, "a multi channel end point report")
		sym.Reach("endpoints")
		sym.Assert(x.Dynamic == (d[0] >= 0x80) && x.Identical == (d[0]&0x40 != 0), "end point flags")
		sym.Assert(x.Endpoints == int(d[1]), "number of end points")
	case 0x31:
		x, ok := r.(*SensorMultiLevel)
		sym.Assert(ok && x != nil, "a multilevel sensor report")
		sym.Reach("sensor")
	case 0x25:
		if n == 1 {
			x, ok := r.(*SwitchBinaryV1)
			sym.Assert(ok && x != nil, "a binary switch report v1")
			sym.Reach("binary1")
			sym.Assert(x.CurrentValue == (d[0] == 0xff) && x.Valid == (d[0] != 0xfe), "binary switch v1 fields")
		} else {
			x, ok := r.(*SwitchBinaryV2)
			sym.Assert(ok && x != nil, "a binary switch report v2")
			sym.Reach("binary2")
			sym.Assert(x.CurrentValue == (d[0] != 0) && x.TargetValue == (d[1] != 0) && byte(x.Duration) == d[2], "binary switch v2 fields")
		}
	case 0x26:
		if n == 1 {
			x, ok := r.(*SwitchMultilevelV1)
			sym.Assert(ok && x != nil, "a multilevel switch report v1")
			sym.Reach("multilevel1")
			sym.Assert(vLevel(x.CurrentValue, d[0]) && x.Valid == (d[0] != 0xfe), "multilevel switch v1 fields")
		} else {
			x, ok := r.(*SwitchMultilevelV4)
			sym.Assert(ok && x != nil, "a multilevel switch report v4")
			sym.Reach("multilevel4")
			sym.Assert(vLevel(x.CurrentValue, d[0]) && x.Valid == (d[0] != 0xfe), "multilevel switch v4 current value")
			sym.Assert(vLevel(x.TargetValue, d[1]) && x.TargetValid == (d[1] != 0xfe) && byte(x.Duration) == d[2], "multilevel switch v4 target value and duration")
		}
	case 0x84:
		x, ok := r.(*WakeUp)
		sym.Assert(ok && x != nil, "a wake up report")
		sym.Reach("wakeup")
	}
	r.SetNode(sym.Byte("node"))
}

//verif:goal property=C09 reach=ok,error timeout=60
//verif:doc each constructor by itself, for every payload of 0..12 bytes, gives a report exactly for the lengths of its kind
func VerifC09Constructors() {
	n := sym.Choice("n", 13)
	d := sym.Bytes("data", n)
	var err error
	var usable, ok bool
	switch sym.Choice("kind", 8) {
	case 0:
		r, e := NewAlarm(d)
		err, usable, ok = e, r != nil, n >= 2
	case 1:
		r, e := NewManufacturerSpecific(d)
		err, usable, ok = e, r != nil, n == 6
	case 2:
		r, e := NewMultiChannelEndpoints(d)
		err, usable, ok = e, r != nil, n >= 2
	case 3:
		r, e := NewSwitchBinaryV1(d)
		err, usable, ok = e, r != nil, n == 1
	case 4:
		r, e := NewSwitchBinaryV2(d)
		err, usable, ok = e, r != nil, n == 3
	case 5:
		r, e := NewSwitchMultilevelV1(d)
		err, usable, ok = e, r != nil, n == 1
	case 6:
		r, e := NewSwitchMultilevelV4(d)
		err, usable, ok = e, r != nil, n == 3
	case 7:
		r, e := NewWakeUp()
		err, usable, ok = e, r != nil, true
	}
	if ok {
		sym.Reach("ok")
		sym.Assert(err == nil && usable, "a payload of the right length is accepted")
	} else {
		sym.Reach("error")
		sym.Assert(err != nil, "a payload of a wrong length is an error")
	}
}
