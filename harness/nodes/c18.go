package nodes

import (
	"strings"
	"time"

	"github.com/stampzilla/gozwave/commands"
	"github.com/stampzilla/gozwave/commands/reports"
	"github.com/stampzilla/gozwave/zzverif/sym"
)

// vState is a copy of the observable state of a node.
type vState struct {
	b map[string]bool
	f map[string]float64
}

func vCopy(n *Node) *vState {
	sym.FixMapOrder(true) // of the harness's own loops
	defer sym.FixMapOrder(false)
	s := &vState{b: map[string]bool{}, f: map[string]float64{}}
	n.RLock()
	defer n.RUnlock()
	for k, v := range n.StateBool {
		s.b[k] = v
	}
	for k, v := range n.StateFloat {
		s.f[k] = v
	}
	return s
}

func (s *vState) same(n *Node) bool {
	sym.FixMapOrder(true)
	defer sym.FixMapOrder(false)
	n.RLock()
	defer n.RUnlock()
	if len(s.b) != len(n.StateBool) || len(s.f) != len(n.StateFloat) {
		return false
	}
	r := true
	for k, v := range s.b {
		x, ok := n.StateBool[k]
		r = sym.And(r, ok, x == v)
	}
	for k, v := range s.f {
		x, ok := n.StateFloat[k]
		r = sym.And(r, ok, sym.SameF64(x, v))
	}
	return r
}

// vAnyReport makes a report of any kind with arbitrary content (nil: not decodable).
func vAnyReport(kinds int) reports.Report {
	var r reports.Report
	var err error
	switch sym.Choice("report", kinds) {
	case 0:
		r, err = reports.New(0x25, 0x03, sym.Bytes("data", 1))
	case 1:
		r, err = reports.New(0x25, 0x03, sym.Bytes("data", 3))
	case 2:
		r, err = reports.New(0x26, 0x03, sym.Bytes("data", 1))
	case 3:
		r, err = reports.New(0x26, 0x03, sym.Bytes("data", 3))
	case 4:
		r, err = reports.New(0x71, 0x05, sym.Bytes("data", 6))
	case 5:
		r, err = reports.New(0x71, 0x05, sym.Bytes("data", 2))
	case 6:
		r, err = reports.New(0x84, 0x07, nil)
	case 7:
		r, err = reports.New(0x72, 0x05, []byte{0, 1, 0, 2, 0, 3})
	case 8:
		r, err = reports.New(0x60, 0x08, []byte{0, 2})
	case 9:
		return nil
	case 10:
		d := sym.Bytes("data", 4)
		d[1] = d[1]&0x18 | 0x22 // precision 1, two bytes
		r, err = reports.New(0x31, 0x05, d)
	case 11:
		return &reports.SensorMultiLevel{ValueType: reports.ZWaveSensorType(sym.Byte("type")), Size: sym.Byte("size"), Scale: sym.Byte("scale"), Precision: sym.Byte("precision"),
			Value: sym.F64("value"), TypeString: []string{"", "Temperature", "CO2"}[sym.Choice("type name", 3)], Unit: []string{"", "C", "m3/h"}[sym.Choice("unit", 3)]}
	case 12:
		return &reports.Alarm{Type: sym.Byte("type"), Level: sym.Byte("level"), SensorSourceID: sym.Byte("source"), SensorType: sym.Byte("sensor"), Event: sym.Byte("event"), Status: sym.Byte("status")}
	case 13:
		return &reports.SwitchMultilevelV4{CurrentValue: sym.F64("current"), TargetValue: sym.F64("target"), Duration: commands.Duration(sym.Byte("duration")), Valid: sym.Bool("valid"), TargetValid: sym.Bool("target valid")}
	}
	sym.Assert(err == nil && r != nil, "the report is decoded")
	return r
}

// apply gives the state a report leads to and the number of announced changes.
func (s *vState) apply(n *Node, r reports.Report) (changes int, active bool) {
	switch x := r.(type) {
	case *reports.SwitchBinaryV1:
		s.b["on"] = x.CurrentValue
		return 1, false
	case *reports.SwitchBinaryV2:
		s.b["on"] = x.CurrentValue
		return 1, false
	case *reports.SwitchMultilevelV1:
		s.b["on"] = x.CurrentValue > 0
		s.f["level"] = x.CurrentValue
		return 1, false
	case *reports.SwitchMultilevelV4:
		s.b["on"] = x.CurrentValue > 0
		s.f["level"] = x.CurrentValue
		return 1, false
	case *reports.SensorMultiLevel:
		s.f[strings.ToLower(x.TypeString+"_"+x.Unit)] = x.Value
		return 1, false
	case *reports.Alarm:
		if x.Status != 0xff {
			return 0, false
		}
		s.b["alarm"] = true
		if x.Type != 0 {
			s.f["alarm"], s.f["alarmLastType"] = float64(x.Type), float64(x.Type)
		}
		return 1, true
	}
	return 0, false
}

//verif:goal property=C18 reach=changed,unchanged,alarm timed=1 timeout=200 thorough.timeout=800 steps=2000000
//verif:uses util.go
//verif:doc any report with arbitrary content (sensor reports: every type, scale and value of two bytes; sensor, alarm and level reports also as any value of their types) on a node with arbitrary previous state; the alarm is cleared after one second
func VerifC18Report() {
	id := sym.Int("node", 1, 232)
	n, _, ev := vNode(id)
	if sym.Bool("previous state") {
		n.StateBool["on"], n.StateBool["alarm"], n.StateBool["other"] = sym.Bool("on"), sym.Bool("alarm"), sym.Bool("other")
		n.StateFloat["level"], n.StateFloat["alarm"], n.StateFloat["other"] = sym.F64("level"), sym.F64("alarm type"), sym.F64("other value")
		n.StateFloat["temperature_c"] = sym.F64("temperature")
	}
	want := vCopy(n)
	r := vAnyReport(14)
	changes, active := want.apply(n, r)
	go n.ProcessEvent(r)
	sym.Settle()
	sym.Assert(n.GetID() == id, "the node is not left locked")
	sym.Assert(want.same(n), "the state is what the report says, nothing else changed")
	sym.Assert(len(ev.updated) == changes && ev.other == 0, "every change is announced once")
	if changes > 0 {
		sym.Reach("changed")
		sym.Assert(ev.updated[0] == id, "the event carries the id of the node")
	} else {
		sym.Reach("unchanged")
	}
	time.Sleep(990 * time.Millisecond)
	sym.Assert(want.same(n), "the alarm is kept for a second")
	time.Sleep(20 * time.Millisecond)
	if active {
		sym.Reach("alarm")
		want.b["alarm"], want.f["alarm"] = false, 0
		sym.Assert(len(ev.updated) == 2 && ev.updated[1] == id, "the end of the alarm is announced")
	} else {
		sym.Assert(len(ev.updated) == changes, "nothing else is announced")
	}
	sym.Assert(want.same(n), "the alarm is cleared after a second, nothing else changed")
	sym.Assert(n.GetID() == id, "the node is not left locked")
}

//verif:goal property=C18 reach=end timed=1 timeout=200 thorough.timeout=800 steps=2000000
//verif:uses util.go
//verif:doc sequences of 3 (thorough 4) switch, level, alarm and wake-up reports, the last report of each kind counts
func VerifC18Sequence() {
	n, _, ev := vNode(5)
	want := vCopy(n)
	total := 0
	alarm := false
	for i := 0; i < sym.Bound("reports", 3, 4); i++ {
		r := vAnyReport(7)
		c, a := want.apply(n, r)
		total += c
		alarm = alarm || a
		if a {
			total++
		}
		n.ProcessEvent(r)
		if sym.Bool("pause") {
			time.Sleep(1500 * time.Millisecond)
			if alarm {
				want.b["alarm"], want.f["alarm"] = false, 0
				alarm = false
			}
		}
	}
	sym.Assert(want.same(n), "the state is what the reports say")
	time.Sleep(1500 * time.Millisecond)
	if alarm {
		want.b["alarm"], want.f["alarm"] = false, 0
	}
	sym.Reach("end")
	sym.Assert(want.same(n), "alarms end, all else stays")
	sym.Assert(len(ev.updated) == total, "every change is announced exactly once")
}

//verif:goal property=C18 reach=end timed=1 timeout=200 delays=3 thorough.delays=5 thorough.timeout=800 steps=2000000
//verif:uses util.go
//verif:doc two reports and one active alarm processed at the same time by several goroutines, for every schedule within the delay bound: no lost update or event, no unsynchronised access
func VerifC18Concurrent() {
	n, _, ev := vNode(5)
	on := sym.Bool("on")
	v := sym.Bytes("value", 1)
	bin, _ := reports.New(0x25, 0x03, []byte{sym.IteByte(on, 0xff, 0)})
	lev, _ := reports.New(0x31, 0x05, []byte{1, 0x01, v[0]})
	alarm, _ := reports.New(0x71, 0x05, []byte{7, 0, 0, 0xff, 1, 2})
	go n.ProcessEvent(bin)
	go n.ProcessEvent(lev)
	go n.ProcessEvent(alarm)
	time.Sleep(500 * time.Millisecond)
	want := &vState{b: map[string]bool{}, f: map[string]float64{}}
	want.apply(n, bin)
	want.apply(n, lev)
	want.apply(n, alarm)
	sym.Assert(want.same(n), "all three reports take effect")
	sym.Assert(len(ev.updated) == 3, "all three are announced")
	time.Sleep(time.Second)
	sym.Reach("end")
	sym.Assert(len(ev.updated) == 4, "the end of the alarm is announced")
	want.b["alarm"], want.f["alarm"] = false, 0
	sym.Assert(want.same(n), "only the alarm is cleared")
}
