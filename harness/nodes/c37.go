package nodes

import (
	"github.com/stampzilla/gozwave/commands"
	"github.com/stampzilla/gozwave/commands/reports"
	"github.com/stampzilla/gozwave/database"
	"github.com/stampzilla/gozwave/serialapi"
	"github.com/stampzilla/gozwave/zzverif/sym"
)

// vAsk checks that exactly one request was written: the send-data of these bytes to the node.
func vAsk(sent [][]byte, id int, body ...byte) {
	sym.Assert(len(sent) == 1, "one request is written")
	want := append([]byte{0x13, byte(id), byte(len(body) + 1)}, body...)
	sym.Assert(len(sent[0]) == len(want), "the request has its length")
	sym.Assert(sym.EqBytes(sent[0], want), "the request names the node, the class and the command")
}

// vOther makes a report that does not answer the request for class, or none.
func vOther(class byte) reports.Report {
	var r reports.Report
	switch sym.Choice("other reply", 6) {
	case 0:
		if class != 0x25 {
			r, _ = reports.New(0x25, 0x03, sym.Bytes("switch", 1))
		}
	case 1:
		r, _ = reports.New(0x84, 0x07, nil)
	case 2:
		if class != 0x60 {
			r, _ = reports.New(0x60, 0x08, sym.Bytes("end points", 2))
		}
	case 3:
		if class != 0x72 {
			r, _ = reports.New(0x72, 0x05, sym.Bytes("manufacturer", 6))
		}
	case 4:
		r, _ = reports.New(0x26, 0x03, sym.Bytes("level", 1))
	}
	return r
}

//verif:goal property=C37 reach=binary,multilevel,sensor,nothing timeout=200 timed=1
//verif:uses util.go
//verif:doc the states of any node with 0 to 3 (thorough: 4) arbitrary command classes are requested, a sensor answers or not: the requests written, their order and their bytes
func VerifC37States() {
	sym.FixMapOrder(true)
	id := int(sym.Byte("node"))
	n, w, _ := vNode(id)
	cc := vClasses(sym.Bound("classes", 3, 4))
	vLocked(n, func() { n.CommandClasses = cc })
	answers := sym.Bool("the sensor answers")
	w.report = func(b []byte, expected byte) reports.Report {
		sym.Assert(b[3] == 0x31 && expected == 0x02, "only the sensors wait, for the supported sensors")
		if !answers {
			return nil
		}
		return vOther(0x31)
	}
	sym.Assert(n.RequestStates() == nil, "requesting the states succeeds")
	i := 0
	for _, c := range cc {
		cmd := byte(0x02)
		switch c.ID {
		case commands.SwitchBinary:
			sym.Reach("binary")
		case commands.SwitchMultilevel:
			sym.Reach("multilevel")
		case commands.SensorMultiLevel:
			sym.Reach("sensor")
			cmd = 0x01
		default:
			sym.Reach("nothing")
			continue
		}
		sym.Assert(i < len(w.sent), "the states of every class are requested")
		vAsk(w.sent[i:i+1], id, byte(c.ID), cmd, 0x25)
		i++
	}
	sym.Assert(len(w.sent) == i, "nothing else is requested")
}

//verif:goal property=C37 reach=end timeout=100 timed=1 steps=8000000
//verif:uses util.go
//verif:doc a node with 1 to 60 command classes, one of which, at any place, is a switch: its state is requested
func VerifC37Many() {
	sym.FixMapOrder(true)
	n, w, _ := vNode(9)
	k := 1 + sym.Choice("classes", 60)
	at := sym.Int("at", 0, k-1)
	cc := make([]*database.CommandClass, k)
	for i := range cc {
		cc[i] = &database.CommandClass{ID: commands.ZWaveCommand(sym.IteByte(i == at, 0x25, 0x80+byte(i)))}
	}
	vLocked(n, func() { n.CommandClasses = cc })
	sym.Assert(n.RequestStates() == nil, "requesting the states succeeds")
	sym.Assert(len(w.sent) == 1, "the states of every class are requested")
	vAsk(w.sent[:1], 9, 0x25, 0x02, 0x25)
	sym.Reach("end")
}

//verif:goal property=C37 reach=reply,other,failed timeout=100 timed=1
//verif:uses util.go
//verif:doc manufacturer data is requested from any node; any manufacturer report, another report, no report or a failing connection follows
func VerifC37Manufacturer() {
	id := int(sym.Byte("node"))
	n, w, _ := vNode(id)
	data := sym.Bytes("data", 6)
	kind := sym.Choice("reply", 3)
	w.fail = func() bool { return kind == 2 }
	w.report = func(b []byte, expected byte) reports.Report {
		sym.Assert(expected == 0x05, "a manufacturer report is expected")
		if kind == 0 {
			r, _ := reports.New(0x72, 0x05, data)
			return r
		}
		return vOther(0x72)
	}
	ms, err := n.RequestManufacturerSpecific()
	vAsk(w.sent, id, 0x72, 0x04, 0x00)
	if kind == 0 {
		sym.Reach("reply")
		want, _ := reports.NewManufacturerSpecific(data)
		sym.Assert(err == nil && ms != nil, "the reply is returned")
		sym.Assert(sym.And(sym.EqStr(ms.Manufacturer, want.Manufacturer), sym.And(sym.EqStr(ms.Type, want.Type), sym.EqStr(ms.ID, want.ID))), "the result is the content of the reply")
		return
	}
	sym.Reach([]string{"", "other", "failed"}[kind])
	sym.Assert(err != nil && ms == nil, "anything else is an error")
}

//verif:goal property=C37 reach=reply,other,failed timeout=100 timed=1
//verif:uses util.go
//verif:doc protocol info is requested of any node; any protocol info, another message, no message or a failing connection follows
func VerifC37Info() {
	id := int(sym.Byte("node"))
	n, w, _ := vNode(id)
	info := &serialapi.FuncGetNodeProtocolInfo{Listening: sym.Bool("listening"), Version: sym.Byte("version"), Generic: sym.Byte("generic"), Specific: sym.Byte("specific")}
	kind := sym.Choice("reply", 3)
	w.fail = func() bool { return kind == 2 }
	w.answer = func(b []byte) *serialapi.Message {
		if kind == 0 {
			i := *info
			return &serialapi.Message{Data: &i}
		}
		switch sym.Choice("other", 3) {
		case 0:
			return &serialapi.Message{Data: &serialapi.FuncApplicationCommandHandler{}}
		case 1:
			return &serialapi.Message{}
		}
		return nil
	}
	r, err := n.RequestProtocolInfo()
	sym.Assert(len(w.sent) == 1, "one request is written")
	sym.Assert(len(w.sent[0]) == 2 && w.sent[0][0] == 0x41 && w.sent[0][1] == byte(id), "the controller is asked for the protocol info of the node")
	if kind == 0 {
		sym.Reach("reply")
		sym.Assert(err == nil && r != nil && *r == *info, "the result is the content of the reply")
		return
	}
	sym.Reach([]string{"", "other", "failed"}[kind])
	sym.Assert(err != nil && r == nil, "anything else is an error")
}

//verif:goal property=C37 reach=reply,other,bare timeout=100 timed=1
//verif:uses util.go
//verif:doc the end points of any node, with classes, an empty list or without, and with 0 or 2 end points known, are requested; an end-point report, another report or no report follows
func VerifC37Endpoints() {
	id := int(sym.Byte("node"))
	n, w, _ := vNode(id)
	bare := sym.Choice("classes", 2) == 0
	var old []*Endpoint
	vLocked(n, func() {
		if !bare {
			n.CommandClasses = []*database.CommandClass{{ID: commands.SwitchBinary}}
			if sym.Bool("none supported") {
				n.CommandClasses = n.CommandClasses[:0]
			}
		}
		if sym.Choice("known", 2) == 1 {
			n.Endpoints = []*Endpoint{{Id: 1}, {Id: 2}}
		}
		old = append([]*Endpoint{}, n.Endpoints...)
	})
	count := sym.Choice("end points", 4)
	reply := sym.Choice("reply", 2) == 0
	w.report = func(b []byte, expected byte) reports.Report {
		sym.Assert(expected == 0x08, "an end-point report is expected")
		if reply {
			r, _ := reports.New(0x60, 0x08, []byte{sym.Byte("flags"), byte(count)})
			return r
		}
		return vOther(0x60)
	}
	err := n.RequestEndpoints()
	if bare {
		sym.Reach("bare")
		sym.Assert(err != nil && len(w.sent) == 0, "a node without classes is not asked")
		vLocked(n, func() {
			for _, e := range n.Endpoints {
				sym.Assert(e != nil, "every end point of the node is one")
			}
		})
		return
	}
	vAsk(w.sent, id, 0x60, 0x07, 0x25)
	var now []*Endpoint
	vLocked(n, func() { now = append(now, n.Endpoints...) })
	if reply {
		sym.Reach("reply")
		sym.Assert(err == nil && len(now) == count, "the node has the end points reported")
		return
	}
	sym.Reach("other")
	sym.Assert(err != nil, "anything else is an error")
	sym.Assert(len(now) == len(old), "the end points stay as they were")
	for i := range old {
		sym.Assert(now[i] == old[i], "the end points stay as they were")
	}
}
