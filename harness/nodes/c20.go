package nodes

import (
	"encoding/json"

	"github.com/stampzilla/gozwave/commands"
	"github.com/stampzilla/gozwave/commands/reports"
	"github.com/stampzilla/gozwave/database"
	"github.com/stampzilla/gozwave/zzverif/sym"
)

// vC20Check looks up endpoint k of a node that has reported max endpoints and commands it.
func vC20Check(n *Node, w *vWriter, max, k int) {
	e := n.Endpoint(k)
	if k < 1 || k > max {
		sym.Reach("none")
		sym.Assert(e == nil, "there is no such endpoint")
		return
	}
	sym.Reach("found")
	sym.Assert(e != nil && e.Id == k, "the endpoint of that number is returned")
	w.sent = nil
	e.On()
	sym.Assert(len(w.sent) == 1, "a command to the endpoint is sent")
	sym.Assert(sym.EqBytes(w.sent[0], []byte{0x13, byte(n.Id), 7, 0x60, 0x0d, 0x01, byte(k), 0x25, 0x01, 0xff, 0x25}), "the command is addressed to that endpoint of that node")
}

//verif:goal property=C20 reach=none,found timeout=120 timed=1
//verif:uses util.go
//verif:doc every endpoint count 0..40 (thorough 127), 127, 128 and 255 reported by a node, looking up any number
func VerifC20Reported() {
	max := sym.Choice("endpoints", 3+sym.Bound("counts", 41, 128))
	if k := max - sym.Bound("counts", 41, 128); k >= 0 {
		max = []int{127, 128, 255}[k]
	}
	id := 1 + sym.Choice("node", 2)*231
	n, w, _ := vNode(id)
	n.CommandClasses = []*database.CommandClass{{ID: commands.SwitchBinary}}
	r, err := reports.New(0x60, 0x08, []byte{sym.Byte("flags") & 0xc0, byte(max)})
	sym.Assert(err == nil, "an end point report is a report")
	w.report = func(b []byte, expected byte) reports.Report {
		sym.Assert(b[1] == byte(id) && expected == 0x08, "the request goes to this node and expects an end point report")
		return r
	}
	sym.Assert(n.RequestEndpoints() == nil, "a node that reports its endpoints is asked successfully")
	NewList().Add(n)
	vC20Check(n, w, max, sym.Int("k", -3, 300))
}

//verif:goal property=C20 reach=none,found timeout=120 timed=1
//verif:uses util.go
//verif:doc the same after saving and restoring the node as JSON, for up to 3 (thorough 6) endpoints
func VerifC20Restored() {
	max := sym.Choice("endpoints", sym.Bound("counts", 4, 7))
	n, w, _ := vNode(7)
	n.CommandClasses = []*database.CommandClass{{ID: commands.SwitchBinary}}
	r, _ := reports.New(0x60, 0x08, []byte{0x00, byte(max)})
	w.report = func(b []byte, expected byte) reports.Report { return r }
	sym.Assert(n.RequestEndpoints() == nil, "a node that reports its endpoints is asked successfully")
	l := NewList()
	l.Add(n)
	b, err := json.Marshal(l)
	sym.Assert(err == nil, "the list can be saved")
	l2 := NewList()
	sym.Assert(json.Unmarshal(b, l2) == nil, "the list can be restored")
	m := l2.Get(7)
	sym.Assert(m != nil && m != n, "the node is restored")
	w2 := &vWriter{}
	m.Setup(w2, func(interface{}) {})
	vC20Check(m, w2, max, sym.Int("k", -3, 300))
}

//verif:goal property=C20 reach=none,found,gap timeout=120 timed=1
//verif:uses util.go
//verif:doc a stored list of up to 3 (thorough 4) entries in any order with any different numbers from 1 to 255, or missing ones, looking up any number
func VerifC20Stored() {
	n, w, _ := vNode(7)
	n.CommandClasses = []*database.CommandClass{{ID: commands.SwitchBinary}}
	k := sym.Int("k", -3, 300)
	known, before := false, 0
	var ids []int
	for i := sym.Choice("entries", sym.Bound("entries", 4, 5)); i > 0; i-- {
		if sym.Bool("missing") {
			n.Endpoints = append(n.Endpoints, nil)
			continue
		}
		id := sym.Int("number", 1, 255)
		for _, o := range ids {
			sym.Assume(o != id)
		}
		ids = append(ids, id)
		n.Endpoints = append(n.Endpoints, &Endpoint{Id: id})
		known = sym.Or(known, id == k)
		before++
	}
	NewList().Add(n)
	e := n.Endpoint(k)
	if !known {
		sym.Reach("none")
		sym.Assert(e == nil, "there is no such endpoint")
		return
	}
	sym.Reach("found")
	sym.Assert(e != nil && e.Id == k, "the endpoint of that number is returned")
	if before < len(n.Endpoints) {
		sym.Reach("gap")
	}
	e.On()
	sym.Assert(len(w.sent) == 1, "a command to the endpoint is sent")
	sym.Assert(sym.EqBytes(w.sent[0], []byte{0x13, 7, 7, 0x60, 0x0d, 0x01, byte(k), 0x25, 0x01, 0xff, 0x25}), "the command is addressed to that endpoint of that node")
}
