package nodes

import (
	"github.com/stampzilla/gozwave/zzverif/sym"
)

// vC19Want gives the command that On (0), Off (1) or Level (2) has to send.
func vC19Want(op int, node byte, level float64, binary, multi bool) ([]byte, bool) {
	if binary && op < 2 {
		return []byte{0x13, node, 0x03, 0x25, 0x01, []byte{0xff, 0x00}[op], 0x25}, true
	}
	if !multi {
		return nil, false
	}
	l := byte(99)
	switch {
	case op == 1:
		l = 0
	case op == 2:
		if !(level >= 1) {
			l = 0
		} else if level <= 99 {
			l = byte(level)
		}
	}
	return []byte{0x13, node, 0x03, 0x26, 0x01, l, 0x25}, true
}

//verif:goal property=C19 reach=binary,multilevel,nothing timeout=120
//verif:uses util.go
//verif:doc On, Off and Level (any float) on a node with any id and no, 1, 2 or 3 (thorough 4) command classes with arbitrary ids
func VerifC19Node() {
	id := sym.Byte("node")
	n, w, ev := vNode(int(id))
	n.CommandClasses = vClasses(sym.Bound("classes", 3, 4))
	binary, multi := vHas(n.CommandClasses, 0x25), vHas(n.CommandClasses, 0x26)
	op := sym.Choice("operation", 3)
	level := 0.0
	switch op {
	case 0:
		n.On()
	case 1:
		n.Off()
	case 2:
		level = sym.F64("level")
		n.Level(level)
	}
	want, some := vC19Want(op, id, level, binary, multi)
	if !some {
		sym.Reach("nothing")
		sym.Assert(len(w.sent) == 0, "nothing is sent to a node that cannot be switched")
		return
	}
	sym.Reach(map[byte]string{0x25: "binary", 0x26: "multilevel"}[want[3]])
	sym.Assert(len(w.sent) == 1, "exactly one command is sent")
	sym.Assert(sym.EqBytes(w.sent[0], want), "the supported set command with the right value is sent to this node")
	sym.Assert(len(ev.updated) == 0, "a command changes no state")
}

//verif:goal property=C19 reach=binary,multilevel,nothing timeout=120
//verif:uses util.go
//verif:doc the same on an endpoint with any number and no, the same or other command classes of a node with any id: the classes of the node count
func VerifC19Endpoint() {
	id, ep := sym.Byte("node"), sym.Byte("endpoint")
	n, w, _ := vNode(int(id))
	n.CommandClasses = vClasses(sym.Bound("classes", 2, 3))
	binary, multi := vHas(n.CommandClasses, 0x25), vHas(n.CommandClasses, 0x26)
	e := &Endpoint{Id: int(ep)}
	switch sym.Choice("classes of the endpoint", 3) {
	case 1:
		e.CommandClasses = n.CommandClasses
	case 2: // Of an earlier identification
		e.CommandClasses = vClasses(1)
	}
	n.Endpoints = []*Endpoint{e}
	NewList().Add(n)
	op := sym.Choice("operation", 3)
	level := 0.0
	switch op {
	case 0:
		e.On()
	case 1:
		e.Off()
	case 2:
		level = sym.F64("level")
		e.Level(level)
	}
	c, some := vC19Want(op, id, level, binary, multi)
	if !some {
		sym.Reach("nothing")
		sym.Assert(len(w.sent) == 0, "nothing is sent to an endpoint of a node that cannot be switched")
		return
	}
	sym.Reach(map[byte]string{0x25: "binary", 0x26: "multilevel"}[c[3]])
	want := append([]byte{0x13, id, 7, 0x60, 0x0d, 0x01, ep}, c[3:]...)
	sym.Assert(len(w.sent) == 1, "exactly one command is sent")
	sym.Assert(sym.EqBytes(w.sent[0], want), "the set command is encapsulated for exactly this endpoint of this node")
}
