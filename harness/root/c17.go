package gozwave

import (
	"io"
	"path/filepath"
	"time"

	"github.com/stampzilla/gozwave/nodes"
	"github.com/stampzilla/gozwave/zzverif/sym"
)

// vController starts a controller on a model port with the given nodes known.
func vController(ids ...int) (*Controller, *vPort) {
	port := vNewPort()
	c, err := ConnectWithCustomPortOpener("/port", "", vOpener(func() (io.ReadWriteCloser, error) { return port, nil }))
	sym.Assert(err == nil && c != nil, "the connection succeeds")
	for _, id := range ids {
		n := nodes.New(id)
		n.Setup(c.Connection, func(interface{}) {})
		c.Nodes.Add(n)
	}
	return c, port
}

// vWant is the switch state of nodes 1..3, -1 for not reported, and the number of reports of all of them.
type vWant struct {
	on      [4]int
	level   [4]int
	reports int
}

func (w *vWant) check(c *Controller) {
	all := c.Nodes.All()
	sym.Assert(len(all) == 3, "no node appears or disappears")
	for id := 1; id <= 3; id++ {
		n := all[id]
		sym.Assert(n != nil, "every node is still there")
		n.RLock()
		on, ok := n.StateBool["on"]
		level, okl := n.StateFloat["level"]
		entries := len(n.StateBool) + len(n.StateFloat)
		n.RUnlock()
		if w.on[id] < 0 {
			sym.Assert(!ok && !okl && entries == 0, "a node that has not reported is not changed")
			continue
		}
		sym.Assert(ok && on == (w.on[id] == 1), "the state of the reporting node is set")
		if w.level[id] >= 0 {
			sym.Assert(okl && sym.SameF64(level, float64(w.level[id])), "the level of the reporting node is set")
		}
	}
}

//verif:goal property=C17 reach=known,unknown,level timed=1 timeout=200 thorough.timeout=800 steps=3000000
//verif:uses util.go
//verif:doc up to three (thorough four) switch or level reports from arbitrary nodes (0..255) in one or several reads, with arbitrary status byte and value, to a controller that knows nodes 1..3
func VerifC17Deliver() {
	sym.FixMapOrder(true)
	c, port := vController(1, 2, 3)
	w := &vWant{}
	for i := range w.on {
		w.on[i], w.level[i] = -1, -1
	}
	updates := 0
	for id := 1; id <= 3; id++ {
		c.Nodes.Get(id).Setup(c.Connection, func(interface{}) { updates++ })
	}
	var stream []byte
	together := sym.Bool("one read")
	for i := 0; i < sym.Bound("reports", 3, 4); i++ {
		node := sym.Byte("node")
		var f []byte
		known := sym.And(node >= 1, node <= 3)
		if sym.Bool("level report") {
			v := sym.Byte("level")
			sym.Assume(v <= 99)
			f = vFrame(0x00, 0x04, sym.Byte("status"), node, 0x03, 0x26, 0x03, v)
			if known {
				k := sym.Concrete(int(node))
				sym.Reach("level")
				w.level[k] = int(v)
				w.on[k] = sym.IteInt(v > 0, 1, 0)
			}
		} else {
			on := sym.Bool("on")
			f = vFrame(0x00, 0x04, sym.Byte("status"), node, 0x03, 0x25, 0x03, sym.IteByte(on, 0xff, 0))
			if known {
				w.on[sym.Concrete(int(node))] = sym.IteInt(on, 1, 0)
			}
		}
		if known {
			sym.Reach("known")
			w.reports++
		} else {
			sym.Reach("unknown")
		}
		if together {
			stream = append(stream, f...)
		} else {
			port.in <- f
			sym.Settle()
			w.check(c)
			sym.Assert(updates == w.reports, "each report is delivered exactly once")
			time.Sleep(100 * time.Millisecond)
		}
	}
	if together {
		port.in <- stream
	}
	time.Sleep(time.Second)
	w.check(c)
	sym.Assert(updates == w.reports, "each report is delivered exactly once")
}

//verif:goal property=C17 reach=known,unknown timed=1 timeout=100 steps=3000000
//verif:uses util.go
//verif:doc the same switch report of an arbitrary node (0..255) twice, in one read or in two, to a controller that knows one node of any id from 1 to 232
func VerifC17Ids() {
	sym.FixMapOrder(true)
	id := sym.Concrete(sym.Int("id", 1, 232))
	c, port := vController(id)
	n := c.Nodes.Get(id)
	updates := 0
	n.Setup(c.Connection, func(interface{}) { updates++ })
	if sym.Bool("with a file") {
		c.filename = filepath.Join(sym.TempDir(), "config.json")
	}
	node, on := sym.Byte("node"), sym.Bool("on")
	f := vReport(node, sym.IteByte(on, 0xff, 0))
	if sym.Bool("one read") {
		port.in <- append(append([]byte{}, f...), f...)
	} else {
		port.in <- f
		port.in <- f
	}
	time.Sleep(time.Second)
	v, ok := vOn(n)
	sym.Assert(len(c.Nodes.All()) == 1, "no node appears or disappears")
	if int(node) == id {
		sym.Reach("known")
		sym.Assert(ok && v == on, "the state of the reporting node is set")
		sym.Assert(updates == 2, "each report is delivered exactly once")
	} else {
		sym.Reach("unknown")
		sym.Assert(!ok && updates == 0, "a node that has not reported is not changed")
	}
}

//verif:goal property=C17 reach=end timed=1 timeout=200 delays=1 thorough.delays=2 thorough.timeout=800 steps=3000000
//verif:uses util.go
//verif:doc an alarm and two switch reports in one read while commands are sent and other nodes are added, for every schedule within the delay bound: each is delivered exactly once, in order, none waits for another
func VerifC17Schedules() {
	sym.FixMapOrder(true)
	c, port := vController(1, 2, 3)
	on := sym.Bool("on")
	count := 0
	c.Nodes.Get(1).Setup(c.Connection, func(interface{}) { count++ })
	stream := vFrame(0x00, 0x04, 0x00, 0x02, 0x08, 0x71, 0x05, 7, 0, 0, 0xff, 1, 2)
	stream = append(stream, vReport(1, sym.IteByte(on, 0, 0xff))...)
	stream = append(stream, vReport(1, sym.IteByte(on, 0xff, 0))...)
	go c.Nodes.Get(3).On()
	go c.Nodes.Add(nodes.New(4))
	port.in <- stream
	time.Sleep(500 * time.Millisecond)
	v, ok := vOn(c.Nodes.Get(1))
	sym.Reach("end")
	sym.Assert(ok && v == on, "the last report of a node counts")
	sym.Assert(count == 2, "each report is delivered exactly once")
	_, ok = vOn(c.Nodes.Get(3))
	sym.Assert(!ok, "other nodes are not changed")
}
