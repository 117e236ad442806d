package gozwave

import (
	"io"
	"time"

	"github.com/stampzilla/gozwave/events"
	"github.com/stampzilla/gozwave/nodes"
	"github.com/stampzilla/gozwave/zzverif/sym"
)

// vDiscovery answers the discovery request with the given frame after 20 ms, and acknowledges everything.
func vDiscovery(port *vPort, answer []byte) {
	port.onWrite = func(b []byte) {
		if len(b) == 1 {
			return
		}
		fn := b[3]
		go func() {
			time.Sleep(10 * time.Millisecond)
			port.in <- []byte{0x06}
			if fn == 0x02 && answer != nil {
				time.Sleep(10 * time.Millisecond)
				port.in <- answer
			}
		}()
	}
}

// vDiscovered counts the discovery events per node until the connection has been idle.
type vDiscovered struct{ count [256]int }

func (d *vDiscovered) consume(c *Controller) {
	for e := range c.GetNextEvent() {
		if x, ok := e.(events.NodeDiscoverd); ok {
			sym.Assert(x.Address > 0 && x.Address < 256, "an address")
			d.count[x.Address]++
			n := c.Nodes.Get(x.Address)
			sym.Assert(n != nil && n.GetID() == x.Address, "an announced node is in the list")
		}
	}
}

// vBitmap is a discovery response with the given node bitmap.
func vBitmap(bits []byte) []byte {
	body := append([]byte{0x01, 0x02, 0x05, 0x00, byte(len(bits))}, bits...)
	return vFrame(append(body, 0x03, 0x01)...)
}

//verif:goal property=C23 reach=new,kept,inactive timed=1 timeout=200 steps=6000000 thorough.timeout=800
//verif:uses util.go c17.go
//verif:doc an arbitrary byte at a chosen position (quick: first, second, last; thorough: every position) of the bitmap of active nodes, with nodes 2, 3 and 9 known before or not: exactly the active nodes except the controller are listed, new ones are announced once, known ones are the same object
func VerifC23Bitmap() {
	sym.FixMapOrder(true)
	at := []int{0, 1, 28}[sym.Choice("position", 3)]
	if sym.Bound("all", 0, 1) == 1 {
		at = sym.Choice("byte", 29)
	}
	bits := make([]byte, 29)
	bits[at] = sym.Byte("bits")
	port := vNewPort()
	vDiscovery(port, vBitmap(bits))
	c, err := ConnectWithCustomPortOpener("/port", "", vOpener(func() (io.ReadWriteCloser, error) { return port, nil }))
	sym.Assert(err == nil && c != nil, "the connection succeeds")
	var known [256]*nodes.Node
	if sym.Bool("known nodes") {
		for _, id := range []int{2, 3, 9} {
			n := nodes.New(id)
			n.Setup(c.Connection, func(interface{}) {})
			c.Nodes.Add(n)
			known[id] = n
		}
	}
	d := &vDiscovered{}
	go d.consume(c)
	time.Sleep(300 * time.Millisecond)
	all := c.Nodes.All()
	want := 0
	for id := 1; id <= 232; id++ {
		active := bits[(id-1)/8]&(1<<uint((id-1)%8)) != 0
		n := all[id]
		switch {
		case known[id] != nil:
			sym.Assert(n == known[id], "a known node is kept")
			sym.Assert(d.count[id] == 0, "a known node is not announced again")
			want++
			if active {
				sym.Reach("kept")
			}
		case active && id != 1:
			sym.Assert(n != nil && n.GetID() == id, "an active node is listed under its id")
			sym.Assert(d.count[id] == 1, "a new node is announced once")
			want++
			sym.Reach("new")
		default:
			sym.Assert(n == nil, "an inactive node is not listed")
			sym.Assert(d.count[id] == 0, "an inactive node is not announced")
			sym.Reach("inactive")
		}
	}
	sym.Assert(len(all) == want, "nothing else is listed")
}

//verif:goal property=C23 reach=end timed=1 timeout=200 steps=20000000 native=0
//verif:uses util.go
//verif:doc all 232 nodes active
func VerifC23Full() {
	sym.FixMapOrder(true)
	bits := make([]byte, 29)
	for i := range bits {
		bits[i] = 0xff
	}
	port := vNewPort()
	vDiscovery(port, vBitmap(bits))
	c, _ := ConnectWithCustomPortOpener("/port", "", vOpener(func() (io.ReadWriteCloser, error) { return port, nil }))
	d := &vDiscovered{}
	go d.consume(c)
	time.Sleep(300 * time.Millisecond)
	all := c.Nodes.All()
	sym.Assert(len(all) == 231, "all nodes but the controller")
	for id := 2; id <= 232; id++ {
		sym.Assert(all[id] != nil && all[id].GetID() == id, "under their ids")
	}
	sym.Reach("end")
}

//verif:goal property=C23 reach=absent,wrong,short timed=1 timeout=200 steps=6000000 thorough.timeout=800
//verif:uses util.go
//verif:doc no answer, an answer of another function, one with a bitmap of 0..3 arbitrary bytes, or an undecodable one of up to 6 arbitrary bytes: nothing that is not active is listed, and nothing crashes
func VerifC23Wrong() {
	sym.FixMapOrder(true)
	var answer []byte
	bits := []byte{}
	switch sym.Choice("answer", 3) {
	case 0:
		sym.Reach("absent")
	case 1:
		body := sym.Bytes("body", 1+sym.Choice("length", sym.Bound("body", 4, 5)))
		answer = vFrame(append([]byte{0x01, 0x02}, body...)...)
		if len(body) > 3 && int(body[2]) <= len(body)-3 {
			bits = body[3 : 3+int(body[2])]
		}
		sym.Reach("wrong")
	case 2:
		bits = sym.Bytes("bits", sym.Choice("length", sym.Bound("bits", 2, 2)))
		answer = vBitmap(bits)
		sym.Reach("short")
	}
	port := vNewPort()
	vDiscovery(port, answer)
	c, _ := ConnectWithCustomPortOpener("/port", "", vOpener(func() (io.ReadWriteCloser, error) { return port, nil }))
	d := &vDiscovered{}
	go d.consume(c)
	time.Sleep(6 * time.Second)
	all := c.Nodes.All()
	listed := 0
	for id := 2; id <= 8*len(bits); id++ {
		if bits[(id-1)/8]&(1<<uint((id-1)%8)) != 0 && all[id] != nil {
			listed++
		}
	}
	sym.Assert(len(all) == listed, "nothing is listed that was not active")
}

//verif:goal property=C23 reach=end timed=1 timeout=200 delays=1 thorough.delays=2 thorough.timeout=800 steps=6000000
//verif:uses util.go
//verif:doc nodes 2 and 3 active, a consumer that uses a node as soon as it is announced or listed, a report of node 2 arriving together with the answer, for every schedule within the delay bound
func VerifC23Usable() {
	sym.FixMapOrder(true)
	port := vNewPort()
	vDiscovery(port, append(vBitmap(append([]byte{0x07}, make([]byte, 28)...)), vReport(2, 0xff)...))
	c, _ := ConnectWithCustomPortOpener("/port", "", vOpener(func() (io.ReadWriteCloser, error) { return port, nil }))
	announced := 0
	go func() {
		for e := range c.GetNextEvent() {
			if x, ok := e.(events.NodeDiscoverd); ok {
				announced++
				c.Nodes.Get(x.Address).RequestManufacturerSpecific()
			}
		}
	}()
	time.Sleep(30 * time.Second)
	sym.Reach("end")
	on := 0
	for _, f := range port.frames() {
		if len(f) > 7 && f[3] == 0x13 && f[6] == 0x72 {
			on++
		}
	}
	sym.Assert(announced == 2, "both nodes are announced once")
	sym.Assert(on == 2, "a command to an announced node is sent")
}
