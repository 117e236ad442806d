package gozwave

import (
	"io"
	"path/filepath"
	"time"

	"github.com/stampzilla/gozwave/commands"
	"github.com/stampzilla/gozwave/commands/reports"
	"github.com/stampzilla/gozwave/database"
	"github.com/stampzilla/gozwave/events"
	"github.com/stampzilla/gozwave/nodes"
	"github.com/stampzilla/gozwave/zzverif/sym"
)

// vStart connects a controller that uses a configuration file to a new port that acknowledges everything.
func vStart(file string) (*Controller, *vPort) {
	port := vNewPort()
	vDiscovery(port, nil)
	c, err := ConnectWithCustomPortOpener("/port", file, vOpener(func() (io.ReadWriteCloser, error) { return port, nil }))
	sym.Assert(err == nil && c != nil, "the connection succeeds")
	return c, port
}

// vSend gives frames to the port and lets them take effect.
func vSend(port *vPort, f []byte) {
	time.Sleep(100 * time.Millisecond)
	port.in <- f
	time.Sleep(100 * time.Millisecond)
}

// vAnnounced drains the event queue and counts the discovery events of a node.
func vAnnounced(c *Controller) (count [256]int, other int) {
	for {
		select {
		case e := <-c.GetNextEvent():
			if d, ok := e.(events.NodeDiscoverd); ok {
				count[d.Address]++
			} else {
				other++
			}
			continue
		default:
		}
		return
	}
}

func vText(name string, n int) string {
	s := sym.Str(name, n)
	for i := 0; i < n; i++ {
		sym.Assume(sym.And(s[i] >= ' ', s[i] < 0x7f))
	}
	return s
}

func vMap(name string, n *nodes.Node) {
	if sym.Bool(name + " on") {
		n.StateBool["on"] = sym.Bool("on")
		n.StateFloat["level"] = sym.F64("level")
		sym.Assume(n.StateFloat["level"]-n.StateFloat["level"] == 0) // a report cannot carry anything else
	}
	if sym.Bool(name + " alarm") {
		n.StateBool["alarm"] = sym.Bool("alarm")
		n.StateFloat["alarm"], n.StateFloat["alarmLastType"] = 7, float64(sym.Byte("alarm type"))
		n.StateFloat["temperature_c"] = -12.5
	}
}

func vSameClasses(a, b []*database.CommandClass) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] == nil || b[i] == nil || *a[i] != *b[i] {
			return false
		}
	}
	return true
}

// vSame asserts that b carries all saved data of a.
func vSame(a, b *nodes.Node) {
	b.RLock()
	defer b.RUnlock()
	sym.Assert(b.Id == a.Id && b.IsAwake == a.IsAwake, "id and awake state are restored")
	sym.Assert((a.ManufacurerSpecific == nil) == (b.ManufacurerSpecific == nil), "the manufacturer data is restored")
	if a.ManufacurerSpecific != nil {
		x, y := a.ManufacurerSpecific, b.ManufacurerSpecific
		sym.Assert(x.Manufacturer == y.Manufacturer && x.Type == y.Type && x.ID == y.ID, "the manufacturer data is restored")
	}
	sym.Assert(a.Brand == b.Brand && a.Product == b.Product && a.Description == b.Description, "the identification is restored")
	sym.Assert(vSameClasses(a.CommandClasses, b.CommandClasses), "the command classes are restored")
	sym.Assert((a.Endpoints == nil) == (b.Endpoints == nil) && len(a.Endpoints) == len(b.Endpoints), "the endpoints are restored")
	for i, e := range a.Endpoints {
		f := b.Endpoints[i]
		sym.Assert(f != nil && f.Id == e.Id && vSameClasses(e.CommandClasses, f.CommandClasses), "every endpoint is restored")
		sym.Assert(vSameState(e.StateBool, f.StateBool, e.StateFloat, f.StateFloat), "the endpoint state is restored")
	}
	sym.Assert(vSameState(a.StateBool, b.StateBool, a.StateFloat, b.StateFloat), "the state is restored")
}

func vSameState(ab, bb map[string]bool, af, bf map[string]float64) bool {
	if len(ab) != len(bb) || len(af) != len(bf) {
		return false
	}
	for _, k := range []string{"on", "alarm"} {
		x, ok := ab[k]
		y, ok2 := bb[k]
		if ok != ok2 || x != y {
			return false
		}
	}
	for _, k := range []string{"level", "temperature_c", "alarm", "alarmLastType"} {
		x, ok := af[k]
		y, ok2 := bf[k]
		if ok != ok2 || !(x == y) {
			return false
		}
	}
	return true
}

// vFill gives a node arbitrary data.
func vFill(n *nodes.Node, first bool) {
	n.Lock()
	defer n.Unlock()
	n.IsAwake = sym.Bool("awake")
	if sym.Bool("identified") {
		n.ManufacurerSpecific = &reports.ManufacturerSpecific{Manufacturer: "0086", Type: "0003", ID: vText("product id", 4)}
		n.Brand, n.Product, n.Description = vText("brand", 2), "Smart \"Energy\" <Switch> & more", "Zwischenstecker für Geräte\n"
	}
	switch sym.Choice("classes", 3) {
	case 1:
		n.CommandClasses = []*database.CommandClass{}
	case 2:
		n.CommandClasses = []*database.CommandClass{
			{ID: commands.ZWaveCommand(commands.SwitchBinary), InNIF: sym.Bool("nif"), Version: vText("version", 1)},
			{ID: commands.ZWaveCommand(sym.Byte("class")), Secure: sym.Bool("secure"), NonSecure: sym.Bool("non-secure")},
		}
	}
	if first {
		switch sym.Choice("endpoints", 3) {
		case 1:
			n.Endpoints = []*nodes.Endpoint{}
		case 2:
			for i := 1; i <= 2; i++ {
				n.Endpoints = append(n.Endpoints, &nodes.Endpoint{Id: i, CommandClasses: n.CommandClasses, StateBool: map[string]bool{"on": sym.Bool("endpoint on")}, StateFloat: map[string]float64{}})
			}
		}
	}
	vMap("state", n)
}

//verif:goal property=C25 reach=restored,none,endpoint,command timed=1 timeout=200 steps=6000000 thorough.timeout=800
//verif:uses util.go c23.go
//verif:doc up to two (thorough three) nodes, the first with arbitrary contents (awake state, manufacturer data, texts, command classes, endpoints, states), saved and loaded by a second controller on another port: the same nodes with the same contents, announced once each; then a report to and a command to each node and endpoint
func VerifC25RoundTrip() {
	sym.FixMapOrder(true)
	file := filepath.Join(sym.TempDir(), "config.json")
	c, port := vStart(file)
	ids := []int{[]int{2, 100, 232}[sym.Choice("id", 3)], 7, 19}[:sym.Choice("nodes", sym.Bound("nodes", 3, 4))]
	for i, id := range ids {
		n := nodes.New(id)
		if i == 0 {
			vFill(n, true)
		}
		n.Setup(c.Connection, func(interface{}) {})
		c.Nodes.Add(n)
	}
	sym.Assert(c.SaveConfigurationToFile() == nil, "saving succeeds")

	d, port2 := vStart(file)
	all := d.Nodes.All()
	sym.Assert(len(all) == len(ids), "exactly the saved nodes are restored")
	count, other := vAnnounced(d)
	sym.Assert(other == 0, "no other event")
	if len(ids) == 0 {
		sym.Reach("none")
	}
	for _, id := range ids {
		m := all[id]
		sym.Assert(m != nil && d.Nodes.Get(id) == m, "a node is restored under its id")
		sym.Assert(count[id] == 1, "a restored node is announced once")
		sym.Reach("restored")
		vSame(c.Nodes.Get(id), m)
	}
	for _, id := range ids {
		m := all[id]
		vSend(port2, vReport(byte(id), 0xff))
		on, ok := vOn(m)
		sym.Assert(ok && on, "a restored node accepts reports")
		_, other := vAnnounced(d)
		sym.Assert(other == 1, "a change of a restored node is announced")
		written := len(port2.frames())
		m.Off()
		time.Sleep(200 * time.Millisecond)
		if m.HasCommand(commands.SwitchBinary) {
			sym.Reach("command")
			f := port2.frames()
			sym.Assert(len(f) == written+1, "a restored node sends one command")
			sym.Assert(f[written][3] == 0x13 && int(f[written][4]) == id && f[written][6] == 0x25 && f[written][8] == 0, "the command is addressed to the restored node")
			if e := m.Endpoint(2); e != nil {
				e.Off()
				time.Sleep(200 * time.Millisecond)
				sym.Reach("endpoint")
				f := port2.frames()
				sym.Assert(len(f) == written+2 && f[written+1][3] == 0x13, "a restored endpoint sends one command")
			}
		}
	}
	for _, f := range port.frames() {
		sym.Assert(f[3] != 0x13, "restored nodes use the new connection")
	}
}

//verif:goal property=C25 reach=end timed=1 timeout=200 steps=6000000
//verif:uses util.go c23.go
//verif:doc all report kinds with arbitrary values to one node, then saved, loaded, changed, saved and loaded again: the state is the same each time
func VerifC25Twice() {
	sym.FixMapOrder(true)
	file := filepath.Join(sym.TempDir(), "config.json")
	c, port := vStart(file)
	n := nodes.New(5)
	n.Setup(c.Connection, func(interface{}) {})
	c.Nodes.Add(n)
	v := sym.Byte("level")
	sym.Assume(v <= 99)
	vSend(port, vFrame(0x00, 0x04, 0x00, 5, 0x03, 0x26, 0x03, v))
	sym.Assert(c.SaveConfigurationToFile() == nil, "saving succeeds")
	d, port2 := vStart(file)
	m := d.Nodes.Get(5)
	sym.Assert(m != nil, "the node is restored")
	vSame(n, m)
	on := sym.Bool("on")
	vSend(port2, vReport(5, sym.IteByte(on, 0xff, 0)))
	sym.Assert(d.SaveConfigurationToFile() == nil, "saving succeeds")
	e, _ := vStart(file)
	k := e.Nodes.Get(5)
	sym.Assert(k != nil && len(e.Nodes.All()) == 1, "the node is restored again")
	vSame(m, k)
	sym.Assert(k.StateBool["on"] == on && k.StateFloat["level"] == float64(v), "the state is the last one")
	sym.Reach("end")
}
