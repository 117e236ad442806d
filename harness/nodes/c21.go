package nodes

import (
	"time"

	"github.com/stampzilla/gozwave/commands"
	"github.com/stampzilla/gozwave/commands/reports"
	"github.com/stampzilla/gozwave/database"
	"github.com/stampzilla/gozwave/serialapi"
	"github.com/stampzilla/gozwave/zzverif/sym"
)

// vDevice is a simulated device: it answers the requests of the identification, each after some
// failures (silence or an unusable answer).
type vDevice struct {
	info               serialapi.FuncGetNodeProtocolInfo
	man                *reports.ManufacturerSpecific
	endpoints          int
	badInfo, badMan    int
	badEnd             int
	asked              [4]int // protocol info, manufacturer, endpoints, states
	awake              bool   // a wake-up has been announced (or the node listens)
	early              bool   // something was asked of a sleeping node
	infoAt, wokeAt     time.Duration
	wakeups, wakeupMax int
}

var vMan = []*reports.ManufacturerSpecific{
	{Manufacturer: "0081", Type: "00a0", ID: "0001"},
	{Manufacturer: "0068", Type: "0000", ID: "0010"},
	{Manufacturer: "ffff", Type: "ffff", ID: "ffff"},
}

func (d *vDevice) attach(n *Node, w *vWriter) {
	w.onSend = func(b []byte) {
		switch {
		case b[0] == 0x41:
			if d.asked[0] == 0 {
				d.infoAt = time.Since(w.start)
			}
			d.asked[0]++
			return
		case b[3] == 0x72:
			d.asked[1]++
		case b[3] == 0x60:
			d.asked[2]++
		default:
			d.asked[3]++
		}
		for _, k := range d.asked {
			sym.Assert(k < 30, "the identification ends")
		}
		if !d.awake || !d.info.Listening && time.Since(w.start) > d.wokeAt+10*time.Second {
			d.early = true
		}
	}
	w.answer = func(b []byte) *serialapi.Message {
		if d.badInfo > 0 {
			d.badInfo--
			if sym.Bool("wrong answer") {
				return &serialapi.Message{}
			}
			return nil
		}
		i := d.info
		return &serialapi.Message{Data: &i}
	}
	w.report = func(b []byte, expected byte) reports.Report {
		switch b[3] {
		case 0x72:
			sym.Assert(expected == 0x05, "the manufacturer request expects a manufacturer report")
			if d.badMan > 0 {
				d.badMan--
				return nil
			}
			m := *d.man
			return &m
		case 0x60:
			if d.badEnd > 0 {
				d.badEnd--
				return nil
			}
			r, _ := reports.New(0x60, 0x08, []byte{0, byte(d.endpoints)})
			return r
		}
		return nil
	}
}

// vClassCount counts the classes of a list by id.
func vClassCount(cc ...[]*database.CommandClass) (r [256]int) {
	for _, l := range cc {
		for _, c := range l {
			r[byte(c.ID)]++
		}
	}
	return
}

// vIdentified checks everything an identified node carries.
func (d *vDevice) check(n *Node) {
	pi := n.ProtocolInfo()
	sym.Assert(pi != nil && *pi == d.info, "the node carries the protocol info it reported")
	sym.Assert(n.IsAwake == d.info.Listening, "the awake state is the listening flag")
	ms := n.ManufacurerSpecific
	sym.Assert(ms != nil && ms.Manufacturer == d.man.Manufacturer && ms.Type == d.man.Type && ms.ID == d.man.ID, "the node carries the manufacturer data it reported")
	dev := database.New(d.man.Manufacturer, d.man.Type, d.man.ID)
	var extra []*database.CommandClass
	if dev != nil {
		sym.Reach("device")
		sym.Assert(n.Brand == dev.Brand && n.Product == dev.Product && n.Description == dev.Description, "brand, product and description are those of the device")
		extra = dev.CommandClasses
	} else {
		sym.Reach("unknown device")
		sym.Assert(n.Brand == "" && n.Product == "" && n.Description == "", "an unknown device has no brand")
	}
	want := vClassCount(database.GetMandatoryCommandClasses(d.info.Generic, d.info.Specific), extra)
	have := vClassCount(n.CommandClasses)
	for id := range want {
		sym.Assert(want[id] == 0 || have[id] > 0, "no command class is lost")
		sym.Assert(have[id] <= want[id], "no command class is added or duplicated")
		sym.Assert(want[id] == 0 || n.HasCommand(commands.ZWaveCommand(id)), "the node has its commands")
	}
	for _, id := range []int{commands.SwitchBinary, commands.SwitchMultilevel, commands.SensorMultiLevel} {
		sym.Assert(want[id] == 0 || d.asked[3] > 0, "the states of the node have been requested")
	}
}

func vNewDevice(retries int) *vDevice {
	d := &vDevice{}
	d.info = serialapi.FuncGetNodeProtocolInfo{Listening: sym.Bool("listening"), Routing: sym.Bool("routing"), Beaming: sym.Bool("beaming"), Flirs: sym.Bool("flirs"), Security: sym.Bool("security"), Version: sym.Byte("version"), Basic: sym.Byte("basic"), MaxBaud: int(sym.U16("baud"))}
	c := [][2]byte{{0x10, 0x01}, {0x11, 0x01}, {0x40, 0x00}, {0xee, 0xee}}[sym.Choice("device class", 4)]
	d.info.Generic, d.info.Specific = c[0], c[1]
	d.man = vMan[sym.Choice("device", len(vMan))]
	d.endpoints = []int{0, 1, 9}[sym.Choice("endpoints", 3)]
	d.badInfo, d.badMan, d.badEnd = sym.Choice("info failures", retries+1), sym.Choice("manufacturer failures", retries+1), sym.Choice("endpoint failures", retries+1)
	return d
}

// vWakeups wakes a node up every 25 seconds, max times.
func (d *vDevice) vWakeups(n *Node, max int) {
	start := time.Now()
	go func() {
		for i := 0; i < max; i++ {
			time.Sleep(25 * time.Second)
			r, _ := reports.New(0x84, 0x07, nil)
			d.awake, d.wokeAt = true, time.Since(start)
			d.wakeups++
			n.ProcessEvent(r)
		}
	}()
}

//verif:goal property=C21 reach=device,unknown,listening,sleeping timed=1 timeout=200 thorough.timeout=800 steps=4000000
//verif:uses util.go
//verif:doc one node, listening or not, of a recorded or unrecorded class, known or unknown device, 0, 1 or 9 endpoints, with up to 1 (thorough 2) failures of each request; shared tables stay as they are
func VerifC21Identify() {
	sym.FixMapOrder(true)
	n, w, ev := vNode(9)
	d := vNewDevice(sym.Bound("retries", 1, 2))
	d.attach(n, w)
	before := vClassCount(database.GetMandatoryCommandClasses(d.info.Generic, d.info.Specific))
	k := len(database.GetMandatoryCommandClasses(d.info.Generic, d.info.Specific))
	if d.info.Listening {
		sym.Reach("listening")
		d.awake = true
	} else {
		sym.Reach("sleeping")
		d.vWakeups(n, 30)
	}
	n.Identify()
	d.check(n)
	if d.man == vMan[2] {
		sym.Reach("unknown")
	}
	sym.Assert(len(ev.updated) > 0, "the identification is announced")
	n.CommandClasses = append(n.CommandClasses, &database.CommandClass{ID: 0x01})
	if len(n.CommandClasses) > 1 {
		n.CommandClasses[0] = n.CommandClasses[1]
	}
	after := database.GetMandatoryCommandClasses(d.info.Generic, d.info.Specific)
	sym.Assert(len(after) == k && vClassCount(after) == before, "the shared class table is not changed")
}

//verif:goal property=C21 reach=device timed=1 timeout=200 thorough.timeout=800 steps=4000000
//verif:uses util.go
//verif:doc a node that was restored with its manufacturer data (as from the configuration, also one made with other tables or by hand), identified again
func VerifC21Restored() {
	sym.FixMapOrder(true)
	n, w, _ := vNode(9)
	d := vNewDevice(1)
	d.attach(n, w)
	m := *d.man
	n.ManufacurerSpecific = &m
	n.IsAwake = sym.Bool("was awake")
	if dev := database.New(m.Manufacturer, m.Type, m.ID); dev != nil && sym.Bool("stored by an earlier version") {
		n.Brand, n.Product, n.Description = "old", "", "old"
		n.CommandClasses = vClasses(1)
		if sym.Bool("manufacturer data missing") {
			n.ManufacurerSpecific = nil
		}
	} else if dev != nil {
		n.Brand, n.Product, n.Description = dev.Brand, dev.Product, dev.Description
		n.CommandClasses = append(append(n.CommandClasses, database.GetMandatoryCommandClasses(d.info.Generic, d.info.Specific)...), dev.CommandClasses...)
	}
	if sym.Bool("endpoints known") {
		n.Endpoints = []*Endpoint{}
	}
	d.awake = true
	if !d.info.Listening {
		d.vWakeups(n, 30)
	}
	n.Identify()
	d.check(n)
}

//verif:goal property=C21 reach=two timed=1 timeout=200 thorough.timeout=800 steps=8000000 delays=1 thorough.delays=2
//verif:uses util.go
//verif:doc two nodes of the same class and device identified at the same time, for every schedule within the delay bound: they do not influence each other
func VerifC21Two() {
	sym.FixMapOrder(true)
	done := make(chan bool, 2)
	var ns [2]*Node
	var ds [2]*vDevice
	for i := range ns {
		n, w, _ := vNode(5 + i)
		d := &vDevice{man: vMan[i%2], endpoints: 1, awake: true}
		d.info = serialapi.FuncGetNodeProtocolInfo{Listening: true, Generic: 0x10, Specific: 0x01, Basic: byte(i)}
		d.attach(n, w)
		ns[i], ds[i] = n, d
		go func() {
			n.Identify()
			done <- true
		}()
	}
	<-done
	<-done
	sym.Reach("two")
	for i, n := range ns {
		ds[i].check(n)
	}
	ns[0].CommandClasses[0] = &database.CommandClass{ID: 0x01}
	ds[1].check(ns[1])
}
