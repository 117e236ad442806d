package gozwave

import (
	"path/filepath"
	"time"

	"github.com/stampzilla/gozwave/nodes"
	"github.com/stampzilla/gozwave/zzverif/sym"
)

// vSaved asserts that the file holds the current state of nodes 1 and 2.
func vSaved(c *Controller, file string) {
	d := NewController()
	d.filename = file
	err := d.LoadConfigurationFromFile()
	sym.Assert(err == nil, "ten quiet seconds after an update the configuration has been saved")
	for id := 1; id <= 2; id++ {
		n, m := c.Nodes.Get(id), d.Nodes.Get(id)
		sym.Assert(m != nil, "every node is saved")
		on, ok := vOn(n)
		saved, ok2 := vOn(m)
		sym.Assert(ok == ok2 && on == saved, "ten quiet seconds after an update the current state is in the file")
	}
}

func vSaving(file string) (*Controller, *vPort) {
	c, port := vStart(file)
	for id := 1; id <= 2; id++ {
		n := nodes.New(id)
		n.Setup(c.Connection, c.pushEvent)
		c.Nodes.Add(n)
	}
	return c, port
}

//verif:goal property=C33 reach=end timed=1 timeout=200 thorough.timeout=850 steps=8000000
//verif:uses util.go c23.go c25.go
//verif:doc two (thorough three) reports of two nodes with arbitrary values, any time from 0 to 25 seconds (to the nanosecond) apart: ten seconds after the last one (and after each that was followed by more than ten) the file has the current state; then one more update and ten more seconds
func VerifC33Timing() {
	sym.FixMapOrder(true)
	file := filepath.Join(sym.TempDir(), "config.json")
	c, port := vSaving(file)
	for i := 0; i < sym.Bound("reports", 2, 3); i++ {
		id := byte(1 + i%2)
		port.in <- vReport(id, sym.IteByte(sym.Bool("on"), 0xff, 0))
		sym.Settle()
		gap := time.Duration(sym.I64("gap"))
		sym.Assume(sym.And(gap >= 0, gap <= 25*time.Second))
		time.Sleep(gap)
		if gap > 10*time.Second {
			sym.Settle()
			vSaved(c, file)
		}
	}
	time.Sleep(10100 * time.Millisecond)
	vSaved(c, file)
	port.in <- vReport(2, sym.IteByte(sym.Bool("last"), 0xff, 0))
	time.Sleep(10100 * time.Millisecond)
	vSaved(c, file)
	sym.Reach("end")
}

//verif:goal property=C33 reach=end timed=1 timeout=200 delays=2 thorough.delays=3 thorough.timeout=850 steps=8000000
//verif:uses util.go c23.go c25.go
//verif:doc one or two updates while the configuration is being saved, for every schedule within the delay bound: no crash, no unsynchronised access, and the last state is saved ten seconds later
func VerifC33During() {
	sym.FixMapOrder(true)
	file := filepath.Join(sym.TempDir(), "config.json")
	c, port := vSaving(file)
	port.in <- vReport(1, 0xff)
	sym.Settle()
	time.Sleep(10 * time.Second)
	more := vReport(1, 0x00)
	if sym.Bool("two updates") {
		more = append(more, vReport(2, sym.IteByte(sym.Bool("on"), 0xff, 0))...)
	}
	port.in <- more
	time.Sleep(10100 * time.Millisecond)
	vSaved(c, file)
	sym.Reach("end")
}

//verif:goal property=C33 reach=end timed=1 timeout=100 steps=8000000
//verif:uses util.go c23.go c25.go
//verif:doc one to thirty updates in a row, all before the save worker gets to run: one save later everything is in the file, and without a file nothing happens
func VerifC33Burst() {
	sym.FixMapOrder(true)
	file := filepath.Join(sym.TempDir(), "config.json")
	if sym.Bool("no file") {
		file = ""
	}
	c, port := vSaving(file)
	k := []int{1, 2, 9, 10, 11, 12, 30}[sym.Choice("updates", 7)]
	for i := 0; i < k; i++ {
		port.in <- vReport(byte(1+i%2), []byte{0xff, 0, 0, 0xff, 0xff}[i%5])
	}
	time.Sleep(10100 * time.Millisecond)
	if file != "" {
		vSaved(c, file)
	}
	sym.Reach("end")
}

//verif:goal property=C33 reach=end timed=1 native=0 timeout=100 steps=8000000
//verif:uses util.go c23.go c25.go
//verif:doc a save that lasts (one node is locked by the program for up to five seconds) while one or two reports of the other node arrive: ten seconds after the last one the file has the current state
func VerifC33Slow() {
	sym.FixMapOrder(true)
	file := filepath.Join(sym.TempDir(), "config.json")
	c, port := vSaving(file)
	held := 1 + sym.Choice("locked node", 2)
	port.in <- vReport(byte(held), 0xff)
	port.in <- vReport(byte(3-held), 0xff)
	time.Sleep(9 * time.Second)
	n := c.Nodes.Get(held)
	n.Lock()
	time.Sleep(2 * time.Second)
	k := 1 + sym.Choice("reports", 2)
	for i := 0; i < k; i++ {
		port.in <- vReport(byte(3-held), []byte{0, 0xff}[i])
	}
	d := time.Duration(sym.I64("held for"))
	sym.Assume(sym.And(d >= 0, d <= 5*time.Second))
	time.Sleep(d)
	n.Unlock()
	time.Sleep(15100 * time.Millisecond)
	vSaved(c, file)
	sym.Reach("end")
}
