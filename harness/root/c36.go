package gozwave

import (
	"encoding/json"
	"io"
	"path/filepath"
	"time"

	"github.com/stampzilla/gozwave/commands"
	"github.com/stampzilla/gozwave/commands/reports"
	"github.com/stampzilla/gozwave/nodes"
	"github.com/stampzilla/gozwave/zzverif/sym"
)

// vStick answers everything: node 2 is a listening switch, node 3 a sleeping dimmer, both have endpoints.
type vStick struct {
	port   *vPort
	delay  time.Duration
	first  byte // what the first frame is answered with (ACK, NAK or CAN)
	silent bool
	asked  int

	identified int // nodes asked for their endpoints, the last question but one
}

func (s *vStick) attach() {
	s.port.onWrite = func(b []byte) {
		if len(b) == 1 || s.silent {
			return
		}
		s.asked++
		ack := byte(0x06)
		if s.asked == 2 && s.first != 0 {
			ack = s.first
		}
		f := append([]byte{}, b...)
		go s.reply(f, ack)
	}
}

func (s *vStick) reply(b []byte, ack byte) {
	time.Sleep(s.delay)
	s.port.in <- []byte{ack}
	if ack != 0x06 {
		return
	}
	time.Sleep(s.delay)
	switch {
	case b[3] == 0x02:
		s.port.in <- vBitmap(append([]byte{0x07}, make([]byte, 28)...))
	case b[3] == 0x41 && b[4] == 2:
		s.port.in <- vFrame(0x01, 0x41, 0xd3, 0x9c, 0x00, 0x04, 0x10, 0x01)
	case b[3] == 0x41:
		s.port.in <- vFrame(0x01, 0x41, 0x53, 0x9c, 0x00, 0x04, 0x11, 0x01)
	case b[6] == 0x72:
		s.port.in <- vFrame(0x00, 0x04, 0x00, b[4], 0x08, 0x72, 0x05, 0x00, 0x68, 0x00, 0x00, 0x00, 0x10)
	case b[6] == 0x60 && b[7] == 0x07:
		s.identified++
		s.port.in <- vFrame(0x00, 0x04, 0x00, b[4], 0x04, 0x60, 0x08, 0x00, 0x02)
	}
}

func vStickController(file string, s *vStick) (*Controller, *vPort) {
	port := vNewPort()
	s.port = port
	s.attach()
	c, err := ConnectWithCustomPortOpener("/port", file, vOpener(func() (io.ReadWriteCloser, error) { return port, nil }))
	sym.Assert(err == nil && c != nil, "the connection succeeds")
	return c, port
}

// vUse is everything a program does with a node, one call at a time: locks of an earlier call can hide a missing one.
func vUse(n *nodes.Node, what int) {
	switch what {
	case 0:
		n.On()
	case 1:
		n.Off()
	case 2:
		n.Level(30)
	case 3:
		n.GetID()
	case 4:
		n.ProtocolInfo()
	case 5:
		n.IsDeviceClass(0x10, 0x01)
	case 6:
		n.HasCommand(commands.SwitchBinary)
	case 7:
		n.Endpoint(1)
	case 8:
		if e := n.Endpoint(1); e != nil {
			e.On()
			e.Off()
			e.Level(10)
		}
	case 9:
		json.Marshal(n)
	}
}

//verif:goal property=C36 reach=used,saved timed=1 race=1 timeout=200 steps=20000000 thorough.timeout=800 thorough.delays=1
//verif:uses util.go c23.go
//verif:doc discovery and identification of a listening and a sleeping node that wakes up, with replies after 0 or 7 ms, while another goroutine uses both nodes in one of ten ways at several moments, others save the configuration or read the events, and reports arrive at one of several moments: no two accesses to the same memory without synchronisation, one of them a write
func VerifC36Use() {
	sym.FixMapOrder(true)
	s := &vStick{delay: []time.Duration{0, 7 * time.Millisecond}[sym.Choice("delay", 2)]}
	c, port := vStickController(filepath.Join(sym.TempDir(), "config.json"), s)
	what := sym.Choice("use", 10)
	at := []time.Duration{0, 100, 500, 60000}[sym.Choice("moment", 4)] * time.Millisecond
	var ended [2]bool
	go func() {
		for range c.GetNextEvent() {
		}
	}()
	go func() {
		for i := 0; i < 4; i++ {
			time.Sleep(11 * time.Second)
			port.in <- vFrame(0x00, 0x04, 0x00, 3, 0x02, 0x84, 0x07)
		}
	}()
	go func() {
		for i := 0; i < 5; i++ {
			if i > 0 {
				time.Sleep([]time.Duration{0, 60, 400, 1500, 120000}[i] * time.Millisecond)
			}
			for _, n := range c.Nodes.All() {
				vUse(n, what)
				sym.Reach("used")
			}
		}
		ended[0] = true
	}()
	go func() {
		time.Sleep(at)
		port.in <- vFrame(0x00, 0x04, 0x00, 2, 0x03, 0x26, 0x03, sym.Byte("level"))
		port.in <- vFrame(0x00, 0x04, 0x00, 3, 0x09, 0x71, 0x05, 0x00, 0x00, 0x00, 0xff, 0x07, 0x02, 0x00)
	}()
	go func() {
		time.Sleep(at)
		sym.Assert(c.SaveConfigurationToFile() == nil, "saving succeeds")
		sym.Reach("saved")
		ended[1] = true
	}()
	time.Sleep(3 * time.Minute)
	sym.Assert(ended[0] && ended[1], "every call returns")
	sym.Assert(s.identified == 2, "both nodes are identified")
	on := sym.Bool("on")
	port.in <- vReport(2, sym.IteByte(on, 0xff, 0))
	time.Sleep(time.Second)
	v, ok := vOn(c.Nodes.Get(2))
	sym.Assert(ok && v == on, "reports still take effect")
	n := len(port.frames())
	c.Nodes.Get(2).On()
	time.Sleep(time.Second)
	sym.Assert(len(port.frames()) == n+1, "commands are still sent")
}

//verif:goal property=C36 reach=end timed=1 race=1 timeout=200 steps=20000000 thorough.timeout=800 delays=1 thorough.delays=2
//verif:uses util.go
//verif:doc two goroutines with a command or a request each, the first frame answered with ACK, NAK, CAN or nothing, replies or none, and the port failing at one of several moments
func VerifC36Connection() {
	sym.FixMapOrder(true)
	ack := []byte{0x06, 0x15, 0x18, 0x00}[sym.Choice("answer", 4)]
	reply := sym.Bool("reply")
	var port *vPort
	ended := 0
	conn := NewConnection()
	conn.reportCallback = func(byte, reports.Report) {}
	conn.portOpener = vOpener(func() (io.ReadWriteCloser, error) {
		port = vNewPort()
		port.stop = make(chan struct{})
		p := port
		p.onWrite = func(b []byte) {
			if len(b) == 1 || ack == 0 {
				return
			}
			a := ack
			ack = 0x06 // the first frame only
			go func() {
				time.Sleep(5 * time.Millisecond)
				p.in <- []byte{a}
				if reply {
					p.in <- vReport(b[4], 0xff)
				}
			}()
		}
		return port, nil
	})
	go func() {
		conn.Connect(make(chan error, 1))
		time.Sleep(time.Second)
		conn.Connect(make(chan error, 1))
	}()
	for g := 0; g < 2; g++ {
		g := g
		kind := 1
		if g == 0 {
			kind = sym.Choice("command", 3)
		}
		go func() {
			defer func() { ended++ }()
			time.Sleep(100 * time.Millisecond)
			cmd := vCmd{0x13, byte(2 + g), 0x02, 0x25, 0x02, 0x25}
			switch kind {
			case 0:
				conn.Write(cmd)
			case 1:
				r, _ := conn.WriteAndWaitForReport(cmd, 2*time.Second, 0x03)
				<-r
			case 2:
				r, _ := conn.WriteWithTimeout(cmd, 2*time.Second)
				<-r
			}
		}()
	}
	if at := sym.Choice("failure", 4); at > 0 {
		time.Sleep([]time.Duration{0, 50, 150, 1200}[at] * time.Millisecond)
		close(port.stop)
	}
	time.Sleep(time.Minute)
	sym.Reach("end")
	sym.Assert(ended == 2, "every call returns")
}
