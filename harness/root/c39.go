package gozwave

import (
	"io"
	"runtime"
	"time"

	"github.com/stampzilla/gozwave/zzverif/sym"
)

//verif:goal property=C39 reach=refused,failed timed=1 timeout=100 delays=1 thorough.delays=3 steps=3000000
//verif:uses util.go
//verif:doc the port cannot be opened, or fails at once and cannot be opened again: the failed Connect leaves no goroutine behind and never opens the port again, for every schedule within the delay bound
func VerifC39Refused() {
	before := runtime.NumGoroutine()
	opened := 0
	first := sym.Bool("opens first")
	c, err := ConnectWithCustomPortOpener("/port", "", vOpener(func() (io.ReadWriteCloser, error) {
		opened++
		if opened == 1 && first {
			p := vNewPort()
			close(p.in)
			return p, nil
		}
		if opened == 1 || opened == 2 && first {
			return nil, errPort
		}
		return vNewPort(), nil
	}))
	sym.Assert(err != nil && c == nil, "the failure is returned")
	if first {
		sym.Reach("failed")
	} else {
		sym.Reach("refused")
	}
	n := opened
	time.Sleep(30 * time.Second)
	sym.Assert(opened == n, "the port is left alone after a failed Connect")
	sym.Assert(runtime.NumGoroutine() <= before+1, "no goroutines are left behind") // a send worker has nothing to do
}

//verif:goal property=C39 reach=reply,closed,unread,ignored timed=1 timeout=200 delays=0 thorough.delays=1 steps=3000000
//verif:uses util.go
//verif:doc up to two requests of either kind, the first answered in one of seven ways, the second in one of three (silence, ACK, NAK, CAN once, ACK and reply, reply and ACK, ACK and an undecodable reply), and a command: forty seconds later no goroutine is left
func VerifC39Requests() {
	var port *vPort
	c, err := ConnectWithCustomPortOpener("/port", "", vOpener(func() (io.ReadWriteCloser, error) {
		port = vNewPort()
		return port, nil
	}))
	sym.Assert(err == nil && c != nil, "the connection succeeds")
	time.Sleep(30 * time.Second)
	idle := runtime.NumGoroutine()
	k := 1 + sym.Choice("requests", 2)
	first, answers := true, 7
	port.onWrite = func(b []byte) {
		if len(b) == 1 {
			return
		}
		node, how := b[4], sym.Choice("answer", answers)
		if !first { // Also when it is sent again
			how = []int{0, 1, 4}[how%3]
		}
		first, answers = false, 3
		go func() {
			time.Sleep(10 * time.Millisecond)
			reply := vReport(node, 0xff)
			if how == 6 {
				reply = vFrame(0x00, 0x04, 0x00, node, 0x05, 0x25, 0x03, 0xff)
			}
			switch how {
			case 1:
				port.in <- []byte{0x06}
			case 2:
				port.in <- []byte{0x15}
			case 3:
				port.in <- []byte{0x18}
			case 4, 6:
				port.in <- []byte{0x06}
				time.Sleep(10 * time.Millisecond)
				port.in <- reply
			case 5:
				port.in <- reply
				port.in <- []byte{0x06}
			}
		}()
	}
	ended := 0
	for i := 0; i < k; i++ {
		cmd := vCmd{0x13, byte(2 + i), 0x02, 0x25, 0x02, 0x25}
		if sym.Bool("report") {
			t, err := c.Connection.WriteAndWaitForReport(cmd, 5*time.Second, 0x03)
			sym.Assert(err == nil, "the request is sent")
			if sym.Bool("nobody reads the report") {
				sym.Reach("ignored")
				ended++
				continue
			}
			go func() {
				if r := <-t; r != nil {
					sym.Reach("reply")
				} else {
					sym.Reach("closed")
				}
				ended++
			}()
		} else {
			t, err := c.Connection.WriteWithTimeout(cmd, 5*time.Second)
			sym.Assert(err == nil, "the request is sent")
			if sym.Bool("nobody reads the reply") {
				sym.Reach("unread")
				ended++
				continue
			}
			go func() {
				<-t
				ended++
			}()
		}
	}
	c.Connection.Write(vCmd{0x13, 0x04, 0x02, 0x25, 0x01, 0xff})
	time.Sleep(40 * time.Second)
	sym.Assert(ended == k, "every request ends")
	sym.Assert(runtime.NumGoroutine() <= idle, "no goroutines are left behind")
}

//verif:goal property=C39 reach=end timed=1 timeout=200 delays=0 thorough.delays=1 steps=6000000
//verif:uses util.go
//verif:doc the port fails one to three times, with or without a command in between and a refused opening: the same number of goroutines as after the first connect, each failed port closed
func VerifC39Reconnects() {
	var ports []*vPort
	refuse := false
	c, err := ConnectWithCustomPortOpener("/port", "", vOpener(func() (io.ReadWriteCloser, error) {
		if refuse {
			refuse = false
			return nil, errPort
		}
		p := vNewPort()
		p.stop = make(chan struct{})
		ports = append(ports, p)
		return p, nil
	}))
	sym.Assert(err == nil && c != nil, "the connection succeeds")
	time.Sleep(30 * time.Second)
	idle := runtime.NumGoroutine()
	k := 1 + sym.Choice("failures", 3)
	for i := 0; i < k; i++ {
		if sym.Bool("command") {
			c.Connection.Write(vCmd{0x13, 0x02, 0x02, 0x25, 0x01, 0xff})
		}
		refuse = sym.Bool("refused")
		close(ports[i].stop)
		time.Sleep(15 * time.Second)
		sym.Assert(len(ports) == i+2 && ports[i].closed == 1, "the port is closed and opened again")
		sym.Assert(runtime.NumGoroutine() <= idle, "no goroutines are left behind")
	}
	sym.Reach("end")
}

//verif:goal property=C39 reach=end timed=1 timeout=200 steps=6000000
//verif:uses util.go c23.go
//verif:doc one to fifteen reports (switch, alarm or wake-up) of two nodes with nobody reading events, and a saved configuration or none: forty seconds later no goroutine is left
func VerifC39Reports() {
	name := ""
	if sym.Bool("file") {
		name = sym.TempDir() + "/config.json"
	}
	var port *vPort
	c, err := ConnectWithCustomPortOpener("/port", name, vOpener(func() (io.ReadWriteCloser, error) {
		port = vNewPort()
		return port, nil
	}))
	sym.Assert(err == nil && c != nil, "the connection succeeds")
	c.initNode(2, nil)
	c.initNode(3, nil)
	time.Sleep(30 * time.Second)
	idle := runtime.NumGoroutine()
	k := []int{1, 2, 15}[sym.Choice("reports", 3)]
	kind := sym.Choice("kind", 3)
	for i := 0; i < k; i++ {
		node := byte(2 + i%2)
		switch kind {
		case 0:
			port.in <- vReport(node, 0xff)
		case 1:
			port.in <- vFrame(0x00, 0x04, 0x00, node, 0x08, 0x71, 0x05, 0x07, 0x01, 0x00, 0xff, 0x07, 0x02)
		default:
			port.in <- vFrame(0x00, 0x04, 0x00, node, 0x02, 0x84, 0x07)
		}
	}
	time.Sleep(40 * time.Second)
	sym.Reach("end")
	sym.Assert(runtime.NumGoroutine() <= idle, "no goroutines are left behind")
}
