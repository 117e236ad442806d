package gozwave

import (
	"io"
	"os"
	"time"

	"github.com/stampzilla/gozwave/zzverif/sym"
)

//verif:goal property=C31 reach=failed,reconnected,refused,sent timed=1 timeout=250 steps=4000000 delays=1 thorough.timeout=850
//verif:uses util.go
//verif:doc up to 2 port failures, each 100 ms, 1 s or 10 s after opening, with reopening refused 0..1 times each (thorough 2), commands sent while connected, just after the failure and after the last reconnect
func VerifC31Reconnect() {
	fails := 1 + sym.Choice("failures", sym.Bound("failures", 2, 2))
	var ports []*vPort
	var opens []time.Duration
	var lastFail time.Duration
	start := time.Now()
	since := func() time.Duration { return time.Since(start) }
	refusals := 0
	open := false
	var lastWrite time.Duration
	var seen [256]int
	overlap := false
	opener := vOpener(func() (io.ReadWriteCloser, error) {
		opens = append(opens, since())
		if len(ports) > 0 {
			sym.Assert(since() == lastFail+time.Second, "the port is opened again one second after the failure")
			if refusals < sym.Bound("refusals", 1, 2) && sym.Bool("refused") {
				sym.Reach("refused")
				refusals++
				lastFail = since()
				return nil, errPort
			}
			sym.Reach("reconnected")
		}
		refusals = 0
		p := vNewPort()
		open = false
		p.onWrite = func(b []byte) {
			if len(b) == 1 || p != ports[len(ports)-1] {
				return
			}
			now := since()
			if open && now-lastWrite < time.Second {
				overlap = true
			}
			open, lastWrite = true, now
			if b[3] == 0x13 {
				seen[b[6]]++
			}
			go func() {
				time.Sleep(300 * time.Millisecond)
				if p == ports[len(ports)-1] && p.closed == 0 {
					open = false
					p.in <- []byte{0x06}
				}
			}()
		}
		ports = append(ports, p)
		return p, nil
	})
	c, err := ConnectWithCustomPortOpener("/port", "", opener)
	sym.Assert(err == nil && c != nil, "the first connect succeeds")
	sym.Assert(since() == 200*time.Millisecond && c.Connection.Connected, "connected")
	for f := 0; f < fails; f++ {
		d := []time.Duration{1200 * time.Millisecond, 100 * time.Millisecond, 10 * time.Second}[sym.Choice("fails after", 3)]
		time.Sleep(d)
		n := len(ports)
		p := ports[n-1]
		close(p.in)
		sym.Settle()
		lastFail = since()
		sym.Reach("failed")
		sym.Assert(p.closed == 1, "the failed port is closed once")
		sym.Assert(!c.Connection.Connected, "after a failure the connection is reported as disconnected")
		if sym.Bool("command while disconnected") {
			go c.Connection.Write(vCmd{0x13, 0x02, 0x01, 0xe0})
		}
		time.Sleep(950 * time.Millisecond)
		sym.Assert(!c.Connection.Connected, "until the port is open again the connection is disconnected")
		for len(ports) == n {
			time.Sleep(100 * time.Millisecond)
		}
		if f == fails-1 || sym.Bool("wait until connected") {
			time.Sleep(300 * time.Millisecond)
			sym.Assert(c.Connection.Connected, "after the port was opened again the connection is reported as connected")
		}
	}
	for k := byte(1); k <= 3; k++ {
		k := k
		go c.Connection.Write(vCmd{0x13, 0x02, 0x01, k})
	}
	time.Sleep(20 * time.Second)
	sym.Reach("sent")
	for k := byte(1); k <= 3; k++ {
		sym.Assert(seen[k] == 1, "every command sent after the reconnect reaches the new port once")
	}
	sym.Assert(!overlap, "commands are sent one at a time after a reconnect")
	for i, p := range ports {
		sym.Assert(p.closed == 0 || i < len(ports)-1, "a working port is not closed")
	}
}

//verif:goal property=C31 reach=refused timed=1 timeout=100 delays=2 thorough.delays=4 steps=2000000
//verif:uses util.go
//verif:doc the first opening fails: the error is returned, for every schedule within the delay bound
func VerifC31First() {
	n := 0
	c, err := ConnectWithCustomPortOpener("/port", "", vOpener(func() (io.ReadWriteCloser, error) {
		n++
		if n == 1 {
			return nil, errPort
		}
		return vNewPort(), nil
	}))
	sym.Reach("refused")
	sym.Assert(err == errPort && c == nil, "a failure to open the port for the first time is returned")
}

//verif:goal property=C31 reach=reopened timed=1 timeout=100 delays=1 thorough.delays=3 steps=2000000
//verif:uses util.go
//verif:doc three port failures in a row, each with any of the errors end of file, unexpected end of file, closed or another, also in the middle of a frame and together with some bytes: the port is opened again each time and works
func VerifC31Errors() {
	var ports []*vPort
	reports := 0
	c, err := ConnectWithCustomPortOpener("/port", "", vOpener(func() (io.ReadWriteCloser, error) {
		p := vNewPort()
		ports = append(ports, p)
		return p, nil
	}))
	sym.Assert(err == nil && c != nil, "the first connect succeeds")
	inFrame, withBytes := sym.Bool("in a frame"), sym.Bool("with bytes")
	for i := 1; i <= 3; i++ {
		p := ports[i-1]
		p.err = []error{errPort, io.EOF, io.ErrUnexpectedEOF, os.ErrClosed}[sym.Choice("error", 4)]
		if inFrame {
			p.in <- []byte{0x01, 0x09, 0x00}
		}
		if withBytes {
			p.last = []byte{0x04, 0x00}
		}
		close(p.in)
		time.Sleep(1500 * time.Millisecond)
		sym.Assert(p.closed == 1, "the failed port is closed once")
		sym.Assert(len(ports) == i+1, "the port is opened again after every failure")
		sym.Assert(c.Connection.Connected, "the new connection is reported")
		ports[i].in <- vReport(9, 0xff)
		sym.Settle()
		reports++
		sym.Assert(ports[i].acks() == 1, "the new port is read")
	}
	sym.Reach("reopened")
}

//verif:goal property=C31 reach=idle,waiting,sent timed=1 timeout=250 steps=4000000 thorough.delays=1 thorough.timeout=850
//verif:uses util.go
//verif:doc a command answered after any time below a second, the port failing at any time from 0 to 3 s (to the nanosecond; before, while or after it is answered), and three commands any time from 1 to 4 s after that (just when the port is opened again or later): each of them reaches the new port once, one at a time
func VerifC31Times() {
	start := time.Now()
	var ports []*vPort
	var opened []time.Duration
	var answer [4]time.Duration
	answer[0] = time.Duration(sym.I64("answered after"))
	sym.Assume(sym.And(answer[0] >= 0, answer[0] < time.Second))
	var seen [4]int
	open, overlap := false, false
	var last time.Duration
	opener := vOpener(func() (io.ReadWriteCloser, error) {
		p := vNewPort()
		p.stop = make(chan struct{})
		open = false
		ports = append(ports, p)
		opened = append(opened, time.Since(start))
		p.onWrite = func(b []byte) {
			if len(b) == 1 || p != ports[len(ports)-1] || b[3] != 0x13 {
				return
			}
			now := time.Since(start)
			if open && now-last < time.Second {
				overlap = true
			}
			open, last = true, now
			k := b[6]
			seen[k]++
			go func() {
				time.Sleep(answer[k])
				if p == ports[len(ports)-1] && p.closed == 0 {
					open = false
					p.in <- []byte{0x06}
				}
			}()
		}
		return p, nil
	})
	c, err := ConnectWithCustomPortOpener("/port", "", opener)
	sym.Assert(err == nil && c != nil, "the first connect succeeds")
	fails := time.Duration(sym.I64("fails after"))
	sym.Assume(sym.And(fails >= 0, fails <= 3*time.Second))
	later := time.Duration(sym.I64("commands after"))
	sym.Assume(sym.And(later > time.Second, later <= 4*time.Second))
	c.Connection.Write(vCmd{0x13, 0x02, 0x01, 0x00})
	time.Sleep(fails)
	if open {
		sym.Reach("waiting")
	} else {
		sym.Reach("idle")
	}
	p := ports[len(ports)-1]
	close(p.stop)
	failed := time.Since(start)
	sym.Settle()
	sym.Assert(p.closed == 1 && !c.Connection.Connected, "after a failure the port is closed and the connection reported as disconnected")
	time.Sleep(later)
	for k := byte(1); k <= 3; k++ {
		c.Connection.Write(vCmd{0x13, 0x02, 0x01, k})
	}
	time.Sleep(10 * time.Second)
	sym.Reach("sent")
	for _, at := range opened[1:2] {
		sym.Assert(at == failed+time.Second, "the port is opened again one second after the failure")
	}
	sym.Assert(len(ports) == 2 && c.Connection.Connected, "the connection works again")
	for k := 1; k <= 3; k++ {
		sym.Assert(seen[k] == 1, "every command sent after the reconnect reaches the new port once")
	}
	sym.Assert(!overlap, "commands are sent one at a time after a reconnect")
}

//verif:goal property=C31 reach=back timed=1 timeout=200 steps=4000000 thorough.delays=1 thorough.timeout=800
//verif:uses util.go
//verif:doc the port fails, opening it again fails up to three times, and a command is sent at any time in the meantime: nothing crashes, it is tried again every second, and a command sent after that reaches the new port
func VerifC31Outage() {
	k := 1 + sym.Choice("failed attempts", 3)
	var ports []*vPort
	var tried []time.Duration
	start := time.Now()
	seen := 0
	opener := vOpener(func() (io.ReadWriteCloser, error) {
		tried = append(tried, time.Since(start))
		if len(tried) > 1 && len(tried) <= 1+k {
			return nil, errPort
		}
		p := vNewPort()
		p.stop = make(chan struct{})
		p.onWrite = func(b []byte) {
			if len(b) == 1 || b[3] != 0x13 {
				return
			}
			if b[6] == 2 {
				seen++
			}
			if p.closed == 0 {
				go func() { p.in <- []byte{0x06} }()
			}
		}
		ports = append(ports, p)
		return p, nil
	})
	c, err := ConnectWithCustomPortOpener("/port", "", opener)
	sym.Assert(err == nil && c != nil, "the first connect succeeds")
	time.Sleep(2 * time.Second)
	failed := time.Since(start)
	close(ports[0].stop)
	after := time.Duration(sym.I64("command after"))
	sym.Assume(sym.And(after > 0, after < time.Duration(k+1)*time.Second))
	time.Sleep(after)
	sym.Assert(!c.Connection.Connected, "a connection whose port failed is reported as disconnected")
	go c.Connection.Write(vCmd{0x13, 0x02, 0x01, 0x01})
	time.Sleep(time.Duration(k+3)*time.Second - after)
	sym.Assert(len(tried) == k+2 && len(ports) == 2, "the port is opened again until that succeeds")
	for i := 1; i < len(tried); i++ {
		sym.Assert(tried[i] == failed+time.Duration(i)*time.Second, "it is tried every second")
	}
	sym.Assert(c.Connection.Connected && ports[0].closed == 1, "the new connection is reported and the old port closed")
	c.Connection.Write(vCmd{0x13, 0x02, 0x01, 0x02})
	time.Sleep(5 * time.Second)
	sym.Reach("back")
	sym.Assert(seen == 1 && len(ports[1].frames()) > 0, "a command sent after the reconnect reaches the new port")
}
