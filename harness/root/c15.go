package gozwave

import (
	"time"

	"github.com/stampzilla/gozwave/zzverif/sym"
)

// vC15Script answers the k-th write of a command in one of the ways a controller can.
func vC15Script(port *vPort, reply []byte, kind int) {
	switch kind {
	case 0: // silence
	case 1:
		port.in <- []byte{0x06}
	case 2:
		port.in <- []byte{0x15}
	case 3:
		port.in <- []byte{0x18}
	case 4: // ACK and reply
		port.in <- []byte{0x06}
		port.in <- reply
	case 5: // in one read
		port.in <- append([]byte{0x06}, reply...)
	case 6: // the reply comes first
		port.in <- reply
		port.in <- []byte{0x06}
	case 7: // twice
		port.in <- []byte{0x06}
		port.in <- reply
		port.in <- reply
	case 8: // NAK twice
		port.in <- []byte{0x15}
		port.in <- []byte{0x15}
	case 9: // the reply, then NAK
		port.in <- reply
		port.in <- []byte{0x15}
	case 10: // NAK after noise in one read
		port.in <- []byte{0x33, 0x15}
	case 11: // NAK after a frame with a wrong checksum
		port.in <- []byte{0x01, 0x04, 0x00, 0x04, 0x33, 0x33, 0x15}
	case 12: // all of it after noise
		port.in <- append([]byte{0x33, 0x06}, reply...)
	}
}

//verif:goal property=C15 reach=reply,closed,nak timed=1 timeout=250 delays=2 thorough.delays=3 steps=2000000 thorough.timeout=850
//verif:uses util.go
//verif:doc one caller with a timed request (WriteWithTimeout or WriteAndWaitForReport), every way of answering (silence, ACK, NAK, CAN, reply before, after, with or without ACK, doubled, or undecodable, the answers also behind noise or a damaged frame in one read), and every schedule within the delay bound
func VerifC15Ends() {
	conn, port := vConnect(nil)
	kind := sym.Choice("answer", 13)
	decodable := sym.Bool("decodable")
	reply := vFrame(0x00, 0x04, 0x00, 0x07, 0x03, 0x25, 0x03, sym.Byte("value"))
	if !decodable {
		reply = vFrame(0x00, 0x04, 0x00, 0x07, 0x03, 0x25, 0x03)
	}
	n := 0
	port.onWrite = func(p []byte) {
		if len(p) > 1 {
			n++
			k := kind
			if n > 1 {
				k = 1
			}
			go vC15Script(port, reply, k)
		}
	}
	start := time.Now()
	cmd := vCmd{0x13, 0x07, 0x02, 0x25, 0x02, 0x25}
	got := false
	var el time.Duration
	if sym.Bool("wait for report") {
		ret, _ := conn.WriteAndWaitForReport(cmd, 2*time.Second, 0x03)
		r, ok := <-ret
		got = ok
		el = time.Since(start)
		sym.Assert(!ok || r != nil, "a delivered report is a report")
		sym.Assert(!ok || decodable, "an undecodable reply is not delivered as a report")
	} else {
		ret, _ := conn.WriteWithTimeout(cmd, 2*time.Second)
		_, ok := <-ret
		got = ok
		el = time.Since(start)
		if ok {
			_, more := <-ret
			sym.Assert(!more, "the channel is closed after the reply")
		}
	}
	replied := kind >= 4 && kind <= 9 && kind != 8 || kind == 12
	switch {
	case replied:
		sym.Reach("reply")
		if decodable {
			sym.Assert(got, "a matching reply in time is delivered")
		}
		sym.Assert(el < time.Second, "a reply ends the request at once")
	case kind == 2 || kind == 8 || kind == 10 || kind == 11:
		sym.Reach("nak")
		sym.Assert(!got, "NAK closes the channel")
		sym.Assert(el < 200*time.Millisecond, "NAK closes the channel at once")
	default:
		sym.Reach("closed")
		sym.Assert(!got, "without a reply the channel is closed")
		sym.Assert(el <= 2200*time.Millisecond, "the channel is closed when the timeout has passed")
		sym.Assert(el >= 2*time.Second, "the channel is not closed before the timeout")
	}
	time.Sleep(5 * time.Second)
	sym.Settle()
}

//verif:goal property=C15 reach=reply,late,closed timed=1 timeout=250 delays=0 thorough.delays=1 steps=2000000 thorough.timeout=850
//verif:uses util.go
//verif:doc one request of either kind with any timeout from 1 ns to 30 s, ACK and a reply after any time up to 31 s, or neither: it ends with the reply before the timeout, and closed at the timeout otherwise
func VerifC15Timeout() {
	conn, port := vConnect(nil)
	timeout := time.Duration(sym.I64("timeout"))
	sym.Assume(sym.And(timeout >= 1, timeout <= 30*time.Second))
	after := time.Duration(sym.I64("reply after"))
	sym.Assume(sym.And(after >= 0, after <= 31*time.Second))
	answered := sym.Bool("answered")
	acked := answered || sym.Bool("acknowledged")
	port.onWrite = func(p []byte) {
		if len(p) == 1 {
			return
		}
		go func() {
			if acked {
				port.in <- []byte{0x06}
			}
			if answered {
				time.Sleep(after)
				port.in <- vFrame(0x00, 0x04, 0x00, 0x07, 0x03, 0x25, 0x03, 0xff)
			}
		}()
	}
	cmd := vCmd{0x13, 0x07, 0x02, 0x25, 0x02, 0x25}
	got := false
	var start time.Time
	var el time.Duration
	if sym.Bool("wait for report") {
		ret, _ := conn.WriteAndWaitForReport(cmd, timeout, 0x03)
		start = time.Now()
		_, got = <-ret
		el = time.Since(start)
	} else {
		ret, _ := conn.WriteWithTimeout(cmd, timeout)
		start = time.Now()
		_, got = <-ret
		el = time.Since(start)
	}
	switch {
	case answered && after < timeout:
		sym.Reach("reply")
		sym.Assert(got && el <= after+50*time.Millisecond, "a reply in time is delivered")
	case answered && after > timeout:
		sym.Reach("late")
		sym.Assert(!got && el >= timeout && el <= timeout+200*time.Millisecond, "a late reply is not delivered")
	case !answered:
		sym.Reach("closed")
		sym.Assert(!got && el >= timeout && el <= timeout+200*time.Millisecond, "without a reply the channel is closed at the timeout")
	}
}

//verif:goal property=C15 reach=closed,nak timed=1 timeout=250 delays=0 thorough.delays=1 steps=2000000 thorough.timeout=850
//verif:uses util.go
//verif:doc one request of either kind with any timeout up to 5 s, refused with CAN once (thorough up to three times) after any time below a second, then acknowledged, refused with NAK or left: it ends closed, at the NAK or at the timeout, also when that passes between CAN and the next write
func VerifC15Refused() {
	conn, port := vConnect(nil)
	timeout := time.Duration(sym.I64("timeout"))
	sym.Assume(sym.And(timeout >= 1, timeout <= 5*time.Second))
	after := time.Duration(sym.I64("CAN after"))
	sym.Assume(sym.And(after >= 0, after < time.Second))
	cans := 1 + sym.Choice("refusals", sym.Bound("refusals", 1, 3))
	last := sym.Choice("then", 3)
	n := 0
	var refused time.Duration
	port.onWrite = func(p []byte) {
		if len(p) == 1 {
			return
		}
		n++
		answer := []byte{0x18}
		if n > cans {
			switch last {
			case 0:
				return
			case 1:
				answer = []byte{0x06}
			default:
				answer = []byte{0x15}
			}
		}
		first := n == 1
		go func() {
			if first {
				time.Sleep(after)
			}
			if answer[0] == 0x15 {
				refused = time.Since(port.start)
			}
			port.in <- answer
		}()
	}
	cmd := vCmd{0x13, 0x07, 0x02, 0x25, 0x02, 0x25}
	got := false
	var start time.Time
	if sym.Bool("wait for report") {
		ret, _ := conn.WriteAndWaitForReport(cmd, timeout, 0x03)
		start = time.Now()
		_, got = <-ret
	} else {
		ret, _ := conn.WriteWithTimeout(cmd, timeout)
		start = time.Now()
		_, got = <-ret
	}
	el := time.Since(start)
	sym.Assert(!got, "without a reply the channel is closed")
	sym.Assert(el <= timeout+200*time.Millisecond, "the channel is closed when the timeout has passed")
	if el < timeout {
		sym.Reach("nak")
		sym.Assert(refused > 0, "the channel is not closed before the timeout, unless by NAK")
	} else {
		sym.Reach("closed")
	}
	time.Sleep(10 * time.Second)
	sym.Settle()
}

//verif:goal property=C15 reach=reply,closed timed=1 timeout=250 delays=0 thorough.delays=1 steps=2000000 thorough.timeout=850
//verif:uses util.go
//verif:doc a caller that looks for its result any time from 0 to 60 s after it has sent a request of either kind, answered at once or never, while a second caller's request is answered as well: the reply is still there, and the second caller gets its own without waiting for the first
func VerifC15Patience() {
	conn, port := vConnect(nil)
	pause := time.Duration(sym.I64("pause"))
	sym.Assume(sym.And(pause >= 0, pause <= time.Minute))
	answered := sym.Bool("answered")
	port.onWrite = func(p []byte) {
		if len(p) == 1 {
			return
		}
		node := p[4]
		go func() {
			port.in <- []byte{0x06}
			if answered || node == 8 {
				port.in <- vFrame(0x00, 0x04, 0x00, node, 0x03, 0x25, 0x03, 0xff)
			}
		}()
	}
	second := false
	cmd := vCmd{0x13, 0x07, 0x02, 0x25, 0x02, 0x25}
	other := func() {
		start := time.Now()
		ret, _ := conn.WriteAndWaitForReport(vCmd{0x13, 0x08, 0x02, 0x25, 0x02, 0x25}, 5*time.Second, 0x03)
		_, ok := <-ret
		sym.Assert(ok && time.Since(start) < 500*time.Millisecond, "a reply does not wait for another caller")
		second = true
	}
	got := false
	if sym.Bool("wait for report") {
		ret, _ := conn.WriteAndWaitForReport(cmd, 2*time.Second, 0x03)
		go other()
		time.Sleep(pause)
		_, got = <-ret
	} else {
		ret, _ := conn.WriteWithTimeout(cmd, 2*time.Second)
		go other()
		time.Sleep(pause)
		_, got = <-ret
	}
	if answered {
		sym.Reach("reply")
	} else {
		sym.Reach("closed")
	}
	sym.Assert(got == answered, "a reply in time is delivered, whenever the caller looks for it")
	time.Sleep(5 * time.Second)
	sym.Assert(second, "every request ends")
}

//verif:goal property=C15 reach=reply timed=1 timeout=200 delays=1 thorough.delays=3 steps=2000000 thorough.timeout=800
//verif:uses util.go
//verif:doc a request that waits for its reply while a second one, to the same or another node, is refused with NAK, refused with CAN, times out or gets its reply: the first gets its own reply afterwards, for every schedule within the delay bound
func VerifC15Others() {
	conn, port := vConnect(nil)
	how := sym.Choice("second", 4)
	node := byte(7 + sym.Choice("other node", 2))
	cans := 0
	port.onWrite = func(p []byte) {
		if len(p) == 1 {
			return
		}
		second := p[6] == 0x26
		go func() {
			switch {
			case second && how == 0:
				port.in <- []byte{0x15}
			case second && how == 1 && cans == 0:
				cans++
				port.in <- []byte{0x18}
			default:
				port.in <- []byte{0x06}
				if second && how == 3 {
					port.in <- vFrame(0x00, 0x04, 0x00, node, 0x03, 0x26, 0x03, 0x20)
				}
			}
		}()
	}
	first, _ := conn.WriteWithTimeout(vCmd{0x13, 0x07, 0x02, 0x25, 0x02, 0x25}, 5*time.Second)
	done := make(chan bool, 1)
	go func() {
		ret, _ := conn.WriteAndWaitForReport(vCmd{0x13, node, 0x02, 0x26, 0x02, 0x25}, time.Second, 0x03)
		_, ok := <-ret
		done <- ok
	}()
	time.Sleep(3 * time.Second)
	sym.Assert(len(done) == 1 && <-done == (how == 3), "the second request has ended")
	go func() { port.in <- vFrame(0x00, 0x04, 0x00, 0x07, 0x03, 0x25, 0x03, 0xff) }()
	msg, ok := <-first
	sym.Reach("reply")
	sym.Assert(ok && msg != nil && msg.NodeID == 7, "a request is not ended by what happens to another")
}
