package gozwave

import (
	"time"

	"github.com/stampzilla/gozwave/zzverif/sym"
)

//verif:goal property=C16 reach=ack,nak,can,silence,late,timed timed=1 timeout=250 steps=3000000 thorough.delays=1 thorough.timeout=850
//verif:uses util.go
//verif:doc three commands of one sender (timed or not), each write answered at once or 300 ms later with ACK, NAK, CAN, a report frame followed by ACK or CAN, two ACKs at once, or not at all
func VerifC16Order() { vC16Order(3) }

//verif:goal property=C16 reach=ack,nak,can,silence,late,timed timed=1 timeout=250 delays=1 thorough.delays=2 steps=3000000 thorough.timeout=850
//verif:uses util.go
//verif:doc as VerifC16Order with two commands and every schedule within the delay bound
func VerifC16Schedules() { vC16Order(2) }

func vC16Order(n int) {
	conn, port := vConnect(nil)
	var answered, lastWrite time.Duration
	open := false // a command is written and not answered
	writes := make([]int, n+1)
	cans := make([]int, n+1)
	first := 0
	val := sym.Bytes("value", n)
	frame := func(k int) []byte { return vFrame(0x00, 0x13, byte(k), 0x03, 0x25, 0x01, val[k-1], 0x25) }
	port.onWrite = func(p []byte) {
		if len(p) == 1 {
			return
		}
		now := time.Since(port.start)
		sym.Assert(len(p) == 11, "the frame is complete")
		k := int(p[4])
		sym.Assert(k >= 1 && k <= n, "a command that was sent")
		sym.Assert(sym.EqBytes(p, frame(k)), "the bytes of the command are unchanged")
		writes[k]++
		if writes[k] == 1 {
			sym.Assert(k == first+1, "commands are written in the order sent")
			first = k
		} else {
			sym.Assert(writes[k] <= 1+cans[k], "only a command answered with CAN is written again")
		}
		if open {
			sym.Reach("silence")
			sym.Assert(now-lastWrite >= time.Second, "without an answer the next command waits a second")
		}
		open, lastWrite = true, now
		kind := 1
		switch { // silence, ACK, NAK, CAN, report and ACK, report and CAN, ACK twice
		case writes[k] == 1:
			kind = sym.Choice("answer", 7)
		case cans[k] < 2:
			kind = sym.Choice("answer", sym.Bound("later answers", 2, 4))
		}
		late := time.Duration(0)
		if kind > 0 && k == 1 && sym.Bool("late") {
			sym.Reach("late")
			late = 300 * time.Millisecond
		}
		go func() {
			time.Sleep(late)
			if kind >= 4 { // a report of the same node and class crosses the command
				port.in <- vReport(byte(k), 0xff)
			}
			switch kind {
			case 1, 4:
				sym.Reach("ack")
				answered, open = time.Since(port.start), false
				port.in <- []byte{0x06}
			case 2:
				sym.Reach("nak")
				answered, open = time.Since(port.start), false
				port.in <- []byte{0x15}
			case 6:
				answered, open = time.Since(port.start), false
				port.in <- []byte{0x06, 0x06}
			case 3, 5:
				sym.Reach("can")
				cans[k]++
				answered, open = time.Since(port.start), false
				port.in <- []byte{0x18}
			}
		}()
	}
	timed := sym.Bool("timed")
	for k := 1; k <= n; k++ {
		c := vCmd{0x13, byte(k), 0x03, 0x25, 0x01, val[k-1], 0x25}
		if timed {
			sym.Reach("timed")
			ret, _ := conn.WriteWithTimeout(c, 3*time.Second)
			go func() {
				<-ret
			}()
		} else {
			conn.Write(c)
		}
	}
	time.Sleep(20 * time.Second)
	_ = answered
	for k := 1; k <= n; k++ {
		sym.Assert(writes[k] == 1+cans[k], "every command is written once, and once more for every CAN")
	}
}

//verif:goal property=C16 reach=second timed=1 timeout=250 delays=2 thorough.delays=2 steps=3000000 thorough.timeout=850
//verif:uses util.go
//verif:doc three senders at once, answers after 0..1.5 s or never: no command is written while another waits for its answer, and each is written exactly once
func VerifC16Senders() {
	conn, port := vConnect(nil)
	open := false
	var last time.Duration
	writes := make([]int, 4)
	port.onWrite = func(p []byte) {
		if len(p) == 1 {
			return
		}
		now := time.Since(port.start)
		writes[p[4]]++
		if open {
			sym.Reach("second")
			sym.Assert(now-last >= time.Second, "without an answer the next command waits a second")
		}
		open, last = true, now
		k := sym.Choice("answer after", 4)
		if k == 3 {
			return
		}
		go func() {
			time.Sleep([]time.Duration{0, 400 * time.Millisecond, 900 * time.Millisecond}[k])
			open = false
			port.in <- []byte{0x06}
		}()
	}
	for k := 1; k <= 3; k++ {
		k := k
		go conn.Write(vCmd{0x13, byte(k), 0x03, 0x25, 0x01, 0xff, 0x25})
	}
	time.Sleep(10 * time.Second)
	for k := 1; k <= 3; k++ {
		sym.Assert(writes[k] == 1, "every command is written exactly once")
	}
}

//verif:goal property=C16 reach=ack,nak,can,silence,none timed=1 timeout=250 steps=3000000 thorough.delays=1 thorough.timeout=850
//verif:uses util.go
//verif:doc three commands, the first two answered after any time below one second, or between one and three seconds (to the nanosecond), with ACK, NAK or CAN, or never: the next one is written exactly at the answer or one second after the previous one, whichever comes first; then one that is never answered and another, for which no earlier answer may be taken
func VerifC16Times() {
	conn, port := vConnect(nil)
	var writes [6]int
	var last time.Duration
	due := time.Duration(-1) // when the next command may be written
	port.onWrite = func(p []byte) {
		if len(p) == 1 {
			return
		}
		now := time.Since(port.start)
		k := int(p[4])
		writes[k]++
		if k > 1 && k != 4 || writes[k] > 1 {
			sym.Assert(due >= 0 && now >= due, "the next command waits for the answer, or a second")
			sym.Assert(now <= due+200*time.Millisecond, "the next command is written then")
		}
		last, due = now, now+time.Second
		if k == 4 {
			return
		}
		if k == 3 || k == 5 || writes[k] > 1 {
			go func() { due = now; port.in <- []byte{0x06} }()
			return
		}
		kind := sym.Choice("answer", 4)
		if kind == 0 {
			sym.Reach("none")
			return
		}
		after := time.Duration(sym.I64("answer after"))
		if kind != 3 && sym.Bool("too late") {
			// it comes when no command is waiting any more
			sym.Assume(sym.And(after > 1200*time.Millisecond, after <= 3*time.Second))
			sym.Assume(k == 2)
			sym.Reach("silence")
		} else {
			sym.Assume(sym.And(after >= 0, after < time.Second))
		}
		w := now
		go func() {
			time.Sleep(after)
			if last == w {
				due = w + after
			}
			switch kind {
			case 1:
				sym.Reach("ack")
				port.in <- []byte{0x06}
			case 2:
				sym.Reach("nak")
				port.in <- []byte{0x15}
			case 3:
				sym.Reach("can")
				port.in <- []byte{0x18}
			}
		}()
	}
	for k := 1; k <= 5; k++ {
		if k == 4 {
			time.Sleep(10 * time.Second)
		}
		conn.Write(vCmd{0x13, byte(k), 0x03, 0x25, 0x01, 0xff, 0x25})
	}
	time.Sleep(10 * time.Second)
	for k := 1; k <= 5; k++ {
		sym.Assert(writes[k] >= 1, "every command is written")
	}
}

//verif:goal property=C16 reach=ack,nak,silence timed=1 timeout=100 steps=3000000
//verif:uses util.go
//verif:doc a command (timed or not) refused with CAN up to twelve (thorough thirty) times and then answered with ACK, NAK or not at all, and another command behind it: it is written once more, unchanged, for every CAN, the other one once
func VerifC16Resend() {
	conn, port := vConnect(nil)
	cans := sym.Choice("refusals", 1+sym.Bound("refusals", 12, 30))
	last := sym.Choice("last answer", 3)
	val := sym.Byte("value")
	writes, others := 0, 0
	port.onWrite = func(p []byte) {
		if len(p) == 1 {
			return
		}
		if p[4] == 2 {
			others++
			go func() { port.in <- []byte{0x06} }()
			return
		}
		sym.Assert(sym.EqBytes(p, vFrame(0x00, 0x13, 1, 0x03, 0x25, 0x01, val, 0x25)), "the bytes of the command are unchanged")
		writes++
		answer := []byte{0x18}
		if writes > cans {
			switch last {
			case 0:
				sym.Reach("ack")
				answer = []byte{0x06}
			case 1:
				sym.Reach("nak")
				answer = []byte{0x15}
			default:
				sym.Reach("silence")
				return
			}
		}
		go func() { port.in <- answer }()
	}
	cmd := vCmd{0x13, 1, 0x03, 0x25, 0x01, val, 0x25}
	if sym.Bool("timed") {
		ret, _ := conn.WriteWithTimeout(cmd, 20*time.Second)
		go func() {
			<-ret
		}()
	} else {
		conn.Write(cmd)
	}
	go conn.Write(vCmd{0x13, 2, 0x03, 0x25, 0x01, 0xff, 0x25})
	time.Sleep(time.Minute)
	sym.Assert(writes == cans+1, "the command is written once, and once more for every CAN")
	sym.Assert(others == 1, "another command is written once")
}
