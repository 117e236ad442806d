package gozwave

import (
	"time"

	"github.com/stampzilla/gozwave/serialapi"
	"github.com/stampzilla/gozwave/zzverif/sym"
)

// vAnswers tells whether a frame completes a request, from the property text. The last byte of the
// frame is its checksum.
func vAnswers(f []byte, function, node, class, expected byte) bool {
	body := f[:len(f)-1]
	at := func(i int) byte { return body[i] }
	if len(body) < 4 {
		return false
	}
	fn := sym.Or(at(3) == function, sym.And(function == 0x13, at(3) == 0x04))
	if function == 0x41 {
		return fn
	}
	ok := fn
	if node != 0 {
		if len(body) < 6 {
			return false
		}
		ok = sym.And(ok, at(5) == node)
	}
	if class != 0 {
		if len(body) < 8 {
			return false
		}
		ok = sym.And(ok, at(7) == class)
	}
	if expected != 0 {
		if len(body) < 9 {
			return false
		}
		ok = sym.And(ok, at(8) == expected)
	}
	return ok
}

func vC14Got(ch <-chan bool) bool {
	select {
	case r := <-ch:
		return r
	case <-time.After(5 * time.Second):
		return false
	}
}

//verif:goal property=C14 reach=completed,ignored,short timed=1 timeout=200 thorough.timeout=800 steps=2000000
//verif:uses util.go
//verif:doc a pending request (discovery, protocol info, send data with and without expected report or class; any node, class and report id) and one received frame of 4..12 bytes with arbitrary content, followed in the same read by nothing or by another frame
func VerifC14Reply() {
	node, class, er := sym.Byte("node"), sym.Byte("class"), byte(0)
	sym.Assume(sym.And(node != 0, class != 0))
	cmd := vCmd{0x13, node, 0x03, class, 0x02, 0x25}
	switch sym.Choice("request", 5) {
	case 0:
		cmd, node, class = vCmd{0x02}, 0, 0
	case 1:
		cmd, class = vCmd{0x41, node}, 0
	case 2:
		er = sym.Byte("expected")
		sym.Assume(er != 0)
	case 3: // Without a class
		cmd, class = vCmd{0x13, node, 0x01}, 0
		er = sym.Byte("expected")
		sym.Assume(er != 0)
	}
	n := sym.Choice("frame bytes", sym.Bound("frame bytes", 9, 12))
	f := vFrame(append([]byte{0x00}, sym.Bytes("frame", n)...)...)
	chunk := f
	if sym.Bool("following") {
		chunk = append(append([]byte{}, f...), vFrame(0x01, 0x77, node, node, class, class, er, er)...)
	}
	conn, port := vConnect(nil)
	port.onWrite = func(p []byte) {
		if len(p) > 1 {
			go func() {
				port.in <- []byte{0x06}
				port.in <- chunk
			}()
		}
	}
	done := make(chan bool, 1)
	if er != 0 {
		// the report itself is not delivered when it cannot be decoded; the request ends all the same
		ret, _ := conn.WriteAndWaitForReport(cmd, 10*time.Second, er)
		go func() {
			<-ret
			done <- true
		}()
	} else {
		ret, _ := conn.WriteWithTimeout(cmd, 10*time.Second)
		go func() {
			_, ok := <-ret
			done <- ok
		}()
	}
	got := vC14Got(done)
	want := vAnswers(f, cmd[0], node, class, er)
	if got {
		sym.Reach("completed")
	} else {
		sym.Reach("ignored")
		if len(f) < 9 {
			sym.Reach("short")
		}
	}
	sym.Assert(got == want, "a request is completed by exactly the frames that answer it")
}

//verif:goal property=C14 reach=both,first,second,none timed=1 timeout=200 steps=2000000 delays=1 thorough.delays=2 thorough.timeout=800
//verif:uses util.go
//verif:doc two requests pending at the same time (any nodes, classes, report ids) and one application command: each is completed if and only if it matches, whichever is looked at first
func VerifC14Pending() {
	var node, class, er [2]byte
	var done [2]chan bool
	conn, port := vConnect(nil)
	frames := 0
	port.onWrite = func(p []byte) {
		if len(p) > 1 {
			frames++
			go func() { port.in <- []byte{0x06} }()
		}
	}
	for i := range node {
		node[i], class[i], er[i] = sym.Byte("node"), sym.Byte("class"), sym.Byte("expected")
		sym.Assume(sym.And(node[i] != 0, class[i] != 0, er[i] != 0))
		ret, _ := conn.WriteAndWaitForReport(vCmd{0x13, node[i], 0x02, class[i], 0x02, 0x25}, 10*time.Second, er[i])
		d := make(chan bool, 1)
		done[i] = d
		go func() {
			<-ret
			d <- true
		}()
	}
	time.Sleep(500 * time.Millisecond)
	sym.Assert(frames == 2, "both requests are sent")
	f := vFrame(append([]byte{0x00, 0x04, 0x00}, sym.Bytes("frame", 5)...)...)
	port.in <- f
	time.Sleep(3 * time.Second)
	n := 0
	for i := range node {
		got := false
		select {
		case got = <-done[i]:
		default:
		}
		want := vAnswers(f, 0x13, node[i], class[i], er[i])
		sym.Assert(got == want, "each pending request is completed if and only if the frame answers it")
		if got {
			n += 1 + i
		}
	}
	sym.Reach([]string{"none", "first", "second", "both"}[n])
}

//verif:goal property=C14 reach=slow,fast timed=1 timeout=200 steps=2000000 thorough.timeout=800
//verif:uses util.go
//verif:doc two or three protocol-info requests (any nodes) sent at once to a controller that answers in order, each any time below a second after the request (so before or after the next requests): each caller gets the answer to its own request
func VerifC14Info() { vC14Info(0, 2+sym.Choice("requests", 2), true) }

//verif:goal property=C14 reach=slow,fast timed=1 timeout=200 steps=2000000 delays=2 thorough.delays=3 thorough.timeout=800
//verif:uses util.go
//verif:doc two such requests, answered 1 ms or 700 ms later, for every schedule within the delay bound
func VerifC14InfoSchedules() { vC14Info(0, 2, false) }

//verif:goal property=C14 reach=slow,fast timed=1 timeout=200 steps=9000000 thorough.timeout=800
//verif:uses util.go
//verif:doc the same without deviations after 125..129 or 253..257 other commands of the same connection
func VerifC14InfoLater() {
	k := sym.Choice("earlier commands", 10)
	vC14Info([]int{125, 253}[k/5]+k%5, 2, false)
}

func vC14Info(before, n int, anyTime bool) {
	node, basic := sym.Bytes("node", n), sym.Bytes("basic", n)
	for _, x := range node {
		sym.Assume(x != 0)
	}
	var delay [3]time.Duration
	slow := !anyTime && sym.Bool("slow")
	for i := range delay[:n] {
		if !anyTime {
			delay[i] = time.Millisecond
			if slow {
				delay[i] = 700 * time.Millisecond
			}
			continue
		}
		delay[i] = time.Duration(sym.I64("delay"))
		sym.Assume(sym.And(delay[i] >= 0, delay[i] < time.Second))
		// the controller answers in the order of the requests, which are
		// written as soon as the previous one was acknowledged
		if i > 0 {
			sym.Assume(delay[i] >= delay[i-1])
		}
	}
	if delay[0] >= 200*time.Millisecond {
		sym.Reach("slow")
	} else {
		sym.Reach("fast")
	}
	conn, port := vConnect(nil)
	sent := 0
	port.onWrite = func(p []byte) {
		if len(p) > 1 && p[3] != 0x41 {
			go func() { port.in <- []byte{0x06} }()
		}
		if len(p) > 1 && p[3] == 0x41 {
			i := sent
			sent++
			go func() {
				port.in <- []byte{0x06}
				time.Sleep(delay[i])
				port.in <- vFrame(0x01, 0x41, 0xd3, 0x9c, 0x00, basic[i], 0x10, 0x01)
			}()
		}
	}
	for i := 0; i < before; i++ {
		conn.Write(vCmd{0x13, 0x02, 0x03, 0x25, 0x01, 0xff, 0x25})
	}
	var got [3]chan int
	for i := 0; i < n; i++ {
		ret, _ := conn.WriteWithTimeout(vCmd{0x41, node[i]}, 10*time.Second)
		ch := make(chan int, 1)
		got[i] = ch
		go func() {
			m, ok := <-ret
			if !ok || m == nil {
				ch <- -1
				return
			}
			info, ok := m.Data.(*serialapi.FuncGetNodeProtocolInfo)
			if !ok {
				ch <- -2
				return
			}
			ch <- int(info.Basic)
		}()
	}
	time.Sleep(9 * time.Second)
	for i := 0; i < n; i++ {
		select {
		case b := <-got[i]:
			sym.Assert(b == int(basic[i]), "a protocol-info reply completes the request that it answers")
		default:
			sym.Assert(false, "a protocol-info request is completed by its reply")
		}
	}
}
