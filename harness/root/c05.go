package gozwave

import (
	"time"

	"github.com/stampzilla/gozwave/commands/reports"
	"github.com/stampzilla/gozwave/zzverif/sym"
)

// vSeen collects the switch reports delivered to the application.
type vSeen struct {
	node  []byte
	value []bool
}

func (s *vSeen) add(n byte, r reports.Report) {
	v := false
	if x, ok := r.(*reports.SwitchBinaryV1); ok {
		v = x.CurrentValue
	}
	s.node = append(s.node, n)
	s.value = append(s.value, v)
}

// vStream makes a stream of segments: valid report frames, corrupted frames and noise.
func vStream(segments int) (stream []byte, want *vSeen) {
	want = &vSeen{}
	for i := 0; i < segments; i++ {
		switch sym.Choice("segment", 3) {
		case 0:
			n := byte(2 + i)
			on := sym.Bool("on")
			f := vReport(n, sym.IteByte(on, 0xff, 0))
			stream = append(stream, f...)
			want.node, want.value = append(want.node, n), append(want.value, on)
		case 1: // a corrupted frame without further start byte
			f := vReport(0x21, 0xff)
			d := sym.Byte("error")
			at := []int{5, len(f) - 1}[sym.Choice("error at", 2)]
			f[at] ^= d
			sym.Assume(sym.And(d != 0, f[at] != 0x01))
			stream = append(stream, f...)
		case 2: // noise
			b := sym.Byte("noise")
			sym.Assume(b != 0x01)
			stream = append(stream, b)
		}
	}
	return
}

func vC05Check(port *vPort, got, want *vSeen) {
	sym.Assert(len(got.node) == len(want.node), "every valid frame is handled exactly once")
	for i := range want.node {
		sym.Assert(i < len(got.node) && got.node[i] == want.node[i] && got.value[i] == want.value[i], "frames are handled in order")
	}
	sym.Assert(len(port.writes) == port.acks() && port.acks() == len(want.node), "every valid frame is acknowledged exactly once")
	if len(want.node) > 1 {
		sym.Reach("several")
	}
}

//verif:goal property=C05 reach=several timed=1 timeout=250 steps=2000000 thorough.timeout=850
//verif:uses util.go
//verif:doc two (thorough three) segments, each a valid report, a corrupted frame or a noise byte, delivered in up to three (thorough four) reads cut anywhere, without pauses
func VerifC05Chunks() {
	stream, want := vStream(sym.Bound("segments", 2, 3))
	got := &vSeen{}
	_, port := vConnect(got.add)
	from := 0
	for k := 0; k < sym.Bound("cuts", 2, 3) && from < len(stream); k++ {
		n := 1 + sym.Choice("cut", len(stream)-from)
		port.in <- stream[from : from+n]
		from += n
	}
	if from < len(stream) {
		port.in <- stream[from:]
	}
	time.Sleep(time.Second)
	vC05Check(port, got, want)
}

//verif:goal property=C05 reach=several timed=1 timeout=250 delays=1 thorough.delays=2 steps=2000000 thorough.timeout=850
//verif:uses util.go
//verif:doc two (thorough three) segments in single-byte reads or all in one read, for every schedule within the delay bound
func VerifC05Schedules() {
	stream, want := vStream(sym.Bound("segments", 2, 3))
	got := &vSeen{}
	_, port := vConnect(got.add)
	if sym.Bool("bytewise") {
		for i := range stream {
			port.in <- stream[i : i+1]
		}
	} else {
		port.in <- stream
	}
	time.Sleep(time.Second)
	vC05Check(port, got, want)
}

//verif:goal property=C05 reach=kept,discarded,single timed=1 timeout=250 steps=2000000
//verif:uses util.go
//verif:doc a frame cut anywhere with a pause of 0..100 ms (to the nanosecond) between the two reads, followed by another frame in the same or the next read
func VerifC05Pause() {
	got := &vSeen{}
	_, port := vConnect(got.add)
	v := sym.Byte("value")
	f1, f2 := vReport(2, v), vReport(3, 0xff)
	sym.Assume(sym.And(f1[len(f1)-1] != 0x01, v != 0x01))
	d := time.Duration(sym.Int("pause", 0, 100_000_000))
	cut := 1 + sym.Choice("cut", len(f1)-1)
	port.in <- f1[:cut]
	time.Sleep(d)
	rest := append([]byte{}, f1[cut:]...)
	whole := sym.Bool("rest is lost")
	switch {
	case whole:
		sym.Assume(d > 40*time.Millisecond)
		port.in <- f2
	case sym.Bool("one read"):
		port.in <- append(rest, f2...)
	default:
		port.in <- rest
		port.in <- f2
	}
	time.Sleep(time.Second)
	n := len(got.node)
	sym.Assert(n > 0 && got.node[n-1] == 3 && got.value[n-1], "the frame after the pause is received")
	if d > 40*time.Millisecond {
		sym.Reach("discarded")
		if whole {
			sym.Reach("single")
		}
		sym.Assert(n == 1 && port.acks() == 1, "after more than 40 ms the incomplete frame is discarded")
	} else {
		sym.Reach("kept")
		sym.Assert(n == 2 && got.node[0] == 2 && port.acks() == 2, "a pause of at most 40 ms loses nothing")
	}
}

//verif:goal property=C05 reach=long timed=1 timeout=250 steps=3000000
//verif:uses util.go
//verif:doc a valid frame of 4..257 bytes (thorough: every length, quick: the lengths around the read size) between two report frames, in one burst that the port hands out in reads of at most 128 bytes
func VerifC05Long() {
	n := 2
	if sym.Bound("every length", 0, 1) == 1 {
		n = 2 + sym.Choice("body", 253)
	} else {
		n = []int{2, 100, 101, 113, 114, 115, 124, 125, 126, 200, 252, 253, 254}[sym.Choice("body", 13)]
	}
	body := make([]byte, n)
	body[1] = 0x77
	for i := 2; i < n; i++ {
		body[i] = byte(i)
	}
	body[n-1] = sym.Byte("last")
	if n == 2 {
		body[1] = 0x77
	}
	got := &vSeen{}
	_, port := vConnect(got.add)
	on := sym.Bool("on")
	stream := append(vReport(2, 0xff), vFrame(body...)...)
	stream = append(stream, vReport(3, sym.IteByte(on, 0xff, 0))...)
	port.in <- stream
	time.Sleep(time.Second)
	sym.Reach("long")
	sym.Assert(len(got.node) == 2 && got.node[0] == 2 && got.node[1] == 3 && got.value[0] && got.value[1] == on, "both reports are received in order")
	sym.Assert(port.acks() == 3, "all three frames are acknowledged")
}

//verif:goal property=C05 reach=kept,discarded timed=1 timeout=250 steps=2000000 thorough.timeout=850
//verif:uses util.go
//verif:doc a frame cut anywhere into three parts with pauses of 0..100 ms (to the nanosecond) between them, followed by another frame: pauses of at most 40 ms lose nothing, however long the frame takes as a whole
func VerifC05Trickle() {
	got := &vSeen{}
	_, port := vConnect(got.add)
	v := sym.Byte("value")
	f1, f2 := vReport(2, v), vReport(3, 0xff)
	sym.Assume(sym.And(f1[len(f1)-1] != 0x01, v != 0x01))
	d1 := time.Duration(sym.Int("first pause", 0, 100_000_000))
	d2 := time.Duration(sym.Int("second pause", 0, 100_000_000))
	a := 1 + sym.Choice("first cut", len(f1)-2)
	b := a + 1 + sym.Choice("second cut", len(f1)-a-1)
	port.in <- f1[:a]
	time.Sleep(d1)
	port.in <- f1[a:b]
	time.Sleep(d2)
	port.in <- f1[b:]
	port.in <- f2
	time.Sleep(time.Second)
	n := len(got.node)
	sym.Assert(n > 0 && got.node[n-1] == 3 && got.value[n-1], "the frame after the pauses is received")
	if sym.Or(d1 > 40*time.Millisecond, d2 > 40*time.Millisecond) {
		sym.Reach("discarded")
		sym.Assert(n == 1 && port.acks() == 1, "after more than 40 ms the incomplete frame is discarded")
	} else {
		sym.Reach("kept")
		sym.Assert(n == 2 && got.node[0] == 2 && port.acks() == 2, "pauses of at most 40 ms lose nothing")
	}
}
