package gozwave

import (
	"time"

	"github.com/stampzilla/gozwave/zzverif/sym"
)

// vScan counts the valid frames in a stream of bytes and whether the rest is an incomplete frame.
func vScan(b []byte) (frames int) {
	for len(b) > 0 {
		if b[0] != 0x01 {
			b = b[1:]
			continue
		}
		if len(b) < 2 {
			return
		}
		l := sym.Concrete(sym.IteInt(int(b[1])+2 > len(b), 0, int(b[1])+2))
		if l == 0 {
			return
		}
		x := byte(0xff)
		for _, c := range b[1 : l-1] {
			x ^= c
		}
		if x == b[l-1] && l > 2 || l == 2 && b[1] == 0xff {
			frames++
			b = b[l:]
		} else {
			b = b[1:]
		}
	}
	return
}

//verif:goal property=C06 reach=none,one,two timed=1 timeout=250 steps=2000000 thorough.timeout=850
//verif:uses util.go
//verif:doc a read of 1..6 (thorough 7) arbitrary bytes: as many ACK bytes are written as there are valid frames in it, and nothing else
func VerifC06Bytes() {
	n := 1 + sym.Choice("bytes", sym.Bound("bytes", 6, 7))
	b := sym.Bytes("data", n)
	_, port := vConnect(nil)
	port.in <- append([]byte{}, b...)
	time.Sleep(5 * time.Second)
	sym.Settle()
	k := vScan(b)
	sym.Reach([]string{"none", "one", "two", "two", "two", "two"}[k])
	sym.Assert(len(port.writes) == port.acks(), "only ACK bytes are written")
	sym.Assert(port.acks() == k, "one ACK for each valid frame and none for anything else")
}

//verif:goal property=C06 reach=frame timed=1 timeout=250 steps=2000000
//verif:uses util.go
//verif:doc a valid frame with arbitrary body of 1..12 (thorough 16) bytes, known or unknown function, decodable or not, with or without a pending request: exactly one ACK byte
func VerifC06Frame() {
	n := 1 + sym.Choice("body", sym.Bound("bodies", 12, 16))
	body := sym.Bytes("body", n)
	if n > 9 {
		sym.Assume(body[5] != 0x31) // sensor readings: C10
	}
	conn, port := vConnect(nil)
	if sym.Bool("pending") {
		port.onWrite = func(p []byte) {
			if len(p) > 1 {
				go func() { port.in <- []byte{0x06} }()
			}
		}
		ret, _ := conn.WriteWithTimeout(vCmd{0x13, 0x05, 0x02, 0x25, 0x02, 0x25}, 10*time.Second)
		go func() {
			<-ret
		}()
		time.Sleep(time.Second)
		port.writes = nil
	}
	port.in <- vFrame(body...)
	time.Sleep(3 * time.Second)
	sym.Reach("frame")
	sym.Assert(len(port.writes) == 1 && port.acks() == 1, "a valid frame is acknowledged exactly once")
}

//verif:goal property=C06 reach=bad timed=1 timeout=250 steps=2000000
//verif:uses util.go
//verif:doc a frame of 4..7 (thorough 9) bytes without further start byte and with a wrong checksum, or cut short anywhere: nothing is written
func VerifC06Bad() {
	n := 1 + sym.Choice("body", sym.Bound("bodies", 4, 6))
	body := sym.Bytes("body", n)
	f := vFrame(body...)
	d := sym.Byte("error")
	f[len(f)-1] ^= d
	k := len(f)
	if sym.Bool("cut") {
		k = 1 + sym.Choice("keep", len(f)-1)
	} else {
		sym.Assume(d != 0)
		for i, b := range f {
			sym.Assume(i == 0 || b != 0x01)
		}
	}
	_, port := vConnect(nil)
	port.in <- f[:k]
	time.Sleep(3 * time.Second)
	sym.Reach("bad")
	sym.Assert(len(port.writes) == 0, "nothing is written for an invalid or incomplete frame")
}
