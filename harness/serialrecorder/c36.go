package serialrecorder

import (
	"errors"
	"io"
	"time"

	"github.com/stampzilla/gozwave/zzverif/sym"
)

// vBlock is a port whose reads wait until it fails.
type vBlock struct {
	stop chan struct{}
	in   chan []byte
}

func (p *vBlock) Read(b []byte) (int, error) {
	select {
	case d := <-p.in:
		return copy(b, d), nil
	case <-p.stop:
		return 0, errVPort
	}
}
func (p *vBlock) Write(b []byte) (int, error) { return len(b), nil }
func (p *vBlock) Close() error                { return nil }

//verif:goal property=C36 reach=end timed=1 serial=1 race=1 delays=2 thorough.delays=4 timeout=200 thorough.timeout=800 steps=3000000
//verif:uses c29.go
//verif:doc a recorder used like a connection does: one goroutine opens, reads and, after failures, closes and opens again, while another writes
func VerifC36Recorder() {
	var port *vBlock
	sym.SerialPort(func(string, int) (io.ReadWriteCloser, error) {
		port = &vBlock{stop: make(chan struct{}), in: make(chan []byte, 1)}
		return port, nil
	})
	sr := New("/dev/x", 115200)
	sr.Logger = &vLog{}
	opened := make(chan io.ReadWriteCloser, 1)
	go func() {
		for i := 0; i < 3; i++ {
			rw, err := sr.Open()
			sym.Assert(err == nil, "the port is opened")
			if i == 0 {
				opened <- rw
			}
			buf := make([]byte, 4)
			for {
				if _, err := rw.Read(buf); err != nil {
					break
				}
			}
			rw.Close()
			time.Sleep(10 * time.Millisecond)
		}
	}()
	rw := <-opened
	again := sym.Choice("next write", 3)
	for i := 0; i < 4; i++ {
		rw.Write([]byte{0x06})
		time.Sleep(5 * time.Millisecond)
		if i == 0 {
			port.in <- []byte{1, 2}
		}
		if i < 2 {
			time.Sleep(time.Second)
			close(port.stop)
			time.Sleep([]time.Duration{5, 10, 50}[again] * time.Millisecond)
		}
	}
	sym.Reach("end")
}

//verif:goal property=C31 reach=failed,back timed=1 serial=1 delays=1 timeout=200 steps=3000000
//verif:uses c29.go
//verif:doc a recorded port that fails and cannot be opened again for 0..2 attempts, while the other side reads or writes: these fail without a crash, and after the port is back they succeed
func VerifC31Recorder() {
	ok := true
	var port *vBlock
	sym.SerialPort(func(string, int) (io.ReadWriteCloser, error) {
		if !ok {
			return nil, errors.New("no such device")
		}
		port = &vBlock{stop: make(chan struct{}), in: make(chan []byte, 1)}
		return port, nil
	})
	sr := New("/dev/x", 115200)
	sr.Logger = &vLog{}
	rw, err := sr.Open()
	sym.Assert(err == nil && rw != nil, "the port is opened")
	close(port.stop)
	_, err = rw.Read(make([]byte, 4))
	sym.Assert(err != nil, "a failure of the port is reported")
	if sym.Bool("closed") {
		rw.Close()
	}
	ok = false
	for i := sym.Choice("attempts", 3); i > 0; i-- {
		_, err := sr.Open()
		sym.Assert(err != nil, "the failure to open is reported")
		sym.Reach("failed")
		rw.Write([]byte{0x06})
		rw.Read(make([]byte, 4))
	}
	ok = true
	rw, err = sr.Open()
	sym.Assert(err == nil && rw != nil, "the port is opened again")
	n, err := rw.Write([]byte{0x06})
	sym.Assert(n == 1 && err == nil, "writes succeed again")
	port.in <- []byte{7}
	buf := make([]byte, 4)
	n, err = rw.Read(buf)
	sym.Assert(n == 1 && err == nil && buf[0] == 7, "reads succeed again")
	sym.Reach("back")
}
