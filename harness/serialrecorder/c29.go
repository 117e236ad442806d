package serialrecorder

import (
	"bytes"
	"encoding/gob"
	"errors"
	"io"
	"sync"
	"time"

	"github.com/stampzilla/gozwave/zzverif/sym"
)

// vPort is the recorded port: reads give the next chunk, writes are kept; n and err are as scripted.
type vPort struct {
	chunks [][]byte
	fail   []bool
	wrote  [][]byte
	short  bool
	closed int
}

var errVPort = errors.New("port failed")

func (p *vPort) Read(b []byte) (int, error) {
	if len(p.chunks) == 0 {
		return 0, io.EOF
	}
	n := copy(b, p.chunks[0])
	f := p.fail[0]
	p.chunks, p.fail = p.chunks[1:], p.fail[1:]
	if f {
		return n, errVPort
	}
	return n, nil
}
func (p *vPort) Write(b []byte) (int, error) {
	p.wrote = append(p.wrote, append([]byte{}, b...))
	if p.short {
		return len(b) / 2, errVPort
	}
	return len(b), nil
}
func (p *vPort) Close() error { p.closed++; return nil }

// vLog is a log that can be slow.
type vLog struct {
	mu    sync.Mutex
	buf   bytes.Buffer
	delay time.Duration
}

func (l *vLog) Write(b []byte) (int, error) {
	if l.delay > 0 {
		time.Sleep(l.delay)
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.buf.Write(b)
}

// vRows decodes a whole recording.
func vRows(l *vLog) []Row {
	l.mu.Lock()
	defer l.mu.Unlock()
	dec := gob.NewDecoder(bytes.NewReader(l.buf.Bytes()))
	var rows []Row
	for {
		var r Row
		err := dec.Decode(&r)
		if err == io.EOF {
			return rows
		}
		sym.Assert(err == nil, "the recording can be decoded")
		rows = append(rows, r)
	}
}

//verif:goal property=C29 reach=read,write,error,empty timed=1 serial=1 timeout=200 thorough.timeout=800 steps=3000000
//verif:doc up to three (thorough four) reads and writes in any order with 0..3 arbitrary bytes, also failing or short ones, the caller overwriting its buffer after each: results pass unchanged, and the recording has exactly these transfers in order
func VerifC29Sequence() {
	port := &vPort{}
	sym.SerialPort(func(name string, baud int) (io.ReadWriteCloser, error) {
		sym.Assert(name == "/dev/x" && baud == 115200, "the port asked for is opened")
		return port, nil
	})
	log := &vLog{}
	if sym.Bool("slow log") {
		log.delay = time.Second
	}
	sr := New("/dev/x", 115200)
	sr.Logger = log
	rw, err := sr.Open()
	sym.Assert(err == nil && rw != nil, "the port is opened")
	k := 1 + sym.Choice("operations", sym.Bound("operations", 3, 4))
	var want []Row
	buf := make([]byte, 4)
	for i := 0; i < k; i++ {
		data := sym.Bytes("data", sym.Choice("length", 3))
		fail := sym.Bool("fails")
		if sym.Bool("read") {
			sym.Reach("read")
			port.chunks, port.fail = [][]byte{data}, []bool{fail}
			n, err := rw.Read(buf)
			sym.Assert(n == len(data) && (err != nil) == fail, "a read returns what the port returned")
			sym.Assert(sym.EqBytes(buf[:n], data), "a read returns the bytes of the port")
			want = append(want, Row{Direction: DirectionRead, Data: data})
		} else {
			sym.Reach("write")
			port.short = fail
			copy(buf, data)
			n, err := rw.Write(buf[:len(data)])
			sent := len(data)
			if fail {
				sent /= 2
			}
			sym.Assert(n == sent && (err != nil) == fail, "a write returns what the port returned")
			sym.Assert(sym.EqBytes(port.wrote[len(port.wrote)-1], data), "a write passes the same bytes")
			want = append(want, Row{Direction: DirectionWrite, Data: data[:sent]})
		}
		if fail {
			sym.Reach("error")
		}
		if len(data) == 0 {
			sym.Reach("empty")
		}
		for j := range buf {
			buf[j] ^= 0x55
		}
	}
	time.Sleep(time.Minute)
	vSame(want, vRows(log))
	sym.Assert(rw.Close() == nil && port.closed == 1, "the port is closed")
}

func vSame(want, rows []Row) {
	// transfers of no bytes may be left out
	i := 0
	for _, w := range want {
		for i < len(rows) && len(rows[i].Data) == 0 && len(w.Data) > 0 {
			i++
		}
		if len(w.Data) == 0 {
			continue
		}
		sym.Assert(i < len(rows), "every transfer is recorded")
		sym.Assert(rows[i].Direction == w.Direction, "a transfer is recorded with its direction, in order")
		sym.Assert(sym.EqBytes(rows[i].Data, w.Data), "a transfer is recorded with its bytes")
		i++
	}
	for ; i < len(rows); i++ {
		sym.Assert(len(rows[i].Data) == 0, "each transfer is recorded once")
	}
}

//verif:goal property=C29 reach=end timed=1 serial=1 timeout=200 delays=2 thorough.delays=3 thorough.timeout=800 steps=3000000
//verif:doc a goroutine reading three times and one writing three times, each with one reused buffer, for every schedule within the delay bound, with a fast or slow log: both directions are recorded exactly and in order
func VerifC29Concurrent() {
	b := sym.Bytes("data", 6)
	port := &vPort{chunks: [][]byte{b[0:1], b[1:2], b[2:3]}, fail: make([]bool, 3)}
	sym.SerialPort(func(string, int) (io.ReadWriteCloser, error) { return port, nil })
	log := &vLog{}
	if sym.Bool("slow log") {
		log.delay = time.Second
	}
	sr := New("/dev/x", 115200)
	sr.Logger = log
	rw, _ := sr.Open()
	done := make(chan bool, 2)
	go func() {
		buf := make([]byte, 8)
		for i := 0; i < 3; i++ {
			n, err := rw.Read(buf)
			sym.Assert(n == 1 && err == nil && buf[0] == b[i], "a read returns the bytes of the port")
		}
		done <- true
	}()
	go func() {
		buf := make([]byte, 1)
		for i := 3; i < 6; i++ {
			buf[0] = b[i]
			n, err := rw.Write(buf)
			sym.Assert(n == 1 && err == nil, "a write returns what the port returned")
		}
		done <- true
	}()
	<-done
	<-done
	time.Sleep(time.Minute)
	var reads, writes []Row
	for _, r := range vRows(log) {
		if r.Direction.IsRead() {
			reads = append(reads, r)
		} else {
			writes = append(writes, r)
		}
	}
	var wr, ww []Row
	for i := 0; i < 3; i++ {
		wr = append(wr, Row{Direction: DirectionRead, Data: b[i : i+1]})
		ww = append(ww, Row{Direction: DirectionWrite, Data: b[3+i : 4+i]})
	}
	vSame(wr, reads)
	vSame(ww, writes)
	sym.Reach("end")
}

//verif:goal property=C29 reach=end,failed timed=1 serial=1 timeout=100 steps=3000000
//verif:doc the port is opened, used, closed and opened again up to three times, one of which fails: the recording is one that can be decoded, with all transfers in order
func VerifC29Reopen() {
	var ports []*vPort
	bad := sym.Choice("failing open", 4)
	sym.SerialPort(func(string, int) (io.ReadWriteCloser, error) {
		if len(ports) == bad {
			ports = append(ports, nil)
			return nil, errVPort
		}
		p := &vPort{}
		ports = append(ports, p)
		return p, nil
	})
	log := &vLog{}
	sr := New("/dev/x", 115200)
	sr.Logger = log
	var want []Row
	for i := 0; i < 3; i++ {
		rw, err := sr.Open()
		sym.Assert((err != nil) == (i == bad), "the result of opening the port is passed on")
		if err != nil {
			sym.Reach("failed")
			continue
		}
		data := sym.Bytes("data", 2)
		rw.Write(data)
		sym.Assert(len(ports[i].wrote) == 1 && sym.EqBytes(ports[i].wrote[0], data), "a write reaches the port opened last")
		want = append(want, Row{Direction: DirectionWrite, Data: data})
		ports[i].chunks, ports[i].fail = [][]byte{data}, []bool{false}
		buf := make([]byte, 5)
		n, _ := rw.Read(buf)
		sym.Assert(n == 2, "a read comes from the port opened last")
		want = append(want, Row{Direction: DirectionRead, Data: data})
		rw.Close()
		sym.Assert(ports[i].closed == 1, "the port opened last is closed")
	}
	time.Sleep(time.Minute)
	vSame(want, vRows(log))
	sym.Reach("end")
}

// vStall is a log that takes nothing until the port was used for a while.
type vStall struct {
	vLog
	stall time.Duration
}

func (l *vStall) Write(b []byte) (int, error) {
	d := l.stall
	l.stall = 0
	time.Sleep(d)
	return l.vLog.Write(b)
}

//verif:goal property=C29 reach=end timed=1 serial=1 timeout=100 thorough.timeout=600 steps=9000000
//verif:doc 250 (thorough 600) one-byte writes while the log takes nothing for a symbolic time of up to an hour: all are passed on and all are in the recording, in order
func VerifC29Stalled() {
	port := &vPort{}
	sym.SerialPort(func(string, int) (io.ReadWriteCloser, error) { return port, nil })
	stall := sym.I64("stall")
	sym.Assume(stall >= 0 && stall <= int64(time.Hour))
	log := &vStall{stall: time.Duration(stall)}
	sr := New("/dev/x", 115200)
	sr.Logger = log
	rw, _ := sr.Open()
	key := sym.Byte("key")
	k := sym.Bound("transfers", 250, 600)
	var want []Row
	for i := 0; i < k; i++ {
		b := []byte{byte(i) ^ key}
		n, err := rw.Write(b)
		sym.Assert(n == 1 && err == nil, "a write returns what the port returned")
		want = append(want, Row{Direction: DirectionWrite, Data: b})
	}
	time.Sleep(2 * time.Hour)
	sym.Assert(len(port.wrote) == k, "every write reaches the port")
	vSame(want, vRows(&log.vLog))
	sym.Reach("end")
}

//verif:goal property=C29 reach=end timed=1 serial=1 timeout=100 steps=9000000
//verif:doc one read and one write of 200 to 9000 bytes (five sizes) with arbitrary first, middle and last byte: passed on and recorded whole
func VerifC29Long() {
	n := []int{200, 255, 300, 1100, 9000}[sym.Choice("length", 5)]
	data := make([]byte, n)
	for i := range data {
		data[i] = byte(i)
	}
	data[0], data[n/2], data[n-1] = sym.Byte("first"), sym.Byte("middle"), sym.Byte("last")
	port := &vPort{chunks: [][]byte{data}, fail: make([]bool, 1)}
	sym.SerialPort(func(string, int) (io.ReadWriteCloser, error) { return port, nil })
	log := &vLog{}
	sr := New("/dev/x", 115200)
	sr.Logger = log
	rw, _ := sr.Open()
	buf := make([]byte, 10000)
	m, err := rw.Read(buf)
	sym.Assert(m == n && err == nil && sym.EqBytes(buf[:n], data), "a read returns the bytes of the port")
	m, err = rw.Write(buf[:n])
	sym.Assert(m == n && err == nil && sym.EqBytes(port.wrote[0], data), "a write passes the same bytes")
	time.Sleep(time.Minute)
	rows := vRows(log)
	var in, out []byte
	for _, r := range rows {
		if r.Direction.IsRead() {
			in = append(in, r.Data...)
		} else {
			out = append(out, r.Data...)
		}
	}
	sym.Assert(len(rows) == 2, "each transfer is recorded once")
	sym.Assert(sym.EqBytes(in, data) && sym.EqBytes(out, data), "a transfer is recorded with its bytes")
	sym.Reach("end")
}
