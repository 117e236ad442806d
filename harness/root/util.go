package gozwave

import (
	"errors"
	"io"
	"time"

	"github.com/stampzilla/gozwave/commands/reports"
	"github.com/stampzilla/gozwave/nodes"
)

// vCmd is a command given as its bytes.
type vCmd []byte

func (c vCmd) Encode() []byte { return append([]byte{}, c...) }

// vPort is the serial port of the model: reads come from in, writes are logged with their time.
type vPort struct {
	in      chan []byte
	rest    []byte
	writes  [][]byte
	at      []time.Duration
	start   time.Time
	closed  int
	onWrite func(p []byte)
	err     error         // what Read returns when in is closed
	stop    chan struct{} // closed to make the port fail
	last    []byte        // what Read returns together with the error
}

var errPort = errors.New("port failed")

func vNewPort() *vPort { return &vPort{in: make(chan []byte), start: time.Now()} }

func (p *vPort) Read(b []byte) (int, error) {
	if len(p.rest) == 0 {
		var c []byte
		ok := false
		select {
		case c, ok = <-p.in:
		case <-p.stop: // never, if nil
		}
		if !ok {
			if p.err != nil {
				return copy(b, p.last), p.err
			}
			return copy(b, p.last), errPort
		}
		p.rest = c
	}
	n := copy(b, p.rest)
	p.rest = p.rest[n:]
	return n, nil
}

func (p *vPort) Write(b []byte) (int, error) {
	c := append([]byte{}, b...)
	p.writes = append(p.writes, c)
	p.at = append(p.at, time.Since(p.start))
	if p.onWrite != nil {
		p.onWrite(c)
	}
	return len(b), nil
}

func (p *vPort) Close() error {
	p.closed++
	return nil
}

// frames are the writes that are no ACK bytes.
func (p *vPort) frames() [][]byte {
	var r [][]byte
	for _, w := range p.writes {
		if len(w) != 1 {
			r = append(r, w)
		}
	}
	return r
}

// acks counts the single ACK bytes written; other single bytes count as -1000.
func (p *vPort) acks() int {
	n := 0
	for _, w := range p.writes {
		if len(w) == 1 {
			if w[0] == 0x06 {
				n++
			} else {
				n -= 1000
			}
		}
	}
	return n
}

type vOpener func() (io.ReadWriteCloser, error)

func (o vOpener) Open() (io.ReadWriteCloser, error) { return o() }

// vConnect starts a connection on a new port.
func vConnect(report func(byte, reports.Report)) (*Connection, *vPort) {
	port := vNewPort()
	conn := NewConnection()
	conn.portOpener = vOpener(func() (io.ReadWriteCloser, error) { return port, nil })
	if report != nil {
		conn.reportCallback = report
	}
	go conn.Connect(make(chan error, 1))
	return conn, port
}

// vFrame makes a valid frame with the given bytes between length and checksum.
func vFrame(body ...byte) []byte {
	f := make([]byte, 0, len(body)+3)
	f = append(f, 0x01, byte(len(body)+1))
	f = append(f, body...)
	x := byte(0xff)
	for _, b := range f[1:] {
		x ^= b
	}
	return append(f, x)
}

// vReport is a switch report of a node, as received.
func vReport(node, value byte) []byte {
	return vFrame(0x00, 0x04, 0x00, node, 0x03, 0x25, 0x03, value)
}

// vOn reads the switch state of a node.
func vOn(n *nodes.Node) (on, ok bool) {
	n.RLock()
	defer n.RUnlock()
	on, ok = n.StateBool["on"]
	return
}
