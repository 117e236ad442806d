package nodes

import (
	"errors"
	"time"

	"github.com/stampzilla/gozwave/commands"
	"github.com/stampzilla/gozwave/commands/reports"
	"github.com/stampzilla/gozwave/database"
	"github.com/stampzilla/gozwave/events"
	"github.com/stampzilla/gozwave/interfaces"
	"github.com/stampzilla/gozwave/serialapi"
	"github.com/stampzilla/gozwave/zzverif/sym"
)

var errWriter = errors.New("write failed")

// vWriter records the commands a node writes and answers them through the functions given.
type vWriter struct {
	sent   [][]byte
	at     []time.Duration
	start  time.Time
	onSend func(b []byte)
	answer func(b []byte) *serialapi.Message
	report func(b []byte, expected byte) reports.Report
	fail   func() bool
	delay  time.Duration
}

func (w *vWriter) log(e interfaces.Encodable) []byte {
	b := append([]byte{}, e.Encode()...)
	w.sent = append(w.sent, b)
	w.at = append(w.at, time.Since(w.start))
	if w.onSend != nil {
		w.onSend(b)
	}
	return b
}

func (w *vWriter) Write(e interfaces.Encodable) error {
	w.log(e)
	return nil
}

func (w *vWriter) WriteWithTimeout(e interfaces.Encodable, t time.Duration) (<-chan *serialapi.Message, error) {
	b := w.log(e)
	if w.fail != nil && w.fail() {
		return nil, errWriter
	}
	ch := make(chan *serialapi.Message)
	go func() {
		defer close(ch)
		var m *serialapi.Message
		if w.answer != nil {
			m = w.answer(b)
		}
		if m == nil {
			time.Sleep(t)
			return
		}
		time.Sleep(w.delay)
		ch <- m
	}()
	return ch, nil
}

func (w *vWriter) WriteAndWaitForReport(e interfaces.Encodable, t time.Duration, er byte) (<-chan reports.Report, error) {
	b := w.log(e)
	if w.fail != nil && w.fail() {
		return nil, errWriter
	}
	ch := make(chan reports.Report)
	go func() {
		defer close(ch)
		var r reports.Report
		if w.report != nil {
			r = w.report(b, er)
		}
		if r == nil {
			time.Sleep(t)
			return
		}
		time.Sleep(w.delay)
		ch <- r
	}()
	return ch, nil
}

// vEvents collects the update events of nodes.
type vEvents struct {
	updated []int
	other   int
}

func (e *vEvents) push(x interface{}) {
	if u, ok := x.(events.NodeUpdated); ok {
		e.updated = append(e.updated, u.Address)
	} else {
		e.other++
	}
}

// vNode makes a node with recorded commands and events.
func vNode(id int) (*Node, *vWriter, *vEvents) {
	n := New(id)
	w := &vWriter{start: time.Now()}
	e := &vEvents{}
	n.Setup(w, e.push)
	return n, w, e
}

// vClasses makes a list of up to max command classes with arbitrary ids.
func vClasses(max int) []*database.CommandClass {
	var r []*database.CommandClass
	k := sym.Choice("classes", max+2)
	if k == max+1 {
		return []*database.CommandClass{}
	}
	for i := 0; i < k; i++ {
		r = append(r, &database.CommandClass{ID: commands.ZWaveCommand(sym.Byte("class"))})
	}
	return r
}

func vHas(cc []*database.CommandClass, id byte) bool {
	r := false
	for _, c := range cc {
		r = sym.Or(r, byte(c.ID) == id)
	}
	return r
}

// vLocked runs f under the node's lock.
func vLocked(n *Node, f func()) {
	n.Lock()
	defer n.Unlock()
	f()
}
