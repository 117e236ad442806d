package gozwave

import (
	"io"
	"time"

	"github.com/stampzilla/gozwave/events"
	"github.com/stampzilla/gozwave/nodes"
	"github.com/stampzilla/gozwave/zzverif/sym"
)

//verif:goal property=C32 reach=dropped,kept timed=1 timeout=200 steps=6000000 thorough.timeout=800
//verif:uses util.go
//verif:doc 1..14 (thorough 40) reports of two nodes while the consumer reads nothing, then reads everything, then 3 more: every report takes effect without delay, the events read are the first ones in order, and events flow again afterwards
func VerifC32Slow() {
	sym.FixMapOrder(true)
	port := vNewPort()
	c, _ := ConnectWithCustomPortOpener("/port", "", vOpener(func() (io.ReadWriteCloser, error) { return port, nil }))
	for id := 1; id <= 2; id++ {
		n := nodes.New(id)
		n.Setup(c.Connection, c.pushEvent)
		c.Nodes.Add(n)
	}
	k := 1 + sym.Choice("reports", sym.Bound("reports", 14, 40))
	order := make([]byte, k)
	start := time.Now()
	for i := range order {
		order[i] = 1
		if i%3 == 1 {
			order[i] = 2
		}
		on := i%4 < 2
		if i < 4 || i > k-4 {
			on = sym.Bool("on")
		}
		port.in <- vReport(order[i], sym.IteByte(on, 0xff, 0))
		sym.Settle()
		v, ok := vOn(c.Nodes.Get(int(order[i])))
		sym.Assert(ok && v == on, "a report takes effect although nobody reads the events")
	}
	sym.Assert(time.Since(start) == 0, "the processing of reports does not wait")
	q := c.GetNextEvent()
	read := 0
	for {
		select {
		case e := <-q:
			u, ok := e.(events.NodeUpdated)
			sym.Assert(ok, "an update event")
			sym.Assert(read < k && u.Address == int(order[read]), "events are queued in order and only later ones are dropped")
			read++
			continue
		default:
		}
		break
	}
	if k > read {
		sym.Reach("dropped")
	} else {
		sym.Reach("kept")
	}
	sym.Assert(read == k || read == cap(q), "events are dropped only when the queue is full")
	sym.Assert(read <= cap(q), "further events are dropped when the queue is full")
	for i := 0; i < 3; i++ {
		port.in <- vReport(2, 0xff)
		sym.Settle()
		select {
		case e := <-q:
			sym.Assert(e.(events.NodeUpdated).Address == 2, "events flow again")
		default:
			sym.Assert(false, "events flow again after the queue was read")
		}
	}
}

//verif:goal property=C32 reach=end timed=1 timeout=200 steps=6000000 thorough.timeout=800 native=0
//verif:uses util.go
//verif:doc discovery of 16 nodes with nobody reading events: all are registered and their identification starts without waiting
func VerifC32Discovery() {
	sym.FixMapOrder(true)
	port := vNewPort()
	asked := 0
	port.onWrite = func(b []byte) {
		if len(b) == 1 {
			return
		}
		go func() {
			port.in <- []byte{0x06}
			if b[3] == 0x02 {
				port.in <- vFrame(append([]byte{0x01, 0x02, 0x05, 0x00, 0x1d, 0xff, 0xff, 0x01}, make([]byte, 28)...)...)
			}
			if b[3] == 0x41 {
				asked++
			}
		}()
	}
	c, _ := ConnectWithCustomPortOpener("/port", "", vOpener(func() (io.ReadWriteCloser, error) { return port, nil }))
	time.Sleep(200 * time.Millisecond)
	sym.Assert(len(c.Nodes.All()) == 16, "all nodes are registered although nobody reads the events")
	time.Sleep(2 * time.Second)
	sym.Reach("end")
	sym.Assert(asked == 16, "the identification of all nodes starts")
	sym.Assert(len(c.GetNextEvent()) == cap(c.GetNextEvent()), "the queue is full")
	e := <-c.GetNextEvent()
	_, ok := e.(events.NodeDiscoverd)
	sym.Assert(ok, "the first event is a discovery")
}

//verif:goal property=C32 reach=end timed=1 native=0 preempt=1 timeout=200 steps=6000000 delays=2 thorough.delays=3 thorough.timeout=800
//verif:uses util.go
//verif:doc two goroutines announcing three events each when the queue is full or has one or two places left, for every schedule within the delay bound: nobody waits, and the places are filled
func VerifC32Full() {
	c := NewController()
	q := c.GetNextEvent()
	free := sym.Choice("places", 3)
	for i := cap(q); i > free; i-- {
		c.pushEvent(events.NodeDiscoverd{Address: 1})
	}
	done := make(chan bool, 2)
	for g := 0; g < 2; g++ {
		go func() {
			for i := 0; i < 3; i++ {
				c.pushEvent(events.NodeDiscoverd{Address: 2})
			}
			done <- true
		}()
	}
	time.Sleep(time.Second)
	sym.Assert(len(done) == 2, "announcing an event never waits")
	sym.Assert(len(q) == cap(q), "events are dropped only when the queue is full")
	sym.Reach("end")
}

//verif:goal property=C32 reach=end timed=1 timeout=200 steps=6000000 delays=2 thorough.delays=3 thorough.timeout=800
//verif:uses util.go
//verif:doc three events of one goroutine, for every schedule within the delay bound: the consumer gets them in order
func VerifC32Order() {
	c := NewController()
	go func() {
		for i := 1; i <= 3; i++ {
			c.pushEvent(events.NodeDiscoverd{Address: i})
		}
	}()
	for i := 1; i <= 3; i++ {
		e := <-c.GetNextEvent()
		d, ok := e.(events.NodeDiscoverd)
		sym.Assert(ok && d.Address == i, "events are queued in order")
	}
	sym.Reach("end")
}
