package nodes

import (
	"time"

	"github.com/stampzilla/gozwave/commands/reports"
	"github.com/stampzilla/gozwave/zzverif/sym"
)

//verif:goal property=C22 reach=never,proceeds,listening timed=1 timeout=200 thorough.timeout=800 steps=4000000
//verif:uses util.go c21.go
//verif:doc identification of a sleeping or listening node with 0..1 failures per request, new or restored with its manufacturer or also its endpoints, woken up 0..10 times, 25 s apart
func VerifC22Identify() {
	sym.FixMapOrder(true)
	n, w, _ := vNode(9)
	d := vNewDevice(sym.Bound("retries", 1, 2))
	fails := d.badInfo + d.badMan + d.badEnd
	d.attach(n, w)
	n.IsAwake = sym.Bool("was awake") // left over from a restored configuration
	d.awake = d.info.Listening
	known := sym.Choice("restored", 3) // parts of an earlier identification
	if known > 0 {
		m := *d.man
		n.ManufacurerSpecific = &m
		fails -= d.badMan
		d.asked[1]++
	}
	if known > 1 {
		n.Endpoints = []*Endpoint{}
		fails -= d.badEnd
		d.asked[2]++
	}
	asked := func() int { return d.asked[1] + d.asked[2] + d.asked[3] }
	before := asked()
	k := []int{0, 1, 3, 10}[sym.Choice("wake-ups", 4)]
	d.vWakeups(n, k)
	done := false
	var end time.Duration
	go func() {
		n.Identify()
		done, end = true, time.Since(w.start)
	}()
	time.Sleep(10 * time.Minute)
	sym.Assert(d.asked[0] > 0 && d.infoAt == 0, "protocol info is requested without waiting")
	sym.Assert(!d.early, "nothing is sent to a sleeping node before it has announced a wake-up, or long after")
	switch {
	case d.info.Listening:
		sym.Reach("listening")
		sym.Assert(done, "a listening node is identified without wake-ups")
		if fails == 0 && d.endpoints == 0 {
			sym.Assert(end <= 10*time.Second, "a listening node is identified at once")
		}
	case k == 0:
		sym.Reach("never")
		sym.Assert(!done && asked() == before, "a node that never wakes up is left alone")
	default:
		sym.Reach("proceeds")
		sym.Assert(k < 3 || asked() > before || done, "after a wake-up the identification proceeds")
		if k == 10 {
			sym.Assert(done, "with enough wake-ups the identification ends")
		}
	}
}

//verif:goal property=C22 reach=woken timed=1 timeout=200 delays=2 thorough.delays=4 steps=4000000
//verif:uses util.go c21.go
//verif:doc a wake-up at any moment of the identification (also exactly when it starts to wait), followed by others, for every schedule within the delay bound: no crash, no request before, and it proceeds
func VerifC22Moment() {
	sym.FixMapOrder(true)
	n, w, _ := vNode(9)
	d := &vDevice{man: vMan[0]}
	d.info.Generic, d.info.Specific = 0x10, 0x01
	d.attach(n, w)
	wake, _ := reports.New(0x84, 0x07, nil)
	go n.Identify()
	at := time.Duration(0)
	if sym.Bool("later") {
		at = time.Second
	}
	time.Sleep(at)
	d.awake, d.wokeAt = true, at
	n.ProcessEvent(wake)
	time.Sleep(time.Minute)
	for i := 0; i < 5; i++ {
		d.wokeAt = time.Since(w.start)
		n.ProcessEvent(wake)
		time.Sleep(time.Minute)
	}
	sym.Reach("woken")
	sym.Assert(d.asked[1] == 1 && d.asked[2] == 1, "after wake-ups each request is made")
	d.check(n)
}
