package main

// Goroutines, channels, locks and virtual time. One goroutine runs at a time; the scheduler's
// deviations from round-robin are bounded ("delay bound") and are decisions of the exploration.

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type G struct {
	id     int
	p      *path
	wake   chan struct{}
	state  int // 0 runnable 1 blocked 2 done
	why    string
	frames []*frame
	vc     vclock
	name   string

	// results of a blocking operation
	selIdx  int
	selVal  value
	selOK   bool
	waiting []*waiter
}

type vclock []int

func (a vclock) get(i int) int {
	if i < len(a) {
		return a[i]
	}
	return 0
}
func (a *vclock) join(b vclock) {
	for len(*a) < len(b) {
		*a = append(*a, 0)
	}
	for i, v := range b {
		if v > (*a)[i] {
			(*a)[i] = v
		}
	}
}
func (a vclock) clone() vclock { return append(vclock{}, a...) }

type waiter struct {
	g    *G
	idx  int
	val  value // value to send
	send bool
	dead *bool
	ch   *chanV
}

type chanV struct {
	id     int
	cap    int
	buf    []chanItem
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	vc     vclock
	elem   types.Type
	rvc    vclock // clock of receivers, for buffered channels
}
type chanItem struct {
	v  value
	vc vclock
}

type timer struct {
	seq      int
	deadline *Term
	fire     func(p *path)
	stopped  bool
	fired    bool
	vc       vclock
	period   *Term
}

type lockState struct {
	wq, rq []*G
	wvc    vclock
	rvc    vclock
}

type sched struct {
	p          *path
	gs         []*G
	runq       []*G // runnable, in FIFO order; the running goroutine is not in it
	cur        *G
	timers     []*timer
	tseq       int
	delays     int // remaining
	everMulti  bool
	locks      map[*value]*lockState
	nchan      int
	idleHooks  []func() bool
	timeUsed   bool
	preempt    bool // scheduling choices also before (not only after) synchronisation operations
	switches   int
	slowTimers bool
	noYield    int
}

func newSched(p *path) *sched {
	return &sched{p: p, delays: p.e.opt.Delays, preempt: p.e.opt.Params["preempt"] != 0, locks: map[*value]*lockState{}}
}

func (s *sched) newG(name string) *G {
	g := &G{id: len(s.gs), p: s.p, wake: make(chan struct{}, 1), name: name}
	s.gs = append(s.gs, g)
	if len(s.gs) > 1 {
		s.everMulti = true
	}
	return g
}

func (s *sched) start() {
	p := s.p
	g := s.newG("main")
	s.cur = g
	g.vc.join(vclock{1})
	p.wg.Add(1)
	go func() {
		defer p.wg.Done()
		p.guard(g, func() {
			p.callSSA(g, nil, p.e.entry, nil, nil)
			p.finish("ok")
		})
	}()
}

// spawn starts an interpreted goroutine; it is put at the end of the run queue.
func (s *sched) spawn(parent *G, name string, f func(g *G)) *G {
	p := s.p
	g := s.newG(name)
	for len(parent.vc) <= parent.id {
		parent.vc = append(parent.vc, 0)
	}
	g.vc = parent.vc.clone()
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id]++
	s.tick(parent)
	if len(s.gs) > 1500 {
		p.end("bound: more than 1500 goroutines")
	}
	s.runq = append(s.runq, g)
	p.wg.Add(1)
	go func() {
		defer p.wg.Done()
		p.guard(g, func() {
			<-g.wake
			if p.aborting.Load() {
				return
			}
			f(g)
			g.state = 2
			s.switchAway(g, false)
		})
	}()
	return g
}

func (s *sched) tick(g *G) {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id]++
}

func (s *sched) abortAll() {
	for _, g := range s.gs {
		select {
		case g.wake <- struct{}{}:
		default:
		}
	}
}

// resume hands the baton to n and waits for it to come back to g (unless g is done).
func (s *sched) handTo(g, n *G) {
	if n == g {
		return
	}
	s.switches++
	s.cur = n
	n.wake <- struct{}{}
	if g.state == 2 {
		return
	}
	<-g.wake
	if s.p.aborting.Load() {
		panic(pathEnd{"aborted"})
	}
}

// pickFrom chooses one of the runnable goroutines, default first, within the delay bound.
func (s *sched) pick(label string) *G {
	n := len(s.runq)
	i := 0
	if n > 1 && s.delays > 0 {
		k := min(n, s.delays+1)
		i = s.p.choose(k, label)
		s.delays -= i
	}
	g := s.runq[i]
	// goroutines skipped move behind the others
	rest := append([]*G{}, s.runq[i+1:]...)
	s.runq = append(rest, s.runq[:i]...)
	return g
}

// yield is a scheduling point at which g could go on.
func (s *sched) yield(g *G) {
	if s.delays <= 0 || s.noYield > 0 || s.p.initMode > 0 {
		return
	}
	canFire := s.slowTimers && len(s.liveTimers()) > 0
	if len(s.runq) == 0 && !canFire {
		return
	}
	k := min(len(s.runq), s.delays) + 1
	if canFire {
		k++
	}
	c := s.p.choose(k, fmt.Sprintf("yield.g%d", g.id))
	if c == 0 {
		return
	}
	if canFire && c == k-1 {
		s.delays--
		s.advance()
		return
	}
	s.delays -= c
	n := s.runq[c-1]
	rest := append([]*G{}, s.runq[c:]...)
	s.runq = append(rest, s.runq[:c-1]...)
	s.runq = append(s.runq, g)
	s.handTo(g, n)
}

// switchAway leaves g blocked (or done) and runs something else.
func (s *sched) switchAway(g *G, blocked bool) {
	for {
		if len(s.runq) > 0 {
			n := s.pick("next")
			s.handTo(g, n)
			return
		}
		if s.runHooks() {
			continue
		}
		if s.advance() {
			continue
		}
		// nothing can run
		s.deadlock(g)
	}
}

func (s *sched) runHooks() bool {
	for _, h := range s.idleHooks {
		if h() {
			return true
		}
	}
	return false
}

func (s *sched) deadlock(g *G) {
	p := s.p
	m := s.gs[0]
	if m.state == 2 {
		p.end("done")
	}
	site := ""
	if len(m.frames) > 0 {
		site = m.frames[len(m.frames)-1].where()
	}
	var st []string
	for _, x := range s.gs {
		if x.state == 1 {
			w := ""
			if f := x.repoFrame(); f != nil {
				w = f.where()
			}
			st = append(st, fmt.Sprintf("goroutine %d (%s) blocked on %s at %s", x.id, x.name, x.why, w))
		}
	}
	p.violation("deadlock", "the caller waits for ever ("+m.why+")", site, st)
	panic(pathEnd{"violation"})
}

// block parks g until somebody makes it runnable.
func (s *sched) block(g *G, why string) {
	g.state = 1
	g.why = why
	s.switchAway(g, true)
}

func (s *sched) ready(g *G) {
	if g.state == 1 {
		g.state = 0
		s.runq = append(s.runq, g)
	}
}

// ---- virtual time

func (s *sched) liveTimers() []*timer {
	var r []*timer
	for _, t := range s.timers {
		if !t.stopped && !t.fired {
			r = append(r, t)
		}
	}
	return r
}

func (s *sched) addTimer(g *G, d *Term, fire func(p *path)) *timer {
	p := s.p
	s.timeUsed = true
	// negative durations fire at once
	if p.branch(p.x.Slt(d, p.x.BV(0, 64))) {
		d = p.x.BV(0, 64)
	}
	s.tseq++
	t := &timer{seq: s.tseq, deadline: p.x.Bin(OAdd, p.nowT, d), fire: fire}
	if g != nil {
		t.vc = g.vc.clone()
		s.tick(g)
	}
	s.timers = append(s.timers, t)
	return t
}

// advance moves time to the earliest deadline and fires that timer. False if there is none.
func (s *sched) advance() bool {
	p := s.p
	live := s.liveTimers()
	s.timers = live
	if len(live) == 0 {
		return false
	}
	// order by deadline, ties by a choice within the delay bound, else by creation
	sort.SliceStable(live, func(i, j int) bool { return live[i].seq < live[j].seq })
	best := []*timer{live[0]}
	for _, t := range live[1:] {
		b := best[0]
		if t.deadline == b.deadline {
			best = append(best, t)
			continue
		}
		if p.branch(p.x.Slt(t.deadline, b.deadline)) {
			best = []*timer{t}
		} else if p.branch(p.x.Eq(t.deadline, b.deadline)) {
			best = append(best, t)
		}
	}
	i := 0
	if len(best) > 1 && s.delays > 0 {
		k := min(len(best), s.delays+1)
		i = p.choose(k, "timer")
		s.delays -= i
	}
	t := best[i]
	// with slow timers a timer may be late; time never goes back
	if s.slowTimers && p.branch(p.x.Slt(t.deadline, p.nowT)) {
		// late
	} else {
		p.nowT = t.deadline
	}
	t.fired = true
	t.fire(p)
	if s.slowTimers {
		return true
	}
	// timers of the same instant expire together, their goroutines run concurrently
	for j, o := range best {
		if j != i && !o.stopped && !o.fired {
			o.fired = true
			o.fire(p)
		}
	}
	return true
}

// ---- channels

func (s *sched) newChan(capn int, elem types.Type) *chanV {
	s.nchan++
	return &chanV{id: s.nchan, cap: capn, elem: elem}
}

func popLive(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !*w.dead {
			return w
		}
	}
	return nil
}
func hasLive(q []*waiter) bool {
	for _, w := range q {
		if !*w.dead {
			return true
		}
	}
	return false
}

func (s *sched) canSend(c *chanV) bool {
	return c != nil && (c.closed || len(c.buf) < c.cap || hasLive(c.recvq))
}
func (s *sched) canRecv(c *chanV) bool {
	return c != nil && (c.closed || len(c.buf) > 0 || hasLive(c.sendq))
}

// doSend performs a send that can proceed.
func (s *sched) doSend(g *G, c *chanV, v value) {
	if c.closed {
		s.p.rtPanic("send on closed channel")
	}
	if w := popLive(&c.recvq); w != nil {
		*w.dead = true
		w.g.selIdx, w.g.selVal, w.g.selOK = w.idx, v, true
		vc := g.vc.clone()
		g.vc.join(w.g.vc)
		w.g.vc.join(vc)
		s.tick(g)
		s.tick(w.g)
		s.ready(w.g)
		return
	}
	c.buf = append(c.buf, chanItem{v, g.vc.clone()})
	g.vc.join(c.rvc)
	s.tick(g)
}

func (s *sched) doRecv(g *G, c *chanV) (value, bool) {
	if len(c.buf) > 0 {
		it := c.buf[0]
		c.buf = append([]chanItem{}, c.buf[1:]...)
		g.vc.join(it.vc)
		c.rvc.join(g.vc)
		s.tick(g)
		if w := popLive(&c.sendq); w != nil {
			*w.dead = true
			c.buf = append(c.buf, chanItem{w.val, w.g.vc.clone()})
			w.g.selIdx, w.g.selOK = w.idx, true
			s.tick(w.g)
			s.ready(w.g)
		}
		return it.v, true
	}
	if w := popLive(&c.sendq); w != nil {
		*w.dead = true
		v := w.val
		w.g.selIdx, w.g.selOK = w.idx, true
		vc := g.vc.clone()
		g.vc.join(w.g.vc)
		w.g.vc.join(vc)
		s.tick(g)
		s.tick(w.g)
		s.ready(w.g)
		return v, true
	}
	// closed
	g.vc.join(c.vc)
	return s.p.zero(c.elem), false
}

type selCase struct {
	ch   *chanV
	send bool
	val  value
}

// selectOp implements select, send and receive.
func (s *sched) selectOp(g *G, cases []selCase, hasDefault bool, why string) (int, value, bool) {
	p := s.p
	if len(s.gs) > 1 && s.preempt {
		s.yield(g)
	}
	var rdy []int
	for i, c := range cases {
		if c.send && s.canSend(c.ch) || !c.send && s.canRecv(c.ch) {
			rdy = append(rdy, i)
		}
	}
	if len(rdy) > 0 {
		i := rdy[0]
		if len(rdy) > 1 {
			i = rdy[p.choose(len(rdy), fmt.Sprintf("select.g%d", g.id))]
		}
		var v value
		ok := true
		if cases[i].send {
			s.doSend(g, cases[i].ch, cases[i].val)
		} else {
			v, ok = s.doRecv(g, cases[i].ch)
		}
		s.yield(g)
		return i, v, ok
	}
	if hasDefault {
		return -1, nil, false
	}
	dead := false
	for i, c := range cases {
		if c.ch == nil {
			continue
		}
		w := &waiter{g: g, idx: i, val: c.val, send: c.send, dead: &dead, ch: c.ch}
		if c.send {
			c.ch.sendq = append(c.ch.sendq, w)
		} else {
			c.ch.recvq = append(c.ch.recvq, w)
		}
	}
	s.block(g, why)
	i := g.selIdx
	if cases[i].send && !g.selOK {
		p.rtPanic("send on closed channel")
	}
	v, ok := g.selVal, g.selOK
	g.selVal = nil
	if !cases[i].send && !ok {
		v = p.zero(cases[i].ch.elem)
	}
	return i, v, ok
}

func (s *sched) closeChan(g *G, c *chanV) {
	if c == nil {
		s.p.rtPanic("close of nil channel")
	}
	if c.closed {
		s.p.rtPanic("close of closed channel")
	}
	c.closed = true
	c.vc = g.vc.clone()
	s.tick(g)
	for {
		w := popLive(&c.recvq)
		if w == nil {
			break
		}
		*w.dead = true
		w.g.selIdx, w.g.selVal, w.g.selOK = w.idx, nil, false
		w.g.vc.join(c.vc)
		s.ready(w.g)
	}
	for {
		w := popLive(&c.sendq)
		if w == nil {
			break
		}
		*w.dead = true
		w.g.selIdx, w.g.selOK = w.idx, false
		s.ready(w.g)
	}
	s.yield(g)
}

// fireInto is a timer's send: never blocks, dropped if the buffer is full.
func (s *sched) fireInto(c *chanV, v value, vc vclock) {
	if w := popLive(&c.recvq); w != nil {
		*w.dead = true
		w.g.selIdx, w.g.selVal, w.g.selOK = w.idx, v, true
		w.g.vc.join(vc)
		s.ready(w.g)
		return
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, chanItem{v, vc})
	}
}

// ---- locks. The state lives in the integer leaves of the lock's own memory, so that copying a
// lock copies its state: leaf 0 writer held, leaf 1 number of readers, leaf 2 writers waiting.

func intLeaves(v value, cell *value, out *[]*value) {
	switch x := v.(type) {
	case structure:
		for i := range x {
			intLeaves(x[i], &x[i], out)
		}
	case array:
		for i := range x {
			intLeaves(x[i], &x[i], out)
		}
	case *Term:
		*out = append(*out, cell)
	}
}

func (s *sched) lock(ptr value) (*value, []*value, *lockState) {
	q, ok := ptr.(*value)
	if !ok || q == nil {
		s.p.rtPanic("invalid memory address or nil pointer dereference")
	}
	var l []*value
	intLeaves(*q, q, &l)
	st := s.locks[q]
	if st == nil {
		st = &lockState{}
		s.locks[q] = st
	}
	return q, l, st
}
func leaf(c *value) int { return int((*c).(*Term).c) }
func (s *sched) setLeaf(c *value, n int) {
	*c = s.p.x.BV(uint64(n), (*c).(*Term).w)
}

func (s *sched) mutexLock(g *G, ptr value, rw bool) {
	_, l, st := s.lock(ptr)
	s.yield(g)
	waited := false
	for {
		if leaf(l[0]) == 0 && (!rw || leaf(l[1]) == 0) {
			s.setLeaf(l[0], 1)
			if waited && rw {
				s.setLeaf(l[2], leaf(l[2])-1)
			}
			break
		}
		if !waited && rw {
			s.setLeaf(l[2], leaf(l[2])+1)
		}
		waited = true
		st.wq = append(st.wq, g)
		s.block(g, "Lock")
	}
	g.vc.join(st.wvc)
	g.vc.join(st.rvc)
}
func (s *sched) mutexTryLock(g *G, ptr value, rw bool) bool {
	_, l, st := s.lock(ptr)
	s.yield(g)
	if leaf(l[0]) == 0 && (!rw || leaf(l[1]) == 0) {
		s.setLeaf(l[0], 1)
		g.vc.join(st.wvc)
		g.vc.join(st.rvc)
		return true
	}
	return false
}
func (s *sched) mutexUnlock(g *G, ptr value, rw bool) {
	_, l, st := s.lock(ptr)
	if leaf(l[0]) == 0 {
		s.fatal(g, "sync: unlock of unlocked mutex")
	}
	s.setLeaf(l[0], 0)
	st.wvc.join(g.vc)
	s.tick(g)
	s.wakeLock(st)
	s.yield(g)
}
func (s *sched) wakeLock(st *lockState) {
	w := append(append([]*G{}, st.rq...), st.wq...)
	st.rq, st.wq = nil, nil
	for _, x := range w {
		s.ready(x)
	}
}
func (s *sched) rLock(g *G, ptr value) {
	_, l, st := s.lock(ptr)
	s.yield(g)
	for leaf(l[0]) != 0 || leaf(l[2]) != 0 {
		st.rq = append(st.rq, g)
		s.block(g, "RLock")
		// readers that waited for a writer get in before the next writer
		if leaf(l[0]) == 0 {
			break
		}
	}
	s.setLeaf(l[1], leaf(l[1])+1)
	g.vc.join(st.wvc)
}
func (s *sched) tryRLock(g *G, ptr value) bool {
	_, l, st := s.lock(ptr)
	s.yield(g)
	if leaf(l[0]) != 0 || leaf(l[2]) != 0 {
		return false
	}
	s.setLeaf(l[1], leaf(l[1])+1)
	g.vc.join(st.wvc)
	return true
}
func (s *sched) rUnlock(g *G, ptr value) {
	_, l, st := s.lock(ptr)
	if leaf(l[1]) == 0 {
		s.fatal(g, "sync: RUnlock of unlocked RWMutex")
	}
	s.setLeaf(l[1], leaf(l[1])-1)
	st.rvc.join(g.vc)
	s.tick(g)
	if leaf(l[1]) == 0 {
		w := st.wq
		st.wq = nil
		for _, x := range w {
			s.ready(x)
		}
	}
	s.yield(g)
}

func (s *sched) fatal(g *G, msg string) {
	site := ""
	if f := g.repoFrame(); f != nil {
		site = f.where()
	}
	s.p.violation("fatal", msg, site, g.stack())
	panic(pathEnd{"violation"})
}

// ---- race detection on maps

func (s *sched) mapAccess(g *G, m *mapV, write bool) {
	if m == nil || s.p.raceOff || len(s.gs) < 2 && !write || s.p.initMode > 0 {
		if m == nil || s.p.initMode > 0 {
			return
		}
	}
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	site := ""
	if f := g.repoFrame(); f != nil {
		site = f.where()
	}
	if m.wAny && m.wG != g.id && m.wClk > g.vc.get(m.wG) {
		s.race(g, site, m.wSite, write, true)
	}
	if write {
		for rg, clk := range m.reads {
			if rg != g.id && clk > g.vc.get(rg) {
				s.race(g, site, m.rdSites[rg], true, false)
			}
		}
		m.wAny, m.wG, m.wClk, m.wSite = true, g.id, g.vc[g.id], site
		m.reads, m.rdSites = nil, nil
		return
	}
	if m.reads == nil {
		m.reads, m.rdSites = map[int]int{}, map[int]string{}
	}
	m.reads[g.id] = g.vc[g.id]
	m.rdSites[g.id] = site
}

// shadow is what is known about the accesses to one memory cell.
type shadow struct {
	wAny    bool
	wG      int
	wClk    int
	wSite   string
	reads   map[int]int
	rdSites map[int]string
}

// memAccess records an access of repo code to memory and reports a data race.
func (p *path) memAccess(g *G, ptr value, write bool) {
	if p.initMode > 0 || !p.raceMem || len(p.sched.gs) < 2 {
		return
	}
	f := g.repoFrame()
	if f == nil || f.info.zz {
		return
	}
	switch q := ptr.(type) {
	case *value:
		if q != nil {
			p.memCell(g, f, q, write)
		}
	case *symPtr:
		for i := range q.a {
			p.memCell(g, f, &q.a[i], write)
		}
	}
}

func (p *path) memCells(g *G, cells []value, write bool) {
	if p.raceMem {
		for i := range cells {
			p.memAccess(g, &cells[i], write)
		}
	}
}

func (p *path) memCell(g *G, f *frame, c *value, write bool) {
	switch v := (*c).(type) {
	case structure:
		for i := range v {
			p.memCell(g, f, &v[i], write)
		}
		return
	case array:
		for i := range v {
			p.memCell(g, f, &v[i], write)
		}
		return
	}
	s := p.sched
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	m := p.shadow[c]
	if m == nil {
		if p.shadow == nil {
			p.shadow = map[*value]*shadow{}
		}
		m = &shadow{}
		p.shadow[c] = m
	}
	if m.wAny && m.wG != g.id { // each pair of accesses is an assertion
		p.asserts++
		if m.wClk > g.vc.get(m.wG) {
			s.race(g, f.where(), m.wSite, write, true)
		}
		p.assertOK++
	}
	if write {
		for rg, clk := range m.reads {
			if rg != g.id {
				p.asserts++
				p.assertOK++
			}
			if rg != g.id && clk > g.vc.get(rg) {
				s.race(g, f.where(), m.rdSites[rg], true, false)
			}
		}
		m.wAny, m.wG, m.wClk, m.wSite = true, g.id, g.vc[g.id], f.where()
		m.reads, m.rdSites = nil, nil
		return
	}
	if m.reads == nil {
		m.reads, m.rdSites = map[int]int{}, map[int]string{}
	}
	if m.reads[g.id] != g.vc[g.id] {
		m.reads[g.id] = g.vc[g.id]
		m.rdSites[g.id] = f.where()
	}
}

// memPrint records the reads of formatting v with %v and the like: pointers are followed once.
func (p *path) memPrint(g *G, v value, depth int) {
	if !p.raceMem || depth > 6 {
		return
	}
	switch x := v.(type) {
	case iface:
		if x.t != nil {
			p.memPrint(g, x.v, depth)
		}
	case *value:
		if x == nil || depth > 0 {
			return
		}
		switch (*x).(type) {
		case structure, array, *mapV, sliceV:
			p.memAccess(g, x, false)
			p.memPrint(g, *x, depth+1)
		}
	case structure:
		for i := range x {
			p.memPrint(g, x[i], depth+1)
		}
	case array:
		for i := range x {
			p.memPrint(g, x[i], depth+1)
		}
	case sliceV:
		if x.ln != nil && x.ln.isC() {
			for i := 0; i < int(x.ln.c); i++ {
				p.memAccess(g, &x.a[i], false)
				p.memPrint(g, x.a[i], depth+1)
			}
		}
	case *mapV:
		if x != nil {
			p.sched.mapAccess(g, x, false)
			for _, e := range x.ents {
				p.memPrint(g, e.v, depth+1)
			}
		}
	}
}

func (s *sched) race(g *G, here, other string, w, ow bool) {
	k := func(b bool) string {
		if b {
			return "write"
		}
		return "read"
	}
	s.p.violation("race", fmt.Sprintf("unsynchronised %s at %s and %s at %s", k(w), here, k(ow), other), here, g.stack())
	panic(pathEnd{"violation"})
}

func (g *G) repoFrame() *frame {
	for i := len(g.frames) - 1; i >= 0; i-- {
		if f := g.frames[i]; f.fn.Pkg != nil && g.p.inRepo(f.fn) {
			return f
		}
		if f := g.frames[i]; f.fn.Parent() != nil && g.p.inRepo(f.fn) {
			return f
		}
	}
	if len(g.frames) > 0 {
		return g.frames[len(g.frames)-1]
	}
	return nil
}

func (g *G) stack() []string {
	var r []string
	for i := len(g.frames) - 1; i >= 0; i-- {
		r = append(r, g.frames[i].where())
	}
	return r
}

func fnPkg(fn *ssa.Function) *ssa.Package {
	for fn != nil {
		if fn.Pkg != nil {
			return fn.Pkg
		}
		if o := fn.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg
		}
		if fn.Parent() == nil {
			break
		}
		fn = fn.Parent()
	}
	if fn != nil && fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Prog.Package(fn.Object().Pkg())
	}
	return nil
}
