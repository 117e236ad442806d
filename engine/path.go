package main

// Path exploration: every path is a re-execution of the harness from the start, steered by a
// log of decisions; each decision's untaken side is decided by the solver.

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

var verbose = os.Getenv("GOSYM_DEBUG") != ""

func debugf(f string, a ...any) {
	if verbose {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

type decision struct {
	kind byte // 'b' branch, 'i' implied branch, 'e' equals value, 'n' differs from value, 'k' choice
	val  uint64
}

type job struct {
	prefix []decision
	model  Model
}

type Violation struct {
	Kind    string // panic, assert, deadlock, race, fatal, nontermination
	Msg     string
	Site    string
	Stack   []string
	Inputs  map[string][]uint64 // sym input name -> values in order of request
	Floats  map[string][]string
	Choices []string
	Trace   []string
	Replay  string
	Path    string
	Timeish bool // goroutines or virtual time were involved
	Texts   map[string]string
	Goal    string
	Prop    string
	Tier    string
}

// Sample is an input solved from one explored path.
type Sample struct {
	Inputs map[string][]uint64
	Texts  map[string]string
	Reach  []string
}

func (v *Violation) Sig() string { return v.Kind + "|" + v.Site + "|" + v.Msg }

type Explorer struct {
	prog     *ssa.Program
	entry    *ssa.Function
	repoMod  string
	opt      Options
	mu       sync.Mutex
	cond     *sync.Cond
	stack    []*job
	active   int
	stop     bool
	deadline time.Time

	paths       int64
	infeasible  int64
	steps       int64
	queries     int64
	unknowns    int64
	solverTime  time.Duration
	asserts     int64
	assertsOK   int64
	reach       map[string]int64
	funcs       map[string]bool
	notes       map[string]int64 // reduced bounds, by reason
	viol        map[string]*Violation
	violN       int64
	deepest     int
	timedOut    bool
	left        int
	samples     []*Sample
	hang        *Sample
	tier        string
	bounds      map[string]int
	isKnown     func(v *Violation) bool
	sampleReach map[string]bool
	forks       map[string]int
	cache       queryCache
	assumptions map[string]bool
}

type Options struct {
	Workers   int
	MaxSteps  int
	Delays    int
	Timeout   time.Duration
	MaxViol   int
	Params    map[string]int
	MaxPaths  int64
	KeepGoing bool
	Seed      int64
}

func newExplorer(prog *ssa.Program, entry *ssa.Function, mod string, opt Options) *Explorer {
	e := &Explorer{prog: prog, entry: entry, repoMod: mod, opt: opt, reach: map[string]int64{}, funcs: map[string]bool{},
		notes: map[string]int64{}, bounds: map[string]int{}, viol: map[string]*Violation{}, sampleReach: map[string]bool{}, forks: map[string]int{}, cache: queryCache{m: map[qkey]qres{}}, assumptions: map[string]bool{}}
	e.cond = sync.NewCond(&e.mu)
	e.stack = []*job{{model: Model{}}}
	e.deadline = time.Now().Add(opt.Timeout)
	return e
}

func (e *Explorer) run() {
	var wg sync.WaitGroup
	for i := 0; i < e.opt.Workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			s, err := newSolver()
			if err != nil {
				e.note("solver failed to start: " + err.Error())
				return
			}
			defer s.close()
			for {
				j := e.next()
				if j == nil {
					break
				}
				e.runPath(s, j)
				e.mu.Lock()
				e.active--
				e.cond.Broadcast()
				e.mu.Unlock()
			}
			e.mu.Lock()
			e.queries += s.queries
			e.unknowns += s.unknowns
			e.solverTime += s.spent
			e.mu.Unlock()
		}()
	}
	wg.Wait()
	e.left = len(e.stack)
	if forkStats {
		ks := sortedKeys(e.forks)
		sort.Slice(ks, func(i, j int) bool { return e.forks[ks[i]] > e.forks[ks[j]] })
		for i, k := range ks {
			if i < 25 {
				fmt.Fprintf(os.Stderr, "forks %8d %s\n", e.forks[k], k)
			}
		}
	}
}

func (e *Explorer) next() *job {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop {
			return nil
		}
		if time.Now().After(e.deadline) {
			if len(e.stack) > 0 || e.active > 0 {
				e.timedOut = true
			}
			e.stop = true
			e.cond.Broadcast()
			return nil
		}
		if n := len(e.stack); n > 0 {
			j := e.stack[n-1]
			e.stack = e.stack[:n-1]
			e.active++
			return j
		}
		if e.active == 0 {
			e.cond.Broadcast()
			return nil
		}
		e.cond.Wait()
	}
}

func (e *Explorer) push(j *job) {
	e.mu.Lock()
	e.stack = append(e.stack, j)
	e.cond.Signal()
	e.mu.Unlock()
}

func (e *Explorer) note(s string) {
	e.mu.Lock()
	e.notes[s]++
	e.mu.Unlock()
}

// pathEnd unwinds every goroutine of a path.
type pathEnd struct{ why string }

type targetPanic struct {
	v     value // the panic value as an interface
	msg   string
	stack []string
	site  string
}

type symInput struct {
	name  string
	terms []*Term
}

type path struct {
	e      *Explorer
	s      *Solver
	x      *TermCtx
	prefix []decision
	pos    int
	log    []decision
	pc     []*Term
	known  map[int]bool
	groups map[string]*pcGroup // variables constrained together
	model  Model
	ec     *evalCtx
	steps  int

	vars    []*Term
	inputs  []*symInput
	inpN    map[string]int
	choices []string
	trace   []string

	globals  map[*ssa.Global]*value
	inited   map[*ssa.Package]int
	initMode int
	nopaque  int
	nmaps    int
	mapFixed bool
	funcs    map[*ssa.Function]bool
	reach    map[string]bool

	sched    *sched
	aborting atomic.Bool
	done     chan struct{}
	outcome  string
	outOnce  sync.Once
	wg       sync.WaitGroup

	uuidN    int
	nowT     *Term
	fs       *fsModel
	side     map[any]any // state attached to interpreted objects by intrinsics
	raceOff  bool
	raceMem  bool // data races on all memory, not only on maps
	shadow   map[*value]*shadow
	asserts  int64
	assertOK int64
}

func (p *path) end(why string) { panic(pathEnd{why}) }

func (p *path) unsupported(why string) {
	panic(pathEnd{"unsupported: " + why})
}

func (e *Explorer) runPath(s *Solver, j *job) {
	p := &path{e: e, s: s, x: newTermCtx(), raceMem: e.opt.Params["race"] != 0, prefix: j.prefix, known: map[int]bool{}, groups: map[string]*pcGroup{}, model: j.model,
		inpN: map[string]int{}, globals: map[*ssa.Global]*value{}, inited: map[*ssa.Package]int{}, funcs: map[*ssa.Function]bool{},
		done: make(chan struct{}), side: map[any]any{}, reach: map[string]bool{}}
	p.ec = &evalCtx{m: p.model, memo: map[int]uint64{}}
	p.nowT = p.x.BV(1_000_000_000_000, 64)
	p.sched = newSched(p)
	p.sched.start()
	<-p.done
	p.wg.Wait()

	e.mu.Lock()
	defer e.mu.Unlock()
	e.paths++
	e.steps += int64(p.steps)
	e.asserts += p.asserts
	e.assertsOK += p.assertOK
	if len(p.log) > e.deepest {
		e.deepest = len(p.log)
	}
	for f := range p.funcs {
		e.funcs[f.String()] = true
	}
	if os.Getenv("GOSYM_PATHS") != "" {
		fmt.Fprintf(os.Stderr, "path %d: %s steps=%d decisions=%d\n", e.paths, p.outcome, p.steps, len(p.log))
	}
	if p.outcome == "infeasible" {
		e.infeasible++
	}
	newReach := false
	if p.outcome == "" || p.outcome == "ok" || strings.HasPrefix(p.outcome, "violation") || strings.HasPrefix(p.outcome, "done") {
		for r := range p.reach {
			if e.reach[r] == 0 {
				newReach = true
			}
			e.reach[r]++
		}
	}
	if (newReach || len(e.samples) == 0 && p.outcome == "ok") && len(e.samples) < 40 {
		e.samples = append(e.samples, &Sample{Inputs: p.inputValues(p.model), Texts: p.texts(p.model), Reach: sortedKeys(p.reach)})
	}
	if p.outcome != "" && p.outcome != "ok" && p.outcome != "infeasible" && !strings.HasPrefix(p.outcome, "violation") && !strings.HasPrefix(p.outcome, "done") {
		e.notes[p.outcome]++
		if p.outcome == "bound: step budget" {
			if e.hang == nil {
				e.hang = &Sample{Inputs: p.inputValues(p.model), Texts: p.texts(p.model)}
			}
			if n := e.notes[p.outcome]; n >= 24 && 10*n >= 9*e.paths { // perhaps an endless loop; see confirmHang
				e.stop = true
				e.notes["stopped: most paths exceed the step budget"] = 1
			}
		}
	}
	if e.opt.MaxPaths > 0 && e.paths >= e.opt.MaxPaths {
		e.stop = true
		e.notes["path limit reached"]++
	}
}

func (p *path) finish(why string) {
	p.outOnce.Do(func() {
		p.outcome = why
		p.aborting.Store(true)
		p.sched.abortAll()
		close(p.done)
	})
}

// guard runs the body of one interpreted goroutine.
func (p *path) guard(g *G, f func()) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch r := r.(type) {
		case pathEnd:
			p.finish(r.why)
		case *targetPanic:
			if p.aborting.Load() {
				return
			}
			p.violation("panic", r.msg, r.site, r.stack)
			p.finish("violation")
		default:
			if verbose {
				fmt.Fprintf(os.Stderr, "internal: %v\n%s\n", r, debug.Stack())
			}
			st := strings.Split(string(debug.Stack()), "\n")
			loc := ""
			for i, l := range st {
				if strings.Contains(l, "panic(") && i+3 < len(st) {
					loc = strings.TrimSpace(st[i+3])
				}
			}
			where := ""
			if g != nil && len(g.frames) > 0 {
				where = g.frames[len(g.frames)-1].where()
			}
			p.finish(fmt.Sprintf("unsupported: internal: %v at %s (%s)", r, where, loc))
		}
	}()
	f()
}

func (p *path) eval(t *Term) uint64 { return p.ec.eval(t) }
func (p *path) setModel(m Model) {
	p.model = m
	p.ec = &evalCtx{m: m, memo: map[int]uint64{}}
}

func (p *path) learn(c *Term, v bool) {
	p.known[c.id] = v
	if v && c.op == OAnd {
		p.learn(c.a[0], true)
		p.learn(c.a[1], true)
	}
	if !v && c.op == OOr {
		p.learn(c.a[0], false)
		p.learn(c.a[1], false)
	}
	if c.op == ONot {
		p.known[c.a[0].id] = !v
	} else {
		p.known[p.x.Not(c).id] = !v
	}
}
func (p *path) assertPC(c *Term) {
	if c.isTrue() {
		return
	}
	p.pc = append(p.pc, c)
	p.link(c, len(p.pc)-1)
	p.learn(c, true)
}

// pcGroup is a set of variables connected through constraints of the path condition.
type pcGroup struct {
	up   *pcGroup
	cons []int
	vars map[string]*Term
}

func (g *pcGroup) root() *pcGroup {
	for g.up != nil {
		g = g.up
	}
	return g
}

func termVars(t *Term) map[string]*Term {
	vs := map[string]*Term{}
	seen := map[int]bool{}
	stack := []*Term{t}
	for len(stack) > 0 {
		c := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if c.op == OVar {
			vs[c.name] = c
			continue
		}
		if c.op == OConst || seen[c.id] {
			continue
		}
		seen[c.id] = true
		stack = append(stack, c.a...)
	}
	return vs
}

// link joins the groups of the variables of constraint number i.
func (p *path) link(c *Term, i int) {
	var r *pcGroup
	for n, v := range termVars(c) {
		g := p.groups[n]
		if g == nil {
			g = &pcGroup{vars: map[string]*Term{n: v}}
			p.groups[n] = g
		}
		g = g.root()
		if r == nil {
			r = g
			continue
		}
		if g == r {
			continue
		}
		if len(g.vars)+len(g.cons) > len(r.vars)+len(r.cons) {
			g, r = r, g
		}
		g.up = r
		r.cons = append(r.cons, g.cons...)
		for k, v := range g.vars {
			r.vars[k] = v
		}
	}
	if r != nil {
		r.cons = append(r.cons, i)
	}
}

type qkey struct{ a, b uint64 }
type qres struct {
	res SatResult
	m   Model
}

// queryCache holds answers by the structural hash of the constraints; the same question comes up on
// many paths. It is shared by the workers.
type queryCache struct {
	mu   sync.Mutex
	m    map[qkey]qres
	hits int64
}

// ask decides whether extra can hold together with the path condition. Only the constraints that
// share variables with it, directly or through others, matter: the current model satisfies the rest.
func (p *path) ask(extra *Term) (SatResult, Model) {
	vars := termVars(extra)
	cons := map[int]bool{}
	all := map[string]*Term{}
	for n, v := range vars {
		all[n] = v
		if g := p.groups[n]; g != nil {
			g = g.root()
			for _, i := range g.cons {
				cons[i] = true
			}
			for k, x := range g.vars {
				all[k] = x
			}
		}
	}
	var idx []int
	for i := range cons {
		idx = append(idx, i)
	}
	sort.Ints(idx)
	k := qkey{extra.h1, extra.h2}
	var cs []*Term
	var sa, sb uint64
	for _, i := range idx {
		cs = append(cs, p.pc[i])
		sa += mix(7, p.pc[i].h1)
		sb += mix(9, p.pc[i].h2)
	}
	k.a, k.b = mix(k.a, sa), mix(k.b, sb)
	qc := &p.e.cache
	qc.mu.Lock()
	r, ok := qc.m[k]
	if ok {
		qc.hits++
	}
	qc.mu.Unlock()
	if !ok {
		var vs []*Term
		for _, n := range sortedKeys(all) {
			vs = append(vs, all[n])
		}
		r.res, r.m = p.s.check(append(cs, extra), vs)
		qc.mu.Lock()
		if len(qc.m) < 3000000 {
			qc.m[k] = r
		}
		qc.mu.Unlock()
	}
	if r.res != Sat {
		return r.res, nil
	}
	m := make(Model, len(p.model)+len(r.m))
	for n, v := range p.model {
		m[n] = v
	}
	for n, v := range r.m {
		m[n] = v
	}
	return Sat, m
}

// simp rewrites a condition by literals already on the path.
func (p *path) simp(c *Term) *Term {
	if v, ok := p.known[c.id]; ok {
		return p.x.Bool(v)
	}
	switch c.op {
	case OAnd:
		return p.x.And(p.simp(c.a[0]), p.simp(c.a[1]))
	case OOr:
		return p.x.Or(p.simp(c.a[0]), p.simp(c.a[1]))
	case ONot:
		return p.x.Not(p.simp(c.a[0]))
	}
	return c
}

func (p *path) lit(c *Term, v bool) *Term {
	if v {
		return c
	}
	return p.x.Not(c)
}

func (p *path) branch(c *Term) bool {
	if c.isC() {
		return c.c == 1
	}
	c = p.simp(c)
	if c.isC() {
		return c.c == 1
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		if d.kind != 'b' && d.kind != 'i' {
			p.end(fmt.Sprintf("unsupported: replay divergence (branch, log has %c)", d.kind))
		}
		p.pos++
		p.log = append(p.log, d)
		v := d.val == 1
		if d.kind == 'b' {
			p.assertPC(p.lit(c, v))
		} else {
			p.learn(c, v)
		}
		return v
	}
	v := p.eval(c) == 1
	other := p.lit(c, !v)
	res, m := p.ask(other)
	switch res {
	case Unsat:
		p.log = append(p.log, decision{'i', b2u(v)})
		p.learn(c, v)
		return v
	case Sat:
		p.countFork()
		p.e.push(&job{prefix: append(append([]decision{}, p.log...), decision{'b', b2u(!v)}), model: m})
	default:
		p.e.note("solver gave no answer on one side of a branch")
	}
	p.log = append(p.log, decision{'b', b2u(v)})
	p.assertPC(p.lit(c, v))
	return v
}

// countFork records where paths split, to find the cause of too many paths (GOSYM_FORKS).
func (p *path) countFork() {
	if !forkStats {
		return
	}
	w := "?"
	if g := p.sched.cur; g != nil && len(g.frames) > 0 {
		w = g.frames[len(g.frames)-1].where()
	}
	p.e.mu.Lock()
	p.e.forks[w]++
	p.e.mu.Unlock()
}

var forkStats = os.Getenv("GOSYM_FORKS") != ""

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (p *path) constOf(t *Term, v uint64) *Term {
	if t.sort == SFP {
		return p.x.mk(OConst, SFP, t.w, v, "")
	}
	if t.sort == SBool {
		return p.x.Bool(v == 1)
	}
	return p.x.BV(v, t.w)
}

// concretize forks over the values of t.
func (p *path) concretize(t *Term) uint64 {
	if t.isC() {
		return t.c
	}
	if exactInt(t) { // the number behind it is simpler
		v := p.concretize(t.a[0])
		return p.x.FpFromInt(p.constOf(t.a[0], v), t.op == OFpFromS, t.w).c
	}
	for n := 0; ; n++ {
		if p.pos < len(p.prefix) {
			d := p.prefix[p.pos]
			p.pos++
			p.log = append(p.log, d)
			eq := p.x.Eq(t, p.constOf(t, d.val))
			switch d.kind {
			case 'e':
				p.assertPC(eq)
				return d.val
			case 'n':
				p.assertPC(p.x.Not(eq))
				continue
			}
			p.end(fmt.Sprintf("unsupported: replay divergence (value, log has %c)", d.kind))
		}
		v := p.eval(t)
		eq := p.x.Eq(t, p.constOf(t, v))
		if eq.isTrue() {
			return v
		}
		res, m := p.ask(p.x.Not(eq))
		if res == Sat {
			p.countFork()
			p.e.push(&job{prefix: append(append([]decision{}, p.log...), decision{'n', v}), model: m})
		} else if res == Unknown {
			p.e.note("solver gave no answer when enumerating a value")
		}
		p.log = append(p.log, decision{'e', v})
		p.assertPC(eq)
		return v
	}
}

func (p *path) cint(t *Term) int { return int(sx(p.concretize(t), t.w)) }

// choose makes a nondeterministic choice; it is a solver variable fixed on each path.
func (p *path) choose(n int, label string) int {
	if n <= 1 {
		return 0
	}
	c := 0
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		if d.kind != 'k' {
			p.end(fmt.Sprintf("unsupported: replay divergence (choice %s, log has %c)", label, d.kind))
		}
		p.pos++
		c = int(d.val)
	} else {
		for i := n - 1; i >= 1; i-- {
			p.e.push(&job{prefix: append(append([]decision{}, p.log...), decision{'k', uint64(i)}), model: p.model})
		}
	}
	p.log = append(p.log, decision{'k', uint64(c)})
	p.choices = append(p.choices, fmt.Sprintf("%s=%d/%d", label, c, n))
	return c
}

func (p *path) assume(c *Term) {
	c = p.simp(c)
	if c.isTrue() {
		return
	}
	if c.isFalse() {
		p.end("infeasible")
	}
	// On a path that follows a prefix the model satisfies the assumptions before its end, since it
	// was found after them.
	if p.pos >= len(p.prefix) && p.eval(c) != 1 {
		res, m := p.ask(c)
		switch res {
		case Unsat:
			p.end("infeasible")
		case Unknown:
			p.end("solver gave no answer on an assumption")
		}
		p.setModel(m)
	}
	p.assertPC(c)
}

func (p *path) newVar(name string, w uint8) *Term {
	var t *Term
	if w == 1 {
		t = p.x.VarBool(name)
	} else {
		t = p.x.VarBV(name, w)
	}
	p.vars = append(p.vars, t)
	return t
}

func (p *path) inputValues(m Model) map[string][]uint64 {
	ec := &evalCtx{m: m, memo: map[int]uint64{}}
	r := map[string][]uint64{}
	for _, in := range p.inputs {
		var vs []uint64
		for _, t := range in.terms {
			vs = append(vs, ec.eval(t))
		}
		r[in.name] = vs
	}
	return r
}

func (p *path) texts(m Model) map[string]string {
	if p.fs == nil || len(p.fs.docs) == 0 {
		return nil
	}
	ec := &evalCtx{m: m, memo: map[int]uint64{}}
	r := map[string]string{}
	for _, d := range p.fs.docs {
		r[d.name] = d.root.text(ec)
	}
	return r
}

// askPinned asks again with the variables of a hard condition (floating-point division, say) fixed
// to a few values. It can only find a counterexample, never show that there is none.
func (p *path) askPinned(c *Term) (SatResult, Model) {
	vars := termVars(c)
	names := sortedKeys(vars)
	if len(names) > 16 {
		return Unknown, nil
	}
	r := uint64(0x9e3779b97f4a7c15)
	for try := 0; try < 24; try++ {
		q := c
		for _, n := range names {
			v := vars[n]
			if v.sort == SFP {
				continue
			}
			r ^= r << 13
			r ^= r >> 7
			r ^= r << 17
			q = p.x.And(q, p.x.Eq(v, p.constOf(v, r>>11&mask(v.w))))
		}
		if res, m := p.ask(q); res == Sat {
			return res, m
		}
	}
	return Unknown, nil
}

// assert decides a property on this path for all values.
func (p *path) assertProp(g *G, c *Term, msg string) {
	c = p.simp(c)
	if p.pos >= len(p.prefix) {
		p.asserts++
	}
	if c.isTrue() {
		if p.pos >= len(p.prefix) {
			p.assertOK++
		}
		return
	}
	site := ""
	if len(g.frames) > 0 {
		site = g.frames[len(g.frames)-1].where()
	}
	if p.pos < len(p.prefix) {
		// already decided on the path this one branched from; the alternatives only add constraints
		p.assertPC(c)
		return
	}
	res, m := p.ask(p.x.Not(c))
	switch res {
	case Unsat:
		p.assertOK++
		p.learn(c, true)
		return
	case Unknown:
		if res, m = p.askPinned(p.x.Not(c)); res != Sat {
			p.e.note("solver gave no answer on an assertion: " + msg)
			p.assume(c)
			return
		}
	}
	old := p.model
	p.setModel(m)
	p.violation("assert", msg, site, g.stack())
	p.setModel(old)
	p.assume(c)
}

func (p *path) violation(kind, msg, site string, stack []string) {
	v := &Violation{Kind: kind, Msg: msg, Site: site, Stack: stack, Inputs: p.inputValues(p.model), Texts: p.texts(p.model), Choices: append([]string{}, p.choices...),
		Trace: append([]string{}, p.trace...), Timeish: p.sched.everMulti}
	e := p.e
	e.mu.Lock()
	defer e.mu.Unlock()
	e.violN++
	if e.isKnown != nil && e.isKnown(v) {
		return
	}
	if _, ok := e.viol[v.Sig()]; !ok {
		e.viol[v.Sig()] = v
		if len(e.viol) >= e.opt.MaxViol {
			e.stop = true
			e.cond.Broadcast()
		}
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
