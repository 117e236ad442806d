package main

// Models of library functions: clocks, locks, formatting, logging, randomness and everything
// implemented outside Go.

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(p *path, g *G, fr *frame, fn *ssa.Function, args []value) value

var intrinsics = map[string]intrinsic{}

func stubbedPkg(s string) bool {
	switch s {
	case "github.com/sirupsen/logrus", "github.com/davecgh/go-spew/spew", "log", "text/tabwriter", "os", "runtime", "syscall", "reflect", "internal/poll",
		"github.com/pborman/uuid", "github.com/google/uuid", "net", "crypto/rand", "testing", "flag", "encoding/gob", "encoding/json", "internal/godebug", "log/slog", "fmt":
		return true
	}
	return false
}

func quietPkg(s string) bool {
	switch s {
	case "github.com/sirupsen/logrus", "github.com/davecgh/go-spew/spew", "log", "text/tabwriter", "log/slog", "internal/race", "internal/asan", "internal/msan":
		return true
	}
	return false
}

func findIntrinsic(fn *ssa.Function) intrinsic {
	key := fn.String()
	if i, ok := intrinsics[key]; ok {
		return i
	}
	pk := fnPkg(fn)
	if pk == nil {
		return nil
	}
	pkPath := pk.Pkg.Path()
	if fn.Parent() != nil {
		return nil
	}
	if quietPkg(pkPath) && !(fn.Name() == "init") {
		n := fn.Name()
		if strings.HasPrefix(n, "Fatal") || n == "Exit" {
			return func(p *path, g *G, fr *frame, fn *ssa.Function, args []value) value {
				p.raiseExit(g, n)
				return nil
			}
		}
		if strings.HasPrefix(n, "Panic") {
			return func(p *path, g *G, fr *frame, fn *ssa.Function, args []value) value {
				p.raise(iface{t: rtErrorType, v: "log." + n}, "panic: log."+n)
				return nil
			}
		}
		quiet := strings.HasPrefix(n, "Debug") || strings.HasPrefix(n, "Trace")
		return func(p *path, g *G, fr *frame, fn *ssa.Function, args []value) value {
			if p.raceMem && !quiet { // the arguments are formatted
				for _, a := range args {
					if s, ok := a.(sliceV); ok && s.ln.isC() {
						for i := 0; i < int(s.ln.c); i++ {
							p.memPrint(g, s.a[i], 0)
						}
					}
				}
			}
			if pt, ok := fn.Signature.Results(), false; pt.Len() == 1 {
				var el *types.Pointer
				if el, ok = pt.At(0).Type().(*types.Pointer); ok {
					if _, ok = el.Elem().Underlying().(*types.Struct); ok { // a logger or an entry
						cell := p.zero(el.Elem())
						return &cell
					}
				}
			}
			return p.zero(fn.Signature.Results())
		}
	}
	if pkPath == "os" && strings.HasPrefix(key, "(*os.File).") {
		return func(p *path, g *G, fr *frame, fn *ssa.Function, args []value) value {
			p.unsupported(fn.String())
			return nil
		}
	}
	if pkPath == "reflect" || pkPath == "syscall" || pkPath == "internal/godebug" {
		if pkPath == "internal/godebug" {
			return func(p *path, g *G, fr *frame, fn *ssa.Function, args []value) value {
				return p.zero(fn.Signature.Results())
			}
		}
		if fn.Synthetic != "" {
			return nil
		}
		return func(p *path, g *G, fr *frame, fn *ssa.Function, args []value) value {
			p.unsupported(fn.String())
			return nil
		}
	}
	return nil
}

// raiseExit ends the program as os.Exit would; a violation unless the goal has exit_ok=1.
func (p *path) raiseExit(g *G, why string) {
	if p.e.opt.Params["exit_ok"] == 0 {
		site := ""
		if f := g.repoFrame(); f != nil {
			site = f.where()
		}
		p.violation("exit", "the process exits ("+why+")", site, g.stack())
		panic(pathEnd{"violation"})
	}
	p.end("done: exit")
}

func (p *path) curG() *G { return p.sched.cur }

func (p *path) pkgType(pkg, name string) types.Type {
	pk := p.e.prog.ImportedPackage(pkg)
	if pk == nil {
		p.unsupported("package not loaded: " + pkg)
	}
	return pk.Type(name).Type()
}

func (p *path) mkError(msg value) iface {
	t := p.pkgType("errors", "errorString")
	var cell value = structure{msg}
	return iface{t: types.NewPointer(t), v: &cell}
}

func (p *path) globalByName(pkg, name string) value {
	pk := p.e.prog.ImportedPackage(pkg)
	if pk == nil {
		p.unsupported("package not loaded: " + pkg)
	}
	gl := pk.Var(name)
	if gl == nil {
		p.unsupported("no global " + pkg + "." + name)
	}
	return p.load(p.global(nil, gl))
}

func hasSym(v value, depth int) bool {
	if depth > 6 {
		return false
	}
	switch v := v.(type) {
	case *Term:
		return !v.isC()
	case *symStr, *opaqueStr:
		return true
	case structure:
		for _, f := range v {
			if hasSym(f, depth+1) {
				return true
			}
		}
	case array:
		return hasSym(structure(v), depth)
	case iface:
		return hasSym(v.v, depth+1)
	case sliceV:
		if !v.ln.isC() {
			return true
		}
		for i := 0; i < int(v.ln.c); i++ {
			if hasSym(v.a[i], depth+1) {
				return true
			}
		}
	case *value:
		if v != nil {
			return hasSym(*v, depth+1)
		}
	}
	return false
}

// ---- formatting

var hexd = "0123456789abcdef"

func (p *path) hexDigit(nib *Term, upper bool) *Term { // nib: 8-bit value 0..15
	a := uint64('a' - 10)
	if upper {
		a = 'A' - 10
	}
	return p.x.Ite(p.x.Ult(nib, p.x.BV(10, 8)), p.x.Bin(OAdd, nib, p.x.BV('0', 8)), p.x.Bin(OAdd, nib, p.x.BV(a, 8)))
}

func (p *path) findMethod(t types.Type, name string) *ssa.Function {
	ms := types.NewMethodSet(t)
	sel := ms.Lookup(nil, name)
	if sel == nil {
		return nil
	}
	methMu.Lock()
	defer methMu.Unlock()
	return p.e.prog.MethodValue(sel)
}

func isNoArgString(fn *ssa.Function) bool {
	s := fn.Signature
	return s.Params().Len() == 0 && s.Results().Len() == 1 && isString(s.Results().At(0).Type())
}

func (p *path) sprintf(g *G, format value, args []iface) value {
	f, ok := format.(string)
	if !ok {
		return p.opaque("symbolic format")
	}
	var out value = ""
	argi := 0
	i := 0
	for i < len(f) {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			out = p.strConcat(out, f[i:])
			break
		}
		out = p.strConcat(out, f[i:i+j])
		i += j
		k := i + 1
		for k < len(f) && strings.IndexByte("+-# 0123456789.*[]", f[k]) >= 0 {
			k++
		}
		if k >= len(f) {
			out = p.strConcat(out, "%!(NOVERB)")
			break
		}
		spec, verb := f[i:k+1], f[k]
		i = k + 1
		if verb == '%' {
			out = p.strConcat(out, "%")
			continue
		}
		if strings.ContainsAny(spec, "*[") {
			return p.opaque("format " + f)
		}
		if argi >= len(args) {
			out = p.strConcat(out, "%!"+string(verb)+"(MISSING)")
			continue
		}
		out = p.strConcat(out, p.fmtOne(g, spec, verb, args[argi], 0))
		argi++
	}
	if argi < len(args) {
		return p.opaque("extra arguments to format " + f)
	}
	return out
}

func (p *path) fmtOne(g *G, spec string, verb byte, a iface, depth int) value {
	if verb == 'T' {
		if a.t == nil {
			return "<nil>"
		}
		return types.TypeString(a.t, func(pk *types.Package) string { return pk.Name() })
	}
	if a.t == nil {
		if verb == 'v' {
			return "<nil>"
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	if strings.Contains(spec, "#") && verb == 'v' {
		return p.opaque("%#v")
	}
	if strings.IndexByte("svxXq", verb) >= 0 {
		for _, mn := range []string{"Error", "String"} {
			m := p.findMethod(a.t, mn)
			if m == nil || !isNoArgString(m) {
				continue
			}
			if depth > 3 {
				return p.opaque("deep formatting")
			}
			if q, ok := a.v.(*value); ok && q == nil {
				return "<nil>"
			}
			if hasSym(a.v, 0) {
				if _, isPtr := a.v.(*value); !isPtr { // made when it is looked at
					o := p.opaque("text of a symbolic " + a.t.String()).(*opaqueStr)
					v := copyVal(a.v)
					o.force = func() value {
						r := p.callValue(p.sched.cur, nil, &closure{fn: m}, []value{v})
						return p.fmtOne(p.sched.cur, spec, verb, iface{t: types.Typ[types.String], v: r}, depth+1)
					}
					return o
				} else if mn != "Error" {
					return p.opaque("text of a symbolic " + a.t.String())
				}
			}
			r := p.callValue(g, nil, &closure{fn: m}, []value{copyVal(a.v)})
			return p.fmtOne(g, spec, verb, iface{t: types.Typ[types.String], v: r}, depth+1)
		}
	}
	nat, ok := p.toNative(a.t, a.v)
	if ok {
		return fmt.Sprintf(spec, nat)
	}
	// symbolic strings
	if isString(a.t) && (spec == "%s" || spec == "%v") {
		return a.v
	}
	if (verb == 'x' || verb == 'X') && !strings.ContainsAny(spec, "# +-.") {
		wd := 0
		zero := false
		d := spec[1 : len(spec)-1]
		if strings.HasPrefix(d, "0") {
			zero = true
			d = d[1:]
		}
		if d != "" {
			wd, _ = strconv.Atoi(d)
		}
		if w, signed, isInt := intInfo(a.t); isInt {
			t := a.v.(*Term)
			if !signed || nonneg(t) {
				n := int(w) / 4
				if zero && wd >= n {
					var ds []*Term
					for k := n - 1; k >= 0; k-- {
						ds = append(ds, p.hexDigit(p.x.Zext(p.x.Extract(t, uint8(4*k), 4), 8), verb == 'X'))
					}
					for len(ds) < wd {
						ds = append([]*Term{p.x.BV('0', 8)}, ds...)
					}
					return mkStr(ds)
				}
				if wd == 0 || zero {
					// the number of digits depends on the value
					k := 1
					for k < n && !p.branch(p.x.Ult(t, p.x.BV(uint64(1)<<(4*k), w))) {
						k++
					}
					var ds []*Term
					for q := k - 1; q >= 0; q-- {
						ds = append(ds, p.hexDigit(p.x.Zext(p.x.Extract(t, uint8(4*q), 4), 8), verb == 'X'))
					}
					for len(ds) < wd {
						ds = append([]*Term{p.x.BV('0', 8)}, ds...)
					}
					return mkStr(ds)
				}
			}
		}
		if wd == 0 && isByteSlice(a.t) {
			s := a.v.(sliceV)
			if s.ln.isC() {
				var ds []*Term
				for _, b := range p.sliceTerms(s) {
					ds = append(ds, p.hexDigit(p.x.Zext(p.x.Extract(b, 4, 4), 8), verb == 'X'), p.hexDigit(p.x.Zext(p.x.Extract(b, 0, 4), 8), verb == 'X'))
				}
				return mkStr(ds)
			}
		}
	}
	if (spec == "%d" || spec == "%v") && a.v != nil {
		if w, signed, isInt := intInfo(a.t); isInt {
			return p.itoa(a.v.(*Term), w, signed)
		}
	}
	if spec == "%t" || spec == "%v" {
		if t, ok := a.v.(*Term); ok && t.sort == SBool {
			if p.branch(t) {
				return "true"
			}
			return "false"
		}
	}
	o := p.opaque("format " + spec).(*opaqueStr)
	if t, ok := a.v.(*Term); ok && t.sort != SBool { // one text per value, made when it is looked at
		o.force = func() value {
			if nat, ok := p.toNative(a.t, p.constOf(t, p.concretize(t))); ok {
				return fmt.Sprintf(spec, nat)
			}
			return nil
		}
	}
	return o
}

func (p *path) itoa(t *Term, w uint8, signed bool) value {
	if t.isC() {
		if signed {
			return strconv.FormatInt(sx(t.c, w), 10)
		}
		return strconv.FormatUint(t.c, 10)
	}
	pre := value("")
	if signed && !nonneg(t) && p.branch(p.x.Slt(t, p.x.BV(0, w))) {
		pre = "-"
		t = p.x.Neg(t)
	}
	n := 1
	lim := uint64(10)
	for n < 19 && lim <= mask(w) && !p.branch(p.x.Ult(t, p.x.BV(lim, w))) {
		n++
		lim *= 10
	}
	ds := make([]*Term, n)
	pw := uint64(1)
	for k := n - 1; k >= 0; k-- {
		q := p.x.Bin(OUrem, p.x.Bin(OUdiv, t, p.x.BV(pw, w)), p.x.BV(10, w))
		if w > 8 {
			q = p.x.Extract(q, 0, 8)
		}
		ds[k] = p.x.Bin(OAdd, q, p.x.BV('0', 8))
		pw *= 10
	}
	return p.strConcat(pre, mkStr(ds))
}

// toNative converts a concrete simple value to a Go value for the real fmt.
func (p *path) toNative(t types.Type, v value) (any, bool) {
	switch x := v.(type) {
	case string:
		return x, true
	case *Term:
		if !x.isC() {
			return nil, false
		}
		if x.sort == SBool {
			return x.c == 1, true
		}
		if x.sort == SFP {
			if x.w == 32 {
				return float32(x.f64()), true
			}
			return x.f64(), true
		}
		w, signed, ok := intInfo(t)
		if !ok {
			return nil, false
		}
		switch {
		case signed && w == 64:
			return int64(x.c), true
		case signed && w == 32:
			return int32(x.c), true
		case signed && w == 16:
			return int16(x.c), true
		case signed:
			return int8(x.c), true
		case w == 64:
			return x.c, true
		case w == 32:
			return uint32(x.c), true
		case w == 16:
			return uint16(x.c), true
		}
		return uint8(x.c), true
	case sliceV:
		if isByteSlice(t) && !hasSym(x, 0) {
			b := make([]byte, x.ln.c)
			for i := range b {
				b[i] = byte(x.a[i].(*Term).c)
			}
			return b, true
		}
	case *value:
		if x == nil {
			return nil, false
		}
	}
	return nil, false
}

func (p *path) varargs(v value) []iface {
	s := v.(sliceV)
	n := p.cint(s.ln)
	r := make([]iface, n)
	for i := range r {
		r[i], _ = s.a[i].(iface)
	}
	return r
}

func (p *path) sprint(g *G, args []iface, ln bool) value {
	var out value = ""
	for i, a := range args {
		if i > 0 && (ln || !(a.t != nil && isString(a.t)) && !(args[i-1].t != nil && isString(args[i-1].t))) {
			out = p.strConcat(out, " ")
		}
		out = p.strConcat(out, p.fmtOne(g, "%v", 'v', a, 0))
	}
	if ln {
		out = p.strConcat(out, "\n")
	}
	return out
}

// ---- time

const hasMono = uint64(1) << 63

// Times made here carry only a monotonic reading: wall = hasMonotonic, ext = nanoseconds.
func (p *path) mkTime(ns *Term) value {
	return structure{p.x.BV(hasMono, 64), ns, (*value)(nil)}
}
func (p *path) monoTime(v value) (*Term, bool) {
	s, ok := v.(structure)
	if !ok || len(s) != 3 {
		return nil, false
	}
	w, ok := s[0].(*Term)
	if !ok || !w.isC() {
		return nil, false
	}
	e, ok := s[1].(*Term)
	if !ok {
		return nil, false
	}
	if w.c != hasMono {
		// seconds since year 1, if it can be counted in nanoseconds from 1970
		sec := int64(e.c) - unixToInternal
		if w.c>>30 == 0 && e.isC() && sec > 0 && sec < 1<<33 {
			return p.x.BV(uint64(sec)*1e9+w.c, 64), true
		}
		return nil, false
	}
	return e, true
}
func zeroTime(v value) bool {
	s := v.(structure)
	a, ok1 := s[0].(*Term)
	b, ok2 := s[1].(*Term)
	return ok1 && ok2 && a.isC() && b.isC() && a.c == 0 && b.c == 0
}

func (p *path) afterChan(g *G, d *Term) *chanV {
	s := p.sched
	timeT := p.pkgType("time", "Time")
	c := s.newChan(1, timeT)
	vc := g.vc.clone()
	s.addTimer(g, d, func(p *path) { s.fireInto(c, p.mkTime(p.nowT), vc) })
	return c
}

type timerObj struct {
	t    *timer
	fire func(p *path)
	c    *chanV
	d    *Term // period
}

func (p *path) newTimerStruct(g *G, typ string, d *Term, f value, periodic bool) value {
	s := p.sched
	t := p.pkgType("time", typ)
	cell := new(value)
	*cell = p.zero(t)
	o := &timerObj{}
	o.d = d
	if f == nil {
		o.c = s.newChan(1, p.pkgType("time", "Time"))
		(*cell).(structure)[0] = o.c
		o.fire = func(p *path) {
			vc := o.t.vc
			s.fireInto(o.c, p.mkTime(p.nowT), vc)
			if periodic {
				o.t = s.addTimer(nil, o.d, o.fire)
				o.t.vc = vc
			}
		}
	} else {
		o.fire = func(p *path) {
			ng := s.spawn(s.cur, "AfterFunc", func(ng *G) { p.callValue(ng, nil, f, nil) })
			ng.vc = o.t.vc.clone() // It happens after it was registered, not after what runs when it fires
			s.tick(ng)
		}
	}
	o.t = s.addTimer(g, d, o.fire)
	p.side[cell] = o
	return cell
}

func reg(name string, f intrinsic) { intrinsics[name] = f }

// regA registers an intrinsic that needs only the arguments.
func regA(name string, f func(p *path, a []value) value) {
	reg(name, func(p *path, g *G, fr *frame, fn *ssa.Function, args []value) value { return f(p, args) })
}

func fp1(f func(p *path, x *Term) *Term) func(p *path, a []value) value {
	return func(p *path, a []value) value { return f(p, a[0].(*Term)) }
}

// ancient stands for the zero time (year 1) when a constant is added to it: far before every other
// time, which are nanoseconds since 1970.
const ancient = -1 << 62

func isAncient(t *Term) bool { return t.isC() && int64(t.c) < ancient/2 }

func init() {
	// ---- time
	reg("time.Now", func(p *path, g *G, fr *frame, fn *ssa.Function, a []value) value { return p.mkTime(p.nowT) })
	reg("time.Since", func(p *path, g *G, fr *frame, fn *ssa.Function, a []value) value {
		t, ok := p.monoTime(a[0])
		if ok && !isAncient(t) {
			return p.x.Bin(OSub, p.nowT, t)
		}
		if ok || zeroTime(a[0]) {
			return p.x.BV(uint64(math.MaxInt64), 64)
		}
		p.unsupported("time.Since")
		return nil
	})
	reg("time.Until", func(p *path, g *G, fr *frame, fn *ssa.Function, a []value) value {
		t, ok := p.monoTime(a[0])
		if ok && !isAncient(t) {
			return p.x.Bin(OSub, t, p.nowT)
		}
		if ok || zeroTime(a[0]) {
			return p.x.BV(uint64(1)<<63, 64)
		}
		p.unsupported("time.Until")
		return nil
	})
	reg("time.After", func(p *path, g *G, fr *frame, fn *ssa.Function, a []value) value { return p.afterChan(g, a[0].(*Term)) })
	reg("time.Tick", func(p *path, g *G, fr *frame, fn *ssa.Function, a []value) value {
		t := p.newTimerStruct(g, "Ticker", a[0].(*Term), nil, true).(*value)
		return (*t).(structure)[0]
	})
	reg("time.Sleep", func(p *path, g *G, fr *frame, fn *ssa.Function, a []value) value {
		c := p.afterChan(g, a[0].(*Term))
		p.sched.selectOp(g, []selCase{{ch: c}}, false, "sleep")
		return nil
	})
	reg("time.NewTimer", func(p *path, g *G, fr *frame, fn *ssa.Function, a []value) value {
		return p.newTimerStruct(g, "Timer", a[0].(*Term), nil, false)
	})
	reg("time.NewTicker", func(p *path, g *G, fr *frame, fn *ssa.Function, a []value) value {
		return p.newTimerStruct(g, "Ticker", a[0].(*Term), nil, true)
	})
	reg("time.AfterFunc", func(p *path, g *G, fr *frame, fn *ssa.Function, a []value) value {
		return p.newTimerStruct(g, "Timer", a[0].(*Term), a[1], false)
	})
	stop := func(p *path, g *G, fr *frame, fn *ssa.Function, a []value) value {
		o, ok := p.side[a[0]].(*timerObj)
		if !ok {
			p.rtPanic("invalid memory address or nil pointer dereference")
		}
		act := !o.t.stopped && !o.t.fired
		o.t.stopped = true
		if o.c != nil {
			o.c.buf = nil
		}
		return p.x.Bool(act)
	}
	reg("(*time.Timer).Stop", stop)
	reg("(*time.Ticker).Stop", stop)
	reset := func(p *path, g *G, fr *frame, fn *ssa.Function, a []value) value {
		r := stop(p, g, fr, fn, a)
		o := p.side[a[0]].(*timerObj)
		o.d = a[1].(*Term)
		o.t = p.sched.addTimer(g, o.d, o.fire)
		return r
	}
	reg("(*time.Timer).Reset", reset)
	reg("(*time.Ticker).Reset", reset)
	cmpT := func(name string, f func(p *path, x, y *Term) *Term, zz func(xz, yz bool) bool) {
		reg(name, func(p *path, g *G, fr *frame, fn *ssa.Function, a []value) value {
			x, ok1 := p.monoTime(a[0])
			y, ok2 := p.monoTime(a[1])
			if ok1 && ok2 {
				return f(p, x, y)
			}
			xz, yz := !ok1 && zeroTime(a[0]), !ok2 && zeroTime(a[1])
			if (xz || ok1) && (yz || ok2) {
				return p.x.Bool(zz(xz, yz))
			}
			p.unsupported(name + " on this time representation")
			return nil
		})
	}
	cmpT("(time.Time).Before", func(p *path, x, y *Term) *Term { return p.x.Slt(x, y) }, func(a, b bool) bool { return a && !b })
	cmpT("(time.Time).After", func(p *path, x, y *Term) *Term { return p.x.Slt(y, x) }, func(a, b bool) bool { return b && !a })
	cmpT("(time.Time).Equal", func(p *path, x, y *Term) *Term { return p.x.Eq(x, y) }, func(a, b bool) bool { return a && b })
	reg("(time.Time).Compare", func(p *path, g *G, fr *frame, fn *ssa.Function, a []value) value {
		x, ok1 := p.monoTime(a[0])
		y, ok2 := p.monoTime(a[1])
		if !ok1 && zeroTime(a[0]) {
			x, ok1 = p.x.BV(1<<63, 64), true
		}
		if !ok2 && zeroTime(a[1]) {
			y, ok2 = p.x.BV(1<<63, 64), true
		}
		if !ok1 || !ok2 {
			p.unsupported("Time.Compare")
		}
		return p.x.Ite(p.x.Slt(x, y), p.x.BV(^uint64(0), 64), p.x.Ite(p.x.Eq(x, y), p.x.BV(0, 64), p.x.BV(1, 64)))
	})
	reg("(time.Time).IsZero", func(p *path, g *G, fr *frame, fn *ssa.Function, a []value) value {
		if _, ok := p.monoTime(a[0]); ok {
			return constFalse
		}
		return p.x.Bool(zeroTime(a[0]))
	})
	reg("(time.Time).Sub", func(p *path, g *G, fr *frame, fn *ssa.Function, a []value) value {
		x, ok1 := p.monoTime(a[0])
		y, ok2 := p.monoTime(a[1])
		if ok1 && ok2 {
			switch {
			case isAncient(x) == isAncient(y):
				return p.x.Bin(OSub, x, y)
			case isAncient(y):
				return p.x.BV(uint64(math.MaxInt64), 64)
			}
			return p.x.BV(uint64(1)<<63, 64)
		}
		xz, yz := !ok1 && zeroTime(a[0]), !ok2 && zeroTime(a[1])
		switch {
		case xz && yz:
			return p.x.BV(0, 64)
		case xz && ok2:
			return p.x.BV(uint64(1)<<63, 64)
		case yz && ok1:
			return p.x.BV(uint64(math.MaxInt64), 64)
		}
		p.unsupported("Time.Sub")
		return nil
	})
	reg("(time.Time).Add", func(p *path, g *G, fr *frame, fn *ssa.Function, a []value) value {
		if x, ok := p.monoTime(a[0]); ok {
			return p.mkTime(p.x.Bin(OAdd, x, a[1].(*Term)))
		}
		if d := a[1].(*Term); zeroTime(a[0]) && d.isC() {
			if d.c == 0 {
				return copyVal(a[0])
			}
			return p.mkTime(p.x.BV(uint64(ancient+int64(d.c)), 64))
		}
		p.unsupported("Time.Add")
		return nil
	})
	for _, n := range []string{"Unix", "UnixNano", "UnixMilli", "UnixMicro"} {
		div := map[string]uint64{"Unix": 1e9, "UnixNano": 1, "UnixMilli": 1e6, "UnixMicro": 1e3}[n]
		reg("(time.Time)."+n, func(p *path, g *G, fr *frame, fn *ssa.Function, a []value) value {
			if x, ok := p.monoTime(a[0]); ok {
				return p.x.Bin(OUdiv, x, p.x.BV(div, 64))
			}
			p.unsupported("Time.Unix")
			return nil
		})
	}
	for _, n := range []string{"UTC", "Local", "In"} {
		reg("(time.Time)."+n, func(p *path, g *G, fr *frame, fn *ssa.Function, a []value) value {
			if _, ok := p.monoTime(a[0]); ok || zeroTime(a[0]) {
				return copyVal(a[0])
			}
			p.unsupported("Time." + n)
			return nil
		})
	}
	for _, n := range []string{"String", "Format", "GoString"} {
		reg("(time.Time)."+n, func(p *path, g *G, fr *frame, fn *ssa.Function, a []value) value {
			if x, ok := p.monoTime(a[0]); ok && x.isC() && n == "String" {
				return time.Unix(0, int64(x.c)).UTC().String()
			}
			return p.opaque("time text")
		})
	}
	reg("time.Unix", func(p *path, g *G, fr *frame, fn *ssa.Function, a []value) value {
		return p.mkTime(p.x.Bin(OAdd, p.x.Bin(OMul, a[0].(*Term), p.x.BV(1000000000, 64)), a[1].(*Term)))
	})
	reg("time.UnixMilli", func(p *path, g *G, fr *frame, fn *ssa.Function, a []value) value {
		return p.mkTime(p.x.Bin(OMul, a[0].(*Term), p.x.BV(1000000, 64)))
	})
	reg("(time.Duration).String", func(p *path, g *G, fr *frame, fn *ssa.Function, a []value) value {
		t := a[0].(*Term)
		v := p.concretize(t)
		return durString(int64(v))
	})

	// ---- sync
	L := func(name string, f func(p *path, g *G, a []value) value) {
		reg(name, func(p *path, g *G, fr *frame, fn *ssa.Function, a []value) value { return f(p, g, a) })
	}
	L("(*sync.Mutex).Lock", func(p *path, g *G, a []value) value { p.sched.mutexLock(g, a[0], false); return nil })
	L("(*sync.Mutex).Unlock", func(p *path, g *G, a []value) value { p.sched.mutexUnlock(g, a[0], false); return nil })
	L("(*sync.Mutex).TryLock", func(p *path, g *G, a []value) value { return p.x.Bool(p.sched.mutexTryLock(g, a[0], false)) })
	L("(*sync.RWMutex).Lock", func(p *path, g *G, a []value) value { p.sched.mutexLock(g, a[0], true); return nil })
	L("(*sync.RWMutex).Unlock", func(p *path, g *G, a []value) value { p.sched.mutexUnlock(g, a[0], true); return nil })
	L("(*sync.RWMutex).TryLock", func(p *path, g *G, a []value) value { return p.x.Bool(p.sched.mutexTryLock(g, a[0], true)) })
	L("(*sync.RWMutex).TryRLock", func(p *path, g *G, a []value) value { return p.x.Bool(p.sched.tryRLock(g, a[0])) })
	L("(*sync.RWMutex).RLock", func(p *path, g *G, a []value) value { p.sched.rLock(g, a[0]); return nil })
	L("(*sync.RWMutex).RUnlock", func(p *path, g *G, a []value) value { p.sched.rUnlock(g, a[0]); return nil })
	L("(*sync.Once).Do", func(p *path, g *G, a []value) value {
		q := a[0].(*value)
		type once struct {
			done bool
			vc   vclock
		}
		o, _ := p.side[q].(*once)
		if o == nil {
			o = &once{}
			p.side[q] = o
		}
		p.sched.yield(g)
		if o.done {
			g.vc.join(o.vc)
			return nil
		}
		o.done = true
		p.callValue(g, nil, a[1], nil)
		o.vc = g.vc.clone()
		p.sched.tick(g)
		return nil
	})
	type wgS struct {
		n  int
		ws []*G
		vc vclock
	}
	wg := func(p *path, v value) *wgS {
		q, ok := v.(*value)
		if !ok || q == nil {
			p.rtPanic("invalid memory address or nil pointer dereference")
		}
		w, _ := p.side[q].(*wgS)
		if w == nil {
			w = &wgS{}
			p.side[q] = w
		}
		return w
	}
	wgAdd := func(p *path, g *G, v value, d int) {
		w := wg(p, v)
		w.n += d
		w.vc.join(g.vc)
		p.sched.tick(g)
		if w.n < 0 {
			p.raise(iface{t: rtErrorType, v: "sync: negative WaitGroup counter"}, "panic: sync: negative WaitGroup counter")
		}
		if w.n == 0 {
			for _, x := range w.ws {
				p.sched.ready(x)
			}
			w.ws = nil
		}
		p.sched.yield(g)
	}
	L("(*sync.WaitGroup).Add", func(p *path, g *G, a []value) value { wgAdd(p, g, a[0], p.cint(a[1].(*Term))); return nil })
	L("(*sync.WaitGroup).Done", func(p *path, g *G, a []value) value { wgAdd(p, g, a[0], -1); return nil })
	L("(*sync.WaitGroup).Wait", func(p *path, g *G, a []value) value {
		w := wg(p, a[0])
		p.sched.yield(g)
		for w.n > 0 {
			w.ws = append(w.ws, g)
			p.sched.block(g, "WaitGroup.Wait")
		}
		g.vc.join(w.vc)
		return nil
	})
	L("(*sync.WaitGroup).Go", func(p *path, g *G, a []value) value {
		wgAdd(p, g, a[0], 1)
		p.sched.spawn(g, "WaitGroup.Go", func(ng *G) {
			p.callValue(ng, nil, a[1], nil)
			wgAdd(p, ng, a[0], -1)
		})
		return nil
	})
	L("(*sync.Pool).Get", func(p *path, g *G, a []value) value {
		st := (*(a[0].(*value))).(structure)
		if f, ok := st[len(st)-1].(*closure); ok && f != nil {
			return p.callValue(g, nil, f, nil)
		}
		return iface{}
	})
	L("(*sync.Pool).Put", func(p *path, g *G, a []value) value { return nil })

	// ---- sync/atomic
	type atomVC struct{ vc vclock }
	atom := func(p *path, g *G, v value) *value {
		q, ok := v.(*value)
		if !ok || q == nil {
			p.rtPanic("invalid memory address or nil pointer dereference")
		}
		type key struct{ q *value }
		o, _ := p.side[key{q}].(*atomVC)
		if o == nil {
			o = &atomVC{}
			p.side[key{q}] = o
		}
		p.sched.yield(g)
		g.vc.join(o.vc)
		o.vc = g.vc.clone()
		p.sched.tick(g)
		return q
	}
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		pre := "sync/atomic."
		L(pre+"Load"+ty, func(p *path, g *G, a []value) value { return *atom(p, g, a[0]) })
		L(pre+"Store"+ty, func(p *path, g *G, a []value) value { *atom(p, g, a[0]) = a[1]; return nil })
		L(pre+"Swap"+ty, func(p *path, g *G, a []value) value { q := atom(p, g, a[0]); o := *q; *q = a[1]; return o })
		L(pre+"Add"+ty, func(p *path, g *G, a []value) value {
			q := atom(p, g, a[0])
			*q = p.x.Bin(OAdd, (*q).(*Term), a[1].(*Term))
			return *q
		})
		L(pre+"And"+ty, func(p *path, g *G, a []value) value {
			q := atom(p, g, a[0])
			o := *q
			*q = p.x.Bin(OBvAnd, (*q).(*Term), a[1].(*Term))
			return o
		})
		L(pre+"Or"+ty, func(p *path, g *G, a []value) value {
			q := atom(p, g, a[0])
			o := *q
			*q = p.x.Bin(OBvOr, (*q).(*Term), a[1].(*Term))
			return o
		})
		isPtr := ty == "Pointer"
		L(pre+"CompareAndSwap"+ty, func(p *path, g *G, a []value) value {
			q := atom(p, g, a[0])
			if isPtr {
				if *q == a[1] {
					*q = a[2]
					return constTrue
				}
				return constFalse
			}
			if p.branch(p.x.Eq((*q).(*Term), a[1].(*Term))) {
				*q = a[2]
				return constTrue
			}
			return constFalse
		})
	}
	L("(*sync/atomic.Value).Load", func(p *path, g *G, a []value) value {
		q := atom(p, g, a[0])
		return copyVal((*q).(structure)[0])
	})
	L("(*sync/atomic.Value).Swap", func(p *path, g *G, a []value) value {
		q := atom(p, g, a[0])
		o := (*q).(structure)[0]
		(*q).(structure)[0] = a[1]
		return o
	})
	L("(*sync/atomic.Value).CompareAndSwap", func(p *path, g *G, a []value) value {
		q := atom(p, g, a[0])
		if !p.branch(p.ifaceEq((*q).(structure)[0].(iface), a[1].(iface))) {
			return constFalse
		}
		(*q).(structure)[0] = a[2]
		return constTrue
	})
	L("(*sync/atomic.Value).Store", func(p *path, g *G, a []value) value {
		q := atom(p, g, a[0])
		(*q).(structure)[0] = a[1]
		return nil
	})

	// ---- runtime and friends
	L("runtime.Gosched", func(p *path, g *G, a []value) value {
		s := p.sched
		if len(s.runq) > 0 {
			n := s.pick("gosched")
			s.runq = append(s.runq, g)
			s.handTo(g, n)
		}
		return nil
	})
	for _, n := range []string{"runtime.KeepAlive", "runtime.SetFinalizer", "runtime.GC", "internal/race.Acquire", "(*strings.Builder).copyCheck", "runtime/debug.PrintStack", "runtime.AddCleanup"} {
		regA(n, func(p *path, a []value) value { return nil })
	}
	regA("runtime.GOMAXPROCS", func(p *path, a []value) value { return p.x.BV(8, 64) })
	regA("runtime.NumCPU", func(p *path, a []value) value { return p.x.BV(8, 64) })
	L("runtime.NumGoroutine", func(p *path, g *G, a []value) value {
		n := 0
		for _, x := range p.sched.gs {
			if x.state != 2 {
				n++
			}
		}
		return p.x.BV(uint64(n), 64)
	})
	L("os.Exit", func(p *path, g *G, a []value) value { p.raiseExit(g, "os.Exit"); return nil })
	regA("(*strings.Builder).String", func(p *path, a []value) value {
		st := (*(a[0].(*value))).(structure)
		return mkStr(p.sliceTerms(st[1].(sliceV)))
	})
	regA("internal/bytealg.MakeNoZero", func(p *path, a []value) value {
		n := p.cint(a[0].(*Term))
		b := make([]*Term, n)
		for i := range b {
			b[i] = p.x.BV(0, 8)
		}
		return p.mkBytes(b)
	})
	byteAt := func(p *path, v value) []*Term {
		if s, ok := v.(sliceV); ok {
			return p.sliceTerms(s)
		}
		return p.strBytes(v)
	}
	idx := func(p *path, a []value) value {
		b := byteAt(p, a[0])
		c := a[1].(*Term)
		for i, x := range b {
			if p.branch(p.x.Eq(x, c)) {
				return p.x.BV(uint64(i), 64)
			}
		}
		return p.x.BV(^uint64(0), 64)
	}
	for _, n := range []string{"internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "bytes.IndexByte", "strings.IndexByte"} {
		regA(n, idx)
	}
	lastIdx := func(p *path, a []value) value {
		b := byteAt(p, a[0])
		c := a[1].(*Term)
		for i := len(b) - 1; i >= 0; i-- {
			if p.branch(p.x.Eq(b[i], c)) {
				return p.x.BV(uint64(i), 64)
			}
		}
		return p.x.BV(^uint64(0), 64)
	}
	for _, n := range []string{"internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString"} {
		regA(n, lastIdx)
	}
	cnt := func(p *path, a []value) value {
		b := byteAt(p, a[0])
		r := p.x.BV(0, 64)
		for _, x := range b {
			r = p.x.Bin(OAdd, r, p.x.B2BV(p.x.Eq(x, a[1].(*Term)), 64))
		}
		return r
	}
	regA("internal/bytealg.Count", cnt)
	regA("internal/bytealg.CountString", cnt)
	regA("internal/bytealg.Equal", func(p *path, a []value) value { return p.bytesEq(byteAt(p, a[0]), byteAt(p, a[1])) })
	regA("bytes.Equal", func(p *path, a []value) value {
		x, y := a[0].(sliceV), a[1].(sliceV)
		if !p.branch(p.x.Eq(x.ln, y.ln)) {
			return constFalse
		}
		return p.bytesEq(p.sliceTerms(x), p.sliceTerms(y))
	})
	cmp := func(p *path, a []value) value {
		x, y := mkStr(byteAt(p, a[0])), mkStr(byteAt(p, a[1]))
		lt, eq := p.strLt(x, y), p.strEq(x, y)
		return p.x.Ite(lt, p.x.BV(^uint64(0), 64), p.x.Ite(eq, p.x.BV(0, 64), p.x.BV(1, 64)))
	}
	for _, n := range []string{"internal/bytealg.Compare", "internal/bytealg.CompareString", "bytes.Compare", "strings.Compare"} {
		regA(n, cmp)
	}
	idxStr := func(p *path, a []value) value {
		h, n := byteAt(p, a[0]), byteAt(p, a[1])
		for i := 0; i+len(n) <= len(h); i++ {
			if p.branch(p.bytesEq(h[i:i+len(n)], n)) {
				return p.x.BV(uint64(i), 64)
			}
		}
		return p.x.BV(^uint64(0), 64)
	}
	for _, n := range []string{"internal/bytealg.Index", "internal/bytealg.IndexString", "strings.Index", "bytes.Index"} {
		regA(n, idxStr)
	}
	regA("strings.Contains", func(p *path, a []value) value {
		return p.x.Not(p.x.Eq(idxStr(p, a).(*Term), p.x.BV(^uint64(0), 64)))
	})
	var lower func(up bool) func(p *path, a []value) value
	lower = func(up bool) func(p *path, a []value) value {
		return func(p *path, a []value) value {
			switch s := a[0].(type) {
			case string:
				if up {
					return strings.ToUpper(s)
				}
				return strings.ToLower(s)
			case *opaqueStr:
				if t := s.text(); t != nil {
					return lower(up)(p, []value{t})
				}
				return p.opaque("case folding")
			}
			b := p.strBytes(a[0])
			all := constTrue
			for _, x := range b {
				all = p.x.And(all, p.x.Ult(x, p.x.BV(0x80, 8)))
			}
			if !p.branch(all) {
				p.unsupported("case folding of non-ASCII symbolic text")
			}
			r := make([]*Term, len(b))
			lo, hi := uint64('A'), uint64('Z')
			if up {
				lo, hi = 'a', 'z'
			}
			for i, x := range b {
				in := p.x.And(p.x.Ule(p.x.BV(lo, 8), x), p.x.Ule(x, p.x.BV(hi, 8)))
				r[i] = p.x.Ite(in, p.x.Bin(OBvXor, x, p.x.BV(0x20, 8)), x)
			}
			return mkStr(r)
		}
	}
	regA("strings.ToLower", lower(false))
	regA("strings.ToUpper", lower(true))
	regA("strconv.Itoa", func(p *path, a []value) value { return p.itoa(a[0].(*Term), 64, true) })
	regA("strconv.FormatInt", func(p *path, a []value) value {
		b := p.cint(a[1].(*Term))
		if b == 10 {
			return p.itoa(a[0].(*Term), 64, true)
		}
		return strconv.FormatInt(int64(p.concretize(a[0].(*Term))), b)
	})
	regA("strconv.FormatUint", func(p *path, a []value) value {
		b := p.cint(a[1].(*Term))
		if b == 10 {
			return p.itoa(a[0].(*Term), 64, false)
		}
		return strconv.FormatUint(p.concretize(a[0].(*Term)), b)
	})
	regA("strconv.FormatFloat", func(p *path, a []value) value {
		t := a[0].(*Term)
		if !t.isC() {
			return p.opaque("FormatFloat")
		}
		return strconv.FormatFloat(t.f64(), byte(p.cint(a[1].(*Term))), p.cint(a[2].(*Term)), p.cint(a[3].(*Term)))
	})
	reg("strconv.Quote", func(p *path, g *G, fr *frame, fn *ssa.Function, a []value) value {
		if s, ok := a[0].(string); ok {
			return strconv.Quote(s)
		}
		o := p.opaque("Quote").(*opaqueStr)
		in := a[0]
		o.force = func() value {
			if t, ok := in.(*opaqueStr); ok {
				if in = t.text(); in == nil {
					return nil
				}
			}
			return p.callBody(p.sched.cur, nil, fn, p.info(fn), []value{in}, nil)
		}
		return o
	})

	// ---- maps
	regA("maps.clone", func(p *path, a []value) value {
		i := a[0].(iface)
		m, ok := i.v.(*mapV)
		if !ok || m == nil {
			return i
		}
		p.sched.mapAccess(p.sched.cur, m, false)
		c := p.newMap()
		c.nsym, c.n = m.nsym, m.n
		for _, e := range m.ents {
			if e.del {
				continue
			}
			n := &mapEntry{k: copyVal(e.k), v: copyVal(e.v)}
			c.ents = append(c.ents, n)
			if k, ok := canon(e.k); ok {
				c.index[k] = n
			}
		}
		return iface{t: i.t, v: c}
	})

	// ---- errors
	var errorsIs func(p *path, g *G, a []value) value
	errorsIs = func(p *path, g *G, a []value) value {
		e, t := a[0].(iface), a[1].(iface)
		for e.t != nil {
			if types.Comparable(e.t) && t.t != nil && p.branch(p.ifaceEq(e, t)) {
				return constTrue
			}
			if m := p.findMethod(e.t, "Is"); m != nil && m.Signature.Params().Len() == 1 {
				if r, ok := p.callValue(g, nil, &closure{fn: m}, []value{e.v, t}).(*Term); ok && p.branch(r) {
					return constTrue
				}
			}
			next, many := p.unwrap(g, e)
			for _, x := range many {
				if p.branch(errorsIs(p, g, []value{x, t}).(*Term)) {
					return constTrue
				}
			}
			if next.t == nil {
				return constFalse
			}
			e = next
		}
		return p.x.Bool(t.t == nil)
	}
	L("errors.Is", errorsIs)
	var errorsAs func(p *path, g *G, a []value) value
	errorsAs = func(p *path, g *G, a []value) value {
		e, t := a[0].(iface), a[1].(iface)
		pt, ok := t.t.(*types.Pointer)
		q, ok2 := t.v.(*value)
		if !ok || !ok2 || q == nil {
			p.raise(iface{t: rtErrorType, v: "errors: target must be a non-nil pointer"}, "panic: errors: target must be a non-nil pointer")
		}
		el := pt.Elem()
		for e.t != nil {
			if it, isI := el.Underlying().(*types.Interface); isI {
				if types.Implements(e.t, it) {
					*q = e
					return constTrue
				}
			} else if types.Identical(el, e.t) {
				*q = copyVal(e.v)
				return constTrue
			}
			if m := p.findMethod(e.t, "As"); m != nil && m.Signature.Params().Len() == 1 {
				if r, ok := p.callValue(g, nil, &closure{fn: m}, []value{e.v, t}).(*Term); ok && p.branch(r) {
					return constTrue
				}
			}
			next, many := p.unwrap(g, e)
			for _, x := range many {
				if p.branch(errorsAs(p, g, []value{x, t}).(*Term)) {
					return constTrue
				}
			}
			e = next
		}
		return constFalse
	}
	L("errors.As", errorsAs)

	// ---- math
	regA("math.Float64bits", func(p *path, a []value) value { return p.fbits(a[0].(*Term)) })
	regA("math.Float32bits", func(p *path, a []value) value { return p.fbits(a[0].(*Term)) })
	regA("math.Float64frombits", fp1(func(p *path, x *Term) *Term { return p.x.FpFromBits(x) }))
	regA("math.Float32frombits", fp1(func(p *path, x *Term) *Term { return p.x.FpFromBits(x) }))
	for n, m := range map[string]uint64{"Floor": 3, "Ceil": 2, "Trunc": 4, "Round": 1, "RoundToEven": 0} {
		regA("math."+n, fp1(func(p *path, x *Term) *Term { return p.x.FpRTI(x, m) }))
	}
	regA("math.Abs", fp1(func(p *path, x *Term) *Term { return p.x.FpUn(OFpAbs, x) }))
	regA("math.Sqrt", fp1(func(p *path, x *Term) *Term { return p.x.FpUn(OFpSqrt, x) }))
	regA("math.IsNaN", fp1(func(p *path, x *Term) *Term { return p.x.FpIsNaN(x) }))
	regA("math.NaN", func(p *path, a []value) value { return p.x.FP(math.NaN()) })
	regA("math.Inf", func(p *path, a []value) value { return p.x.FP(math.Inf(p.cint(a[0].(*Term)))) })
	regA("math.IsInf", func(p *path, a []value) value {
		s := p.cint(a[1].(*Term))
		x := a[0].(*Term)
		r := constFalse
		if s >= 0 {
			r = p.x.Or(r, p.x.FpCmp(OFpEq, x, p.x.fpc(math.Inf(1), x.w)))
		}
		if s <= 0 {
			r = p.x.Or(r, p.x.FpCmp(OFpEq, x, p.x.fpc(math.Inf(-1), x.w)))
		}
		return r
	})
	mm := func(min bool) func(p *path, a []value) value {
		return func(p *path, a []value) value {
			x, y := a[0].(*Term), a[1].(*Term)
			if x.isC() && y.isC() {
				if min {
					return p.x.FP(math.Min(x.f64(), y.f64()))
				}
				return p.x.FP(math.Max(x.f64(), y.f64()))
			}
			nan := p.x.Or(p.x.FpIsNaN(x), p.x.FpIsNaN(y))
			lt := p.x.FpCmp(OFpLt, x, y)
			gt := p.x.FpCmp(OFpLt, y, x)
			if !min {
				lt, gt = gt, lt
			}
			// equal: only the sign of zero matters
			nz := p.x.Eq(x, p.x.fpc(math.Copysign(0, -1), x.w))
			if !min {
				nz = p.x.Not(nz)
			}
			eq := p.x.Ite(nz, x, y)
			if exactInt(x) || exactInt(y) || (x.isC() && x.f64() != 0) || (y.isC() && y.f64() != 0) {
				eq = x
			}
			return p.x.Ite(nan, p.x.fpc(math.NaN(), x.w), p.x.Ite(lt, x, p.x.Ite(gt, y, eq)))
		}
	}
	regA("math.Min", mm(true))
	regA("math.Max", mm(false))
	conc2 := func(f func(a, b float64) float64) func(p *path, a []value) value {
		return func(p *path, a []value) value {
			x := p.constOf(a[0].(*Term), p.concretize(a[0].(*Term)))
			y := p.constOf(a[1].(*Term), p.concretize(a[1].(*Term)))
			return p.x.FP(f(x.f64(), y.f64()))
		}
	}
	regA("math.Pow", conc2(math.Pow))
	regA("math.Mod", conc2(math.Mod))
	regA("math.Copysign", conc2(math.Copysign))
	regA("math.Pow10", func(p *path, a []value) value { return p.x.FP(math.Pow10(p.cint(a[0].(*Term)))) })
	conc1 := func(f func(a float64) float64) func(p *path, a []value) value {
		return func(p *path, a []value) value {
			x := p.constOf(a[0].(*Term), p.concretize(a[0].(*Term)))
			return p.x.FP(f(x.f64()))
		}
	}
	for n, f := range map[string]func(float64) float64{"Exp": math.Exp, "Log": math.Log, "Log10": math.Log10, "Log2": math.Log2} {
		regA("math."+n, conc1(f))
	}
	regA("math.Modf", func(p *path, a []value) value {
		x := a[0].(*Term)
		i := p.x.FpRTI(x, 4)
		return tuple{i, p.x.FpBin(OFpSub, x, i)}
	})

	// ---- randomness
	uuidNew := func(p *path, a []value) value {
		p.uuidN++
		return fmt.Sprintf("uuid-%04d", p.uuidN)
	}
	regA("github.com/pborman/uuid.New", uuidNew)
	regA("github.com/google/uuid.NewString", uuidNew)

	// ---- fmt
	reg("fmt.Sprintf", func(p *path, g *G, fr *frame, fn *ssa.Function, a []value) value {
		return p.sprintf(g, a[0], p.varargs(a[1]))
	})
	reg("fmt.Sprint", func(p *path, g *G, fr *frame, fn *ssa.Function, a []value) value {
		return p.sprint(g, p.varargs(a[0]), false)
	})
	reg("fmt.Sprintln", func(p *path, g *G, fr *frame, fn *ssa.Function, a []value) value {
		return p.sprint(g, p.varargs(a[0]), true)
	})
	reg("fmt.Errorf", func(p *path, g *G, fr *frame, fn *ssa.Function, a []value) value {
		args := p.varargs(a[1])
		f, _ := a[0].(string)
		if strings.Contains(f, "%w") {
			f = strings.ReplaceAll(f, "%w", "%v")
			var we iface
			for _, x := range args {
				if x.t != nil && p.findMethod(x.t, "Error") != nil {
					we = x
				}
			}
			var cell value = structure{p.sprintf(g, f, args), we}
			return iface{t: types.NewPointer(p.pkgType("fmt", "wrapError")), v: &cell}
		}
		return p.mkError(p.sprintf(g, a[0], args))
	})
	out := func(p *path, s value) value {
		p.fsm().stdout = append(p.fsm().stdout, s)
		return tuple{p.x.BV(0, 64), iface{}}
	}
	reg("fmt.Printf", func(p *path, g *G, fr *frame, fn *ssa.Function, a []value) value {
		return out(p, p.sprintf(g, a[0], p.varargs(a[1])))
	})
	reg("fmt.Println", func(p *path, g *G, fr *frame, fn *ssa.Function, a []value) value {
		return out(p, p.sprint(g, p.varargs(a[0]), true))
	})
	reg("fmt.Print", func(p *path, g *G, fr *frame, fn *ssa.Function, a []value) value {
		return out(p, p.sprint(g, p.varargs(a[0]), false))
	})
	fpr := func(p *path, g *G, w value, s value) value {
		wi := w.(iface)
		if wi.t == nil {
			p.rtPanic("invalid memory address or nil pointer dereference")
		}
		if o, ok := s.(*opaqueStr); ok && o.text() == nil {
			s = "<text>"
		}
		m := p.findMethod(wi.t, "Write")
		return p.callValue(g, nil, &closure{fn: m}, []value{wi.v, p.mkBytes(p.strBytes(s))})
	}
	reg("fmt.Fprintf", func(p *path, g *G, fr *frame, fn *ssa.Function, a []value) value {
		return fpr(p, g, a[0], p.sprintf(g, a[1], p.varargs(a[2])))
	})
	reg("fmt.Fprintln", func(p *path, g *G, fr *frame, fn *ssa.Function, a []value) value {
		return fpr(p, g, a[0], p.sprint(g, p.varargs(a[1]), true))
	})
	reg("fmt.Fprint", func(p *path, g *G, fr *frame, fn *ssa.Function, a []value) value {
		return fpr(p, g, a[0], p.sprint(g, p.varargs(a[1]), false))
	})
	regA("(*fmt.wrapError).Error", func(p *path, a []value) value { return (*(a[0].(*value))).(structure)[0] })
	regA("(*fmt.wrapError).Unwrap", func(p *path, a []value) value { return (*(a[0].(*value))).(structure)[1] })

	// ---- encoding/binary
	reg("encoding/binary.Read", func(p *path, g *G, fr *frame, fn *ssa.Function, a []value) value {
		order := a[1].(iface)
		big := strings.Contains(order.t.String(), "bigEndian")
		d := a[2].(iface)
		var cells []*value
		var ws []uint8
		var walk func(t types.Type, c *value) bool
		walk = func(t types.Type, c *value) bool {
			switch u := t.Underlying().(type) {
			case *types.Basic:
				w, _, ok := intInfo(u)
				if fw, isF := isFloat(u); isF {
					w, ok = fw, true
				}
				if isBool(u) {
					w, ok = 8, true
				}
				if !ok || u.Kind() == types.Int || u.Kind() == types.Uint {
					return false
				}
				cells = append(cells, c)
				ws = append(ws, w)
				return true
			case *types.Struct:
				st := (*c).(structure)
				for i := range st {
					if !walk(u.Field(i).Type(), &st[i]) {
						return false
					}
				}
				return true
			case *types.Array:
				st := (*c).(array)
				for i := range st {
					if !walk(u.Elem(), &st[i]) {
						return false
					}
				}
				return true
			}
			return false
		}
		ok := false
		switch u := d.t.Underlying().(type) {
		case *types.Pointer:
			q := d.v.(*value)
			if q == nil {
				p.rtPanic("invalid memory address or nil pointer dereference")
			}
			ok = walk(u.Elem(), q)
		case *types.Slice:
			s := d.v.(sliceV)
			ok = true
			for i := 0; i < p.cint(s.ln); i++ {
				ok = ok && walk(u.Elem(), &s.a[i])
			}
		}
		if !ok {
			return p.mkError("binary.Read: invalid type " + d.t.String())
		}
		n := 0
		for _, w := range ws {
			n += int(w) / 8
		}
		bs := make([]*Term, n)
		for i := range bs {
			bs[i] = p.x.BV(0, 8)
		}
		buf := p.mkBytes(bs)
		rf := p.e.prog.ImportedPackage("io").Func("ReadFull")
		r := p.callSSA(g, fr, rf, []value{a[0], buf}, nil).(tuple)
		if e := r[1].(iface); e.t != nil {
			return e
		}
		off := 0
		for i, c := range cells {
			k := int(ws[i]) / 8
			t := p.x.BV(0, ws[i])
			for j := 0; j < k; j++ {
				b := buf.a[off+j].(*Term)
				sh := j
				if big {
					sh = k - 1 - j
				}
				t = p.x.Bin(OBvOr, t, p.x.Bin(OShl, p.x.Zext(b, ws[i]), p.x.BV(uint64(8*sh), ws[i])))
			}
			off += k
			old := (*c).(*Term)
			switch old.sort {
			case SFP:
				*c = p.x.FpFromBits(t)
			case SBool:
				*c = p.x.Not(p.x.Eq(t, p.x.BV(0, 8)))
			default:
				*c = t
			}
		}
		return iface{}
	})
	reg("reflect.DeepEqual", func(p *path, g *G, fr *frame, fn *ssa.Function, a []value) value {
		x, y := a[0].(iface), a[1].(iface)
		if x.t == nil || y.t == nil {
			return p.x.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return constFalse
		}
		return p.deepEq(x.t, x.v, y.v, 0)
	})
	reg("sort.Slice", sortSlice)
	reg("sort.SliceStable", sortSlice)
}

// sortSlice sorts by insertion; the comparison is the program's.
func sortSlice(p *path, g *G, fr *frame, fn *ssa.Function, a []value) value {
	s := a[0].(iface).v.(sliceV)
	n := p.cint(s.ln)
	for i := 1; i < n; i++ {
		for j := i; j > 0; j-- {
			r := p.callValue(g, fr, a[1], []value{p.x.BV(uint64(j), 64), p.x.BV(uint64(j-1), 64)}).(*Term)
			if !p.branch(r) {
				break
			}
			x, y := copyVal(s.a[j]), copyVal(s.a[j-1])
			storeTo(&s.a[j], y)
			storeTo(&s.a[j-1], x)
		}
	}
	return nil
}

func (p *path) bytesEq(x, y []*Term) *Term {
	if len(x) != len(y) {
		return constFalse
	}
	r := constTrue
	for i := range x {
		r = p.x.And(r, p.x.Eq(x[i], y[i]))
	}
	return r
}

func (p *path) fbits(t *Term) *Term {
	if t.isC() {
		return p.x.BV(t.c, t.w)
	}
	if t.op == OFpFromBits {
		return t.a[0]
	}
	v := p.newVar(fmt.Sprintf("fbits!%d", len(p.vars)), t.w)
	p.assume(p.x.Eq(p.x.FpFromBits(v), t))
	return v
}

func (p *path) deepEq(t types.Type, a, b value, depth int) *Term {
	if depth > 200 {
		p.unsupported("deep recursion in DeepEqual")
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		x, y := a.(*value), b.(*value)
		if x == y {
			return constTrue
		}
		if x == nil || y == nil {
			return constFalse
		}
		return p.deepEq(u.Elem(), *x, *y, depth+1)
	case *types.Struct:
		x, y := a.(structure), b.(structure)
		r := constTrue
		for i := range x {
			r = p.x.And(r, p.deepEq(u.Field(i).Type(), x[i], y[i], depth+1))
			if r.isFalse() {
				return r
			}
		}
		return r
	case *types.Array:
		x, y := a.(array), b.(array)
		r := constTrue
		for i := range x {
			r = p.x.And(r, p.deepEq(u.Elem(), x[i], y[i], depth+1))
		}
		return r
	case *types.Slice:
		x, y := a.(sliceV), b.(sliceV)
		if x.nonnil != y.nonnil {
			return constFalse
		}
		if !p.branch(p.x.Eq(x.ln, y.ln)) {
			return constFalse
		}
		n := p.cint(x.ln)
		r := constTrue
		for i := 0; i < n; i++ {
			r = p.x.And(r, p.deepEq(u.Elem(), x.a[i], y.a[i], depth+1))
			if r.isFalse() {
				return r
			}
		}
		return r
	case *types.Map:
		x, y := a.(*mapV), b.(*mapV)
		if (x == nil) != (y == nil) {
			return constFalse
		}
		if x == y {
			return constTrue
		}
		if x.n != y.n {
			return constFalse
		}
		r := constTrue
		for _, e := range x.ents {
			f := p.mapFind(u.Key(), y, e.k)
			if f == nil {
				return constFalse
			}
			r = p.x.And(r, p.deepEq(u.Elem(), e.v, f.v, depth+1))
		}
		return r
	case *types.Signature:
		x, y := a.(*closure), b.(*closure)
		return p.x.Bool(x == nil && y == nil)
	case *types.Interface:
		x, y := a.(iface), b.(iface)
		if x.t == nil || y.t == nil {
			return p.x.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return constFalse
		}
		return p.deepEq(x.t, x.v, y.v, depth+1)
	}
	return p.eq(t, a, b)
}

var _ = token.NoPos
