package main

// Models of further library functions.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const unixToInternal = 62135596800 // seconds between the zero time and 1970

// decodeRune decodes the first character of b.
func (p *path) decodeRune(b []*Term) (*Term, int) {
	x := p.x
	in := func(t *Term, lo, hi uint64) *Term {
		return x.And(x.Ule(x.BV(lo, 8), t), x.Ule(t, x.BV(hi, 8)))
	}
	low := func(t *Term, m uint64) *Term { return x.Zext(x.Bin(OBvAnd, t, x.BV(m, 8)), 32) }
	sh := func(t *Term, n uint64) *Term { return x.Bin(OShl, t, x.BV(n, 32)) }
	or := func(a, b *Term) *Term { return x.Bin(OBvOr, a, b) }
	if p.branch(x.Ult(b[0], x.BV(0x80, 8))) {
		return x.Zext(b[0], 32), 1
	}
	bad := x.BV(0xfffd, 32)
	if len(b) < 2 {
		return bad, 1
	}
	if p.branch(in(b[0], 0xc2, 0xdf)) {
		if p.branch(in(b[1], 0x80, 0xbf)) {
			return or(sh(low(b[0], 0x1f), 6), low(b[1], 0x3f)), 2
		}
		return bad, 1
	}
	if len(b) < 3 {
		return bad, 1
	}
	if p.branch(in(b[0], 0xe0, 0xef)) {
		second := x.BIte(x.Eq(b[0], x.BV(0xe0, 8)), in(b[1], 0xa0, 0xbf), x.BIte(x.Eq(b[0], x.BV(0xed, 8)), in(b[1], 0x80, 0x9f), in(b[1], 0x80, 0xbf)))
		if p.branch(x.And(second, in(b[2], 0x80, 0xbf))) {
			return or(sh(low(b[0], 0x0f), 12), or(sh(low(b[1], 0x3f), 6), low(b[2], 0x3f))), 3
		}
		return bad, 1
	}
	if len(b) < 4 {
		return bad, 1
	}
	if p.branch(in(b[0], 0xf0, 0xf4)) {
		second := x.BIte(x.Eq(b[0], x.BV(0xf0, 8)), in(b[1], 0x90, 0xbf), x.BIte(x.Eq(b[0], x.BV(0xf4, 8)), in(b[1], 0x80, 0x8f), in(b[1], 0x80, 0xbf)))
		if p.branch(x.And(second, x.And(in(b[2], 0x80, 0xbf), in(b[3], 0x80, 0xbf)))) {
			return or(sh(low(b[0], 0x07), 18), or(sh(low(b[1], 0x3f), 12), or(sh(low(b[2], 0x3f), 6), low(b[3], 0x3f)))), 4
		}
	}
	return bad, 1
}

func init() {
	L := func(name string, f func(p *path, g *G, a []value) value) {
		reg(name, func(p *path, g *G, fr *frame, fn *ssa.Function, a []value) value { return f(p, g, a) })
	}

	// ---- sync.Cond
	type condS struct {
		ws []*G
		vc vclock
	}
	cond := func(p *path, v value) (*condS, structure) {
		q, ok := v.(*value)
		if !ok || q == nil {
			p.rtPanic("invalid memory address or nil pointer dereference")
		}
		c, _ := p.side[q].(*condS)
		if c == nil {
			c = &condS{}
			p.side[q] = c
		}
		return c, (*q).(structure)
	}
	locker := func(p *path, g *G, st structure, name string) {
		for _, f := range st {
			if l, ok := f.(iface); ok {
				p.callValue(g, nil, &closure{fn: p.findMethod(l.t, name)}, []value{l.v})
				return
			}
		}
		p.unsupported("sync.Cond without a locker")
	}
	L("(*sync.Cond).Wait", func(p *path, g *G, a []value) value {
		c, st := cond(p, a[0])
		c.ws = append(c.ws, g)
		locker(p, g, st, "Unlock")
		waiting := func() bool {
			for _, w := range c.ws {
				if w == g {
					return true
				}
			}
			return false
		}
		for waiting() {
			p.sched.block(g, "Cond.Wait")
		}
		g.vc.join(c.vc)
		locker(p, g, st, "Lock")
		return nil
	})
	wake := func(p *path, g *G, v value, all bool) {
		c, _ := cond(p, v)
		p.sched.yield(g)
		c.vc.join(g.vc)
		p.sched.tick(g)
		for len(c.ws) > 0 {
			w := c.ws[0]
			c.ws = append([]*G{}, c.ws[1:]...)
			p.sched.ready(w)
			if !all {
				break
			}
		}
	}
	L("(*sync.Cond).Signal", func(p *path, g *G, a []value) value { wake(p, g, a[0], false); return nil })
	L("(*sync.Cond).Broadcast", func(p *path, g *G, a []value) value { wake(p, g, a[0], true); return nil })

	// ---- sync.Map
	anyT := types.NewInterfaceType(nil, nil)
	type smapS struct {
		m  *mapV
		vc vclock
	}
	smap := func(p *path, g *G, v value) *mapV {
		q, ok := v.(*value)
		if !ok || q == nil {
			p.rtPanic("invalid memory address or nil pointer dereference")
		}
		m, _ := p.side[q].(*smapS)
		if m == nil {
			m = &smapS{m: p.newMap()}
			p.side[q] = m
		}
		p.sched.yield(g)
		g.vc.join(m.vc)
		m.vc = g.vc.clone()
		p.sched.tick(g)
		return m.m
	}
	L("(*sync.Map).Load", func(p *path, g *G, a []value) value {
		if e := p.mapFind(anyT, smap(p, g, a[0]), a[1]); e != nil {
			return tuple{copyVal(e.v), constTrue}
		}
		return tuple{iface{}, constFalse}
	})
	swap := func(p *path, g *G, a []value) value {
		m := smap(p, g, a[0])
		var old value = iface{}
		e := p.mapFind(anyT, m, a[1])
		if e != nil {
			old = e.v
		}
		p.mapSet(anyT, m, a[1], a[2])
		return tuple{old, p.x.Bool(e != nil)}
	}
	L("(*sync.Map).Store", func(p *path, g *G, a []value) value { swap(p, g, a); return nil })
	L("(*sync.Map).Swap", swap)
	L("(*sync.Map).LoadOrStore", func(p *path, g *G, a []value) value {
		m := smap(p, g, a[0])
		if e := p.mapFind(anyT, m, a[1]); e != nil {
			return tuple{copyVal(e.v), constTrue}
		}
		p.mapSet(anyT, m, a[1], a[2])
		return tuple{a[2], constFalse}
	})
	lad := func(p *path, g *G, a []value) value {
		m := smap(p, g, a[0])
		e := p.mapFind(anyT, m, a[1])
		if e == nil {
			return tuple{iface{}, constFalse}
		}
		v := e.v
		p.mapDelete(anyT, m, a[1])
		return tuple{v, constTrue}
	}
	L("(*sync.Map).LoadAndDelete", lad)
	L("(*sync.Map).Delete", func(p *path, g *G, a []value) value { lad(p, g, a); return nil })
	L("(*sync.Map).CompareAndSwap", func(p *path, g *G, a []value) value {
		e := p.mapFind(anyT, smap(p, g, a[0]), a[1])
		if e == nil || !p.branch(p.ifaceEq(e.v.(iface), a[2].(iface))) {
			return constFalse
		}
		e.v = a[3]
		return constTrue
	})
	L("(*sync.Map).CompareAndDelete", func(p *path, g *G, a []value) value {
		m := smap(p, g, a[0])
		e := p.mapFind(anyT, m, a[1])
		if e == nil || !p.branch(p.ifaceEq(e.v.(iface), a[2].(iface))) {
			return constFalse
		}
		p.mapDelete(anyT, m, a[1])
		return constTrue
	})
	L("(*sync.Map).Clear", func(p *path, g *G, a []value) value {
		smap(p, g, a[0])
		p.side[a[0].(*value)].(*smapS).m = p.newMap()
		return nil
	})
	L("(*sync.Map).Range", func(p *path, g *G, a []value) value {
		m := smap(p, g, a[0])
		for _, e := range append([]*mapEntry{}, m.ents...) {
			if e.del {
				continue
			}
			if r := p.callValue(g, nil, a[1], []value{copyVal(e.k), copyVal(e.v)}); !p.branch(r.(*Term)) {
				break
			}
		}
		return nil
	})

	// ---- slices and strings
	regA("slices.overlaps", func(p *path, a []value) value {
		x, y := a[0].(sliceV), a[1].(sliceV)
		n, m := p.cint(x.ln), p.cint(y.ln)
		if n == 0 || m == 0 {
			return constFalse
		}
		for i := 0; i < n; i++ {
			if &x.a[i] == &y.a[0] {
				return constTrue
			}
		}
		for i := 0; i < m; i++ {
			if &y.a[i] == &x.a[0] {
				return constTrue
			}
		}
		return constFalse
	})
	for _, n := range []string{"strings.Clone", "internal/stringslite.Clone"} {
		regA(n, func(p *path, a []value) value { return a[0] })
	}

	// ---- context
	L("context.WithValue", func(p *path, g *G, a []value) value {
		if a[0].(iface).t == nil {
			p.rtPanic("cannot create context from nil parent")
		}
		t := p.pkgType("context", "valueCtx")
		cell := new(value)
		*cell = structure{a[0], a[1], a[2]}
		return iface{t: types.NewPointer(t), v: cell}
	})

	// ---- times that are not counted from 1970
	tm := func(v value) value {
		if q, ok := v.(*value); ok {
			return *q
		}
		return v
	}
	abs := func(name string, f func(p *path, ns *Term) *Term) {
		for _, pre := range []string{"(*time.Time).", "(time.Time)."} {
			reg(pre+name, func(p *path, g *G, fr *frame, fn *ssa.Function, a []value) value {
				t := tm(a[0]).(structure)
				if w, ok := t[0].(*Term); !ok || !w.isC() || w.c != hasMono {
					return p.callBody(g, fr, fn, p.info(fn), a, nil)
				}
				x := t[1].(*Term)
				if isAncient(x) {
					p.unsupported("calendar of an ancient time")
				}
				return f(p, x)
			})
		}
	}
	e9 := func(p *path) *Term { return p.x.BV(1e9, 64) }
	abs("sec", func(p *path, x *Term) *Term {
		return p.x.Bin(OAdd, p.x.Bin(OUdiv, x, e9(p)), p.x.BV(unixToInternal, 64))
	})
	abs("unixSec", func(p *path, x *Term) *Term { return p.x.Bin(OUdiv, x, e9(p)) })
	abs("nsec", func(p *path, x *Term) *Term { return p.x.Extract(p.x.Bin(OUrem, x, e9(p)), 0, 32) })
	abs("Nanosecond", func(p *path, x *Term) *Term { return p.x.Bin(OUrem, x, e9(p)) })
	reg("(*time.Time).stripMono", func(p *path, g *G, fr *frame, fn *ssa.Function, a []value) value { return nil })
	reg("(*time.Time).setLoc", func(p *path, g *G, fr *frame, fn *ssa.Function, a []value) value {
		if _, ok := p.monoTime(*a[0].(*value)); ok {
			return nil // All times are in UTC
		}
		return p.callBody(g, fr, fn, p.info(fn), a, nil)
	})
	trunc := func(round bool) intrinsic {
		return func(p *path, g *G, fr *frame, fn *ssa.Function, a []value) value {
			x, ok := p.monoTime(a[0])
			d := a[1].(*Term)
			if !ok || isAncient(x) || !d.isC() {
				if zeroTime(a[0]) {
					return copyVal(a[0])
				}
				p.unsupported("Time.Truncate")
			}
			k := int64(d.c)
			if k <= 0 {
				return copyVal(a[0])
			}
			off := mulMod(unixToInternal, 1e9, uint64(k))
			r := p.x.Bin(OUrem, p.x.Bin(OAdd, p.x.Bin(OUrem, x, d), p.x.BV(off, 64)), d)
			if round {
				up := p.x.Not(p.x.Ult(p.x.Bin(OAdd, r, r), d))
				return p.mkTime(p.x.Ite(up, p.x.Bin(OAdd, x, p.x.Bin(OSub, d, r)), p.x.Bin(OSub, x, r)))
			}
			return p.mkTime(p.x.Bin(OSub, x, r))
		}
	}
	reg("(time.Time).Truncate", trunc(false))
	reg("(time.Time).Round", trunc(true))
	regA("time.runtimeNano", func(p *path, a []value) value { return p.x.BV(1, 64) })

}

// unwrap is what errors.Unwrap and the errors of an errors.Join give.
func (p *path) unwrap(g *G, e iface) (iface, []iface) {
	m := p.findMethod(e.t, "Unwrap")
	if m == nil || m.Signature.Params().Len() != 0 || m.Signature.Results().Len() != 1 {
		return iface{}, nil
	}
	switch r := p.callValue(g, nil, &closure{fn: m}, []value{e.v}).(type) {
	case iface:
		return r, nil
	case sliceV:
		var many []iface
		for i := 0; i < p.cint(r.ln); i++ {
			many = append(many, r.a[i].(iface))
		}
		return iface{}, many
	}
	return iface{}, nil
}

func mulMod(a, b, m uint64) uint64 {
	r := uint64(0)
	a %= m
	for b > 0 {
		if b&1 == 1 {
			r = (r + a) % m
		}
		a = (a + a) % m
		b >>= 1
	}
	return r
}
