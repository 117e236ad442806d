package main

// The symbolic interpreter over go/ssa.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type fnInfo struct {
	slots  map[ssa.Value]int
	n      int
	intr   intrinsic
	key    string
	defers bool
	repo   bool
	zz     bool
	init   bool
}

var fnInfos sync.Map

func (p *path) inRepo(fn *ssa.Function) bool {
	pk := fnPkg(fn)
	if pk == nil || pk.Pkg == nil {
		return false
	}
	s := pk.Pkg.Path()
	return s == p.e.repoMod || strings.HasPrefix(s, p.e.repoMod+"/")
}

func isHarness(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	pos := fn.Pos()
	f := fn
	for !pos.IsValid() && f.Parent() != nil {
		f = f.Parent()
		pos = f.Pos()
	}
	fl := fn.Prog.Fset.Position(pos).Filename
	return strings.Contains(fl, "/zz")
}

func (p *path) info(fn *ssa.Function) *fnInfo {
	if i, ok := fnInfos.Load(fn); ok {
		return i.(*fnInfo)
	}
	i := &fnInfo{slots: map[ssa.Value]int{}}
	add := func(v ssa.Value) {
		i.slots[v] = i.n
		i.n++
	}
	for _, x := range fn.Params {
		add(x)
	}
	for _, x := range fn.FreeVars {
		add(x)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
			if _, ok := in.(*ssa.Defer); ok {
				i.defers = true
			}
		}
	}
	if fn.Recover != nil {
		i.defers = true
	}
	i.key = fn.String()
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	i.intr = findIntrinsic(o)
	i.repo = p.inRepo(fn)
	i.zz = isHarness(fn)
	i.init = fn.Name() == "init" && fn.Synthetic != ""
	act, _ := fnInfos.LoadOrStore(fn, i)
	return act.(*fnInfo)
}

type deferred struct {
	f func(g *G)
}

type frame struct {
	fn        *ssa.Function
	info      *fnInfo
	caller    *frame
	env       []value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	pos       token.Pos
	defers    []func()
	result    value
	panicking bool
	panic     any
	ptr       map[*ssa.Alloc]*value
}

func (f *frame) where() string {
	ps := f.fn.Prog.Fset.Position(f.pos)
	fl := ps.Filename
	if i := strings.LastIndex(fl, "/"); i >= 0 {
		if j := strings.LastIndex(fl[:i], "/"); j >= 0 {
			fl = fl[j+1:]
		}
	}
	return fmt.Sprintf("%s (%s:%d)", f.fn.String(), fl, ps.Line)
}

// where without the line, for identifying a site across edits.
func (p *path) rtPanic(msg string) {
	p.raise(iface{t: rtErrorType, v: "runtime error: " + msg}, "runtime error: "+msg)
}

// rtErrorType stands for runtime.Error implementations.
var rtErrorType types.Type = types.NewNamed(types.NewTypeName(token.NoPos, nil, "runtimeError", nil), types.Typ[types.String], nil)

func (p *path) raise(v value, msg string) {
	g := p.sched.cur
	tp := &targetPanic{v: v, msg: msg, stack: g.stack()}
	if f := g.repoFrame(); f != nil {
		tp.site = f.where()
	}
	panic(tp)
}

// call calls any function value.
func (p *path) callValue(g *G, caller *frame, fv value, args []value) value {
	switch f := fv.(type) {
	case *closure:
		if f == nil {
			p.rtPanic("invalid memory address or nil pointer dereference")
		}
		if f.nat != nil {
			return f.nat(p, g, args)
		}
		return p.callSSA(g, caller, f.fn, args, f.env)
	case *ssa.Function:
		return p.callSSA(g, caller, f, args, nil)
	case poison:
		p.unsupported("call of uninitialised function value " + f.why)
	}
	panic(fmt.Sprintf("call of %T", fv))
}

func (p *path) callSSA(g *G, caller *frame, fn *ssa.Function, args []value, env []value) value {
	info := p.info(fn)
	if info.intr != nil {
		return info.intr(p, g, caller, fn, args)
	}
	return p.callBody(g, caller, fn, info, args, env)
}

// callBody executes the source of fn, even if the engine models fn.
func (p *path) callBody(g *G, caller *frame, fn *ssa.Function, info *fnInfo, args []value, env []value) value {
	if info.init && caller != nil && p.initMode > 0 {
		return nil // package initialisation is lazy
	}
	if fn.Blocks == nil {
		p.unsupported("function without body: " + fn.String())
	}
	if len(g.frames) > 400 {
		p.end("bound: call depth")
	}
	if info.repo && !info.zz && p.initMode == 0 {
		p.funcs[fn] = true
	}
	fr := &frame{fn: fn, info: info, caller: caller, env: make([]value, info.n), block: fn.Blocks[0], pos: fn.Pos()}
	for i := range fn.Params {
		fr.env[i] = args[i]
	}
	for i := range fn.FreeVars {
		fr.env[len(fn.Params)+i] = env[i]
	}
	g.frames = append(g.frames, fr)
	depth := len(g.frames)
	if info.defers {
		for fr.block != nil {
			p.runFrameDefers(g, fr, depth)
		}
	} else {
		p.runFrame(g, fr)
	}
	g.frames = g.frames[:depth-1]
	return fr.result
}

func (p *path) runFrameDefers(g *G, fr *frame, depth int) {
	defer func() {
		if fr.block == nil {
			return
		}
		r := recover()
		tp, ok := r.(*targetPanic)
		if !ok || p.aborting.Load() {
			panic(r)
		}
		g.frames = g.frames[:depth]
		fr.panicking = true
		fr.panic = tp
		p.runDefers(g, fr)
		if fr.panicking {
			panic(fr.panic)
		}
		fr.block = fr.fn.Recover
		if fr.block == nil { // no named results: return zero values
			fr.result = p.zero(fr.fn.Signature.Results())
		}
	}()
	p.runFrame(g, fr)
}

func (p *path) runDefers(g *G, fr *frame) {
	depth := len(g.frames)
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			ok := false
			defer func() {
				if ok {
					return
				}
				r := recover()
				tp, isT := r.(*targetPanic)
				if !isT || p.aborting.Load() {
					panic(r)
				}
				g.frames = g.frames[:depth]
				fr.panicking = true
				fr.panic = tp
			}()
			d()
			ok = true
		}()
	}
	_ = depth
}

func (p *path) get(fr *frame, v ssa.Value) value {
	switch v := v.(type) {
	case *ssa.Const:
		return p.constVal(v)
	case *ssa.Global:
		return p.global(fr, v)
	case *ssa.Function:
		return &closure{fn: v}
	case *ssa.Builtin:
		return v
	}
	i, ok := fr.info.slots[v]
	if !ok {
		panic(fmt.Sprintf("no slot for %s", v))
	}
	return fr.env[i]
}

func (p *path) constVal(c *ssa.Const) value {
	t := c.Type()
	if c.Value == nil {
		return p.zero(t)
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		if w, _, ok := intInfo(b); ok {
			v := constant.ToInt(c.Value)
			if i, exact := constant.Int64Val(v); exact {
				return p.x.BV(uint64(i), w)
			}
			u, _ := constant.Uint64Val(v)
			return p.x.BV(u, w)
		}
		if w, ok := isFloat(b); ok {
			f, _ := constant.Float64Val(constant.ToFloat(c.Value))
			return p.x.fpc(f, w)
		}
		switch {
		case b.Info()&types.IsBoolean != 0:
			return p.x.Bool(constant.BoolVal(c.Value))
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			i, _ := constant.Int64Val(c.Value)
			return string(rune(i))
		}
		if b.Info()&types.IsComplex != 0 {
			return poison{"complex constant"}
		}
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return iface{}
	}
	panic(fmt.Sprintf("constVal %v %v", c, t))
}

func (p *path) global(fr *frame, v *ssa.Global) value {
	if q, ok := p.globals[v]; ok {
		if p.inited[v.Pkg] == 0 {
			p.ensureInit(v.Pkg)
		}
		return q
	}
	if p.inited[v.Pkg] == 0 {
		p.ensureInit(v.Pkg)
		if q, ok := p.globals[v]; ok {
			return q
		}
	}
	var cell value
	if stubbedPkg(v.Pkg.Pkg.Path()) {
		cell = poison{"global of stubbed package " + v.String()}
		if v.Pkg.Pkg.Path() == "os" {
			cell = p.osGlobal(v)
		}
	} else {
		cell = p.zero(v.Type().(*types.Pointer).Elem())
	}
	q := &cell
	p.globals[v] = q
	return q
}

func (p *path) ensureInit(pk *ssa.Package) {
	if p.inited[pk] != 0 {
		return
	}
	p.inited[pk] = 1
	if stubbedPkg(pk.Pkg.Path()) {
		return
	}
	f := pk.Func("init")
	if f == nil || f.Blocks == nil {
		return
	}
	g := p.sched.cur
	p.initMode++
	depth := len(g.frames)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if pe, ok := r.(pathEnd); ok && strings.HasPrefix(pe.why, "unsupported") && !p.aborting.Load() {
					g.frames = g.frames[:depth]
					debugf("init of %s: %s", pk.Pkg.Path(), pe.why)
					p.poisonRest(pk, f, pe.why)
					return
				}
				panic(r)
			}
		}()
		p.callSSA(g, nil, f, nil, nil)
	}()
	p.initMode--
}

// poisonRest marks the variables that an initialiser which was given up has not set.
func (p *path) poisonRest(pk *ssa.Package, f *ssa.Function, why string) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			v, ok := st.Addr.(*ssa.Global)
			if !ok || v.Pkg != pk {
				continue
			}
			if q := p.globals[v]; q == nil || isZeroVal(*q) {
				if q == nil {
					q = new(value)
					p.globals[v] = q
				}
				*q = poison{"variable that is not initialised: " + why}
			}
		}
	}
}

func isZeroVal(v value) bool {
	switch v := v.(type) {
	case nil:
		return true
	case *Term:
		return v.isC() && v.c == 0
	case string:
		return v == ""
	case *value:
		return v == nil
	case iface:
		return v.t == nil
	case *mapV:
		return v == nil
	case sliceV:
		return !v.nonnil && v.a == nil
	case *closure:
		return v == nil
	}
	return false
}

func (p *path) runFrame(g *G, fr *frame) {
	for {
		var next *ssa.BasicBlock
		instrs := fr.block.Instrs
		// phis first, simultaneously
		i := 0
		if _, ok := instrs[0].(*ssa.Phi); ok {
			pi := 0
			for k, b := range fr.block.Preds {
				if b == fr.prev {
					pi = k
					break
				}
			}
			var tmp [16]value
			vals := tmp[:0]
			for ; i < len(instrs); i++ {
				ph, ok := instrs[i].(*ssa.Phi)
				if !ok {
					break
				}
				vals = append(vals, p.get(fr, ph.Edges[pi]))
			}
			for k := 0; k < i; k++ {
				fr.env[fr.info.slots[instrs[k].(*ssa.Phi)]] = vals[k]
			}
		}
		for ; i < len(instrs); i++ {
			p.steps++
			if p.steps > p.e.opt.MaxSteps {
				p.budget(g)
			}
			in := instrs[i]
			if ps := in.Pos(); ps.IsValid() {
				fr.pos = ps
			}
			switch in := in.(type) {
			case *ssa.If:
				c := p.get(fr, in.Cond)
				ct, ok := c.(*Term)
				if !ok {
					p.badValue(c)
				}
				if p.branch(ct) {
					next = fr.block.Succs[0]
				} else {
					next = fr.block.Succs[1]
				}
			case *ssa.Jump:
				next = fr.block.Succs[0]
			case *ssa.Return:
				switch len(in.Results) {
				case 0:
				case 1:
					fr.result = p.get(fr, in.Results[0])
				default:
					r := make(tuple, len(in.Results))
					for k, x := range in.Results {
						r[k] = p.get(fr, x)
					}
					fr.result = r
				}
				fr.block = nil
				return
			case *ssa.Panic:
				v := p.get(fr, in.X)
				p.raise(v, "panic: "+p.describe(v))
			case *ssa.RunDefers:
				p.runDefersNormal(g, fr)
			case *ssa.Store:
				addr := p.get(fr, in.Addr)
				if p.raceMem && !isLocal(in.Addr) {
					p.memAccess(g, addr, true)
				}
				p.store(addr, p.get(fr, in.Val))
			case *ssa.MapUpdate:
				m := p.get(fr, in.Map).(*mapV)
				if m == nil {
					p.raise(iface{t: rtErrorType, v: "assignment to entry in nil map"}, "assignment to entry in nil map")
				}
				p.sched.mapAccess(g, m, true)
				p.mapSet(in.Map.Type().Underlying().(*types.Map).Key(), m, p.get(fr, in.Key), p.get(fr, in.Value))
			case *ssa.Send:
				ch := p.get(fr, in.Chan).(*chanV)
				p.sched.selectOp(g, []selCase{{ch: ch, send: true, val: p.get(fr, in.X)}}, false, "send")
			case *ssa.Go:
				p.doGo(g, fr, in)
			case *ssa.Defer:
				p.doDefer(g, fr, in)
			case *ssa.DebugRef:
			case ssa.Value:
				fr.env[fr.info.slots[in]] = p.visit(g, fr, in)
			default:
				panic(fmt.Sprintf("instr %T", in))
			}
		}
		fr.prev, fr.block = fr.block, next
	}
}

func (p *path) budget(g *G) {
	if p.e.opt.Params["termination"] != 0 {
		site := ""
		if f := g.repoFrame(); f != nil {
			site = f.fn.String()
		}
		p.violation("nontermination", fmt.Sprintf("more than %d steps", p.e.opt.MaxSteps), site, g.stack())
		p.end("violation")
	}
	p.end("bound: step budget")
}

func (p *path) badValue(v value) {
	if q, ok := v.(poison); ok {
		p.unsupported("use of " + q.why)
	}
	panic(fmt.Sprintf("bad value %T", v))
}

func (p *path) runDefersNormal(g *G, fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		d()
	}
}

func (p *path) describe(v value) string {
	switch v := v.(type) {
	case iface:
		if v.t == nil {
			return "nil"
		}
		if s, ok := v.v.(string); ok {
			return s
		}
		if ptr, ok := v.v.(*value); ok && ptr != nil {
			if st, ok := (*ptr).(structure); ok && len(st) > 0 {
				if s, ok := st[0].(string); ok {
					return s
				}
			}
		}
		return v.t.String()
	case string:
		return v
	}
	return fmt.Sprintf("%T", v)
}

func (p *path) doGo(g *G, fr *frame, in *ssa.Go) {
	if p.initMode > 0 {
		p.unsupported("go statement in package initialisation")
	}
	fv, args := p.prepareCall(g, fr, &in.Call)
	name := in.Call.String()
	if fv == nil {
		p.rtPanic("go of nil func value")
	}
	if b, ok := fv.(*ssa.Builtin); ok {
		_ = b
		p.unsupported("go builtin")
	}
	p.sched.spawn(g, name, func(ng *G) {
		p.callValue(ng, nil, fv, args)
	})
	p.sched.yield(g)
}

func (p *path) doDefer(g *G, fr *frame, in *ssa.Defer) {
	fv, args := p.prepareCall(g, fr, &in.Call)
	common := &in.Call
	if b, ok := fv.(*ssa.Builtin); ok {
		fr.defers = append(fr.defers, func() { p.builtin(g, fr, b, common, args) })
		return
	}
	fr.defers = append(fr.defers, func() { p.callValue(g, fr, fv, args) })
}

func (p *path) prepareCall(g *G, fr *frame, c *ssa.CallCommon) (value, []value) {
	if c.IsInvoke() {
		rv := p.get(fr, c.Value)
		recv, ok := rv.(iface)
		if !ok {
			p.badValue(rv)
		}
		if recv.t == nil {
			p.rtPanic("invalid memory address or nil pointer dereference")
		}
		var fv value
		if n, ok := recv.v.(*native); ok {
			fv = p.nativeMethod(n, recv.t, c.Method)
		} else {
			fn := p.lookupMethod(recv.t, c.Method)
			if fn == nil {
				p.unsupported(fmt.Sprintf("method %s of %s", c.Method.Name(), recv.t))
			}
			fv = &closure{fn: fn}
		}
		args := make([]value, 0, len(c.Args)+1)
		args = append(args, copyVal(recv.v))
		for _, a := range c.Args {
			args = append(args, p.get(fr, a))
		}
		return fv, args
	}
	fv := p.get(fr, c.Value)
	args := make([]value, len(c.Args))
	for i, a := range c.Args {
		args[i] = p.get(fr, a)
	}
	if cl, ok := fv.(*closure); ok && cl == nil {
		p.rtPanic("invalid memory address or nil pointer dereference")
	}
	return fv, args
}

func (p *path) nativeMethod(n *native, t types.Type, m *types.Func) value {
	if fi, ok := n.x.(fileInfo); ok {
		switch m.Name() {
		case "Name":
			return &closure{nat: func(p *path, g *G, a []value) value { return filepath.Base(fi.name) }}
		case "Size":
			return &closure{nat: func(p *path, g *G, a []value) value { return p.x.BV(uint64(len(fi.ino.data)), 64) }}
		case "IsDir":
			return &closure{nat: func(p *path, g *G, a []value) value { return constFalse }}
		case "Mode":
			return &closure{nat: func(p *path, g *G, a []value) value { return p.x.BV(0644, 32) }}
		}
	}
	p.unsupported("method on modelled object " + m.String())
	return nil
}

var methMu sync.Mutex

func (p *path) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	methMu.Lock()
	defer methMu.Unlock()
	return p.e.prog.LookupMethod(t, m.Pkg(), m.Name())
}

func (p *path) visit(g *G, fr *frame, in ssa.Value) value {
	switch in := in.(type) {
	case *ssa.Alloc:
		var cell value = p.zero(in.Type().Underlying().(*types.Pointer).Elem())
		return &cell
	case *ssa.UnOp:
		return p.unop(g, fr, in)
	case *ssa.BinOp:
		return p.binop(in.Op, in.X.Type(), in.Y.Type(), p.get(fr, in.X), p.get(fr, in.Y))
	case *ssa.Call:
		return p.doCall(g, fr, in)
	case *ssa.ChangeInterface:
		return p.get(fr, in.X)
	case *ssa.ChangeType:
		return p.get(fr, in.X)
	case *ssa.Convert:
		return p.convert(in.Type(), in.X.Type(), p.get(fr, in.X))
	case *ssa.MultiConvert:
		return p.convert(in.Type(), in.X.Type(), p.get(fr, in.X))
	case *ssa.MakeInterface:
		return iface{t: in.X.Type(), v: copyVal(p.get(fr, in.X))}
	case *ssa.Extract:
		tv := p.get(fr, in.Tuple)
		t, ok := tv.(tuple)
		if !ok {
			if q, isP := tv.(poison); isP {
				return q
			}
			panic(fmt.Sprintf("extract from %T", tv))
		}
		return t[in.Index]
	case *ssa.Slice:
		return p.slice(fr, in)
	case *ssa.SliceToArrayPointer:
		p.unsupported("slice to array pointer")
	case *ssa.MakeChan:
		n := p.cint(p.get(fr, in.Size).(*Term))
		if n < 0 {
			p.rtPanic("makechan: size out of range")
		}
		return p.sched.newChan(n, in.Type().Underlying().(*types.Chan).Elem())
	case *ssa.MakeMap:
		return p.newMap()
	case *ssa.MakeSlice:
		return p.makeSlice(fr, in)
	case *ssa.MakeClosure:
		c := &closure{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			c.env = append(c.env, p.get(fr, b))
		}
		return c
	case *ssa.FieldAddr:
		v := p.get(fr, in.X)
		q, ok := v.(*value)
		if !ok {
			p.badValue(v)
		}
		if q == nil {
			p.rtPanic("invalid memory address or nil pointer dereference")
		}
		st, ok := (*q).(structure)
		if !ok {
			p.badValue(*q)
		}
		return &st[in.Field]
	case *ssa.Field:
		v := p.get(fr, in.X)
		st, ok := v.(structure)
		if !ok {
			p.badValue(v)
		}
		return copyVal(st[in.Field])
	case *ssa.IndexAddr:
		return p.indexAddr(fr, in)
	case *ssa.Index:
		x := p.get(fr, in.X)
		idx := p.idx64(p.get(fr, in.Index), in.Index.Type())
		if isString(in.X.Type()) {
			return p.strIndex(x, idx)
		}
		a := x.(array)
		p.bound(idx, p.x.BV(uint64(len(a)), 64))
		if idx.isC() {
			return copyVal(a[idx.c])
		}
		return p.load(&symPtr{a: a, idx: idx})
	case *ssa.Lookup:
		return p.lookup(g, fr, in)
	case *ssa.Range:
		x := p.get(fr, in.X)
		if m, ok := x.(*mapV); ok {
			p.sched.mapAccess(g, m, false)
			return &mapIter{m: m, ents: p.mapOrder(m)}
		}
		return &strIter{s: x}
	case *ssa.Next:
		return p.next(g, fr, in)
	case *ssa.TypeAssert:
		return p.typeAssert(g, fr, in)
	case *ssa.Select:
		return p.doSelect(g, fr, in)
	}
	panic(fmt.Sprintf("instr %T", in))
}

func (p *path) idx64(v value, t types.Type) *Term {
	i, ok := v.(*Term)
	if !ok {
		p.badValue(v)
	}
	w, signed, _ := intInfo(t)
	_ = w
	if signed {
		return p.x.Sext(i, 64)
	}
	return p.x.Zext(i, 64)
}

// bound checks 0 <= idx < n, forking on failure.
func (p *path) bound(idx, n *Term) {
	if !p.branch(p.x.Ult(idx, n)) {
		p.rtPanic("index out of range")
	}
}

func (p *path) strIndex(x value, idx *Term) value {
	n := p.strLen(x)
	p.bound(idx, p.x.BV(uint64(n), 64))
	if s, ok := x.(string); ok && idx.isC() {
		return p.x.BV(uint64(s[idx.c]), 8)
	}
	b := p.strBytes(x)
	if idx.isC() {
		return b[idx.c]
	}
	a := make([]value, len(b))
	for i := range b {
		a[i] = b[i]
	}
	return p.load(&symPtr{a: a, idx: idx})
}

func (p *path) indexAddr(fr *frame, in *ssa.IndexAddr) value {
	x := p.get(fr, in.X)
	idx := p.idx64(p.get(fr, in.Index), in.Index.Type())
	var a []value
	var n *Term
	switch s := x.(type) {
	case sliceV:
		a, n = s.a, s.ln
	case *value:
		if s == nil {
			p.rtPanic("invalid memory address or nil pointer dereference")
		}
		arr, ok := (*s).(array)
		if !ok {
			p.badValue(*s)
		}
		a, n = arr, p.x.BV(uint64(len(arr)), 64)
	default:
		p.badValue(x)
	}
	p.bound(idx, n)
	if idx.isC() {
		if idx.c >= uint64(len(a)) {
			panic("slice model shorter than its length")
		}
		return &a[idx.c]
	}
	// limit the cells to those the length allows
	if n.isC() {
		a = a[:n.c]
	}
	if len(a) > 0 {
		if _, ok := a[0].(*Term); ok && len(a) <= 600 {
			return &symPtr{a: a, idx: idx}
		}
	}
	if onlyRead(in) {
		if c := p.indexGroup(a, idx); c != nil {
			return c
		}
	}
	i := p.concretize(idx)
	return &a[i]
}

// onlyRead reports whether the address is used for loads only.
func onlyRead(in *ssa.IndexAddr) bool {
	for _, r := range *in.Referrers() {
		if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
			continue
		}
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		return false
	}
	return true
}

// indexGroup picks a cell with the value of a[idx], with one fork per distinct
// value instead of one per index; nil if the values are too different.
func (p *path) indexGroup(a []value, idx *Term) *value {
	if len(a) > 1024 {
		return nil
	}
	var groups [][]int
next:
	for i := range a {
		for k, g := range groups {
			if sameCell(a[g[0]], a[i]) {
				groups[k] = append(g, i)
				continue next
			}
		}
		groups = append(groups, []int{i})
		if len(groups) > 32 {
			return nil
		}
	}
	sort.SliceStable(groups, func(i, j int) bool { return len(groups[i]) < len(groups[j]) })
	for k, g := range groups {
		if k == len(groups)-1 {
			return &a[g[0]]
		}
		c := constFalse
		for _, i := range g {
			c = p.x.Or(c, p.x.Eq(idx, p.x.BV(uint64(i), 64)))
		}
		if p.branch(c) {
			return &a[g[0]]
		}
	}
	return nil
}

// sameCell reports whether two values are certainly the same.
func sameCell(a, b value) bool {
	switch x := a.(type) {
	case string:
		y, ok := b.(string)
		return ok && x == y
	case *value:
		y, ok := b.(*value)
		return ok && x == y
	case sliceV:
		y, ok := b.(sliceV)
		if !ok || len(x.a) != len(y.a) || x.ln != y.ln || x.cp != y.cp {
			return false
		}
		return x.nonnil == y.nonnil && (len(x.a) == 0 || &x.a[0] == &y.a[0])
	case *ssa.Function:
		y, ok := b.(*ssa.Function)
		return ok && x == y
	}
	return false
}

func (p *path) lookup(g *G, fr *frame, in *ssa.Lookup) value {
	x := p.get(fr, in.X)
	if isString(in.X.Type()) {
		return p.strIndex(x, p.idx64(p.get(fr, in.Index), in.Index.Type()))
	}
	m, ok := x.(*mapV)
	if !ok {
		p.badValue(x)
	}
	mt := in.X.Type().Underlying().(*types.Map)
	k := p.get(fr, in.Index)
	p.sched.mapAccess(g, m, false)
	if kt, ok := k.(iface); ok && kt.t != nil && !types.Comparable(kt.t) {
		p.rtPanic("hash of unhashable type " + kt.t.String())
	}
	e := p.mapFind(mt.Key(), m, k)
	var v value
	if e != nil {
		v = copyVal(e.v)
	} else {
		v = p.zero(mt.Elem())
	}
	if in.CommaOk {
		return tuple{v, p.x.Bool(e != nil)}
	}
	return v
}

func (p *path) next(g *G, fr *frame, in *ssa.Next) value {
	switch it := p.get(fr, in.Iter).(type) {
	case *mapIter:
		if it.m != nil {
			p.sched.mapAccess(g, it.m, false)
		}
		for it.i < len(it.ents) {
			e := it.ents[it.i]
			it.i++
			if e.del {
				continue
			}
			return tuple{constTrue, copyVal(e.k), copyVal(e.v)}
		}
		tt := in.Type().(*types.Tuple)
		r := tuple{constFalse, nil, nil}
		for i := 1; i < 3; i++ {
			if b, ok := tt.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
				continue
			}
			r[i] = p.zero(tt.At(i).Type())
		}
		return r
	case *strIter:
		n := p.strLen(it.s)
		if it.i >= n {
			return tuple{constFalse, p.x.BV(0, 64), p.x.BV(0, 32)}
		}
		i := it.i
		if s, ok := it.s.(string); ok {
			var r rune
			sz := 0
			for k, rr := range s[i:] {
				if k == 0 {
					r = rr
				} else {
					sz = k
					break
				}
			}
			if sz == 0 {
				sz = len(s) - i
			}
			it.i = i + sz
			return tuple{constTrue, p.x.BV(uint64(i), 64), p.x.BV(uint64(r), 32)}
		}
		r, sz := p.decodeRune(p.strBytes(it.s)[i:])
		it.i += sz
		return tuple{constTrue, p.x.BV(uint64(i), 64), r}
	}
	panic("next")
}

func (p *path) doSelect(g *G, fr *frame, in *ssa.Select) value {
	cases := make([]selCase, len(in.States))
	for i, st := range in.States {
		ch := p.get(fr, st.Chan).(*chanV)
		cases[i] = selCase{ch: ch, send: st.Dir == types.SendOnly}
		if cases[i].send {
			cases[i].val = p.get(fr, st.Send)
		}
	}
	i, v, ok := p.sched.selectOp(g, cases, !in.Blocking, "select")
	r := tuple{p.x.BV(uint64(i), 64), p.x.Bool(ok && i >= 0 && !cases[max(i, 0)].send)}
	for k, st := range in.States {
		if st.Dir == types.RecvOnly {
			if k == i {
				r = append(r, v)
			} else {
				r = append(r, p.zero(st.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
	}
	return r
}

func (p *path) typeAssert(g *G, fr *frame, in *ssa.TypeAssert) value {
	xv := p.get(fr, in.X)
	x, isI := xv.(iface)
	if !isI {
		p.badValue(xv)
	}
	ok := false
	var v value
	if it, isIface := in.AssertedType.Underlying().(*types.Interface); isIface {
		if x.t != nil && p.implements(x.t, it) {
			ok = true
			v = x
		} else {
			v = iface{}
		}
	} else {
		if x.t != nil && types.Identical(x.t, in.AssertedType) {
			ok = true
			v = copyVal(x.v)
		} else {
			v = p.zero(in.AssertedType)
		}
	}
	if in.CommaOk {
		return tuple{v, p.x.Bool(ok)}
	}
	if !ok {
		have := "nil"
		if x.t != nil {
			have = x.t.String()
		}
		p.raise(iface{t: rtErrorType, v: "interface conversion"}, fmt.Sprintf("interface conversion: %s is %s, not %s", in.X.Type(), have, in.AssertedType))
	}
	return v
}

func (p *path) implements(t types.Type, it *types.Interface) bool {
	if t == rtErrorType {
		for i := 0; i < it.NumMethods(); i++ {
			if it.Method(i).Name() != "Error" && it.Method(i).Name() != "RuntimeError" {
				return false
			}
		}
		return true
	}
	return types.Implements(t, it)
}

// isLocal reports whether the address is that of a variable no other goroutine can reach.
func isLocal(v ssa.Value) bool {
	a, ok := v.(*ssa.Alloc)
	return ok && !a.Heap
}

func (p *path) unop(g *G, fr *frame, in *ssa.UnOp) value {
	x := p.get(fr, in.X)
	switch in.Op {
	case token.MUL:
		if p.raceMem && !isLocal(in.X) {
			p.memAccess(g, x, false)
		}
		v := p.load(x)
		if q, ok := v.(poison); ok && p.initMode == 0 {
			p.unsupported("load of " + q.why)
		}
		return v
	case token.ARROW:
		ch := x.(*chanV)
		_, v, ok := p.sched.selectOp(g, []selCase{{ch: ch}}, false, "receive")
		if in.CommaOk {
			return tuple{v, p.x.Bool(ok)}
		}
		return v
	case token.NOT:
		t, ok := x.(*Term)
		if !ok {
			p.badValue(x)
		}
		return p.x.Not(t)
	case token.SUB:
		t, ok := x.(*Term)
		if !ok {
			p.badValue(x)
		}
		if t.sort == SFP {
			return p.x.FpUn(OFpNeg, t)
		}
		return p.x.Neg(t)
	case token.XOR:
		return p.x.BvNot(x.(*Term))
	}
	panic("unop " + in.Op.String())
}

func (p *path) binop(op token.Token, tx, ty types.Type, a, b value) value {
	switch op {
	case token.EQL:
		return p.eqMixed(tx, ty, a, b)
	case token.NEQ:
		return p.x.Not(p.eqMixed(tx, ty, a, b))
	}
	if isString(tx) {
		switch op {
		case token.ADD:
			return p.strConcat(a, b)
		case token.LSS:
			return p.strLt(a, b)
		case token.GTR:
			return p.strLt(b, a)
		case token.LEQ:
			return p.x.Not(p.strLt(b, a))
		case token.GEQ:
			return p.x.Not(p.strLt(a, b))
		}
	}
	x, ok := a.(*Term)
	if !ok {
		p.badValue(a)
	}
	y, ok := b.(*Term)
	if !ok {
		p.badValue(b)
	}
	if x.sort == SFP {
		switch op {
		case token.ADD:
			return p.x.FpBin(OFpAdd, x, y)
		case token.SUB:
			return p.x.FpBin(OFpSub, x, y)
		case token.MUL:
			return p.x.FpBin(OFpMul, x, y)
		case token.QUO:
			return p.x.FpBin(OFpDiv, x, y)
		case token.LSS:
			return p.x.FpCmp(OFpLt, x, y)
		case token.GTR:
			return p.x.FpCmp(OFpLt, y, x)
		case token.LEQ:
			return p.x.FpCmp(OFpLe, x, y)
		case token.GEQ:
			return p.x.FpCmp(OFpLe, y, x)
		}
	}
	if x.sort == SBool {
		switch op {
		case token.AND, token.LAND:
			return p.x.And(x, y)
		case token.OR, token.LOR:
			return p.x.Or(x, y)
		}
	}
	w, signed, _ := intInfo(tx)
	switch op {
	case token.ADD:
		return p.x.Bin(OAdd, x, y)
	case token.SUB:
		return p.x.Bin(OSub, x, y)
	case token.MUL:
		return p.x.Bin(OMul, x, y)
	case token.QUO, token.REM:
		if p.branch(p.x.Eq(y, p.x.BV(0, w))) {
			p.rtPanic("integer divide by zero")
		}
		o := OUdiv
		switch {
		case op == token.QUO && signed && !(nonneg(x) && nonneg(y)):
			o = OSdiv
		case op == token.REM && signed && !(nonneg(x) && nonneg(y)):
			o = OSrem
		case op == token.REM:
			o = OUrem
		}
		return p.x.Bin(o, x, y)
	case token.AND:
		return p.x.Bin(OBvAnd, x, y)
	case token.OR:
		return p.x.Bin(OBvOr, x, y)
	case token.XOR:
		return p.x.Bin(OBvXor, x, y)
	case token.AND_NOT:
		return p.x.Bin(OBvAnd, x, p.x.BvNot(y))
	case token.SHL, token.SHR:
		yw, ysigned, _ := intInfo(ty)
		if ysigned && !nonneg(y) {
			if p.branch(p.x.Slt(y, p.x.BV(0, yw))) {
				p.rtPanic("negative shift amount")
			}
		}
		// bring the count to x's width, saturating
		var cnt *Term
		if yw > w {
			big := p.x.Ule(p.x.BV(uint64(w), yw), y)
			cnt = p.x.Ite(big, p.x.BV(uint64(w), w), p.x.Extract(y, 0, w))
		} else {
			cnt = p.x.Zext(y, w)
		}
		if op == token.SHL {
			return p.x.Bin(OShl, x, cnt)
		}
		if signed {
			return p.x.Bin(OAshr, x, cnt)
		}
		return p.x.Bin(OLshr, x, cnt)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if op == token.GTR || op == token.GEQ {
			x, y = y, x
		}
		strict := op == token.LSS || op == token.GTR
		switch {
		case signed && strict:
			return p.x.Slt(x, y)
		case signed:
			return p.x.Sle(x, y)
		case strict:
			return p.x.Ult(x, y)
		}
		return p.x.Ule(x, y)
	}
	panic("binop " + op.String())
}

func (p *path) eqMixed(tx, ty types.Type, a, b value) *Term {
	_, ix := tx.Underlying().(*types.Interface)
	_, iy := ty.Underlying().(*types.Interface)
	if ix && !iy {
		if _, ok := b.(iface); !ok {
			b = iface{t: ty, v: b}
		}
		return p.eq(tx, a, b)
	}
	if iy && !ix {
		if _, ok := a.(iface); !ok {
			a = iface{t: tx, v: a}
		}
		return p.eq(ty, a, b)
	}
	return p.eq(tx, a, b)
}

func (p *path) convert(dst, src types.Type, v value) value {
	ud, us := dst.Underlying(), src.Underlying()
	if q, ok := v.(poison); ok {
		return q
	}
	if db, ok := ud.(*types.Basic); ok {
		if db.Kind() == types.UnsafePointer {
			return v
		}
		if isString(db) {
			if isString(us) {
				return v
			}
			if s, ok := v.(sliceV); ok {
				el := us.(*types.Slice).Elem().Underlying().(*types.Basic)
				if el.Kind() == types.Uint8 {
					return mkStr(p.sliceTerms(s))
				}
				var rs []rune
				for _, c := range p.sliceTerms(s) {
					rs = append(rs, rune(sx(p.concretize(c), 32)))
				}
				return string(rs)
			}
			// integer to string
			t := v.(*Term)
			if !t.isC() {
				if !p.branch(p.x.Ult(t, p.x.BV(0x80, t.w))) {
					return string(rune(sx(p.concretize(t), t.w)))
				}
				return mkStr([]*Term{p.x.Extract(t, 0, 8)})
			}
			return string(rune(sx(t.c, t.w)))
		}
		t, ok := v.(*Term)
		if !ok {
			if db.Kind() == types.Uintptr {
				return poison{"uintptr of a pointer"}
			}
			p.badValue(v)
		}
		dw, dsigned, dint := intInfo(db)
		sw, ssigned, sint := intInfo(us)
		if dint && sint {
			_ = sw
			if dw <= t.w {
				return p.x.Extract(t, 0, dw)
			}
			if ssigned {
				return p.x.Sext(t, dw)
			}
			return p.x.Zext(t, dw)
		}
		if fw, ok := isFloat(db); ok {
			if sint {
				return p.x.FpFromInt(t, ssigned, fw)
			}
			return p.x.FpToFp(t, fw)
		}
		if dint {
			return p.x.FpToInt(t, dw, dsigned)
		}
		if isBool(db) {
			return v
		}
	}
	switch d := ud.(type) {
	case *types.Slice:
		if isString(us) {
			el := d.Elem().Underlying().(*types.Basic)
			if el.Kind() == types.Uint8 {
				s := p.mkBytes(p.strBytes(v))
				s.nonnil = true
				return s
			}
			var a []value
			str, ok := v.(string)
			if !ok {
				for b := p.strBytes(v); len(b) > 0; {
					r, sz := p.decodeRune(b)
					a = append(a, r)
					b = b[sz:]
				}
				return p.mkSlice(a)
			}
			for _, r := range str {
				a = append(a, p.x.BV(uint64(r), 32))
			}
			return p.mkSlice(a)
		}
		return v
	case *types.Pointer:
		return v
	}
	if types.Identical(ud, us) {
		return v
	}
	p.unsupported(fmt.Sprintf("conversion %v -> %v", src, dst))
	return nil
}

func (p *path) makeSlice(fr *frame, in *ssa.MakeSlice) value {
	lt := p.idx64(p.get(fr, in.Len), in.Len.Type())
	ct := p.idx64(p.get(fr, in.Cap), in.Cap.Type())
	n, c := int64(p.concretize(lt)), int64(p.concretize(ct))
	if n < 0 || n > 1<<40 {
		p.rtPanic("makeslice: len out of range")
	}
	if c < n {
		p.rtPanic("makeslice: cap out of range")
	}
	if c > 1<<20 {
		p.end("bound: slice of more than a million elements")
	}
	el := in.Type().Underlying().(*types.Slice).Elem()
	a := make([]value, c)
	if c > 0 {
		z := p.zero(el)
		for i := range a {
			a[i] = copyVal(z)
		}
	}
	return sliceV{a: a, ln: p.x.BV(uint64(n), 64), cp: p.x.BV(uint64(c), 64), nonnil: true}
}

func (p *path) slice(fr *frame, in *ssa.Slice) value {
	x := p.get(fr, in.X)
	var lo, hi, mx *Term
	if in.Low != nil {
		lo = p.idx64(p.get(fr, in.Low), in.Low.Type())
	} else {
		lo = p.x.BV(0, 64)
	}
	if in.High != nil {
		hi = p.idx64(p.get(fr, in.High), in.High.Type())
	}
	if in.Max != nil {
		mx = p.idx64(p.get(fr, in.Max), in.Max.Type())
	}
	if isString(in.X.Type()) {
		n := p.strLen(x)
		if hi == nil {
			hi = p.x.BV(uint64(n), 64)
		}
		if !p.branch(p.x.And(p.x.Ule(hi, p.x.BV(uint64(n), 64)), p.x.Ule(lo, hi))) {
			p.rtPanic("slice bounds out of range")
		}
		l, h := p.concretize(lo), p.concretize(hi)
		if s, ok := x.(string); ok {
			return s[l:h]
		}
		return mkStr(p.strBytes(x)[l:h])
	}
	var a []value
	var ln, cp *Term
	nonnil := true
	switch s := x.(type) {
	case sliceV:
		a, ln, cp, nonnil = s.a, s.ln, s.cp, s.nonnil
	case *value:
		if s == nil {
			p.rtPanic("invalid memory address or nil pointer dereference")
		}
		arr := (*s).(array)
		a = arr
		ln = p.x.BV(uint64(len(arr)), 64)
		cp = ln
	default:
		p.badValue(x)
	}
	if hi == nil {
		hi = ln
	}
	ok := p.x.Ule(lo, hi)
	lim := cp
	if mx != nil {
		ok = p.x.And(ok, p.x.And(p.x.Ule(hi, mx), p.x.Ule(mx, cp)))
		lim = mx
	} else {
		ok = p.x.And(ok, p.x.Ule(hi, cp))
	}
	if !p.branch(ok) {
		p.rtPanic("slice bounds out of range")
	}
	l := p.concretize(lo)
	lc := p.x.BV(l, 64)
	if int(l) > len(a) {
		panic("slice model shorter than its capacity")
	}
	return sliceV{a: a[l:], ln: p.x.Bin(OSub, hi, lc), cp: p.x.Bin(OSub, lim, lc), nonnil: nonnil}
}

func (p *path) doCall(g *G, fr *frame, in *ssa.Call) (res value) {
	if p.initMode > 0 && fr.info.init {
		// in a package initialiser an unsupported call leaves a poisoned value
		depth := len(g.frames)
		defer func() {
			if r := recover(); r != nil {
				if pe, ok := r.(pathEnd); ok && strings.HasPrefix(pe.why, "unsupported") && !p.aborting.Load() {
					g.frames = g.frames[:depth]
					res = poison{"initialiser: " + pe.why}
					if tt, ok := in.Type().(*types.Tuple); ok {
						tp := make(tuple, tt.Len())
						for i := range tp {
							tp[i] = res
						}
						res = tp
					}
					return
				}
				panic(r)
			}
		}()
	}
	fv, args := p.prepareCall(g, fr, &in.Call)
	if b, ok := fv.(*ssa.Builtin); ok {
		return p.builtin(g, fr, b, &in.Call, args)
	}
	return p.callValue(g, fr, fv, args)
}

func (p *path) lenOf(v value) *Term {
	switch x := v.(type) {
	case sliceV:
		return x.ln
	case string, *symStr, *opaqueStr:
		return p.x.BV(uint64(p.strLen(x)), 64)
	case *mapV:
		if x == nil {
			return p.x.BV(0, 64)
		}
		p.sched.mapAccess(p.sched.cur, x, false)
		return p.x.BV(uint64(x.n), 64)
	case *chanV:
		if x == nil {
			return p.x.BV(0, 64)
		}
		return p.x.BV(uint64(len(x.buf)), 64)
	case array:
		return p.x.BV(uint64(len(x)), 64)
	case *value:
		return p.x.BV(uint64(len((*x).(array))), 64)
	}
	p.badValue(v)
	return nil
}

func (p *path) builtin(g *G, fr *frame, b *ssa.Builtin, c *ssa.CallCommon, args []value) value {
	for _, a := range args {
		if q, ok := a.(poison); ok {
			p.unsupported("builtin on " + q.why)
		}
	}
	switch b.Name() {
	case "len":
		return p.lenOf(args[0])
	case "cap":
		switch x := args[0].(type) {
		case sliceV:
			return x.cp
		case *chanV:
			if x == nil {
				return p.x.BV(0, 64)
			}
			return p.x.BV(uint64(x.cap), 64)
		}
		return p.lenOf(args[0])
	case "append":
		if p.raceMem {
			d := args[0].(sliceV)
			if s, ok := args[1].(sliceV); ok && s.ln.isC() && d.ln.isC() && d.cp.isC() {
				p.memCells(g, s.a[:s.ln.c], false)
				p.memCells(g, d.a[d.ln.c:min(d.ln.c+s.ln.c, d.cp.c)], true)
			}
		}
		return p.appendOp(c.Args[0].Type(), args[0].(sliceV), args[1])
	case "copy":
		dst := args[0].(sliceV)
		var src []value
		var n int
		if s, ok := args[1].(sliceV); ok {
			// min of both lengths
			a, bl := dst.ln, s.ln
			m := p.x.Ite(p.x.Ult(a, bl), a, bl)
			n = p.cint(m)
			p.memCells(g, s.a[:n], false)
			src = append(src, s.a[:n]...)
		} else {
			bs := p.strBytes(args[1])
			m := p.x.Ite(p.x.Ult(dst.ln, p.x.BV(uint64(len(bs)), 64)), dst.ln, p.x.BV(uint64(len(bs)), 64))
			n = p.cint(m)
			for i := 0; i < n; i++ {
				src = append(src, bs[i])
			}
		}
		p.memCells(g, dst.a[:n], true)
		for i := 0; i < n; i++ {
			src[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			storeTo(&dst.a[i], src[i])
		}
		return p.x.BV(uint64(n), 64)
	case "delete":
		m := args[0].(*mapV)
		if m == nil {
			return nil
		}
		p.sched.mapAccess(g, m, true)
		p.mapDelete(c.Args[0].Type().Underlying().(*types.Map).Key(), m, args[1])
		return nil
	case "close":
		p.sched.closeChan(g, args[0].(*chanV))
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *mapV:
			if x != nil {
				p.sched.mapAccess(g, x, true)
				for _, e := range x.ents {
					e.del = true
				}
				x.ents, x.index, x.n, x.nsym = nil, map[string]*mapEntry{}, 0, 0
			}
		case sliceV:
			z := p.zero(c.Args[0].Type().Underlying().(*types.Slice).Elem())
			for i := 0; i < p.cint(x.ln); i++ {
				storeTo(&x.a[i], copyVal(z))
			}
		}
		return nil
	case "panic":
		p.raise(args[0], "panic: "+p.describe(args[0]))
	case "recover":
		return p.doRecover(fr)
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		t := c.Args[0].Type()
		for _, a := range args[1:] {
			if isString(t) {
				less := p.strLt(a, r)
				if (b.Name() == "min") == p.branch(less) {
					r = a
				}
				continue
			}
			x, y := r.(*Term), a.(*Term)
			if x.sort == SFP {
				nan := p.x.Or(p.x.FpIsNaN(x), p.x.FpIsNaN(y))
				var less *Term
				if b.Name() == "min" {
					less = p.x.FpCmp(OFpLt, y, x)
				} else {
					less = p.x.FpCmp(OFpLt, x, y)
				}
				r = p.x.Ite(nan, p.x.fpc(math.NaN(), x.w), p.x.Ite(less, y, x))
				continue
			}
			_, signed, _ := intInfo(t)
			lo, hi := y, x // min: take y when y < x
			if b.Name() == "max" {
				lo, hi = x, y
			}
			less := p.x.Ult(lo, hi)
			if signed {
				less = p.x.Slt(lo, hi)
			}
			r = p.x.Ite(less, y, x)
		}
		return r
	case "String": // unsafe.String
		n := p.cint(args[1].(*Term))
		if n == 0 {
			return ""
		}
		if sp, ok := args[0].(*unsafeData); ok {
			bs := make([]*Term, n)
			for i := range bs {
				bs[i] = sp.a[i].(*Term)
			}
			return mkStr(bs)
		}
		p.unsupported("unsafe.String")
	case "SliceData":
		s := args[0].(sliceV)
		return &unsafeData{a: s.a}
	case "StringData":
		s := p.mkBytes(p.strBytes(args[0]))
		return &unsafeData{a: s.a}
	case "Slice":
		if sp, ok := args[0].(*unsafeData); ok {
			n := p.x.BV(uint64(p.cint(p.idx64(args[1], c.Args[1].Type()))), 64)
			return sliceV{a: sp.a, ln: n, cp: n, nonnil: true}
		}
		p.unsupported("unsafe.Slice")
	case "Sizeof":
		return p.x.BV(uint64(sizes.Sizeof(c.Args[0].Type())), 64)
	case "ssa:wrapnilchk":
		if q, ok := args[0].(*value); ok && q == nil {
			p.rtPanic("invalid memory address or nil pointer dereference")
		}
		return args[0]
	case "ssa:deferstack":
		return (*value)(nil)
	}
	p.unsupported("builtin " + b.Name())
	return nil
}

type unsafeData struct{ a []value }

func (p *path) doRecover(fr *frame) value {
	// fr is the deferred function's frame; its caller is the panicking frame
	if fr != nil && fr.caller != nil && fr.caller.panicking {
		fr.caller.panicking = false
		tp, ok := fr.caller.panic.(*targetPanic)
		if ok {
			fr.caller.panic = nil
			if i, ok := tp.v.(iface); ok {
				return i
			}
			return iface{t: rtErrorType, v: tp.msg}
		}
	}
	return iface{}
}

// growth of Go's append
var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func growCap(oldCap, newLen, elem int) int {
	nc := oldCap
	if newLen > 2*oldCap {
		nc = newLen
	} else if oldCap < 256 {
		nc = 2 * oldCap
	} else {
		for nc < newLen {
			nc += (nc + 3*256) / 4
		}
	}
	if elem == 0 {
		return nc
	}
	b := nc * elem
	for _, s := range sizeClasses {
		if b <= s {
			return s / elem
		}
	}
	pg := 8192
	return (b + pg - 1) / pg * pg / elem
}

var sizes = types.SizesFor("gc", "amd64")

func (p *path) appendOp(t types.Type, s sliceV, bv value) value {
	var add []value
	switch b := bv.(type) {
	case sliceV:
		n := p.cint(b.ln)
		for i := 0; i < n; i++ {
			add = append(add, copyVal(b.a[i]))
		}
	case string, *symStr, *opaqueStr:
		for _, x := range p.strBytes(b) {
			add = append(add, x)
		}
	default:
		p.badValue(bv)
	}
	if len(add) == 0 {
		return s
	}
	n := p.cint(s.ln)
	if !p.branch(p.x.Ult(s.cp, p.x.BV(uint64(n+len(add)), 64))) {
		// fits: written in place
		for i, v := range add {
			storeTo(&s.a[n+i], v)
		}
		return sliceV{a: s.a, ln: p.x.BV(uint64(n+len(add)), 64), cp: s.cp, nonnil: true}
	}
	el := t.Underlying().(*types.Slice).Elem()
	c := growCap(p.cint(s.cp), n+len(add), int(sizes.Sizeof(el)))
	if c < n+len(add) {
		c = n + len(add)
	}
	if c > 1<<20 {
		p.end("bound: slice of more than a million elements")
	}
	a := make([]value, c)
	for i := 0; i < n; i++ {
		a[i] = copyVal(s.a[i])
	}
	copy(a[n:], add)
	if c > n+len(add) {
		z := p.zero(el)
		for i := n + len(add); i < c; i++ {
			a[i] = copyVal(z)
		}
	}
	return sliceV{a: a, ln: p.x.BV(uint64(n+len(add)), 64), cp: p.x.BV(uint64(c), 64), nonnil: true}
}
