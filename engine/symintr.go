package main

// The harness interface: functions of the sym package, executed symbolically.

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (p *path) symName(name string) string {
	k := p.inpN[name]
	p.inpN[name]++
	if k > 0 {
		return fmt.Sprintf("%s#%d", name, k)
	}
	return name
}

// symVar makes a recorded symbolic input.
func (p *path) symVar(name string, w uint8) *Term {
	n := p.symName(name)
	t := p.newVar(n, w)
	p.inputs = append(p.inputs, &symInput{n, []*Term{t}})
	return t
}

func (p *path) symConst(name string, v int) {
	n := p.symName(name)
	p.inputs = append(p.inputs, &symInput{n, []*Term{p.x.BV(uint64(v), 64)}})
}

func (p *path) symBytes(name string, n int) []*Term {
	nm := p.symName(name)
	b := make([]*Term, n)
	for i := range b {
		b[i] = p.newVar(fmt.Sprintf("%s[%d]", nm, i), 8)
	}
	p.inputs = append(p.inputs, &symInput{nm, b})
	return b
}

func init() {
	S := func(name string, f func(p *path, g *G, a []value) value) {
		reg(symPath+"."+name, func(p *path, g *G, fr *frame, fn *ssa.Function, args []value) value { return f(p, g, args) })
	}
	str := func(v value) string {
		s, ok := v.(string)
		if !ok {
			panic("harness: name must be constant")
		}
		return s
	}
	S("Byte", func(p *path, g *G, a []value) value { return p.symVar(str(a[0]), 8) })
	S("U16", func(p *path, g *G, a []value) value { return p.symVar(str(a[0]), 16) })
	S("U32", func(p *path, g *G, a []value) value { return p.symVar(str(a[0]), 32) })
	S("I64", func(p *path, g *G, a []value) value { return p.symVar(str(a[0]), 64) })
	S("Bool", func(p *path, g *G, a []value) value { return p.symVar(str(a[0]), 1) })
	S("F64", func(p *path, g *G, a []value) value { return p.x.FpFromBits(p.symVar(str(a[0]), 64)) })
	S("Int", func(p *path, g *G, a []value) value {
		t := p.symVar(str(a[0]), 64)
		p.assume(p.x.And(p.x.Sle(a[1].(*Term), t), p.x.Sle(t, a[2].(*Term))))
		return t
	})
	S("Bytes", func(p *path, g *G, a []value) value { return p.mkBytes(p.symBytes(str(a[0]), p.cint(a[1].(*Term)))) })
	S("Str", func(p *path, g *G, a []value) value { return mkStr(p.symBytes(str(a[0]), p.cint(a[1].(*Term)))) })
	S("Choice", func(p *path, g *G, a []value) value {
		n := p.cint(a[1].(*Term))
		c := p.choose(n, str(a[0]))
		p.symConst(str(a[0]), c)
		return p.x.BV(uint64(c), 64)
	})
	S("Bound", func(p *path, g *G, a []value) value {
		v := p.cint(a[1].(*Term))
		if p.e.tier == "thorough" {
			v = p.cint(a[2].(*Term))
		}
		p.e.mu.Lock()
		p.e.bounds[str(a[0])] = v
		p.e.mu.Unlock()
		return p.x.BV(uint64(v), 64)
	})
	S("Assume", func(p *path, g *G, a []value) value { p.assume(a[0].(*Term)); return nil })
	S("Assert", func(p *path, g *G, a []value) value { p.assertProp(g, a[0].(*Term), str(a[1])); return nil })
	S("Reach", func(p *path, g *G, a []value) value { p.reach[str(a[0])] = true; return nil })
	bools := func(p *path, v value) []*Term {
		s := v.(sliceV)
		n := p.cint(s.ln)
		r := make([]*Term, n)
		for i := range r {
			r[i] = s.a[i].(*Term)
		}
		return r
	}
	S("And", func(p *path, g *G, a []value) value {
		r := constTrue
		for _, t := range bools(p, a[0]) {
			r = p.x.And(r, t)
		}
		return r
	})
	S("Or", func(p *path, g *G, a []value) value {
		r := constFalse
		for _, t := range bools(p, a[0]) {
			r = p.x.Or(r, t)
		}
		return r
	})
	S("Not", func(p *path, g *G, a []value) value { return p.x.Not(a[0].(*Term)) })
	S("Implies", func(p *path, g *G, a []value) value { return p.x.Or(p.x.Not(a[0].(*Term)), a[1].(*Term)) })
	S("Iff", func(p *path, g *G, a []value) value { return p.x.Eq(a[0].(*Term), a[1].(*Term)) })
	ite := func(p *path, g *G, a []value) value { return p.x.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term)) }
	S("IteInt", ite)
	S("IteByte", ite)
	S("EqBytes", func(p *path, g *G, a []value) value {
		x, y := a[0].(sliceV), a[1].(sliceV)
		if !p.branch(p.x.Eq(x.ln, y.ln)) {
			return constFalse
		}
		return p.bytesEq(p.sliceTerms(x), p.sliceTerms(y))
	})
	S("EqStr", func(p *path, g *G, a []value) value { return p.strEq(a[0], a[1]) })
	S("SameF64", func(p *path, g *G, a []value) value { return p.x.Eq(a[0].(*Term), a[1].(*Term)) })
	S("Settle", func(p *path, g *G, a []value) value { p.settle(g); return nil })
	S("FixMapOrder", func(p *path, g *G, a []value) value { p.mapFixed = p.branch(a[0].(*Term)); return nil })
	S("TempDir", func(p *path, g *G, a []value) value { return "/sym" })
	S("RepoFile", func(p *path, g *G, a []value) value {
		b, err := os.ReadFile(filepath.Join(repoDir, a[0].(string)))
		if err != nil {
			p.unsupported(err.Error())
		}
		return string(b)
	})
	S("Capture", func(p *path, g *G, a []value) value {
		f := p.fsm()
		n := len(f.stdout)
		p.callValue(g, nil, a[0], nil)
		var out value = ""
		for _, s := range f.stdout[n:] {
			out = p.strConcat(out, s)
		}
		return out
	})
	S("SetArgs", func(p *path, g *G, a []value) value {
		s := a[0].(sliceV)
		args := []string{"prog"}
		for i := 0; i < p.cint(s.ln); i++ {
			args = append(args, p.concStr(s.a[i]))
		}
		p.fsm().args = args
		return nil
	})
	S("SerialPort", func(p *path, g *G, a []value) value { p.fsm().serial = a[0]; return nil })
	S("Faults", func(p *path, g *G, a []value) value { p.fsm().faults = p.cint(a[0].(*Term)); return nil })
	S("Crash", func(p *path, g *G, a []value) value {
		f := p.fsm()
		f.armed = true
		for _, i := range f.files {
			i.synced = i.data
		}
		depth := len(g.frames)
		crashed := false
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(crashNow); ok {
						g.frames = g.frames[:depth]
						crashed = true
						return
					}
					panic(r)
				}
			}()
			p.callValue(g, nil, a[0], nil)
		}()
		f.armed = false
		f.faults = 0
		return p.x.Bool(crashed)
	})
	S("JSONFile", func(p *path, g *G, a []value) value {
		nm := p.concStr(a[0])
		d := &jdoc{name: nm, dev: p.cint(a[1].(*Term))}
		ks := a[2].(sliceV)
		for i := 0; i < p.cint(ks.ln); i++ {
			d.keys = append(d.keys, p.concStr(ks.a[i]))
		}
		d.root = &jnode{k: jAny, doc: d}
		f := p.fsm()
		f.docs = append(f.docs, d)
		f.files[nm] = &inode{data: p.strBytes(p.jput(d.root))}
		return nil
	})
	S("Funcs", func(p *path, g *G, a []value) value {
		d := a[0].(iface)
		st := d.t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Slice)
		sig := st.Elem().Underlying().(*types.Signature)
		var pkg *types.Package
		rt := sig.Results().At(0).Type()
		if pt, ok := rt.(*types.Pointer); ok {
			rt = pt.Elem()
		}
		pkg = rt.(*types.Named).Obj().Pkg()
		sp := p.e.prog.Package(pkg)
		var names []string
		for n, m := range sp.Members {
			if f, ok := m.(*ssa.Function); ok && types.Identical(f.Signature, sig) && !strings.HasPrefix(n, "Verif") {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		var r []value
		for _, n := range names {
			r = append(r, &closure{fn: sp.Func(n)})
		}
		*(d.v.(*value)) = p.mkSlice(r)
		return nil
	})
	S("Symbolic", func(p *path, g *G, a []value) value { return constTrue })
	S("Trace", func(p *path, g *G, a []value) value { p.trace = append(p.trace, p.concStr(a[0])); return nil })
	S("Concrete", func(p *path, g *G, a []value) value { return p.x.BV(p.concretize(a[0].(*Term)), 64) })
}

// settle lets every other goroutine run until all are blocked, without letting time pass.
func (p *path) settle(g *G) {
	s := p.sched
	armed := true
	hook := func() bool {
		if armed && g.state == 1 {
			armed = false
			s.ready(g)
			return true
		}
		return false
	}
	s.idleHooks = append([]func() bool{hook}, s.idleHooks...)
	if len(s.runq) > 0 || true {
		s.block(g, "Settle")
	}
	for i := range s.idleHooks {
		_ = i
	}
	s.idleHooks = s.idleHooks[1:]
}
