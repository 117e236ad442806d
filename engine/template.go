package main

// A model of text/template (and of html/template for templates without markup): the template text is
// parsed by the standard library's parser, the evaluation works on the engine's values.

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"
	"text/template/parse"

	"golang.org/x/tools/go/ssa"
)

type tmplSet struct {
	trees map[string]*parse.Tree
	funcs map[string]iface
	html  bool
}

type tmplObj struct {
	name string
	set  *tmplSet
	cell *value
}

type tmplFail struct{ err iface }

type tmplVar struct {
	name string
	v    iface
}

type tmplRun struct {
	p    *path
	g    *G
	set  *tmplSet
	w    iface
	vars []tmplVar
}

const (
	tmplNext = iota
	tmplBreak
	tmplContinue
)

var tmplBuiltins = []string{"and", "or", "not", "len", "index", "print", "printf", "println", "eq", "ne", "lt", "le", "gt", "ge", "html", "js", "urlquery", "call", "slice"}

func (r *tmplRun) fail(f string, a ...any) {
	panic(tmplFail{r.p.mkError("template: " + fmt.Sprintf(f, a...))})
}

func (r *tmplRun) write(s value) {
	m := r.p.findMethod(r.w.t, "Write")
	if m == nil {
		r.p.unsupported("Write of " + r.w.t.String())
	}
	res := r.p.callValue(r.g, nil, &closure{fn: m}, []value{r.w.v, r.p.mkBytes(r.p.strBytes(s))}).(tuple)
	if e := res[1].(iface); e.t != nil {
		panic(tmplFail{e})
	}
}

// deref follows interfaces and pointers; ok is false for a nil one.
func (r *tmplRun) deref(v iface) (iface, bool) {
	for v.t != nil {
		switch u := v.t.Underlying().(type) {
		case *types.Interface:
			v = v.v.(iface)
			continue
		case *types.Pointer:
			if q, ok := v.v.(*value); !ok || q == nil {
				return v, false
			}
			v = iface{u.Elem(), r.p.load(v.v)}
			continue
		}
		return v, true
	}
	return v, false
}

func (r *tmplRun) wrap(t types.Type, v value) iface {
	if _, ok := t.Underlying().(*types.Interface); ok {
		i, _ := v.(iface)
		return i
	}
	return iface{t, v}
}

func (r *tmplRun) truth(v iface) bool {
	p := r.p
	if v.t == nil {
		return false
	}
	switch u := v.t.Underlying().(type) {
	case *types.Basic:
		switch {
		case isString(u):
			return p.strLen(v.v) > 0
		case isBool(u):
			return p.branch(v.v.(*Term))
		}
		t := v.v.(*Term)
		if _, ok := isFloat(u); ok {
			return !p.branch(p.x.FpCmp(OFpEq, t, p.x.fpc(0, t.w)))
		}
		return !p.branch(p.x.Eq(t, p.x.BV(0, t.w)))
	case *types.Slice:
		return p.cint(v.v.(sliceV).ln) > 0
	case *types.Array:
		return u.Len() > 0
	case *types.Map:
		m := v.v.(*mapV)
		return m != nil && m.n > 0
	case *types.Pointer:
		q, ok := v.v.(*value)
		return !ok || q != nil
	case *types.Signature:
		c, ok := v.v.(*closure)
		return !ok || c != nil
	case *types.Struct:
		return true
	}
	p.unsupported("truth of " + v.t.String())
	return false
}

func (r *tmplRun) text(v iface) value {
	if v.t == nil {
		return "<no value>"
	}
	p := r.p
	if _, isP := v.t.Underlying().(*types.Pointer); isP && p.findMethod(v.t, "Error") == nil && p.findMethod(v.t, "String") == nil {
		d, ok := r.deref(v)
		if !ok {
			return "<nil>"
		}
		v = d
	}
	return p.fmtOne(r.g, "%v", 'v', v, 0)
}

func (r *tmplRun) escape(s value) value {
	p := r.p
	var out []*Term
	for _, c := range p.strBytes(s) {
		done := false
		for _, e := range []struct {
			c byte
			s string
		}{{0, "\uFFFD"}, {'"', "&#34;"}, {'&', "&amp;"}, {'\'', "&#39;"}, {'+', "&#43;"}, {'<', "&lt;"}, {'>', "&gt;"}} {
			if p.branch(p.x.Eq(c, p.x.BV(uint64(e.c), 8))) {
				out = append(out, p.strBytes(e.s)...)
				done = true
				break
			}
		}
		if !done {
			out = append(out, c)
		}
	}
	return mkStr(out)
}

func (r *tmplRun) set_(name string, v iface) {
	for i := len(r.vars) - 1; i >= 0; i-- {
		if r.vars[i].name == name {
			r.vars[i].v = v
			return
		}
	}
	r.fail("undefined variable: %s", name)
}

func (r *tmplRun) variable(name string) iface {
	for i := len(r.vars) - 1; i >= 0; i-- {
		if r.vars[i].name == name {
			return r.vars[i].v
		}
	}
	r.fail("undefined variable: %s", name)
	return iface{}
}

func (r *tmplRun) walk(dot iface, n parse.Node) int {
	p := r.p
	p.steps += 20
	if p.steps > p.e.opt.MaxSteps {
		p.budget(r.g)
	}
	switch n := n.(type) {
	case *parse.ListNode:
		for _, c := range n.Nodes {
			if k := r.walk(dot, c); k != tmplNext {
				return k
			}
		}
	case *parse.TextNode:
		r.write(string(n.Text))
	case *parse.ActionNode:
		v := r.pipe(dot, n.Pipe)
		if len(n.Pipe.Decl) == 0 {
			s := r.text(v)
			if r.set.html {
				s = r.escape(s)
			}
			r.write(s)
		}
	case *parse.CommentNode:
	case *parse.BreakNode:
		return tmplBreak
	case *parse.ContinueNode:
		return tmplContinue
	case *parse.IfNode:
		mark := len(r.vars)
		k := tmplNext
		if r.truth(r.pipe(dot, n.Pipe)) {
			k = r.walk(dot, n.List)
		} else if n.ElseList != nil {
			k = r.walk(dot, n.ElseList)
		}
		r.vars = r.vars[:mark]
		return k
	case *parse.WithNode:
		mark := len(r.vars)
		v := r.pipe(dot, n.Pipe)
		k := tmplNext
		if r.truth(v) {
			k = r.walk(v, n.List)
		} else if n.ElseList != nil {
			k = r.walk(dot, n.ElseList)
		}
		r.vars = r.vars[:mark]
		return k
	case *parse.RangeNode:
		r.rangeOver(dot, n)
	case *parse.TemplateNode:
		t := r.set.trees[n.Name]
		if t == nil {
			r.fail("template %q not defined", n.Name)
		}
		v := iface{}
		if n.Pipe != nil {
			v = r.pipe(dot, n.Pipe)
		}
		old := r.vars
		r.vars = []tmplVar{{"$", v}}
		r.walk(v, t.Root)
		r.vars = old
	default:
		p.unsupported(fmt.Sprintf("template node %T", n))
	}
	return tmplNext
}

func (r *tmplRun) rangeOver(dot iface, n *parse.RangeNode) {
	p := r.p
	mark := len(r.vars)
	defer func() { r.vars = r.vars[:mark] }()
	over := r.pipe(dot, n.Pipe)
	v, ok := r.deref(over)
	var keys, elems []iface
	inT := types.Typ[types.Int]
	if ok {
		switch u := v.t.Underlying().(type) {
		case *types.Slice:
			s := v.v.(sliceV)
			for i, c := 0, p.cint(s.ln); i < c; i++ {
				keys = append(keys, iface{inT, p.x.BV(uint64(i), 64)})
				elems = append(elems, r.wrap(u.Elem(), s.a[i]))
			}
		case *types.Array:
			for i, e := range v.v.(array) {
				keys = append(keys, iface{inT, p.x.BV(uint64(i), 64)})
				elems = append(elems, r.wrap(u.Elem(), e))
			}
		case *types.Map:
			m := v.v.(*mapV)
			if m != nil {
				ents := append([]*mapEntry{}, m.ents...)
				less := func(a, b *mapEntry) bool { // sorted by key
					switch {
					case isString(u.Key()):
						return p.branch(p.strLt(a.k, b.k))
					default:
						if _, signed, isI := intInfo(u.Key()); isI {
							if signed {
								return p.branch(p.x.Slt(a.k.(*Term), b.k.(*Term)))
							}
							return p.branch(p.x.Ult(a.k.(*Term), b.k.(*Term)))
						}
					}
					p.unsupported("order of map keys in a template")
					return false
				}
				sort.SliceStable(ents, func(i, j int) bool { return less(ents[i], ents[j]) })
				for _, e := range ents {
					keys = append(keys, r.wrap(u.Key(), e.k))
					elems = append(elems, r.wrap(u.Elem(), e.v))
				}
			}
		case *types.Basic:
			if _, _, isI := intInfo(u); !isI {
				r.fail("range can't iterate over %s", v.t)
			}
			for i, c := 0, p.cint(v.v.(*Term)); i < c; i++ {
				keys = append(keys, iface{inT, p.x.BV(uint64(i), 64)})
				elems = append(elems, keys[i])
			}
		default:
			p.unsupported("template range over " + v.t.String())
		}
	} else if over.t == nil {
		r.fail("range can't iterate over <nil>")
	}
	if len(elems) == 0 {
		if n.ElseList != nil {
			r.walk(dot, n.ElseList)
		}
		return
	}
	for i := range elems {
		m := len(r.vars)
		d := n.Pipe.Decl
		assign := func(k int, v iface) {
			if n.Pipe.IsAssign {
				r.set_(d[k].Ident[0], v)
			} else {
				r.vars[m0(r.vars, d[k].Ident[0])].v = v
			}
		}
		switch len(d) {
		case 1:
			assign(0, elems[i])
		case 2:
			assign(0, keys[i])
			assign(1, elems[i])
		}
		k := r.walk(elems[i], n.List)
		r.vars = r.vars[:m]
		if k == tmplBreak {
			return
		}
	}
}

func m0(vars []tmplVar, name string) int {
	for i := len(vars) - 1; i >= 0; i-- {
		if vars[i].name == name {
			return i
		}
	}
	return -1
}

func (r *tmplRun) pipe(dot iface, pn *parse.PipeNode) iface {
	if pn == nil {
		return iface{}
	}
	var v iface
	has := false
	for _, c := range pn.Cmds {
		v = r.command(dot, c, v, has)
		has = true
		for v.t != nil {
			if _, ok := v.t.Underlying().(*types.Interface); !ok {
				break
			}
			v, _ = v.v.(iface)
		}
	}
	for _, d := range pn.Decl {
		if pn.IsAssign {
			r.set_(d.Ident[0], v)
		} else {
			r.vars = append(r.vars, tmplVar{d.Ident[0], v})
		}
	}
	return v
}

func (r *tmplRun) command(dot iface, c *parse.CommandNode, final iface, has bool) iface {
	noArgs := func() {
		if len(c.Args) > 1 || has {
			r.fail("can't give argument to non-function %s", c.Args[0])
		}
	}
	switch n := c.Args[0].(type) {
	case *parse.FieldNode:
		return r.fields(dot, dot, n.Ident, c.Args, final, has)
	case *parse.ChainNode:
		return r.fields(dot, r.arg(dot, n.Node), n.Field, c.Args, final, has)
	case *parse.IdentifierNode:
		return r.function(dot, n.Ident, c.Args, final, has)
	case *parse.VariableNode:
		v := r.variable(n.Ident[0])
		if len(n.Ident) == 1 {
			noArgs()
			return v
		}
		return r.fields(dot, v, n.Ident[1:], c.Args, final, has)
	default:
		noArgs()
		return r.arg(dot, n)
	}
}

func (r *tmplRun) arg(dot iface, n parse.Node) iface {
	p := r.p
	switch n := n.(type) {
	case *parse.DotNode:
		return dot
	case *parse.NilNode:
		return iface{}
	case *parse.BoolNode:
		return iface{types.Typ[types.Bool], p.x.Bool(n.True)}
	case *parse.StringNode:
		return iface{types.Typ[types.String], n.Text}
	case *parse.NumberNode:
		switch {
		case n.IsInt:
			return iface{types.Typ[types.Int], p.x.BV(uint64(n.Int64), 64)}
		case n.IsFloat:
			return iface{types.Typ[types.Float64], p.constVal(ssa.NewConst(constant.MakeFloat64(n.Float64), types.Typ[types.Float64]))}
		}
		p.unsupported("template number")
	case *parse.PipeNode:
		return r.pipe(dot, n)
	case *parse.FieldNode:
		return r.fields(dot, dot, n.Ident, nil, iface{}, false)
	case *parse.VariableNode:
		v := r.variable(n.Ident[0])
		if len(n.Ident) == 1 {
			return v
		}
		return r.fields(dot, v, n.Ident[1:], nil, iface{}, false)
	case *parse.ChainNode:
		return r.fields(dot, r.arg(dot, n.Node), n.Field, nil, iface{}, false)
	case *parse.IdentifierNode:
		return r.function(dot, n.Ident, nil, iface{}, false)
	}
	p.unsupported(fmt.Sprintf("template argument %T", n))
	return iface{}
}

func (r *tmplRun) fields(dot, v iface, names []string, args []parse.Node, final iface, has bool) iface {
	for i, name := range names {
		last := i == len(names)-1
		var a []parse.Node
		var f iface
		h := false
		if last {
			a, f, h = args, final, has
		}
		v = r.field(dot, v, name, a, f, h)
	}
	return v
}

func (r *tmplRun) field(dot, v iface, name string, args []parse.Node, final iface, has bool) iface {
	p := r.p
	if v.t == nil {
		r.fail("nil data; no entry for key %q", name)
	}
	for {
		if _, ok := v.t.Underlying().(*types.Interface); !ok {
			break
		}
		v, _ = v.v.(iface)
		if v.t == nil {
			r.fail("nil pointer evaluating interface {}.%s", name)
		}
	}
	if m := p.findMethod(v.t, name); m != nil {
		return r.call(dot, name, &closure{fn: m}, m.Signature, []value{v.v}, args, final, has)
	}
	if _, isP := v.t.Underlying().(*types.Pointer); !isP {
		if m := p.findMethod(types.NewPointer(v.t), name); m != nil {
			c := copyVal(v.v)
			return r.call(dot, name, &closure{fn: m}, m.Signature, []value{&c}, args, final, has)
		}
	}
	d, ok := r.deref(v)
	if !ok {
		r.fail("nil pointer evaluating %s.%s", v.t, name)
	}
	hasArgs := len(args) > 1 || has
	switch u := d.t.Underlying().(type) {
	case *types.Struct:
		o, path, _ := types.LookupFieldOrMethod(d.t, false, nil, name)
		f, isVar := o.(*types.Var)
		if !isVar || !f.Exported() {
			r.fail("can't evaluate field %s in type %s", name, d.t)
		}
		if hasArgs {
			r.fail("%s has arguments but cannot be invoked as function", name)
		}
		cur := d
		for _, i := range path {
			var ok bool
			if cur, ok = r.deref(cur); !ok {
				r.fail("nil pointer evaluating %s", name)
			}
			st := cur.t.Underlying().(*types.Struct)
			cur = r.wrap(st.Field(i).Type(), cur.v.(structure)[i])
		}
		return cur
	case *types.Map:
		if hasArgs {
			r.fail("%s is not a method but has arguments", name)
		}
		if !isString(u.Key()) {
			r.fail("can't evaluate field %s in type %s", name, d.t)
		}
		e := p.mapFind(u.Key(), d.v.(*mapV), name)
		if e == nil {
			return iface{}
		}
		return r.wrap(u.Elem(), e.v)
	}
	r.fail("can't evaluate field %s in type %s", name, d.t)
	return iface{}
}

// assign converts an argument to a parameter type.
func (r *tmplRun) assign(n parse.Node, v iface, t types.Type) value {
	p := r.p
	if _, ok := t.Underlying().(*types.Interface); ok {
		if v.t != nil && !types.AssignableTo(v.t, t) {
			r.fail("wrong type for value; expected %s; got %s", t, v.t)
		}
		return v
	}
	if v.t == nil {
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Slice, *types.Signature, *types.Chan:
			return p.zero(t)
		}
		r.fail("invalid value; expected %s", t)
	}
	if num, ok := n.(*parse.NumberNode); ok {
		if w, _, isI := intInfo(t); isI && num.IsInt {
			return p.x.BV(uint64(num.Int64), w)
		}
		if _, isF := isFloat(t); isF && num.IsFloat {
			return p.constVal(ssa.NewConst(constant.MakeFloat64(num.Float64), t))
		}
	}
	if _, ok := n.(*parse.StringNode); ok && isString(t) {
		return v.v
	}
	if types.AssignableTo(v.t, t) {
		return copyVal(v.v)
	}
	if pt, ok := v.t.Underlying().(*types.Pointer); ok && types.AssignableTo(pt.Elem(), t) {
		if d, ok := r.deref(v); ok {
			return copyVal(d.v)
		}
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok && types.AssignableTo(v.t, pt.Elem()) {
		p.unsupported("address of a template value")
	}
	r.fail("wrong type for value; expected %s; got %s", t, v.t)
	return nil
}

func (r *tmplRun) call(dot iface, name string, fn value, sig *types.Signature, recv []value, args []parse.Node, final iface, has bool) iface {
	p := r.p
	var nodes []parse.Node
	if len(args) > 1 {
		nodes = append(nodes, args[1:]...)
	}
	total := len(nodes)
	if has {
		total++
		nodes = append(nodes, nil)
	}
	np := sig.Params().Len()
	if sig.Variadic() && total < np-1 || !sig.Variadic() && total != np {
		r.fail("wrong number of args for %s: want %d got %d", name, np, total)
	}
	if k := sig.Results().Len(); k != 1 && k != 2 {
		r.fail("can't call method/function %q with %d results", name, k)
	}
	vals := append([]value{}, recv...)
	var rest []value
	for i, n := range nodes {
		v := final
		if n != nil {
			v = r.arg(dot, n)
		}
		if sig.Variadic() && i >= np-1 {
			rest = append(rest, r.assign(n, v, sig.Params().At(np-1).Type().(*types.Slice).Elem()))
			continue
		}
		vals = append(vals, r.assign(n, v, sig.Params().At(i).Type()))
	}
	if sig.Variadic() {
		if len(rest) == 0 {
			vals = append(vals, p.zero(sig.Params().At(np-1).Type()))
		} else {
			vals = append(vals, p.mkSlice(rest))
		}
	}
	res := p.callValue(r.g, nil, fn, vals)
	if tu, ok := res.(tuple); ok {
		if sig.Results().Len() == 2 {
			if e := tu[1].(iface); e.t != nil {
				panic(tmplFail{e})
			}
		}
		res = tu[0]
	}
	return r.wrap(sig.Results().At(0).Type(), res)
}

func (r *tmplRun) function(dot iface, name string, args []parse.Node, final iface, has bool) iface {
	p := r.p
	if f, ok := r.set.funcs[name]; ok {
		sig, ok := f.t.Underlying().(*types.Signature)
		if !ok {
			p.unsupported("template function " + name)
		}
		return r.call(dot, name, f.v, sig, nil, args, final, has)
	}
	n := 0
	if len(args) > 1 {
		n = len(args) - 1
	}
	total := n
	if has {
		total++
	}
	get := func(i int) iface {
		v := final
		if i < n {
			v = r.arg(dot, args[i+1])
		}
		for v.t != nil {
			if _, ok := v.t.Underlying().(*types.Interface); !ok {
				break
			}
			v, _ = v.v.(iface)
		}
		return v
	}
	if (name == "and" || name == "or") && total > 0 {
		var v iface
		for i := 0; i < total; i++ {
			v = get(i)
			if r.truth(v) == (name == "or") {
				return v
			}
		}
		return v
	}
	var a []iface
	for i := 0; i < total; i++ {
		a = append(a, get(i))
	}
	str := types.Typ[types.String]
	boolean := func(t *Term) iface { return iface{types.Typ[types.Bool], t} }
	need := func(k int) {
		if len(a) != k {
			r.fail("wrong number of args for %s: want %d got %d", name, k, len(a))
		}
	}
	kind := func(v iface) int {
		if v.t == nil {
			r.fail("error calling %s: incompatible types for comparison", name)
		}
		switch {
		case isString(v.t):
			return 1
		case isBool(v.t):
			return 2
		}
		if _, _, ok := intInfo(v.t); ok {
			return 3
		}
		if _, ok := isFloat(v.t); ok {
			return 4
		}
		p.unsupported("template comparison of " + v.t.String())
		return 0
	}
	cmp := func(x, y iface, less bool) *Term {
		k := kind(x)
		if k != kind(y) || less && k == 2 {
			r.fail("error calling %s: incompatible types for comparison", name)
		}
		switch k {
		case 1:
			if less {
				return p.strLt(x.v, y.v)
			}
			return p.strEq(x.v, y.v)
		case 2:
			return p.x.Eq(x.v.(*Term), y.v.(*Term))
		case 4:
			if less {
				return p.x.FpCmp(OFpLt, x.v.(*Term), y.v.(*Term))
			}
			return p.x.FpCmp(OFpEq, x.v.(*Term), y.v.(*Term))
		}
		wide := func(v iface) *Term {
			w, signed, _ := intInfo(v.t)
			if w == 64 && !signed {
				p.unsupported("template comparison of unsigned 64-bit integers")
			}
			if signed {
				return p.x.Sext(v.v.(*Term), 64)
			}
			return p.x.Zext(v.v.(*Term), 64)
		}
		if less {
			return p.x.Slt(wide(x), wide(y))
		}
		return p.x.Eq(wide(x), wide(y))
	}
	switch name {
	case "not":
		need(1)
		return boolean(p.x.Bool(!r.truth(a[0])))
	case "len":
		need(1)
		v, ok := r.deref(a[0])
		if !ok {
			r.fail("error calling len: len of nil pointer")
		}
		return iface{types.Typ[types.Int], p.lenOf(v.v)}
	case "print":
		return iface{str, p.sprint(r.g, a, false)}
	case "println":
		return iface{str, p.sprint(r.g, a, true)}
	case "printf":
		if len(a) == 0 || a[0].t == nil || !isString(a[0].t) {
			r.fail("wrong arguments of printf")
		}
		return iface{str, p.sprintf(r.g, a[0].v, a[1:])}
	case "eq":
		if len(a) < 2 {
			r.fail("error calling eq: missing argument for comparison")
		}
		for _, y := range a[1:] {
			if p.branch(cmp(a[0], y, false)) {
				return boolean(constTrue)
			}
		}
		return boolean(constFalse)
	case "ne":
		need(2)
		return boolean(p.x.Not(cmp(a[0], a[1], false)))
	case "lt":
		need(2)
		return boolean(cmp(a[0], a[1], true))
	case "ge":
		need(2)
		return boolean(p.x.Not(cmp(a[0], a[1], true)))
	case "gt":
		need(2)
		return boolean(cmp(a[1], a[0], true))
	case "le":
		need(2)
		return boolean(p.x.Not(cmp(a[1], a[0], true)))
	case "index":
		if len(a) == 0 {
			r.fail("wrong number of args for index")
		}
		v := a[0]
		for _, k := range a[1:] {
			d, ok := r.deref(v)
			if !ok {
				r.fail("error calling index: index of nil pointer")
			}
			switch u := d.t.Underlying().(type) {
			case *types.Slice:
				s := d.v.(sliceV)
				i := p.cint(k.v.(*Term))
				if i < 0 || i >= p.cint(s.ln) {
					r.fail("error calling index: index out of range: %d", i)
				}
				v = r.wrap(u.Elem(), s.a[i])
			case *types.Map:
				e := p.mapFind(u.Key(), d.v.(*mapV), r.assign(nil, k, u.Key()))
				if e == nil {
					v = r.wrap(u.Elem(), p.zero(u.Elem()))
				} else {
					v = r.wrap(u.Elem(), e.v)
				}
			default:
				p.unsupported("template index of " + d.t.String())
			}
		}
		return v
	}
	p.unsupported("template function " + name)
	return iface{}
}

func (p *path) tmplExec(g *G, t *tmplObj, name string, w, data iface) (err iface) {
	tree := t.set.trees[name]
	if tree == nil || tree.Root == nil {
		return p.mkError(fmt.Sprintf("template: %q is an incomplete or empty template", name))
	}
	if t.set.html {
		for _, tr := range t.set.trees {
			if strings.ContainsAny(tmplText(tr.Root), "<") {
				p.unsupported("html/template with markup")
			}
		}
	}
	defer func() {
		if x := recover(); x != nil {
			f, ok := x.(tmplFail)
			if !ok {
				panic(x)
			}
			err = f.err
		}
	}()
	r := &tmplRun{p: p, g: g, set: t.set, w: w, vars: []tmplVar{{"$", data}}}
	r.walk(data, tree.Root)
	return iface{}
}

// tmplText gives the literal text of a template.
func tmplText(n parse.Node) string {
	switch n := n.(type) {
	case *parse.ListNode:
		s := ""
		if n != nil {
			for _, c := range n.Nodes {
				s += tmplText(c)
			}
		}
		return s
	case *parse.TextNode:
		return string(n.Text)
	case *parse.IfNode:
		return tmplText(n.List) + tmplText(n.ElseList)
	case *parse.WithNode:
		return tmplText(n.List) + tmplText(n.ElseList)
	case *parse.RangeNode:
		return tmplText(n.List) + tmplText(n.ElseList)
	}
	return ""
}

func init() {
	for _, pkg := range []string{"text/template", "html/template"} {
		pkg := pkg
		html := pkg == "html/template"
		R := func(name string, f func(p *path, g *G, a []value) value) {
			reg(name, func(p *path, g *G, fr *frame, fn *ssa.Function, args []value) value { return f(p, g, args) })
		}
		mk := func(p *path, name string, set *tmplSet) value {
			cell := new(value)
			*cell = p.zero(p.pkgType(pkg, "Template"))
			p.side[cell] = &tmplObj{name: name, set: set, cell: cell}
			return cell
		}
		obj := func(p *path, v value) *tmplObj {
			q, ok := v.(*value)
			if !ok || q == nil {
				p.rtPanic("invalid memory address or nil pointer dereference")
			}
			o, _ := p.side[q].(*tmplObj)
			if o == nil {
				o = &tmplObj{set: &tmplSet{trees: map[string]*parse.Tree{}, funcs: map[string]iface{}, html: html}, cell: q}
				p.side[q] = o
			}
			return o
		}
		M := func(name string, f func(p *path, g *G, o *tmplObj, a []value) value) {
			R("(*"+pkg+".Template)."+name, func(p *path, g *G, a []value) value { return f(p, g, obj(p, a[0]), a) })
		}
		R(pkg+".New", func(p *path, g *G, a []value) value {
			return mk(p, p.concStr(a[0]), &tmplSet{trees: map[string]*parse.Tree{}, funcs: map[string]iface{}, html: html})
		})
		R(pkg+".Must", func(p *path, g *G, a []value) value {
			if e := a[1].(iface); e.t != nil {
				p.raise(e, "panic: template.Must")
			}
			return a[0]
		})
		M("New", func(p *path, g *G, o *tmplObj, a []value) value { return mk(p, p.concStr(a[1]), o.set) })
		M("Name", func(p *path, g *G, o *tmplObj, a []value) value { return o.name })
		M("Lookup", func(p *path, g *G, o *tmplObj, a []value) value {
			n := p.concStr(a[1])
			if o.set.trees[n] == nil {
				return (*value)(nil)
			}
			return mk(p, n, o.set)
		})
		M("Funcs", func(p *path, g *G, o *tmplObj, a []value) value {
			if m := a[1].(*mapV); m != nil {
				for _, e := range m.ents {
					f := e.v.(iface)
					sig, ok := (*types.Signature)(nil), false
					if f.t != nil {
						sig, ok = f.t.Underlying().(*types.Signature)
					}
					if !ok || sig.Results().Len() == 0 || sig.Results().Len() > 2 {
						p.raise(iface{t: rtErrorType, v: "template function"}, "panic: value for a template function is not a function of the right form")
					}
					o.set.funcs[p.concStr(e.k)] = f
				}
			}
			return a[0]
		})
		M("Parse", func(p *path, g *G, o *tmplObj, a []value) value {
			known := map[string]any{}
			for _, b := range tmplBuiltins {
				known[b] = 0
			}
			for n := range o.set.funcs {
				known[n] = 0
			}
			trees, err := parse.Parse(o.name, p.concStr(a[1]), "", "", known)
			if err != nil {
				return tuple{(*value)(nil), p.mkError(err.Error())}
			}
			for n, t := range trees {
				if old := o.set.trees[n]; old != nil && parse.IsEmptyTree(t.Root) {
					continue
				}
				o.set.trees[n] = t
			}
			return tuple{a[0], iface{}}
		})
		M("Execute", func(p *path, g *G, o *tmplObj, a []value) value {
			return p.tmplExec(g, o, o.name, a[1].(iface), a[2].(iface))
		})
		M("ExecuteTemplate", func(p *path, g *G, o *tmplObj, a []value) value {
			n := p.concStr(a[2])
			if o.set.trees[n] == nil {
				return p.mkError(fmt.Sprintf("template: no template %q associated with template %q", n, o.name))
			}
			return p.tmplExec(g, o, n, a[1].(iface), a[3].(iface))
		})
		for _, n := range []string{"Option", "Delims", "Clone", "ParseFiles", "ParseGlob", "ParseFS", "AddParseTree", "Templates", "DefinedTemplates"} {
			n := n
			M(n, func(p *path, g *G, o *tmplObj, a []value) value {
				p.unsupported("template " + n)
				return nil
			})
		}
	}
}
