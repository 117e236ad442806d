package main

// A model of encoding/json over typed trees. Marshalled documents are byte strings that name a tree
// of the path ("{JSON#000017}"), so that values inside can be symbolic; concrete text is parsed.

import (
	"fmt"
	"go/types"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

type jkind int

const (
	jNull jkind = iota
	jBool
	jNum // integer or float term, or text
	jStr
	jBytes
	jTime
	jArr
	jObj
	jAny   // undetermined document, decided on demand
	jWrong // a member of a type that fits nothing
)

type jnode struct {
	k      jkind
	t      *Term  // bool, number
	signed bool   // integers
	txt    string // number as text
	s      value  // string
	b      []*Term
	tm     value
	arr    []*jnode
	keys   []value // string values, or integer terms (with signed)
	absent bool
	kids   map[string]*jnode // jAny object members decided so far
	doc    *jdoc
}

type jdoc struct {
	name string
	root *jnode
	dev  int // deviations left
	keys []string
	n    int
}

const jPre, jLen = "{JSON#", 13 // without padding

// jsize is a measure of the length of the text of a document.
func (p *path) jsize(n *jnode, depth int) int {
	if depth > 50 || n.absent {
		return 0
	}
	str := func(v value) int {
		switch v := v.(type) {
		case string:
			return len(v)
		case *symStr:
			return len(v.b)
		}
		return 1
	}
	k := 1 + len(n.b) + str(n.s)
	for i, a := range n.arr {
		if i < len(n.keys) {
			k += str(n.keys[i])
		}
		k += p.jsize(a, depth+1)
	}
	return k
}

func (p *path) jput(n *jnode) string {
	f := p.fsm()
	for i, o := range f.jnodes {
		if p.jsame(o, n, 0) {
			return jText(i, f.jsizes[i])
		}
	}
	f.jnodes = append(f.jnodes, n)
	f.jsizes = append(f.jsizes, min(p.jsize(n, 0), 400))
	return jText(len(f.jnodes)-1, f.jsizes[len(f.jnodes)-1])
}

// jText stands for document i; it is padded, so that longer documents have longer texts.
func jText(i, size int) string {
	return fmt.Sprintf("%s%06d%s}", jPre, i, strings.Repeat(" ", size))
}

// jsame tells that two documents certainly have the same text.
func (p *path) jsame(a, b *jnode, depth int) bool {
	if a == b {
		return true
	}
	if a.k != b.k || a.k == jAny || a.k == jWrong || a.k == jTime || depth > 100 || a.absent || b.absent {
		return false
	}
	if a.t != b.t || a.signed != b.signed || a.txt != b.txt || len(a.b) != len(b.b) || len(a.arr) != len(b.arr) || len(a.keys) != len(b.keys) {
		return false
	}
	for i := range a.b {
		if a.b[i] != b.b[i] {
			return false
		}
	}
	same := func(x, y value) bool {
		if x == nil || y == nil {
			return x == nil && y == nil
		}
		if tx, ok := x.(*Term); ok {
			return x == y && tx != nil
		}
		if _, ok := y.(*Term); ok {
			return false
		}
		bx, by := p.strBytes(x), p.strBytes(y)
		if len(bx) != len(by) {
			return false
		}
		for i := range bx {
			if bx[i] != by[i] {
				return false
			}
		}
		return true
	}
	if !same(a.s, b.s) {
		return false
	}
	for i := range a.keys {
		if !same(a.keys[i], b.keys[i]) {
			return false
		}
	}
	for i := range a.arr {
		if !p.jsame(a.arr[i], b.arr[i], depth+1) {
			return false
		}
	}
	return true
}

type jsyntax struct{ eof bool }

// jparse reads one value; it returns the rest of the text.
func (p *path) jparse(s string) (n *jnode, rest string, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(jsyntax); ok {
				if e.eof {
					err = fmt.Errorf("unexpected EOF")
				} else {
					err = fmt.Errorf("invalid character")
				}
				return
			}
			panic(r)
		}
	}()
	n, rest = p.jval(s, 0)
	return n, rest, nil
}

func jws(s string) string { return strings.TrimLeft(s, " \t\r\n") }

func (p *path) jval(s string, depth int) (*jnode, string) {
	s = jws(s)
	if s == "" {
		panic(jsyntax{true})
	}
	if depth > 1000 {
		panic(jsyntax{})
	}
	if strings.HasPrefix(s, jPre) {
		if len(s) < jLen {
			panic(jsyntax{true})
		}
		i, err := strconv.Atoi(s[len(jPre) : jLen-1])
		f := p.fsm()
		if err != nil || i >= len(f.jnodes) {
			panic(jsyntax{})
		}
		rest := strings.TrimLeft(s[jLen-1:], " ")
		if rest == "" {
			panic(jsyntax{true})
		}
		if rest[0] != '}' || len(s)-len(rest) != jLen-1+f.jsizes[i] {
			panic(jsyntax{})
		}
		return f.jnodes[i], rest[1:]
	}
	if len(s) < len(jPre) && strings.HasPrefix(jPre, s) && s != "" {
		panic(jsyntax{true})
	}
	lit := func(w string, n *jnode) (*jnode, string) {
		if strings.HasPrefix(s, w) {
			return n, s[len(w):]
		}
		if strings.HasPrefix(w, s) {
			panic(jsyntax{true})
		}
		panic(jsyntax{})
	}
	switch c := s[0]; {
	case c == '{':
		n := &jnode{k: jObj}
		s = jws(s[1:])
		if s == "" {
			panic(jsyntax{true})
		}
		if s[0] == '}' {
			return n, s[1:]
		}
		for {
			s = jws(s)
			if s == "" {
				panic(jsyntax{true})
			}
			if s[0] != '"' {
				panic(jsyntax{})
			}
			var k string
			k, s = jstr(s)
			s = jws(s)
			if s == "" {
				panic(jsyntax{true})
			}
			if s[0] != ':' {
				panic(jsyntax{})
			}
			var v *jnode
			v, s = p.jval(s[1:], depth+1)
			n.keys = append(n.keys, k)
			n.arr = append(n.arr, v)
			s = jws(s)
			if s == "" {
				panic(jsyntax{true})
			}
			if s[0] == '}' {
				return n, s[1:]
			}
			if s[0] != ',' {
				panic(jsyntax{})
			}
			s = s[1:]
		}
	case c == '[':
		n := &jnode{k: jArr}
		s = jws(s[1:])
		if s == "" {
			panic(jsyntax{true})
		}
		if s[0] == ']' {
			return n, s[1:]
		}
		for {
			var v *jnode
			v, s = p.jval(s, depth+1)
			n.arr = append(n.arr, v)
			s = jws(s)
			if s == "" {
				panic(jsyntax{true})
			}
			if s[0] == ']' {
				return n, s[1:]
			}
			if s[0] != ',' {
				panic(jsyntax{})
			}
			s = s[1:]
		}
	case c == '"':
		v, r := jstr(s)
		return &jnode{k: jStr, s: v}, r
	case c == 't':
		return lit("true", &jnode{k: jBool, t: constTrue})
	case c == 'f':
		return lit("false", &jnode{k: jBool, t: constFalse})
	case c == 'n':
		return lit("null", &jnode{k: jNull})
	case c == '-' || c >= '0' && c <= '9':
		i := 0
		digits := func() {
			if i >= len(s) {
				panic(jsyntax{true})
			}
			if s[i] < '0' || s[i] > '9' {
				panic(jsyntax{})
			}
			for i < len(s) && s[i] >= '0' && s[i] <= '9' {
				i++
			}
		}
		if c == '-' {
			i++
		}
		if i < len(s) && s[i] == '0' {
			i++
		} else {
			digits()
		}
		if i < len(s) && s[i] == '.' {
			i++
			digits()
		}
		if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
			i++
			if i < len(s) && (s[i] == '+' || s[i] == '-') {
				i++
			}
			digits()
		}
		return &jnode{k: jNum, txt: s[:i]}, s[i:]
	}
	panic(jsyntax{})
}

func jstr(s string) (string, string) {
	for i := 1; i < len(s); i++ {
		switch {
		case s[i] == '\\':
			i++
		case s[i] < 0x20:
			panic(jsyntax{})
		case s[i] == '"':
			q := s[:i+1]
			var out strings.Builder
			r := []byte(q[1 : len(q)-1])
			for j := 0; j < len(r); j++ {
				if r[j] != '\\' {
					out.WriteByte(r[j])
					continue
				}
				j++
				switch r[j] {
				case 'n':
					out.WriteByte('\n')
				case 't':
					out.WriteByte('\t')
				case 'r':
					out.WriteByte('\r')
				case 'b':
					out.WriteByte('\b')
				case 'f':
					out.WriteByte('\f')
				case '"', '\\', '/':
					out.WriteByte(r[j])
				case 'u':
					if j+4 >= len(r)+0 && j+4 > len(r)-1 {
						panic(jsyntax{})
					}
					v, err := strconv.ParseUint(string(r[j+1:j+5]), 16, 32)
					if err != nil {
						panic(jsyntax{})
					}
					out.WriteRune(rune(v))
					j += 4
				default:
					panic(jsyntax{})
				}
			}
			return out.String(), s[i+1:]
		}
	}
	panic(jsyntax{true})
}

// ---- struct fields

type jfield struct {
	name      string
	path      []int
	typ       types.Type
	omitEmpty bool
	quoted    bool
	tagged    bool
}

func jfields(t *types.Struct) []jfield {
	var out []jfield
	var walk func(t *types.Struct, pre []int, depth int)
	walk = func(t *types.Struct, pre []int, depth int) {
		if depth > 6 {
			return
		}
		for i := 0; i < t.NumFields(); i++ {
			f := t.Field(i)
			tag := reflect.StructTag(t.Tag(i)).Get("json")
			if tag == "-" {
				continue
			}
			ft := f.Type()
			if f.Embedded() {
				e := ft
				if q, ok := e.Underlying().(*types.Pointer); ok {
					e = q.Elem()
				}
				_, isS := e.Underlying().(*types.Struct)
				if !f.Exported() && !isS {
					continue
				}
			} else if !f.Exported() {
				continue
			}
			name, opts, _ := strings.Cut(tag, ",")
			if !jvalidName(name) {
				name = ""
			}
			path := append(append([]int{}, pre...), i)
			if f.Embedded() && name == "" {
				if st, ok := ft.Underlying().(*types.Struct); ok {
					walk(st, path, depth+1)
					continue
				}
			}
			jf := jfield{name: name, path: path, typ: ft, tagged: name != ""}
			if name == "" {
				jf.name = f.Name()
			}
			for _, o := range strings.Split(opts, ",") {
				if o == "omitempty" {
					jf.omitEmpty = true
				}
				if o == "string" {
					jf.quoted = true
				}
			}
			out = append(out, jf)
		}
	}
	walk(t, nil, 0)
	// shallowest wins; a tag wins among equals; otherwise both are dropped
	by := map[string][]int{}
	for i, f := range out {
		by[f.name] = append(by[f.name], i)
	}
	drop := map[int]bool{}
	for _, is := range by {
		if len(is) < 2 {
			continue
		}
		sort.SliceStable(is, func(a, b int) bool {
			x, y := out[is[a]], out[is[b]]
			if len(x.path) != len(y.path) {
				return len(x.path) < len(y.path)
			}
			return x.tagged && !y.tagged
		})
		a, b := out[is[0]], out[is[1]]
		if len(a.path) == len(b.path) && a.tagged == b.tagged {
			for _, i := range is {
				drop[i] = true
			}
			continue
		}
		for _, i := range is[1:] {
			drop[i] = true
		}
	}
	var r []jfield
	for i, f := range out {
		if !drop[i] {
			r = append(r, f)
		}
	}
	return r
}

func jvalidName(s string) bool {
	for _, c := range s {
		if !strings.ContainsRune("!#$%&()*+-./:;<=>?@[]^_{|}~ ", c) && !unicode.IsLetter(c) && !unicode.IsDigit(c) {
			return false
		}
	}
	return s != ""
}

func (p *path) jErr(s string) iface { return p.mkError("json: " + s) }

type jfail struct{ err iface }

func isTime(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

func isMarshalFn(fn *ssa.Function) bool {
	return fn != nil && fn.Signature.Params().Len() == 0 && fn.Signature.Results().Len() == 2
}

// jenc encodes the value in cell, whose address the encoder may take if addr is set.
func (p *path) jenc(g *G, t types.Type, cell *value, addr bool, depth int) *jnode {
	if depth > 100 {
		p.end("bound: JSON depth")
	}
	v := *cell
	switch v.(type) {
	case structure, array:
	default:
		p.memAccess(g, cell, false)
	}
	if q, ok := v.(poison); ok {
		p.unsupported("marshalling of " + q.why)
	}
	if isTime(t) {
		return &jnode{k: jTime, tm: copyVal(v)}
	}
	_, isPtr := t.Underlying().(*types.Pointer)
	var m *ssa.Function
	var recv value
	if m = p.findMethod(t, "MarshalJSON"); isMarshalFn(m) {
		if isPtr {
			if q, _ := v.(*value); q == nil {
				return &jnode{k: jNull}
			}
		}
		recv = copyVal(v)
		if ifc, ok := v.(iface); ok {
			if ifc.t == nil {
				return &jnode{k: jNull}
			}
			return p.jenc(g, ifc.t, &ifc.v, false, depth+1)
		}
	} else if addr && !isPtr {
		if m = p.findMethod(types.NewPointer(t), "MarshalJSON"); isMarshalFn(m) {
			recv = cell
		} else {
			m = nil
		}
	} else {
		m = nil
	}
	if m != nil {
		r := p.callValue(g, nil, &closure{fn: m}, []value{recv}).(tuple)
		if e := r[1].(iface); e.t != nil {
			panic(jfail{e})
		}
		n, rest, err := p.jparse(p.concText(r[0].(sliceV)))
		if err != nil || jws(rest) != "" {
			panic(jfail{p.jErr("error calling MarshalJSON")})
		}
		return n
	}
	if m = p.findMethod(t, "MarshalText"); isMarshalFn(m) {
		if isPtr {
			if q, _ := v.(*value); q == nil {
				return &jnode{k: jNull}
			}
		}
		r := p.callValue(g, nil, &closure{fn: m}, []value{copyVal(v)}).(tuple)
		if e := r[1].(iface); e.t != nil {
			panic(jfail{e})
		}
		return &jnode{k: jStr, s: mkStr(p.sliceTerms(r[0].(sliceV)))}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return &jnode{k: jStr, s: v}
		}
		if isBool(u) {
			return &jnode{k: jBool, t: v.(*Term)}
		}
		if _, s, ok := intInfo(u); ok {
			return &jnode{k: jNum, t: v.(*Term), signed: s}
		}
		if _, ok := isFloat(u); ok {
			x := v.(*Term)
			inf := p.x.Or(p.x.FpCmp(OFpEq, x, p.x.fpc(math.Inf(1), x.w)), p.x.FpCmp(OFpEq, x, p.x.fpc(math.Inf(-1), x.w)))
			if p.branch(p.x.Or(p.x.FpIsNaN(x), inf)) {
				panic(jfail{p.jErr("unsupported value: NaN or Inf")})
			}
			return &jnode{k: jNum, t: x}
		}
	case *types.Pointer:
		q, ok := v.(*value)
		if !ok {
			p.badValue(v)
		}
		if q == nil {
			return &jnode{k: jNull}
		}
		return p.jenc(g, u.Elem(), q, true, depth+1)
	case *types.Interface:
		i := v.(iface)
		if i.t == nil {
			return &jnode{k: jNull}
		}
		return p.jenc(g, i.t, &i.v, false, depth+1)
	case *types.Struct:
		n := &jnode{k: jObj}
		st := v.(structure)
		for _, f := range jfields(u) {
			c := cell
			for k, ix := range f.path {
				_ = k
				c = &(*c).(structure)[ix]
			}
			if f.omitEmpty && p.jempty(f.typ, *c) {
				continue
			}
			if f.quoted {
				p.unsupported("json string option")
			}
			n.keys = append(n.keys, f.name)
			n.arr = append(n.arr, p.jenc(g, f.typ, c, addr, depth+1))
		}
		_ = st
		return n
	case *types.Map:
		m := v.(*mapV)
		if m == nil {
			return &jnode{k: jNull}
		}
		p.sched.mapAccess(g, m, false)
		n := &jnode{k: jObj}
		_, signed, isInt := intInfo(u.Key())
		if !isInt && !isString(u.Key()) {
			if p.findMethod(u.Key(), "MarshalText") == nil {
				panic(jfail{p.jErr("unsupported type: " + t.String())})
			}
			p.unsupported("map key with MarshalText")
		}
		ents := append([]*mapEntry{}, m.ents...)
		sort.SliceStable(ents, func(i, j int) bool {
			a, ok1 := ents[i].k.(string)
			b, ok2 := ents[j].k.(string)
			return ok1 && ok2 && a < b
		})
		for _, e := range ents {
			k := e.k
			if isInt {
				k = p.itoa(k.(*Term), k.(*Term).w, signed)
			}
			n.keys = append(n.keys, k)
			ev := e.v
			n.arr = append(n.arr, p.jenc(g, u.Elem(), &ev, false, depth+1))
		}
		return n
	case *types.Slice:
		s := v.(sliceV)
		if !s.nonnil {
			return &jnode{k: jNull}
		}
		if isByteSlice(t) {
			return &jnode{k: jBytes, b: p.sliceTerms(s)}
		}
		n := &jnode{k: jArr}
		for i := 0; i < p.cint(s.ln); i++ {
			n.arr = append(n.arr, p.jenc(g, u.Elem(), &s.a[i], true, depth+1))
		}
		return n
	case *types.Array:
		n := &jnode{k: jArr}
		a := v.(array)
		for i := range a {
			n.arr = append(n.arr, p.jenc(g, u.Elem(), &a[i], addr, depth+1))
		}
		return n
	}
	panic(jfail{p.jErr("unsupported type: " + t.String())})
}

func (p *path) jempty(t types.Type, v value) bool {
	switch x := v.(type) {
	case string:
		return x == ""
	case *symStr:
		return len(x.b) == 0
	case *Term:
		if x.sort == SFP {
			return p.branch(p.x.FpCmp(OFpEq, x, p.x.fpc(0, x.w)))
		}
		if x.sort == SBool {
			return !p.branch(x)
		}
		return p.branch(p.x.Eq(x, p.x.BV(0, x.w)))
	case sliceV:
		return p.branch(p.x.Eq(x.ln, p.x.BV(0, 64)))
	case *mapV:
		return x == nil || x.n == 0
	case *value:
		return x == nil
	case iface:
		return x.t == nil
	case array:
		return len(x) == 0
	}
	return false
}

func (p *path) concText(s sliceV) string {
	var sb strings.Builder
	for _, b := range p.sliceTerms(s) {
		if !b.isC() {
			p.unsupported("JSON text with symbolic bytes")
		}
		sb.WriteByte(byte(b.c))
	}
	return sb.String()
}

// plainText is the text of a JSON string with symbolic bytes that need no decoding.
func (p *path) plainText(s sliceV) (value, bool) {
	b := p.sliceTerms(s)
	if len(b) < 2 {
		return nil, false
	}
	sym := false
	for i, t := range b {
		if !t.isC() {
			sym = true
		}
		if i == 0 || i == len(b)-1 {
			if !t.isC() || t.c != '"' {
				return nil, false
			}
		}
	}
	if !sym {
		return nil, false
	}
	b = b[1 : len(b)-1]
	for _, t := range b {
		c := func(v byte) *Term { return p.x.BV(uint64(v), 8) }
		plain := p.x.And(p.x.Not(p.x.Ult(t, c(' '))), p.x.Ult(t, c(0x80)))
		plain = p.x.And(plain, p.x.And(p.x.Not(p.x.Eq(t, c('"'))), p.x.Not(p.x.Eq(t, c('\\')))))
		if !p.branch(plain) {
			p.unsupported("JSON text with symbolic bytes that need decoding")
		}
	}
	return mkStr(b), true
}

func isStringPtr(t types.Type) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	return ok && isString(pt.Elem())
}

func (p *path) jmarshal(g *G, a iface) (res sliceV, err iface) {
	defer func() {
		if r := recover(); r != nil {
			if f, ok := r.(jfail); ok {
				res = sliceV{ln: p.x.BV(0, 64), cp: p.x.BV(0, 64)}
				err = f.err
				return
			}
			panic(r)
		}
	}()
	depth := len(g.frames)
	defer func() { g.frames = g.frames[:depth] }()
	var n *jnode
	if a.t == nil {
		n = &jnode{k: jNull}
	} else {
		v := a.v
		n = p.jenc(g, a.t, &v, false, 0)
	}
	return p.mkBytes(p.strBytes(p.jput(n))), iface{}
}

// ---- decoding

type jdec struct {
	err iface // first type error
}

func (d *jdec) bad(p *path, what string, t types.Type) {
	if d.err.t == nil {
		d.err = p.jErr("cannot unmarshal " + what + " into Go value of type " + t.String())
	}
}

// decide turns an undetermined node into one fitting t.
func (p *path) jdecide(n *jnode, t types.Type) {
	if n.k != jAny {
		return
	}
	doc := n.doc
	pick := func(label string, alts ...string) string {
		if doc.dev <= 0 {
			return alts[0]
		}
		i := p.choose(len(alts), "json."+label)
		if i > 0 {
			doc.dev--
		}
		return alts[i]
	}
	nv := func(w uint8) *Term {
		doc.n++
		return p.symVar(fmt.Sprintf("json:%s:%d", doc.name, doc.n), w)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch pick("scalar", "ok", "null", "wrong") {
		case "null":
			n.k = jNull
			return
		case "wrong":
			n.k = jWrong
			return
		}
		if isBool(u) {
			n.k, n.t = jBool, nv(1)
			return
		}
		if w, s, ok := intInfo(u); ok {
			n.k, n.t, n.signed = jNum, nv(w), s
			return
		}
		if w, ok := isFloat(u); ok {
			x := p.x.FpFromBits(nv(w))
			n.k, n.t = jNum, x
			p.assume(p.x.Not(p.x.FpIsNaN(x)))
			p.assume(p.x.FpCmp(OFpLt, x, p.x.fpc(math.Inf(1), w)))
			p.assume(p.x.FpCmp(OFpLt, p.x.fpc(math.Inf(-1), w), x))
			return
		}
		if isString(u) {
			n.k = jStr
			b := nv(8)
			p.assume(p.x.And(p.x.Ule(p.x.BV('a', 8), b), p.x.Ule(b, p.x.BV('z', 8))))
			n.s = mkStr([]*Term{b})
			return
		}
	case *types.Struct:
		switch pick("object", "ok", "null", "wrong", "empty") {
		case "null":
			n.k = jNull
		case "wrong":
			n.k = jWrong
		case "empty":
			n.k = jObj
		default:
			n.k = jObj
			for _, f := range jfields(u) {
				if pick("member."+f.name, "present", "absent") == "absent" {
					continue
				}
				n.keys = append(n.keys, f.name)
				n.arr = append(n.arr, &jnode{k: jAny, doc: doc})
			}
		}
		return
	case *types.Map:
		sz := pick("map", "1", "null", "wrong", "0", "2")
		switch sz {
		case "null":
			n.k = jNull
		case "wrong":
			n.k = jWrong
		default:
			c, _ := strconv.Atoi(sz)
			n.k = jObj
			for i := 0; i < c; i++ {
				k := fmt.Sprintf("k%d", i)
				if i < len(doc.keys) {
					k = doc.keys[i]
				}
				if _, _, isInt := intInfo(u.Key()); isInt {
					k = strconv.Itoa(i + 2)
				}
				n.keys = append(n.keys, k)
				n.arr = append(n.arr, &jnode{k: jAny, doc: doc})
			}
		}
		return
	case *types.Slice:
		switch sz := pick("array", "1", "null", "wrong", "0", "2"); sz {
		case "null":
			n.k = jNull
		case "wrong":
			n.k = jWrong
		default:
			c, _ := strconv.Atoi(sz)
			n.k = jArr
			for i := 0; i < c; i++ {
				n.arr = append(n.arr, &jnode{k: jAny, doc: doc})
			}
		}
		return
	}
	p.unsupported("undetermined JSON for " + t.String())
}

// jnullish decides only whether an undetermined node is null (for pointers).
func (p *path) jptr(n *jnode) bool {
	if n.k != jAny {
		return n.k == jNull
	}
	if n.absent { // already decided: not null
		return false
	}
	if n.doc.dev > 0 && p.choose(2, "json.null") == 1 {
		n.doc.dev--
		n.k = jNull
		return true
	}
	n.absent = true
	return false
}

func (p *path) jdecode(g *G, d *jdec, t types.Type, cell *value, n *jnode, depth int) {
	if depth > 100 {
		p.end("bound: JSON depth")
	}
	switch (*cell).(type) {
	case structure, array:
	default:
		p.memAccess(g, cell, true)
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if p.jptr(n) {
			*cell = (*value)(nil)
			return
		}
		q := (*cell).(*value)
		if q == nil {
			var c value = p.zero(pt.Elem())
			q = &c
			*cell = q
		}
		p.jdecode(g, d, pt.Elem(), q, n, depth+1)
		return
	}
	if isTime(t) {
		switch n.k {
		case jTime:
			storeTo(cell, n.tm)
		case jNull:
		case jAny:
			p.unsupported("undetermined JSON time")
		default:
			d.bad(p, "value", t)
		}
		return
	}
	if m := p.findMethod(types.NewPointer(t), "UnmarshalJSON"); m != nil {
		txt := p.jput(n)
		r := p.callValue(g, nil, &closure{fn: m}, []value{cell, p.mkBytes(p.strBytes(txt))})
		if e := r.(iface); e.t != nil {
			panic(jfail{e}) // a failing Unmarshaler ends decoding
		}
		return
	}
	if m := p.findMethod(types.NewPointer(t), "UnmarshalText"); m != nil {
		p.unsupported("UnmarshalText")
	}
	if _, isI := t.Underlying().(*types.Interface); !isI {
		p.jdecide(n, t)
	}
	if n.k == jWrong {
		d.bad(p, "value", t)
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if n.k == jNull {
			return
		}
		switch {
		case isBool(u):
			if n.k != jBool {
				d.bad(p, "value", t)
				return
			}
			*cell = n.t
		case isString(u):
			if n.k != jStr {
				d.bad(p, "value", t)
				return
			}
			*cell = n.s
		default:
			if n.k != jNum {
				d.bad(p, "value", t)
				return
			}
			if w, signed, ok := intInfo(u); ok {
				p.jint(d, t, w, signed, cell, n)
				return
			}
			if w, ok := isFloat(u); ok {
				x := n.t
				if x == nil {
					f, err := strconv.ParseFloat(n.txt, int(w))
					if err != nil {
						d.bad(p, "number "+n.txt, t)
						return
					}
					*cell = p.x.fpc(f, w)
					return
				}
				if x.sort == SFP {
					*cell = p.x.FpToFp(x, w)
				} else {
					*cell = p.x.FpFromInt(x, n.signed, w)
				}
				return
			}
		}
	case *types.Struct:
		if n.k == jNull {
			return
		}
		if n.k != jObj {
			d.bad(p, "value", t)
			return
		}
		fs := jfields(u)
		for i, kv := range n.keys {
			k, ok := kv.(string)
			if !ok {
				p.unsupported("symbolic member name")
			}
			var f *jfield
			for j := range fs {
				if fs[j].name == k {
					f = &fs[j]
					break
				}
			}
			if f == nil {
				for j := range fs {
					if strings.EqualFold(fs[j].name, k) {
						f = &fs[j]
						break
					}
				}
			}
			if f == nil {
				continue
			}
			c := cell
			for _, ix := range f.path {
				c = &(*c).(structure)[ix]
			}
			p.jdecode(g, d, f.typ, c, n.arr[i], depth+1)
		}
	case *types.Map:
		if n.k == jNull {
			*cell = (*mapV)(nil)
			return
		}
		if n.k != jObj {
			d.bad(p, "value", t)
			return
		}
		m := (*cell).(*mapV)
		if m == nil {
			m = p.newMap()
			*cell = m
		}
		for i, k := range n.keys {
			kv := k
			if w, signed, isInt := intInfo(u.Key()); isInt {
				ks, ok := k.(string)
				if !ok {
					p.unsupported("symbolic numeric member name")
				}
				if signed {
					x, err := strconv.ParseInt(ks, 10, int(w))
					if err != nil {
						d.bad(p, "number "+ks, u.Key())
						continue
					}
					kv = p.x.BV(uint64(x), w)
				} else {
					x, err := strconv.ParseUint(ks, 10, int(w))
					if err != nil {
						d.bad(p, "number "+ks, u.Key())
						continue
					}
					kv = p.x.BV(x, w)
				}
			}
			var c value = p.zero(u.Elem())
			p.jdecode(g, d, u.Elem(), &c, n.arr[i], depth+1)
			p.sched.mapAccess(g, m, true)
			p.mapSet(u.Key(), m, kv, c)
		}
	case *types.Slice:
		if n.k == jNull {
			*cell = sliceV{ln: p.x.BV(0, 64), cp: p.x.BV(0, 64)}
			return
		}
		if isByteSlice(t) {
			if n.k == jBytes {
				*cell = p.mkBytes(append([]*Term{}, n.b...))
				return
			}
			if n.k == jStr {
				p.unsupported("base64 text")
			}
		}
		if n.k != jArr {
			d.bad(p, "value", t)
			return
		}
		old := (*cell).(sliceV)
		var a []value
		for i, e := range n.arr {
			var c value = p.zero(u.Elem())
			if i < len(old.a) && old.cp.isC() && i < int(old.cp.c) {
				c = old.a[i]
			}
			a = append(a, c)
			p.jdecode(g, d, u.Elem(), &a[i], e, depth+1)
		}
		*cell = p.mkSlice(a)
	case *types.Array:
		if n.k == jNull {
			return
		}
		if n.k != jArr {
			d.bad(p, "value", t)
			return
		}
		a := (*cell).(array)
		for i := range a {
			if i < len(n.arr) {
				p.jdecode(g, d, u.Elem(), &a[i], n.arr[i], depth+1)
			} else {
				storeTo(&a[i], p.zero(u.Elem()))
			}
		}
	case *types.Interface:
		if n.k == jNull {
			*cell = iface{}
			return
		}
		if u.NumMethods() != 0 {
			d.bad(p, "value", t)
			return
		}
		switch n.k {
		case jBool:
			*cell = iface{t: types.Typ[types.Bool], v: n.t}
		case jStr:
			*cell = iface{t: types.Typ[types.String], v: n.s}
		case jNum:
			var c value = p.x.fpc(0, 64)
			p.jdecode(g, d, types.Typ[types.Float64], &c, n, depth+1)
			*cell = iface{t: types.Typ[types.Float64], v: c}
		case jObj:
			mt := types.NewMap(types.Typ[types.String], t)
			var c value = (*mapV)(nil)
			p.jdecode(g, d, mt, &c, n, depth+1)
			*cell = iface{t: mt, v: c}
		case jArr:
			stt := types.NewSlice(t)
			c := p.zero(stt)
			p.jdecode(g, d, stt, &c, n, depth+1)
			*cell = iface{t: stt, v: c}
		default:
			p.unsupported("JSON into interface")
		}
	default:
		d.bad(p, "value", t)
	}
}

func (p *path) jint(d *jdec, t types.Type, w uint8, signed bool, cell *value, n *jnode) {
	if n.t == nil {
		if signed {
			i, err := strconv.ParseInt(n.txt, 10, int(w))
			if err != nil {
				d.bad(p, "number "+n.txt, t)
				return
			}
			*cell = p.x.BV(uint64(i), w)
			return
		}
		i, err := strconv.ParseUint(n.txt, 10, int(w))
		if err != nil {
			d.bad(p, "number "+n.txt, t)
			return
		}
		*cell = p.x.BV(i, w)
		return
	}
	x := n.t
	if x.sort == SFP {
		p.unsupported("floating JSON number into an integer")
	}
	if x.w == w && n.signed == signed {
		*cell = x
		return
	}
	// via 64 bits with a range check
	var full *Term
	if n.signed {
		full = p.x.Sext(x, 64)
	} else {
		full = p.x.Zext(x, 64)
	}
	nar := full
	if w < 64 {
		nar = p.x.Extract(full, 0, w)
	}
	var back *Term
	if signed {
		back = p.x.Sext(nar, 64)
	} else {
		back = p.x.Zext(nar, 64)
	}
	ok := p.x.Eq(back, full)
	if n.signed != signed && (w == 64 || x.w == 64) {
		ok = p.x.And(ok, p.x.Not(p.x.Slt(full, p.x.BV(0, 64))))
	} else if n.signed && !signed {
		ok = p.x.And(ok, p.x.Not(p.x.Slt(full, p.x.BV(0, 64))))
	}
	if !p.branch(ok) {
		d.bad(p, "number", t)
		return
	}
	*cell = nar
}

func (p *path) junmarshal(g *G, n *jnode, dst iface) (err iface) {
	if dst.t == nil {
		return p.jErr("Unmarshal(nil)")
	}
	pt, ok := dst.t.Underlying().(*types.Pointer)
	if !ok {
		return p.jErr("Unmarshal(non-pointer " + dst.t.String() + ")")
	}
	q := dst.v.(*value)
	if q == nil {
		return p.jErr("Unmarshal(nil " + dst.t.String() + ")")
	}
	d := &jdec{}
	depth := len(g.frames)
	defer func() {
		if r := recover(); r != nil {
			if f, ok := r.(jfail); ok {
				g.frames = g.frames[:depth]
				err = f.err
				return
			}
			panic(r)
		}
	}()
	p.jdecode(g, d, pt.Elem(), q, n, 0)
	return d.err
}

type jdecoder struct {
	r    iface
	data string
	read bool
}

// text renders a node under a model, for replays.
func (n *jnode) text(ec *evalCtx) string {
	switch n.k {
	case jNull:
		return "null"
	case jBool:
		if ec.eval(n.t) == 1 {
			return "true"
		}
		return "false"
	case jNum:
		if n.t == nil {
			return n.txt
		}
		v := ec.eval(n.t)
		if n.t.sort == SFP {
			f := math.Float64frombits(v)
			if n.t.w == 32 {
				f = float64(math.Float32frombits(uint32(v)))
			}
			return strconv.FormatFloat(f, 'g', -1, 64)
		}
		if n.signed {
			return strconv.FormatInt(sx(v, n.t.w), 10)
		}
		return strconv.FormatUint(v, 10)
	case jStr:
		switch s := n.s.(type) {
		case string:
			return strconv.Quote(s)
		case *symStr:
			var b []byte
			for _, t := range s.b {
				b = append(b, byte(ec.eval(t)))
			}
			return strconv.Quote(string(b))
		}
		return `"?"`
	case jArr:
		var r []string
		for _, e := range n.arr {
			r = append(r, e.text(ec))
		}
		return "[" + strings.Join(r, ",") + "]"
	case jObj:
		var r []string
		for i, e := range n.arr {
			k, _ := n.keys[i].(string)
			r = append(r, strconv.Quote(k)+":"+e.text(ec))
		}
		return "{" + strings.Join(r, ",") + "}"
	case jWrong:
		return `[["wrong"]]`
	case jAny:
		return "{}"
	}
	return "null"
}

func init() {
	R := func(name string, f func(p *path, g *G, a []value) value) {
		reg(name, func(p *path, g *G, fr *frame, fn *ssa.Function, args []value) value { return f(p, g, args) })
	}
	R("encoding/json.Marshal", func(p *path, g *G, a []value) value {
		b, e := p.jmarshal(g, a[0].(iface))
		return tuple{b, e}
	})
	R("encoding/json.MarshalIndent", func(p *path, g *G, a []value) value {
		b, e := p.jmarshal(g, a[0].(iface))
		return tuple{b, e}
	})
	bufWrite := func(p *path, g *G, buf value, s string) {
		t := types.NewPointer(p.pkgType("bytes", "Buffer"))
		m := p.findMethod(t, "Write")
		p.callValue(g, nil, &closure{fn: m}, []value{buf, p.mkBytes(p.strBytes(s))})
	}
	indent := func(p *path, g *G, a []value) value {
		txt := p.concText(a[1].(sliceV))
		_, rest, err := p.jparse(txt)
		if err != nil {
			return p.jErr(err.Error())
		}
		if jws(rest) != "" {
			return p.jErr("invalid character after top-level value")
		}
		bufWrite(p, g, a[0], txt)
		return iface{}
	}
	R("encoding/json.Indent", indent)
	R("encoding/json.Compact", indent)
	R("encoding/json.Valid", func(p *path, g *G, a []value) value {
		_, rest, err := p.jparse(p.concText(a[0].(sliceV)))
		return p.x.Bool(err == nil && jws(rest) == "")
	})
	R("encoding/json.Unmarshal", func(p *path, g *G, a []value) value {
		if s, ok := p.plainText(a[0].(sliceV)); ok {
			if to, ok := a[1].(iface).v.(*value); ok && to != nil && isStringPtr(a[1].(iface).t) {
				p.store(to, s)
				return iface{}
			}
		}
		n, rest, err := p.jparse(p.concText(a[0].(sliceV)))
		if err != nil {
			if err.Error() == "unexpected EOF" {
				return p.jErr("unexpected end of JSON input")
			}
			return p.jErr(err.Error())
		}
		if jws(rest) != "" {
			return p.jErr("invalid character after top-level value")
		}
		return p.junmarshal(g, n, a[1].(iface))
	})
	R("encoding/json.NewDecoder", func(p *path, g *G, a []value) value {
		cell := new(value)
		*cell = p.zero(p.pkgType("encoding/json", "Decoder"))
		p.side[cell] = &jdecoder{r: a[0].(iface)}
		return cell
	})
	R("(*encoding/json.Decoder).Decode", func(p *path, g *G, a []value) value {
		d := p.side[a[0]].(*jdecoder)
		if !d.read {
			d.read = true
			ra := p.e.prog.ImportedPackage("io").Func("ReadAll")
			r := p.callSSA(g, nil, ra, []value{d.r}, nil).(tuple)
			d.data = p.concText(r[0].(sliceV))
			if e := r[1].(iface); e.t != nil {
				return e
			}
		}
		d.data = jws(d.data)
		if d.data == "" {
			return p.globalByName("io", "EOF")
		}
		n, rest, err := p.jparse(d.data)
		if err != nil {
			if err.Error() == "unexpected EOF" {
				return p.globalByName("io", "ErrUnexpectedEOF")
			}
			return p.jErr(err.Error())
		}
		d.data = rest
		return p.junmarshal(g, n, a[1].(iface))
	})
	R("(*encoding/json.Decoder).More", func(p *path, g *G, a []value) value {
		p.unsupported("json.Decoder.More")
		return nil
	})
	R("(*encoding/json.Decoder).DisallowUnknownFields", func(p *path, g *G, a []value) value { return nil })
	R("(*encoding/json.Decoder).UseNumber", func(p *path, g *G, a []value) value { return nil })
	type jencoder struct{ w iface }
	R("encoding/json.NewEncoder", func(p *path, g *G, a []value) value {
		cell := new(value)
		*cell = p.zero(p.pkgType("encoding/json", "Encoder"))
		p.side[cell] = &jencoder{a[0].(iface)}
		return cell
	})
	R("(*encoding/json.Encoder).SetIndent", func(p *path, g *G, a []value) value { return nil })
	R("(*encoding/json.Encoder).SetEscapeHTML", func(p *path, g *G, a []value) value { return nil })
	R("(*encoding/json.Encoder).Encode", func(p *path, g *G, a []value) value {
		e := p.side[a[0]].(*jencoder)
		b, err := p.jmarshal(g, a[1].(iface))
		if err.t != nil {
			return err
		}
		txt := p.concText(b) + "\n"
		m := p.findMethod(e.w.t, "Write")
		if m == nil {
			p.unsupported("Write of " + e.w.t.String())
		}
		r := p.callValue(g, nil, &closure{fn: m}, []value{e.w.v, p.mkBytes(p.strBytes(txt))}).(tuple)
		return r[1]
	})
}
