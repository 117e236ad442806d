package main

// Values of the interpreted program. Scalars are *Term; strings are string, *symStr or *opaqueStr.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type value = any

type structure []value
type array []value
type tuple []value

type iface struct {
	t types.Type // nil: the nil interface
	v value
}

type closure struct {
	fn  *ssa.Function
	env []value
	nat func(p *path, g *G, args []value) value // native function value
}

type symStr struct{ b []*Term }
type opaqueStr struct {
	id    int
	why   string
	force func() value // builds the text when it is looked at; nil if it cannot be built
	v     value
}

// text returns the characters of a formatted string, or nil if the engine does not build them.
func (s *opaqueStr) text() value {
	if s.v == nil && s.force != nil {
		s.v = s.force()
	}
	return s.v
}

type sliceV struct {
	a      []value // cells from the slice's start to the end of the backing array
	ln, cp *Term
	nonnil bool
}

type symPtr struct { // pointer to a[idx], idx symbolic and in range
	a   []value
	idx *Term
}

type poison struct{ why string }

type native struct{ x any } // state of modelled types

type mapEntry struct {
	k, v value
	del  bool
}
type mapV struct {
	ents  []*mapEntry
	index map[string]*mapEntry // entries with fully concrete keys
	nsym  int                  // live entries whose key is not concrete
	n     int
	// race detection
	wG      int
	wClk    int
	wSite   string
	reads   map[int]int
	rdSites map[int]string
	wAny    bool
	id      int
}

type mapIter struct {
	m    *mapV
	ents []*mapEntry
	i    int
}
type strIter struct {
	s value
	i int
}

func intInfo(t types.Type) (w uint8, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}
func isFloat(t types.Type) (uint8, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Float64, types.UntypedFloat:
		return 64, true
	case types.Float32:
		return 32, true
	}
	return 0, false
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (p *path) zero(t types.Type) value {
	switch t := t.(type) {
	case *types.Named, *types.Alias:
		return p.zero(t.Underlying())
	case *types.Basic:
		if t.Kind() == types.UnsafePointer || t.Kind() == types.UntypedNil {
			return (*value)(nil)
		}
		if w, _, ok := intInfo(t); ok {
			return p.x.BV(0, w)
		}
		if w, ok := isFloat(t); ok {
			return p.x.fpc(0, w)
		}
		if isBool(t) {
			return constFalse
		}
		if isString(t) {
			return ""
		}
		if t.Kind() == types.Complex128 || t.Kind() == types.Complex64 {
			return poison{"complex"}
		}
	case *types.Pointer:
		return (*value)(nil)
	case *types.Slice:
		return sliceV{ln: p.x.BV(0, 64), cp: p.x.BV(0, 64)}
	case *types.Array:
		a := make(array, t.Len())
		if t.Len() > 0 {
			z := p.zero(t.Elem())
			_, isS := z.(structure)
			_, isA := z.(array)
			for i := range a {
				if isS || isA {
					a[i] = copyVal(z)
				} else {
					a[i] = z
				}
			}
		}
		return a
	case *types.Struct:
		s := make(structure, t.NumFields())
		for i := range s {
			s[i] = p.zero(t.Field(i).Type())
		}
		return s
	case *types.Map:
		return (*mapV)(nil)
	case *types.Chan:
		return (*chanV)(nil)
	case *types.Interface:
		return iface{}
	case *types.Signature:
		return (*closure)(nil)
	case *types.Tuple:
		if t.Len() == 0 {
			return nil
		}
		if t.Len() == 1 {
			return p.zero(t.At(0).Type())
		}
		r := make(tuple, t.Len())
		for i := range r {
			r[i] = p.zero(t.At(i).Type())
		}
		return r
	case *types.TypeParam:
		return poison{"type parameter"}
	}
	panic(fmt.Sprintf("zero of %v (%T)", t, t))
}

func copyVal(v value) value {
	switch v := v.(type) {
	case structure:
		c := make(structure, len(v))
		for i := range v {
			c[i] = copyVal(v[i])
		}
		return c
	case array:
		c := make(array, len(v))
		for i := range v {
			c[i] = copyVal(v[i])
		}
		return c
	}
	return v
}

// storeTo writes v into the cell, keeping the addresses of nested fields.
func storeTo(dst *value, v value) {
	switch v := v.(type) {
	case structure:
		if d, ok := (*dst).(structure); ok && len(d) == len(v) {
			for i := range v {
				storeTo(&d[i], v[i])
			}
			return
		}
		*dst = copyVal(v)
	case array:
		if d, ok := (*dst).(array); ok && len(d) == len(v) {
			for i := range v {
				storeTo(&d[i], v[i])
			}
			return
		}
		*dst = copyVal(v)
	default:
		*dst = v
	}
}

func (p *path) load(ptr value) value {
	switch q := ptr.(type) {
	case *value:
		if q == nil {
			p.rtPanic("invalid memory address or nil pointer dereference")
		}
		return copyVal(*q)
	case *symPtr:
		r := q.a[len(q.a)-1].(*Term)
		for i := len(q.a) - 2; i >= 0; i-- {
			c, ok := q.a[i].(*Term)
			if !ok {
				p.unsupported("symbolic index into non-scalar elements")
			}
			r = p.x.Ite(p.x.Eq(q.idx, p.x.BV(uint64(i), q.idx.w)), c, r)
		}
		return r
	case poison:
		p.unsupported("use of uninitialised value: " + q.why)
	}
	panic(fmt.Sprintf("load through %T", ptr))
}
func (p *path) store(ptr value, v value) {
	switch q := ptr.(type) {
	case *value:
		if q == nil {
			p.rtPanic("invalid memory address or nil pointer dereference")
		}
		storeTo(q, v)
	case *symPtr:
		nv := v.(*Term)
		for i := range q.a {
			q.a[i] = p.x.Ite(p.x.Eq(q.idx, p.x.BV(uint64(i), q.idx.w)), nv, q.a[i].(*Term))
		}
	case poison:
		p.unsupported("store through uninitialised value: " + q.why)
	default:
		panic(fmt.Sprintf("store through %T", ptr))
	}
}

// ---- strings

func (p *path) strBytes(v value) []*Term {
	switch s := v.(type) {
	case string:
		b := make([]*Term, len(s))
		for i := 0; i < len(s); i++ {
			b[i] = p.x.BV(uint64(s[i]), 8)
		}
		return b
	case *symStr:
		return s.b
	case *opaqueStr:
		if t := s.text(); t != nil {
			return p.strBytes(t)
		}
		p.unsupported("contents of a formatted string: " + s.why)
	case poison:
		p.unsupported("poison string " + s.why)
	}
	panic(fmt.Sprintf("strBytes of %T", v))
}
func mkStr(b []*Term) value {
	for _, t := range b {
		if !t.isC() {
			return &symStr{b: b}
		}
	}
	var sb strings.Builder
	for _, t := range b {
		sb.WriteByte(byte(t.c))
	}
	return sb.String()
}
func (p *path) opaque(why string) value {
	p.nopaque++
	return &opaqueStr{id: p.nopaque, why: why}
}
func (p *path) strLen(v value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *symStr:
		return len(s.b)
	case *opaqueStr:
		if t := s.text(); t != nil {
			return p.strLen(t)
		}
		p.unsupported("length of a formatted string: " + s.why)
	}
	panic(fmt.Sprintf("strLen of %T", v))
}
func (p *path) strConcat(a, b value) value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
		if x == "" {
			return b
		}
	}
	if y, ok := b.(string); ok && y == "" {
		return a
	}
	_, o1 := a.(*opaqueStr)
	_, o2 := b.(*opaqueStr)
	if o1 || o2 {
		r := p.opaque("concatenation").(*opaqueStr)
		r.force = func() value {
			x, y := a, b
			if o, ok := a.(*opaqueStr); ok {
				if x = o.text(); x == nil {
					return nil
				}
			}
			if o, ok := b.(*opaqueStr); ok {
				if y = o.text(); y == nil {
					return nil
				}
			}
			return p.strConcat(x, y)
		}
		return r
	}
	return mkStr(append(append([]*Term{}, p.strBytes(a)...), p.strBytes(b)...))
}
func (p *path) strEq(a, b value) *Term {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return p.x.Bool(x == y)
		}
	}
	if x, ok := a.(*opaqueStr); ok {
		if y, ok := b.(*opaqueStr); ok && x == y {
			return constTrue
		}
	}
	if p.strLen(a) != p.strLen(b) {
		return constFalse
	}
	x, y := p.strBytes(a), p.strBytes(b)
	r := constTrue
	for i := range x {
		e := p.x.Eq(x[i], y[i])
		if e.isFalse() {
			return constFalse
		}
		r = p.x.And(r, e)
	}
	return r
}

// strLt is the lexicographic order on bytes.
func (p *path) strLt(a, b value) *Term {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return p.x.Bool(x < y)
		}
	}
	x, y := p.strBytes(a), p.strBytes(b)
	n := min(len(x), len(y))
	r := p.x.Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		r = p.x.BIte(p.x.Ult(x[i], y[i]), constTrue, p.x.And(p.x.Eq(x[i], y[i]), r))
	}
	return r
}

func (p *path) sliceTerms(s sliceV) []*Term { // contents of a byte slice; concretises the length
	n := p.cint(s.ln)
	r := make([]*Term, n)
	for i := 0; i < n; i++ {
		r[i] = s.a[i].(*Term)
	}
	return r
}
func (p *path) mkBytes(b []*Term) sliceV {
	a := make([]value, len(b))
	for i := range b {
		a[i] = b[i]
	}
	n := p.x.BV(uint64(len(b)), 64)
	return sliceV{a: a, ln: n, cp: n, nonnil: true}
}
func (p *path) mkSlice(a []value) sliceV {
	n := p.x.BV(uint64(len(a)), 64)
	return sliceV{a: a, ln: n, cp: n, nonnil: true}
}

// ---- equality

func (p *path) eq(t types.Type, a, b value) *Term {
	if q, ok := a.(poison); ok {
		p.unsupported("compare poison: " + q.why)
	}
	if q, ok := b.(poison); ok {
		p.unsupported("compare poison: " + q.why)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return p.strEq(a, b)
		}
		if _, ok := isFloat(u); ok {
			return p.x.FpCmp(OFpEq, a.(*Term), b.(*Term))
		}
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return p.x.Bool(a == b)
		}
		return p.x.Eq(a.(*Term), b.(*Term))
	case *types.Pointer:
		x, ok1 := a.(*value)
		y, ok2 := b.(*value)
		if ok1 && ok2 {
			return p.x.Bool(x == y)
		}
		if (ok1 && x == nil) || (ok2 && y == nil) {
			return constFalse
		}
		p.unsupported("comparison of symbolic element pointers")
	case *types.Chan:
		return p.x.Bool(a.(*chanV) == b.(*chanV))
	case *types.Map:
		return p.x.Bool(a.(*mapV) == b.(*mapV))
	case *types.Signature:
		return p.x.Bool(a.(*closure) == b.(*closure))
	case *types.Slice: // only against nil
		x, y := a.(sliceV), b.(sliceV)
		return p.x.Bool(!x.nonnil && !y.nonnil)
	case *types.Interface:
		return p.ifaceEq(a.(iface), b.(iface))
	case *types.Struct:
		x, y := a.(structure), b.(structure)
		r := constTrue
		for i := range x {
			if u.Field(i).Name() == "_" {
				continue
			}
			e := p.eq(u.Field(i).Type(), x[i], y[i])
			if e.isFalse() {
				return e
			}
			r = p.x.And(r, e)
		}
		return r
	case *types.Array:
		x, y := a.(array), b.(array)
		r := constTrue
		for i := range x {
			r = p.x.And(r, p.eq(u.Elem(), x[i], y[i]))
			if r.isFalse() {
				return r
			}
		}
		return r
	}
	panic(fmt.Sprintf("eq on %v", t))
}

func (p *path) ifaceEq(a, b iface) *Term {
	if a.t == nil || b.t == nil {
		return p.x.Bool(a.t == nil && b.t == nil)
	}
	if !types.Identical(a.t, b.t) {
		return constFalse
	}
	if !types.Comparable(a.t) {
		p.rtPanic("comparing uncomparable type " + a.t.String())
	}
	return p.eq(a.t, a.v, b.v)
}

// ---- maps

// canon gives a canonical text for a fully concrete key.
func canon(v value) (string, bool) {
	switch k := v.(type) {
	case string:
		return "s" + k, true
	case *Term:
		if k.isC() {
			if k.sort == SFP {
				return "", false
			}
			return fmt.Sprintf("i%d.%d", k.w, k.c), true
		}
		return "", false
	case structure:
		var sb strings.Builder
		sb.WriteString("{")
		for _, f := range k {
			c, ok := canon(f)
			if !ok {
				return "", false
			}
			sb.WriteString(c)
			sb.WriteByte(0)
		}
		return sb.String() + "}", true
	case array:
		return canon(structure(k))
	case *value:
		return fmt.Sprintf("p%p", k), true
	case *chanV:
		return fmt.Sprintf("c%p", k), true
	case iface:
		if k.t == nil {
			return "nil", true
		}
		c, ok := canon(k.v)
		return "I" + k.t.String() + ":" + c, ok
	}
	return "", false
}

func (p *path) newMap() *mapV {
	p.nmaps++
	return &mapV{index: map[string]*mapEntry{}, id: p.nmaps}
}

func (p *path) mapFind(kt types.Type, m *mapV, k value) *mapEntry {
	if m == nil {
		return nil
	}
	c, ok := canon(k)
	if ok {
		if e := m.index[c]; e != nil {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
		for _, e := range m.ents {
			if e.del {
				continue
			}
			if _, cc := canon(e.k); cc {
				continue
			}
			if p.branch(p.eq(kt, e.k, k)) {
				return e
			}
		}
		return nil
	}
	if o, isO := k.(*opaqueStr); isO && o.text() != nil {
		k = o.text()
		if c, ok := canon(k); ok && m.nsym == 0 {
			return m.index[c]
		}
	} else if isO {
		for _, e := range m.ents {
			if !e.del && e.k == value(o) {
				return e
			}
		}
		if m.n == 0 {
			return nil
		}
		p.unsupported("map key is a formatted string: " + o.why)
	}
	for _, e := range m.ents {
		if e.del {
			continue
		}
		if p.branch(p.eq(kt, e.k, k)) {
			return e
		}
	}
	return nil
}
func (p *path) mapSet(kt types.Type, m *mapV, k, v value) {
	e := p.mapFind(kt, m, k)
	if e != nil {
		e.v = v
		return
	}
	if o, ok := k.(*opaqueStr); ok && o.text() != nil {
		k = o.text()
	}
	e = &mapEntry{k: copyVal(k), v: v}
	m.ents = append(m.ents, e)
	m.n++
	if c, ok := canon(k); ok {
		m.index[c] = e
	} else {
		m.nsym++
	}
}
func (p *path) mapDelete(kt types.Type, m *mapV, k value) {
	e := p.mapFind(kt, m, k)
	if e == nil {
		return
	}
	e.del = true
	m.n--
	if c, ok := canon(e.k); ok {
		delete(m.index, c)
	} else {
		m.nsym--
	}
	for i, f := range m.ents {
		if f == e {
			m.ents = append(append([]*mapEntry{}, m.ents[:i]...), m.ents[i+1:]...)
			break
		}
	}
}

// mapOrder chooses an iteration order.
func (p *path) mapOrder(m *mapV) []*mapEntry {
	if m == nil {
		return nil
	}
	ents := append([]*mapEntry{}, m.ents...)
	n := len(ents)
	if n < 2 || p.initMode > 0 || p.mapFixed {
		return ents
	}
	if n <= 3 {
		out := make([]*mapEntry, 0, n)
		for len(ents) > 1 {
			i := p.choose(len(ents), "maporder")
			out = append(out, ents[i])
			ents = append(append([]*mapEntry{}, ents[:i]...), ents[i+1:]...)
		}
		return append(out, ents[0])
	}
	if n <= 16 {
		if p.choose(2, "maporder") == 1 {
			for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
				ents[i], ents[j] = ents[j], ents[i]
			}
		}
	}
	return ents
}
