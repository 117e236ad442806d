package main

// A model of the file system (one flat namespace), with crash points and I/O faults, and of gob.

import (
	"fmt"
	"go/types"
	"path/filepath"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type inode struct {
	data   []*Term
	synced []*Term // what survives a power loss
}

type fileObj struct {
	name   string
	ino    *inode
	off    int
	app    bool
	rd, wr bool
	closed bool
	std    bool
}

// fileInfo is what Stat returns.
type fileInfo struct {
	name string
	ino  *inode
}

type crashNow struct{}

type fsModel struct {
	files  map[string]*inode
	stdout []value
	jnodes []*jnode
	jsizes []int
	gobs   []*gobRec
	gobEnc int
	docs   []*jdoc
	armed  bool // crash points active
	faults int
	tmpN   int
	log    []string
	args   []string
	serial value // func(name string, baud int) (io.ReadWriteCloser, error)
	dir    string
}

func (p *path) fsm() *fsModel {
	if p.fs == nil {
		p.fs = &fsModel{files: map[string]*inode{}, args: []string{"prog"}}
	}
	return p.fs
}

func durString(n int64) string { return time.Duration(n).String() }

// point is a place where the process may be killed.
func (f *fsModel) point(p *path, what string) {
	if g := p.sched.cur; g != nil {
		p.sched.yield(g)
	}
	f.log = append(f.log, what)
	if f.armed && p.choose(2, "crash before "+what) == 1 {
		f.armed = false
		p.trace = append(p.trace, "crash before "+what)
		f.crash(p)
	}
}

// crash ends the process; with a power loss, data that was never synchronised is lost.
func (f *fsModel) crash(p *path) {
	lost := false
	for _, i := range f.files {
		lost = lost || !slices.Equal(i.data, i.synced)
	}
	if lost && p.choose(2, "power loss") == 1 {
		p.trace = append(p.trace, "data that is not synchronised is lost")
		for _, i := range f.files {
			i.data = i.synced
		}
	}
	panic(crashNow{})
}

func (f *fsModel) fault(p *path, what string) bool {
	if f.faults > 0 && p.choose(2, "fault at "+what) == 1 {
		f.faults--
		p.trace = append(p.trace, "fault at "+what)
		return true
	}
	return false
}

func (p *path) pathErr(op, name string, inner value) iface {
	t := p.pkgType("io/fs", "PathError")
	var cell value = structure{op, name, inner}
	return iface{t: types.NewPointer(t), v: &cell}
}
func (p *path) ioErr(op, name string) iface {
	return p.pathErr(op, name, p.mkError("input/output error"))
}

func (p *path) concStr(v value) string {
	switch s := v.(type) {
	case string:
		return s
	case *symStr:
		var b []byte
		for _, t := range s.b {
			b = append(b, byte(p.concretize(t)))
		}
		return string(b)
	case *opaqueStr:
		if t := s.text(); t != nil {
			return p.concStr(t)
		}
	}
	p.unsupported("file name that is a formatted string")
	return ""
}

func (p *path) mkFile(o *fileObj) *value {
	cell := new(value)
	*cell = structure{(*value)(nil)}
	p.side[cell] = o
	return cell
}

func (p *path) fileOf(v value) *fileObj {
	q, ok := v.(*value)
	if !ok || q == nil {
		return nil
	}
	o, _ := p.side[q].(*fileObj)
	if o == nil {
		p.unsupported("unknown os.File")
	}
	return o
}

const (
	oWRONLY = 1
	oRDWR   = 2
	oCREATE = 0x40
	oEXCL   = 0x80
	oTRUNC  = 0x200
	oAPPEND = 0x400
)

func (p *path) openFile(name string, flag int) (value, iface) {
	f := p.fsm()
	nilF := value((*value)(nil))
	mut := flag&(oCREATE|oTRUNC) != 0
	if mut {
		f.point(p, "open "+name)
	}
	if f.fault(p, "open "+name) {
		return nilF, p.ioErr("open", name)
	}
	ino := f.files[name]
	if ino == nil {
		if flag&oCREATE == 0 {
			return nilF, p.pathErr("open", name, p.globalByName("io/fs", "ErrNotExist"))
		}
		ino = &inode{}
		f.files[name] = ino
	} else if flag&oEXCL != 0 && flag&oCREATE != 0 {
		return nilF, p.pathErr("open", name, p.globalByName("io/fs", "ErrExist"))
	}
	acc := flag & 3
	if flag&oTRUNC != 0 && acc != 0 {
		ino.data = nil
	}
	return p.mkFile(&fileObj{name: name, ino: ino, app: flag&oAPPEND != 0, rd: acc != oWRONLY, wr: acc != 0}), iface{}
}

func (p *path) fileWrite(o *fileObj, b []*Term) (int, iface) {
	f := p.fsm()
	if o.std {
		f.stdout = append(f.stdout, mkStr(append([]*Term{}, b...)))
		return len(b), iface{}
	}
	if o.closed {
		return 0, p.pathErr("write", o.name, p.globalByName("io/fs", "ErrClosed"))
	}
	if !o.wr {
		return 0, p.ioErr("write", o.name)
	}
	f.point(p, "write "+o.name)
	put := func(n int) {
		if o.app {
			o.off = len(o.ino.data)
		}
		d := append([]*Term{}, o.ino.data...)
		for len(d) < o.off+n {
			d = append(d, p.x.BV(0, 8))
		}
		copy(d[o.off:], b[:n])
		o.ino.data = d
		o.off += n
	}
	if f.armed && len(b) > 1 && p.choose(2, "crash in write "+o.name) == 1 {
		f.armed = false
		put(len(b) / 2)
		p.trace = append(p.trace, "crash in the middle of write "+o.name)
		f.crash(p)
	}
	if f.faults > 0 {
		switch p.choose(3, "fault at write "+o.name) {
		case 1:
			f.faults--
			p.trace = append(p.trace, "write fails "+o.name)
			return 0, p.ioErr("write", o.name)
		case 2:
			f.faults--
			n := len(b) / 2
			put(n)
			p.trace = append(p.trace, "short write "+o.name)
			return n, p.ioErr("write", o.name)
		}
	}
	put(len(b))
	return len(b), iface{}
}

func (p *path) osGlobal(v *ssa.Global) value {
	switch v.Name() {
	case "Stdout", "Stderr", "Stdin":
		return p.mkFile(&fileObj{name: v.Name(), ino: &inode{}, std: true, wr: true, rd: true})
	case "ErrNotExist", "ErrExist", "ErrClosed", "ErrInvalid", "ErrPermission":
		return p.globalByName("io/fs", v.Name())
	case "Args":
		var a []value
		for _, s := range p.fsm().args {
			a = append(a, s)
		}
		return p.mkSlice(a)
	}
	return poison{"os global " + v.Name()}
}

// ---- gob

type gobRec struct {
	t   types.Type
	v   value
	enc int
	def bool // carries the type definitions
}

const gobPre, gobLen = "<GOB#", 12

type gobEncoder struct {
	id   int
	w    iface
	sent map[string]bool
}
type gobDecoder struct {
	r    iface
	defs map[string]int
}

func (p *path) isErr(e iface, t types.Type) bool { return e.t != nil }

// gobSnap copies a value as it is transmitted: pointers flattened, unexported fields gone.
func (p *path) gobSnap(v value) value {
	switch x := v.(type) {
	case structure:
		r := make(structure, len(x))
		for i := range x {
			r[i] = p.gobSnap(x[i])
		}
		return r
	case array:
		return value(array(p.gobSnap(structure(x)).(structure)))
	case sliceV:
		n := p.cint(x.ln)
		a := make([]value, n)
		for i := range a {
			a[i] = p.gobSnap(x.a[i])
		}
		s := p.mkSlice(a)
		s.nonnil = x.nonnil
		return s
	case *value:
		if x == nil {
			return x
		}
		c := p.gobSnap(*x)
		return &c
	case *mapV, iface:
		p.unsupported("gob of maps or interfaces")
	}
	return v
}

// gobFill stores a transmitted value: zero fields are not transmitted and leave the target alone,
// and a slice with enough capacity is reused.
func (p *path) gobFill(t types.Type, cell *value, v value, top bool) {
	if isTime(t) {
		storeTo(cell, v)
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		q := (*cell).(*value)
		src := v.(*value)
		if src == nil {
			return
		}
		if q == nil {
			var c value = p.zero(u.Elem())
			q = &c
			*cell = q
		}
		p.gobFill(u.Elem(), q, *src, false)
	case *types.Struct:
		st := (*cell).(structure)
		sv := v.(structure)
		for i := range st {
			if u.Field(i).Exported() {
				p.gobFill(u.Field(i).Type(), &st[i], sv[i], false)
			}
		}
	case *types.Slice:
		s := v.(sliceV)
		n := int(s.ln.c)
		if n == 0 && !top {
			return
		}
		old := (*cell).(sliceV)
		if old.cp.isC() && int(old.cp.c) >= n && old.nonnil && n > 0 {
			for i := 0; i < n; i++ {
				storeTo(&old.a[i], s.a[i])
			}
			old.ln = p.x.BV(uint64(n), 64)
			*cell = old
			return
		}
		a := make([]value, n)
		for i := range a {
			a[i] = copyVal(s.a[i])
		}
		*cell = p.mkSlice(a)
	case *types.Basic:
		if s, ok := v.(string); ok {
			if s != "" || top {
				*cell = v
			}
			return
		}
		nv, ok := v.(*Term)
		if !ok || top {
			*cell = v
			return
		}
		old := (*cell).(*Term)
		var z *Term
		switch nv.sort {
		case SBool:
			z = p.x.Not(nv)
			*cell = p.x.BIte(z, old, nv)
			return
		case SFP:
			z = p.x.FpCmp(OFpEq, nv, p.x.fpc(0, nv.w))
		default:
			z = p.x.Eq(nv, p.x.BV(0, nv.w))
		}
		*cell = p.x.Ite(z, old, nv)
	default:
		storeTo(cell, v)
	}
}

func gobBase(t types.Type, v value) (types.Type, value, bool) {
	for {
		pt, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return t, v, true
		}
		q := v.(*value)
		if q == nil {
			return t, v, false
		}
		t, v = pt.Elem(), *q
	}
}

func init() {
	R := func(name string, f func(p *path, g *G, a []value) value) {
		reg(name, func(p *path, g *G, fr *frame, fn *ssa.Function, args []value) value { return f(p, g, args) })
	}
	n64 := func(p *path, n int) *Term { return p.x.BV(uint64(n), 64) }
	R("os.Create", func(p *path, g *G, a []value) value {
		f, e := p.openFile(p.concStr(a[0]), oRDWR|oCREATE|oTRUNC)
		return tuple{f, e}
	})
	R("os.Open", func(p *path, g *G, a []value) value {
		f, e := p.openFile(p.concStr(a[0]), 0)
		return tuple{f, e}
	})
	R("os.OpenFile", func(p *path, g *G, a []value) value {
		f, e := p.openFile(p.concStr(a[0]), p.cint(a[1].(*Term)))
		return tuple{f, e}
	})
	ctemp := func(p *path, g *G, a []value) value {
		f := p.fsm()
		f.tmpN++
		dir := p.concStr(a[0])
		if dir == "" {
			dir = "/tmp"
		}
		pat := p.concStr(a[1])
		pre, suf := pat, ""
		if i := strings.LastIndexByte(pat, '*'); i >= 0 {
			pre, suf = pat[:i], pat[i+1:]
		}
		fl, e := p.openFile(filepath.Join(dir, fmt.Sprintf("%s%09d%s", pre, f.tmpN, suf)), oRDWR|oCREATE|oEXCL)
		return tuple{fl, e}
	}
	R("os.CreateTemp", ctemp)
	R("io/ioutil.TempFile", ctemp)
	rdf := func(p *path, g *G, a []value) value {
		nm := p.concStr(a[0])
		f := p.fsm()
		none := sliceV{ln: n64(p, 0), cp: n64(p, 0)}
		if f.fault(p, "read "+nm) {
			return tuple{none, p.ioErr("open", nm)}
		}
		ino := f.files[nm]
		if ino == nil {
			return tuple{none, p.pathErr("open", nm, p.globalByName("io/fs", "ErrNotExist"))}
		}
		return tuple{p.mkBytes(append([]*Term{}, ino.data...)), iface{}}
	}
	R("os.ReadFile", rdf)
	R("io/ioutil.ReadFile", rdf)
	wrf := func(p *path, g *G, a []value) value {
		nm := p.concStr(a[0])
		fl, e := p.openFile(nm, oWRONLY|oCREATE|oTRUNC)
		if e.t != nil {
			return e
		}
		_, e = p.fileWrite(p.fileOf(fl), p.sliceTerms(a[1].(sliceV)))
		return e
	}
	R("os.WriteFile", wrf)
	R("io/ioutil.WriteFile", wrf)
	R("os.Rename", func(p *path, g *G, a []value) value {
		o, n := p.concStr(a[0]), p.concStr(a[1])
		f := p.fsm()
		f.point(p, "rename")
		if f.fault(p, "rename") {
			return p.ioErr("rename", o)
		}
		ino := f.files[o]
		if ino == nil {
			return p.pathErr("rename", o, p.globalByName("io/fs", "ErrNotExist"))
		}
		if o != n {
			f.files[n] = ino
			delete(f.files, o)
		}
		return iface{}
	})
	R("os.Remove", func(p *path, g *G, a []value) value {
		nm := p.concStr(a[0])
		f := p.fsm()
		f.point(p, "remove "+nm)
		if f.files[nm] == nil {
			return p.pathErr("remove", nm, p.globalByName("io/fs", "ErrNotExist"))
		}
		if f.fault(p, "remove") {
			return p.ioErr("remove", nm)
		}
		delete(f.files, nm)
		return iface{}
	})
	R("os.RemoveAll", func(p *path, g *G, a []value) value {
		nm := p.concStr(a[0])
		f := p.fsm()
		f.point(p, "removeall "+nm)
		for k := range f.files {
			if k == nm || strings.HasPrefix(k, nm+"/") {
				delete(f.files, k)
			}
		}
		return iface{}
	})
	R("os.IsNotExist", func(p *path, g *G, a []value) value {
		e := a[0].(iface)
		if e.t == nil {
			return constFalse
		}
		if q, ok := e.v.(*value); ok && strings.HasSuffix(e.t.String(), "PathError") {
			e = (*q).(structure)[2].(iface)
		}
		return p.ifaceEq(e, p.globalByName("io/fs", "ErrNotExist").(iface))
	})
	stat := func(p *path, g *G, a []value) value {
		nm := p.concStr(a[0])
		if p.fsm().files[nm] == nil {
			return tuple{iface{}, p.pathErr("stat", nm, p.globalByName("io/fs", "ErrNotExist"))}
		}
		return tuple{iface{t: p.pkgType("io/fs", "FileInfo"), v: &native{fileInfo{nm, p.fsm().files[nm]}}}, iface{}}
	}
	R("os.Stat", stat)
	R("os.Lstat", stat)
	readDir := func(typ string) func(p *path, g *G, a []value) value {
		return func(p *path, g *G, a []value) value {
			dir := p.concStr(a[0])
			f := p.fsm()
			none := sliceV{ln: n64(p, 0), cp: n64(p, 0)}
			if f.fault(p, "read directory "+dir) {
				return tuple{none, p.ioErr("open", dir)}
			}
			var names []string
			pre := strings.TrimSuffix(filepath.Clean(dir), "/") + "/"
			seen := map[string]bool{}
			for n := range f.files {
				if !strings.HasPrefix(n, pre) {
					continue
				}
				if strings.Contains(n[len(pre):], "/") {
					p.unsupported("reading a directory with directories")
				}
				if !seen[n] {
					seen[n] = true
					names = append(names, n)
				}
			}
			sort.Strings(names)
			if len(names) == 0 && dir != f.dir {
				return tuple{none, p.pathErr("open", dir, p.globalByName("io/fs", "ErrNotExist"))}
			}
			var es []value
			for _, n := range names {
				es = append(es, iface{t: p.pkgType("io/fs", typ), v: &native{fileInfo{n, f.files[n]}}})
			}
			return tuple{p.mkSlice(es), iface{}}
		}
	}
	R("io/ioutil.ReadDir", readDir("FileInfo"))
	R("os.ReadDir", readDir("DirEntry"))
	noop := func(p *path, g *G, a []value) value { return iface{} }
	R("os.MkdirAll", noop)
	R("os.Mkdir", noop)
	R("os.Chmod", noop)
	R("os.TempDir", func(p *path, g *G, a []value) value { return "/tmp" })
	R("os.Getenv", func(p *path, g *G, a []value) value { return "" })
	R("os.Getpid", func(p *path, g *G, a []value) value { return n64(p, 4242) })
	M := func(name string, f func(p *path, g *G, o *fileObj, a []value) value) {
		R("(*os.File)."+name, func(p *path, g *G, a []value) value {
			o := p.fileOf(a[0])
			if o == nil {
				// methods on a nil *os.File return os.ErrInvalid
				inv := p.globalByName("io/fs", "ErrInvalid")
				switch name {
				case "Write", "Read", "WriteString", "Seek":
					return tuple{n64(p, 0), inv}
				case "Name":
					p.rtPanic("invalid memory address or nil pointer dereference")
				}
				return inv
			}
			return f(p, g, o, a[1:])
		})
	}
	M("Name", func(p *path, g *G, o *fileObj, a []value) value { return o.name })
	M("Write", func(p *path, g *G, o *fileObj, a []value) value {
		n, e := p.fileWrite(o, p.sliceTerms(a[0].(sliceV)))
		return tuple{n64(p, n), e}
	})
	M("WriteString", func(p *path, g *G, o *fileObj, a []value) value {
		n, e := p.fileWrite(o, p.strBytes(a[0]))
		return tuple{n64(p, n), e}
	})
	M("ReadFrom", func(p *path, g *G, o *fileObj, a []value) value {
		ra := p.e.prog.ImportedPackage("io").Func("ReadAll")
		r := p.callSSA(g, nil, ra, []value{a[0]}, nil).(tuple)
		n, e := p.fileWrite(o, p.sliceTerms(r[0].(sliceV)))
		if e.t == nil {
			e = r[1].(iface)
		}
		return tuple{n64(p, n), e}
	})
	M("WriteTo", func(p *path, g *G, o *fileObj, a []value) value {
		d := o.ino.data[min(o.off, len(o.ino.data)):]
		o.off = len(o.ino.data)
		w := a[0].(iface)
		m := p.findMethod(w.t, "Write")
		r := p.callValue(g, nil, &closure{fn: m}, []value{w.v, p.mkBytes(append([]*Term{}, d...))}).(tuple)
		return tuple{r[0], r[1]}
	})
	M("Read", func(p *path, g *G, o *fileObj, a []value) value {
		f := p.fsm()
		if o.closed {
			return tuple{n64(p, 0), p.pathErr("read", o.name, p.globalByName("io/fs", "ErrClosed"))}
		}
		if f.fault(p, "read "+o.name) {
			return tuple{n64(p, 0), p.ioErr("read", o.name)}
		}
		s := a[0].(sliceV)
		n := p.cint(s.ln)
		if n == 0 {
			return tuple{n64(p, 0), iface{}}
		}
		if o.off >= len(o.ino.data) {
			return tuple{n64(p, 0), p.globalByName("io", "EOF")}
		}
		k := min(n, len(o.ino.data)-o.off)
		for i := 0; i < k; i++ {
			s.a[i] = o.ino.data[o.off+i]
		}
		o.off += k
		return tuple{n64(p, k), iface{}}
	})
	M("Close", func(p *path, g *G, o *fileObj, a []value) value {
		if o.closed {
			return p.pathErr("close", o.name, p.globalByName("io/fs", "ErrClosed"))
		}
		o.closed = true
		if o.wr && p.fsm().fault(p, "close "+o.name) {
			return p.ioErr("close", o.name)
		}
		return iface{}
	})
	M("Sync", func(p *path, g *G, o *fileObj, a []value) value {
		p.fsm().point(p, "sync "+o.name)
		if p.fsm().fault(p, "sync "+o.name) {
			return p.ioErr("sync", o.name)
		}
		o.ino.synced = o.ino.data
		return iface{}
	})
	M("Chmod", func(p *path, g *G, o *fileObj, a []value) value { return iface{} })
	M("Truncate", func(p *path, g *G, o *fileObj, a []value) value {
		p.fsm().point(p, "truncate "+o.name)
		n := p.cint(a[0].(*Term))
		d := append([]*Term{}, o.ino.data...)
		for len(d) < n {
			d = append(d, p.x.BV(0, 8))
		}
		o.ino.data = d[:n]
		return iface{}
	})
	M("Seek", func(p *path, g *G, o *fileObj, a []value) value {
		off, wh := p.cint(a[0].(*Term)), p.cint(a[1].(*Term))
		switch wh {
		case 0:
			o.off = off
		case 1:
			o.off += off
		case 2:
			o.off = len(o.ino.data) + off
		}
		return tuple{n64(p, o.off), iface{}}
	})

	// ---- gob
	R("encoding/gob.NewEncoder", func(p *path, g *G, a []value) value {
		f := p.fsm()
		f.gobEnc++
		cell := new(value)
		*cell = p.zero(p.pkgType("encoding/gob", "Encoder"))
		p.side[cell] = &gobEncoder{id: f.gobEnc, w: a[0].(iface), sent: map[string]bool{}}
		return cell
	})
	R("(*encoding/gob.Encoder).Encode", func(p *path, g *G, a []value) value {
		e := p.side[a[0]].(*gobEncoder)
		d := a[1].(iface)
		if d.t == nil {
			p.rtPanic("gob: cannot encode nil")
		}
		t, v, ok := gobBase(d.t, d.v)
		if !ok {
			p.raise(iface{t: rtErrorType, v: "gob: cannot encode nil pointer"}, "panic: gob: cannot encode nil pointer of type "+d.t.String())
		}
		f := p.fsm()
		ts := t.String()
		f.gobs = append(f.gobs, &gobRec{t: t, v: p.gobSnap(v), enc: e.id, def: !e.sent[ts]})
		e.sent[ts] = true
		txt := fmt.Sprintf("%s%06d>", gobPre, len(f.gobs)-1)
		m := p.findMethod(e.w.t, "Write")
		if m == nil {
			p.unsupported("Write of " + e.w.t.String())
		}
		r := p.callValue(g, nil, &closure{fn: m}, []value{e.w.v, p.mkBytes(p.strBytes(txt))}).(tuple)
		return r[1]
	})
	R("encoding/gob.NewDecoder", func(p *path, g *G, a []value) value {
		cell := new(value)
		*cell = p.zero(p.pkgType("encoding/gob", "Decoder"))
		p.side[cell] = &gobDecoder{r: a[0].(iface), defs: map[string]int{}}
		return cell
	})
	R("(*encoding/gob.Decoder).Decode", func(p *path, g *G, a []value) value {
		d := p.side[a[0]].(*gobDecoder)
		bs := make([]*Term, gobLen)
		for i := range bs {
			bs[i] = p.x.BV(0, 8)
		}
		buf := p.mkBytes(bs)
		rf := p.e.prog.ImportedPackage("io").Func("ReadFull")
		r := p.callSSA(g, nil, rf, []value{d.r, buf}, nil).(tuple)
		if e := r[1].(iface); e.t != nil {
			return e
		}
		txt := p.concText(buf)
		if !strings.HasPrefix(txt, gobPre) {
			return p.mkError("gob: corrupted data")
		}
		i, err := strconv.Atoi(txt[len(gobPre) : gobLen-1])
		if err != nil || i >= len(p.fsm().gobs) {
			return p.mkError("gob: corrupted data")
		}
		rec := p.fsm().gobs[i]
		ts := rec.t.String()
		if rec.def {
			if _, dup := d.defs[ts]; dup {
				return p.mkError("gob: duplicate type received")
			}
			d.defs[ts] = rec.enc
		} else if d.defs[ts] == 0 {
			return p.mkError("gob: unknown type id or corrupted data")
		}
		dst := a[1].(iface)
		if dst.t == nil {
			return iface{}
		}
		if _, ok := dst.t.Underlying().(*types.Pointer); !ok {
			return p.mkError("gob: attempt to decode into a non-pointer")
		}
		t, cell := dst.t, dst.v.(*value)
		for {
			pt, ok := t.Underlying().(*types.Pointer)
			if !ok {
				break
			}
			if cell == nil {
				return p.mkError("gob: decode into nil pointer")
			}
			t = pt.Elem()
			if _, more := t.Underlying().(*types.Pointer); more {
				q := (*cell).(*value)
				if q == nil {
					var c value = p.zero(t.Underlying().(*types.Pointer).Elem())
					q = &c
					*cell = q
				}
				cell = q
			}
		}
		if !types.Identical(t.Underlying(), rec.t.Underlying()) {
			p.unsupported("gob decoding into a different type")
		}
		p.gobFill(t, cell, rec.v, true)
		return iface{}
	})

	// ---- flag: the arguments come from the harness
	type fl struct {
		name string
		cell *value
		kind string
	}
	flagsOf := func(p *path) map[string]*fl {
		m, _ := p.side["flags"].(map[string]*fl)
		if m == nil {
			m = map[string]*fl{}
			p.side["flags"] = m
		}
		return m
	}
	for _, k := range []string{"String", "Bool", "Int"} {
		R("flag."+k, func(p *path, g *G, a []value) value {
			c := copyVal(a[1])
			cell := &c
			flagsOf(p)[p.concStr(a[0])] = &fl{p.concStr(a[0]), cell, k}
			return cell
		})
		R("flag."+k+"Var", func(p *path, g *G, a []value) value {
			cell := a[0].(*value)
			*cell = copyVal(a[2])
			flagsOf(p)[p.concStr(a[1])] = &fl{p.concStr(a[1]), cell, k}
			return nil
		})
	}
	R("flag.Parse", func(p *path, g *G, a []value) value {
		args := p.fsm().args[1:]
		for i := 0; i < len(args); i++ {
			s := strings.TrimLeft(args[i], "-")
			if s == args[i] {
				break
			}
			nm, v, has := strings.Cut(s, "=")
			f := flagsOf(p)[nm]
			if f == nil {
				p.raiseExit(g, "unknown flag")
			}
			switch f.kind {
			case "Bool":
				b := true
				if has {
					b, _ = strconv.ParseBool(v)
				}
				*f.cell = p.x.Bool(b)
			default:
				if !has {
					i++
					if i < len(args) {
						v = args[i]
					}
				}
				if f.kind == "Int" {
					n, _ := strconv.Atoi(v)
					*f.cell = n64(p, n)
				} else {
					*f.cell = v
				}
			}
		}
		return nil
	})
	_ = sort.Strings

	// ---- the serial port
	R("github.com/tarm/serial.OpenPort", func(p *path, g *G, a []value) value {
		f := p.fsm()
		if f.serial == nil {
			p.unsupported("serial.OpenPort without a harness port")
		}
		st := (*(a[0].(*value))).(structure)
		r := p.callValue(g, nil, f.serial, []value{st[0], st[1]}).(tuple)
		// *serial.Port stands for whatever the harness gave
		cell := new(value)
		*cell = p.zero(p.pkgType("github.com/tarm/serial", "Port"))
		p.side[cell] = r[0]
		if e := r[1].(iface); e.t != nil {
			return tuple{(*value)(nil), e}
		}
		return tuple{cell, iface{}}
	})
	for _, m := range []string{"Read", "Write", "Close", "Flush"} {
		R("(*github.com/tarm/serial.Port)."+m, func(p *path, g *G, a []value) value {
			i, ok := p.side[a[0]].(iface)
			if !ok {
				p.rtPanic("invalid memory address or nil pointer dereference")
			}
			if m == "Flush" {
				return iface{}
			}
			fn := p.findMethod(i.t, m)
			return p.callValue(g, nil, &closure{fn: fn}, append([]value{i.v}, a[1:]...))
		})
	}
}
