package database

import (
	"github.com/stampzilla/gozwave/zzverif/sym"
)

// vHex is the text a node report has for a number, and the text the database has for it.
func vHex(v uint16) (lower, upper string) {
	l, u := make([]byte, 4), make([]byte, 4)
	for i := 0; i < 4; i++ {
		n := byte(v>>uint(12-4*i)) & 15
		l[i] = sym.IteByte(n < 10, '0'+n, 'a'+n-10)
		u[i] = sym.IteByte(n < 10, '0'+n, 'A'+n-10)
	}
	return string(l), string(u)
}

//verif:goal property=C28 reach=found,nothing timeout=300 thorough.timeout=850 steps=3000000
//verif:doc all 2^48 triples of manufacturer, type and product: the device found has exactly these ids, and a second lookup gives another, equal device
func VerifC28Lookup() {
	m, um := vHex(sym.U16("manufacturer"))
	t, ut := vHex(sym.U16("type"))
	i, ui := vHex(sym.U16("product"))
	d := New(m, t, i)
	if d == nil {
		sym.Reach("nothing")
		return
	}
	sym.Reach("found")
	sym.Assert(sym.EqStr(d.ManufacturerID, um) && sym.EqStr(d.ProductType, ut) && sym.EqStr(d.ProductID, ui), "the device has the ids asked for")
	vFresh(d, New(m, t, i))
}

// vFresh asserts that b is equal to a and shares nothing with it; it destroys a.
func vFresh(a, b *Device) {
	sym.Assert(b != nil && a != b, "every lookup makes a new device")
	sym.Assert(a.Brand == b.Brand && a.Product == b.Product && a.Description == b.Description, "every lookup makes an equal device")
	sym.Assert(len(a.CommandClasses) == len(b.CommandClasses) && len(a.Parameters) == len(b.Parameters), "every lookup makes an equal device")
	for i := range a.CommandClasses {
		x, y := a.CommandClasses[i], b.CommandClasses[i]
		sym.Assert(x != nil && y != nil && x != y, "devices share no command class")
		sym.Assert(*x == *y, "every lookup makes an equal device")
	}
	for i := range a.Parameters {
		x, y := a.Parameters[i], b.Parameters[i]
		sym.Assert(x != nil && y != nil && x != y, "devices share no parameter")
		sym.Assert(x.ID == y.ID && x.Name == y.Name && len(x.Values) == len(y.Values), "every lookup makes an equal device")
	}
	if len(a.CommandClasses) > 0 {
		old := b.CommandClasses[0]
		a.CommandClasses[0] = nil
		sym.Assert(b.CommandClasses[0] == old, "devices share no list")
	}
}

//verif:goal property=C28 reach=found native=0 timeout=300 steps=3000000
//verif:doc every function that makes a device: the device is found under the ids recorded in it, with the same contents
func VerifC28Every() {
	var all []func() *Device
	sym.Funcs(&all)
	sym.Assert(len(all) > 500, "the database has devices")
	d := all[sym.Choice("device", len(all))]()
	sym.Assert(d != nil, "a device is made")
	e := New(vLower(d.ManufacturerID), vLower(d.ProductType), vLower(d.ProductID))
	sym.Assert(e != nil, "every device is found under its own ids")
	sym.Reach("found")
	vFresh(d, e)
}

func vLower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if 'A' <= c && c <= 'Z' {
			b[i] = c + 'a' - 'A'
		}
	}
	return string(b)
}

//verif:goal property=C28 reach=other timeout=100 steps=3000000
//verif:doc ids of other lengths (0 to 6 arbitrary characters in total): nothing is found
func VerifC28Other() {
	d := New(sym.Str("manufacturer", sym.Choice("a", 3)), sym.Str("type", sym.Choice("b", 3)), sym.Str("product", sym.Choice("c", 3)))
	sym.Reach("other")
	sym.Assert(d == nil, "an incomplete id finds nothing")
}

//verif:goal property=C28 reach=recorded,unrecorded timeout=200 steps=3000000
//verif:doc all 2^16 pairs of generic and specific device class: the classes of exactly this pair, the same on every call, or none
func VerifC28Mandatory() {
	sym.FixMapOrder(true)
	g, s := sym.Byte("generic"), sym.Byte("specific")
	r := GetMandatoryCommandClasses(g, s)
	var want []*CommandClass
	known := false
	for k, v := range definitions {
		if sym.And(k.Generic == g, k.Specific == s) {
			want, known = v, true
		}
	}
	if known {
		sym.Reach("recorded")
	} else {
		sym.Reach("unrecorded")
	}
	sym.Assert(len(r) == len(want), "the classes of exactly this pair")
	for i := range r {
		sym.Assert(r[i] != nil && *r[i] == *want[i], "the classes of exactly this pair")
	}
}
