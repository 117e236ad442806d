package main

import (
	"unicode/utf8"

	"github.com/stampzilla/gozwave/zzverif/sym"
)

//verif:goal property=C35 reach=done timeout=200 thorough.timeout=850 steps=6000000
//verif:uses c35.go source.go
//verif:doc the generator run on a device file in which one text (brand, label, description, label of a parameter or of an option) is any UTF-8 of 0 to 2 (thorough: 3) bytes without NUL and the others have quotes, backslashes and line ends: the generated source has the device with these texts
func VerifC35Texts() {
	text := func(place int, s string) string { return s }
	which := sym.Choice("place", 5)
	n := sym.Choice("length", sym.Bound("length", 3, 4))
	any := sym.Str("text", n)
	for i := 0; i < n; i++ {
		sym.Assume(any[i] != 0)
	}
	sym.Assume(utf8.ValidString(any))
	text = func(place int, s string) string {
		if place == which {
			return any
		}
		return s
	}
	d := vDevice{ID: "0086", Refs: []string{"0002:0064"}, Brand: text(0, "A \"brand\""), Label: text(1, "back\\slash"), Decription: text(2, "two\r\nlines"),
		Parameters: []vParam{{ID: 1, Label: text(3, "a\tb"), Size: 1, Options: []vOption{{1, text(4, "\"")}, {2, ""}}}}}
	r := vGenerate("database", d)
	sym.Assert(len(r.keys) == 1, "one reference, one case")
	vCheck(r.device("0086_0002_0064"), &d, "0002", "0064")
	sym.Reach("done")
}

//verif:goal property=C35 reach=twice,once,none timeout=200 steps=6000000
//verif:uses c35.go source.go
//verif:doc the generator run on two device files of the same or another manufacturer, each with none, one or two product references, ids in upper or lower case, the same reference (in the same or another case) in one file or in both: one case and one device for each reference, the first one given
func VerifC35References() {
	pool := []string{"0002:0064", "0002:00AB", "0002:00ab", "00ab:0002"}
	devs := []vDevice{{ID: "0086", Brand: "first"}, {ID: []string{"0086", "01AF"}[sym.Choice("manufacturer", 2)], Brand: "second"}}
	for i := range devs {
		devs[i].Label = "label " + devs[i].Brand
		for k := sym.Choice("references", 3); k > 0; k-- {
			devs[i].Refs = append(devs[i].Refs, pool[sym.Choice("reference", len(pool))])
		}
	}
	pkg := "database"
	if devs[1].ID != devs[0].ID {
		pkg = "other"
	}
	r := vGenerate(pkg, devs...)
	type ref struct {
		key, typ, id string
		dev          *vDevice
	}
	var want []ref
	twice := false
	for i := range devs {
		for _, s := range devs[i].Refs {
			w := ref{vLower(devs[i].ID + "_" + s[:4] + "_" + s[5:]), s[:4], s[5:], &devs[i]}
			dup := false
			for _, o := range want {
				dup = dup || o.key == w.key
			}
			if twice = twice || dup; !dup {
				want = append(want, w)
			}
		}
	}
	switch {
	case twice:
		sym.Reach("twice")
	case len(want) > 0:
		sym.Reach("once")
	default:
		sym.Reach("none")
	}
	sym.Assert(len(r.keys) == len(want), "a case for every reference")
	for _, w := range want {
		vCheck(r.device(w.key), w.dev, w.typ, w.id)
	}
}

//verif:goal property=C35 reach=done timeout=200 steps=6000000
//verif:uses c35.go source.go
//verif:doc the generator run on a device file with up to two end points, up to two command classes with any flags and with or without a version, and a parameter with up to two options or a range: the generated device has them all, the classes being those of the first end point
func VerifC35Contents() {
	d := vDevice{ID: "0086", Refs: []string{"0002:0064"}, Brand: "brand", Label: "label"}
	nums := []int{0, 1, -1, 127, -32768, 2147483647}
	class := func(id string) vClass {
		return vClass{ID: id, Name: "COMMAND_CLASS", Version: []string{"", "4"}[sym.Choice("version", 2)], Nif: sym.Bool("nif"), Secure: sym.Bool("secure"), NonSecure: sym.Bool("nonsecure")}
	}
	if sym.Choice("part", 2) == 0 {
		for i := sym.Choice("end points", 3); i > 0; i-- {
			d.Endpoints = append(d.Endpoints, vEndpoint{})
		}
		if len(d.Endpoints) > 0 {
			switch sym.Choice("classes", 3) {
			case 1:
				d.Endpoints[0].CommandClasses = []vClass{class("5E")}
			case 2:
				d.Endpoints[0].CommandClasses = []vClass{class("25"), {ID: "70", Nif: true}}
			}
		}
		if len(d.Endpoints) > 1 {
			d.Endpoints[1].CommandClasses = []vClass{{ID: "31", Secure: true}}
		}
	} else {
		p := vParam{ID: 1 + sym.Choice("id", 2)*254, Label: "x", Size: 1 << uint(sym.Choice("size", 3)), ValueMin: 3, ValueMax: 7}
		if k := sym.Choice("options", 3); k == 0 {
			p.ValueMin, p.ValueMax = nums[sym.Choice("min", len(nums))], nums[sym.Choice("max", len(nums))]
		} else {
			for i := k; i > 0; i-- {
				p.Options = append(p.Options, vOption{nums[sym.Choice("value", len(nums))], "option " + vNum(i)})
			}
		}
		d.Parameters = []vParam{p}
		if sym.Choice("parameters", 2) == 1 {
			d.Parameters = append(d.Parameters, vParam{ID: 9, Label: "y", Size: 4, ValueMax: 3})
		}
	}
	r := vGenerate("database", d)
	sym.Assert(len(r.keys) == 1, "one reference, one case")
	vCheck(r.device("0086_0002_0064"), &d, "0002", "0064")
	sym.Reach("done")
}
