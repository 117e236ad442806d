package main

import "github.com/stampzilla/gozwave/zzverif/sym"

var vLabels = []struct {
	name  string
	class byte
}{
	{"Application Status", 0x22},
	{"Association Group Information", 0x59},
	{"Association", 0x85},
	{"Basic", 0x20},
	{"Binary Switch", 0x25},
	{"Central Scene", 0x5b},
	{"CRC16", 0x56},
	{"Device Reset Locally", 0x5a},
	{"Manufacturer Specific", 0x72},
	{"Meter", 0x32},
	{"Multichannel Association", 0x8e},
	{"Multi Channel", 0x60},
	{"Multilevel Sensor", 0x31},
	{"Multilevel Switch", 0x26},
	{"Notification", 0x71},
	{"Power Level", 0x73},
	{"Security", 0x98},
	{"Version", 0x86},
	{"Z-Wave Plus Info", 0x5e},
}

// vTakes are the labels that the specification text has with a remark.
func vTakes(name string) bool {
	return name != "Basic" && name != "Manufacturer Specific" && name != "Notification" && name != "Power Level"
}

//verif:goal property=C35 reach=plain,remark timeout=200 steps=3000000
//verif:doc every known label, alone or followed by a remark "(vN or newer)", "(version N or newer)" with every digit N, "(*)", "(" any character ")", or " - if CSC": mapped to the class it names
func VerifC35Labels() {
	l := vLabels[sym.Choice("label", len(vLabels))]
	s := l.name
	if vTakes(l.name) {
		sym.Reach("remark")
		v := sym.Str("digit", 1)
		sym.Assume(sym.And('0' <= v[0], v[0] <= '9'))
		switch sym.Choice("remark", 7) {
		case 1:
			s += " (v" + v + " or newer)"
		case 2:
			s += " (version " + v + " or newer)"
		case 3:
			s += " (*)"
		case 4:
			s += " - if CSC"
		case 5:
			s += " (if the device can be reset, refer to [" + v + "])"
		case 6:
			s += " (" + sym.Str("any", 1) + ")"
		}
	} else {
		sym.Reach("plain")
	}
	sym.Assert(StringToByte(s) == l.class, "a label is mapped to the class it names")
}

//verif:goal property=C35 reach=known,unknown timeout=200 thorough.timeout=850 steps=3000000
//verif:doc every text of 0 to 6 (thorough: 8) bytes: mapped to a class only when it contains the label of this class
func VerifC35Unknown() {
	n := sym.Choice("length", sym.Bound("length", 6, 8)+1)
	s := sym.Str("label", n)
	b := StringToByte(s)
	has := false
	for _, l := range vLabels {
		for i := 0; i+len(l.name) <= n; i++ {
			has = sym.Or(has, sym.And(b == l.class, sym.EqStr(s[i:i+len(l.name)], l.name)))
		}
	}
	if b == 0 {
		sym.Reach("unknown")
	} else {
		sym.Reach("known")
	}
	sym.Assert(sym.Or(b == 0, has), "only a known label is mapped to a class")
}

//verif:goal property=C35 reach=done timeout=200 steps=3000000
//verif:doc the labels of classes that the library has no constant for, with any digit behind them: mapped to no class
func VerifC35Others() {
	others := []string{"Screen Meta Data", "Simple AV", "Simple AV Control", "Thermostat Mode", "Thermostat Setback", "Thermostat Set Point", "Door Lock", "User Code", "Entry Control"}
	s := others[sym.Choice("label", len(others))]
	v := sym.Str("digit", 1)
	sym.Assume(sym.And('0' <= v[0], v[0] <= '9'))
	if sym.Choice("remark", 2) == 1 {
		s += " (v" + v + " or newer)"
	}
	sym.Reach("done")
	c := StringToByte(s)
	for _, l := range vLabels {
		sym.Assert(c != l.class, "a label is not mapped to the class of another")
	}
}
