package main

import (
	"flag"
	"os"
	"path/filepath"

	"github.com/stampzilla/gozwave/zzverif/sym"
)

// vDefinition is an entry of the generated table.
type vDefinition struct {
	generic, specific string
	classes           []string
}

// vWords gives the words and the punctuation of the generated source.
func vWords(s string) (w []string) {
	for i := 0; i < len(s); {
		c := s[i]
		j := i
		for j < len(s) && (s[j] == '_' || '0' <= s[j] && s[j] <= '9' || 'a' <= s[j] && s[j] <= 'z' || 'A' <= s[j] && s[j] <= 'Z') {
			j++
		}
		switch {
		case j > i:
			w = append(w, s[i:j])
			i = j
			continue
		case c == '"':
			for j = i + 1; s[j] != '"'; j++ {
			}
			w = append(w, s[i:j+1])
			i = j
		case c != ' ' && c != '\t' && c != '\n':
			w = append(w, string(c))
		}
		i++
	}
	return append(w, "", "", "", "", "", "")
}

// vTable reads the table of a generated source: a sequence of
// [Definition] {Generic: protocol.X, Specific: protocol.Y}: [[]*CommandClass] {[&CommandClass] {ID: 0x12}, ...},
func vTable(src, pkg string) (defs []vDefinition) {
	w := vWords(src)
	sym.Assert(w[0] == "package" && w[1] == pkg, "the source is of the package asked for")
	i := 2
	for w[i] != "" && !(w[i] == "definitions" && w[i-1] == "var") {
		i++
	}
	for w[i] != "{" {
		sym.Assert(w[i] != "", "the source has the table")
		i++
	}
	i++
	expect := func(s string) {
		sym.Assert(w[i] == s, "the table is a literal")
		i++
	}
	optional := func(words ...string) {
		for k, s := range words {
			if w[i+k] != s {
				return
			}
		}
		i += len(words)
	}
	for w[i] != "}" {
		d := vDefinition{}
		optional("Definition")
		expect("{")
		for w[i] != "}" {
			name := w[i]
			i++
			expect(":")
			expect("protocol")
			expect(".")
			switch name {
			case "Generic":
				d.generic = w[i]
			case "Specific":
				d.specific = w[i]
			default:
				sym.Assert(false, "a device class is given by its generic and specific class")
			}
			i++
			if w[i] != "}" {
				expect(",")
			}
		}
		i++
		expect(":")
		optional("[", "]", "*", "CommandClass")
		expect("{")
		for w[i] != "}" {
			optional("&", "CommandClass")
			expect("{")
			expect("ID")
			expect(":")
			d.classes = append(d.classes, w[i])
			i++
			optional(",")
			expect("}")
			if w[i] != "}" {
				expect(",")
			}
		}
		i++
		if w[i] != "}" {
			expect(",")
		}
		defs = append(defs, d)
	}
	return defs
}

//verif:goal property=C35 reach=none,one,several timeout=200 steps=6000000
//verif:doc the generator run on specification texts of up to two device types with one or two device classes (one of them one that is left out) and up to two lines of command classes each (with remarks, unknown, commented out or optional), with blank lines between and with or without one at the end: the generated table has the classes of every device class, in this order
func VerifC35Mandatory() {
	sym.FixMapOrder(true)
	names := []string{
		"Central Controller - GENERIC_TYPE_STATIC_CONTROLLER - SPECIFIC_TYPE_PC_CONTROLLER",
		"Display-Simple - GENERIC_TYPE_DISPLAY - SPECIFIC_TYPE_SIMPLE_DISPLAY",
		"AV - GENERIC_TYPE_AV_CONTROL_POINT - SPECIFIC_TYPE_NOT_USED",
		"Siren - GENERIC_TYPE_SENSOR_NOTIFICATION - SPECIFIC_TYPE_SIREN",
		"Door - Gate - GENERIC_TYPE_ENTRY_CONTROL - SPECIFIC_TYPE_SECURE_GATE",
	}
	types := [][2]string{{"GENERIC_TYPE_STATIC_CONTROLLER", "SPECIFIC_TYPE_PC_CONTROLLER"}, {"GENERIC_TYPE_DISPLAY", "SPECIFIC_TYPE_SIMPLE_DISPLAY"}, {"GENERIC_TYPE_SENSOR_NOTIFICATION", "SPECIFIC_TYPE_SIREN"}, {"GENERIC_TYPE_ENTRY_CONTROL", "SPECIFIC_TYPE_SECURE_GATE"}}
	lines := []string{"- Z-Wave Plus Info", "-Association (version 2 or newer)", "- CRC16 ", "//- Basic", "- Simple AV Control", "+ Security"}
	class := []string{"0x5e", "0x85", "0x56", "", "", ""}
	text := ""
	var want []vDefinition
	blocks := sym.Choice("device types", 3)
	for b := 0; b < blocks; b++ {
		text += "Type\n"
		var cc []string
		first := len(want)
		k := b // a device class is described once
		switch sym.Choice("device classes", 4) {
		case 0:
			k = 2
		case 1:
			text += "#" + names[2] + "\n"
		case 3:
			text += "# " + names[3+b] + "\n"
			want = append(want, vDefinition{generic: types[2+b][0], specific: types[2+b][1]})
		}
		if k < 2 {
			want = append(want, vDefinition{generic: types[k][0], specific: types[k][1]})
		}
		text += "# " + names[k] + "\n"
		for i := sym.Choice("lines", 3-b); i > 0; i-- {
			l := sym.Choice("line", len(lines))
			text += lines[l] + "\n"
			if class[l] != "" {
				cc = append(cc, class[l])
			}
		}
		for i := first; i < len(want); i++ {
			want[i].classes = cc
		}
		if b < blocks-1 || sym.Choice("blank line at the end", 2) == 0 {
			text += []string{"\n", " \n\n"}[b]
		}
	}
	dir := sym.TempDir()
	spec := filepath.Join(dir, "mandatory.txt")
	f, err := os.Create(spec)
	sym.Assert(err == nil, "the text is made")
	f.Write([]byte(text))
	f.Close()
	if !sym.Symbolic() {
		flag.CommandLine = flag.NewFlagSet("prog", flag.ContinueOnError)
	}
	out := filepath.Join(dir, "mandatory.go")
	sym.SetArgs("-file="+out, "-mandatoryfile="+spec, "-package=database")
	main()
	src, err := os.ReadFile(out)
	sym.Assert(err == nil, "the source is written")
	got := vTable(string(src), "database")
	sym.Reach([]string{"none", "one", "several", "several", "several"}[len(want)])
	sym.Assert(len(got) == len(want), "the table has the device classes of the text")
	for _, w := range want {
		n := 0
		for _, g := range got {
			if g.generic != w.generic || g.specific != w.specific {
				continue
			}
			n++
			sym.Assert(len(g.classes) == len(w.classes), "a device class has its command classes")
			for i := range w.classes {
				sym.Assert(g.classes[i] == w.classes[i], "a device class has its command classes")
			}
		}
		sym.Assert(n == 1, "a device class is in the table once")
	}
}
