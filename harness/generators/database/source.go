package main

import (
	"encoding/json"
	"flag"
	"os"
	"path/filepath"
	"strings"

	"github.com/stampzilla/gozwave/zzverif/sym"
)

// A reader of the generated source: tokens, and the composite literals made of them.

type vTok struct {
	kind byte // i: name or number, s: text, otherwise the character itself; ';' also for the end of a line
	text string
}

// vTokens gives the tokens of Go source, with the semicolons that the ends of lines stand for.
func vTokens(s string) (toks []vTok) {
	ends := false // an end of line is a semicolon
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == '\n':
			if ends {
				toks = append(toks, vTok{';', ""})
			}
			ends = false
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case c == '/' && i+1 < len(s) && s[i+1] == '/':
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case c == '"':
			j := i + 1
			for {
				sym.Assert(j < len(s), "a text in the generated source is complete")
				if s[j] == '"' {
					break
				}
				if s[j] == '\\' {
					j++
				}
				j++
			}
			b, ok := vUnquote(s[i+1 : j])
			sym.Assert(ok, "a text in the generated source is one string literal")
			toks = append(toks, vTok{'s', string(b)})
			ends = true
			i = j + 1
		case c == '_' || '0' <= c && c <= '9' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z':
			j := i
			for j < len(s) && (s[j] == '_' || '0' <= s[j] && s[j] <= '9' || 'a' <= s[j] && s[j] <= 'z' || 'A' <= s[j] && s[j] <= 'Z') {
				j++
			}
			toks = append(toks, vTok{'i', s[i:j]})
			ends = true
			i = j
		default:
			toks = append(toks, vTok{c, string(c)})
			ends = c == ')' || c == ']' || c == '}'
			i++
		}
	}
	return append(toks, vTok{kind: ';'}, vTok{kind: ';'}, vTok{kind: ';'}, vTok{kind: ';'}, vTok{kind: ';'}, vTok{kind: ';'})
}

type vVal struct {
	text  string // of a text or number
	names []string
	vals  []*vVal
}

func (v *vVal) field(name string) *vVal {
	var r *vVal
	for i, n := range v.names {
		if n == name {
			sym.Assert(r == nil, "a field is given once")
			r = v.vals[i]
		}
	}
	return r
}

// str is the contents of a field that holds a text or a number; none is what a missing one stands for.
func (v *vVal) str(name, none string) string {
	f := v.field(name)
	if f == nil {
		return none
	}
	return f.text
}

func (v *vVal) list(name string) []*vVal {
	f := v.field(name)
	if f == nil {
		return nil
	}
	return f.vals
}

func vValue(toks []vTok, i int) (*vVal, int) {
	v := &vVal{}
	for toks[i].kind != '{' {
		switch toks[i].kind {
		case 's', 'i', '-':
			v.text += toks[i].text
		case '&', '[', ']', '*', '.':
		default:
			sym.Assert(v.text != "" || toks[i-1].kind == 's', "a value in the generated source is one")
			return v, i
		}
		i++
	}
	v.text = ""
	i++
	for toks[i].kind != '}' {
		name := ""
		if toks[i].kind == 'i' && toks[i+1].kind == ':' {
			name = toks[i].text
			i += 2
		}
		var e *vVal
		e, i = vValue(toks, i)
		v.names = append(v.names, name)
		v.vals = append(v.vals, e)
		if toks[i].kind == ',' {
			i++
			continue
		}
		sym.Assert(toks[i].kind == '}', "the values of a literal are separated by commas")
	}
	return v, i + 1
}

// vSource is what a generated source says: which function makes the device of a key, and the devices.
type vSource struct {
	pkg    string
	keys   []string
	makers []string
	names  []string // functions
	made   []*vVal
}

func vRead(s string) *vSource {
	r := &vSource{}
	t := vTokens(s)
	sym.Assert(len(t) > 8 && t[0].text == "package" && t[1].kind == 'i', "the source begins with the package")
	r.pkg = t[1].text
	for i := 2; i+6 < len(t); i++ {
		switch {
		case t[i].kind == 'i' && t[i].text == "case":
			sym.Assert(t[i+1].kind == 's' && t[i+2].kind == ':', "a case has a key")
			j := i + 3
			for t[j].kind == ';' {
				j++
			}
			sym.Assert(t[j].text == "return" && t[j+1].kind == 'i' && t[j+2].kind == '(' && t[j+3].kind == ')', "a case calls a function")
			r.keys = append(r.keys, t[i+1].text)
			r.makers = append(r.makers, t[j+1].text)
		case t[i].kind == 'i' && t[i].text == "return" && t[i+1].kind == '&':
			k := i // the name of the function
			for t[k].text != "func" {
				k--
			}
			v, j := vValue(t, i+1)
			r.names = append(r.names, t[k+1].text)
			r.made = append(r.made, v)
			sym.Assert(t[j].kind == ';' || t[j].kind == '}', "a function returns one device")
			i = j - 1
		}
	}
	return r
}

// device gives the device of a key.
func (r *vSource) device(key string) *vVal {
	var d *vVal
	n := 0
	for i := range r.keys {
		if r.keys[i] != key {
			continue
		}
		n++
		m := 0
		for j := range r.names {
			if r.names[j] == r.makers[i] {
				m++
				d = r.made[j]
			}
		}
		sym.Assert(m == 1, "the function of a case exists once")
	}
	sym.Assert(n == 1, "a reference has one case")
	return d
}

type vClass struct {
	ID        string `json:"id"`
	Name      string `json:"name"`
	Version   string `json:"version"`
	Nif       bool   `json:"nif"`
	Secure    bool   `json:"secure"`
	NonSecure bool   `json:"nonsecure"`
}

type vEndpoint struct {
	CommandClasses []vClass `json:"commandclasses"`
}

type vOption struct {
	Value int    `json:"value"`
	Label string `json:"label"`
}

type vParam struct {
	ID       int       `json:"id"`
	Label    string    `json:"label"`
	Size     int       `json:"size"`
	ValueMin int       `json:"value_min"`
	ValueMax int       `json:"value_max"`
	Options  []vOption `json:"options"`
}

type vDevice struct {
	Label      string      `json:"label"`
	Brand      string      `json:"manufacturer_name"`
	ID         string      `json:"manufacturer_id"`
	Refs       []string    `json:"device_ref"`
	Decription string      `json:"decription"`
	Endpoints  []vEndpoint `json:"endpoints"`
	Parameters []vParam    `json:"parameters"`
}

// vGenerate runs the generator on device files and gives what it writes.
func vGenerate(pkg string, devs ...vDevice) *vSource {
	dir := filepath.Join(sym.TempDir(), "json")
	sym.Assert(os.MkdirAll(dir, 0755) == nil, "the directory is made")
	put := func(name string, b []byte) {
		f, err := os.Create(filepath.Join(dir, name))
		sym.Assert(err == nil, "the file is made")
		f.Write(b)
		f.Close()
	}
	for i := range devs {
		b, err := json.Marshal(&devs[i])
		sym.Assert(err == nil, "the device is written")
		put("device"+string(rune('0'+i))+".json", b)
	}
	put("README.txt", []byte("not a device"))
	if !sym.Symbolic() {
		flag.CommandLine = flag.NewFlagSet("prog", flag.ContinueOnError)
	}
	out := filepath.Join(sym.TempDir(), "devices.go")
	sym.SetArgs("-file="+out, "-databasedir="+dir, "-package="+pkg)
	main()
	b, err := os.ReadFile(out)
	sym.Assert(err == nil, "the source is written")
	r := vRead(string(b))
	sym.Assert(r.pkg == pkg, "the source is of the package asked for")
	sym.Assert(len(r.names) == len(r.keys), "every function has a case")
	return r
}

func vLower(s string) string { return strings.ToLower(s) }

func vNum(n int) string {
	if n < 0 {
		return "-" + vNum(-n)
	}
	if n < 10 {
		return string(rune('0' + n))
	}
	return vNum(n/10) + string(rune('0'+n%10))
}

// vCheck compares a generated device with the data it was made from.
func vCheck(v *vVal, d *vDevice, typ, id string) {
	sym.Assert(v.str("ManufacturerID", "") == d.ID && v.str("ProductType", "") == typ && v.str("ProductID", "") == id, "the device has its ids")
	sym.Assert(sym.EqStr(v.str("Brand", ""), d.Brand), "the device has its brand")
	sym.Assert(sym.EqStr(v.str("Product", ""), d.Label), "the device has its label")
	sym.Assert(sym.EqStr(v.str("Description", ""), d.Decription), "the device has its description")
	var cc []vClass
	if len(d.Endpoints) > 0 {
		cc = d.Endpoints[0].CommandClasses
	}
	got := v.list("CommandClasses")
	sym.Assert(len(got) == len(cc), "the device has its command classes")
	for i, c := range cc {
		g := got[i]
		flag := func(b bool) string {
			if b {
				return "true"
			}
			return "false"
		}
		sym.Assert(g.str("ID", "") == "0x"+c.ID, "a class has its id")
		sym.Assert(g.str("InNIF", "false") == flag(c.Nif) && g.str("Secure", "false") == flag(c.Secure) && g.str("NonSecure", "false") == flag(c.NonSecure), "a class has its flags")
		sym.Assert(g.str("Version", "") == c.Version, "a class has its version")
	}
	params := v.list("Parameters")
	sym.Assert(len(params) == len(d.Parameters), "the device has its parameters")
	for i, p := range d.Parameters {
		g := params[i]
		sym.Assert(g.str("ID", "0") == vNum(p.ID) && g.str("Size", "0") == vNum(p.Size), "a parameter has its id and size")
		sym.Assert(sym.EqStr(g.str("Name", ""), p.Label), "a parameter has its label")
		vals := g.list("Values")
		if len(p.Options) == 0 {
			sym.Assert(len(vals) == 1 && vals[0].str("From", "0") == vNum(p.ValueMin) && vals[0].str("To", "0") == vNum(p.ValueMax), "a parameter without options has its range")
			continue
		}
		sym.Assert(len(vals) == len(p.Options), "a parameter has its options")
		for k, o := range p.Options {
			sym.Assert(vals[k].str("From", "0") == vNum(o.Value) && vals[k].str("To", "0") == vNum(o.Value), "an option has its value")
			sym.Assert(sym.EqStr(vals[k].str("Desc", ""), o.Label), "an option has its label")
		}
	}
}
