package gozwave

import (
	"os"
	"path/filepath"
	"time"

	"github.com/stampzilla/gozwave/nodes"
	"github.com/stampzilla/gozwave/zzverif/sym"
)

// vUse does everything with every restored node: look up, list, all kinds of reports, all commands, save.
func vUse(c *Controller, port *vPort, save bool) {
	all := c.Nodes.All()
	for id, n := range all {
		sym.Assert(n != nil && n.GetID() == id && c.Nodes.Get(id) == n, "a restored node is listed under its id")
		reports := []([]byte){
			{0x25, 0x03, 0xff},
			{0x26, 0x03, 0x10},
			{0x31, 0x05, 0x01, 0x22, 0x00, 0x64},
			{0x71, 0x05, 0x00, 0x00, 0x00, 0xff, 0x07, 0x03},
			{0x84, 0x07},
			{0x60, 0x08, 0x00, 0x02},
			{0x72, 0x05, 0, 1, 0, 2, 0, 3},
		}
		for _, r := range reports {
			vSend(port, vFrame(append([]byte{0x00, 0x04, 0x00, byte(id), byte(len(r))}, r...)...))
		}
		n.On()
		n.Off()
		n.Level(50)
		for k := -1; k < 4; k++ {
			if e := n.Endpoint(k); e != nil {
				e.On()
				e.Off()
				e.Level(50)
			}
		}
		n.IsDeviceClass(1, 2)
		n.HasCommand(0x25)
		n.RequestStates()
		if id > 0 && id < 256 {
			on, ok := vOn(n)
			sym.Assert(ok && on, "a restored node accepts reports")
		}
	}
	time.Sleep(3 * time.Second)
	sym.Assert(!save || c.SaveConfigurationToFile() == nil, "the restored configuration can be saved")
}

//verif:goal property=C27 reach=nodes,none timed=1 timeout=200 thorough.timeout=850 steps=6000000
//verif:uses util.go c23.go c25.go
//verif:doc a configuration document in which up to one (thorough two) members anywhere are absent, null, empty, of another type or unusual, with up to two nodes: loading restores or fails, and all restored nodes can be used in every way
func VerifC27Shapes() {
	sym.FixMapOrder(true)
	file := filepath.Join(sym.TempDir(), "config.json")
	sym.JSONFile(file, sym.Bound("deviations", 1, 2), "5", "on")
	c, port := vStart(file)
	if len(c.Nodes.All()) > 0 {
		sym.Reach("nodes")
	} else {
		sym.Reach("none")
	}
	vUse(c, port, false)
}

//verif:goal property=C27 reach=nodes,none timed=1 timeout=200 steps=6000000
//verif:uses util.go c23.go c25.go
//verif:doc empty, foreign, truncated and hand-edited files
func VerifC27Files() {
	sym.FixMapOrder(true)
	texts := []string{
		"", " ", "null", "[]", "{}", "5", "\"x\"", "true", "{", "[1,2", "{\"Nodes\"", "\x00\x01",
		`{"Nodes":null}`, `{"Nodes":{}}`, `{"Nodes":[]}`, `{"Nodes":5}`, `{"Nodes":{"5":null}}`, `{"Nodes":{"5":{}}}`, `{"Nodes":{"x":{"id":5}}}`,
		`{"Nodes":{"5":{"id":5,"StateBool":null,"StateFloat":null,"Endpoints":[null],"CommandClasses":[null]}}}`,
		`{"Nodes":{"5":{"id":5,"Endpoints":[{"Id":1}],"CommandClasses":[{"ID":37}]}}}`,
		`{"Nodes":{"5":{"id":5,"Endpoints":[{"Id":1,"CommandClasses":[null]},null,{"Id":1}],"CommandClasses":[null,{"ID":38}]}}}`,
		`{"Nodes":{"5":{"id":5},"6":{"id":5},"7":null}}`,
		`{"Nodes":{"5":{"id":-5},"6":{"id":100000}}}`,
		`{"Nodes":{"5":{"id":"5"}}}`,
		`{"Nodes":{"5":{"id":5,"ManufacurerSpecific":{}}}}`,
		`{"Nodes":{"5":{"id":5,"ManufacurerSpecific":null,"is_awake":null}}}`,
		`{"nodes":{"5":{"ID":5}}}`,
		`{"Other":1}`, `{"Nodes":{"5":{"id":5}}}{"Nodes":null}`, `{"Nodes":{"5":{"id":5}}} trailing`,
		`{"Nodes":{"5":{"id":5}},"Connection":{"Connected":true}}`,
	}
	text := texts[sym.Choice("text", len(texts))]
	file := filepath.Join(sym.TempDir(), "config.json")
	sym.Assert(os.WriteFile(file, []byte(text), 0644) == nil, "the file is written")
	c, port := vStart(file)
	if len(c.Nodes.All()) > 0 {
		sym.Reach("nodes")
	} else {
		sym.Reach("none")
	}
	vUse(c, port, true)
	n := nodes.New(9)
	n.Setup(c.Connection, func(interface{}) {})
	c.Nodes.Add(n)
	sym.Assert(c.SaveConfigurationToFile() == nil, "the configuration can be saved")
	d, _ := vStart(file)
	sym.Assert(len(d.Nodes.All()) == len(c.Nodes.All()) && d.Nodes.Get(9) != nil, "the saved configuration can be loaded")
}
