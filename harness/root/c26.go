package gozwave

import (
	"io/ioutil"
	"os"
	"path/filepath"

	"github.com/stampzilla/gozwave/nodes"
	"github.com/stampzilla/gozwave/zzverif/sym"
)

// vState gives the level that a new controller restores for node 5: -1 without a file or node, -2 if there is a file that cannot be loaded.
func vState(file string) int {
	d := NewController()
	d.filename = file
	err := d.LoadConfigurationFromFile()
	n := d.Nodes.Get(5)
	if n == nil {
		if err == nil {
			return -2
		}
		return -1
	}
	sym.Assert(err == nil, "the file is complete")
	sym.Assert(len(d.Nodes.All()) == 2 && d.Nodes.Get(6) != nil && len(d.Nodes.Get(6).Endpoints) == 1, "all nodes are in the file")
	return int(n.StateFloat["level"])
}

func vSaver(file string) (*Controller, *nodes.Node) {
	c := NewController()
	c.filename = file
	n, o := nodes.New(5), nodes.New(6)
	o.Endpoints = []*nodes.Endpoint{{Id: 1}}
	c.Nodes.Add(n)
	c.Nodes.Add(o)
	return c, n
}

//verif:goal property=C26 reach=crashed,completed,first timeout=200 thorough.timeout=800 steps=6000000
//verif:uses util.go
//verif:doc one, two or three saves, each killed (with or without loss of data that was not synchronised) at any file operation or in the middle of a write, or completed, the first one the longest: what a new process loads is the last completed configuration or the one being saved
func VerifC26Crash() {
	sym.FixMapOrder(true)
	file := filepath.Join(sym.TempDir(), "config.json")
	prev := -1
	k := 1 + sym.Choice("saves", sym.Bound("saves", 2, 3))
	for i := 1; i <= k; i++ {
		c, n := vSaver(file)
		if prev >= 0 {
			sym.Assert(c.LoadConfigurationFromFile() == nil, "the configuration can be loaded")
			n = c.Nodes.Get(5)
		}
		n.StateFloat["level"] = float64(i)
		n.Description = []string{"", "longer than later ones, so that something can be left of it", "short", "x"}[i]
		var err error
		crashed := sym.Crash(func() { err = c.SaveConfigurationToFile() })
		got := vState(file)
		if crashed {
			sym.Reach("crashed")
			sym.Assert(got == prev || got == i, "after a crash the file is the previous or the new configuration")
			if prev < 0 {
				sym.Reach("first")
			}
		} else {
			sym.Reach("completed")
			sym.Assert(err == nil, "a save without failures succeeds")
			sym.Assert(got == i, "after a completed save the file is the new configuration")
			fresh := filepath.Join(sym.TempDir(), "fresh.json")
			os.Remove(fresh)
			c.filename = fresh
			sym.Assert(c.SaveConfigurationToFile() == nil, "a save without failures succeeds")
			a, aerr := ioutil.ReadFile(file)
			b, berr := ioutil.ReadFile(fresh)
			sym.Assert(aerr == nil && berr == nil && string(a) == string(b), "nothing else is left in the file")
		}
		prev = got
	}
}

//verif:goal property=C26 reach=failed,completed timeout=200 thorough.timeout=800 steps=6000000
//verif:uses util.go
//verif:doc a save with up to two (thorough three) I/O errors at any file operations, also short writes, with and without a previous file: it is reported and leaves the previous file, or it succeeds; the next save without errors succeeds
func VerifC26Faults() {
	sym.FixMapOrder(true)
	file := filepath.Join(sym.TempDir(), "config.json")
	c, n := vSaver(file)
	prev := -1
	if sym.Bool("previous file") {
		n.StateFloat["level"] = 50
		sym.Assert(c.SaveConfigurationToFile() == nil, "a save without failures succeeds")
		prev = 50
	}
	n.StateFloat["level"] = 70
	sym.Faults(sym.Bound("faults", 2, 3))
	err := c.SaveConfigurationToFile()
	sym.Faults(0)
	got := vState(file)
	if err != nil {
		sym.Reach("failed")
		sym.Assert(got == prev, "a failed save leaves the previous file")
	} else {
		sym.Reach("completed")
		sym.Assert(got == 70, "a save that reports no failure has written the new configuration")
	}
	sym.Assert(c.SaveConfigurationToFile() == nil, "the next save succeeds")
	sym.Assert(vState(file) == 70, "the next save writes the configuration")
}

//verif:goal property=C26 reach=refused timeout=60
//verif:uses util.go
//verif:doc a state that cannot be encoded (not a number, infinite): the failure is reported and the previous file stays
func VerifC26Encode() {
	file := filepath.Join(sym.TempDir(), "config.json")
	c, n := vSaver(file)
	n.StateFloat["level"] = 50
	sym.Assert(c.SaveConfigurationToFile() == nil, "a save without failures succeeds")
	v := sym.F64("value")
	n.StateFloat["level"] = v
	sym.Assume(v-v != 0)
	err := c.SaveConfigurationToFile()
	sym.Reach("refused")
	sym.Assert(err != nil, "a configuration that cannot be encoded is reported")
	sym.Assert(vState(file) == 50, "a failed save leaves the previous file")
}

//verif:goal property=C26 reach=end timeout=200 delays=2 thorough.delays=4 thorough.timeout=800 steps=3000000
//verif:uses util.go
//verif:doc two saves at the same time with a change between them, for every schedule within the delay bound: the file is complete and the last state is in it
func VerifC26Together() {
	sym.FixMapOrder(true)
	file := filepath.Join(sym.TempDir(), "config.json")
	c, n := vSaver(file)
	n.StateFloat["level"] = 1
	done := make(chan error, 2)
	go func() { done <- c.SaveConfigurationToFile() }()
	go func() {
		n.Lock()
		n.StateFloat["level"] = 2
		n.Unlock()
		done <- c.SaveConfigurationToFile()
	}()
	a, b := <-done, <-done
	sym.Assert(a == nil && b == nil, "both saves succeed")
	sym.Assert(vState(file) == 2, "the last state is in the file")
	sym.Reach("end")
}
