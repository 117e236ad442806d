package main

import (
	"encoding/gob"
	"flag"
	"os"
	"path/filepath"
	"time"

	"github.com/stampzilla/gozwave/serialrecorder"
	"github.com/stampzilla/gozwave/zzverif/sym"
)

func vHexDigit(n byte) byte { return sym.IteByte(n < 10, '0'+n, 'a'+n-10) }

func vHex(data []byte) string {
	b := make([]byte, 0, 2*len(data))
	for _, x := range data {
		b = append(b, vHexDigit(x>>4), vHexDigit(x&15))
	}
	return string(b)
}

// vRun gives what the command prints for a recording.
func vRun(rows []serialrecorder.Row, args ...string) string {
	name := filepath.Join(sym.TempDir(), "recording")
	f, err := os.Create(name)
	sym.Assert(err == nil, "the recording is created")
	enc := gob.NewEncoder(f)
	for i := range rows {
		sym.Assert(enc.Encode(&rows[i]) == nil, "the recording is written")
	}
	f.Close()
	if !sym.Symbolic() {
		flag.CommandLine = flag.NewFlagSet("prog", flag.ContinueOnError)
	}
	sym.SetArgs(append([]string{"-file=" + name}, args...)...)
	return sym.Capture(main)
}

// vGroups are the expected lines of one direction.
func vGroups(rows []serialrecorder.Row, d serialrecorder.Direction) []string {
	lines, _ := vGroupsAt(rows, d)
	return lines
}

// vGroupsAt gives also the times of the first and last row of each line.
func vGroupsAt(rows []serialrecorder.Row, d serialrecorder.Direction) (lines []string, at [][2]time.Time) {
	var data []byte
	var first, last time.Time
	any := false
	for _, r := range rows {
		if r.Direction != d {
			continue
		}
		if any && r.Timestamp.Sub(last) >= time.Millisecond {
			lines = append(lines, vHex(data))
			at = append(at, [2]time.Time{first, last})
			data = nil
		}
		if len(data) == 0 {
			first = r.Timestamp
		}
		data = append(data, r.Data...)
		last, any = r.Timestamp, true
	}
	if any {
		lines = append(lines, vHex(data))
		at = append(at, [2]time.Time{first, last})
	}
	return
}

func vRows(k int) []serialrecorder.Row {
	gaps := []time.Duration{0, 999999, 1000000, 5 * time.Millisecond}
	at := time.Unix(1500000000, 0)
	var rows []serialrecorder.Row
	for i := 0; i < k; i++ {
		if i > 0 {
			at = at.Add(gaps[sym.Choice("gap", len(gaps))])
		}
		d := serialrecorder.DirectionRead
		if sym.Bool("write") {
			d = serialrecorder.DirectionWrite
		}
		data := sym.Bytes("data", 1+i%2)
		rows = append(rows, serialrecorder.Row{Timestamp: at, Direction: d, Data: data})
	}
	return rows
}

func vLines(out string) []string {
	var lines []string
	start := 0
	for i := 0; i < len(out); i++ {
		if out[i] == '\n' {
			lines = append(lines, out[start:i])
			start = i + 1
		}
	}
	sym.Assert(start == len(out), "every line is complete")
	return lines
}

// vAfter gives the text after the first occurrence of a mark.
func vAfter(l, mark string) (string, bool) {
	for i := 0; i+len(mark) <= len(l); i++ {
		if l[i:i+len(mark)] == mark {
			return l[i+len(mark):], true
		}
	}
	return "", false
}

//verif:goal property=C30 reach=none,reads,writes timeout=200 thorough.timeout=800 steps=3000000
//verif:doc recordings of up to four (thorough five) rows of arbitrary bytes in both directions, 0, just under one, one or five milliseconds apart; only reads or only writes printed in the short form: the lines are the joined rows of that direction, none is missing
func VerifC30Short() {
	rows := vRows(sym.Choice("rows", sym.Bound("rows", 5, 6)))
	var out []string
	d := serialrecorder.DirectionRead
	if sym.Bool("print writes") {
		d = serialrecorder.DirectionWrite
		out = vLines(vRun(rows, "-short", "-read=false"))
		sym.Reach("writes")
	} else {
		out = vLines(vRun(rows, "-short", "-write=false"))
		sym.Reach("reads")
	}
	want := vGroups(rows, d)
	if len(want) == 0 {
		sym.Reach("none")
	}
	sym.Assert(len(out) == len(want), "one line for each group of rows")
	for i := range want {
		sym.Assert(sym.EqStr(out[i], want[i]), "a line has the bytes of its rows")
	}
}

//verif:goal property=C30 reach=both timeout=200 thorough.timeout=800 steps=3000000
//verif:doc the same recordings of up to three (thorough four) rows in the long form with both directions: the lines of each direction are its joined rows in order, and the lines of both are in the order of time
func VerifC30Long() {
	rows := vRows(1 + sym.Choice("rows", sym.Bound("rows", 3, 4)))
	out := vLines(vRun(rows))
	var reads, writes []string
	r, readAt := vGroupsAt(rows, serialrecorder.DirectionRead)
	w, writeAt := vGroupsAt(rows, serialrecorder.DirectionWrite)
	sym.Assert(len(out) == len(r)+len(w), "one line for each group of rows")
	var at [][2]time.Time
	for _, l := range out {
		if t, ok := vAfter(l, ": read - "); ok {
			sym.Assert(len(reads) < len(r), "one line for each group of rows")
			at = append(at, readAt[len(reads)])
			reads = append(reads, t)
		} else if t, ok := vAfter(l, ": write - "); ok {
			sym.Assert(len(writes) < len(w), "one line for each group of rows")
			at = append(at, writeAt[len(writes)])
			writes = append(writes, t)
		} else {
			sym.Assert(false, "a line names its direction")
		}
	}
	sym.Reach("both")
	for i := range at {
		for k := i + 1; k < len(at); k++ {
			sym.Assert(!at[k][1].Before(at[i][0]), "a line is printed before the lines that come after it")
		}
	}
	for i := range r {
		sym.Assert(sym.EqStr(reads[i], r[i]), "a line has the bytes of its rows")
	}
	for i := range w {
		sym.Assert(sym.EqStr(writes[i], w[i]), "a line has the bytes of its rows")
	}
}

//verif:goal property=C30 reach=joined,apart timeout=200 steps=3000000
//verif:doc recordings of three rows (the second one also without bytes) in arbitrary directions, every pause of 0 to 10 milliseconds to the nanosecond: rows of a direction are joined exactly when less than a millisecond lies between them
func VerifC30Gaps() {
	at := time.Unix(1500000000, 0)
	var rows []serialrecorder.Row
	for i := 0; i < 3; i++ {
		if i > 0 {
			gap := sym.I64("gap")
			sym.Assume(sym.And(gap >= 0, gap <= int64(10*time.Millisecond)))
			at = at.Add(time.Duration(gap))
		}
		d := serialrecorder.DirectionRead
		if sym.Bool("write") {
			d = serialrecorder.DirectionWrite
		}
		n := 1
		if i == 1 && sym.Bool("empty") {
			n = 0
		}
		rows = append(rows, serialrecorder.Row{Timestamp: at, Direction: d, Data: sym.Bytes("data", n)})
	}
	out := vLines(vRun(rows, "-short", "-write=false"))
	want := vGroups(rows, serialrecorder.DirectionRead)
	sym.Assert(len(out) == len(want), "one line for each group of rows")
	for i := range want {
		sym.Assert(sym.EqStr(out[i], want[i]), "a line has the bytes of its rows")
	}
	if len(out) == 1 {
		sym.Reach("joined")
	} else if len(out) > 1 {
		sym.Reach("apart")
	}
}
