// Package sym is the harness interface. Under the symbolic engine its functions are intercepted;
// compiled natively they replay the recorded values of one counterexample or witness.
package sym

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"sync"
	"testing/synctest"
)

type record struct {
	Inputs map[string][]uint64
	Texts  map[string]string
	Tier   string
	Timed  bool
}

var (
	mu    sync.Mutex
	rec   record
	count map[string]int
	tmp   string

	Failed  []string
	Reached []string
	skipped bool
)

type assumeFailed struct{}

func load(r record, dir string) {
	rec, count, tmp = r, map[string]int{}, dir
	Failed, Reached, skipped = nil, nil, false
}

// RunAll replays each record of a batch file and prints one line of JSON per record.
func RunAll(file string, dir string, f func()) {
	b, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	var recs []record
	if err := json.Unmarshal(b, &recs); err != nil {
		panic(err)
	}
	for i, r := range recs {
		d := filepath.Join(dir, fmt.Sprint(i))
		os.MkdirAll(d, 0755)
		load(r, d)
		cur = i
		fmt.Printf("\nVERIF-START %d\n", i)
		res := run(f)
		mu.Lock()
		o, _ := json.Marshal(map[string]any{"i": i, "failed": Failed, "reached": Reached, "skipped": skipped, "panic": res})
		mu.Unlock()
		fmt.Printf("\nVERIF-RESULT %s\n", o)
	}
}

var cur int

// Flush prints the result of the current record; used when the process must end here.
func Flush() {
	mu.Lock()
	defer mu.Unlock()
	o, _ := json.Marshal(map[string]any{"i": cur, "failed": Failed, "reached": Reached, "skipped": skipped, "panic": ""})
	fmt.Printf("\nVERIF-RESULT %s\n", o)
}

func run(f func()) (res string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(assumeFailed); ok {
				skipped = true
				return
			}
			res = fmt.Sprint(r)
			if res == "" {
				res = "panic"
			}
		}
	}()
	f()
	return
}

func next(name string) []uint64 {
	mu.Lock()
	defer mu.Unlock()
	k := count[name]
	count[name]++
	if k > 0 {
		name = fmt.Sprintf("%s#%d", name, k)
	}
	return rec.Inputs[name]
}
func next1(name string) uint64 {
	v := next(name)
	if len(v) == 0 {
		return 0
	}
	return v[0]
}

func Byte(name string) byte         { return byte(next1(name)) }
func U16(name string) uint16        { return uint16(next1(name)) }
func U32(name string) uint32        { return uint32(next1(name)) }
func I64(name string) int64         { return int64(next1(name)) }
func Bool(name string) bool         { return next1(name) == 1 }
func F64(name string) float64       { return math.Float64frombits(next1(name)) }
func Choice(name string, n int) int { return int(next1(name)) }
func Int(name string, lo, hi int) int {
	v := int(int64(next1(name)))
	Assume(lo <= v && v <= hi)
	return v
}
func Bytes(name string, n int) []byte {
	v := next(name)
	b := make([]byte, n)
	for i := range b {
		if i < len(v) {
			b[i] = byte(v[i])
		}
	}
	return b
}
func Str(name string, n int) string { return string(Bytes(name, n)) }

// Bound is a limit of the exploration that depends on the tier.
func Bound(name string, quick, thorough int) int {
	if rec.Tier == "thorough" {
		return thorough
	}
	return quick
}

func Assume(c bool) {
	if !c {
		panic(assumeFailed{})
	}
}
func Assert(c bool, msg string) {
	if !c {
		mu.Lock()
		Failed = append(Failed, msg)
		mu.Unlock()
	}
}
func Reach(label string) {
	mu.Lock()
	Reached = append(Reached, label)
	mu.Unlock()
}

func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}
func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}
func Not(c bool) bool        { return !c }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func IteByte(c bool, a, b byte) byte {
	if c {
		return a
	}
	return b
}
func EqBytes(a, b []byte) bool { return bytes.Equal(a, b) }
func EqStr(a, b string) bool   { return a == b }

// SameF64 is identity of values, with all NaN equal.
func SameF64(a, b float64) bool {
	return a != a && b != b || math.Float64bits(a) == math.Float64bits(b)
}

// Settle lets all other goroutines run until they are blocked, without letting time pass.
func Settle() { synctest.Wait() }

func FixMapOrder(bool) {}
func TempDir() string  { return tmp }

// RepoFile is the text of a file of the repository.
func RepoFile(name string) string {
	for d := "."; len(d) < 40; d = filepath.Join("..", d) {
		if _, err := os.Stat(filepath.Join(d, "go.mod")); err == nil {
			b, err := os.ReadFile(filepath.Join(d, name))
			if err != nil {
				panic(err)
			}
			return string(b)
		}
	}
	panic("no go.mod")
}

// Capture returns what f prints to standard output.
func Capture(f func()) string {
	old := os.Stdout
	fn := filepath.Join(tmp, "stdout")
	o, err := os.Create(fn)
	if err != nil {
		panic(err)
	}
	os.Stdout = o
	defer func() { os.Stdout = old }()
	f()
	os.Stdout = old
	o.Close()
	b, _ := os.ReadFile(fn)
	return string(b)
}

func SetArgs(a ...string) { os.Args = append([]string{"prog"}, a...) }

// OpenSerial is what the replaced serial package calls.
var OpenSerial func(name string, baud int) (io.ReadWriteCloser, error)

func SerialPort(f func(name string, baud int) (io.ReadWriteCloser, error)) { OpenSerial = f }

func Faults(n int)        {}
func Crash(f func()) bool { f(); return false }
func JSONFile(path string, deviations int, keys ...string) {
	if err := os.WriteFile(path, []byte(rec.Texts[path]), 0644); err != nil {
		panic(err)
	}
}

// Funcs fills a slice with all functions of that type in its package (only under the engine).
func Funcs(slice any)    {}
func Symbolic() bool     { return false }
func Trace(string)       {}
func Concrete(n int) int { return n }

// Panics tells whether f panics.
func Panics(f func()) (r bool) {
	defer func() {
		if x := recover(); x != nil {
			if a, ok := x.(assumeFailed); ok {
				panic(a)
			}
			r = true
		}
	}()
	f()
	return
}
