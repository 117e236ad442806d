package gozwave

import (
	"bufio"
	"bytes"
	"cmp"
	"container/list"
	"context"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"iter"
	"maps"
	"math"
	"math/bits"
	"os"
	"path/filepath"
	"reflect"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/stampzilla/gozwave/zzverif/sym"
)

//verif:goal property=S01 reach=done
func VerifS01Slices() {
	b := sym.Bytes("b", 3)
	x := sym.Byte("x")
	if slices.Contains(b, x) {
		sym.Assert(slices.Index(b, x) >= 0, "index")
	}
	c := slices.Clone(b)
	sym.Assert(slices.Equal(b, c), "eq")
	slices.Reverse(c)
	sym.Assert(c[0] == b[2], "rev")
	slices.Sort(c)
	sym.Assert(c[0] <= c[1] && c[1] <= c[2], "sorted")
	sym.Assert(slices.IsSorted(c), "issorted")
	sym.Assert(slices.Max(b) == c[2], "max")
	sym.Assert(slices.Min(b) == c[0], "min")
	d := slices.Insert(slices.Clone(b), 1, x)
	sym.Assert(d[1] == x && len(d) == 4, "ins")
	d = slices.Delete(d, 1, 2)
	sym.Assert(slices.Equal(d, b), "del")
	d = slices.Compact(c)
	_, _ = slices.BinarySearch(d, x)
	sym.Assert(slices.IndexFunc(b, func(v byte) bool { return v == b[0] }) == 0, "if")
	sym.Assert(slices.ContainsFunc(b, func(v byte) bool { return v == b[2] }), "cf")
	e := slices.DeleteFunc(slices.Clone(b), func(v byte) bool { return v != x })
	sym.Assert(len(e) <= 3, "df")
	f := slices.Concat(b, c[:1])
	sym.Assert(len(f) == 4, "conc")
	g := slices.Grow(b, 10)
	sym.Assert(len(g) == 3, "grow")
	g = slices.Clip(g)
	slices.SortFunc(g, func(a, b byte) int { return cmp.Compare(b, a) })
	slices.SortStableFunc(g, func(a, b byte) int { return int(b) - int(a) })
	sym.Assert(slices.Compare(b, b) == 0, "cmp")
	g = slices.Collect(slices.Values(b))
	r := slices.Repeat(b, 2)
	sym.Assert(len(r) == 6, "rep")
	_ = slices.Replace(r, 0, 1, x, x)
	sym.Reach("done")
}

//verif:goal property=S01 reach=done
func VerifS01Maps() {
	m := map[int]string{1: "a", 2: "b", 3: "c"}
	ks := slices.Sorted(maps.Keys(m))
	sym.Assert(slices.Equal(ks, []int{1, 2, 3}), "keys")
	c := maps.Clone(m)
	sym.Assert(maps.Equal(m, c), "eq")
	maps.DeleteFunc(c, func(k int, v string) bool { return k == 2 })
	sym.Assert(len(c) == 2, "df")
	maps.Copy(c, m)
	sym.Assert(len(c) == 3, "copy")
	vs := slices.Sorted(maps.Values(m))
	sym.Assert(len(vs) == 3, "vals")
	clear(c)
	sym.Assert(len(c) == 0, "clear")
	maps.Insert(c, maps.All(m))
	d := maps.Collect(maps.All(m))
	sym.Assert(len(d) == 3, "col")
	vs = slices.SortedFunc(maps.Values(m), strings.Compare)
	sym.Assert(len(vs) == 3, "sf")
	sym.Reach("done")
}

//verif:goal property=S01 reach=done
func VerifS01Bytes() {
	b := sym.Bytes("b", 3)
	x := sym.Byte("x")
	var buf bytes.Buffer
	buf.Write(b)
	buf.WriteByte(x)
	buf.WriteString("abc")
	buf.WriteRune('x')
	sym.Assert(buf.Len() == 8, "len")
	v, err := buf.ReadByte()
	sym.Assert(err == nil && v == b[0], "rb")
	sym.Assert(len(buf.Next(2)) == 2, "next")
	buf.UnreadByte()
	buf.Truncate(3)
	sym.Assert(len(buf.Bytes()) == 3, "b")
	_ = buf.String()
	buf.Grow(100)
	buf.Reset()
	fmt.Fprintf(&buf, "%02x", x)
	sym.Assert(buf.Len() == 2, "fp")
	rd := bytes.NewReader(b)
	o := make([]byte, 2)
	n, _ := io.ReadFull(rd, o)
	sym.Assert(n == 2 && rd.Len() == 1, "rf")
	sym.Assert(bytes.Equal(o, b[:2]), "eq")
	sym.Assert(bytes.HasPrefix(b, o), "hp")
	sym.Assert(bytes.HasSuffix(b, b[1:]), "hp")
	_ = bytes.Compare(b, o)
	_ = bytes.Contains(b, []byte{x})
	if i := bytes.IndexByte(b, x); i >= 0 {
		sym.Assert(b[i] == x, "ib")
	}
	_ = bytes.LastIndexByte(b, x)
	_ = bytes.Count(b, []byte{0})
	_ = bytes.TrimRight(b, "\x00")
	_ = bytes.Trim(b, "\x00")
	_ = bytes.TrimPrefix(b, []byte{1})
	p, q, f := bytes.Cut(b, []byte{0})
	if f {
		sym.Assert(len(p)+len(q) == 2, "cut")
	}
	_ = bytes.Join([][]byte{b, b}, []byte{0})
	_ = bytes.Repeat(b, 3)
	_ = bytes.Split(b, []byte{0})
	_ = bytes.Clone(b)
	_ = bytes.ContainsAny(b, "\x00")
	_ = bytes.IndexFunc([]byte("abc"), unicode.IsDigit)
	_ = bytes.TrimSpace([]byte(" a "))
	_ = bytes.TrimLeft(b, "\x00\x01")
	_ = bytes.ReplaceAll(b, []byte{0}, []byte{1, 2})
	_ = bytes.EqualFold([]byte("a"), []byte("A"))
	_ = bytes.ToUpper([]byte("abc"))
	_ = bytes.Title([]byte("abc"))
	_ = bytes.Fields([]byte("a b c"))
	_ = bytes.NewBufferString("abc")
	sym.Reach("done")
}

//verif:goal property=S01 reach=done
func VerifS01Strings() {
	s := sym.Str("s", 3)
	for i := 0; i < 3; i++ {
		sym.Assume(s[i] < 128)
	}
	var sb strings.Builder
	sb.WriteString(s)
	sb.WriteByte('a')
	sb.WriteRune('b')
	sym.Assert(sb.Len() == 5, "len")
	sb.Grow(10)
	fmt.Fprintf(&sb, "%d", 4)
	_ = sb.String()
	sym.Assert(strings.HasPrefix(sb.String(), s), "hp")
	a, b, ok := strings.Cut(s, ":")
	if ok {
		sym.Assert(len(a)+len(b) == 2, "cut")
	}
	_ = strings.Split(s, ",")
	_ = strings.SplitN(s, ",", 2)
	_ = strings.Fields(s)
	_ = strings.TrimSpace(s)
	_ = strings.Trim(s, "ab")
	_ = strings.TrimPrefix(s, "0x")
	_ = strings.TrimSuffix(s, "0x")
	_ = strings.TrimLeft(s, "0")
	_ = strings.TrimRight(s, "0")
	_ = strings.TrimFunc(s, unicode.IsSpace)
	_ = strings.EqualFold(s, "abc")
	_ = strings.Join([]string{s, s}, "-")
	_ = strings.Repeat("ab", 3)
	_ = strings.Replace(s, "a", "b", 1)
	_ = strings.ReplaceAll(s, "a", "bb")
	_ = strings.Map(func(r rune) rune { return r + 1 }, s[:1])
	_ = strings.Count(s, "a")
	_ = strings.LastIndex(s, "a")
	_ = strings.IndexByte(s, 'a')
	_ = strings.IndexRune(s, 'a')
	_ = strings.IndexAny(s, "ab")
	_ = strings.ContainsRune(s, 'a')
	_ = strings.ContainsAny(s, "ab")
	_ = strings.Title("abc")
	_ = strings.NewReplacer("a", "b", "c", "dd").Replace(s)
	r := strings.NewReader(s)
	_, _ = r.ReadByte()
	_, _ = io.ReadAll(r)
	_ = strings.Compare(s, "abc")
	for i, c := range s {
		_ = i
		_ = c
	}
	_ = []rune(s)
	_ = utf8.RuneCountInString(s)
	_ = utf8.ValidString(s)
	_ = strings.ToValidUTF8("abc", "")
	_ = strings.Clone(s)
	_ = strings.TrimLeftFunc(s, unicode.IsDigit)
	sym.Reach("done")
}

//verif:goal property=S01 reach=done
func VerifS01Bufio() {
	b := sym.Bytes("b", 4)
	br := bufio.NewReader(bytes.NewReader(b))
	v, err := br.ReadByte()
	sym.Assert(err == nil && v == b[0], "rb")
	p, err := br.Peek(2)
	sym.Assert(err == nil && len(p) == 2, "peek")
	br.Discard(1)
	sym.Assert(br.Buffered() == 2, "buf")
	o := make([]byte, 2)
	io.ReadFull(br, o)
	_, err = br.ReadByte()
	sym.Assert(err == io.EOF, "eof")
	br = bufio.NewReaderSize(bytes.NewReader(b), 16)
	l, err := br.ReadBytes('\n')
	_ = l
	br = bufio.NewReader(bytes.NewReader(b))
	_, _ = br.ReadString('\n')
	br.UnreadByte()
	var buf bytes.Buffer
	bw := bufio.NewWriter(&buf)
	bw.Write(b)
	bw.WriteByte(1)
	bw.WriteString("x")
	fmt.Fprintf(bw, "%d\n", 3)
	bw.Flush()
	sym.Assert(buf.Len() == 8, "bw")
	sc := bufio.NewScanner(strings.NewReader("a\nb\nc"))
	n := 0
	for sc.Scan() {
		n += len(sc.Text())
	}
	sym.Assert(n == 3 && sc.Err() == nil, "sc")
	sc = bufio.NewScanner(strings.NewReader("a b"))
	sc.Split(bufio.ScanWords)
	sc.Buffer(nil, 1000)
	for sc.Scan() {
		_ = sc.Bytes()
	}
	rw := bufio.NewReadWriter(bufio.NewReader(strings.NewReader("abc")), bw)
	rw.WriteString("a")
	sym.Reach("done")
}

//verif:goal property=S01 reach=done
func VerifS01Encoding() {
	b := sym.Bytes("b", 8)
	sym.Assert(binary.BigEndian.Uint16(b) == uint16(b[0])<<8|uint16(b[1]), "u16")
	_ = binary.LittleEndian.Uint32(b)
	_ = binary.BigEndian.Uint64(b)
	o := make([]byte, 8)
	binary.BigEndian.PutUint32(o, binary.BigEndian.Uint32(b))
	sym.Assert(o[3] == b[3], "put")
	o = binary.BigEndian.AppendUint16(o, 3)
	sym.Assert(len(o) == 10, "app")
	var h struct {
		A uint8
		B uint16
	}
	err := binary.Read(bytes.NewReader(b), binary.BigEndian, &h)
	sym.Assert(err == nil && h.A == b[0] && h.B == uint16(b[1])<<8|uint16(b[2]), "read")
	var buf bytes.Buffer
	binary.Write(&buf, binary.BigEndian, h)
	sym.Assert(buf.Len() == 3, "write")
	var q uint16
	binary.Read(bytes.NewReader(b), binary.LittleEndian, &q)
	s := hex.EncodeToString(b[:2])
	sym.Assert(len(s) == 4, "hex")
	d, err := hex.DecodeString(s)
	sym.Assert(err == nil && d[0] == b[0], "dec")
	_ = hex.Dump(b[:2])
	_ = fmt.Sprintf("% x", b[:2])
	_ = fmt.Sprintf("%#x", b[0])
	_ = fmt.Sprintf("%08b", b[0])
	_ = fmt.Sprintf("%q", b[0])
	_ = fmt.Sprintf("%+v", h)
	_ = fmt.Sprint(b[0], "x")
	_ = fmt.Sprintln(b[0], "x")
	_ = fmt.Appendf(nil, "%d", 3)
	sym.Reach("done")
}

//verif:goal property=S01 reach=done
func VerifS01Strconv() {
	x := sym.Byte("x")
	s := strconv.Itoa(int(x))
	n, err := strconv.Atoi(s)
	sym.Assert(err == nil && n == int(x), "atoi")
	_ = strconv.FormatInt(int64(x), 16)
	u, err := strconv.ParseUint(s, 10, 8)
	sym.Assert(err == nil && byte(u) == x, "pu")
	_, _ = strconv.ParseInt("0x12", 0, 16)
	_, _ = strconv.ParseFloat("1.5", 64)
	_, err = strconv.ParseBool("x")
	sym.Assert(err != nil, "pb")
	_ = strconv.AppendInt(nil, int64(x), 10)
	_ = strconv.FormatBool(x == 1)
	_, _ = strconv.Unquote("\"a\"")
	_ = strconv.AppendQuote(nil, "abc")
	_ = strconv.FormatFloat(1.5, 'f', -1, 64)
	_, err = strconv.Atoi("x")
	var ne *strconv.NumError
	sym.Assert(errors.As(err, &ne), "as")
	sym.Assert(errors.Is(err, strconv.ErrSyntax), "is")
	sym.Reach("done")
}

type vSorter []byte

func (v vSorter) Len() int           { return len(v) }
func (v vSorter) Less(i, j int) bool { return v[i] < v[j] }
func (v vSorter) Swap(i, j int)      { v[i], v[j] = v[j], v[i] }

//verif:goal property=S01 reach=done
func VerifS01Sort() {
	b := sym.Bytes("b", 3)
	c := slices.Clone(b)
	sort.Sort(vSorter(c))
	sort.Stable(vSorter(c))
	sym.Assert(sort.IsSorted(vSorter(c)), "sorted")
	sort.Sort(sort.Reverse(vSorter(c)))
	sort.Slice(c, func(i, j int) bool { return c[i] < c[j] })
	i := sort.Search(3, func(i int) bool { return c[i] >= 5 })
	_ = i
	x := []int{3, 1, 2}
	sort.Ints(x)
	y := []string{"b", "a"}
	sort.Strings(y)
	sym.Assert(y[0] == "a" && x[0] == 1, "s")
	_ = sort.SearchInts(x, 2)
	sym.Reach("done")
}

//verif:goal property=S01 reach=done
func VerifS01Sync() {
	var once sync.Once
	n := 0
	once.Do(func() { n++ })
	once.Do(func() { n++ })
	sym.Assert(n == 1, "once")
	f := sync.OnceValue(func() int { n++; return n })
	sym.Assert(f() == f(), "ov")
	g := sync.OnceFunc(func() { n++ })
	g()
	g()
	h := sync.OnceValues(func() (int, error) { return 1, nil })
	h()
	var wg sync.WaitGroup
	wg.Add(2)
	var mu sync.Mutex
	for i := 0; i < 2; i++ {
		i := i
		go func() {
			defer wg.Done()
			mu.Lock()
			n += i
			mu.Unlock()
		}()
	}
	wg.Wait()
	wg.Go(func() { n++ })
	wg.Wait()
	c := sync.NewCond(&mu)
	ready := false
	go func() {
		mu.Lock()
		ready = true
		c.Broadcast()
		c.Signal()
		mu.Unlock()
	}()
	mu.Lock()
	for !ready {
		c.Wait()
	}
	mu.Unlock()
	var m sync.Map
	m.Store(1, 2)
	v, ok := m.Load(1)
	sym.Assert(ok && v.(int) == 2, "map")
	m.LoadOrStore(2, 3)
	m.Range(func(k, v any) bool { return true })
	m.Delete(1)
	m.LoadAndDelete(2)
	m.Swap(1, 3)
	m.CompareAndSwap(1, 3, 4)
	m.Clear()
	p := sync.Pool{New: func() any { return new(int) }}
	x := p.Get().(*int)
	p.Put(x)
	var rw sync.RWMutex
	rw.RLock()
	sym.Assert(rw.TryRLock(), "try")
	rw.RUnlock()
	rw.RUnlock()
	sym.Assert(mu.TryLock(), "try")
	mu.Unlock()
	l := rw.RLocker()
	l.Lock()
	l.Unlock()
	sym.Reach("done")
}

//verif:goal property=S01 reach=done
func VerifS01Atomic() {
	var i atomic.Int32
	i.Store(3)
	sym.Assert(i.Add(2) == 5, "add")
	sym.Assert(i.CompareAndSwap(5, 6), "cas")
	sym.Assert(i.Swap(7) == 6, "swap")
	var j atomic.Int64
	j.Add(1)
	var u atomic.Uint32
	u.Add(1)
	u.Or(4)
	u.And(4)
	var uu atomic.Uint64
	uu.Add(1)
	_ = uu.Load()
	var b atomic.Bool
	b.Store(true)
	sym.Assert(b.Load(), "bool")
	sym.Assert(b.Swap(false), "bool")
	sym.Assert(b.CompareAndSwap(false, true), "bool")
	var p atomic.Pointer[int]
	sym.Assert(p.Load() == nil, "p")
	x := 3
	p.Store(&x)
	sym.Assert(*p.Load() == 3, "p")
	p.CompareAndSwap(&x, nil)
	var v atomic.Value
	sym.Assert(v.Load() == nil, "v")
	v.Store("a")
	sym.Assert(v.Load().(string) == "a", "v")
	v.Swap("b")
	v.CompareAndSwap("b", "c")
	var n int64
	atomic.AddInt64(&n, 2)
	sym.Assert(atomic.LoadInt64(&n) == 2, "n")
	var w uint32
	atomic.AddUint32(&w, 2)
	atomic.StoreUint32(&w, 2)
	atomic.CompareAndSwapUint32(&w, 2, 3)
	atomic.SwapUint32(&w, 2)
	sym.Reach("done")
}

//verif:goal property=S01 reach=done timed=1
func VerifS01Context() {
	ctx, cancel := context.WithCancel(context.Background())
	go func() {
		time.Sleep(time.Second)
		cancel()
	}()
	<-ctx.Done()
	sym.Assert(ctx.Err() == context.Canceled, "c")
	ctx, cancel = context.WithTimeout(context.WithValue(context.Background(), "a", 3), time.Second)
	sym.Assert(ctx.Value("a").(int) == 3, "v")
	select {
	case <-ctx.Done():
	case <-time.After(3 * time.Second):
		sym.Assert(false, "time")
	}
	sym.Assert(errors.Is(ctx.Err(), context.DeadlineExceeded), "de")
	cancel()
	ctx, cancel2 := context.WithCancelCause(context.TODO())
	cancel2(io.EOF)
	sym.Assert(context.Cause(ctx) == io.EOF, "cause")
	ctx, cancel = context.WithDeadline(context.Background(), time.Now().Add(time.Second))
	stop := context.AfterFunc(ctx, func() {})
	stop()
	_, _ = ctx.Deadline()
	c2, cc := context.WithCancel(ctx)
	cancel()
	<-c2.Done()
	cc()
	_ = context.WithoutCancel(ctx)
	sym.Reach("done")
}

type vErr struct{ n int }

func (v *vErr) Error() string { return fmt.Sprintf("err %d", v.n) }

//verif:goal property=S01 reach=done
func VerifS01Errors() {
	e := fmt.Errorf("x: %w", io.EOF)
	sym.Assert(errors.Is(e, io.EOF), "is")
	sym.Assert(e.Error() == "x: EOF", "txt")
	e = errors.Join(e, &vErr{3})
	sym.Assert(errors.Is(e, io.EOF), "is")
	var v *vErr
	sym.Assert(errors.As(e, &v) && v.n == 3, "as")
	if w, ok := errors.AsType[*vErr](e); ok {
		sym.Assert(w.n == 3, "at")
	}
	sym.Assert(errors.Unwrap(fmt.Errorf("y: %w", v)) == error(v), "unwrap")
	e = fmt.Errorf("%w and %w", io.EOF, v)
	sym.Assert(errors.Is(e, v), "multi")
	_, err := os.Open("/nonexistent-file")
	sym.Assert(errors.Is(err, os.ErrNotExist), "ne")
	sym.Assert(os.IsNotExist(err), "ne")
	var pe *os.PathError
	sym.Assert(errors.As(err, &pe), "pe")
	sym.Reach("done")
}

//verif:goal property=S01 reach=done timed=1
func VerifS01Time() {
	t := time.NewTimer(time.Second)
	sym.Assert(t.Stop(), "stop")
	t.Reset(time.Second)
	<-t.C
	k := time.NewTicker(time.Second)
	<-k.C
	k.Reset(2 * time.Second)
	<-k.C
	k.Stop()
	t0 := time.Now()
	time.Sleep(1500 * time.Millisecond)
	d := time.Since(t0)
	sym.Assert(d >= 1500*time.Millisecond, "since")
	_ = d.String()
	_ = d.Seconds()
	_ = d.Milliseconds()
	_ = d.Minutes()
	_ = d.Truncate(time.Second)
	_ = d.Round(time.Second)
	_ = d.Hours()
	_ = d.Microseconds()
	_ = d.Abs()
	_ = t0.Unix()
	_ = t0.UnixNano()
	_ = t0.UnixMilli()
	_ = t0.Format(time.RFC3339)
	_ = t0.String()
	_ = t0.Year()
	_ = t0.UTC()
	_ = t0.Local()
	_ = t0.Truncate(time.Second)
	_ = t0.Round(0)
	_ = t0.AddDate(0, 0, 1)
	sym.Assert(t0.Before(time.Now()), "before")
	sym.Assert(time.Until(t0) <= 0, "until")
	_, _ = time.ParseDuration("1s")
	_ = time.Duration(sym.Byte("x")) * time.Second
	dl := time.Now().Add(time.Second)
	<-time.After(time.Until(dl))
	done := make(chan bool)
	a := time.AfterFunc(time.Second, func() { close(done) })
	<-done
	a.Stop()
	var zero time.Time
	sym.Assert(zero.IsZero() && !t0.IsZero(), "zero")
	sym.Assert(zero.Add(time.Second).Before(t0), "zero")
	_ = time.Date(2020, 1, 2, 3, 4, 5, 6, time.UTC)
	_ = time.Unix(3, 4)
	sym.Reach("done")
}

//verif:goal property=S01 reach=done
func VerifS01Io() {
	b := sym.Bytes("b", 4)
	o := make([]byte, 3)
	n, err := io.ReadFull(bytes.NewReader(b), o)
	sym.Assert(n == 3 && err == nil, "rf")
	_, err = io.ReadFull(bytes.NewReader(b[:2]), o)
	sym.Assert(err == io.ErrUnexpectedEOF, "rf")
	n, err = io.ReadAtLeast(bytes.NewReader(b), o, 2)
	var buf, buf2 bytes.Buffer
	io.Copy(&buf, bytes.NewReader(b))
	io.CopyN(&buf, bytes.NewReader(b), 2)
	w := io.MultiWriter(&buf, &buf2)
	w.Write(b)
	r := io.TeeReader(bytes.NewReader(b), &buf)
	x, _ := io.ReadAll(r)
	sym.Assert(len(x) == 4, "ra")
	x, _ = io.ReadAll(io.LimitReader(bytes.NewReader(b), 2))
	sym.Assert(len(x) == 2, "lr")
	pr, pw := io.Pipe()
	go func() {
		pw.Write(b)
		pw.Close()
	}()
	x, _ = io.ReadAll(pr)
	sym.Assert(len(x) == 4, "pipe")
	io.WriteString(&buf, "abc")
	io.Copy(io.Discard, &buf)
	m := io.MultiReader(bytes.NewReader(b), strings.NewReader("abc"))
	x, _ = io.ReadAll(m)
	sym.Assert(len(x) == 7, "mr")
	_ = io.NopCloser(m)
	_ = io.NewSectionReader(bytes.NewReader(b), 1, 2)
	sym.Reach("done")
}

//verif:goal property=S01 reach=done
func VerifS01Math() {
	x := sym.Byte("x")
	_ = math.Pow(10, float64(x&7))
	_ = math.Pow10(int(x & 7))
	_ = math.Abs(float64(int8(x)))
	_ = math.Max(1, float64(x))
	_ = math.Min(1, float64(x))
	_ = math.Round(float64(x) / 3)
	_ = math.Floor(float64(x) / 3)
	_ = math.Ldexp(float64(x), 3)
	_ = math.IsNaN(float64(x))
	_ = math.Inf(1)
	_ = math.Signbit(float64(x))
	_ = math.Copysign(1, float64(x))
	_, _ = math.Modf(1.5)
	_ = math.Sqrt(4)
	_ = math.Mod(5, 3)
	sym.Assert(bits.OnesCount8(x) <= 8, "oc")
	_ = bits.Len8(x)
	_ = bits.TrailingZeros8(x)
	_ = bits.LeadingZeros8(x)
	_ = bits.Reverse8(x)
	_ = bits.RotateLeft8(x, 3)
	_ = bits.ReverseBytes16(uint16(x))
	_ = min(x, 3)
	_ = max(x, 3, 4)
	n := 0
	for i := 0; i < 3; i++ {
		n += i
	}
	sym.Reach("done")
}

type vJ struct {
	A int               `json:"a"`
	B []byte            `json:"b,omitempty"`
	C map[string]int    `json:"c"`
	D *vJ               `json:"d"`
	E time.Time         `json:"e"`
	F json.RawMessage   `json:"f"`
	G any               `json:"g"`
}

//verif:goal property=S01 reach=done
func VerifS01Json() {
	v := vJ{A: int(sym.Byte("a")), C: map[string]int{"x": 1}, D: &vJ{A: 2}}
	b, err := json.Marshal(v)
	sym.Assert(err == nil, "m")
	var w vJ
	err = json.Unmarshal(b, &w)
	sym.Assert(err == nil && w.A == v.A, "u")
	b, err = json.MarshalIndent(v, "", "  ")
	var buf bytes.Buffer
	e := json.NewEncoder(&buf)
	e.SetIndent("", "\t")
	e.SetEscapeHTML(false)
	e.Encode(v)
	d := json.NewDecoder(&buf)
	err = d.Decode(&w)
	sym.Assert(err == nil && w.A == v.A, "d")
	sym.Assert(json.Valid(b), "valid")
	sym.Reach("done")
}

//verif:goal property=S01 reach=done
func VerifS01Os() {
	dir := sym.TempDir()
	f := filepath.Join(dir, "a.txt")
	b := sym.Bytes("b", 3)
	sym.Assert(os.WriteFile(f, b, 0644) == nil, "w")
	c, err := os.ReadFile(f)
	sym.Assert(err == nil && bytes.Equal(b, c), "r")
	st, err := os.Stat(f)
	sym.Assert(err == nil && st.Size() == 3, "st")
	_ = st.IsDir()
	_ = st.Mode()
	_ = st.Name()
	fh, err := os.OpenFile(f, os.O_APPEND|os.O_WRONLY, 0600)
	sym.Assert(err == nil, "of")
	fh.Write(b)
	fh.WriteString("x")
	fh.Sync()
	fh.Close()
	fh, _ = os.Open(f)
	x, _ := io.ReadAll(fh)
	sym.Assert(len(x) == 7, "ra")
	fh.Seek(0, io.SeekStart)
	bufio.NewReader(fh).ReadByte()
	fh.Close()
	t, err := os.CreateTemp(dir, "x*")
	sym.Assert(err == nil, "ct")
	t.Write(b)
	t.Chmod(0644)
	_ = t.Name()
	t.Truncate(0)
	t.Close()
	os.Rename(t.Name(), f)
	sym.Assert(os.MkdirAll(filepath.Join(dir, "d/e"), 0755) == nil, "mk")
	sym.Assert(os.Remove(f) == nil, "rm")
	_, err = os.Stat(f)
	sym.Assert(err != nil, "rm")
	_ = filepath.Base(f)
	_ = filepath.Dir(f)
	_ = filepath.Ext(f)
	_ = filepath.Clean(f)
	_ = os.Getenv("HOME")
	sym.Reach("done")
}

func vSeq(n int) iter.Seq[int] {
	return func(yield func(int) bool) {
		for i := 0; i < n; i++ {
			if !yield(i) {
				return
			}
		}
	}
}

//verif:goal property=S01 reach=done
func VerifS01Lang() {
	n := 0
	_ = n
	next, stop := iter.Pull(vSeq(3))
	v, ok := next()
	sym.Assert(ok && v == 0, "pull")
	stop()
	l := list.New()
	l.PushBack(3)
	for e := l.Front(); e != nil; e = e.Next() {
		sym.Assert(e.Value.(int) == 3, "list")
	}
	a := [...]byte{1, 2, 3}
	p := (*[2]byte)(a[:])
	q := [2]byte(a[:])
	sym.Assert(p[0] == q[0], "arr")
	s := struct {
		a, b int
		c    string
	}{1, 2, "x"}
	t := s
	sym.Assert(s == t, "struct eq")
	m := map[[2]byte]int{q: 3}
	sym.Assert(m[q] == 3, "arr key")
	type key struct{ a, b byte }
	mk := map[key]int{}
	mk[key{sym.Byte("k"), 1}]++
	sym.Assert(len(mk) == 1, "k")
	defer func() {
		r := recover()
		sym.Assert(r != nil, "rec")
		sym.Reach("done")
	}()
	var i any = 3
	switch x := i.(type) {
	case fmt.Stringer:
		_ = x
	case int:
	}
	_ = i.(string)
}

//verif:goal property=S01 reach=done
func VerifS01Reflect() {
	var i any = vJ{A: 3}
	_ = reflect.TypeOf(i).Name()
	sym.Assert(reflect.DeepEqual(i, vJ{A: 3}), "de")
	_ = reflect.TypeOf(i).String()
	v := reflect.ValueOf(i)
	_ = v.Kind() == reflect.Struct
	sym.Assert(v.NumField() == 7, "nf")
	sym.Assert(v.Field(0).Int() == 3, "int")
	_ = reflect.New(reflect.TypeOf(i)).Interface()
	sym.Reach("done")
}
