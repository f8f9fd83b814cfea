package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"maps"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/cespare/goclj/format"
	"github.com/cespare/goclj/parse"

	"goclj.verif/mon/gen"
)

func init() {
	register(&Check{
		ID: "C17", Quick: 32000, Thorough: 400000, Level: "fault_enumeration",
		Rule: genRule + "Each text is printed to a writer that fails: an error after k bytes (for every k of small outputs), an error together with a complete or partial write, or a silently short write. PrintTree must return an error naming the fault exactly when bytes are missing or the writer complained, must not write after the fault, and what arrived must be a prefix of the right output; a nil error must mean that all bytes have arrived. Non-trivial: a fault was triggered.",
		Min:  map[string]int64{"write faults triggered": 40000, "complete writes": 10000, "texts with a fault at every byte": 500},
		Run:  c17,
	})
	register(&Check{
		ID: "C18", Quick: 900, Thorough: 30000, Workers: 3,
		Rule: genRule + "Built with the race detector. Batches of texts are parsed, listed and formatted by 12 goroutines at once, sharing source strings, option maps and read-only trees, with random yields and delays inside the readers and writers; then everything is repeated sequentially. A monitor compares every concurrent result with the sequential one and the race detector watches all memory accesses. Non-trivial: a batch with at least 30 operations; distinct batches and distinct completion orders are counted.",
		Min:  map[string]int64{"concurrent operations compared": 20000, "distinct completion orders": 500},
		Run:  c18,
	})
	register(&Check{
		ID: "C19", Quick: 3200, Thorough: 40000, Workers: 6,
		Rule: hostileRule + "Batches of parses (well-formed, malformed, cut, with failing readers, from existing, missing and unreadable files) and prints (with failing writers) are run; afterwards the number of goroutines and of open file descriptors must return to what it was, and the live heap of a long run must not grow with the number of calls. Non-trivial: the batch has a failing and a succeeding operation.",
		Min:  map[string]int64{"operations": 30000, "failed operations": 15000, "goroutine counts compared": 900, "descriptor counts compared": 900, "heap sizes compared": 6},
		Run:  c19,
	})
	register(&Check{
		ID: "C20", Quick: 36000, Thorough: 250000, CLI: true,
		Rule: genRule + "ns-heavy texts with many aliases, refers and imports are formatted 8 times with freshly built option maps (filled in random order), interleaved with other work, and, for a share, in a new process. All outputs (or errors) must be identical. Non-trivial: the output differs from the input.",
		Min:  map[string]int64{"repetitions compared": 50000, "processes compared": 100},
		Run:  c20,
	})
	register(&Check{
		ID: "C21", Quick: 45000, Thorough: 350000,
		Rule: genRule + "Sequences of 4 texts go through one Printer whose options the caller changes in between, and through two Printers used alternately; each output must be what a fresh Printer with those options gives. The caller's option maps and the package defaults are compared with deep copies afterwards, and a tree is printed twice. Non-trivial: at least two texts of a sequence change when formatted.",
		Min:  map[string]int64{"prints compared": 60000, "option maps compared": 30000, "trees printed twice": 3000},
		Run:  c21,
	})
}

// --- C17

// faultWriter accepts limit bytes and then fails in the given way.
type faultWriter struct {
	buf   bytes.Buffer
	limit int
	mode  int // 0 partial write with error, 1 complete write with error, 2 nothing with error, 3 short write without error
	err   error
	hit   bool
	after int // writes after the fault
}

func (w *faultWriter) Write(p []byte) (int, error) {
	if w.hit {
		w.after++
		return 0, w.err
	}
	if w.buf.Len()+len(p) <= w.limit {
		return w.buf.Write(p)
	}
	w.hit = true
	n := w.limit - w.buf.Len()
	switch w.mode {
	case 1:
		n = len(p)
	case 2:
		n = 0
	}
	w.buf.Write(p[:n])
	if w.mode == 3 {
		return n, nil
	}
	return n, w.err
}

// writeFaults are the errors which failing writers return.
var writeFaults = []error{errors.New("disk full of eels"), io.EOF, io.ErrShortWrite, io.ErrClosedPipe, os.ErrClosed, syscall.ENOSPC, syscall.EPIPE, syscall.EINTR,
	syscall.EAGAIN, syscall.EDQUOT, context.Canceled, os.ErrDeadlineExceeded, &os.PathError{Op: "write", Path: "x", Err: syscall.EIO}, tempErr{}, errors.New("")}

func c17(c *Ctx, idx int) {
	r := c.Rand(idx)
	var src string
	if idx%3 == 0 {
		src = c.smallSource(r)
	} else {
		src = c.Source(r, nil)
	}
	o := RandOpts(r, true)
	seed := r.Int63()
	c.Text(src, o.String(), func(src string) string {
		r := rand.New(rand.NewSource(seed))
		want, err := Format(src, o)
		if err != nil {
			return ""
		}
		var limits []int
		if len(want) <= 120 && idx%3 == 0 {
			for k := 0; k <= len(want); k++ {
				limits = append(limits, k)
			}
			c.Count("texts with a fault at every byte", 1)
		} else {
			for i := 0; i < 4; i++ {
				limits = append(limits, r.Intn(len(want)+1))
			}
			limits = append(limits, len(want), max(0, len(want)-1), 4096*(len(want)/4096))
		}
		for _, k := range limits {
			w := &faultWriter{limit: k, mode: r.Intn(4), err: gen.Pick(r, writeFaults)}
			t, err := parseSrc(src, o.Parse)
			if err != nil {
				return ""
			}
			p := format.NewPrinter(w)
			p.IndentOverrides, p.ThreadFirstStyleOverrides, p.Transforms = o.Indent, o.Thread, o.transforms()
			err = p.PrintTree(t)
			got := w.buf.String()
			desc := fmt.Sprintf("fault mode %d after %d of %d bytes", w.mode, k, len(want))
			c.Case(src+desc, w.hit)
			switch {
			case !strings.HasPrefix(want, got):
				return "what arrived is not a prefix of the output: " + desc + "\n" + diffText(want, got)
			case !w.hit && got != want && err == nil:
				return "output incomplete although PrintTree returned nil: " + desc
			case !w.hit && err != nil:
				return "an error without a fault: " + err.Error() + " " + desc
			case !w.hit:
				c.Count("complete writes", 1)
			case err == nil:
				return "a write fault is swallowed: " + desc
			case w.mode != 3 && !strings.Contains(err.Error(), w.err.Error()):
				return fmt.Sprintf("the error does not name the write fault: %v; %s", err, desc)
			case w.after > 0:
				return fmt.Sprintf("%d writes after the fault: %s", w.after, desc)
			default:
				c.Count("write faults triggered", 1)
			}
		}
		return ""
	})
}

// --- C18

// jitter perturbs schedules; it is not shared between goroutines.
type jitter struct{ r *rand.Rand }

func (j jitter) step() {
	switch j.r.Intn(12) {
	case 0, 1, 2:
		runtime.Gosched()
	case 3:
		time.Sleep(time.Duration(j.r.Intn(50)) * time.Microsecond)
	}
}

type jitterReader struct {
	io.Reader
	j jitter
}

func (r jitterReader) Read(p []byte) (int, error) { r.j.step(); return r.Reader.Read(p) }

type jitterWriter struct {
	io.Writer
	j jitter
}

func (w jitterWriter) Write(p []byte) (int, error) { w.j.step(); return w.Writer.Write(p) }

type job struct {
	src  string
	o    *FmtOpts
	tr   map[format.Transform]bool // shared with other jobs
	kind int                       // 0 format, 1 parse only, 2 list a shared tree
	tree *parse.Tree
}

func (jb *job) do(j *jitter) string {
	switch jb.kind {
	case 2:
		return outcome(jb.tree, nil)
	}
	var in io.Reader = strings.NewReader(jb.src)
	if j != nil {
		in = jitterReader{&chunkReader{s: jb.src, r: j.r, max: 1 + j.r.Intn(700)}, *j}
	}
	t, err := parse.Reader(in, "t.clj", jb.o.Parse)
	if err != nil || jb.kind == 1 {
		return outcome(t, err)
	}
	var buf bytes.Buffer
	var w io.Writer = &buf
	if j != nil {
		w = jitterWriter{&buf, *j}
	}
	p := format.NewPrinter(w)
	p.IndentOverrides, p.ThreadFirstStyleOverrides, p.Transforms = jb.o.Indent, jb.o.Thread, jb.tr
	if err := p.PrintTree(t); err != nil {
		return "print error: " + err.Error()
	}
	return buf.String()
}

func c18(c *Ctx, idx int) {
	r := c.Rand(idx)
	const workers = 12
	var opts []*FmtOpts
	var trs []map[format.Transform]bool
	for i := 0; i < 3; i++ {
		o := RandOpts(r, true)
		if i == 0 {
			RandOverrides(r, o)
		}
		o.Parse = allParseOpts[1+2*r.Intn(4)]
		opts = append(opts, o)
		trs = append(trs, o.transforms())
	}
	var srcs []string
	for i := 0; i < 8; i++ {
		var s string
		switch r.Intn(5) {
		case 0:
			s = c.Hostile(r)
		case 1:
			s = c.Source(r, func(p *gen.Profile) { p.NS = 1 })
		default:
			s = c.smallSource(r)
		}
		if len(s) > 8000 {
			s = "(ns x (:require [b :as c] [a :refer [y x]])) (let [x 1] y)"
		}
		srcs = append(srcs, s)
	}
	shared, _ := parseSrc("(a [b 'c #_d] ^e f {:g \"h\"}) ;i\n", 1)
	var jobs []*job
	for i := 0; i < 36; i++ {
		k := r.Intn(len(opts))
		jb := &job{src: gen.Pick(r, srcs), o: opts[k], tr: trs[k], tree: shared}
		switch r.Intn(8) {
		case 0, 1:
			jb.kind = 1
		case 2:
			jb.kind = 2
		}
		jobs = append(jobs, jb)
	}
	got := make([]string, len(jobs))
	order := make([]int32, len(jobs))
	var next, done atomic.Int32
	var wg sync.WaitGroup
	start := make(chan struct{})
	for w := 0; w < workers; w++ {
		j := jitter{rand.New(rand.NewSource(r.Int63()))}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for {
				i := int(next.Add(1)) - 1
				if i >= len(jobs) {
					return
				}
				got[i] = jobs[i].do(&j)
				order[done.Add(1)-1] = int32(i)
			}
		}()
	}
	close(start)
	wg.Wait()
	for i, jb := range jobs {
		want := jb.do(nil)
		c.Count("concurrent operations compared", 1)
		if want != got[i] {
			c.Violate("a concurrent operation gives another result: "+diffText(want, got[i]), jb.src, jb.o.String())
			return
		}
	}
	sig := fmt.Sprint(order)
	if s := c.set("orders"); !s[sig] {
		s[sig] = true
		c.Count("distinct completion orders", 1)
	}
	c.Case(fmt.Sprint(idx, srcs[0]), len(jobs) >= 30)
}

// --- C19

func fdCount() int {
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return -1
	}
	return len(es)
}

// settle waits for the number of goroutines to fall to n.
func settle(n int) int {
	for i := 0; ; i++ {
		g := runtime.NumGoroutine()
		if g <= n || i > 400 {
			return g
		}
		runtime.Gosched()
		if i > 20 {
			time.Sleep(time.Duration(min(i, 50)) * time.Millisecond)
		}
	}
}

// c19op runs one operation and says whether it failed.
func c19op(c *Ctx, r *rand.Rand) bool {
	src := c.Hostile(r)
	if len(src) > 20000 {
		src = src[:20000]
	}
	po := allParseOpts[r.Intn(8)]
	var t *parse.Tree
	var err error
	switch r.Intn(6) {
	case 0:
		name := filepath.Join(c.Dir, "f.clj")
		if e := os.WriteFile(name, []byte(src), 0o644); e != nil {
			panic(e)
		}
		t, err = parse.File(name, po)
		c.Count("files parsed", 1)
	case 1:
		t, err = parse.File(filepath.Join(c.Dir, gen.Pick(r, []string{"missing.clj", "."})), po)
	case 2:
		t, err = parse.Reader(newChunkReader(r, src, faultErr("boom")), "t.clj", po)
	default:
		t, err = parseSrc(src, po)
	}
	if err != nil {
		return true
	}
	var w io.Writer = io.Discard
	if r.Intn(4) == 0 {
		w = &faultWriter{limit: r.Intn(len(src) + 1), err: faultErr("full")}
	}
	return format.NewPrinter(w).PrintTree(t) != nil
}

func c19(c *Ctx, idx int) {
	r := c.Rand(idx)
	if idx%200 < 6 { // once per worker and every 200 cases
		c19heap(c, r)
		return
	}
	g0, f0 := settle(1), fdCount()
	failed, n := 0, 20+r.Intn(20)
	for i := 0; i < n; i++ {
		if c19op(c, r) {
			failed++
		}
	}
	c.Count("operations", int64(n))
	c.Count("failed operations", int64(failed))
	c.Case(fmt.Sprint(idx), failed > 0 && failed < n)
	if g := settle(g0); g > g0 {
		buf := make([]byte, 1<<16)
		buf = buf[:runtime.Stack(buf, true)]
		c.Violate(fmt.Sprintf("%d goroutines are left after %d operations (%d failed)\n%s", g-g0, n, failed, trunc(string(buf), 2000)), "", "")
		return
	}
	c.Count("goroutine counts compared", 1)
	if f := fdCount(); f0 >= 0 && f > f0 {
		// a finalizer may still close it, but then only by luck
		c.Violate(fmt.Sprintf("%d file descriptors are left open after %d operations", f-f0, n), "", "")
		return
	}
	c.Count("descriptor counts compared", 1)
}

// c19heap compares the live heap after many calls with that after few.
func c19heap(c *Ctx, r *rand.Rand) {
	pad := strings.Repeat("(some padding \"text that makes the tree big\" [1 2 3]) ", 40)
	round := func(n int) uint64 {
		for i := 0; i < n; i++ {
			src := fmt.Sprintf("(ns n%d (:require [a%d :as b%d])) (f%d b%d/x) ", r.Int(), r.Int(), r.Int(), r.Int(), r.Int()) + pad
			if i%3 == 0 {
				src += "("
			}
			t, err := parseSrc(src, 1)
			if err == nil {
				printTree(t, Defaults())
			}
		}
		runtime.GC()
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return m.HeapAlloc
	}
	round(50)
	a := round(50)
	b := round(600)
	c.Count("heap sizes compared", 1)
	c.Case(fmt.Sprint("heap", r.Int()), true)
	// 550 more texts of 2 kB; their trees take more than 100 kB each
	if b > a+2<<20 {
		c.Violate(fmt.Sprintf("the live heap grows with the number of calls: %d kB after 100, %d kB after 700", a>>10, b>>10), "", "")
	}
}

// --- C20

// rebuilt makes the same options with new maps, filled in random order.
func rebuilt(r *rand.Rand, o *FmtOpts) *FmtOpts {
	n := &FmtOpts{Char: o.Char, Parse: o.Parse}
	if o.Set != nil {
		n.Set = shuffledMap(r, o.Set)
	}
	if o.Indent != nil {
		n.Indent = shuffledMap(r, o.Indent)
	}
	if o.Thread != nil {
		n.Thread = shuffledMap(r, o.Thread)
	}
	return n
}

func shuffledMap[V any](r *rand.Rand, m map[string]V) map[string]V {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	n := make(map[string]V, r.Intn(40))
	for i := r.Intn(20); i > 0; i-- {
		n[fmt.Sprint("zz", i)] = m[ks0(ks)]
	}
	for _, k := range ks {
		n[k] = m[k]
	}
	for i := 0; i <= 20; i++ {
		delete(n, fmt.Sprint("zz", i))
	}
	return n
}

func ks0(ks []string) string {
	if len(ks) == 0 {
		return ""
	}
	return ks[0]
}

func c20(c *Ctx, idx int) {
	r := c.Rand(idx)
	var src string
	switch idx % 4 {
	case 0:
		src = c.Source(r, func(p *gen.Profile) { p.NS = 1 })
	case 1:
		if idx%8 == 1 {
			src = c.Hostile(r)
		} else {
			src = c.Source(r, nil)
		}
	default:
		no := gen.DefaultNS(r)
		if r.Intn(2) == 0 { // few names, many clauses about them
			no.Use, no.MultiClause, no.MaxLibs = true, true, 12
			no.Namespaces = []string{"a", "my.ns", "z"}[:1+r.Intn(3)]
		}
		s, ok := c.NSSource(r, no, 0)
		if !ok {
			return
		}
		src = s
	}
	o := RandOpts(r, true)
	if r.Intn(2) == 0 {
		o.Set = map[string]bool{"use-to-require": true, "remove-unused-requires": r.Intn(2) == 0}
	}
	if r.Intn(3) == 0 {
		RandOverrides(r, o)
		src += "\n" + overrideText(r)
	}
	seed := r.Int63()
	proc := idx%20 == 0
	c.Text(src, o.String(), func(src string) string {
		r := rand.New(rand.NewSource(seed))
		first, err := Format(src, o)
		if err != nil {
			first = "error: " + err.Error()
		}
		for i := 0; i < 8; i++ {
			if i%3 == 2 {
				Format(corpus[r.Intn(len(corpus))].text[:0]+"(ns a (:use [b :only [c]]) (:require [d :as e]))", o)
			}
			again, err := Format(src, rebuilt(r, o))
			if err != nil {
				again = "error: " + err.Error()
			}
			c.Count("repetitions compared", 1)
			if again != first {
				return "formatting is not deterministic: " + diffText(first, again)
			}
		}
		c.Case(src+o.String(), first != src)
		if proc && o.Indent == nil && o.Thread == nil && err == nil && o.Parse == parse.IncludeNonSemantic && (o.Char == 0 || o.Char == ' ') {
			cmd := exec.Command(c.Tool, transformArgs(o)...)
			cmd.Env = []string{"HOME=" + c.Dir, "GOCOVERDIR=" + os.Getenv("GOCOVERDIR")}
			cmd.Stdin = strings.NewReader(src)
			out, err := cmd.Output()
			if err != nil {
				return "another process fails: " + err.Error()
			}
			c.Count("processes compared", 1)
			if string(out) != first {
				return "another process gives another result: " + diffText(first, string(out))
			}
		}
		return ""
	})
}

// transformArgs spells the transform settings as flags.
func transformArgs(o *FmtOpts) []string {
	var args []string
	for _, n := range transformNames {
		if v, ok := o.Set[n]; ok {
			if v {
				args = append(args, "-enable-transform", n)
			} else {
				args = append(args, "-disable-transform", n)
			}
		}
	}
	return args
}

// --- C21

func c21(c *Ctx, idx int) {
	r := c.Rand(idx)
	var srcs []string
	var opts []*FmtOpts
	nChanged := 0
	for i := 0; i < 4; i++ {
		var s string
		if i%2 == idx%2 {
			s2, ok := c.anyNS(r)
			if !ok {
				s2 = "(ns a (:require [b :as c]))"
			}
			s = s2
		} else {
			s = c.smallSource(r)
		}
		if idx%5 == 2 {
			s = overrideText(r)
		}
		srcs = append(srcs, s)
		o := RandOpts(r, true)
		if r.Intn(2) == 0 {
			RandOverrides(r, o)
		}
		if r.Intn(5) == 0 {
			o.Char = '\t'
		} else {
			o.Char = ' '
		}
		opts = append(opts, o)
	}
	if idx%3 == 0 { // the same options throughout
		for i := range opts {
			opts[i] = opts[0]
		}
	}
	defaults := maps.Clone(format.DefaultTransforms)
	var b1, b2 bytes.Buffer
	p1, p2 := format.NewPrinter(&b1), format.NewPrinter(&b2)
	shared := map[format.Transform]bool{} // a map the caller keeps changing
	fail := func(i int, m string) {
		c.Violate(m, strings.Join(srcs[:i+1], "\n;; ---- next text\n"), opts[i].String())
	}
	for i, src := range srcs {
		o := opts[i]
		want, err := Format(src, o)
		if err != nil {
			continue
		}
		if want != src {
			nChanged++
		}
		set := func(p *format.Printer) (m1 map[string]format.IndentStyle, m2 map[string]format.ThreadFirstStyle, m3 map[format.Transform]bool) {
			p.IndentChar, p.IndentOverrides, p.ThreadFirstStyleOverrides = o.Char, o.Indent, o.Thread
			if idx%2 == 0 {
				clear(shared)
				maps.Copy(shared, o.transforms())
				p.Transforms = shared
			} else {
				p.Transforms = o.transforms()
			}
			return maps.Clone(p.IndentOverrides), maps.Clone(p.ThreadFirstStyleOverrides), maps.Clone(p.Transforms)
		}
		for k, p := range []*format.Printer{p1, p2} {
			buf := &b1
			if k == 1 {
				buf = &b2
			}
			buf.Reset()
			t, err := parseSrc(src, o.Parse)
			if err != nil {
				fail(i, "parsing once more fails: "+err.Error())
				return
			}
			m1, m2, m3 := set(p)
			err = p.PrintTree(t)
			if err != nil {
				fail(i, "printing fails: "+err.Error())
				return
			}
			c.Count("prints compared", 1)
			if got := buf.String(); got != want {
				fail(i, fmt.Sprintf("print %d of a reused Printer differs from a fresh one: %s", i+1, diffText(want, got)))
				return
			}
			c.Count("option maps compared", 3)
			if !maps.Equal(m1, p.IndentOverrides) || !maps.Equal(m2, p.ThreadFirstStyleOverrides) || !maps.Equal(m3, p.Transforms) {
				fail(i, "printing changes the caller's option maps")
				return
			}
			if p.IndentChar != o.Char {
				fail(i, "printing changes the indentation character")
				return
			}
			if !maps.Equal(defaults, format.DefaultTransforms) {
				fail(i, "printing changes the default transforms")
				return
			}
			if k == 1 && idx%4 == 1 {
				// the tree once more, with a fresh Printer
				twice, err := printTree(t, o)
				if err != nil {
					fail(i, "printing a tree twice fails: "+err.Error())
					return
				}
				c.Count("trees printed twice", 1)
				if twice != want {
					fail(i, "printing a tree a second time gives another text: "+diffText(want, twice))
					return
				}
			}
		}
	}
	c.Case(strings.Join(srcs, "\n"), nChanged >= 2)
}

// anyNS is a text that begins with a random ns form.
func (c *Ctx) anyNS(r *rand.Rand) (string, bool) {
	return c.NSSource(r, gen.DefaultNS(r), gen.Pick(r, []float64{0, 0, 0.02, 0.1}))
}
