package main

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"

	"github.com/cespare/goclj/format"
	"github.com/cespare/goclj/parse"

	"goclj.verif/mon/gen"
)

func init() {
	register(&Check{
		ID: "C29", Quick: 2150, Thorough: 6000, Workers: 5,
		Rule: "Families of texts that grow in one direction (length, breadth, depth, number of comments, of requires, of clauses, of bindings, unfinished forms, ..., very many of each of 28 things in each of 52 places, and long runs of each of 35 things in each of 13 tokens), alone or combined at random, are parsed without non-semantic nodes, and parsed and formatted, at size n and at size 16n; a monitor measures the CPU time of the process and the bytes allocated, each relative to the size of input and output. The larger size may cost at most 5 times as much per byte (quadratic cost makes it 16 times); a time is a violation only if it is confirmed by repeated measurement. Non-trivial: the larger run takes at least 1 ms.",
		Min:  map[string]int64{"families": 1700, "cost ratios compared": 3500},
		Init: func(*Ctx) { debug.SetGCPercent(400) },
		Run:  c29,
	})
}

type family struct {
	name string
	mk   func(n int) string
}

func rep(s string) func(n int) string {
	return func(n int) string { return strings.Repeat(s, n) }
}

// wrapped puts n pieces between two texts.
func wrapped(a, s, b string) func(n int) string {
	return func(n int) string { return a + strings.Repeat(s, n) + b }
}

// numbered formats i into a piece for each i.
func numbered(a, piece, b string) func(n int) string {
	k := strings.Count(piece, "%d")
	return func(n int) string {
		var sb strings.Builder
		sb.WriteString(a)
		for i := 0; i < n; i++ {
			args := make([]any, k)
			for j := range args {
				args[j] = i
			}
			fmt.Fprintf(&sb, piece, args...)
		}
		sb.WriteString(b)
		return sb.String()
	}
}

func nested(open, mid, cl string) func(n int) string {
	return func(n int) string { return strings.Repeat(open, n) + mid + strings.Repeat(cl, n) }
}

var families = []family{
	{"symbols", rep("abc ")},
	{"symbol lines", rep("abc\n")},
	{"list", wrapped("(f ", "x ", ")")},
	{"list on lines", wrapped("(f ", "x\n ", ")")},
	{"vector on lines", wrapped("[", "x\n", "]")},
	{"map pairs", numbered("{", ":k%d v\n", "}")},
	{"set", wrapped("#{", "x ", "}")},
	{"long symbol", rep("abcd")},
	{"long keyword", wrapped(":", "abcd", "")},
	{"long number", rep("1234")},
	{"long string", wrapped("\"", "abc ", "\"")},
	{"string with lines", wrapped("(f \"", "abc\n   d", "\")")},
	{"docstring", wrapped("(defn f \"", "abc\n   d", "\" [x] y)")},
	{"string escapes", wrapped("\"", `\n\"`, "\"")},
	{"long comment", wrapped(";", "abc ", "\n")},
	{"comments", rep("; abc\n")},
	{"comments in a list", wrapped("(f ", "; abc\n", "x)")},
	{"trailing comments", rep("x ; abc\n")},
	{"newlines", wrapped("a", "\n", "b")},
	{"newlines in a list", wrapped("(a", "\n", "b)")},
	{"trailing newlines in a list", wrapped("(a b", "\n", ")")},
	{"leading newlines in a list", wrapped("(", "\n", "a b)")},
	{"spaces", wrapped("a", " ", "b")},
	{"commas", wrapped("[a", ",", "b]")},
	{"CRLF lines", rep("(a\r\nb)\r\n")},
	{"characters", rep(`\a \newline \( `)},
	{"regexes", rep(`#"a.b" `)},
	{"wide characters", rep("日本 é ")},
	{"invalid UTF-8", rep("\xff\xfe ")},
	{"defns", numbered("", "(defn f%d [x]\n  (+ x\n1))\n\n", "")},
	{"ifs", rep("(if a b\n c)\n")},
	{"discards", rep("#_ a ")},
	{"chained discards", func(n int) string { return strings.Repeat("#_ ", n) + strings.Repeat("a ", n) }},
	{"chained metadata", func(n int) string { return strings.Repeat("^:a ", n) + "x" }},
	{"quotes", func(n int) string { return strings.Repeat("'", n) + "x" }},
	{"prefixes", func(n int) string { return strings.Repeat("'`@~~@#'#_", n) + "x" }},
	{"anonymous functions", rep("#(f %1 %2) ")},
	{"reader conditionals", rep("#?(:clj a :cljs b) ")},
	{"tags", rep("#foo/bar x ")},
	{"namespaced maps", rep("#:a{:b c} ")},
	{"eval", rep("#=(f) ")},
	{"nested lists", nested("(", "x", ")")},
	{"nested calls", nested("(f ", "x", ")")},
	{"nested vectors", nested("[", "x", "]")},
	{"nested maps", nested("{:a ", "x", "}")},
	{"nested calls on lines", func(n int) string { return nested("(f\n", "x", ")")(isqrt(n * 20)) }},
	{"nested lets", func(n int) string { return nested("(let [a b]\n", "x", ")")(isqrt(n * 20)) }},
	{"nested threads", nested("(-> x (f ", "y", "))")},
	{"nested ifs", func(n int) string { return nested("(if a\n b ", "c", ")")(isqrt(n * 20)) }},
	{"nested metadata and discards", nested("^{:a #_ (", "x", ")} y")},
	{"let bindings", numbered("(let [", "a%d (f\n%d)\n", "] x)")},
	{"for clauses", numbered("(for [", "a%d (f\n%d) :let [b\n c] ", "] x)")},
	{"letfn", numbered("(letfn [", "(f%d [x]\n y)\n", "] x)")},
	{"cond", wrapped("(cond ", "(a)\n(b) ", ")")},
	{"case", numbered("(case x ", "%d\n(b) ", ")")},
	{"condp", numbered("(condp = x ", "%d\n(b) ", ")")},
	{"thread", wrapped("(-> x ", "(f\n a) ", ")")},
	{"cond->", wrapped("(cond-> x ", "a? (f\n a) ", ")")},
	{"deftype", numbered("(defrecord A [x] B ", "(f%d [x]\n y)\n", ")")},
	{"strings in a list", wrapped("(f ", "\"a\nb\" ", ")")},
	{"requires", numbered("(ns a (:require ", "[lib%d :as l%d]\n", "))")},
	{"requires backwards", func(n int) string {
		var b strings.Builder
		b.WriteString("(ns a (:require ")
		for i := n; i > 0; i-- {
			fmt.Fprintf(&b, "[lib%08d :refer [f%d]]\n", i, i)
		}
		return b.String() + "))"
	}},
	{"the same require", wrapped("(ns a (:require ", "[lib :as l] ", "))")},
	{"plain requires", numbered("(ns a (:require ", "lib%d ", "))")},
	{"requires with comments", numbered("(ns a (:require ", "; c%d\n[lib%d :as l%d] ; d\n", "))")},
	{"refers", numbered("(ns a (:require [lib :refer [", "f%d ", "]]))")},
	{"require clauses", numbered("(ns a ", "(:require [lib%d :as l%d])\n", ")")},
	{"uses", numbered("(ns a (:use ", "[lib%d :only [f%d]]\n", "))")},
	{"use clauses", numbered("(ns a ", "(:use lib%d)\n", ")")},
	{"imports", numbered("(ns a (:import ", "java.util.C%d ", "))")},
	{"import lists", numbered("(ns a (:import ", "(java.p%d C D)\n", "))")},
	{"one import list", numbered("(ns a (:import (java.util ", "C%d ", ")))")},
	{"prefix lists", numbered("(ns a (:require ", "(p%d [a :as b] c) ", "))")},
	{"requires and their uses", func(n int) string {
		var a, b strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&a, "[lib%d :as l%d :refer [g%d]]\n", i, i, i)
			fmt.Fprintf(&b, "(l%d/f g%d)\n", i, i)
		}
		return "(ns a (:require " + a.String() + "))\n" + b.String()
	}},
	{"overridden names", numbered("(ns a (:require [my.ns :as my :refer [foo]]))\n", "(my/foo %d\nx)\n(foo x\ny)\n", "")},
	{"unused requires and code", func(n int) string {
		var a, b strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&a, "[lib%d :as l%d]\n", i, i)
			fmt.Fprintf(&b, "(m%d/f %d)\n", i, i)
		}
		return "(ns a (:require " + a.String() + "))\n" + b.String()
	}},
	{"unfinished lists", rep("(f [")},
	{"unfinished string", wrapped("\"", "abc\n", "")},
	{"closing brackets", rep(") ]")},
	{"hashes at the end", func(n int) string { return strings.Repeat("a ", n) + "#" }},
	{"defmethods", numbered("", "(defmethod foo\n :k%d\n [x] y)\n", "")},
	{"dispatch lines", func(n int) string { return "(defmethod foo " + strings.Repeat("\n", n) + ":x [y] z)" }},
	{"arglist lines", func(n int) string { return "(defn foo " + strings.Repeat("\n", n) + "[y] z)" }},
	{"if lines", func(n int) string { return "(if a " + strings.Repeat("\n", n) + "b c)" }},
	{"column", func(n int) string { return "(f " + strings.Repeat("(g a) ", n) + "[b\nc])" }},
	{"columns", func(n int) string { return strings.Repeat("(f (g \"é\" (h a\nb)) [b\nc])", n) }},
	{"one long line of lets", rep("(let [a\nb] c) ")},
	{"metadata in arguments", wrapped("(-> x ", "^:a (f\n b) ", ")")},
	{"comment forms", rep("(comment a (b\nc))\n")},
}

// A filled place is a text with room for very many of something.
var fillPlaces = [][2]string{
	{"", "\nx"}, {"(f ", ")"}, {"(", "f x)"}, {"(f x\n", "y)"}, {"[", "]"}, {"#{", "\n}"}, {"{:a ", "b}"}, {"{:a\n", "b}"}, {"#(f ", ")"}, {"#?(:clj ", "x)"},
	{"(ns a ", ")"}, {"(ns a\n  (:require\n ", "[b]))"}, {"(ns a (:require [b] ", "))"}, {"(ns a (:require [b :as c ", "]))"}, {"(ns a (:require [b :refer [", "c]]))"},
	{"(ns a (:use ", "[b :only [c]]))"}, {"(ns a (:use b\n", "))"}, {"(ns a (:use b) (:require ", "c))"}, {"(ns a (:import ", "(b C)))"}, {"(ns a (:import (b ", "C)))"}, {"(ns a (:require-macros ", "[b]))"}, {"(ns a (:gen-class ", "))"},
	{"(ns a (:require [b] [b :as c] ", "[b :refer [d]]))"}, {"(defn f ", "[x] y)"}, {"(defn f [", "] y)"}, {"(defn f \"d\" ", "[x]\ny)"}, {"(defmethod f ", ":k [x] y)"}, {"(if ", "a b c)"}, {"(if a ", "b\nc)"}, {"(if a\nb ", "c)"}, {"(if-let [a b] c ", "d\ne)"},
	{"(let [", "a b] c)"}, {"(let [a ", "b] c)"}, {"(let ", "[a b] c)"}, {"(for [a b :let ", "[c\nd]] e)"}, {"(letfn [", "(f [x] y)] z)"}, {"(letfn [(f [x] ", "y)] z)"}, {"(-> ", "a (b\nc))"}, {"(-> a ", "(b\nc))"}, {"(cond-> a ", "b (c\nd))"},
	{"(cond ", "a\nb)"}, {"(cond a ", "b c\nd)"}, {"(case a ", "b\nc d)"}, {"(condp a b ", "c :>> d\ne)"}, {"(condp a b c ", ":>>\nd e)"}, {"(defrecord A [b] ", "C (d [e]\nf))"}, {"^", "{:a b} c"}, {"#_", "a b"}, {"'(", "a)"}, {"(comment ", "x)"}, {"(def a ", "\"b\nc\" d)"},
}

var fillers = []struct{ name, text string }{
	{"comments", ";\n"}, {"comment lines", "; abc\n"}, {"newlines", "\n"}, {"symbols", "a "}, {"symbol lines", "abc\n"}, {"metadata", "^:a "}, {"discards", "#_a "}, {"discard lines", "#_a\n"}, {"vectors", "[a b] "},
	{"lists", "(a\nb) "}, {"keywords", ":k "}, {"strings", "\"a\" "}, {"string lines", "\"a\nb\" "}, {"qualified symbols", "a/b "}, {"prefixed", "'a @b "}, {"class names", "a.b.C "}, {"options", ":as x "}, {"same requires", "[z :as y]\n"}, {"tags", "#a b "}, {"commented vectors", "; c\n[a] ; d\n"}, {"dots", "a.b "},
}

// unclosed is for the fillers which open something in every repetition.
var unclosed = []struct{ name, open, cl string }{
	{"calls", "(f ", ")"}, {"maps", "{a ", "}"}, {"fn", "(fn [a]\n", ")"}, {"vectors", "[", "]"}, {"quotes", "'", ""}, {"metadata maps", "^{:a ", "} b"}, {"threads", "(-> ", " a)"},
}

var simpleFamilies = len(families)

func init() {
	for _, p := range fillPlaces {
		for _, f := range fillers {
			families = append(families, family{f.name + " in " + p[0] + " " + p[1], wrapped(p[0], f.text, p[1])})
		}
		for _, f := range unclosed {
			p := p
			mid := "x "
			mk := func(n int) string { return p[0] + nested(f.open, mid, f.cl)(n) + " " + p[1] }
			if strings.Contains(f.open, "\n") {
				mk = func(n int) string { return p[0] + nested(f.open, mid, f.cl)(isqrt(n*20)) + " " + p[1] }
			}
			families = append(families, family{"nested " + f.name + " in " + p[0] + " " + p[1], mk})
		}
	}
}

// Very long runs of one thing inside of a token.
var runPlaces = [][2]string{
	{"(f \"", "\" x)"}, {"(defn f \"", "\" [x])"}, {"(f #\"", "\" x)"}, {"(f ;", "\nx)"}, {"(f a", " x)"}, {"(f :a", " x)"}, {"(f ::a/", "b x)"}, {"(f 1", " x)"}, {"(f #'a", " x)"}, {"(f #a", " x)"}, {"(ns a (:require [a", " :as b]))"}, {"(ns a (:import a", ".B))"}, {"(f \\", " x)"},
}

var runs = []string{"a", "é", "日", "0", "-", ".", "/", "'", "*", "+", "%", "#", ":", "a.b", "a/b", "a-", "\\\\", "\\\"", "\\n", "\\u00e9", " ", "  a", "\t", "\n", "\n  ", "a\n", "\r", "\r\n", ";", "(", ")", "\x00", "\xff", "F", ","}

func init() {
	for _, p := range runPlaces {
		for _, s := range runs {
			mk := wrapped(p[0], s, p[1])
			families = append(families, family{fmt.Sprintf("run of %q in %s %s", s, p[0], p[1]), mk})
		}
	}
}

func isqrt(n int) int {
	i := 1
	for i*i < n {
		i++
	}
	return i
}

// cost is what one operation took.
type cost struct {
	cpu   float64 // seconds
	alloc float64 // bytes
	size  float64 // bytes in and out
}

func cpuTime() float64 {
	var ru syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &ru); err != nil {
		panic(err)
	}
	tv := func(t syscall.Timeval) float64 { return float64(t.Sec) + float64(t.Usec)/1e6 }
	return tv(ru.Utime) + tv(ru.Stime)
}

type countWriter int64

func (w *countWriter) Write(p []byte) (int, error) { *w += countWriter(len(p)); return len(p), nil }

// costOp is one operation; it returns the number of bytes written.
type costOp struct {
	name string
	run  func(src string) int64
}

func costOps(o *FmtOpts) []costOp {
	return []costOp{
		{"parse", func(src string) int64 {
			parse.Reader(strings.NewReader(src), "t.clj", 0)
			return 0
		}},
		{"format", func(src string) int64 {
			t, err := parse.Reader(strings.NewReader(src), "t.clj", parse.IncludeNonSemantic)
			if err != nil {
				return 0
			}
			var w countWriter
			p := format.NewPrinter(&w)
			p.IndentOverrides, p.ThreadFirstStyleOverrides, p.Transforms = o.Indent, o.Thread, o.transforms()
			if err := p.PrintTree(t); err != nil {
				panic(err)
			}
			return int64(w)
		}},
	}
}

func measure(op costOp, src string, times int) cost {
	best := cost{cpu: 1e9, alloc: 1e18}
	for i := 0; i < times; i++ {
		runtime.GC()
		old := debug.SetGCPercent(-1)
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		t0 := cpuTime()
		out := op.run(src)
		t1 := cpuTime()
		runtime.ReadMemStats(&m1)
		debug.SetGCPercent(old)
		best.cpu = min(best.cpu, t1-t0)
		best.alloc = min(best.alloc, float64(m1.TotalAlloc-m0.TotalAlloc))
		best.size = float64(len(src)) + float64(out)
	}
	return best
}

const (
	costFactor = 16
	costRatio  = 5.0 // allowed growth of the cost per byte
	deepRatio  = 7.0 // the same for deep texts, where the growing stack costs extra (up to 3.6 seen)
)

func c29(c *Ctx, idx int) {
	r := c.Rand(idx)
	var f family
	switch {
	case idx < len(families):
		f = families[idx]
	default: // a combination
		a, b := gen.Pick(r, families), gen.Pick(r, families)
		k := r.Intn(4)
		f.name = fmt.Sprintf("%s and %s (%d)", a.name, b.name, k)
		f.mk = func(n int) string {
			x, y := a.mk(n), b.mk(n)
			switch k {
			case 0:
				return x + "\n" + y
			case 1:
				return "(foo " + x + "\n" + y + "\n)"
			case 2:
				return "(let [a " + y + "\n b c]\n" + x + "\n)"
			default:
				return "^{:a\n" + x + "\n} [ " + y + "\n ]"
			}
		}
	}
	o := Defaults()
	switch r.Intn(3) {
	case 0:
		o.Set = map[string]bool{}
		for _, n := range transformNames {
			o.Set[n] = true
		}
	case 1:
		o = RandOpts(r, true)
	}
	if strings.Contains(f.name, "uses") || strings.Contains(f.name, "use clauses") || strings.Contains(f.name, "unused") {
		o.Set = map[string]bool{"use-to-require": true, "remove-unused-requires": true}
	}
	if strings.Contains(f.name, "overridden") && o.Indent == nil {
		o.Indent = map[string]format.IndentStyle{"my.ns/foo": format.IndentListBody}
	}
	for _, op := range costOps(o) {
		if idx >= simpleFamilies && idx < len(families) && !strings.HasPrefix(f.name, "run of") && op.name == "parse" && r.Intn(4) > 0 {
			continue // formatting includes it
		}
		long := 0.03
		if idx < simpleFamilies && op.name == "format" {
			long = 0.3
		}
		if m := c.compareCost(f, op, long); m != "" {
			c.Violate(m, trunc(f.mk(3), 500), o.String())
			return
		}
	}
	if s := c.set("families"); !s[f.name] {
		s[f.name] = true
		c.Count("families", 1)
	}
}

// compareCost compares sizes n and 16n. n is chosen so that the larger run is
// long enough to be measured, or for its slow parts to show.
func (c *Ctx) compareCost(f family, op costOp, long float64) string {
	n := 100
	limit, deep := costRatio, false
	for _, name := range []string{"nested", "run of \"(\"", "quotes", "prefixes", "chained", "unfinished"} {
		if strings.Contains(f.name, name) {
			limit, deep = deepRatio, true
		}
	}
	var big cost
	for {
		src := f.mk(n * costFactor)
		start := time.Now()
		big = measure(op, src, 1)
		if big.cpu > long || n >= 12800 || len(src) > 3<<20 || time.Since(start) > 5*time.Second {
			break
		}
		n *= 2
	}
	small := measure(op, f.mk(n), 5)
	grow := func(a, b, sa, sb float64) float64 { return (b / sb) / (a / sa) }
	// allocations
	ra := grow(small.alloc+4096, big.alloc, small.size+64, big.size)
	c.Count("cost ratios compared", 2)
	if m := int64(ra * 100); m > c.res.Counters["max allocation growth, percent"] {
		c.res.Counters["max allocation growth, percent"] = m
	}
	if ra > limit && big.alloc > 8<<20 {
		return fmt.Sprintf("memory per byte grows with the size: %s, %s: %.0f bytes allocated for %.0f, %.0f for %.0f", f.name, op.name, small.alloc, small.size, big.alloc, big.size)
	}
	// time; a clock tick of granularity is added to the smaller one
	rt := grow(small.cpu+0.0003, big.cpu, small.size+64, big.size)
	for {
		for try := 0; rt > limit && try < 5; try++ {
			s, b := measure(op, f.mk(n), 10), measure(op, f.mk(n*costFactor), 2)
			small.cpu = max(small.cpu, s.cpu)
			big.cpu = min(big.cpu, b.cpu)
			rt = grow(small.cpu+0.0003, big.cpu, small.size+64, big.size)
		}
		// If the time may be growing, see whether it grows on. (Not for deep
		// texts: the growth of the stack makes very deep ones more expensive.)
		if deep || rt < 2.2 || rt > limit || big.cpu > 1.5 || n > 25600 || big.size > 4<<20 {
			break
		}
		n *= 2
		small, big = measure(op, f.mk(n), 3), measure(op, f.mk(n*costFactor), 1)
		rt = grow(small.cpu+0.0003, big.cpu, small.size+64, big.size)
		c.Count("cost ratios compared at larger sizes", 1)
	}
	if m := int64(rt * 100); m > c.res.Counters["max time growth, percent"] {
		c.res.Counters["max time growth, percent"] = m
	}
	c.Case(fmt.Sprint(f.name, " ", op.name, " n=", n*costFactor), big.cpu > 0.001)
	if rt > limit && big.cpu > 0.02 {
		return fmt.Sprintf("time per byte grows with the size: %s, %s: %.4f s for %.0f bytes, %.4f s for %.0f bytes", f.name, op.name, small.cpu, small.size, big.cpu, big.size)
	}
	return ""
}
