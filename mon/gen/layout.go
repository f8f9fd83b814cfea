package gen

import (
	"math/rand"
	"strings"
)

// layoutHeads has a name of every style, and some near misses.
var layoutHeads = []string{"f", "let", "defn", "if", "cond", "case", "condp", "cond->", "cond->>", "->", "->>", "some->", "as->", "doto", "letfn", "for", "fn", "when", "deftype", "defrecord",
	"reify", "proxy", "extend-protocol", "try", "catch", "ns", "comment", "assoc", "hash-map", "and", "do", "loop", "binding", "with-open", "case-x", ":k", "defmethod", "def", "%", "[v]", "(g)", "\"s\"", "1", "x/let", "x/->", ""}

var layoutWraps = [][2]string{{"(", ")"}, {"(", ")"}, {"(", ")"}, {"#(", ")"}, {"[", "]"}, {"{", "}"}, {"#{", "}"}, {"'(", ")"}, {"`(", ")"}, {"#?(", ")"}, {"#?@(", ")"}, {"@(", ")"}, {"^:m (", ")"}, {"^(", ") x"}, {"#_(", ")"}, {"#t (", ")"}, {"#:a{", "}"}, {"~(", ")"}}

// Layout is the k-th way to put one form with a layout of its own inside
// another, each in some kind of brackets, with random line breaks.
func Layout(r *rand.Rand, k int) string {
	nh, nw := len(layoutHeads), len(layoutWraps)
	digit := func(n int) int {
		d := k % n
		k /= n
		return d
	}
	type level struct{ head, wrap, at int }
	levels := []level{
		{head: digit(nh)}, {head: digit(nh)},
	}
	for i := range levels {
		levels[i].wrap = r.Intn(nw)
		levels[i].at = r.Intn(4)
	}
	if r.Intn(3) == 0 {
		levels = append(levels, level{r.Intn(nh), r.Intn(nw), r.Intn(4)})
	}
	brk := 0.2 + r.Float64()*0.6
	sep := func() string {
		switch {
		case r.Float64() < brk:
			return Pick(r, []string{"\n", "\n", "\n", "\n", "\n\n", " ; c\n", "\n; c\n", "\n #_z "})
		case r.Intn(12) == 0:
			return Pick(r, []string{" ^:m ", " #_z ", "  "})
		}
		return " "
	}
	arg := func() string {
		return Pick(r, []string{"x", "x", "y", "1", "[a b]", "(g a)", "(g a\nb)", ":k", "{:a 1}", "\"s\"", "[a (g\nb)]", "[a 1\nb 2]", "(foo a\n b)", ":else", ":let", "(-> a\n b)", "'q", "#(g %)"})
	}
	in := ""
	for i := len(levels) - 1; i >= 0; i-- {
		l := levels[i]
		w := layoutWraps[l.wrap]
		h := layoutHeads[l.head]
		if strings.ContainsAny(w[0], "{") || w[0] == "[" && r.Intn(2) == 0 {
			h = Pick(r, []string{":k", "x", "(g a\nb)"})
		}
		var b strings.Builder
		b.WriteString(w[0])
		n := 1 + r.Intn(5)
		at := min(l.at, n-1)
		if h == "" {
			if r.Intn(2) == 0 {
				b.WriteString(Pick(r, []string{"\n", "; c\n", "#_z ", ""}))
			}
		} else {
			b.WriteString(h)
			b.WriteString(sep())
		}
		for j := 0; j < n; j++ {
			if j > 0 {
				b.WriteString(sep())
			}
			if j == at && in != "" {
				b.WriteString(in)
			} else {
				b.WriteString(arg())
			}
		}
		if r.Intn(10) == 0 {
			b.WriteString(sep())
		}
		in = b.String() + w[1]
	}
	if r.Intn(8) == 0 {
		in = "(-> x\n" + in + "\n(f a\nb))"
	}
	return in + "\n"
}

// Layouts is a text of several layouts, starting with the k-th.
func Layouts(r *rand.Rand, k int) string {
	var b strings.Builder
	for n := 2 + r.Intn(4); n > 0; n-- {
		b.WriteString(Layout(r, k))
		b.WriteString(Pick(r, []string{"", "", "\n", "\n\n\n"}))
		k += 7919
	}
	return b.String()
}
