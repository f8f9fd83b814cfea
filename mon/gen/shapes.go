package gen

import (
	"fmt"
	"math/rand"
	"strings"
)

// Shape makes an extreme but well-formed text: deep, wide, long tokens, many
// lines. scale 1 is for every-change runs.
func Shape(r *rand.Rand, scale int) string {
	n := func(lo, hi int) int {
		if r.Intn(4) == 0 {
			return max(DictInt(r, hi*scale), 1)
		}
		return lo + r.Intn((hi-lo)*scale+1)
	}
	var b strings.Builder
	switch r.Intn(14) {
	case 0: // deep nesting of one or several collection kinds
		opens := [][2]string{{"(", ")"}, {"[", "]"}, {"{:a ", "}"}, {"(do ", ")"}, {"(let [x ", "] 1)"}, {"#{", "}"}, {"'(", ")"}, {"#?(:clj ", ")"}, {"(-> x ", ")"}, {"(cond a ", ")"}}
		d := n(50, 400)
		var close []string
		k := r.Intn(len(opens))
		mixed := r.Intn(2) == 0
		for i := 0; i < d; i++ {
			if mixed {
				k = r.Intn(len(opens))
			}
			b.WriteString(opens[k][0])
			close = append(close, opens[k][1])
		}
		b.WriteString("x")
		for i := d - 1; i >= 0; i-- {
			b.WriteString(close[i])
		}
		b.WriteString("\n")
	case 1: // deep nesting with line breaks
		d := n(30, 150)
		for i := 0; i < d; i++ {
			b.WriteString(Pick(r, []string{"(foo\n", "(foo bar\n", "[", "(when x\n", "{:a\n"}))
			_ = i
		}
		s := b.String()
		b.WriteString("x")
		for i := len(s) - 1; i >= 0; i-- {
			switch s[i] {
			case '(':
				b.WriteByte(')')
			case '[':
				b.WriteByte(']')
			case '{':
				b.WriteByte('}')
			}
		}
		b.WriteString("\n")
	case 2: // wide
		w := n(500, 4000)
		o := Pick(r, [][2]string{{"[", "]"}, {"(f ", ")"}, {"#{", "}"}, {"{", "}"}, {"(cond ", ")"}, {"(-> ", ")"}})
		b.WriteString(o[0])
		for i := 0; i < w*2; i++ {
			if i > 0 {
				b.WriteString(Pick(r, []string{" ", "  ", "\n", " ", " ", ", "}))
			}
			b.WriteString(Pick(r, []string{"a", ":k", "12", `"s"`, "(f x)", "[1]", `\c`, fmt.Sprintf("s%d", i)}))
		}
		b.WriteString(o[1] + "\n")
	case 3: // long token
		l := n(3000, 20000)
		if r.Intn(4) == 0 {
			l = DictInt(r, 20000) // around a round number
			if r.Intn(2) == 0 {
				l += r.Intn(9) - 4
			}
			l = max(l, 1)
		} else if r.Intn(3) == 0 {
			l = 4096*(1+r.Intn(3)) - 4 + r.Intn(9)
		}
		tok := strings.Repeat(Pick(r, []string{"a", "b-", "xé", "日"}), l)
		if r.Intn(2) == 0 && len(tok) >= 6 {
			tok = tok[:len(tok)-len(tok)%6]
		}
		switch r.Intn(5) {
		case 0:
			b.WriteString("(" + tok + " y\n z)\n")
		case 1:
			b.WriteString("[:" + tok + " y\n z]\n")
		case 2:
			b.WriteString("(f \"" + tok + "\" y\n z)\n")
		case 3:
			b.WriteString("(f ;" + tok + "\n z)\n")
		case 4:
			b.WriteString("(f #\"" + tok + "\" y\n z)\n")
		}
	case 4: // many top-level forms
		w := n(300, 2000)
		for i := 0; i < w; i++ {
			fmt.Fprintf(&b, "(def x%d %d)%s", i, i, Pick(r, []string{"\n", "\n\n", "\n\n\n", " ", " ; c\n"}))
		}
	case 5: // many comments
		w := n(200, 1500)
		b.WriteString("[")
		for i := 0; i < w; i++ {
			fmt.Fprintf(&b, "%s; c%d\n", Pick(r, []string{"", "x ", " ", "\n"}), i)
		}
		b.WriteString("]\n")
	case 6: // many newlines
		b.WriteString("(a" + strings.Repeat("\n", n(100, 3000)) + "b" + strings.Repeat(" ", n(10, 5000)) + "c)\n")
	case 7: // multi-line string and docstring
		b.WriteString("(def x \"doc")
		for i := n(100, 1000); i > 0; i-- {
			b.WriteString("\n" + strings.Repeat(" ", r.Intn(12)) + "line")
		}
		b.WriteString("\" " + Pick(r, []string{"y", "", "; c\n", "#_y"}) + ")\n")
	case 8: // prefix towers
		p := Pick(r, []string{"'", "`", "@", "~", "#_", "^"})
		d := n(20, 300)
		if p == "#_" || p == "^" {
			// stacked: needs as many forms
			b.WriteString(strings.Repeat(p, d) + "a" + strings.Repeat(" b", d) + "\n")
			break
		}
		if p == "~" {
			b.WriteString(strings.Repeat(Pick(r, []string{"~", "~@", "~ @"}), d) + "a\n")
			break
		}
		b.WriteString("(x " + strings.Repeat(p, d) + "a\n b)\n")
	case 9: // big ns
		b.WriteString("(ns a\n  (:require\n")
		w := n(50, 400)
		for i := 0; i < w; i++ {
			fmt.Fprintf(&b, "   [lib%d.core :as l%d :refer [a%d b%d]]%s\n", r.Intn(10*w), i, i, i, Pick(r, []string{"", "", "", " ; c" + fmt.Sprint(i)}))
		}
		b.WriteString("  )\n  (:import\n")
		for i := 0; i < w/4; i++ {
			fmt.Fprintf(&b, "   %s\n", Pick(r, []string{fmt.Sprintf("(pkg%d A B)", r.Intn(w)), fmt.Sprintf("pkg%d.C", r.Intn(w))}))
		}
		b.WriteString("   ))\n")
	case 10: // long single line, alignment far to the right
		b.WriteString("(a (b " + strings.Repeat("é", n(10, 300)) + " {:k (let [x 1\n y 2]\n z)\n:l\n3}\nq))\n")
	case 11: // long chain of pairs
		b.WriteString("(case x\n")
		for i := n(100, 1000); i > 0; i-- {
			fmt.Fprintf(&b, "%s%s%s\n", Pick(r, []string{":a", "[1]", "(b)", ":>>"}), Pick(r, []string{" ", "\n", "\n\n", " ;c\n"}), Pick(r, []string{"y", "(f\nx)", ":>>"}))
		}
		b.WriteString(")\n")
	case 12: // nested threads
		d := n(5, 60)
		for i := 0; i < d; i++ {
			b.WriteString(Pick(r, []string{"(-> x\n", "(cond-> x\n t\n", "(some-> x ", "(->> x\n"}))
		}
		b.WriteString("(case 1\n 2)" + strings.Repeat(")", d) + "\n")
	default: // nested ifs and defs
		d := n(10, 100)
		for i := 0; i < d; i++ {
			b.WriteString(Pick(r, []string{"(if x a\n", "(if x\n a ", "(if-let [y x] a\n\n\n", "(defn f\n [x] ", "(defmethod f\n :k "}))
		}
		b.WriteString("z" + strings.Repeat("\n)", d) + "\n")
	}
	return b.String()
}

// Respace puts new whitespace and comments between the tokens of a text.
func (g *G) Respace(toks []string) string {
	var b strings.Builder
	for i, t := range toks {
		if i > 0 {
			prev := toks[i-1]
			switch {
			case prev[0] == '#' && len(prev) == 1, prev == "'", prev == "`", prev == "@", prev == "~", prev == "~@", prev == "^", prev == "#'", prev == "#?", prev == "#?@", prev == "#=", prev == "#_", strings.HasPrefix(prev, "#:"):
				// stay attached
				if prev == "~" && t[0] == '@' {
					b.WriteByte(' ')
				}
			case strings.HasSuffix(prev, "(") || strings.HasSuffix(prev, "[") || strings.HasSuffix(prev, "{") || t == ")" || t == "]" || t == "}":
				b.WriteString(g.Edge())
			default:
				b.WriteString(g.Sep())
			}
		}
		b.WriteString(t)
	}
	b.WriteString("\n")
	return b.String()
}
