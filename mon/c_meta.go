package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/cespare/goclj/parse"

	"goclj.verif/mon/gen"
	"goclj.verif/mon/ref"
)

func init() {
	register(&Check{
		ID: "C33", Quick: 39000, Thorough: 500000,
		Rule: genRule + "Metamorphic: several top-level forms, with or without an ns form in front, are formatted together and each by itself (with the same ns form); the text made of them must be formatted as the single ones are, one after the other. The same forms inside brackets that do not indent their content further must be formatted as at top level, shifted. Non-trivial: a form of at least two lines which formatting changes.",
		Min:  map[string]int64{"texts put together": 12000, "forms formatted by themselves": 40000, "forms shifted": 35000},
		Run:  c33,
	})
	register(&Check{
		ID: "C34", Quick: 90000, Thorough: 600000,
		Rule: genRule + "Metamorphic: the blanks between the tokens of a text are changed (added, removed, replaced by tabs, commas, form feeds and other blanks, at the start, inside and at the end of lines) without changing a token or a line break. Both texts must give the same output. Non-trivial: at least five places with other blanks, and an output of several lines.",
		Min:  map[string]int64{"texts respaced": 20000, "places with other blanks": 500000},
		Run:  c34,
	})
	register(&Check{
		ID: "C35", Quick: 60000, Thorough: 600000,
		Rule: genRule + "Metamorphic: a text with an ns form (also two, or one in the middle) is formatted twice, with different choices of the four transforms of the ns form and the same of the others. What stands outside the ns forms must be the same text. Non-trivial: the ns forms differ and something stands outside.",
		Min:  map[string]int64{"pairs compared": 16000, "pairs with other ns forms": 9000, "lines outside of ns forms": 150000},
		Run:  c35,
	})
	register(&Check{
		ID: "C36", Quick: 39000, Thorough: 700000,
		Rule: genRule + "Metamorphic: a text is formatted with some of the wanted layout transforms (sort-import-require and the other ns transforms as in the end) and the result with all of them; the same must come out as from formatting once with all. Texts with docstrings of several lines are left out (their indentation is relative to the first pass by design). Non-trivial: the first stage differs from the final text.",
		Min:  map[string]int64{"enumerated short forms": 70000, "texts formatted in stages": 11000, "texts with another first stage": 2200},
		Run:  c36,
	})
}

// --- C33

func c33(c *Ctx, idx int) {
	r := c.Rand(idx)
	o := RandOpts(r, true)
	if r.Intn(3) == 0 {
		RandOverrides(r, o)
	}
	head := ""
	if r.Intn(3) == 0 {
		if n, ok := c.anyNS(r); ok {
			head = strings.TrimSpace(n)
			if o.Set == nil {
				o.Set = map[string]bool{}
			}
			o.Set["remove-unused-requires"] = false // depends on the rest by design
		}
	}
	var parts []string
	for n := 2 + r.Intn(4); n > 0; n-- {
		var s string
		switch r.Intn(6) {
		case 5:
			s = gen.Layouts(r, r.Intn(1<<20))
		case 0:
			s = overrideText(r)
		case 1:
			s = gen.New(r, gen.Default()).Small()
		case 2:
			s = c.smallSource(r)
		default:
			p := gen.Default()
			p.NS = 0
			p = gen.Vary(r, p)
			p.NS = 0
			s = gen.New(r, p).Program()
		}
		if len(s) > 5000 {
			continue
		}
		roots, err := ref.Read(s)
		if err != nil || aboutNames(roots) {
			continue
		}
		s = s[:lastEnd(roots)]
		if roots, err = ref.Read(s); err != nil || len(roots) == 0 || hasPrefixComment(roots) {
			continue
		}
		parts = append(parts, strings.TrimLeft(s, " \t\r\n,\f\v"))
	}
	if len(parts) > 0 && r.Intn(3) == 0 { // the same or its like again and again
		for n := 1 + r.Intn(6); n > 0; n-- {
			i := r.Intn(len(parts) + 1)
			s := gen.Pick(r, parts)
			if r.Intn(2) == 0 {
				s = fmt.Sprintf(gen.Pick(r, repeated), len(parts))
			}
			if len(s) < 1000 {
				parts = append(parts[:i:i], append([]string{s}, parts[i:]...)...)
			}
		}
	}
	if len(parts) < 2 {
		return
	}
	hroots, err := ref.Read(head)
	if err != nil || hasPrefixComment(hroots) {
		return
	}
	sep := gen.Pick(r, []string{"\n", "\n\n", "\n; between\n", "\n\n;; x\n\n"})
	brackets := gen.Pick(r, [][2]string{{"[", "]"}, {"#{", "}"}, {"'[", "]"}, {"[[", "]]"}, {"{:k ", "}"}, {"^:m [", "]"}, {"#_[", "]"}, {"@[a ", "]"}, {"[\n", "]"}, {"[a ; c\n", "]"}})
	part := gen.Pick(r, parts)
	noEnd := r.Intn(2) == 0
	c.Text(strings.Join(append([]string{head}, parts...), sep), o.String(), func(src string) string {
		ps, h, sep, part := parts, head, sep, part
		if src != strings.Join(append([]string{head}, parts...), sep) { // being reduced
			roots, err := ref.Read(src)
			if err != nil || hasPrefixComment(roots) {
				return ""
			}
			ps, h, sep = nil, "", "\n"
			for _, n := range roots {
				if !n.Semantic() {
					continue
				}
				s := src[n.First.Off:n.Last.End]
				if aboutNames([]*ref.Node{n}) {
					h = s
				} else {
					ps = append(ps, s)
				}
			}
			if len(ps) == 0 {
				return ""
			}
			part = ps[len(ps)-1]
		}
		o := o
		end := "\n"
		alone := func(s string) (string, bool) {
			pre := ""
			if h != "" {
				pre = h + "\n\n"
			}
			out, err := Format(pre+s+end, o)
			if err != nil {
				return "", false
			}
			if h == "" {
				return strings.TrimSuffix(out, "\n"), true
			}
			hout, err := Format(h+"\n\nx\n", o)
			if err != nil || !strings.HasSuffix(hout, "\nx\n") {
				return "", false
			}
			rest, ok := strings.CutPrefix(out, strings.TrimSuffix(hout, "x\n"))
			return strings.TrimSuffix(rest, "\n"), ok
		}
		var want []string
		nontrivial := false
		for _, p := range ps {
			w, ok := alone(p)
			if !ok {
				return "" // C01, C11 and others
			}
			nontrivial = nontrivial || w != p && strings.Contains(w, "\n")
			want = append(want, w)
		}
		if noEnd {
			end = ""
		}
		outer, ok := alone(strings.Join(ps, sep))
		end = "\n"
		if !ok {
			return ""
		}
		c.Count("texts put together", 1)
		c.Count("forms formatted by themselves", int64(len(ps)))
		c.Case(src+"\x00"+o.String(), nontrivial)
		if w := strings.Join(want, sep); outer != w {
			return "forms are formatted otherwise together than one by one: " + diffText(w, outer)
		}
		// nested
		roots, err := ref.Read(part)
		if err != nil || len(roots) == 0 {
			return ""
		}
		// these two are about top-level forms only
		no := *o
		no.Set = map[string]bool{"fix-defn-arglist-newline": false, "fix-defmethod-dispatch-val-newline": false}
		for k, v := range o.Set {
			if no.Set[k] = v; strings.HasPrefix(k, "fix-def") {
				no.Set[k] = false
			}
		}
		o = &no
		n := 0
		for _, f := range roots {
			if !f.Semantic() {
				continue
			}
			s := part[f.First.Off:f.Last.End]
			if n++; n > 5 {
				break
			}
			if multilineString(f) {
				continue
			}
			w, ok := alone(s)
			if !ok {
				return ""
			}
			got, ok := alone(brackets[0] + s + brackets[1])
			if !ok {
				return "a form is not formatted inside brackets"
			}
			pre := brackets[0]
			by := len(pre)
			if i := strings.LastIndexByte(pre, '\n'); i >= 0 {
				by = strings.IndexByte(pre, '[') + 1
				pre += strings.Repeat(" ", by)
			}
			ch := " "
			if o.Char != 0 {
				ch = string(o.Char)
			}
			if ch != " " {
				return ""
			}
			post := brackets[1]
			if p, ok := strings.CutPrefix(post, "\n"); ok {
				post = "\n" + strings.Repeat(" ", by) + p
			}
			if strings.HasPrefix(w, "#_") && o.On("remove-unused-requires") {
				continue
			}
			if rs, err := ref.Read(s); err != nil || len(rs) == 0 || !rs[0].Semantic() {
				continue // a comment inside is put in front of the form
			}
			lines := strings.Split(w, "\n")
			for i := 1; i < len(lines); i++ {
				if lines[i] != "" {
					lines[i] = strings.Repeat(" ", by) + lines[i]
				}
			}
			c.Count("forms shifted", 1)
			if w := pre + strings.Join(lines, "\n") + post; got != w {
				return "a form is formatted otherwise inside brackets than at top level: " + diffText(w, got)
			}
		}
		return ""
	})
}

// repeated are short forms of which the monitor puts many into a text.
var repeated = []string{
	"(def d%d \"doc\n string\" 1)", "(defn d%d \"doc\n   string\"\n[x]\ny)", "(-> a%d (case b\nc\nd))", "(a%d-> b\n(c d\ne))", "(cond-> a%d b (case c\nd\ne))", "(let [a%d\nb]\nc)",
	"(for [a%d b :let [c\nd]]\ne)", "(letfn [(a%d [x]\ny)]\nz)", "(defrecord A%d [x]\nB\n(c [d]\ne))", "(if a%d b\nc)", "(condp a%d b\nc :>>\nd\ne\nf)", "(defmethod a%d\n:b\n[c]\nd)",
	"#(a%d b\nc)", "{:a%d\nb :c d}", "#?(:clj a%d\n:cljs b)", "(a/b%d c\nd)", "; c%d\nx", "(foobarfoobarfoobar%d ; c\na)",
}

// aboutNames says that forms may declare names for the others.
func aboutNames(roots []*ref.Node) bool {
	for _, n := range roots {
		for _, h := range []string{"ns", "require", "in-ns", "use", "import", "refer"} {
			if isHeadSym(n, h) {
				return true
			}
		}
	}
	return false
}

func lastEnd(roots []*ref.Node) int {
	for i := len(roots) - 1; i >= 0; i-- {
		if roots[i].Semantic() {
			return roots[i].Last.End
		}
	}
	return 0
}

func multilineString(n *ref.Node) bool {
	found := false
	ref.Walk([]*ref.Node{n}, func(n *ref.Node) {
		if (n.Kind == ref.NStr || n.Kind == ref.NRegex || n.Kind == ref.NChar) && strings.Contains(n.Text, "\n") {
			found = true
		}
	})
	return found
}

// --- C34

var blanks = []string{" ", " ", " ", "  ", "\t", ",", ", ", " , ", "\f", "\v", "      ", "\u00a0", "\u2003", "\r "}

// otherBlanks changes the blanks between the tokens of a text.
func otherBlanks(r *rand.Rand, src string) (string, int) {
	toks, err := ref.Lex(src)
	if err != nil {
		return "", 0
	}
	rate := 0.2 + r.Float64()*0.8
	odd := r.Intn(3) == 0
	wide := r.Intn(8) == 0
	for try := 0; try < 4; try++ {
		var b strings.Builder
		changed := 0
		end := 0
		var prev ref.Tok
		prev.Kind = ref.Newline
		for _, t := range toks {
			gap := src[end:t.Off]
			g := gap
			if r.Float64() < rate {
				touch := prev.Kind == ref.Open || prev.Kind == ref.SetOpen || prev.Kind == ref.FnOpen || t.Kind == ref.Close || prev.Kind == ref.Newline || t.Kind == ref.Newline || t.Kind == ref.EOF
				loose := touch || prev.Kind == ref.Close || prev.Kind == ref.Str || t.Kind == ref.Open || t.Kind == ref.Str || t.Kind == ref.Comment
				glued := prev.Kind == ref.Prefix || prev.Kind == ref.Hash || prev.Kind == ref.Cond || prev.Kind == ref.NSMap || prev.Kind == ref.VarQ || prev.Kind == ref.Comment
				switch {
				case wide && prev.Kind == ref.Newline && r.Intn(2) == 0:
					g = strings.Repeat(" ", 1+r.Intn(200))
				case glued && (gap == "" || try > 0):
				case gap == "" && (r.Intn(3) > 0 || try > 1):
				case loose && try < 2 && r.Intn(3) == 0:
					g = ""
				default:
					g = " "
					if odd {
						g = gen.Pick(r, blanks)
					} else if r.Intn(2) == 0 {
						g = strings.Repeat(" ", 1+r.Intn(8))
						if wide && r.Intn(2) == 0 || r.Intn(60) == 0 {
							g = strings.Repeat(" ", 1+r.Intn(200))
						}
					}
				}
			}
			if g != gap {
				changed++
			}
			b.WriteString(g)
			b.WriteString(src[t.Off:t.End])
			end = t.End
			prev = t
		}
		out := b.String()
		ts, err := ref.Lex(out)
		if err != nil || len(ts) != len(toks) {
			continue
		}
		same := true
		for i := range ts {
			same = same && ts[i].Kind == toks[i].Kind && out[ts[i].Off:ts[i].End] == src[toks[i].Off:toks[i].End]
		}
		if same {
			return out, changed
		}
	}
	return "", 0
}

func c34(c *Ctx, idx int) {
	r := c.Rand(idx)
	var src string
	if idx%3 == 0 {
		s, ok := c.anyNS(r)
		if !ok {
			return
		}
		src = s
	} else {
		src = c.Source(r, nil)
	}
	if len(src) > 30000 {
		src = "(defn f\n  [x]\n  (if x\n y z))"
	}
	o := RandOpts(r, false)
	if r.Intn(3) == 0 {
		RandOverrides(r, o)
	}
	if r.Intn(6) == 0 {
		o.Parse = parse.ParseOpts(0)
	}
	seed := r.Int63()
	c.Text(src, fmt.Sprintf("%s; blanks %d", o, seed), func(src string) string {
		other, n := otherBlanks(rand.New(rand.NewSource(seed)), src)
		if n == 0 {
			c.Count("texts that were not respaced", 1)
			return ""
		}
		a, err := Format(src, o)
		if err != nil {
			return ""
		}
		b, err := Format(other, o)
		if err != nil {
			return fmt.Sprintf("with other blanks the text is rejected: %v: %q", err, trunc(other, 600))
		}
		c.Count("texts respaced", 1)
		c.Count("places with other blanks", int64(n))
		c.Case(src+"\x00"+other, n >= 5 && strings.Count(a, "\n") > 2)
		if a != b {
			return fmt.Sprintf("other blanks give another output: %s\nwith other blanks: %q", diffText(a, b), trunc(other, 600))
		}
		return ""
	})
}

// --- C35

// nsLike are forms which are no ns form of their own.
var nsLike = []string{
	"(:require [z :as y] b a)", "(:require\n b\n a)", "(:use b a)", "(:use [foo :only [x]])", "(:import (b C A) [a B])", "(:import\n b.C\n a.B)",
	"(comment\n (ns x (:use b a) (:require z y)))", "(do (ns x\n (:require z y a)))", "'(ns x (:use b) (:import b.C a.B))", "#_(ns x\n(:require b a))", "^:m (ns x\n(:require b a))",
	"(require 'b 'a)", "(require '[b :as x]\n '[a])", "(use 'b\n'a)", "(in-ns 'x)", "(import '(b C)\n 'a.B)", "[(:require b\n a)]", "(ns+ x\n (:require b\n a))", "(x/ns y\n(:require b\n a))",
	"(f (:require b\n a)\n(:use x))", "(:require-macros b\na)", "(foo :require [b]\n [a])", "#?(:clj (ns x\n(:require b a)))", "(NS x\n(:require b\n a))", "(nss x (:require b\n a))",
}

// outside is what stands outside of the ns forms.
func outside(out string) ([]string, string, bool) {
	roots, err := ref.Read(out)
	if err != nil {
		return nil, "", false
	}
	var parts []string
	ns := ""
	at := 0
	for _, n := range roots {
		if !isHeadSym(n, "ns") {
			continue
		}
		parts = append(parts, out[at:n.First.Off])
		ns += out[n.First.Off:n.Last.End] + "\n"
		at = n.Last.End
		line, _, _ := strings.Cut(out[at:], "\n")
		if l := strings.TrimSpace(line); l != "" && l[0] != ';' {
			return nil, "", false // stands where the ns form ends
		}
	}
	return append(parts, out[at:]), ns, true
}

func c35(c *Ctx, idx int) {
	r := c.Rand(idx)
	var src string
	for n := 1 + r.Intn(8)/7; n > 0; n-- {
		if r.Intn(4) == 0 {
			src += c.smallSource(r) + "\n"
		}
		s, ok := c.anyNS(r)
		if !ok {
			return
		}
		src += strings.TrimRight(s, " \n") + gen.Pick(r, []string{"\n", "\n\n", " ; c\n", "\n\n\n"})
		if r.Intn(3) == 0 {
			src += gen.Pick(r, nsLike) + gen.Pick(r, []string{"\n", "\n\n"})
		}
		switch r.Intn(4) {
		case 0:
			src += c.smallSource(r) + "\n"
		case 1:
			src += gen.New(r, gen.Default()).Small() + "\n"
		default:
			src += gen.New(r, gen.Vary(r, gen.Default())).Program() + "\n"
		}
	}
	if len(src) > 30000 {
		return
	}
	o := RandOpts(r, false)
	o.Indent, o.Thread = nil, nil // an override may be for a name that only the rewritten ns form declares
	a, b := *o, *o
	a.Set, b.Set = map[string]bool{}, map[string]bool{}
	for k, v := range o.Set {
		a.Set[k], b.Set[k] = v, v
	}
	for _, n := range nsTransforms {
		a.Set[n], b.Set[n] = r.Intn(2) == 0, r.Intn(2) == 0
	}
	c.Text(src, fmt.Sprintf("%s; %s", &a, &b), func(src string) string {
		if roots, err := ref.Read(src); err != nil || hasPrefixComment(roots) {
			return ""
		}
		x, err := Format(src, &a)
		if err != nil {
			return ""
		}
		y, err := Format(src, &b)
		if err != nil {
			return fmt.Sprintf("an error depends on the transforms: %v", err)
		}
		xs, xn, ok1 := outside(x)
		ys, yn, ok2 := outside(y)
		if !ok1 || !ok2 || len(xs) < 2 {
			return ""
		}
		if len(xs) != len(ys) {
			return "the number of ns forms depends on the transforms"
		}
		lines := 0
		for i := range xs {
			lines += strings.Count(xs[i], "\n")
		}
		c.Count("pairs compared", 1)
		c.Count("lines outside of ns forms", int64(lines))
		if xn != yn {
			c.Count("pairs with other ns forms", 1)
		}
		c.Case(src+"\x00"+fmt.Sprint(a.Set, b.Set), xn != yn && lines > 2)
		for i := range xs {
			if xs[i] != ys[i] {
				return "transforms of the ns form change other text: " + diffText(xs[i], ys[i])
			}
		}
		return ""
	})
}

// --- C36

func c36(c *Ctx, idx int) {
	r := c.Rand(idx)
	if idx < gen.TinyMoves.Size()/tinyBlock+1 {
		// every short form, some stages
		for k := idx * tinyBlock; k < (idx+1)*tinyBlock && k < gen.TinyMoves.Size(); k++ {
			full := Defaults()
			full.Set = map[string]bool{}
			for _, n := range transformNames {
				full.Set[n] = full.On(n) && r.Intn(4) > 0
			}
			for i := 0; i < 3; i++ {
				part := *full
				part.Set = map[string]bool{}
				for _, n := range transformNames {
					part.Set[n] = full.Set[n] && r.Intn(2) == 0
				}
				for _, n := range nsTransforms {
					part.Set[n] = full.Set[n]
				}
				c.staged(gen.TinyMoves.Form(k), &part, full)
			}
			c.Count("enumerated short forms", 1)
		}
		return
	}
	var src string
	switch idx % 4 {
	case 0:
		s, ok := c.anyNS(r)
		if !ok {
			return
		}
		src = s
	case 1:
		src = c.smallSource(r)
	default:
		src = c.Source(r, nil)
	}
	if len(src) > 30000 {
		src = "(defn f\n  [x]\n  (if x\n y z\n))"
	}
	full := RandOpts(r, true)
	set := map[string]bool{}
	for _, n := range transformNames {
		set[n] = r.Intn(5) > 0
	}
	for _, n := range nsTransforms {
		set[n] = full.On(n)
	}
	full.Set = set
	part := *full
	part.Set = map[string]bool{}
	fewer := 0
	for _, n := range transformNames {
		part.Set[n] = set[n] && r.Intn(2) == 0
	}
	for _, n := range nsTransforms {
		part.Set[n] = set[n]
	}
	for _, n := range transformNames {
		if part.Set[n] != set[n] {
			fewer++
		}
	}
	if fewer == 0 {
		return
	}
	c.staged(src, &part, full)
}

// tinyBlock is how many enumerated forms make one case.
const tinyBlock = 256

// staged compares formatting with part and then full to formatting with full.
func (c *Ctx) staged(src string, part, full *FmtOpts) {
	c.Text(src, fmt.Sprintf("%s; %s", part, full), func(src string) string {
		roots, rerr := ref.Read(src)
		if rerr != nil || hasPrefixComment(roots) {
			return ""
		}
		for _, n := range roots {
			// a docstring keeps what its lines are indented further than
			// it starts, and that depends on the first pass
			if d := docstringTok(n); d >= 0 && multilineString(n) {
				return ""
			}
		}
		first, err := Format(src, part)
		if err != nil {
			return ""
		}
		staged, err := Format(first, full)
		if err != nil {
			return fmt.Sprintf("the formatted text is rejected: %v", err)
		}
		once, err := Format(src, full)
		if err != nil {
			return fmt.Sprintf("an error depends on the transforms: %v", err)
		}
		c.Count("texts formatted in stages", 1)
		if first != once {
			c.Count("texts with another first stage", 1)
		}
		c.Case(src+"\x00"+fmt.Sprint(part.Set, full.Set), first != once)
		if staged != once {
			return fmt.Sprintf("enabling transforms later gives another text than enabling them at once: %s\nfirst stage: %q", diffText(once, staged), trunc(first, 600))
		}
		return ""
	})
}
