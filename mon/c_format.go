package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/cespare/goclj/format"
	"github.com/cespare/goclj/parse"

	"goclj.verif/mon/gen"
	"goclj.verif/mon/model"
	"goclj.verif/mon/ref"
)

const genRule = "Texts come from a Clojure grammar generator (all literal, collection and reader-macro kinds, ~90 list heads, hostile spacing, comments, CRLF/CR line ends, invalid UTF-8), re-spaced and raw fixtures, and extreme shapes (depth, width, long tokens); options (transforms, indentation and thread-first overrides) are drawn at random. "

var nsTransforms = []string{"sort-import-require", "enforce-ns-style", "use-to-require", "remove-unused-requires"}

func touchesNS(o *FmtOpts) bool {
	for _, n := range nsTransforms {
		if o.On(n) {
			return true
		}
	}
	return false
}

// codeTokens lists the tokens of a text, with docstrings reduced to what
// realignment keeps, without ns forms if skipNS.
func codeTokens(roots []*ref.Node, src string, skipNS, comments bool) []Flat {
	var out []Flat
	docs := map[int]bool{}
	type span struct{ lo, hi int }
	var skip []span
	for _, n := range roots {
		if skipNS && isHeadSym(n, "ns") {
			skip = append(skip, span{n.First.Off, n.Last.End})
		}
		if off := docstringTok(n); off >= 0 {
			docs[off] = true
		}
	}
	for _, f := range flatten(src, false, comments) {
		for len(skip) > 0 && f.Off >= skip[0].hi {
			skip = skip[1:]
		}
		if len(skip) > 0 && f.Off >= skip[0].lo {
			if f.Off == skip[0].lo {
				out = append(out, Flat{Kind: ref.Sym, Text: "<ns form>"})
			}
			continue
		}
		if docs[f.Off] {
			f.Text = normDoc(f.Text)
		}
		out = append(out, f)
	}
	return out
}

// run formats src and reads the result back.
func run(src string, o *FmtOpts) (out string, roots, outRoots []*ref.Node, msg string) {
	roots, rerr := readAs(src, o)
	if rerr != nil {
		return "", nil, nil, "" // only happens while minimizing
	}
	out, err := Format(src, o)
	if err != nil {
		return "", nil, nil, "formatting a well-formed text fails: " + err.Error()
	}
	outRoots, rerr = ref.Read(out)
	if rerr != nil {
		return out, nil, nil, fmt.Sprintf("the output is not well formed: %v\noutput: %q", rerr, trunc(out, 600))
	}
	return out, roots, outRoots, ""
}

func init() {
	register(&Check{
		ID: "C01", Quick: 70000, Thorough: 700000,
		Rule: genRule + "The monitor re-reads input and output with an independent reader and compares the code tokens (kind and exact text) outside rewritten ns forms. Non-trivial: the text has at least 4 code tokens and the output differs from the input; counted by distinct text and options.",
		Min:  map[string]int64{"texts: all enumerated short forms": 3500, "tokens compared": 200000, "outputs that differ from the input": 5000},
		Run: func(c *Ctx, idx int) {
			r := c.Rand(idx)
			src := c.Source(r, nil)
			if t, ok := c.tinyCase(idx); ok {
				src = t
			}
			o := RandOpts(r, true)
			if r.Intn(8) == 0 {
				o.Char = gen.Pick(r, []rune{'\t', ' ', '\u2003'})
			}
			if r.Intn(8) == 0 {
				o.Parse = 0
			}
			c.Text(src, o.String(), func(src string) string {
				out, roots, outRoots, msg := run(src, o)
				if roots == nil || msg != "" {
					return msg
				}
				skip := touchesNS(o)
				a, b := codeTokens(roots, src, skip, false), codeTokens(outRoots, out, skip, false)
				c.Count("tokens compared", int64(len(a)))
				if out != src {
					c.Count("outputs that differ from the input", 1)
				}
				c.Case(src+"\x00"+o.String(), len(a) >= 4 && out != src)
				return diffFlat(a, b)
			})
		},
	})
	register(&Check{
		ID: "C02", Quick: 160000, Thorough: 600000,
		Rule: genRule + "The profile is rich in strings, docstrings and near-docstrings. Every string and regex literal of the output must equal the input's byte for byte, except that a docstring's continuation lines follow the exact realignment rule computed from the column of its opening quote. Non-trivial: the text has a multi-line literal.",
		Min:  map[string]int64{"literals compared": 40000, "docstrings realigned": 1500, "multi-line literals": 8000},
		Run:  c02,
	})
	register(&Check{
		ID: "C04", Quick: 84000, Thorough: 600000,
		Rule: genRule + "The profile is rich in comments; each comment text is unique. Outside ns forms the sequence of tokens and comments must be the same in input and output; inside ns clauses each comment must stay attached to the same item (above it, beside it, beside the clause head, or at the bottom), and if requires are rewritten or removed, to the same library, unless that is removed. Non-trivial: the text has a comment.",
		Min:  map[string]int64{"texts: all enumerated short forms": 3500, "comments followed": 50000, "ns comments followed": 3000, "comments at rewritten requires": 3000},
		Run:  c04,
	})
	register(&Check{
		ID: "C05", Quick: 60000, Thorough: 600000,
		Rule: genRule + "Formatting the output once more with the same options (opt-in transforms included) must give the same bytes. Non-trivial: the first pass changed the text.",
		Min:  map[string]int64{"texts: all enumerated short forms": 3500, "first pass changed the text": 5000},
		Run: func(c *Ctx, idx int) {
			r := c.Rand(idx)
			var tweak func(p *gen.Profile)
			if r.Intn(3) == 0 {
				tweak = func(p *gen.Profile) { p.NS = 1 }
			}
			src := c.Source(r, tweak)
			if t, ok := c.tinyCase(idx); ok {
				src = t
			}
			o := RandOpts(r, true)
			c.Text(src, o.String(), func(src string) string {
				out, roots, _, msg := run(src, o)
				if roots == nil || msg != "" {
					return msg
				}
				again, err := Format(out, o)
				if err != nil {
					return "formatting the output fails: " + err.Error()
				}
				if out != src {
					c.Count("first pass changed the text", 1)
				}
				c.Case(src+"\x00"+o.String(), out != src)
				if again != out {
					return "the second pass changes the output: " + diffText(out, again)
				}
				return ""
			})
		},
	})
	register(&Check{
		ID: "C06", Quick: 60000, Thorough: 600000,
		Rule: genRule + "All transforms are off. The sequence of tokens, comments and line ends must be the same in input and output (line ends between a prefix and its form are dropped, one is added after a comment ended by a bare CR), and no output line may end in blanks or have other than single spaces between tokens. Non-trivial: the text has several lines and the output differs from the input.",
		Min:  map[string]int64{"texts: all enumerated short forms": 3500, "line ends compared": 40000},
		Run:  c06,
	})
	register(&Check{
		ID: "C07", Quick: 70000, Thorough: 700000,
		Rule: genRule + "A random subset (often a single one) of the five layout transforms is on. The sequence of tokens, comments and line ends of the output is compared with the one computed by a reference model of the documented transforms. Non-trivial: the model's transforms changed the sequence.",
		Min:  map[string]int64{"texts: all enumerated short forms": 3500, "line ends compared": 40000, "changed by the transforms": 4000, "changed by fix-defn-arglist-newline": 60, "changed by fix-defmethod-dispatch-val-newline": 60, "changed by fix-if-newline-consistency": 150, "changed by remove-trailing-newlines": 300, "changed by remove-extra-blank-lines": 300},
		Run:  c07,
	})
	register(&Check{
		ID: "C09", Quick: 120000, Thorough: 700000,
		Rule: genRule + "No ns form. The whole output is compared with the text computed by a reference model of the documented indentation rules (column of every line), for built-in heads, qualified heads, thread-first forms and overrides. Non-trivial: at least one line inside a form is indented.",
		Min:  map[string]int64{"texts: all enumerated short forms": 3500, "lines compared": 100000, "indented lines": 50000},
		Run:  c09,
	})
}

func c02(c *Ctx, idx int) {
	r := c.Rand(idx)
	var src string
	if r.Intn(3) > 0 {
		g := gen.New(r, gen.Vary(r, gen.Default()))
		var parts []string
		for i := 1 + r.Intn(4); i > 0; i-- {
			s := g.Doc()
			if r.Intn(3) == 0 {
				s = g.Str(true)
			}
			var f string
			switch r.Intn(9) {
			case 0, 1:
				f = g.Wrap("(", []string{gen.Pick(r, []string{"def", "defn", "defmacro", "defmulti", "ns", "defn-", "defonce", "deftest", "foo"}), g.Sym(), s}, ")")
			case 2, 3:
				f = g.Wrap("(", []string{gen.Pick(r, []string{"def", "defn", "defmacro", "defmulti"}), g.Sym(), s, g.Form(2)}, ")")
			case 4:
				f = g.Wrap("(", []string{gen.Pick(r, []string{"defn", "def", "defmacro"}), g.Sym(), s, g.Wrap("[", nil, "]"), g.Str(true), g.Form(1)}, ")")
			case 5:
				f = "(" + gen.Pick(r, []string{"def", "defn"}) + " " + g.Sym() + " " + s + gen.Pick(r, []string{" ;c\n", "\n;c\n", " #_x", " #_(a b)\n", "\n\n", " #_x ;c\n"}) + ")"
			case 6:
				f = g.Wrap("(", []string{"let", g.Wrap("[", []string{"x", s}, "]"), g.Wrap("(", []string{"def", "y", g.Doc(), "z"}, ")")}, ")")
			case 7:
				f = "(ns a.b " + s + gen.Pick(r, []string{"", "\n (:require x)", " (:require [\"str\" :as y])"}) + ")"
			default:
				f = g.Wrap("[", []string{s, g.Regex(), g.Str(true), g.Form(1)}, "]")
			}
			if r.Intn(6) == 0 {
				f = gen.Pick(r, []string{"'", "^:m ", "#_", "(do ", "@"}) + f
				if f[1] == 'd' {
					f += ")"
				}
			}
			parts = append(parts, f)
		}
		src = strings.Join(parts, gen.Pick(r, []string{"\n", "\n\n", " "})) + "\n"
		if _, err := ref.Read(src); err != nil {
			return
		}
	} else {
		src = c.Source(r, nil)
	}
	o := RandOpts(r, false)
	if r.Intn(8) == 0 {
		o.Char = '\t'
	}
	if r.Intn(8) == 0 {
		o.Parse = 0
	}
	c.Text(src, o.String(), func(src string) string {
		out, roots, outRoots, msg := run(src, o)
		if roots == nil || msg != "" {
			return msg
		}
		lits := func(src string) []Flat {
			var l []Flat
			for _, f := range flatten(src, false, false) {
				if f.Kind == ref.Str || f.Kind == ref.Regex {
					l = append(l, f)
				}
			}
			return l
		}
		char := o.Char
		if char == 0 {
			char = ' '
		}
		// strings inside ns clauses may be reordered with their items
		inNS := func(roots []*ref.Node, off int) bool {
			for _, n := range roots {
				if n.First.Off <= off && off < n.Last.End {
					return isHeadSym(n, "ns")
				}
			}
			return false
		}
		docs := map[int]bool{}
		for _, n := range roots {
			if d := docstringTok(n); d >= 0 {
				docs[d] = true
			}
		}
		a, b := lits(src), lits(out)
		if len(a) != len(b) {
			return fmt.Sprintf("number of literals differs: %d in the input, %d in the output", len(a), len(b))
		}
		multi := false
		var nsA, nsB []string
		for i := range a {
			c.Count("literals compared", 1)
			if strings.Contains(a[i].Text, "\n") {
				multi = true
				c.Count("multi-line literals", 1)
			}
			want := a[i].Text
			if docs[a[i].Off] {
				want = model.Realign(want, b[i].RCol, char)
				if want != a[i].Text {
					c.Count("docstrings realigned", 1)
				}
			} else if o.On("sort-import-require") && inNS(roots, a[i].Off) {
				nsA, nsB = append(nsA, want), append(nsB, b[i].Text)
				continue
			}
			if b[i].Text != want || a[i].Kind != b[i].Kind {
				return fmt.Sprintf("literal changed: %q became %q (want %q)", trunc(a[i].Text, 300), trunc(b[i].Text, 300), trunc(want, 300))
			}
		}
		sort.Strings(nsA)
		sort.Strings(nsB)
		if strings.Join(nsA, "\x00") != strings.Join(nsB, "\x00") {
			return fmt.Sprintf("literals of an ns form changed: %q became %q", nsA, nsB)
		}
		_ = outRoots
		c.Case(src+"\x00"+o.String(), multi)
		return ""
	})
}

// commentStream lists the tokens and comments of a text outside ns forms.
func c04(c *Ctx, idx int) {
	r := c.Rand(idx)
	withNS := r.Intn(3) == 0
	src := c.Source(r, func(p *gen.Profile) {
		p.Comments = 0.1 + r.Float64()*0.35
		if withNS {
			p.NS = 1
		}
		p.Meta, p.Stacked = p.Meta/2, p.Stacked/2
	})
	if t, ok := c.tinyCase(idx); ok {
		src = t
	}
	if idx == 0 { // the known finding
		src = "' ;comment\nx"
	}
	o := RandOpts(r, false)
	if k := r.Intn(9); k < 4 {
		if o.Set == nil {
			o.Set = map[string]bool{}
		}
		if k < 3 {
			o.Set["use-to-require"] = true
		}
		if k > 1 {
			o.Set["remove-unused-requires"] = true
		}
		if r.Intn(2) == 0 {
			src = commentedNS(r)
		}
	}
	c.Text(src, o.String(), func(src string) string {
		out, roots, outRoots, msg := run(src, o)
		if roots == nil || msg != "" {
			return msg
		}
		skip := touchesNS(o)
		a, b := codeTokens(roots, src, skip, true), codeTokens(outRoots, out, skip, true)
		n := 0
		for _, f := range a {
			if f.Kind == ref.Comment {
				n++
			}
		}
		c.Count("comments followed", int64(n))
		c.Case(src+"\x00"+o.String(), n > 0)
		d := diffFlat(a, b)
		if d != "" && hasPrefixComment(roots) {
			// Known: a comment between ' ` @ ~ ~@ and its form is dropped.
			drop := map[int]bool{}
			ref.Walk(roots, func(n *ref.Node) {
				if n.Kind == ref.NPrefix && n.Text != "^" && n.Text != "#_" && n.Text != "#=" {
					for _, s := range n.Skip {
						if s.Kind == ref.NComment {
							drop[s.First.Off] = true
						}
					}
				}
			})
			var a2 []Flat
			for _, f := range a {
				if f.Kind != ref.Comment || !drop[f.Off] {
					a2 = append(a2, f)
				}
			}
			if len(drop) > 0 && isKnown("C04", "quote-comment-dropped") && diffFlat(a2, b) == "" {
				c.Known("quote-comment-dropped", src)
				d = ""
			}
		}
		if d != "" {
			return d
		}
		if !skip {
			return ""
		}
		var nsA, nsB []*ref.Node
		for _, n := range roots {
			if isHeadSym(n, "ns") {
				nsA = append(nsA, n)
			}
		}
		for _, n := range outRoots {
			if isHeadSym(n, "ns") {
				nsB = append(nsB, n)
			}
		}
		for i := range nsA {
			if m := c.nsComments(nsA[i], nsB[i], o); m != "" {
				return m
			}
		}
		return ""
	})
}

// nsComments compares the comments of an ns form before and after.
func (c *Ctx) nsComments(a, b *ref.Node, o *FmtOpts) string {
	all := func(n *ref.Node) []string {
		var s []string
		ref.Walk([]*ref.Node{n}, func(n *ref.Node) {
			if n.Kind == ref.NComment {
				s = append(s, n.Text)
			}
		})
		sort.Strings(s)
		return s
	}
	ca, cb := all(a), all(b)
	c.Count("ns comments followed", int64(len(ca)))
	if !o.On("remove-unused-requires") && strings.Join(ca, "\n") != strings.Join(cb, "\n") {
		return fmt.Sprintf("comments of an ns form differ: %q became %q", ca, cb)
	}
	if o.On("use-to-require") || o.On("remove-unused-requires") {
		return c.rewrittenComments(a, b, ca, cb, o)
	}
	va, vb := nsView(a, true), nsView(b, true)
	if va != vb {
		return "comments of an ns form changed places: " + diffText(va, vb)
	}
	return ""
}

// commentedNS makes an ns form of simple items with comments at every place.
func commentedNS(r *rand.Rand) string {
	var b strings.Builder
	n := 0
	comments := func(k int) {
		for i := r.Intn(k + 1); i > 0; i-- {
			n++
			fmt.Fprintf(&b, "    ; c%d\n", n)
		}
	}
	b.WriteString("(ns a\n")
	for i := 1 + r.Intn(4); i > 0; i-- {
		if r.Intn(4) == 0 {
			comments(2)
		}
		head := gen.Pick(r, []string{"require", "require", "require", "use", "use", "require-macros"})
		b.WriteString("  (:" + head)
		switch r.Intn(4) {
		case 0:
			n++
			fmt.Fprintf(&b, " ; c%d\n", n)
		case 1:
		default:
			b.WriteString("\n")
		}
		for j := r.Intn(4); j > 0; j-- {
			if r.Intn(2) == 0 {
				b.WriteString("\n")
				comments(1 + r.Intn(3))
			}
			lib := gen.Pick(r, []string{"b", "c", "d", "e.f"})
			var spec string
			if head == "use" {
				spec = gen.Pick(r, []string{"%s", "[%s]", "[%s :only [x]]", "[%s :only (x y)]", "[%s :exclude [z]]", "(%s [g])"})
			} else {
				spec = gen.Pick(r, []string{"%s", "[%s]", "[%s :as u]", "[%s :as v]", "[%s :refer [x]]", "[%s :refer [y]]", "[%s :refer :all]", "[%s :as u :refer [x y]]", "[%s :refer-macros [x]]", "[%s :rename {x y}]", "(%s [g])"})
			}
			fmt.Fprintf(&b, " "+spec, lib)
			switch r.Intn(4) {
			case 0:
			case 1:
				n++
				fmt.Fprintf(&b, " ; c%d\n", n)
			default:
				b.WriteString("\n")
			}
		}
		if r.Intn(3) == 0 {
			b.WriteString("\n")
			comments(4)
		}
		b.WriteString(")" + gen.Pick(r, []string{"", "\n", "\n", " ; e\n"}))
	}
	b.WriteString(")\n")
	for _, s := range []string{"(u/f)", "(v/f)", "(x)", "(y)", "b/q"} {
		if r.Intn(2) == 0 {
			b.WriteString(s + "\n")
		}
	}
	return b.String()
}

// nsAttached finds the library of the item which each comment of a clause that
// may be rewritten is attached to, and counts the items of each library.
// Comments elsewhere are attached to "bottom" or "head" of a clause, or to
// nothing ("").
func nsAttached(ns *ref.Node) (map[string]string, map[string]int) {
	at, libs := map[string]string{}, map[string]int{}
	var other func(n *ref.Node)
	other = func(n *ref.Node) {
		if n.Kind == ref.NComment {
			at[n.Text] = ""
		}
		for _, k := range n.Kids {
			other(k)
		}
		for _, k := range n.Skip {
			other(k)
		}
	}
	for _, k := range endComments(ns).Kids {
		switch clauseOf(k) {
		case "require", "require-macros", "use":
		default:
			other(k)
			continue
		}
		var above []string
		item, same := "", false
		for i, x := range k.Kids[1:] {
			switch x.Kind {
			case ref.NNewline:
				same = false
			case ref.NComment:
				switch {
				case i == 0:
					at[x.Text] = "head"
				case same:
					at[x.Text] = item
				default:
					above = append(above, x.Text)
				}
			default:
				for _, sub := range x.Kids {
					other(sub)
				}
				item = "item " + textD(x, 0, "require")
				if x.Kind == ref.NSym {
					item = "lib " + x.Text
				} else if x.Kind == ref.NList || x.Kind == ref.NVector {
					for _, y := range x.Kids {
						if y.Kind == ref.NNewline || y.Kind == ref.NComment {
							continue
						}
						if y.Kind == ref.NSym {
							item = "lib " + y.Text
						}
						break
					}
				}
				libs[item]++
				for _, s := range above {
					at[s] = item
				}
				above, same = nil, true
			}
		}
		for _, s := range above {
			at[s] = "bottom"
		}
	}
	return at, libs
}

// rewrittenComments is about the comments of an ns form whose requires have been
// rewritten: a comment stays with the library it stood at, and goes only if that
// is removed.
func (c *Ctx) rewrittenComments(a, b *ref.Node, ca, cb []string, o *FmtOpts) string {
	count := map[string]int{}
	for _, s := range ca {
		count[s]++
	}
	left := map[string]bool{}
	for _, s := range cb {
		if count[s] == 0 {
			return fmt.Sprintf("a comment appears from nowhere: %q", s)
		}
		left[s] = true
	}
	atA, libsA := nsAttached(a)
	atB, libsB := nsAttached(b)
	for s, k := range atA {
		if count[s] != 1 {
			continue
		}
		lib := strings.HasPrefix(k, "lib ") || strings.HasPrefix(k, "item ")
		switch {
		case left[s] && lib && atB[s] != k:
			return fmt.Sprintf("the comment %q at %q moved to %q", s, k, atB[s])
		case left[s] && (k == "") != (atB[s] == ""):
			return fmt.Sprintf("the comment %q at %q moved to %q", s, k, atB[s])
		case !left[s] && (k == "" || k == "bottom"):
			return fmt.Sprintf("the comment %q (%s) is of no require but was removed", s, k)
		case !left[s] && lib && libsA[k] == 1 && libsB[k] > 0:
			return fmt.Sprintf("the comment %q at %q was removed although that stayed", s, k)
		}
		if lib {
			c.Count("comments at rewritten requires", 1)
		}
	}
	return ""
}

func c06(c *Ctx, idx int) {
	r := c.Rand(idx)
	src := c.Source(r, nil)
	if t, ok := c.tinyCase(idx); ok {
		src = t
	}
	o := AllOff()
	if r.Intn(3) == 0 {
		RandOverrides(r, o)
	}
	c.Text(src, o.String(), func(src string) string {
		out, roots, _, msg := run(src, o)
		if roots == nil || msg != "" || hasPrefixComment(roots) {
			return msg
		}
		docs := docOffsets(roots)
		a := stream(model.Canon(roots), docs)
		b, msg := outStream(out)
		if msg != "" {
			return msg
		}
		nl := 0
		for _, f := range a {
			if f.Kind == ref.Newline {
				nl++
			}
		}
		c.Count("line ends compared", int64(nl))
		c.Case(src, nl > 1 && out != src)
		if d := diffFlat(a, b); d != "" {
			return d
		}
		return spacing(out)
	})
}

func docOffsets(roots []*ref.Node) map[*ref.Node]bool {
	m := map[*ref.Node]bool{}
	for _, n := range roots {
		if d := model.Docstring(n); d != nil {
			m[d] = true
		}
	}
	return m
}

// stream lists the tokens, comments and line ends of a tree.
func stream(roots []*ref.Node, docs map[*ref.Node]bool) []Flat {
	var out []Flat
	add := func(k ref.Kind, s string) { out = append(out, Flat{Kind: k, Text: s}) }
	var walk func(n *ref.Node)
	coll := func(k ref.Kind, open string, n *ref.Node, cl string) {
		add(k, open)
		for _, x := range n.Kids {
			walk(x)
		}
		add(ref.Close, cl)
	}
	walk = func(n *ref.Node) {
		switch n.Kind {
		case ref.NList:
			coll(ref.Open, "(", n, ")")
		case ref.NVector:
			coll(ref.Open, "[", n, "]")
		case ref.NMap:
			if n.Text != "" {
				add(ref.NSMap, "#"+n.Text)
			}
			coll(ref.Open, "{", n, "}")
		case ref.NSet:
			coll(ref.SetOpen, "#{", n, "}")
		case ref.NFn:
			coll(ref.FnOpen, "#(", n, ")")
		case ref.NCond:
			add(ref.Cond, "#?")
			coll(ref.Open, "(", n, ")")
		case ref.NSplice:
			add(ref.Cond, "#?@")
			coll(ref.Open, "(", n, ")")
		case ref.NPrefix:
			add(ref.Prefix, n.Text)
			for _, s := range n.Skip {
				walk(s)
			}
			walk(n.Kids[0])
		case ref.NVarQ:
			add(ref.VarQ, "#'")
			add(ref.Sym, n.Text)
		case ref.NTag:
			add(ref.Hash, "#")
			add(ref.Sym, n.Text)
		case ref.NStr:
			if docs[n] {
				add(ref.Str, normDoc(n.Text))
			} else {
				add(ref.Str, n.Text)
			}
		case ref.NNewline:
			add(ref.Newline, "\n")
		case ref.NComment:
			add(ref.Comment, n.Text)
		case ref.NSym:
			add(ref.Sym, n.Text)
		case ref.NKw:
			add(ref.Kw, n.Text)
		case ref.NNum:
			add(ref.Num, n.Text)
		case ref.NChar:
			add(ref.Char, n.Text)
		case ref.NRegex:
			add(ref.Regex, n.Text)
		}
	}
	for _, n := range roots {
		walk(n)
	}
	return out
}

func outStream(out string) ([]Flat, string) {
	roots, err := ref.Read(out)
	if err != nil {
		return nil, "the output is not well formed: " + err.Error()
	}
	return stream(roots, docOffsets(roots)), ""
}

// spacing checks the blanks inside the lines of an output.
func spacing(out string) string {
	toks, err := ref.Lex(out)
	if err != nil {
		return "the output does not lex: " + err.Error()
	}
	for i, t := range toks {
		if i == 0 {
			continue
		}
		p := toks[i-1]
		gap := out[p.End:t.Off]
		switch {
		case p.Kind == ref.Newline:
			if (t.Kind == ref.Newline || t.Kind == ref.EOF) && gap != "" {
				return fmt.Sprintf("blank line %d has trailing blanks %q", t.Line, gap)
			}
		case t.Kind == ref.Newline || t.Kind == ref.EOF:
			if gap != "" {
				return fmt.Sprintf("line %d ends in blanks %q", t.Line, gap)
			}
		case gap != "" && gap != " ":
			return fmt.Sprintf("line %d: %q between %q and %q", t.Line, gap, trunc(p.Text, 50), trunc(t.Text, 50))
		case gap == " " && (p.Kind == ref.Open || p.Kind == ref.FnOpen || p.Kind == ref.SetOpen || t.Kind == ref.Close):
			return fmt.Sprintf("line %d: blank between %q and %q", t.Line, trunc(p.Text, 50), trunc(t.Text, 50))
		}
	}
	return ""
}

var layoutTransforms = []string{"remove-trailing-newlines", "fix-defn-arglist-newline", "fix-defmethod-dispatch-val-newline", "remove-extra-blank-lines", "fix-if-newline-consistency"}

func c07(c *Ctx, idx int) {
	r := c.Rand(idx)
	heads := [][]string{{"if", "if-not", "if-let", "if-some"}, {"defn", "defmethod"}, nil}[r.Intn(3)]
	src := c.Source(r, func(p *gen.Profile) {
		p.NL = 0.2 + r.Float64()*0.5
		p.Heads = heads
		if r.Intn(2) == 0 {
			p.Blank = 0.4
		}
	})
	if heads != nil && r.Intn(2) == 0 {
		// many small definitions in the shapes which the transforms look for
		g := gen.New(r, gen.Profile{NL: 0.45, Blank: 0.25, Comments: 0.06, Meta: 0.05, Discards: 0.03, MaxDepth: 2, Width: 3, CRLF: r.Intn(8) == 0, LoneCR: r.Intn(8) == 0})
		var b strings.Builder
		for i := 1 + r.Intn(5); i > 0; i-- {
			h := gen.Pick(r, heads)
			parts := []string{h}
			switch h {
			case "defn", "defmethod":
				parts = append(parts, g.Forms(1, 0)...)
				if h == "defmethod" {
					parts = append(parts, gen.Pick(r, []string{g.Kw(), g.Kw(), g.Atom()}))
				} else if r.Intn(4) == 0 {
					parts = append(parts, g.Doc())
				}
				if r.Intn(5) > 0 {
					parts = append(parts, g.Wrap("[", g.Forms(r.Intn(3), 0), "]"))
				}
				parts = append(parts, g.Forms(r.Intn(3), 1)...)
			default:
				parts = append(parts, g.Forms(r.Intn(5), 1)...)
			}
			f := g.Wrap("(", parts, ")")
			if r.Intn(5) == 0 {
				f = gen.Pick(r, []string{"'", "(do ", "^:m ", "[", "#("}) + f
				f += map[byte]string{'(': ")", '[': "]", '#': ")"}[f[0]]
			}
			b.WriteString(f + strings.Repeat("\n", 1+r.Intn(4)))
		}
		if _, err := ref.Read(b.String()); err == nil {
			src = b.String()
		}
	}
	if t, ok := c.tinyCase(idx); ok {
		src = t
	}
	o := AllOff()
	if r.Intn(2) == 0 {
		o.Set[gen.Pick(r, layoutTransforms)] = true
	} else {
		for _, n := range layoutTransforms {
			o.Set[n] = r.Intn(2) == 0
		}
	}
	c.Text(src, o.String(), func(src string) string {
		out, roots, _, msg := run(src, o)
		if roots == nil || msg != "" || hasPrefixComment(roots) {
			return msg
		}
		plain := stream(model.Canon(roots), docOffsets(roots))
		roots, _ = ref.Read(src)
		roots = model.Layout(model.Canon(roots), o.On)
		a := stream(roots, docOffsets(roots))
		b, msg := outStream(out)
		if msg != "" {
			return msg
		}
		nl := 0
		for _, f := range a {
			if f.Kind == ref.Newline {
				nl++
			}
		}
		changed := diffFlat(plain, a) != ""
		c.Count("line ends compared", int64(nl))
		if changed {
			c.Count("changed by the transforms", 1)
			for _, n := range layoutTransforms {
				rs, _ := ref.Read(src)
				rs = model.Layout(model.Canon(rs), func(s string) bool { return s == n && o.On(n) })
				if o.On(n) && diffFlat(plain, stream(rs, docOffsets(rs))) != "" {
					c.Count("changed by "+n, 1)
				}
			}
		}
		c.Case(src+"\x00"+o.String(), changed)
		return diffFlat(a, b)
	})
}

func c09(c *Ctx, idx int) {
	r := c.Rand(idx)
	src := c.Source(r, func(p *gen.Profile) {
		p.NS = 0
		p.NL = 0.15 + r.Float64()*0.5
		if r.Intn(2) == 0 {
			p.Heads = overrideNames
		}
	})
	if idx%3 == 0 {
		src = gen.Layouts(r, idx/3)
		if roots, err := ref.Read(src); err != nil || hasPrefixComment(roots) {
			return
		}
	}
	if t, ok := c.tinyCase(idx); ok {
		src = t
	}
	o := RandOpts(r, false)
	if r.Intn(3) == 0 {
		RandOverrides(r, o)
	}
	if r.Intn(10) == 0 {
		o.Char = gen.Pick(r, []rune{'\t', '.', '\u2003'})
		if o.Char == '.' {
			o.Char = '\t'
		}
	}
	c.Text(src, o.String(), func(src string) string { return c.matchModel(src, o, "") })
}

// matchModel compares the whole output with the reference model's.
func (c *Ctx) matchModel(src string, o *FmtOpts, class string) string {
	out, roots, _, msg := run(src, o)
	if roots == nil || msg != "" || hasPrefixComment(roots) {
		return msg
	}
	want, ok := expect(src, o)
	if !ok {
		return ""
	}
	lines := strings.Split(out, "\n")
	ind := 0
	for _, l := range lines {
		if l != "" && (l[0] == ' ' || l[0] == '\t') {
			ind++
		}
	}
	c.Count("lines compared", int64(len(lines)))
	c.Count("indented lines", int64(ind))
	c.Case(src+"\x00"+o.String(), ind > 0)
	if d := diffText(want, out); d != "" {
		return "the layout differs from the documented one: " + d
	}
	return ""
}

var _ = format.NewPrinter
var _ = parse.File
