package main

import (
	"bufio"
	"compress/gzip"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/cespare/goclj/parse"

	"goclj.verif/mon/gen"
	"goclj.verif/mon/ref"
)

const hostileRule = "Texts are token soups, edited and truncated programs, random bytes, generated programs, re-spaced fixtures and extreme shapes. "

var allParseOpts = func() (out []parse.ParseOpts) {
	for i := parse.ParseOpts(0); i < 8; i++ {
		out = append(out, i)
	}
	return
}()

func init() {
	register(&Check{
		ID: "C11", Quick: 80000, Thorough: 2000000,
		Rule: hostileRule + "Each text is parsed with all eight option sets; every tree is listed, rendered and formatted with random options (all transforms included). A monitor requires exactly one of tree and error, no panic, no fatal error, no endless loop (CPU and memory watchdogs per case), and that an accepted tree prints without an error. Non-trivial: the text has at least 2 bytes.",
		Min:  map[string]int64{"trees printed": 30000, "texts rejected": 5000, "deep texts": 10},
		Run:  c11,
	})
	register(&Check{
		ID: "C12", Quick: 60000, Thorough: 2500000,
		Rule: hostileRule + "An independent reader decides whether the text is well formed (every bracket closed by its own kind, literals complete, every prefix followed by a form, ...); goclj must accept exactly the well-formed ones, with and without IncludeNonSemantic. Small programs are cut at every byte. Texts on which the two dialects legitimately differ (##Inf, \\o7, a comment between # and its tag) carry no verdict. Non-trivial: a verdict was compared.",
		Min:  map[string]int64{"complete enumerations of the token sequences": 1, "accepted, as it should": 15000, "rejected, as it should": 20000},
		Run:  c12,
	})
	register(&Check{
		ID: "C13", Quick: 90000, Thorough: 700000,
		Rule: genRule + "The tree is compared node by node with that of an independent reader: kind, nesting, order and exact text of every literal, decoded characters, metadata, tags, comments and newlines. Non-trivial: at least 5 nodes.",
		Min:  map[string]int64{"texts: all stacked prefixes": 1293, "complete enumerations of the token sequences": 1, "nodes compared": 1000000, "max node kinds seen": 22},
		Run:  c13,
	})
	register(&Check{
		ID: "C14", Quick: 120000, Thorough: 1000000,
		Rule: genRule + hostileRule + "The file name, byte offset, line and column of every node are compared with those of the independent reader's first token; the position in the error for a malformed text must be that of the offending token (or the end of input). Non-trivial: at least one position was compared.",
		Min:  map[string]int64{"texts: all stacked prefixes": 1293, "complete enumerations of the token sequences": 1, "node positions compared": 1000000, "error positions compared": 8000},
		Run:  c14,
	})
	register(&Check{
		ID: "C15", Quick: 70000, Thorough: 1000000,
		Rule: genRule + "The profile is rich in #_ (stacked, with metadata and tags in front of the discarded form) and comment forms. For all eight option sets the tree must be the full tree minus exactly what the options exclude, computed by an independent reader. Non-trivial: an option excluded something.",
		Min:  map[string]int64{"texts: all stacked prefixes": 1293, "comment forms excluded": 5000, "discarded forms excluded": 5000, "newlines and comments excluded": 20000, "quoted comment forms kept": 200},
		Run:  c15,
	})
	register(&Check{
		ID: "C16", Quick: 60000, Thorough: 600000,
		Rule: hostileRule + "The same bytes are delivered in random chunks (down to one byte, with empty reads and data together with EOF), from a file, and with a read error injected at a random or every byte; some texts are several megabytes long. The result (tree with positions, or error) must not depend on the delivery; a read error must fail the parse and be named by the error unless the text before it is already malformed. Non-trivial: at least 2 reads.",
		Min:  map[string]int64{"long texts": 10, "deliveries compared": 25000, "read faults injected": 40000, "read faults named in the error": 15000},
		Run:  c16,
	})
	register(&Check{
		ID: "C22", Quick: 90000, Thorough: 500000,
		Rule: genRule + "After parsing (all option sets), after printing with random transforms, and along random histories of SetChildren calls on random nodes, every node's parent must be the node that lists it (none for roots and removed nodes); leaves and one-form nodes must refuse wrong children. Non-trivial: at least 3 nodes.",
		Min:  map[string]int64{"parent links compared": 500000, "SetChildren calls": 40000, "wrong SetChildren calls refused": 5000, "trees checked after printing": 5000},
		Run:  c22,
	})
}

// --- C11

func c11(c *Ctx, idx int) {
	r := c.Rand(idx)
	var src string
	if idx%2000 < 3 {
		src = deepText(r, c.Thorough())
		c.Count("deep texts", 1)
	} else {
		switch r.Intn(20) {
		case 0, 1, 2, 3, 4, 5:
			src = gen.New(r, gen.Default()).Small()
			c.Count("texts: small forms", 1)
		case 6, 7, 8:
			src, _ = c.NSSource(r, gen.DefaultNS(r), 0.05)
			c.Count("texts: ns forms", 1)
		case 9:
			src = gen.New(r, gen.Default()).OddNS()
			c.Count("texts: ns forms", 1)
		default:
			src = c.Hostile(r)
		}
	}
	o := RandOpts(r, true)
	for _, n := range transformNames {
		if r.Intn(6) == 0 {
			if o.Set == nil {
				o.Set = map[string]bool{}
			}
			o.Set[n] = true
		}
	}
	if len(src) > 200000 { // too long to minimize
		c.Case(fmt.Sprintf("%d bytes %q", len(src), src[:100]), true)
		t, err := parseSrc(src, parse.IncludeNonSemantic)
		if (t == nil) == (err == nil) {
			c.Violate(fmt.Sprintf("tree %v and error %v", t != nil, err), trunc(src, 300), "")
		}
		if t != nil {
			if _, err := printTree(t, o); err != nil {
				c.Violate("printing fails: "+err.Error(), trunc(src, 300), o.String())
			}
			c.Count("trees printed", 1)
		}
		return
	}
	c.Text(src, o.String(), func(src string) string {
		rejected := false
		for _, po := range allParseOpts {
			t, err := parseSrc(src, po)
			switch {
			case t != nil && err != nil:
				return "a tree and an error: " + err.Error()
			case t == nil && err == nil:
				return "neither a tree nor an error"
			case err != nil:
				if err.Error() == "" {
					return "empty error message"
				}
				rejected = true
				continue
			}
			if maxDepth(viewTree(t.Roots)) < 300 { // the rendering indents, so it is quadratic
				_ = t.String()
			}
			o := *o
			o.Parse = po
			if _, err := printTree(t, &o); err != nil {
				return fmt.Sprintf("printing an accepted text fails: %v", err)
			}
			c.Count("trees printed", 1)
		}
		if rejected {
			c.Count("texts rejected", 1)
		}
		c.Case(src, len(src) >= 2)
		return ""
	})
}

func maxDepth(vs []V) int {
	d := 0
	for _, v := range vs {
		d = max(d, v.Depth)
	}
	return d
}

func deepText(r *rand.Rand, thorough bool) string {
	n := 1000 + r.Intn(30000)
	if thorough {
		n *= 1 + r.Intn(8)
	}
	switch r.Intn(5) {
	case 0:
		return strings.Repeat(gen.Pick(r, []string{"(", "[", "{", "#{", "'(", "#_", "^", "@", "`~", "#?(", "(f ", "#_^"}), n)
	case 1:
		return strings.Repeat("(", n) + strings.Repeat(")", n)
	case 2:
		return strings.Repeat("'", n) + "x"
	case 3:
		return strings.Repeat("#_", n) + strings.Repeat("x ", n)
	default:
		return strings.Repeat("[", n) + "x" + strings.Repeat("]", n)
	}
}

// --- C12

func c12(c *Ctx, idx int) {
	r := c.Rand(idx)
	if idx%40 == 0 { // every prefix of a small program
		src := c.smallSource(r)
		if len(src) > 400 {
			src = src[:400]
		}
		for i := 0; i <= len(src); i++ {
			c12one(c, src[:i])
		}
		c.Count("programs cut at every byte", 1)
		return
	}
	if idx%10 == 1 { // enumerate short token sequences
		c.enumSeqs(idx/10, 125, func(s string) { c12one(c, s) })
		return
	}
	if idx%10 == 2 { // enumerate the ways to put forms inside forms
		for i := 0; i < 6; i++ {
			c12one(c, nestedForm(r, idx/10*6+i, true))
		}
		return
	}
	c12one(c, c.Hostile(r))
}

var wraps = [][2]string{{"(", ")"}, {"[", "]"}, {"{:k ", "}"}, {"#{", "}"}, {"#(", ")"}, {"#?(:clj ", ")"}, {"#?@(:clj [", "])"}, {"#:a{:k ", "}"}, {"#::a{k ", "}"}, {"'", ""}, {"^", " x"}, {"^{:k ", "} x"}, {"@", ""}, {"~", ""}, {"~@", ""}, {"`", ""}, {"#_", " x"}, {"#'", ""}, {"#t ", ""}, {"#=", ""}, {"(x\n", ")"}, {"(; c\n", ")"}}

// nestedForm is the k-th way to put one form inside another inside another, and
// so on; the innermost form and, if spoil is set, small damage are random.
func nestedForm(r *rand.Rand, k int, spoil bool) string {
	n := len(wraps)
	pre, post := "", ""
	for d := 2 + r.Intn(3); d > 0; d-- {
		w := wraps[k%n]
		if k = k / n; k == 0 {
			k = r.Intn(n * n)
		}
		pre, post = w[0]+pre, post+w[1]
	}
	in := gen.Pick(r, []string{"", "x", "%", "1", "x y", ":k", `"s"`, "()", "#(y)", "#_ x", "x ; c\n", "\n"})
	if r.Intn(3) == 0 {
		pre += gen.Pick(r, []string{"x ", "x\n", "^m "})
	}
	if spoil && r.Intn(3) == 0 {
		switch s := pre + in + post; r.Intn(4) {
		case 0:
			return s[:r.Intn(len(s)+1)]
		case 1:
			i := r.Intn(len(s))
			return s[:i] + s[i+1:]
		case 2:
			return s + gen.Pick(r, []string{")", "]", "}", " x", "\n#_"})
		default:
			return strings.NewReplacer(")", "]", "]", "}", "}", ")").Replace(s)
		}
	}
	return pre + in + post
}

var enumToks = []string{"(", ")", "[", "]", "{", "}", "#{", "#(", "#?", "#?@", "#:a", "#'", "#", "#_", "#=", "^", "'", "~", "~@", "x ", "1 ", `"s"`, `\a `, ";c\n", "\n", " ", `"`, `\`}

// enumSeqs calls f with the k-th n sequences of up to four tokens.
func (c *Ctx) enumSeqs(k, n int, f func(string)) {
	base := len(enumToks) + 1 // 0 is the end
	all := base * base * base * base
	for i := k * n; i < (k+1)*n && i < all; i++ {
		s := ""
		ok := true
		for x := i; x > 0; x /= base {
			if x%base == 0 {
				ok = false
				break
			}
			s += enumToks[x%base-1]
		}
		if ok {
			f(s)
			c.Count("token sequences enumerated", 1)
		}
	}
	if k*n < all && (k+1)*n >= all {
		c.Count("complete enumerations of the token sequences", 1)
	}
}

func c12one(c *Ctx, src string) {
	c.Text(src, "", func(src string) string {
		_, rerr := ref.Read(src)
		if rerr != nil && rerr.Code == ref.Unsure {
			c.Count("no verdict", 1)
			return ""
		}
		for _, po := range []parse.ParseOpts{0, parse.IncludeNonSemantic} {
			_, err := parseSrc(src, po)
			if (err == nil) != (rerr == nil) {
				if rerr == nil {
					return fmt.Sprintf("a well-formed text is rejected: %v", err)
				}
				return fmt.Sprintf("a malformed text is accepted: %s", rerr.Code)
			}
		}
		if rerr == nil {
			c.Count("accepted, as it should", 1)
		} else {
			c.Count("rejected, as it should", 1)
			c.Count("rejected: "+string(rerr.Code), 1)
		}
		c.Case(src, true)
		return ""
	})
}

// --- C13

func c13(c *Ctx, idx int) {
	r := c.Rand(idx)
	var src string
	switch {
	case idx%8 == 1: // every character spelling once, then numbers and so on
		src = enumAtoms(r, idx/8)
	case idx%8 == 2:
		src = nestedForm(r, idx/8, false)
	default:
		src = c.Source(r, nil)
	}
	if t, ok := c.tinyPrefix(idx, 40); ok {
		src = t
	}
	kinds := map[string]bool{}
	test := func(src string) string {
		roots, rerr := ref.Read(src)
		if rerr != nil {
			return ""
		}
		for _, po := range []parse.ParseOpts{parse.IncludeNonSemantic, 0} {
			t, err := parseSrc(src, po)
			if err != nil {
				return "a well-formed text is rejected: " + err.Error()
			}
			want, got := viewRef(roots, po != 0), viewTree(t.Roots)
			if m := diffV(want, got); m != "" {
				return fmt.Sprintf("%s (options %d)", m, po)
			}
			c.Count("nodes compared", int64(len(want)))
			for _, v := range want {
				k := v.Kind
				if k == "prefix" {
					k += v.Text
				}
				kinds[k] = true
			}
			c.Case(src, len(want) >= 5)
		}
		return ""
	}
	if idx%12 == 5 {
		c.enumSeqs(idx/12, 100, func(s string) { c.Text(s, "", test) })
	}
	c.Text(src, "", test)
	if c.quiet {
		return
	}
	seen := c.set("kinds")
	for k := range kinds {
		seen[k] = true
	}
	c.res.Counters["max node kinds seen"] = int64(len(seen))
}

// enumAtoms is the k-th text of an enumeration of atoms: all characters by
// octal and by hexadecimal code, and afterwards random ones of those.
func enumAtoms(r *rand.Rand, k int) string {
	const per = 64
	var b strings.Builder
	for i := k * per; i < (k+1)*per; i++ {
		v := i
		if v >= 0o400+0x10000 {
			v = r.Intn(0o400 + 0x10000)
		}
		switch {
		case v < 0o400:
			fmt.Fprintf(&b, "\\o%03o \\%c ", v, rune(v+0x21))
		case v-0o400 >= 0xd800 && v-0o400 < 0xe000:
			continue
		default:
			v -= 0o400
			fmt.Fprintf(&b, gen.Pick(r, []string{"\\u%04x ", "\\u%04X "}), v)
		}
	}
	return b.String()
}

// --- C14

func c14(c *Ctx, idx int) {
	r := c.Rand(idx)
	var src string
	malformed := idx%2 == 0
	if malformed {
		src = c.Hostile(r)
	} else {
		src = c.Source(r, nil)
	}
	name := gen.Pick(r, []string{"t.clj", "a b.clj", "<stdin>", "/x/y.cljs", "é.clj"})
	po := gen.Pick(r, []parse.ParseOpts{0, parse.IncludeNonSemantic})
	test := func(src string) string {
		roots, rerr := ref.Read(src)
		t, err := parse.Reader(strings.NewReader(src), name, po)
		switch {
		case rerr != nil && rerr.Code == ref.Unsure, (rerr == nil) != (err == nil):
			return "" // C12
		case rerr != nil:
			want := fmt.Sprintf("%s:%d:%d", name, rerr.Line, rerr.Col)
			i := strings.Index(err.Error(), want)
			if i < 0 || digitAt(err.Error(), i+len(want)) {
				return fmt.Sprintf("wrong position in error: %q for %s, want %s", err, rerr.Code, want)
			}
			c.Count("error positions compared", 1)
			c.Count("error positions: "+string(rerr.Code), 1)
			c.Case(src, true)
			return ""
		}
		want, got := viewRef(roots, po != 0), viewTree(t.Roots)
		if len(want) != len(got) {
			return "" // C13
		}
		for i := range want {
			w, g := want[i], got[i]
			if w.Kind != g.Kind {
				return "" // C13
			}
			if w.Off != g.Off || w.Line != g.Line || w.Col != g.Col || g.Name != name {
				return fmt.Sprintf("wrong position of a %s node: %v at %s:%d:%d offset %d, want %s:%d:%d offset %d", w.Kind, g, g.Name, g.Line, g.Col, g.Off, name, w.Line, w.Col, w.Off)
			}
		}
		c.Count("node positions compared", int64(len(want)))
		c.Case(src, len(want) > 0)
		return ""
	}
	if t, ok := c.tinyPrefix(idx, 40); ok {
		src = t
	}
	if idx%12 == 5 {
		c.enumSeqs(idx/12, 75, func(s string) { c.Text(s, name, test) })
	}
	c.Text(src, name, test)
}

func digitAt(s string, i int) bool { return i < len(s) && s[i] >= '0' && s[i] <= '9' }

// --- C15

// item is one element of a linear text: a prefix or tag (which wants a form
// after it) or a complete form.
type item struct {
	mark string // prefix text, "#tag", or ""
	n    *ref.Node
}

// linear undoes the nesting of prefixes among siblings.
func linear(ns []*ref.Node, out []item) []item {
	for _, n := range ns {
		switch n.Kind {
		case ref.NPrefix:
			out = append(out, item{n.Text, n})
			out = linear(n.Kids, out)
		case ref.NTag:
			out = append(out, item{"#tag", n})
		default:
			out = append(out, item{"", n})
		}
	}
	return out
}

var errUnsure = errors.New("unsure")

// exclude computes what remains of siblings under the options, as a stream of
// nodes in pre-order where prefixes do not nest. Newlines and comments are
// ignored except that comments outside excluded forms must remain.
type excluder struct {
	opts                      parse.ParseOpts
	out                       []V
	comments, discards, plain int64
	quoted                    int64
}

func (e *excluder) isComment(n *ref.Node) bool {
	if n.Kind != ref.NList {
		return false
	}
	kids := n.Kids
	if e.opts&parse.IgnoreReaderDiscard != 0 {
		kids = e.undiscarded(kids)
	}
	for _, k := range kids {
		if k.Semantic() {
			return k.Kind == ref.NSym && k.Text == "comment"
		}
	}
	return false
}

// undiscarded drops leading discards only.
func (e *excluder) undiscarded(kids []*ref.Node) []*ref.Node {
	its := linear(kids, nil)
	i := 0
	for i < len(its) && (its[i].mark == "#_" || !its[i].n.Semantic()) {
		if its[i].mark == "#_" {
			i = e.skipForm(its, i+1)
		} else {
			i++
		}
	}
	if i < len(its) && its[i].mark == "" {
		return []*ref.Node{its[i].n}
	}
	return nil
}

// skipForm returns the index after the form starting at i, with everything that
// belongs to it; newlines and discards before it are skipped as well.
func (e *excluder) skipForm(its []item, i int) int {
	for {
		if i >= len(its) {
			panic(errUnsure)
		}
		it := its[i]
		switch {
		case !it.n.Semantic():
			i++
		case it.mark == "#_":
			i = e.skipForm(its, i+1)
		case it.mark == "^": // the metadata, then the form
			i = e.skipForm(its, i+1)
		case it.mark != "": // quote or tag
			i++
		default:
			return i + 1
		}
	}
}

func (e *excluder) seq(ns []*ref.Node, coll int) {
	its := linear(ns, nil)
	wants := false // the previous element wants a form
	quoted := false
	for i := 0; i < len(its); {
		it := its[i]
		n := it.n
		switch {
		case !n.Semantic():
			if n.Hoisted && e.opts&parse.IgnoreReaderDiscard != 0 {
				// may go with a discarded form
			} else if n.Kind == ref.NComment && wants && quoted && e.opts&parse.IgnoreReaderDiscard != 0 {
				panic(errUnsure) // between a prefix and its form once the discard is gone: dropped after ' ` @ ~ ~@
			} else if n.Kind == ref.NComment && e.opts&parse.IncludeNonSemantic != 0 {
				e.out = append(e.out, V{Kind: "comment", Text: n.Text, Coll: coll})
			} else {
				e.plain++
			}
			i++
		case it.mark == "#_" && e.opts&parse.IgnoreReaderDiscard != 0:
			i = e.skipForm(its, i+1)
			e.discards++
		case it.mark != "":
			v := V{Kind: "prefix", Text: it.mark, Coll: coll}
			if it.mark == "#tag" {
				v = V{Kind: "tag", Text: n.Text, Coll: coll}
			}
			e.out = append(e.out, v)
			wants = true
			quoted = it.mark != "#tag"
			i++
		default:
			if e.opts&parse.IgnoreCommentForm != 0 && e.isComment(n) {
				if !wants {
					e.comments++
					i++
					continue
				}
				if !quoted || !e.directlyQuoted(its, i) {
					panic(errUnsure)
				}
				e.quoted++
			}
			wants = false
			v := viewRef([]*ref.Node{n}, true)[0]
			v.Coll, v.Depth = coll, 0
			e.out = append(e.out, v)
			e.seq(n.Kids, coll+1)
			i++
		}
	}
	if wants && e.opts&parse.IgnoreReaderDiscard != 0 {
		panic(errUnsure)
	}
}

// directlyQuoted reports whether the element before i is one of the prefixes
// that take their form as a child.
func (e *excluder) directlyQuoted(its []item, i int) bool {
	for i--; i >= 0 && !its[i].n.Semantic(); i-- {
	}
	if i < 0 {
		return false
	}
	switch its[i].mark {
	case "'", "`", "@", "~", "~@", "#=":
		return true
	}
	return false
}

func c15(c *Ctx, idx int) {
	r := c.Rand(idx)
	src := c.Source(r, func(p *gen.Profile) {
		p.Discards, p.Stacked = 0.15, 0.06
		p.Comments = 0.1
		p.Heads = append([]string{"comment", "comment", "comment"}, p.Heads...)
	})
	if r.Intn(2) == 0 {
		src = seedComments(r, src)
	}
	po := allParseOpts[idx%8]
	const desc = "parse options %03b (1 IncludeNonSemantic, 2 IgnoreCommentForm, 4 IgnoreReaderDiscard)"
	test := func(src string) (msg string) {
		roots, rerr := ref.Read(src)
		if rerr != nil {
			return ""
		}
		e := &excluder{opts: po}
		defer func() {
			if x := recover(); x != nil {
				if x != errUnsure {
					panic(x)
				}
				c.Count("no verdict", 1)
				msg = ""
			}
		}()
		e.seq(roots, 0)
		t, err := parseSrc(src, po)
		if err != nil {
			return fmt.Sprintf("a well-formed text is rejected: %v", err)
		}
		hoisted := map[int]bool{}
		if po&parse.IgnoreReaderDiscard != 0 {
			ref.Walk(roots, func(n *ref.Node) {
				if n.Hoisted {
					hoisted[n.First.Off] = true
				}
			})
		}
		var got []V
		for _, v := range viewTree(t.Roots) {
			if v.Kind == "newline" {
				if po&parse.IncludeNonSemantic == 0 {
					return "a newline node is included"
				}
				continue
			}
			if v.Kind == "comment" && hoisted[v.Off] {
				continue
			}
			v.Depth = 0
			got = append(got, v)
		}
		for i := range got {
			got[i].Depth = got[i].Coll
		}
		for i := range e.out {
			e.out[i].Depth = e.out[i].Coll
		}
		if m := diffV(e.out, got); m != "" {
			return m
		}
		c.Count("comment forms excluded", e.comments)
		c.Count("discarded forms excluded", e.discards)
		c.Count("newlines and comments excluded", e.plain)
		c.Count("quoted comment forms kept", e.quoted)
		c.Case(fmt.Sprint(po, src), e.comments+e.discards+e.plain > 0)
		return ""
	}
	if t, ok := c.tinyPrefix(idx, 8*6); ok {
		for _, form := range strings.SplitAfter(t, ")\n") {
			for _, po = range allParseOpts {
				c.Text(form, fmt.Sprintf(desc, po), test)
			}
		}
		return
	}
	c.Text(src, fmt.Sprintf(desc, po), test)
}

// seedComments puts comment forms and discards at token boundaries.
func seedComments(r *rand.Rand, src string) string {
	toks, err := ref.Lex(src)
	if err != nil {
		return src
	}
	for k := 1 + r.Intn(4); k > 0; k-- {
		t := toks[r.Intn(len(toks))]
		ins := gen.Pick(r, []string{"(comment x y)", "(comment)", "(\n comment (comment 1))", "'(comment a)", "( ;c\n comment b)", "@(comment)", "(comments 1)", "[comment 1]",
			"(comment #_a b)", "(:comment 1)", "(clojure.core/comment 1)", "(x/comment 1)", "(comment/x 1)", "(Comment 1)", "(comment' 1)", "(\"comment\" 1)", "((comment) 1)", "#(comment 1)", "(^m comment 1)", "('comment 1)", "{comment 1}", "#?(comment 1)", "#_(comment 1)", "#_ ^m x", "#_ #t x", "#_#_ a b", "#_'x", "#_ ^{:a 1} #t ^m x", "#_ #_ ^m a b", "#_ #_ #_ 1 2 3", "#_#?(:clj 1)", "'#_a b", "^#_ a m x", "(#_x comment 1)"})
		src = src[:t.Off] + " " + ins + " " + src[t.Off:]
		toks2, err := ref.Lex(src)
		if err != nil {
			return src
		}
		toks = toks2
	}
	return src
}

// --- C16

// chunkReader delivers s in pieces and ends with fault (or io.EOF).
type chunkReader struct {
	s        string
	r        *rand.Rand
	max      int
	empty    int  // one in so many reads returns nothing
	withData bool // the end comes together with the last data
	fault    error
	reads    int
}

func (cr *chunkReader) Read(p []byte) (int, error) {
	cr.reads++
	end := cr.fault
	if end == nil {
		end = io.EOF
	}
	if len(cr.s) == 0 {
		return 0, end
	}
	if cr.empty > 0 && cr.r.Intn(cr.empty) == 0 {
		return 0, nil
	}
	n := min(1+cr.r.Intn(cr.max), len(cr.s), len(p))
	copy(p, cr.s[:n])
	cr.s = cr.s[n:]
	if cr.withData && len(cr.s) == 0 {
		return n, end
	}
	return n, nil
}

func newChunkReader(r *rand.Rand, s string, fault error) *chunkReader {
	return &chunkReader{s: s, r: r, max: gen.Pick(r, []int{1, 1, 2, 3, 7, 100, 4095, 4096, 4097, 1 << 20}), empty: gen.Pick(r, []int{0, 0, 3, 10}),
		withData: r.Intn(2) == 0, fault: fault}
}

// outcome describes a parse completely.
func outcome(t *parse.Tree, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	var b strings.Builder
	for _, v := range viewTree(t.Roots) {
		fmt.Fprintf(&b, "%d %s %q %s %d %d %d\n", v.Depth, v.Kind, v.Text, v.Name, v.Off, v.Line, v.Col)
	}
	return b.String()
}

// readFaults are the errors which failing readers return.
var readFaults = []error{faultErr("disk on fire"), io.ErrUnexpectedEOF, faultErr("EOF in disguise"), os.ErrClosed, faultErr("EOF"), io.ErrClosedPipe, io.ErrNoProgress,
	io.ErrShortBuffer, context.Canceled, context.DeadlineExceeded, os.ErrDeadlineExceeded, syscall.EINTR, syscall.EAGAIN, syscall.EIO, syscall.EPIPE, bufio.ErrTooLong,
	&os.PathError{Op: "read", Path: "x", Err: syscall.EISDIR}, net.ErrClosed, gzip.ErrChecksum, fs.ErrNotExist, tempErr{}}

type tempErr struct{}

func (tempErr) Error() string   { return "try again" }
func (tempErr) Temporary() bool { return true }
func (tempErr) Timeout() bool   { return true }

type faultErr string

func (f faultErr) Error() string { return string(f) }

// c16long parses a text of several megabytes that is made up while it is read.
func c16long(c *Ctx, k int) {
	unit := []string{"a\n", " ", "\n", ",", ";c\n", "(b)", ";", "é", "\"\n", "\\x "}[k%10]
	pre, post := "", ""
	switch unit {
	case ";", "é":
		pre, post = "(;", "\n)"
	case "\"\n": // strings and what is between them
		post = "\""
	case " ", "\n", ",":
		pre, post = "[", "]"
	}
	mb := 3
	if strings.Contains(" \n,;c\né", unit) { // no nodes
		mb = 9
	}
	if c.Thorough() {
		mb *= 4
	}
	n := (mb<<20)/len(unit) | 1
	in := io.MultiReader(strings.NewReader(pre), &repeatReader{unit: unit, n: n}, strings.NewReader(post+" last)"))
	t, err := parse.Reader(in, "t.clj", 0)
	desc := fmt.Sprintf("%q, %d times %q, %q", pre, n, unit, post+" last)")
	off := len(pre) + n*len(unit) + len(post) + 1
	c.Case(desc, true)
	c.Count("megabytes in long texts", int64(mb))
	line := 1 + strings.Count(pre+post, "\n") + n*strings.Count(unit, "\n")
	if t != nil || err == nil || !strings.Contains(err.Error(), fmt.Sprintf("t.clj:%d:", line)) {
		c.Violate(fmt.Sprintf("the error should name the bracket at the end of a long text, in line %d: %v", line, err), desc, "")
		return
	}
	in = io.MultiReader(strings.NewReader(pre), &repeatReader{unit: unit, n: n}, strings.NewReader(post+" last"))
	t, err = parse.Reader(in, "t.clj", 0)
	if err != nil {
		c.Violate("a long text is rejected: "+err.Error(), desc, "")
		return
	}
	if s, ok := t.Roots[len(t.Roots)-1].(*parse.SymbolNode); !ok || s.Val != "last" || s.Pos.Offset != off || s.Pos.Line != line {
		c.Violate(fmt.Sprintf("a long text ends with %v instead of the symbol last in line %d at offset %d", t.Roots[len(t.Roots)-1], line, off), desc, "")
	}
	c.Count("long texts", 1)
}

// repeatReader reads n times unit.
type repeatReader struct {
	unit, buf string
	n         int
}

func (r *repeatReader) Read(p []byte) (int, error) {
	if r.buf == "" {
		if r.n == 0 {
			return 0, io.EOF
		}
		k := min(r.n, 1+4000/len(r.unit))
		r.n -= k
		r.buf = strings.Repeat(r.unit, k)
	}
	n := copy(p, r.buf)
	r.buf = r.buf[n:]
	return n, nil
}

func c16(c *Ctx, idx int) {
	if idx%5999 == 7 {
		c16long(c, idx/5999)
		return
	}
	r := c.Rand(idx)
	var src string
	switch {
	case idx%3 == 0:
		src = c.Source(r, func(p *gen.Profile) { p.PrefixCmt = 0.02; p.Unicode = 0.3 })
	case idx%50 == 1: // multi-byte characters across the buffer boundary
		src = strings.Repeat(" ", 4080+r.Intn(16)) + c.smallSource(r)
		if r.Intn(2) == 0 {
			src = `"` + strings.Repeat("é", 2030+r.Intn(18)) + `" ` + gen.Pick(r, soup) + "日本 \xff x"
		}
	default:
		src = c.Hostile(r)
	}
	po := allParseOpts[r.Intn(8)]
	seed := r.Int63()
	file := idx%20 == 0
	c.Text(src, fmt.Sprintf("parse options %03b", po), func(src string) string {
		r := rand.New(rand.NewSource(seed))
		whole := outcome(parse.Reader(strings.NewReader(src), "t.clj", po))
		for i := 0; i < 2; i++ {
			cr := newChunkReader(r, src, nil)
			got := outcome(parse.Reader(cr, "t.clj", po))
			if got != whole {
				return fmt.Sprintf("the result depends on the delivery (chunks of at most %d bytes): %s", cr.max, diffText(whole, got))
			}
			c.Count("deliveries compared", 1)
			c.Count("reads", int64(cr.reads))
			c.Case(src, cr.reads >= 2)
		}
		if file {
			name := filepath.Join(c.Dir, "in.clj")
			if err := os.WriteFile(name, []byte(src), 0o644); err != nil {
				panic(err)
			}
			got := outcome(parse.File(name, po))
			want := outcome(parse.Reader(strings.NewReader(src), name, po))
			if got != want {
				return "File and Reader differ: " + diffText(want, got)
			}
			c.Count("files compared", 1)
		}
		// read faults
		cuts := []int{r.Intn(len(src) + 1), r.Intn(len(src) + 1), len(src)}
		if len(src) <= 60 && seed%4 == 0 {
			cuts = cuts[:0]
			for i := 0; i <= len(src); i++ {
				cuts = append(cuts, i)
			}
			c.Count("texts with a fault at every byte", 1)
		}
		for _, k := range cuts {
			fault := gen.Pick(r, readFaults)
			cr := newChunkReader(r, src[:k], fault)
			t, err := parse.Reader(cr, "t.clj", po)
			c.Count("read faults injected", 1)
			if err == nil || t != nil {
				return fmt.Sprintf("a read error is swallowed: %q after %d bytes", fault, k)
			}
			if !strings.Contains(err.Error(), fault.Error()) {
				// Fine only if the text so far is malformed whatever follows.
				for _, tail := range []string{"", "\n0", "\"\n0 "} {
					_, err2 := parse.Reader(strings.NewReader(src[:k]+tail), "t.clj", po)
					if err2 == nil || err2.Error() != err.Error() {
						return fmt.Sprintf("the error does not name the read error: %q after %d bytes gives %q", fault, k, err)
					}
				}
				c.Count("read faults after a syntax error", 1)
			} else {
				c.Count("read faults named in the error", 1)
			}
		}
		return ""
	})
}

// --- C22

// checkParents compares every parent link with the nodes that list it.
func checkParents(roots []parse.Node) (int64, string) {
	var n int64
	seen := map[parse.Node]bool{}
	var walk func(kids []parse.Node, parent parse.Node) string
	walk = func(kids []parse.Node, parent parse.Node) string {
		for _, k := range kids {
			if k == nil {
				return fmt.Sprintf("nil child of %v", parent)
			}
			n++
			if seen[k] {
				return fmt.Sprintf("a node is listed twice: %s", k)
			}
			seen[k] = true
			if p := k.Parent(); p != parent {
				if parent == nil {
					return fmt.Sprintf("a root has a parent: %s under %s", k, p)
				}
				if p == nil {
					return fmt.Sprintf("wrong parent: %s has none, want %s", k, parent)
				}
				return fmt.Sprintf("wrong parent: %s has %s, want %s", k, p, parent)
			}
			if m := walk(k.Children(), k); m != "" {
				return m
			}
		}
		return ""
	}
	m := walk(roots, nil)
	return n, m
}

func c22(c *Ctx, idx int) {
	r := c.Rand(idx)
	src := c.Source(r, func(p *gen.Profile) { p.NS = 0.4 })
	if len(src) > 20000 {
		src = "(a [b {c d}] #{e} '(f g) @h #(i %) ^j k #?(:clj [l]))"
	}
	o := RandOpts(r, true)
	o.Parse = allParseOpts[r.Intn(8)]
	seed := r.Int63()
	c.Text(src, o.String(), func(src string) string {
		r := rand.New(rand.NewSource(seed))
		t, err := parseSrc(src, o.Parse)
		if err != nil {
			return ""
		}
		n, m := checkParents(t.Roots)
		if m != "" {
			return "after parsing: " + m
		}
		c.Count("parent links compared", n)
		c.Case(src+o.String(), n >= 3)
		if seed%2 == 0 {
			if _, err := printTree(t, o); err != nil {
				return "printing fails: " + err.Error()
			}
			n, m := checkParents(t.Roots)
			if m != "" {
				return "after printing: " + m
			}
			c.Count("parent links compared", n)
			c.Count("trees checked after printing", 1)
		}
		return c22history(c, r, t)
	})
}

// c22history drives SetChildren on the nodes of a tree and on detached nodes, with a model.
func c22history(c *Ctx, r *rand.Rand, t *parse.Tree) string {
	var nodes []parse.Node
	parent := map[parse.Node]parse.Node{}
	kids := map[parse.Node][]parse.Node{}
	var walk func(ns []parse.Node, p parse.Node)
	walk = func(ns []parse.Node, p parse.Node) {
		for _, n := range ns {
			nodes = append(nodes, n)
			parent[n] = p
			kids[n] = append([]parse.Node(nil), n.Children()...)
			walk(n.Children(), n)
		}
	}
	walk(t.Roots, nil)
	if len(nodes) == 0 {
		return ""
	}
	below := func(n, top parse.Node) bool { // n is top or inside it
		for ; n != nil; n = parent[n] {
			if n == top {
				return true
			}
		}
		return false
	}
	var log []string
	fail := func(format string, args ...any) string {
		return fmt.Sprintf(format, args...) + "\nhistory: " + strings.Join(log, "; ")
	}
	for step := 0; step < 8; step++ {
		n := nodes[r.Intn(len(nodes))]
		if len(kids[n]) == 0 && r.Intn(3) > 0 {
			n = nodes[r.Intn(len(nodes))]
		}
		leaf, unary := false, false
		switch n.(type) {
		case *parse.ListNode, *parse.VectorNode, *parse.MapNode, *parse.SetNode, *parse.FnLiteralNode, *parse.ReaderCondNode, *parse.ReaderCondSpliceNode:
		case *parse.QuoteNode, *parse.SyntaxQuoteNode, *parse.DerefNode, *parse.UnquoteNode, *parse.UnquoteSpliceNode, *parse.MetadataNode, *parse.ReaderDiscardNode, *parse.ReaderEvalNode:
			unary = true
		default:
			leaf = true
		}
		var next []parse.Node
		switch {
		case leaf || unary && r.Intn(4) == 0: // must be refused
			if unary {
				for k := r.Intn(2) * 2; k > 0; k-- {
					next = append(next, &parse.SymbolNode{Pos: &parse.Pos{}, Val: "new"})
				}
			}
			log = append(log, fmt.Sprintf("%s gets %d children", n, len(next)))
			if !panics(func() { n.SetChildren(next) }) {
				return fail("a node that cannot have %d children accepts them: %T", len(next), n)
			}
			c.Count("wrong SetChildren calls refused", 1)
		default:
			if unary {
				next = []parse.Node{c22pick(r, nodes, n, below)}
			} else {
				for _, k := range kids[n] { // keep some, in any order
					if r.Intn(3) > 0 {
						next = append(next, k)
					}
				}
				r.Shuffle(len(next), func(i, j int) { next[i], next[j] = next[j], next[i] })
				for k := r.Intn(3); k > 0; k-- {
					x := c22pick(r, nodes, n, below)
					dup := false
					for _, y := range next {
						dup = dup || x == y
					}
					if !dup {
						i := r.Intn(len(next) + 1)
						next = append(next[:i:i], append([]parse.Node{x}, next[i:]...)...)
					}
				}
			}
			log = append(log, fmt.Sprintf("%s: %d children become %d", n, len(kids[n]), len(next)))
			arg := append([]parse.Node(nil), next...)
			n.SetChildren(arg)
			for _, k := range kids[n] {
				parent[k] = nil
			}
			kids[n] = next
			for _, k := range next {
				if old := parent[k]; old != nil && old != n {
					kids[old] = append([]parse.Node(nil), old.Children()...)
				}
				parent[k] = n
				if _, ok := kids[k]; !ok {
					nodes = append(nodes, k)
					kids[k] = nil
				}
			}
			c.Count("SetChildren calls", 1)
		}
		// a node listed by two parents belongs to the one that got it last
		for _, x := range nodes {
			if x.Parent() != parent[x] {
				return fail("wrong parent after SetChildren: %s", x)
			}
			got := x.Children()
			if len(got) != len(kids[x]) {
				return fail("wrong children after SetChildren: %s has %d, want %d", x, len(got), len(kids[x]))
			}
			for i := range got {
				if got[i] != kids[x][i] {
					return fail("wrong children after SetChildren: child %d of %s", i, x)
				}
			}
		}
		c.Count("parent links compared", int64(len(nodes)))
	}
	return ""
}

func c22pick(r *rand.Rand, nodes []parse.Node, under parse.Node, below func(n, top parse.Node) bool) parse.Node {
	if r.Intn(2) == 0 {
		x := nodes[r.Intn(len(nodes))]
		if !below(under, x) && x.Parent() == nil || x.Parent() == under {
			return x
		}
	}
	return &parse.SymbolNode{Pos: &parse.Pos{}, Val: "new"}
}

func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return false
}
