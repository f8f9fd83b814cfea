package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/cespare/goclj/format"

	"goclj.verif/mon/gen"
	"goclj.verif/mon/model"
	"goclj.verif/mon/ref"
)

const nsRule = "Texts are ns forms from a grammar (all clause kinds, symbol- and vector-style clauses, prefix lists, reader conditionals, discards, metadata, comments, repeated clauses and libraries) followed by code that uses some of the declared names. "

// NSSource makes a text whose first form is an ns form.
func (c *Ctx) NSSource(r *rand.Rand, o gen.NSOpts, comments float64) (string, bool) {
	p := gen.Vary(r, gen.Default())
	p.Comments, p.PrefixCmt, p.PrefixNL, p.Stacked = comments, 0, 0.01, 0
	p.CRLF, p.LoneCR = r.Intn(12) == 0, r.Intn(12) == 0 && comments > 0
	p.MaxDepth = 2 + r.Intn(3)
	g := gen.New(r, p)
	var b strings.Builder
	if r.Intn(8) == 0 {
		b.WriteString(g.CommentText() + "\n")
	}
	odd := len(o.Namespaces) == 0 && r.Intn(6) == 0
	if odd {
		b.WriteString(g.OddNS())
		c.Count("ns forms with odd items", 1)
	} else {
		b.WriteString(g.NS(o))
	}
	b.WriteString(g.Sep())
	for i := r.Intn(4); i > 0; i-- {
		b.WriteString("\n" + g.Use(o) + "\n")
	}
	if odd && r.Intn(2) == 0 {
		b.WriteString("\n(x/a y/b z/c z y 'x #'y ::z/k #::y{:a x})\n")
	}
	for i := r.Intn(2); i > 0; i-- {
		b.WriteString("\n" + g.Top() + "\n")
	}
	if r.Intn(15) == 0 {
		b.WriteString("\n" + g.NS(o) + "\n")
	}
	src := b.String()
	if r.Intn(8) == 0 {
		// a mutation: drop or double a token
		if toks, err := ref.Lex(src); err == nil && len(toks) > 3 {
			t := toks[1+r.Intn(len(toks)-2)]
			if r.Intn(2) == 0 {
				src = src[:t.Off] + " " + src[t.End:]
			} else {
				src = src[:t.End] + " " + t.Text + " " + src[t.End:]
			}
		}
	}
	if roots, err := ref.Read(src); err != nil || !hasNS(roots) || hasPrefixComment(roots) {
		c.Count("rejected by the generator", 1)
		return "", false
	}
	return src, true
}

func nsForms(roots []*ref.Node) []*ref.Node {
	var out []*ref.Node
	for _, n := range roots {
		if isHeadSym(n, "ns") {
			out = append(out, n)
		}
	}
	return out
}

func init() {
	register(&Check{
		ID: "C03", Quick: 280000, Thorough: 900000,
		Rule: nsRule + "With sort-import-require and enforce-ns-style in any combination, the declarations read from the ns form of the output (clauses in order, items of each clause as a multiset, each item with all its options, prefix items kept together) must be those of the input. Non-trivial: the tokens of the ns form changed.",
		Min:  map[string]int64{"ns items compared": 60000, "ns forms reordered or restyled": 6000},
		Run:  c03,
	})
	register(&Check{
		ID: "C08", Quick: 182000, Thorough: 900000,
		Rule: nsRule + "The whole output is compared with the text of a reference model of the documented ns style and sorting rules; independently of the model, the items of every sorted clause must be in order and every clause in the documented style. Non-trivial: the tokens of the ns form changed.",
		Min:  map[string]int64{"sorted clauses checked": 10000, "styled clauses checked": 15000, "lines compared": 100000},
		Run:  c08,
	})
	register(&Check{
		ID: "C10", Quick: 70000, Thorough: 900000,
		Rule: nsRule + "Overrides are drawn for plain and qualified names; the code uses them through aliases, referred names, full names and unknown or shadowed qualifiers. The layout of the whole output is compared with the reference model's scoping rules. Non-trivial: the text contains a list whose rule depends on a require (the model lays it out differently without the ns form's requires).",
		Min:  map[string]int64{"lines compared": 100000, "layouts that depend on a require": 800, "layouts that depend on an override": 5000},
		Run:  c10,
	})
	register(&Check{
		ID: "C23", Quick: 280000, Thorough: 900000,
		Rule: nsRule + "use-to-require is on, with the other transforms at random (remove-unused-requires off). The facts declared by the :require and :use clauses (libraries loaded, aliases, referred names, refer-all, macros, and every item that is not understood, verbatim) are computed by the monitor from input and output and must be the same; no :use item that has a :require equivalent may remain. Non-trivial: the input has such an item.",
		Min:  map[string]int64{"facts compared": 60000, "use items converted": 6000},
		Run:  c23,
	})
	register(&Check{
		ID: "C24", Quick: 280000, Thorough: 900000,
		Rule: nsRule + "remove-unused-requires is on, with the other transforms at random. The monitor decides from the rest of the text which aliases, referred names and libraries are in use (symbols, var quotes, auto-resolved keywords and maps, imports) and compares the declared facts of the output with exactly the facts that must remain. Non-trivial: some facts are removed and some remain.",
		Min:  map[string]int64{"facts kept": 40000, "facts removed": 20000, "aliases kept because of a use": 1500, "referred names kept because of a use": 2000},
		Run:  c24,
	})
}

func nsText(n *ref.Node) string {
	var s []string
	for _, f := range stream([]*ref.Node{n}, nil) {
		if f.Kind != ref.Newline && f.Kind != ref.Comment {
			s = append(s, f.Text)
		}
	}
	return strings.Join(s, " ")
}

func c03(c *Ctx, idx int) {
	r := c.Rand(idx)
	no := gen.DefaultNS(r)
	no.MetaInside = r.Intn(4) == 0
	cm := 0.05
	if r.Intn(3) == 0 {
		cm = 0.2
	}
	src, ok := c.NSSource(r, no, cm)
	if !ok {
		return
	}
	o := RandOpts(r, false)
	if r.Intn(3) == 0 {
		o = Only("sort-import-require")
	} else if r.Intn(4) == 0 {
		o = Only("enforce-ns-style")
	}
	c.Text(src, o.String(), func(src string) string {
		out, roots, outRoots, msg := run(src, o)
		if roots == nil || msg != "" {
			return msg
		}
		a, b := nsForms(roots), nsForms(outRoots)
		if len(a) != len(b) {
			return fmt.Sprintf("number of ns forms differs: %d and %d", len(a), len(b))
		}
		changed := false
		for i := range a {
			va, vb := nsView(a[i], false), nsView(b[i], false)
			c.Count("ns items compared", int64(strings.Count(va, "\n")))
			if nsText(a[i]) != nsText(b[i]) {
				changed = true
				c.Count("ns forms reordered or restyled", 1)
			}
			if va != vb {
				return "the ns form declares something else: " + diffText(va, vb)
			}
		}
		c.Case(src+"\x00"+o.String(), changed)
		_ = out
		return ""
	})
}

func c08(c *Ctx, idx int) {
	r := c.Rand(idx)
	no := gen.DefaultNS(r)
	no.MetaInside = r.Intn(8) == 0
	cm := 0.03
	if r.Intn(3) == 0 {
		cm = 0.2
	}
	src, ok := c.NSSource(r, no, cm)
	if !ok {
		return
	}
	var o *FmtOpts
	switch r.Intn(4) {
	case 0:
		o = Only("sort-import-require")
	case 1:
		o = Only("enforce-ns-style")
	case 2:
		o = Only("sort-import-require", "enforce-ns-style")
	default:
		o = RandOpts(r, false)
	}
	c.Text(src, o.String(), func(src string) string {
		if m := c.nsPost(src, o); m != "" {
			return m
		}
		return c.matchModel(src, o, "")
	})
}

// nsPost checks the documented style of an output without the model.
func (c *Ctx) nsPost(src string, o *FmtOpts) string {
	_, _, outRoots, msg := run(src, o)
	if outRoots == nil || msg != "" {
		return msg
	}
	for _, ns := range nsForms(outRoots) {
		for _, cl := range ns.Kids[1:] {
			name := clauseOf(cl)
			if name == "" {
				continue
			}
			if o.On("enforce-ns-style") {
				c.Count("styled clauses checked", 1)
				if cl.Kind != ref.NList || cl.Kids[0].Kind != ref.NKw {
					return "a clause is not a list with a keyword: " + trunc(nsText(cl), 200)
				}
				if (name == "require" || name == "import") && len(cl.Kids) > 1 && cl.Kids[1].Semantic() && !annotation(cl.Kids[1]) {
					return "no line end after the clause keyword: " + trunc(nsText(cl), 200)
				}
				for _, x := range cl.Kids[1:] {
					switch {
					case name == "require" && (x.Kind == ref.NList || plainSymbol(x)):
						return "a required library is not written as a vector: " + trunc(nsText(x), 200)
					case name == "import" && x.Kind == ref.NVector:
						return "an import is not written as a list: " + trunc(nsText(x), 200)
					}
				}
			}
			if o.On("sort-import-require") && isHeadKw(cl, ":require", ":require-macros", ":import") {
				glued := false
				for _, x := range cl.Kids {
					if x.Kind == ref.NTag || x.Kind == ref.NPrefix && (x.Text == "^" || x.Text == "#_") {
						glued = true
					}
				}
				if glued {
					continue
				}
				c.Count("sorted clauses checked", 1)
				prev := ""
				for _, x := range cl.Kids[1:] {
					if !x.Semantic() {
						continue
					}
					k := x
					if x.IsColl() {
						if x.Kind != ref.NList && x.Kind != ref.NVector || len(x.Kids) == 0 {
							continue
						}
						k = x.Kids[0]
					}
					if !plainSymbol(k) {
						continue
					}
					if k.Text < prev {
						return fmt.Sprintf("the items of %s are not sorted: %q comes after %q", cl.Kids[0].Text, k.Text, prev)
					}
					prev = k.Text
				}
			}
		}
	}
	return ""
}

func annotation(n *ref.Node) bool {
	return n.Kind == ref.NTag || n.Kind == ref.NPrefix && n.Text == "^"
}

func plainSymbol(n *ref.Node) bool {
	return n.Kind == ref.NSym && n.Text != "nil" && n.Text != "true" && n.Text != "false"
}

func c10(c *Ctx, idx int) {
	r := c.Rand(idx)
	sub := func(n int, xs ...string) (out []string) {
		for _, i := range r.Perm(len(xs))[:n] {
			out = append(out, xs[i])
		}
		return
	}
	libs := sub(1+r.Intn(3), "my.ns", "other.ns", "korma.core", "a", "x.y.z")
	no := gen.NSOpts{MaxLibs: 4, MultiClause: true, Macros: r.Intn(3) == 0, ExtraOpts: r.Intn(3) == 0, Vectors: r.Intn(3) == 0, Symbols: r.Intn(3) == 0,
		PrefixLists: r.Intn(4) == 0, Namespaces: libs, Aliases: sub(1+r.Intn(3), "m", "k", "a", "other.ns", "str"), Referred: sub(1+r.Intn(4), "foo", "select", "bar", "let", "cond", "w", "assoc")}
	names := append([]string{}, no.Referred...)
	src, ok := c.NSSource(r, no, 0.02)
	if !ok {
		return
	}
	p := gen.Default()
	p.NS, p.PrefixCmt, p.NL, p.MaxDepth, p.Width = 0, 0, 0.45, 3, 4
	quals := append(append([]string{}, libs...), no.Aliases...)
	if r.Intn(2) == 0 {
		quals = append(quals, "unknown.ns")
	}
	for i := 0; i < 12; i++ {
		p.Heads = append(p.Heads, gen.Pick(r, names), gen.Pick(r, quals)+"/"+gen.Pick(r, names))
	}
	g := gen.New(r, p)
	for i := 1 + r.Intn(4); i > 0; i-- {
		src += "\n" + g.Wrap("(", append([]string{gen.Pick(r, p.Heads)}, g.Forms(1+r.Intn(6), 3)...), ")") + "\n"
	}
	o := Defaults()
	switch r.Intn(3) {
	case 0:
		o = AllOff()
	case 1:
		o = RandOpts(r, false)
	}
	o.Char = 0
	o.Indent = map[string]format.IndentStyle{}
	for i := 1 + r.Intn(6); i > 0; i-- {
		n := gen.Pick(r, names)
		switch r.Intn(6) {
		case 0:
		case 1:
			n = gen.Pick(r, quals) + "/" + n
		default:
			n = gen.Pick(r, libs) + "/" + n
		}
		o.Indent[n] = gen.Pick(r, allStyles)
	}
	o.Thread = nil
	if r.Intn(3) == 0 {
		o.Thread = map[string]format.ThreadFirstStyle{gen.Pick(r, p.Heads): gen.Pick(r, []format.ThreadFirstStyle{format.ThreadFirstNormal, format.ThreadFirstCondArrow})}
	}
	c.Text(src, o.String(), func(src string) string {
		m := c.matchModel(src, o, "")
		if !c.quiet {
			a, ok := expect(src, o)
			if ok {
				if b, _ := expectNoRequires(src, o); a != b {
					c.Count("layouts that depend on a require", 1)
				}
				o2 := *o
				o2.Indent, o2.Thread = nil, nil
				if b, _ := expect(src, &o2); a != b {
					c.Count("layouts that depend on an override", 1)
				}
			}
		}
		return m
	})
}

// expectNoRequires is expect with the ns form's requires ignored.
func expectNoRequires(src string, o *FmtOpts) (string, bool) {
	roots, err := ref.Read(src)
	if err != nil {
		return "", false
	}
	roots = model.Canon(roots)
	for _, n := range nsForms(roots) {
		model.NS(n, o.On("enforce-ns-style"), o.On("sort-import-require"))
	}
	roots = model.Layout(roots, o.On)
	cfg := &model.Config{Styles: styleOf(o), Char: o.Char, ThreadCond: threadCond(o)}
	return model.Print(roots, cfg), true
}

// A libSpec is an understood item of a :require or :use clause.
type libSpec struct {
	lib       string
	as        string
	refer     []string
	macros    []string
	all       bool
	bare      bool // [lib]
	hasRefers bool
}

// annotated reports whether there are comments, metadata or tags inside n.
func annotated(n *ref.Node) bool {
	for _, k := range n.Kids {
		if k.Kind == ref.NComment || annotation(k) || annotated(k) {
			return true
		}
	}
	return false
}

func semKids(n *ref.Node) []*ref.Node {
	var out []*ref.Node
	for _, k := range n.Kids {
		if k.Semantic() && !annotation(k) {
			out = append(out, k)
		}
	}
	return out
}

// readSpec understands an item, or returns nil.
func readSpec(n *ref.Node, use bool) *libSpec {
	if plainSymbol(n) {
		return &libSpec{lib: n.Text, all: use, bare: !use}
	}
	if n.Kind != ref.NList && n.Kind != ref.NVector || annotated(n) {
		return nil
	}
	ks := semKids(n)
	if len(ks) == 0 || !plainSymbol(ks[0]) || len(ks)%2 == 0 {
		return nil
	}
	s := &libSpec{lib: ks[0].Text, bare: !use && n.Kind == ref.NVector && len(n.Kids) == 1}
	syms := func(v *ref.Node) ([]string, bool) {
		if v.Kind != ref.NList && v.Kind != ref.NVector {
			return nil, false
		}
		var out []string
		for _, k := range semKids(v) {
			if !plainSymbol(k) {
				return nil, false
			}
			out = append(out, k.Text)
		}
		return out, true
	}
	if use {
		switch len(ks) {
		case 1:
			s.all = true
			return s
		case 3:
			switch {
			case ks[1].Kind != ref.NKw:
				return nil
			case ks[1].Text == ":as" && plainSymbol(ks[2]):
				s.as = ks[2].Text
				return s
			case ks[1].Text == ":only":
				var ok bool
				if s.refer, ok = syms(ks[2]); ok {
					return s
				}
			}
		}
		return nil
	}
	for i := 1; i < len(ks); i += 2 {
		if ks[i].Kind != ref.NKw {
			return nil
		}
		var ok bool
		switch ks[i].Text {
		case ":as":
			ok = plainSymbol(ks[i+1])
			s.as = ks[i+1].Text
		case ":refer":
			if ks[i+1].Kind == ref.NKw && ks[i+1].Text == ":all" {
				s.all, ok = true, true
			} else {
				s.refer, ok = syms(ks[i+1])
			}
		case ":refer-macros":
			s.macros, ok = syms(ks[i+1])
		}
		if !ok {
			return nil
		}
	}
	return s
}

type facts map[string]bool

func (f facts) list() []string {
	var out []string
	for k := range f {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (f facts) add(clause string, s *libSpec) {
	f[clause+" loads "+s.lib] = true
	if s.as != "" {
		f[clause+" alias "+s.as+" of "+s.lib] = true
	}
	for _, x := range s.refer {
		f[clause+" refers "+x+" from "+s.lib] = true
	}
	for _, x := range s.macros {
		f[clause+" refers macro "+x+" from "+s.lib] = true
	}
	if s.all {
		f[clause+" refers all from "+s.lib] = true
	}
}

// subsume drops the referred names that a refer-all makes redundant.
func (f facts) subsume() {
	for k := range f {
		if i := strings.Index(k, " refers "); i >= 0 && !strings.Contains(k, " refers macro ") {
			lib := k[strings.LastIndex(k, " ")+1:]
			if all := k[:i] + " refers all from " + lib; f[all] && k != all {
				delete(f, k)
			}
		}
	}
}

// clauseItems lists the semantic items of a clause.
func clauseItems(cl *ref.Node) []*ref.Node {
	var out []*ref.Node
	for _, k := range cl.Kids[1:] {
		if k.Semantic() {
			out = append(out, k)
		}
	}
	return out
}

// gluedClause reports whether a clause has prefixes that tie items together.
func gluedClause(cl *ref.Node) bool {
	for _, x := range cl.Kids {
		if x.Kind == ref.NTag || x.Kind == ref.NPrefix && (x.Text == "^" || x.Text == "#_" && gluedText(x)) {
			return true
		}
	}
	return false
}

// useFacts collects what the :require and :use clauses of an ns form declare.
func useFacts(ns *ref.Node) facts {
	f := facts{}
	for _, cl := range ns.Kids[1:] {
		name := clauseOf(cl)
		if name != "require" && name != "use" {
			continue
		}
		if gluedClause(cl) {
			var parts []string
			for _, it := range clauseItems(cl) {
				parts = append(parts, textD(it, 0, clauseNames[name]))
			}
			f["clause "+name+" "+strings.Join(parts, " ")] = true
			continue
		}
		for _, it := range clauseItems(cl) {
			if s := readSpec(it, name == "use"); s != nil {
				f.add("ns", s)
			} else {
				f["item of "+name+" "+textD(it, 0, clauseNames[name])] = true
			}
		}
	}
	f.subsume()
	return f
}

// restView shows the parts of an ns form other than its :require and :use
// clauses.
func restView(ns *ref.Node, skip ...string) string {
	cp := *ns
	cp.Kids = nil
	for _, k := range ns.Kids {
		name := clauseOf(k)
		drop := false
		for _, s := range skip {
			drop = drop || name == s
		}
		if !drop {
			cp.Kids = append(cp.Kids, k)
		}
	}
	return nsViewDoc(&cp, allStrings, false)
}

func diffFacts(want, got facts) string {
	for _, k := range want.list() {
		if !got[k] {
			return "lost: " + k
		}
	}
	for _, k := range got.list() {
		if !want[k] {
			return "new: " + k
		}
	}
	return ""
}

func c23(c *Ctx, idx int) {
	r := c.Rand(idx)
	no := gen.DefaultNS(r)
	no.Use, no.MultiClause, no.DupNames = true, true, true
	no.MetaInside = r.Intn(6) == 0
	src, ok := c.NSSource(r, no, 0.04)
	if !ok {
		return
	}
	o := RandOpts(r, false)
	if o.Set == nil {
		o.Set = map[string]bool{}
	}
	o.Set["use-to-require"] = true
	o.Set["remove-unused-requires"] = false
	c.Text(src, o.String(), func(src string) string {
		out, roots, outRoots, msg := run(src, o)
		if roots == nil || msg != "" {
			return msg
		}
		a, b := nsForms(roots), nsForms(outRoots)
		if len(a) != len(b) {
			return fmt.Sprintf("number of ns forms differs: %d and %d", len(a), len(b))
		}
		conv := 0
		for i := range a {
			fa, fb := useFacts(a[i]), useFacts(b[i])
			c.Count("facts compared", int64(len(fa)))
			if d := diffFacts(fa, fb); d != "" {
				return "the ns form declares something else: " + d + "\noutput: " + trunc(out, 1500)
			}
			va, vb := restView(a[i], "require", "use"), restView(b[i], "require", "use")
			if va != vb {
				return "the other parts of the ns form changed: " + diffText(va, vb)
			}
			for _, cl := range a[i].Kids[1:] {
				if clauseOf(cl) == "use" && !gluedClause(cl) {
					for _, it := range clauseItems(cl) {
						if readSpec(it, true) != nil {
							conv++
						}
					}
				}
			}
			for _, cl := range b[i].Kids[1:] {
				if isHeadKw(cl, ":use") && !gluedClause(cl) {
					for _, it := range clauseItems(cl) {
						if readSpec(it, true) != nil {
							return "a :use item with a :require equivalent remains: " + nsText(it)
						}
					}
				}
			}
		}
		c.Count("use items converted", int64(conv))
		c.Case(src+"\x00"+o.String(), conv > 0)
		return ""
	})
}

// usage is what the code outside the ns forms uses.
type usage struct {
	syms, quals map[string]bool
	imports     map[string]bool
}

func findUsage(roots []*ref.Node) *usage {
	u := &usage{map[string]bool{}, map[string]bool{}, map[string]bool{}}
	sym := func(s string) {
		if i := strings.IndexByte(s, '/'); i > 0 {
			u.quals[s[:i]] = true
		} else {
			u.syms[s] = true
		}
	}
	for _, n := range roots {
		if isHeadSym(n, "ns") {
			for _, cl := range n.Kids[1:] {
				if clauseOf(cl) != "import" {
					continue
				}
				for _, it := range clauseItems(cl) {
					switch {
					case plainSymbol(it):
						if i := strings.LastIndexByte(it.Text, '.'); i >= 0 {
							u.imports[it.Text[:i]] = true
						}
					case it.Kind == ref.NList || it.Kind == ref.NVector:
						if len(it.Kids) > 0 && plainSymbol(it.Kids[0]) {
							u.imports[it.Kids[0].Text] = true
						}
					}
				}
			}
			continue
		}
		ref.Walk([]*ref.Node{n}, func(n *ref.Node) {
			switch n.Kind {
			case ref.NSym:
				if plainSymbol(n) {
					sym(n.Text)
				}
			case ref.NVarQ:
				sym(n.Text)
			case ref.NKw:
				if strings.HasPrefix(n.Text, "::") {
					if i := strings.IndexByte(n.Text, '/'); i >= 0 {
						u.quals[n.Text[2:i]] = true
					}
				}
			case ref.NMap:
				if strings.HasPrefix(n.Text, "::") && len(n.Text) > 2 {
					u.quals[n.Text[2:]] = true
				}
			}
		})
	}
	return u
}

// keptFacts computes what remains of the requires of an ns form.
func (c *Ctx) keptFacts(ns *ref.Node, u *usage) (kept, all facts) {
	kept, all = facts{}, facts{}
	for _, cl := range ns.Kids[1:] {
		name := clauseOf(cl)
		if name != "require" && name != "require-macros" {
			continue
		}
		if gluedClause(cl) {
			var parts []string
			for _, it := range clauseItems(cl) {
				parts = append(parts, textD(it, 0, "require"))
			}
			k := "clause " + name + " " + strings.Join(parts, " ")
			kept[k], all[k] = true, true
			continue
		}
		byLib := map[string]*libSpec{}
		var libs []string
		for _, it := range clauseItems(cl) {
			s := readSpec(it, false)
			switch {
			case s == nil || s.all:
				k := "item of " + name + " " + textD(it, 0, "require")
				kept[k], all[k] = true, true
			case s.bare:
				kept.add(name, s)
				all.add(name, s)
			default:
				all.add(name, s)
				k := s.lib
				if s.as != "" && u.quals[s.as] {
					kept[name+" alias "+s.as+" of "+k] = true
					c.Count("aliases kept because of a use", 1)
				} else {
					s.as = ""
				}
				used := func(l []string) (out []string) {
					for _, x := range l {
						if u.syms[x] {
							out = append(out, x)
							c.Count("referred names kept because of a use", 1)
						}
					}
					return
				}
				s.refer, s.macros = used(s.refer), used(s.macros)
				if byLib[k] == nil {
					byLib[k] = &libSpec{lib: k}
					libs = append(libs, k)
				}
				l := byLib[k]
				l.hasRefers = l.hasRefers || s.as != "" || len(s.refer)+len(s.macros) > 0
				l.refer = append(l.refer, s.refer...)
				l.macros = append(l.macros, s.macros...)
			}
		}
		for _, k := range libs {
			l := byLib[k]
			if l.hasRefers || u.quals[k] || u.imports[strings.ReplaceAll(k, "-", "_")] {
				kept.add(name, l)
			}
		}
	}
	return
}

// declared is the facts of an ns form with no removal.
func declared(ns *ref.Node) facts {
	f := facts{}
	for _, cl := range ns.Kids[1:] {
		name := clauseOf(cl)
		if name != "require" && name != "require-macros" {
			continue
		}
		if gluedClause(cl) {
			var parts []string
			for _, it := range clauseItems(cl) {
				parts = append(parts, textD(it, 0, "require"))
			}
			f["clause "+name+" "+strings.Join(parts, " ")] = true
			continue
		}
		for _, it := range clauseItems(cl) {
			if s := readSpec(it, false); s != nil && !s.all {
				f.add(name, s)
			} else {
				f["item of "+name+" "+textD(it, 0, "require")] = true
			}
		}
	}
	return f
}

func c24(c *Ctx, idx int) {
	r := c.Rand(idx)
	no := gen.DefaultNS(r)
	no.Symbols, no.Vectors = false, false
	no.MultiClause = true
	no.Use = r.Intn(4) == 0
	no.MetaInside = r.Intn(8) == 0
	no.DupNames = r.Intn(2) == 0
	src, ok := c.NSSource(r, no, 0.03)
	if !ok {
		return
	}
	o := RandOpts(r, false)
	if o.Set == nil {
		o.Set = map[string]bool{}
	}
	o.Set["use-to-require"] = false
	o.Set["remove-unused-requires"] = true
	c.Text(src, o.String(), func(src string) string {
		out, roots, outRoots, msg := run(src, o)
		if roots == nil || msg != "" {
			return msg
		}
		// Symbol- and vector-style clauses are only recognized after restyling.
		for _, ns := range nsForms(roots) {
			for _, cl := range ns.Kids[1:] {
				if clauseOf(cl) != "" && !(cl.Kind == ref.NList && cl.Kids[0].Kind == ref.NKw) {
					return ""
				}
			}
		}
		u := findUsage(roots)
		a, b := nsForms(roots), nsForms(outRoots)
		if len(a) != len(b) {
			return fmt.Sprintf("number of ns forms differs: %d and %d", len(a), len(b))
		}
		nk, nr := 0, 0
		for i := range a {
			kept, all := c.keptFacts(a[i], u)
			got := declared(b[i])
			nk += len(kept)
			nr += len(all) - len(kept)
			for _, k := range kept.list() {
				if !got[k] {
					return "a declaration in use was removed: " + k + "\noutput: " + trunc(out, 1500)
				}
			}
			for _, k := range got.list() {
				if !all[k] {
					return "a declaration was made up: " + k + "\noutput: " + trunc(out, 1500)
				}
				if !kept[k] {
					return "an unused declaration was not removed: " + k + "\noutput: " + trunc(out, 1500)
				}
			}
			va, vb := restView(a[i], "require", "require-macros"), restView(b[i], "require", "require-macros")
			if va != vb {
				return "the other parts of the ns form changed: " + diffText(va, vb)
			}
		}
		c.Count("facts kept", int64(nk))
		c.Count("facts removed", int64(nr))
		c.Case(src+"\x00"+o.String(), nk > 0 && nr > 0)
		return ""
	})
}
