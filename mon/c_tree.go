package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/cespare/goclj"
	"github.com/cespare/goclj/parse"

	"goclj.verif/mon/gen"
	"goclj.verif/mon/ref"
)

func init() {
	register(&Check{
		ID: "C30", Quick: 60000, Thorough: 1200000,
		Rule: genRule + "Trees (parsed with any options) are edited the way a tool would: nodes are removed, reordered, moved, wrapped, renamed, copied from another tree or made from scratch without positions, line breaks and comments are added and removed. The monitor spells the edited tree out with its own naive writer; if the independent reader reads that as the same tree, the tree is code, and what PrintTree prints for it must read as the same tree again, with the same line breaks. With transforms on, printing the edited tree must give what formatting its plain print gives. Non-trivial: the edits changed the tree and it is code.",
		Min:  map[string]int64{"edited trees printed": 25000, "edited trees printed with transforms": 8000, "edits": 80000, "nodes without a position": 10000},
		Run:  c30,
	})
	register(&Check{
		ID: "C31", Quick: 60000, Thorough: 800000,
		Rule: genRule + "Each tree is walked next to the independent reader's. For every node the classification helpers of the goclj package, String, Children, Position, Copy and FormatError are called and compared with what the reader says the node is; Tree.String must describe the nodes one per line, in order, indented by depth; storing a node's children back must change nothing. Non-trivial: at least 5 nodes.",
		Min:  map[string]int64{"nodes classified": 1000000, "head tests": 500000, "lines of descriptions compared": 300000},
		Run:  c31,
	})
}

// --- C30

// edited parses src and edits the tree; the same seed makes the same edits.
func edited(c *Ctx, src, other string, po parse.ParseOpts, seed int64) (t *parse.Tree, edits, bare int, bad string) {
	store := func(n parse.Node, kids []parse.Node) {
		n.SetChildren(kids)
		now := n.Children()
		same := len(now) == len(kids)
		for i := 0; same && i < len(kids); i++ {
			same = now[i] == kids[i] && kids[i].Parent() == n
		}
		if !same && bad == "" {
			bad = fmt.Sprintf("after SetChildren of %d nodes, %s does not have just these nodes as its children", len(kids), n)
		}
	}
	r := rand.New(rand.NewSource(seed))
	t, err := parseSrc(src, po)
	if err != nil {
		return nil, 0, 0, ""
	}
	t2, err := parseSrc(other, po)
	if err != nil {
		return nil, 0, 0, ""
	}
	pos := func() *parse.Pos {
		if r.Intn(2) == 0 {
			bare++
			return nil
		}
		return &parse.Pos{Name: "new", Line: 1 + r.Intn(3), Col: 1}
	}
	type place struct {
		n    parse.Node // nil for the roots
		kids []parse.Node
	}
	set := func(p place, kids []parse.Node) {
		if p.n == nil {
			t.Roots = kids
		} else {
			store(p.n, kids)
		}
	}
	isColl := func(n parse.Node) bool {
		switch n.(type) {
		case *parse.ListNode, *parse.VectorNode, *parse.MapNode, *parse.SetNode, *parse.FnLiteralNode, *parse.ReaderCondNode, *parse.ReaderCondSpliceNode:
			return true
		}
		return false
	}
	leaf := func() parse.Node {
		switch r.Intn(12) {
		case 0, 1:
			return &parse.NewlineNode{Pos: pos()}
		case 2, 3:
			return &parse.CommentNode{Pos: pos(), Text: gen.Pick(r, []string{"; new", ";new", ";", ";; (x"})}
		case 4:
			return &parse.KeywordNode{Pos: pos(), Val: gen.Pick(r, []string{":new", "::new", ":a/b", ":else"})}
		case 5:
			return &parse.NumberNode{Pos: pos(), Val: gen.Pick(r, []string{"1", "-2.5", "0x1F"})}
		case 6:
			return &parse.StringNode{Pos: pos(), Val: gen.Pick(r, []string{"", "new", `a\"b`})}
		case 7:
			return &parse.NilNode{Pos: pos()}
		case 8:
			return &parse.BoolNode{Pos: pos(), Val: r.Intn(2) == 0}
		case 9:
			return &parse.CharacterNode{Pos: pos(), Val: 'a', Text: `\a`}
		default:
			return &parse.SymbolNode{Pos: pos(), Val: gen.Pick(r, []string{"new", "let", "a/b", "->", "cond", "%", "ns"})}
		}
	}
	coll := func(kids []parse.Node) parse.Node {
		switch r.Intn(9) {
		case 0:
			return &parse.VectorNode{Pos: pos(), Nodes: kids}
		case 1:
			return &parse.SetNode{Pos: pos(), Nodes: kids}
		case 2:
			return &parse.MapNode{Pos: pos(), Nodes: kids, Namespace: gen.Pick(r, []string{"", "", ":a", "::a", "::"})}
		case 3:
			return &parse.FnLiteralNode{Pos: pos(), Nodes: kids}
		case 4:
			return &parse.ReaderCondNode{Pos: pos(), Nodes: kids}
		default:
			return &parse.ListNode{Pos: pos(), Nodes: kids}
		}
	}
	unary := func(n parse.Node) parse.Node {
		switch r.Intn(8) {
		case 0:
			return &parse.QuoteNode{Pos: pos(), Node: n}
		case 1:
			return &parse.SyntaxQuoteNode{Pos: pos(), Node: n}
		case 2, 3:
			return &parse.UnquoteNode{Pos: pos(), Node: n}
		case 4:
			return &parse.UnquoteSpliceNode{Pos: pos(), Node: n}
		case 5:
			return &parse.DerefNode{Pos: pos(), Node: n}
		case 6:
			return &parse.ReaderDiscardNode{Pos: pos(), Node: n}
		default:
			return &parse.MetadataNode{Pos: pos(), Node: n}
		}
	}
	replace := func(n parse.Node) bool { // another form behind a prefix
		switch n.(type) {
		case *parse.QuoteNode, *parse.SyntaxQuoteNode, *parse.UnquoteNode, *parse.UnquoteSpliceNode, *parse.DerefNode, *parse.ReaderDiscardNode, *parse.MetadataNode, *parse.ReaderEvalNode:
			x := leaf()
			switch x.(type) {
			case *parse.NewlineNode, *parse.CommentNode:
				x = coll(nil)
			}
			store(n, []parse.Node{x})
			return true
		}
		return false
	}
	for n := 1 + r.Intn(6); n > 0; n-- {
		if r.Intn(8) == 0 {
			var pre []parse.Node
			for _, n := range t.Roots {
				pre = append(pre, subtree(n)...)
			}
			if len(pre) > 0 {
				if i := r.Intn(len(pre)); replace(pre[i]) {
					edits++
					continue
				}
			}
		}
		places := []place{{nil, t.Roots}}
		var walk func(ns []parse.Node)
		walk = func(ns []parse.Node) {
			for _, n := range ns {
				if isColl(n) {
					places = append(places, place{n, n.Children()})
				}
				walk(n.Children())
			}
		}
		walk(t.Roots)
		p := places[r.Intn(len(places))]
		kids := append([]parse.Node(nil), p.kids...)
		put := func(i int, ns ...parse.Node) []parse.Node {
			return append(kids[:i:i], append(ns, kids[i:]...)...)
		}
		edits++
		switch k := r.Intn(10); {
		case k == 0 && len(kids) > 0: // remove
			i := r.Intn(len(kids))
			set(p, append(kids[:i], kids[i+1:]...))
		case k == 1 && len(kids) > 1: // reorder
			i, j := r.Intn(len(kids)), r.Intn(len(kids))
			kids[i], kids[j] = kids[j], kids[i]
			set(p, kids)
		case k == 2: // remove the line breaks, or the comments too
			var ns []parse.Node
			all := r.Intn(2) == 0
			for _, n := range kids {
				_, cm := n.(*parse.CommentNode)
				if _, nl := n.(*parse.NewlineNode); !nl && !(cm && all) {
					ns = append(ns, n)
				}
			}
			set(p, ns)
		case k == 3 && len(kids) > 0: // wrap one node
			i := r.Intn(len(kids))
			x := kids[i]
			switch x.(type) {
			case *parse.NewlineNode, *parse.CommentNode:
				continue
			}
			if r.Intn(2) == 0 {
				kids[i] = unary(x)
				if r.Intn(2) == 0 { // by way of its child
					u := unary(&parse.SymbolNode{Val: "old", Pos: pos()})
					store(u, []parse.Node{x})
					kids[i] = u
				}
			} else {
				ns := []parse.Node{x}
				if r.Intn(2) == 0 {
					ns = []parse.Node{&parse.SymbolNode{Val: "wrap"}, x}
				}
				kids[i] = coll(ns)
			}
			set(p, kids)
		case k == 4 && len(kids) > 1: // put some nodes into a new one
			i := r.Intn(len(kids))
			j := i + 1 + r.Intn(len(kids)-i)
			n := coll(append([]parse.Node(nil), kids[i:j]...))
			set(p, append(kids[:i:i], append([]parse.Node{n}, kids[j:]...)...))
		case k == 5 && p.n != nil && len(places) > 2: // move a node elsewhere
			q := places[r.Intn(len(places))]
			inside := false
			for _, a := range subtree(p.n) {
				inside = inside || a == q.n
			}
			if inside || q.n == nil && r.Intn(3) > 0 {
				continue
			}
			// take p.n out of its place
			for _, h := range places {
				for i, x := range h.kids {
					if x == p.n {
						rest := append(append([]parse.Node(nil), h.kids[:i]...), h.kids[i+1:]...)
						set(h, rest)
						if h.n == q.n {
							q.kids = rest
						}
						i := r.Intn(len(q.kids) + 1)
						set(q, append(q.kids[:i:i], append([]parse.Node{p.n}, q.kids[i:]...)...))
						break
					}
				}
			}
		case k == 6 && len(t2.Roots) > 0: // from another tree
			i := r.Intn(len(t2.Roots))
			x := t2.Roots[i]
			t2.Roots = append(append([]parse.Node(nil), t2.Roots[:i]...), t2.Roots[i+1:]...)
			set(p, put(r.Intn(len(kids)+1), x))
		case k == 7 && len(kids) > 0: // rename
			switch x := kids[r.Intn(len(kids))].(type) {
			case *parse.SymbolNode:
				x.Val = gen.Pick(r, []string{"renamed", "if", "x/y", "a.b"})
			case *parse.KeywordNode:
				x.Val = gen.Pick(r, []string{":renamed", ":>>", "::k"})
			case *parse.StringNode:
				x.Val = "renamed"
			case *parse.CommentNode:
				x.Text = "; renamed"
			case *parse.NumberNode:
				x.Val = "77"
			}
		default:
			set(p, put(r.Intn(len(kids)+1), leaf()))
		}
	}
	return t, edits, bare, bad
}

func subtree(n parse.Node) []parse.Node {
	out := []parse.Node{n}
	for i := 0; i < len(out); i++ {
		out = append(out, out[i].Children()...)
	}
	return out
}

// naive spells a tree out.
func naive(ns []parse.Node) string {
	var b strings.Builder
	var seq func(ns []parse.Node)
	var one func(n parse.Node) bool
	wrap := func(o string, ns []parse.Node, c string) bool {
		b.WriteString(o)
		seq(ns)
		b.WriteString(c)
		return false
	}
	// one reports whether it ends with a comment
	one = func(n parse.Node) bool {
		switch n := n.(type) {
		case *parse.BoolNode:
			fmt.Fprint(&b, n.Val)
		case *parse.CharacterNode:
			b.WriteString(n.Text)
		case *parse.CommentNode:
			b.WriteString(n.Text)
			return true
		case *parse.KeywordNode:
			b.WriteString(n.Val)
		case *parse.ListNode:
			return wrap("(", n.Nodes, ")")
		case *parse.MapNode:
			if n.Namespace != "" {
				b.WriteString("#" + n.Namespace)
			}
			return wrap("{", n.Nodes, "}")
		case *parse.NilNode:
			b.WriteString("nil")
		case *parse.NumberNode:
			b.WriteString(n.Val)
		case *parse.SymbolNode:
			b.WriteString(n.Val)
		case *parse.StringNode:
			b.WriteString(`"` + n.Val + `"`)
		case *parse.VectorNode:
			return wrap("[", n.Nodes, "]")
		case *parse.FnLiteralNode:
			return wrap("#(", n.Nodes, ")")
		case *parse.ReaderCondNode:
			return wrap("#?(", n.Nodes, ")")
		case *parse.ReaderCondSpliceNode:
			return wrap("#?@(", n.Nodes, ")")
		case *parse.RegexNode:
			b.WriteString(`#"` + n.Val + `"`)
		case *parse.SetNode:
			return wrap("#{", n.Nodes, "}")
		case *parse.VarQuoteNode:
			b.WriteString("#'" + n.Val)
		case *parse.TagNode:
			b.WriteString("# " + n.Val)
		case *parse.QuoteNode:
			b.WriteString("' ")
			return one(n.Node)
		case *parse.SyntaxQuoteNode:
			b.WriteString("` ")
			return one(n.Node)
		case *parse.DerefNode:
			b.WriteString("@ ")
			return one(n.Node)
		case *parse.UnquoteNode:
			b.WriteString("~ ")
			return one(n.Node)
		case *parse.UnquoteSpliceNode:
			b.WriteString("~@ ")
			return one(n.Node)
		case *parse.MetadataNode:
			b.WriteString("^ ")
			return one(n.Node)
		case *parse.ReaderDiscardNode:
			b.WriteString("#_ ")
			return one(n.Node)
		case *parse.ReaderEvalNode:
			b.WriteString("#= ")
			return one(n.Node)
		}
		return false
	}
	seq = func(ns []parse.Node) {
		open := false // a comment is open
		for _, n := range ns {
			if _, ok := n.(*parse.NewlineNode); ok {
				b.WriteString("\n")
				open = false
				continue
			}
			if open {
				b.WriteString("\n")
			}
			open = one(n)
			b.WriteString(" ")
		}
		if open {
			b.WriteString("\n")
		}
	}
	seq(ns)
	return b.String()
}

// forC30 leaves out what printing may change.
func forC30(vs []V, newlines bool) []V {
	var out []V
	for _, v := range vs {
		switch v.Kind {
		case "newline":
			if !newlines {
				continue
			}
		case "comment":
			v.Text = strings.TrimRight(v.Text, " \t\r,\f\v")
		case "string":
			ls := strings.Split(v.Text, "\n")
			for i := range ls {
				if i > 0 { // of a docstring, perhaps
					ls[i] = strings.TrimSpace(ls[i])
				}
			}
			v.Text = strings.Join(ls, "\n")
		}
		out = append(out, v)
	}
	return out
}

func trimTail(vs []V) []V {
	for len(vs) > 0 && vs[len(vs)-1].Kind == "newline" {
		vs = vs[:len(vs)-1]
	}
	return vs
}

func c30(c *Ctx, idx int) {
	r := c.Rand(idx)
	var src string
	switch idx % 4 {
	case 0:
		src = c.smallSource(r)
	case 1:
		s, ok := c.anyNS(r)
		if !ok {
			return
		}
		src = s
	default:
		src = c.Source(r, func(p *gen.Profile) { p.MaxDepth = min(p.MaxDepth, 5) })
	}
	if len(src) > 6000 {
		src = "(defn f [x]\n  (let [y 1 ; c\n        z 2]\n    (if y z x)))"
	}
	other := gen.New(r, gen.Default()).Small()
	po := parse.IncludeNonSemantic
	if r.Intn(4) == 0 {
		po = allParseOpts[r.Intn(8)]
	}
	seed := r.Int63()
	o := RandOpts(r, true)
	o.Parse = po
	c.Text(src, fmt.Sprintf("edits %d; %s", seed, o), func(src string) string {
		if _, err := ref.Read(src); err != nil {
			return ""
		}
		t, edits, bare, bad := edited(c, src, other, po, seed)
		if t == nil {
			return ""
		}
		if bad != "" {
			return bad
		}
		plain := naive(t.Roots)
		roots, rerr := ref.Read(plain)
		if rerr != nil {
			c.Count("edits that make no code", 1)
			return ""
		}
		want := forC30(viewTree(t.Roots), false)
		if diffV(forC30(viewRef(roots, true), false), want) != "" {
			c.Count("edits that make no code", 1)
			return ""
		}
		want = trimTail(forC30(viewRef(roots, true), true))
		off := AllOff()
		off.Indent, off.Thread, off.Char = o.Indent, o.Thread, o.Char
		out, err := printTree(t, off)
		if err != nil {
			return "printing an edited tree fails: " + err.Error()
		}
		oroots, rerr := ref.Read(out)
		if rerr != nil {
			return fmt.Sprintf("the print of an edited tree is malformed: %v\nwritten plainly: %q\nprinted: %q", rerr, trunc(plain, 600), trunc(out, 600))
		}
		got := trimTail(forC30(viewRef(oroots, true), true))
		if m := diffV(want, got); m != "" {
			return fmt.Sprintf("an edited tree is printed as something else: %s\nwritten plainly: %q\nprinted: %q", m, trunc(plain, 600), trunc(out, 600))
		}
		c.Count("edited trees printed", 1)
		c.Count("edits", int64(edits))
		c.Count("nodes without a position", int64(bare))
		c.Case(src+"\x00"+fmt.Sprint(seed), strings.TrimSpace(plain) != strings.TrimSpace(src))
		if strings.Contains(plain, "\"") && hasMultiline(want) {
			return ""
		}
		t, _, _, _ = edited(c, src, other, po, seed)
		direct, err := printTree(t, o)
		if err != nil {
			return "printing an edited tree with transforms fails: " + err.Error()
		}
		o2 := *o
		o2.Parse = parse.IncludeNonSemantic
		viaText, err := Format(out, &o2)
		if err != nil {
			return "formatting the print of an edited tree fails: " + err.Error()
		}
		c.Count("edited trees printed with transforms", 1)
		if strings.TrimRight(direct, "\n") != strings.TrimRight(viaText, "\n") {
			return fmt.Sprintf("an edited tree is formatted unlike its text: %s\ntext: %q", diffText(viaText, direct), trunc(out, 600))
		}
		return ""
	})
}

func hasMultiline(vs []V) bool {
	for _, v := range vs {
		if v.Kind == "string" && strings.Contains(v.Text, "\n") {
			return true
		}
	}
	return false
}

// --- C31

func c31(c *Ctx, idx int) {
	r := c.Rand(idx)
	var src string
	switch idx % 3 {
	case 0:
		src = c.smallSource(r)
	case 1:
		src = nestedForm(r, idx/3, false)
	default:
		src = c.Source(r, nil)
	}
	if len(src) > 30000 {
		src = "(a [b {c d}] #{e} '(f g) @h #(i %) ^j k #?(:clj [l]))"
	}
	seed := r.Int63()
	c.Text(src, "", func(src string) string {
		r := rand.New(rand.NewSource(seed))
		roots, rerr := ref.Read(src)
		if rerr != nil {
			return ""
		}
		for _, po := range []parse.ParseOpts{parse.IncludeNonSemantic, 0} {
			t, err := parse.Reader(strings.NewReader(src), gen.Pick(r, []string{"t.clj", "t.clj", "", "a:1", "é b"}), po)
			if err != nil {
				return ""
			}
			want := viewRef(roots, po != 0)
			if diffV(want, viewTree(t.Roots)) != "" {
				return "" // C13
			}
			if m := c31tree(c, r, t, want); m != "" {
				return fmt.Sprintf("%s (options %d)", m, po)
			}
			c.Case(src, len(want) >= 5)
		}
		return ""
	})
}

// describedLength compares the number in the description s of a collection with
// the number of its elements (of pairs for a map); line breaks and comments are
// none, and nothing is said about collections with prefixes in them.
func describedLength(s string, v V, under []V) string {
	switch v.Kind {
	case "list", "vector", "set", "fn", "map", "cond", "cond-splice":
	default:
		return ""
	}
	n := 0
	for _, u := range under {
		switch {
		case u.Kind == "newline" || u.Kind == "comment":
		case u.Kind == "tag" || u.Kind == "prefix" && (u.Text == "^" || u.Text == "#_"):
			return ""
		default:
			n++
		}
	}
	if v.Kind == "map" {
		n /= 2
	}
	var got int
	i := strings.LastIndex(s, "length=")
	if i < 0 {
		return ""
	}
	if _, err := fmt.Sscanf(s[i:], "length=%d", &got); err != nil || got != n {
		return fmt.Sprintf("the description of %v with %d elements is %q", v, n, s)
	}
	return ""
}

func c31tree(c *Ctx, r *rand.Rand, t *parse.Tree, want []V) string {
	before := t.String()
	var lines []string
	deep := false
	i := 0
	var walk func(ns []parse.Node, depth int) string
	walk = func(ns []parse.Node, depth int) string {
		for _, n := range ns {
			v := want[i]
			kids := n.Children()
			deep = deep || depth > 200
			// direct children in the reader's view, of which the first is the head
			var under []V
			for j := i + 1; j < len(want) && want[j].Depth > v.Depth; j++ {
				if want[j].Depth == v.Depth+1 {
					under = append(under, want[j])
				}
			}
			i++
			if len(under) != len(kids) {
				return fmt.Sprintf("%v has %d children, want %d", v, len(kids), len(under))
			}
			for _, h := range []struct {
				name string
				got  bool
				want bool
			}{
				{"Symbol", goclj.Symbol(n), v.Kind == "symbol"},
				{"Newline", goclj.Newline(n), v.Kind == "newline"},
				{"Vector", goclj.Vector(n), v.Kind == "vector"},
				{"Keyword", goclj.Keyword(n), v.Kind == "keyword"},
				{"Comment", goclj.Comment(n), v.Kind == "comment"},
				{"Semantic", goclj.Semantic(n), v.Kind != "newline" && v.Kind != "comment" && v.Kind != "tag" && !(v.Kind == "prefix" && v.Text == "^")},
			} {
				if h.got != h.want {
					return fmt.Sprintf("goclj.%s is %v for %v", h.name, h.got, v)
				}
			}
			c.Count("nodes classified", 1)
			head := V{}
			if v.Kind == "list" && len(under) > 0 {
				head = under[0]
			}
			for _, h := range []struct {
				kind string
				f    func(parse.Node, ...string) bool
				odd  []string
			}{
				{"symbol", goclj.FnFormSymbol, []string{"ns", "x", "", "let"}},
				{"keyword", goclj.FnFormKeyword, []string{":require", "require", ":k", ""}},
			} {
				is := head.Kind == h.kind
				if h.f(n) != is {
					return fmt.Sprintf("the test for a list headed by any %s is %v for %v with head %v", h.kind, !is, v, head)
				}
				names := h.odd[:1+r.Intn(3)]
				has := false
				for _, x := range names {
					has = has || is && x == head.Text
				}
				if h.f(n, names...) != has {
					return fmt.Sprintf("the test for a list headed by one of the %ss %q is %v for %v with head %v", h.kind, names, !has, v, head)
				}
				if is {
					at := r.Intn(len(names) + 1)
					names = append(names[:at:at], append([]string{head.Text}, names[at:]...)...)
					if !h.f(n, names...) {
						return fmt.Sprintf("the test for a list headed by one of the %ss %q is false for %v with head %v", h.kind, names, v, head)
					}
				}
				c.Count("head tests", 1)
			}
			s := n.String()
			switch {
			case s == "" || strings.Contains(s, "\n"):
				return fmt.Sprintf("the description of %v is not one line: %q", v, s)
			case len(s) > 8*len(v.Text)+64:
				return fmt.Sprintf("the description of %v is not short: %q", v, trunc(s, 300))
			}
			switch v.Kind {
			case "symbol", "keyword", "number", "varquote", "tag", "bool", "nil":
				text := v.Text
				if v.Kind == "nil" {
					text = "nil"
				}
				if !strings.Contains(s, text) {
					return fmt.Sprintf("the description of %v does not contain its text: %q", v, s)
				}
			case "string", "regex", "comment":
				if !strings.Contains(s, fmt.Sprintf("%q", v.Text)) {
					return fmt.Sprintf("the description of %v does not contain its text: %q", v, s)
				}
			}
			if m := describedLength(s, v, under); m != "" {
				return m
			}
			p := n.Position()
			if p == nil {
				return fmt.Sprintf("%v has no position", v)
			}
			q := p.Copy()
			if q == p || *q != *p {
				return fmt.Sprintf("the copied position of %v is %v, want a new %v", v, q, p)
			}
			q.Offset, q.Line, q.Col, q.Name = -1, -1, -1, "?"
			if p.Line != v.Line || p.Col != v.Col {
				return "" // C14
			}
			if ps := fmt.Sprintf("%s:%d:%d", p.Name, v.Line, v.Col); p.String() != ps {
				return fmt.Sprintf("the position of %v reads %q, want %q", v, p.String(), ps)
			} else if e := p.FormatError("some", "thing"); !strings.Contains(e.Error(), ps) || !strings.Contains(e.Error(), "some") || !strings.Contains(e.Error(), "thing") {
				return fmt.Sprintf("the error made for %v is %q", v, e)
			}
			lines = append(lines, strings.Repeat("  ", depth)+s)
			if len(kids) > 0 || v.Kind == "list" || v.Kind == "vector" || v.Kind == "map" || v.Kind == "set" || v.Kind == "fn" {
				n.SetChildren(append([]parse.Node(nil), kids...))
				now := n.Children()
				for j := range kids {
					if j >= len(now) || now[j] != kids[j] || kids[j].Parent() != n {
						return fmt.Sprintf("storing the children of %v back changes them", v)
					}
				}
			}
			if m := walk(kids, depth+1); m != "" {
				return m
			}
		}
		return ""
	}
	if m := walk(t.Roots, 0); m != "" {
		return m
	}
	if deep {
		return ""
	}
	after := t.String()
	if before != after {
		return "storing all children back changes the tree: " + diffText(before, after)
	}
	text := strings.Join(lines, "\n")
	if len(lines) > 0 {
		text += "\n"
	}
	c.Count("lines of descriptions compared", int64(len(lines)))
	if before != text {
		return "the description of the tree is not that of its nodes: " + diffText(text, before)
	}
	return ""
}
