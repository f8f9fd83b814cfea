package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/cespare/goclj/parse"

	"goclj.verif/mon/gen"
	"goclj.verif/mon/ref"
)

// V is one node of a tree in pre-order. Depth counts all ancestors, Coll only
// the delimited ones (so that the chain of a prefix and its form is linear).
type V struct {
	Kind, Text     string
	Depth, Coll    int
	Off, Line, Col int
	Name           string
	Under          string // the kind and text of the prefix directly above, or ""
}

func (v V) String() string { return fmt.Sprintf("%s(%s)", v.Kind, trunc(v.Text, 80)) }

// viewTree lists goclj's tree.
func viewTree(ns []parse.Node) []V {
	var out []V
	var walk func(ns []parse.Node, depth, coll int, under string)
	walk = func(ns []parse.Node, depth, coll int, under string) {
		for _, n := range ns {
			v := V{Depth: depth, Coll: coll, Under: under}
			if p := n.Position(); p != nil {
				v.Off, v.Line, v.Col, v.Name = p.Offset, p.Line, p.Col, p.Name
			} else {
				v.Off = -1
			}
			prefix := ""
			var kid parse.Node
			switch n := n.(type) {
			case *parse.BoolNode:
				v.Kind, v.Text = "bool", fmt.Sprint(n.Val)
			case *parse.CharacterNode:
				v.Kind, v.Text = "char", fmt.Sprintf("%s=%q", n.Text, n.Val)
			case *parse.CommentNode:
				v.Kind, v.Text = "comment", n.Text
			case *parse.KeywordNode:
				v.Kind, v.Text = "keyword", n.Val
			case *parse.ListNode:
				v.Kind = "list"
			case *parse.MapNode:
				v.Kind, v.Text = "map", n.Namespace
			case *parse.NewlineNode:
				v.Kind = "newline"
			case *parse.NilNode:
				v.Kind = "nil"
			case *parse.NumberNode:
				v.Kind, v.Text = "number", n.Val
			case *parse.SymbolNode:
				v.Kind, v.Text = "symbol", n.Val
			case *parse.StringNode:
				v.Kind, v.Text = "string", n.Val
			case *parse.VectorNode:
				v.Kind = "vector"
			case *parse.FnLiteralNode:
				v.Kind = "fn"
			case *parse.ReaderCondNode:
				v.Kind = "cond"
			case *parse.ReaderCondSpliceNode:
				v.Kind = "cond-splice"
			case *parse.RegexNode:
				v.Kind, v.Text = "regex", n.Val
			case *parse.SetNode:
				v.Kind = "set"
			case *parse.VarQuoteNode:
				v.Kind, v.Text = "varquote", n.Val
			case *parse.TagNode:
				v.Kind, v.Text = "tag", n.Val
			case *parse.QuoteNode:
				prefix, kid = "'", n.Node
			case *parse.SyntaxQuoteNode:
				prefix, kid = "`", n.Node
			case *parse.DerefNode:
				prefix, kid = "@", n.Node
			case *parse.UnquoteNode:
				prefix, kid = "~", n.Node
			case *parse.UnquoteSpliceNode:
				prefix, kid = "~@", n.Node
			case *parse.MetadataNode:
				prefix, kid = "^", n.Node
			case *parse.ReaderDiscardNode:
				prefix, kid = "#_", n.Node
			case *parse.ReaderEvalNode:
				prefix, kid = "#=", n.Node
			default:
				v.Kind = fmt.Sprintf("%T", n)
			}
			if prefix != "" {
				v.Kind, v.Text = "prefix", prefix
				out = append(out, v)
				if kid == nil {
					out = append(out, V{Kind: "missing form", Depth: depth + 1, Coll: coll})
				} else {
					walk([]parse.Node{kid}, depth+1, coll, prefix)
				}
				continue
			}
			out = append(out, v)
			walk(n.Children(), depth+1, coll+1, "")
		}
	}
	walk(ns, 0, 0, "")
	return out
}

// viewRef lists the independent reader's tree in the same terms.
func viewRef(ns []*ref.Node, nonSemantic bool) []V {
	var out []V
	var walk func(ns []*ref.Node, depth, coll int, under string)
	walk = func(ns []*ref.Node, depth, coll int, under string) {
		for _, n := range ns {
			if !nonSemantic && !n.Semantic() {
				continue
			}
			v := V{Kind: string(n.Kind), Text: n.Text, Depth: depth, Coll: coll, Under: under,
				Off: n.First.Off, Line: n.First.Line, Col: n.First.Col}
			switch n.Kind {
			case ref.NSym:
				switch n.Text {
				case "nil":
					v.Kind, v.Text = "nil", ""
				case "true", "false":
					v.Kind = "bool"
				}
			case ref.NChar:
				r, _, _ := ref.CharValue(n.Text)
				v.Text = fmt.Sprintf("%s=%q", n.Text, r)
			case ref.NStr:
				v.Text = n.Text[1 : len(n.Text)-1]
			case ref.NRegex:
				v.Text = n.Text[2 : len(n.Text)-1]
			case ref.NNewline:
				v.Text = ""
			}
			out = append(out, v)
			if n.Kind == ref.NPrefix {
				walk(n.Kids, depth+1, coll, n.Text)
			} else {
				walk(n.Kids, depth+1, coll+1, "")
			}
		}
	}
	walk(ns, 0, 0, "")
	return out
}

func showV(vs []V, i int) string {
	var s []string
	for j := max(0, i-4); j < min(len(vs), i+4); j++ {
		m := ""
		if j == i {
			m = ">>"
		}
		s = append(s, fmt.Sprintf("%s%d/%v", m, vs[j].Depth, vs[j]))
	}
	return strings.Join(s, " ")
}

// diffV compares kinds, texts and nesting.
func diffV(want, got []V) string {
	for i := 0; i < len(want) || i < len(got); i++ {
		switch {
		case i >= len(want):
			return "extra node: " + showV(got, i)
		case i >= len(got):
			return "missing node: " + showV(want, i)
		case want[i].Kind != got[i].Kind || want[i].Text != got[i].Text || want[i].Depth != got[i].Depth:
			return fmt.Sprintf("trees differ: want %s got %s", showV(want, i), showV(got, i))
		}
	}
	return ""
}

var soup = []string{"(", ")", "[", "]", "{", "}", "#{", "#(", "#?", "#?@", "#:a", "#::", "#::b", "#'", "#", "#_", "#=", "^", "#^", "'", "`", "@", "~", "~@",
	"x", "foo/bar", "1", "-2", "+", "-", "/", ":k", "::k", ":", `"s"`, `"a\nb"`, `"a\"b"`, `"`, `#"r"`, `\a`, `\newline`, `\(`, `\u0041`, `\o101`, `\bad`, `\`, `\ `,
	";c\n", ";", "#!s\n", "\n", "\n", " ", " ", ",", "\r\n", "\t", "nil", "true", "comment", "%", "%1", "é", "日", "\xff", "\u00a0", "\u2028", "#<", "(ns", "(:require", "(comment", "{:a 1}", "(defn f", "(let [", "#_#_", "x#"}

// Hostile makes an arbitrary text: soup, mutated, truncated or random bytes.
func (c *Ctx) Hostile(r randT) string {
	switch k := r.Intn(22); {
	case k == 20: // unusual spellings, most of them malformed
		c.Count("texts: odd spellings", 1)
		return gen.OddText(r)
	case k == 21:
		c.Count("texts: touching tokens", 1)
		return gen.New(r, gen.Default()).Near()
	case k < 7: // token soup, mostly balanced in half of the cases
		var b strings.Builder
		var open []byte
		balance := r.Intn(2) == 0
		for n := 1 + r.Intn(10); n > 0; n-- {
			t := soup[r.Intn(len(soup))]
			b.WriteString(t)
			if r.Intn(3) == 0 {
				b.WriteByte(' ')
			}
			switch t[len(t)-1] {
			case '(':
				open = append(open, ')')
			case '[':
				open = append(open, ']')
			case '{':
				open = append(open, '}')
			}
		}
		if balance {
			for i := len(open) - 1; i >= 0; i-- {
				b.WriteByte(open[i])
			}
		}
		c.Count("texts: token soup", 1)
		return b.String()
	case k < 12: // a well-formed text with one or two edits
		src := c.smallSource(r)
		for n := 1 + r.Intn(2); n > 0 && len(src) > 0; n-- {
			i := r.Intn(len(src) + 1)
			switch r.Intn(6) {
			case 0:
				j := min(len(src), i+1+r.Intn(4))
				src = src[:i] + src[j:]
			case 1, 2:
				src = src[:i] + soup[r.Intn(len(soup))] + src[i:]
			case 3:
				j := r.Intn(len(src) + 1)
				if j < i {
					i, j = j, i
				}
				src = src[:i] + src[j:]
			case 4:
				b := []byte(src)
				if i < len(b) {
					b[i] ^= 1 << uint(r.Intn(8))
				}
				src = string(b)
			case 5:
				j := min(len(src), i+1+r.Intn(20))
				src = src[:j] + src[i:j] + src[j:]
			}
		}
		c.Count("texts: mutated", 1)
		return src
	case k < 16: // truncated
		src := c.smallSource(r)
		c.Count("texts: truncated", 1)
		return src[:r.Intn(len(src)+1)]
	case k < 18: // random bytes
		n := r.Intn(40)
		b := make([]byte, n)
		for i := range b {
			if r.Intn(2) == 0 {
				b[i] = "()[]{}#'`~@^;\\\":%_?=!<>, \n\rabu01"[r.Intn(32)]
			} else {
				b[i] = byte(r.Intn(256))
			}
		}
		c.Count("texts: random bytes", 1)
		return string(b)
	default:
		return c.Source(r, func(p *gen.Profile) { p.PrefixCmt = 0.02 })
	}
}

func (c *Ctx) smallSource(r randT) string {
	g := gen.New(r, func() gen.Profile {
		p := gen.Default()
		p.CRLF = r.Intn(10) == 0
		p.LoneCR = r.Intn(10) == 0
		p.PrefixCmt = 0.01
		p = gen.Vary(r, p)
		p.MaxDepth = min(p.MaxDepth, 4)
		return p
	}())
	if r.Intn(6) == 0 {
		f := corpus[r.Intn(len(corpus))]
		if len(f.text) < 6000 {
			return f.text
		}
	}
	switch r.Intn(10) {
	case 0, 1:
		return g.Small()
	case 2:
		return g.OddAtoms()
	}
	return g.Program()
}

type randT = *rand.Rand
