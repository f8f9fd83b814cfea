package main

import (
	"fmt"
	"math/rand"
	"strings"

	"goclj.verif/mon/gen"
	"goclj.verif/mon/model"
	"goclj.verif/mon/ref"
)

// kinds of generated text, counted so that the evidence shows the mix.
const (
	kProgram = "program"
	kRespace = "respaced corpus"
	kCorpus  = "corpus"
	kShape   = "extreme shape"
	kSmall   = "small forms"
	kOdd     = "odd spellings"
	kLayout  = "nested layouts"
	kStretch = "stretched short forms"
	kTiny    = "enumerated short forms"
)

var corpusToks = map[string][]string{}

func init() {
	for _, f := range corpus {
		toks, err := ref.Lex(f.text)
		if err != nil {
			continue
		}
		var ts []string
		for _, t := range toks {
			if t.Kind != ref.Newline && t.Kind != ref.EOF && t.Kind != ref.Comment {
				ts = append(ts, t.Text)
			}
		}
		if len(ts) > 0 {
			corpusToks[f.name] = ts
		}
	}
}

// tinyCase is the enumerated text of case idx, for some of the cases.
func (c *Ctx) tinyCase(idx int) (string, bool) {
	const every = 12
	if idx%every != 5 {
		return "", false
	}
	k := idx / every
	for _, t := range []gen.TinySet{gen.TinyMoves, gen.TinyStyles} {
		if n := t.Size()/gen.TinyText + 1; k >= n {
			k -= n
			continue
		}
		c.Count("texts: all "+kTiny, 1)
		return t.Text(k), true
	}
	return "", false
}

// tinyPrefix is likewise a text of stacked prefixes.
func (c *Ctx) tinyPrefix(idx, every int) (string, bool) {
	if idx%every != 3 || idx/every > gen.TinyPrefixes.Size()/gen.TinyText {
		return "", false
	}
	c.Count("texts: all stacked prefixes", 1)
	return gen.TinyPrefixes.Text(idx / every), true
}

// Source makes one well-formed text. tweak may restrict the profile.
func (c *Ctx) Source(r *rand.Rand, tweak func(p *gen.Profile)) string {
	for {
		p := gen.Default()
		p.CRLF = r.Intn(10) == 0
		p.LoneCR = r.Intn(10) == 0
		if r.Intn(4) == 0 {
			p.PrefixCmt = 0.05
		}
		p = gen.Vary(r, p)
		if tweak != nil {
			tweak(&p)
		}
		var src, kind string
		g := gen.New(r, p)
		switch k := r.Intn(176); {
		case k >= 171:
			src, kind = gen.Stretch(r), kStretch
		case k >= 168:
			src, kind = gen.TinyMoves.Text(r.Intn(1<<20)), kTiny
		case k >= 165:
			src, kind = gen.TinyStyles.Text(r.Intn(1<<20)), kTiny
		case k >= 150:
			src, kind = gen.Layouts(r, r.Intn(1<<20)), kLayout
		case k >= 128:
			src, kind = g.Small(), kSmall
		case k >= 120:
			if src, kind = g.OddAtoms(), kOdd; r.Intn(4) == 0 {
				src = g.Near()
			}
		case k < 90:
			src, kind = g.Program(), kProgram
		case k < 110:
			f := corpus[r.Intn(len(corpus))]
			if corpusToks[f.name] == nil {
				continue
			}
			src, kind = g.Respace(corpusToks[f.name]), kRespace
		case k < 117:
			src, kind = corpus[r.Intn(len(corpus))].text, kCorpus
		default:
			scale := 1
			if c.Thorough() && r.Intn(4) == 0 {
				scale = 4
			}
			src, kind = gen.Shape(r, scale), kShape
		}
		if r.Intn(25) == 0 {
			src = spoilUTF8(r, src)
		}
		if len(src) > 60000 && r.Intn(4) != 0 && kind != kShape {
			continue
		}
		roots, err := ref.Read(src)
		if err != nil {
			c.Count("rejected by the generator", 1)
			continue
		}
		if p.NS == 0 && hasNS(roots) || p.PrefixCmt == 0 && hasPrefixComment(roots) {
			continue
		}
		c.Count("texts: "+kind, 1)
		return src
	}
}

func hasNS(roots []*ref.Node) bool {
	for _, n := range roots {
		if isHeadSym(n, "ns") {
			return true
		}
	}
	return false
}

func hasPrefixComment(roots []*ref.Node) bool {
	found := false
	ref.Walk(roots, func(n *ref.Node) {
		for _, s := range n.Skip {
			if s.Kind == ref.NComment {
				found = true
			}
		}
	})
	return found
}

// spoilUTF8 puts bytes that are not valid UTF-8 into a string, comment or symbol.
func spoilUTF8(r *rand.Rand, src string) string {
	toks, err := ref.Lex(src)
	if err != nil {
		return src
	}
	for try := 0; try < 20; try++ {
		t := toks[r.Intn(len(toks))]
		switch t.Kind {
		case ref.Str, ref.Comment, ref.Regex, ref.Sym, ref.Kw:
			at := t.End - 1
			if t.Kind == ref.Sym || t.Kind == ref.Kw || t.Kind == ref.Comment {
				at = t.End
			}
			if at > 0 && src[at-1] == '\\' {
				continue
			}
			return src[:at] + gen.Pick(r, []string{"\xff", "\xc3", "\xe9t\xe9", "\xf0\x9f", "\xed\xa0\x80"}) + src[at:]
		}
	}
	return src
}

// Flat is one element of a flattened text: tokens, comments and newlines.
type Flat struct {
	Kind ref.Kind
	Text string
	Off  int
	RCol int
}

// flatten lists the tokens of a text in order. The spelling differences that
// formatting normalizes are normalized: #^ is ^, a tag is one element.
func flatten(src string, newlines, comments bool) []Flat {
	toks, err := ref.Lex(src)
	if err != nil {
		return []Flat{{Kind: -1, Text: err.Error()}}
	}
	var out []Flat
	chain, last := -1, "" // start of the current chain of prefixes, and its last one
	for i := 0; i < len(toks); i++ {
		t := toks[i]
		switch t.Kind {
		case ref.Prefix:
			if chain < 0 {
				chain = len(out)
			}
			last = t.Text
		case ref.Newline:
		case ref.Comment:
			// comments after ^, #_ and #= go in front of the prefixed form
			if comments && chain >= 0 && (last == "^" || last == "#_" || last == "#=") {
				out = append(out[:chain], append([]Flat{{t.Kind, t.Text, t.Off, t.RCol}}, out[chain:]...)...)
				chain++
				continue
			}
		default:
			chain = -1
		}
		switch {
		case t.Kind == ref.EOF:
			continue
		case t.Kind == ref.Newline && !newlines, t.Kind == ref.Comment && !comments:
			continue
		}
		out = append(out, Flat{t.Kind, t.Text, t.Off, t.RCol})
	}
	return out
}

func showFlat(f []Flat, i int) string {
	lo, hi := max(0, i-4), min(len(f), i+5)
	var s []string
	for j := lo; j < hi; j++ {
		m := ""
		if j == i {
			m = ">>"
		}
		s = append(s, m+fmt.Sprintf("%q", trunc(f[j].Text, 80)))
	}
	return strings.Join(s, " ")
}

// diffFlat compares two token sequences.
func diffFlat(a, b []Flat) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		switch {
		case i >= len(a):
			return fmt.Sprintf("extra token in the output: %s", showFlat(b, i))
		case i >= len(b):
			return fmt.Sprintf("token missing from the output: %s", showFlat(a, i))
		case a[i].Kind != b[i].Kind || a[i].Text != b[i].Text:
			return fmt.Sprintf("tokens differ: input %s output %s", showFlat(a, i), showFlat(b, i))
		}
	}
	return ""
}

// diffText describes the first differing line.
func diffText(want, got string) string {
	if want == got {
		return ""
	}
	w, g := strings.Split(want, "\n"), strings.Split(got, "\n")
	for i := 0; ; i++ {
		switch {
		case i >= len(w):
			return fmt.Sprintf("extra line %d: %q", i+1, trunc(g[i], 300))
		case i >= len(g):
			return fmt.Sprintf("missing line %d: %q", i+1, trunc(w[i], 300))
		case w[i] != g[i]:
			return fmt.Sprintf("line %d: want %q, got %q", i+1, trunc(w[i], 300), trunc(g[i], 300))
		}
	}
}

func styleOf(o *FmtOpts) map[string]model.Style {
	m := map[string]model.Style{}
	for k, v := range o.Indent {
		m[k] = styleMap[v]
	}
	return m
}

// expect computes the text the documentation calls for. It must not be used
// with the opt-in transforms or with comments between a prefix and its form.
func expect(src string, o *FmtOpts) (string, bool) {
	roots, err := ref.Read(src)
	if err != nil {
		return "", false
	}
	roots = model.Canon(roots)
	for _, n := range roots {
		if isHeadSym(n, "ns") {
			model.NS(n, o.On("enforce-ns-style"), o.On("sort-import-require"))
		}
	}
	roots = model.Layout(roots, o.On)
	cfg := &model.Config{Styles: styleOf(o), Char: o.Char, ThreadCond: threadCond(o)}
	model.Requires(roots, cfg)
	return model.Print(roots, cfg), true
}
