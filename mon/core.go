package main

import (
	"bytes"
	"embed"
	"fmt"
	"math/rand"
	"path"
	"sort"
	"strings"

	"github.com/cespare/goclj/format"
	"github.com/cespare/goclj/parse"

	"goclj.verif/mon/gen"
	"goclj.verif/mon/model"
	"goclj.verif/mon/ref"
)

//go:embed corpus/*.clj
var corpusFS embed.FS

type corpusFile struct{ name, text string }

var corpus []corpusFile

func init() {
	es, err := corpusFS.ReadDir("corpus")
	if err != nil {
		panic(err)
	}
	for _, e := range es {
		b, err := corpusFS.ReadFile(path.Join("corpus", e.Name()))
		if err != nil {
			panic(err)
		}
		corpus = append(corpus, corpusFile{e.Name(), string(b)})
	}
}

// The nine transforms under their command-line names.
var transformNames = []string{"sort-import-require", "enforce-ns-style", "remove-trailing-newlines", "fix-defn-arglist-newline",
	"fix-defmethod-dispatch-val-newline", "remove-extra-blank-lines", "fix-if-newline-consistency", "use-to-require", "remove-unused-requires"}

var transformByName = map[string]format.Transform{
	"sort-import-require":                format.TransformSortImportRequire,
	"enforce-ns-style":                   format.TransformEnforceNSStyle,
	"remove-trailing-newlines":           format.TransformRemoveTrailingNewlines,
	"fix-defn-arglist-newline":           format.TransformFixDefnArglistNewline,
	"fix-defmethod-dispatch-val-newline": format.TransformFixDefmethodDispatchValNewline,
	"remove-extra-blank-lines":           format.TransformRemoveExtraBlankLines,
	"fix-if-newline-consistency":         format.TransformFixIfNewlineConsistency,
	"use-to-require":                     format.TransformUseToRequire,
	"remove-unused-requires":             format.TransformRemoveUnusedRequires,
}

// The documented defaults (README).
var defaultOn = map[string]bool{"sort-import-require": true, "enforce-ns-style": true, "remove-trailing-newlines": true,
	"fix-defn-arglist-newline": true, "fix-defmethod-dispatch-val-newline": true, "remove-extra-blank-lines": true, "fix-if-newline-consistency": true}

// FmtOpts is one formatter configuration.
type FmtOpts struct {
	Set    map[string]bool // explicit transform settings; others keep their defaults
	Indent map[string]format.IndentStyle
	Thread map[string]format.ThreadFirstStyle
	Char   rune
	Parse  parse.ParseOpts
}

// On reports whether the transform is in force.
func (o *FmtOpts) On(name string) bool {
	if v, ok := o.Set[name]; ok {
		return v
	}
	return defaultOn[name]
}

func (o *FmtOpts) String() string {
	var b strings.Builder
	for _, n := range transformNames {
		if v, ok := o.Set[n]; ok {
			fmt.Fprintf(&b, "%s=%v ", n, v)
		}
	}
	var ks []string
	for k, v := range o.Indent {
		ks = append(ks, fmt.Sprintf("indent %s=%d", k, v))
	}
	for k, v := range o.Thread {
		ks = append(ks, fmt.Sprintf("thread %s=%d", k, v))
	}
	sort.Strings(ks)
	b.WriteString(strings.Join(ks, " "))
	if o.Char != 0 && o.Char != ' ' {
		fmt.Fprintf(&b, " indentchar=%q", o.Char)
	}
	if o.Parse != parse.IncludeNonSemantic {
		fmt.Fprintf(&b, " parseopts=%d", o.Parse)
	}
	return b.String()
}

// AllOff disables every transform.
func AllOff() *FmtOpts {
	o := &FmtOpts{Set: map[string]bool{}, Parse: parse.IncludeNonSemantic}
	for _, n := range transformNames {
		o.Set[n] = false
	}
	return o
}

// Defaults is cljfmt without flags.
func Defaults() *FmtOpts { return &FmtOpts{Parse: parse.IncludeNonSemantic} }

// Only enables exactly the named transforms.
func Only(names ...string) *FmtOpts {
	o := AllOff()
	for _, n := range names {
		o.Set[n] = true
	}
	return o
}

// RandOpts makes a random configuration; nsOK allows the two opt-in transforms.
func RandOpts(r *rand.Rand, optIn bool) *FmtOpts {
	var o *FmtOpts
	switch r.Intn(4) {
	case 0, 1:
		o = Defaults()
	case 2:
		o = AllOff()
	default:
		o = &FmtOpts{Set: map[string]bool{}, Parse: parse.IncludeNonSemantic}
		for _, n := range transformNames {
			if defaultOn[n] {
				switch r.Intn(3) {
				case 0:
					o.Set[n] = false
				case 1:
					o.Set[n] = true
				}
			}
		}
	}
	if optIn && r.Intn(2) == 0 {
		if o.Set == nil {
			o.Set = map[string]bool{}
		}
		o.Set["use-to-require"] = r.Intn(2) == 0
		o.Set["remove-unused-requires"] = r.Intn(2) == 0
	}
	if r.Intn(3) == 0 {
		RandOverrides(r, o)
	}
	return o
}

var allStyles = []format.IndentStyle{format.IndentNormal, format.IndentList, format.IndentListBody, format.IndentLet, format.IndentFor,
	format.IndentLetfn, format.IndentDeftype, format.IndentCond0, format.IndentCond1, format.IndentCond2, format.IndentCond4}

var overrideNames = []string{"foo", "filter", "GET", "up", "let", "cond", "x/foo", "my.ns/foo", "my.ns/f", "my/foo", "org.lib1/f", "org.lib1/foo", "mycond", "org.lib3/mycond", "with-x", "when-foo", "-", "->", "a/b", "é"}

// RandOverrides adds indentation and thread-first overrides.
func RandOverrides(r *rand.Rand, o *FmtOpts) {
	o.Indent = map[string]format.IndentStyle{}
	n := 1 + r.Intn(5)
	allStyles := allStyles
	if r.Intn(4) == 0 { // many names, few styles
		n = 5 + r.Intn(20)
		i := r.Intn(len(allStyles) - 1)
		allStyles = allStyles[i : i+1+r.Intn(2)]
	}
	for ; n > 0; n-- {
		o.Indent[gen.Pick(r, overrideNames)] = gen.Pick(r, allStyles)
	}
	if r.Intn(2) == 0 {
		o.Thread = map[string]format.ThreadFirstStyle{"-?>": gen.Pick(r, []format.ThreadFirstStyle{format.ThreadFirstNormal, format.ThreadFirstCondArrow})}
		if r.Intn(2) == 0 {
			o.Thread[gen.Pick(r, overrideNames)] = format.ThreadFirstNormal
		}
	}
}

func (o *FmtOpts) transforms() map[format.Transform]bool {
	if o.Set == nil {
		return nil
	}
	m := map[format.Transform]bool{}
	for k, v := range o.Set {
		m[transformByName[k]] = v
	}
	return m
}

func parseSrc(src string, opts parse.ParseOpts) (*parse.Tree, error) {
	return parse.Reader(strings.NewReader(src), "t.clj", opts)
}

func printTree(t *parse.Tree, o *FmtOpts) (string, error) {
	var buf bytes.Buffer
	p := format.NewPrinter(&buf)
	if o.Char != 0 {
		p.IndentChar = o.Char
	}
	p.IndentOverrides = o.Indent
	p.ThreadFirstStyleOverrides = o.Thread
	p.Transforms = o.transforms()
	err := p.PrintTree(t)
	return buf.String(), err
}

// Format parses and prints src.
func Format(src string, o *FmtOpts) (string, error) {
	t, err := parseSrc(src, o.Parse)
	if err != nil {
		return "", err
	}
	return printTree(t, o)
}

// isHeadSym reports whether n is a list whose very first child is one of the
// symbols.
func isHeadSym(n *ref.Node, names ...string) bool {
	if n.Kind != ref.NList || len(n.Kids) == 0 || n.Kids[0].Kind != ref.NSym {
		return false
	}
	if len(names) == 0 {
		return true
	}
	for _, s := range names {
		if n.Kids[0].Text == s {
			return true
		}
	}
	return false
}

func isHeadKw(n *ref.Node, names ...string) bool {
	if n.Kind != ref.NList || len(n.Kids) == 0 || n.Kids[0].Kind != ref.NKw {
		return false
	}
	for _, s := range names {
		if n.Kids[0].Text == s {
			return true
		}
	}
	return false
}

// readAs reads src into the tree which goclj works on with these options:
// without non-semantic nodes if they are not asked for.
func readAs(src string, o *FmtOpts) ([]*ref.Node, *ref.Err) {
	roots, err := ref.Read(src)
	if err == nil && o.Parse&parse.IncludeNonSemantic == 0 {
		roots = dropNonSemantic(roots)
	}
	return roots, err
}

func dropNonSemantic(ns []*ref.Node) []*ref.Node {
	var out []*ref.Node
	for _, n := range ns {
		if n.Semantic() {
			n.Kids = dropNonSemantic(n.Kids)
			n.Skip = nil
			out = append(out, n)
		}
	}
	return out
}

// docstringTok returns the offset of a top-level form's docstring, or -1.
func docstringTok(n *ref.Node) int {
	if d := model.Docstring(n); d != nil {
		return d.First.Off
	}
	return -1
}

// trimLines removes the whitespace around every line of a literal but keeps
// what stands before the first newline's own text and after the last.
func trimLines(s string) string {
	lines := strings.Split(s, "\n")
	for i := 1; i < len(lines); i++ {
		lines[i] = strings.TrimSpace(lines[i])
	}
	return strings.Join(lines, "\n")
}

// trailingNewline of a docstring's closing quote: `...\n   "` may be realigned.
func normDoc(lit string) string {
	body := lit[1 : len(lit)-1]
	return `"` + trimLines(body) + `"`
}

var styleMap = map[format.IndentStyle]model.Style{
	format.IndentNormal: model.Normal, format.IndentList: model.List, format.IndentListBody: model.Body, format.IndentLet: model.Let,
	format.IndentFor: model.For, format.IndentLetfn: model.Letfn, format.IndentDeftype: model.Deftype, format.IndentCond0: model.Cond0,
	format.IndentCond1: model.Cond1, format.IndentCond2: model.Cond2, format.IndentCond4: model.Cond4,
}

func threadCond(o *FmtOpts) map[string]bool {
	m := map[string]bool{}
	for k, v := range o.Thread {
		m[k] = v == format.ThreadFirstCondArrow
	}
	return m
}
