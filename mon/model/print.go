// Package model is a reference model of the documented layout: it computes the
// text that a formatter following the documentation must produce, from the
// independent reader's tree. It shares no code with goclj and is organized
// differently: it asks "at which column does the line starting with child i of
// this collection begin" instead of threading a mutable indent through a loop.
package model

import (
	"strings"
	"unicode/utf8"

	"goclj.verif/mon/ref"
)

// Style is an indentation rule.
type Style int

const (
	Normal Style = iota
	List
	Body
	Let
	For
	Letfn
	Deftype
	Cond0
	Cond1
	Cond2
	Cond4
	pairs // maps, binding vectors, reader conditionals
)

// DefaultStyles is the table of built-in rules.
var DefaultStyles = map[string]Style{}

func init() {
	for st, names := range map[Style]string{
		Body: `as-> bound-fn catch def definline defmacro defmethod defmulti defn defn- defonce defstruct deftest deftest- doto extend fn
			if if-not locking ns send-off set-test testing update update-in when when-not while with-bindings with-in-str with-precision
			with-redefs-fn with-test`,
		Let:     `binding dotimes if-let if-some let loop when-first when-let when-some with-local-vars with-open with-redefs`,
		For:     `for doseq`,
		Letfn:   `letfn`,
		Deftype: `definterface defprotocol defrecord deftype extend-protocol extend-type proxy reify`,
		Cond0:   `cond`,
		Cond1:   `assoc case cond-> cond->>`,
		Cond2:   `condp defproject`,
	} {
		for _, n := range strings.Fields(names) {
			DefaultStyles[n] = st
		}
	}
}

// Config is a layout configuration.
type Config struct {
	Styles     map[string]Style // overrides
	ThreadCond map[string]bool  // thread-first overrides: name -> cond-> style
	Char       rune
	Aliases    map[string]string // alias -> namespace
	Refers     map[string]string // name -> namespace

	threaded map[*ref.Node]bool
	forced   map[*ref.Node]Style
	docs     map[*ref.Node]bool
}

func (c *Config) lookup(name string) (Style, bool) {
	try := func(n string) (Style, bool) {
		if s, ok := c.Styles[n]; ok {
			return s, true
		}
		s, ok := DefaultStyles[n]
		return s, ok
	}
	if i := strings.LastIndexByte(name, '/'); i >= 0 {
		if ns, ok := c.Aliases[name[:i]]; ok {
			if s, ok := try(ns + name[i:]); ok {
				return s, true
			}
		}
		if s, ok := try(name[i+1:]); ok {
			return s, true
		}
		return try(name)
	}
	if ns, ok := c.Refers[name]; ok {
		if s, ok := try(ns + "/" + name); ok {
			return s, true
		}
	}
	return try(name)
}

// counts reports whether n is counted as an argument (comments, newlines,
// metadata and tags are not).
func counts(n *ref.Node) bool {
	return n.Semantic() && n.Kind != ref.NTag && !(n.Kind == ref.NPrefix && n.Text == "^")
}

func plainSym(n *ref.Node) bool {
	return n.Kind == ref.NSym && n.Text != "nil" && n.Text != "true" && n.Text != "false"
}

func args(ns []*ref.Node) []*ref.Node {
	var out []*ref.Node
	for _, n := range ns {
		if counts(n) {
			out = append(out, n)
		}
	}
	return out
}

// style is the rule for a list or function literal by its head.
func (c *Config) style(kids []*ref.Node) Style {
	if len(kids) == 0 {
		return Normal
	}
	switch {
	case kids[0].Kind == ref.NKw:
		return List
	case plainSym(kids[0]):
		name := kids[0].Text
		if s, ok := c.lookup(name); ok {
			return s
		}
		base := name[strings.LastIndexByte(name, '/')+1:]
		for _, p := range []string{"def", "let", "with-", "when-"} {
			if strings.HasPrefix(base, p) {
				return Body
			}
		}
		return List
	}
	return Normal
}

// inner marks the children of a list which its head gives special rules.
func (c *Config) inner(n *ref.Node) {
	if n.Kind != ref.NList || len(n.Kids) == 0 || !plainSym(n.Kids[0]) {
		return
	}
	st, ok := c.lookup(n.Kids[0].Text)
	if !ok {
		return
	}
	as := args(n.Kids[1:])
	var vec *ref.Node
	if len(as) > 0 && as[0].Kind == ref.NVector {
		vec = as[0]
	}
	switch st {
	case Let, For:
		if vec == nil {
			return
		}
		c.forced[vec] = pairs
		if st == For {
			bs := args(vec.Kids)
			for i := 0; i+1 < len(bs); i += 2 {
				if bs[i].Kind == ref.NKw && bs[i].Text == ":let" && bs[i+1].Kind == ref.NVector {
					c.forced[bs[i+1]] = pairs
				}
			}
		}
	case Letfn:
		if vec != nil {
			for _, k := range vec.Kids {
				if k.Kind == ref.NList {
					c.forced[k] = Body
				}
			}
		}
	case Deftype:
		for _, k := range n.Kids[1:] {
			if k.Kind == ref.NList {
				c.forced[k] = Body
			}
		}
	}
}

// thread marks the lists which get a first argument threaded in.
func (c *Config) thread(n *ref.Node) {
	if (n.Kind == ref.NList || n.Kind == ref.NFn) && len(n.Kids) > 0 && plainSym(n.Kids[0]) {
		name := n.Kids[0].Text
		cond, ok := c.ThreadCond[name]
		if !ok {
			cond, ok = name == "cond->", name == "->" || name == "some->" || name == "cond->"
		}
		if ok {
			first := 2 // the value being threaded is argument 1
			if c.threaded[n] {
				first = 1
			}
			i := -1
			for _, k := range n.Kids {
				if !counts(k) {
					continue
				}
				i++
				if k.Kind == ref.NList && i >= first && (!cond || (i-first)%2 == 1) {
					c.threaded[k] = true
				}
			}
		}
	}
	for _, k := range n.Kids {
		c.thread(k)
	}
}

// Docstring returns the docstring of a top-level definition, or nil.
func Docstring(n *ref.Node) *ref.Node {
	if n.Kind != ref.NList || len(n.Kids) < 3 || !plainSym(n.Kids[0]) || !plainSym(n.Kids[1]) {
		return nil
	}
	switch n.Kids[0].Text {
	case "ns", "def", "defn", "defmacro", "defmulti":
	default:
		return nil
	}
	rest := n.Kids[2:]
	for len(rest) > 0 && rest[0].Kind == ref.NNewline {
		rest = rest[1:]
	}
	if len(rest) == 0 || rest[0].Kind != ref.NStr {
		return nil
	}
	for _, k := range rest[1:] {
		if k.Semantic() && !(k.Kind == ref.NPrefix && k.Text == "#_") {
			return rest[0]
		}
	}
	return nil
}

type printer struct {
	c   *Config
	b   strings.Builder
	col int
}

func (p *printer) put(s string) {
	p.b.WriteString(s)
	if i := strings.LastIndexByte(s, '\n'); i >= 0 {
		p.col = utf8.RuneCountInString(s[i+1:])
	} else {
		p.col += utf8.RuneCountInString(s)
	}
}

// Print lays out the roots. Their newlines are taken as they are.
func Print(roots []*ref.Node, c *Config) string {
	if c.Char == 0 {
		c.Char = ' '
	}
	c.threaded = map[*ref.Node]bool{}
	c.forced = map[*ref.Node]Style{}
	c.docs = map[*ref.Node]bool{}
	for _, r := range roots {
		c.thread(r)
		if d := Docstring(r); d != nil {
			c.docs[d] = true
		}
	}
	p := &printer{c: c}
	p.seq(roots, Normal)
	return p.b.String()
}

func (p *printer) node(n *ref.Node) {
	switch n.Kind {
	case ref.NList:
		p.c.inner(n)
		st, ok := p.c.forced[n]
		if !ok {
			st = p.c.style(n.Kids)
		}
		if p.c.threaded[n] {
			switch st {
			case Cond1:
				st = Cond0
			case Cond2:
				st = Cond1
			}
		}
		p.put("(")
		p.seq(n.Kids, st)
		p.put(")")
	case ref.NFn:
		p.put("#(")
		p.seq(n.Kids, p.c.style(n.Kids))
		p.put(")")
	case ref.NVector:
		p.put("[")
		p.seq(n.Kids, p.c.forced[n])
		p.put("]")
	case ref.NMap:
		if n.Text != "" {
			p.put("#" + n.Text)
		}
		p.put("{")
		p.seq(n.Kids, pairs)
		p.put("}")
	case ref.NSet:
		p.put("#{")
		p.seq(n.Kids, Normal)
		p.put("}")
	case ref.NCond, ref.NSplice:
		if n.Kind == ref.NCond {
			p.put("#?(")
		} else {
			p.put("#?@(")
		}
		p.seq(n.Kids, pairs)
		p.put(")")
	case ref.NPrefix:
		p.put(n.Text)
		k := n.Kids[0]
		if n.Text == "~" && k.Kind == ref.NPrefix && k.Text == "@" {
			p.put(" ")
		}
		p.node(k)
	case ref.NTag:
		p.put("#")
		if strings.IndexByte("_=?!<", n.Text[0]) >= 0 {
			p.put(" ")
		}
		p.put(n.Text)
	case ref.NVarQ:
		p.put("#'" + n.Text)
	case ref.NStr:
		if p.c.docs[n] {
			p.put(Realign(n.Text, p.col, p.c.Char))
		} else {
			p.put(n.Text)
		}
	default:
		p.put(n.Text)
	}
}

// Realign is a docstring literal whose continuation lines are indented at least
// as far as its opening quote at column col.
func Realign(lit string, col int, char rune) string {
	lines := strings.Split(lit[1:len(lit)-1], "\n")
	for i := 1; i < len(lines); i++ {
		l := lines[i]
		text := strings.TrimSpace(l)
		if text == "" {
			lines[i] = ""
			continue
		}
		lead := len(l) - len(strings.TrimLeft(l, " "))
		lines[i] = strings.Repeat(string(char), col) + strings.Repeat(" ", max(0, lead-col)) + text
	}
	return `"` + strings.Join(lines, "\n") + `"`
}

const maxCommentAlign = 12

// seq prints the children of a collection whose content starts at the current
// column.
func (p *printer) seq(kids []*ref.Node, st Style) {
	content := p.col
	base := content
	headEnd := content
	lineBase := func() {
		if len(kids) < 2 {
			return
		}
		k1 := kids[1]
		switch st {
		case Normal, pairs:
		case List, Cond0:
			if k1.Kind == ref.NNewline || !counts(k1) && headEnd-content > maxCommentAlign {
				base = content + 1
			} else {
				base = headEnd + 1
			}
		default:
			base = content + 1
		}
	}
	skip := map[Style]int{Cond0: 1, Cond1: 2, Cond2: 3, Cond4: 5}[st]
	paired := st == pairs || skip > 0
	seen := 0     // arguments so far
	inGroup := -1 // position within the current pair or triple, -1 before the first
	if st == pairs {
		inGroup = 0
	}
	fresh := false // at the start of a line whose indentation is still to be written
	indent := func() {
		w := base
		if paired && inGroup > 0 {
			w += 2
		}
		p.put(strings.Repeat(string(p.c.Char), w))
		fresh = false
	}
	if len(kids) > 0 && kids[0].Kind == ref.NNewline {
		lineBase()
	}
	for i, k := range kids {
		if k.Kind == ref.NNewline {
			p.put("\n")
			fresh = true
			continue
		}
		if fresh {
			indent()
		} else if i > 0 {
			p.put(" ")
		}
		p.node(k)
		if i == 0 {
			headEnd = p.col
			lineBase()
		}
		if !counts(k) {
			continue
		}
		seen++
		switch {
		case seen == skip:
			inGroup = 0
		case inGroup < 0:
		case inGroup == 0:
			inGroup = 1
		case inGroup == 1 && k.Kind == ref.NKw && k.Text == ":>>":
			inGroup = 2
		default:
			inGroup = 0
		}
	}
	if fresh {
		indent()
	}
}
