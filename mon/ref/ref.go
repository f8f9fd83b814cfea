// Package ref is an independent reader for the Clojure surface syntax that
// goclj handles. It shares no code with goclj: the monitors use it as the
// oracle that says which tokens, forms and positions a text contains.
//
// It is a plain hand-written recursive reader over a byte slice (no lexer
// goroutine, no rune buffer, no lookahead token), so a mistake in goclj is
// unlikely to be repeated here.
package ref

import (
	"fmt"
	"strings"
	"unicode/utf8"
)

type Kind int

const (
	EOF Kind = iota
	Newline
	Comment
	Open    // ( [ {
	Close   // ) ] }
	FnOpen  // #(
	SetOpen // #{
	Cond    // #? or #?@
	NSMap   // #:kw  #::kw  #::
	Prefix  // ' ` @ ~ ~@ ^ (also spelled #^) #_ #=
	VarQ    // #'
	Hash    // # introducing a tag
	Sym
	Kw
	Num
	Str
	Char
	Regex
)

var kindNames = [...]string{"eof", "newline", "comment", "open", "close", "fn-open", "set-open", "cond", "nsmap",
	"prefix", "varquote", "hash", "symbol", "keyword", "number", "string", "char", "regex"}

func (k Kind) String() string { return kindNames[k] }

// Tok is one token. Text is the raw bytes, except that the prefix #^ is
// normalized to ^ (both spell the same reader macro).
type Tok struct {
	Kind Kind
	Text string
	Off  int // byte offset of the first byte
	End  int // byte offset after the last byte
	Line int // 1-based; a line ends at '\n'
	Col  int // 1-based, in bytes
	RCol int // 0-based, in characters
}

// Code classifies why a text is not well formed.
type Code string

const (
	UnmatchedClose Code = "unmatched-close"
	EOFInColl      Code = "eof-in-collection"
	EOFInString    Code = "eof-in-string"
	EOFAfterPrefix Code = "eof-after-prefix"
	DanglingPrefix Code = "prefix-before-closer"
	NestedFn       Code = "nested-fn-literal"
	BadChar        Code = "bad-character-literal"
	Unreadable     Code = "unreadable-dispatch"
	CondNotList    Code = "reader-conditional-without-list"
	NSMapNotMap    Code = "namespaced-map-without-map"
	BadTag         Code = "bad-tag"
	BadVarQuote    Code = "bad-var-quote"
	// Unsure marks texts on which no verdict is claimed.
	Unsure Code = "unsure"
)

type Err struct {
	Code Code
	Off  int // offset of the offending token (or end of input)
	Line int
	Col  int
}

func (e *Err) Error() string { return fmt.Sprintf("%s at %d:%d", e.Code, e.Line, e.Col) }

// IsSpace is whitespace for both Clojure and goclj; characters on which the
// two disagree (NBSP and friends) are never generated by the monitors.
func IsSpace(r rune) bool {
	switch r {
	case ' ', '\t', '\n', '\v', '\f', '\r', ',', 0x85, 0xA0, 0x1680, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000:
		return true
	}
	return r >= 0x2000 && r <= 0x200a
}

// Unicode whitespace as strings.TrimSpace sees it.
func terminates(r rune) bool {
	return IsSpace(r) || strings.ContainsRune("\";@^~()[]{}\\", r)
}

type lexer struct {
	s         string
	i         int
	line      int
	lineStart int
}

func (l *lexer) rune() (rune, int) {
	if l.i >= len(l.s) {
		return -1, 0
	}
	return utf8.DecodeRuneInString(l.s[l.i:])
}

func (l *lexer) peekAt(j int) byte {
	if j < len(l.s) {
		return l.s[j]
	}
	return 0
}

func (l *lexer) atom(from int) int {
	j := from
	for j < len(l.s) {
		r, w := utf8.DecodeRuneInString(l.s[j:])
		if terminates(r) {
			break
		}
		j += w
	}
	return j
}

func (l *lexer) errAt(c Code, off int) *Err {
	line, col := 1, 1
	line = 1 + strings.Count(l.s[:off], "\n")
	col = off - (strings.LastIndexByte(l.s[:off], '\n') + 1) + 1
	return &Err{c, off, line, col}
}

// Lex splits s into tokens, ending with an EOF token. On an error it returns
// the tokens before it.
func Lex(s string) ([]Tok, *Err) {
	l := &lexer{s: s, line: 1}
	var toks []Tok
	for {
		// skip whitespace other than newline
		for {
			r, w := l.rune()
			if w == 0 || r == '\n' || !IsSpace(r) {
				break
			}
			l.i += w
		}
		start := l.i
		add := func(k Kind, end int) {
			toks = append(toks, Tok{
				Kind: k, Text: s[start:end], Off: start, End: end,
				Line: l.line, Col: start - l.lineStart + 1,
				RCol: utf8.RuneCountInString(s[l.lineStart:start]),
			})
			if n := strings.Count(s[start:end], "\n"); n > 0 {
				l.line += n
				l.lineStart = start + strings.LastIndexByte(s[start:end], '\n') + 1
			}
			l.i = end
		}
		r, w := l.rune()
		if w == 0 {
			add(EOF, start)
			return toks, nil
		}
		switch r {
		case '\n':
			add(Newline, start+1)
		case '(', '[', '{':
			add(Open, start+1)
		case ')', ']', '}':
			add(Close, start+1)
		case '\'', '`', '@', '^':
			add(Prefix, start+1)
		case '~':
			if l.peekAt(start+1) == '@' {
				add(Prefix, start+2)
			} else {
				add(Prefix, start+1)
			}
		case ';':
			add(Comment, commentEnd(s, start))
		case '"':
			end := stringEnd(s, start)
			if end < 0 {
				return toks, l.errAt(EOFInString, start)
			}
			add(Str, end)
		case '\\':
			if start+1 >= len(s) {
				return toks, l.errAt(BadChar, start)
			}
			_, w := utf8.DecodeRuneInString(s[start+1:])
			end := l.atom(start + 1 + w)
			if _, ok, sure := CharValue(s[start:end]); !ok {
				if sure {
					return toks, l.errAt(BadChar, start)
				}
				return toks, l.errAt(Unsure, start)
			}
			add(Char, end)
		case ':':
			add(Kw, l.atom(start+1))
		case '#':
			switch l.peekAt(start + 1) {
			case '(':
				add(FnOpen, start+2)
			case '{':
				add(SetOpen, start+2)
			case '"':
				end := stringEnd(s, start+1)
				if end < 0 {
					return toks, l.errAt(EOFInString, start+1)
				}
				add(Regex, end)
			case '?':
				if l.peekAt(start+2) == '@' {
					add(Cond, start+3)
				} else {
					add(Cond, start+2)
				}
			case ':':
				add(NSMap, l.atom(start+2))
			case '\'':
				add(VarQ, start+2)
			case '_', '=':
				add(Prefix, start+2)
			case '^':
				add(Prefix, start+2)
				toks[len(toks)-1].Text = "^"
			case '!':
				add(Comment, commentEnd(s, start))
			case '<':
				return toks, l.errAt(Unreadable, start)
			case '#':
				return toks, l.errAt(Unsure, start) // ##Inf and friends
			default:
				add(Hash, start+1)
			}
		default:
			end := l.atom(start + w)
			k := Sym
			if r >= '0' && r <= '9' {
				k = Num
			} else if (r == '+' || r == '-') && start+1 < len(s) && s[start+1] >= '0' && s[start+1] <= '9' {
				k = Num
			}
			add(k, end)
		}
	}
}

func commentEnd(s string, i int) int {
	for i < len(s) && s[i] != '\n' && s[i] != '\r' {
		i++
	}
	return i
}

// stringEnd returns the offset after the closing quote of the string opening
// at i, or -1.
func stringEnd(s string, i int) int {
	for j := i + 1; j < len(s); j++ {
		switch s[j] {
		case '\\':
			j++
		case '"':
			return j + 1
		}
	}
	return -1
}

var charNames = map[string]rune{
	"newline": '\n', "space": ' ', "tab": '\t', "formfeed": '\f', "backspace": '\b', "return": '\r',
}

// CharValue decodes a character literal (with its backslash). sure is false
// where no verdict is claimed.
func CharValue(text string) (r rune, ok, sure bool) {
	v := text[1:]
	if utf8.RuneCountInString(v) == 1 {
		r, _ := utf8.DecodeRuneInString(v)
		return r, true, true
	}
	if r, ok := charNames[v]; ok {
		return r, true, true
	}
	digits := func(s string, base int) (int, bool) {
		n := 0
		for i := 0; i < len(s); i++ {
			d := strings.IndexByte("0123456789abcdef", s[i]|0x20)
			if s[i] < 'A' {
				d = strings.IndexByte("0123456789", s[i])
			}
			if d < 0 || d >= base {
				return 0, false
			}
			n = n*base + d
		}
		return n, true
	}
	switch v[0] {
	case 'u':
		n, ok := digits(v[1:], 16)
		if ok && len(v) == 5 {
			if n >= 0xD800 && n <= 0xDFFF {
				return 0, false, false
			}
			return rune(n), true, true
		}
		if strings.ContainsAny(v[1:], "+-_") {
			return 0, false, false
		}
		return 0, false, true
	case 'o':
		n, ok := digits(v[1:], 8)
		if ok && len(v) == 4 {
			if n > 0377 {
				return 0, false, false
			}
			return rune(n), true, true
		}
		if ok || strings.ContainsAny(v[1:], "+-_") {
			return 0, false, false // \o7 and \o12 are legal Clojure, goclj wants three digits
		}
		return 0, false, true
	}
	return 0, false, true
}

// NodeKind is the kind of a form.
type NodeKind string

const (
	NList    NodeKind = "list"
	NVector  NodeKind = "vector"
	NMap     NodeKind = "map"
	NSet     NodeKind = "set"
	NFn      NodeKind = "fn"
	NCond    NodeKind = "cond"
	NSplice  NodeKind = "cond-splice"
	NPrefix  NodeKind = "prefix" // Text is the prefix
	NVarQ    NodeKind = "varquote"
	NTag     NodeKind = "tag" // Text is the tag name; the tagged form follows as a sibling
	NSym     NodeKind = "symbol"
	NKw      NodeKind = "keyword"
	NNum     NodeKind = "number"
	NStr     NodeKind = "string"
	NChar    NodeKind = "char"
	NRegex   NodeKind = "regex"
	NComment NodeKind = "comment"
	NNewline NodeKind = "newline"
)

// Node is a form, a comment or a newline. Metadata and tags are kept flat: ^x y
// is the two siblings prefix(^){x} and y, exactly as the text is written.
type Node struct {
	Kind NodeKind
	Text string  // atoms: source text; prefix, tag, varquote: see above; map: namespace
	Kids []*Node // elements including newlines and comments; for a prefix, its one form
	// Skip lists the newlines and comments between a prefix and its form that
	// the tree does not contain. The comments (and newlines) after ^, #_ and #=
	// are not among them: they are hoisted in front of the whole prefixed form,
	// among its siblings.
	Skip []*Node
	// Hoisted marks comments moved in front of a prefix.
	Hoisted bool
	First   Tok // first token
	Last    Tok // last token (closing delimiter, or the atom itself)
}

func (n *Node) Semantic() bool { return n.Kind != NComment && n.Kind != NNewline }

// IsColl reports whether n is a delimited sequence.
func (n *Node) IsColl() bool {
	switch n.Kind {
	case NList, NVector, NMap, NSet, NFn, NCond, NSplice:
		return true
	}
	return false
}

type parser struct {
	toks    []Tok
	i       int
	s       string
	inFn    bool
	l       *lexer
	hoisted []*Node // comments to put in front of the sibling being read
}

type perr struct{ e *Err }

func (p *parser) fail(c Code, t Tok) {
	panic(perr{&Err{c, t.Off, t.Line, t.Col}})
}

// Read parses s completely. Roots contain newlines and comments as well.
func Read(s string) (roots []*Node, err *Err) {
	toks, lexErr := Lex(s)
	p := &parser{toks: toks, s: s, l: &lexer{s: s}}
	defer func() {
		if e := recover(); e != nil {
			pe, ok := e.(perr)
			if !ok {
				panic(e)
			}
			roots, err = nil, pe.e
		}
	}()
	p.lexErr(lexErr)
	for {
		n := p.form()
		if n == nil {
			return roots, nil
		}
		roots = p.add(roots, n)
	}
}

// add appends a sibling, after the comments hoisted out of it.
func (p *parser) add(ns []*Node, n *Node) []*Node {
	ns = append(ns, p.hoisted...)
	p.hoisted = nil
	return append(ns, n)
}

// lexErr arranges for a lexical error to surface when the parser gets there.
func (p *parser) lexErr(e *Err) {
	if e != nil {
		p.toks = append(p.toks, Tok{Kind: -1, Off: e.Off, Line: e.Line, Col: e.Col, Text: string(e.Code)})
	}
}

func (p *parser) peek() Tok {
	t := p.toks[p.i]
	if t.Kind == -1 {
		panic(perr{&Err{Code(t.Text), t.Off, t.Line, t.Col}})
	}
	return t
}

// nextStart is like next, but if the token is an incomplete regex it returns
// what can be seen of it: it may be out of place before it is incomplete.
func (p *parser) nextStart() Tok {
	t := p.toks[p.i]
	if t.Kind == -1 && Code(t.Text) == EOFInString && p.i > 0 && p.toks[p.i-1].End < t.Off && p.s[t.Off-1] == '#' {
		return Tok{Kind: Regex, Off: t.Off - 1, Line: t.Line, Col: t.Col - 1}
	}
	return p.next()
}

func (p *parser) next() Tok {
	t := p.peek()
	if t.Kind != EOF {
		p.i++
	}
	return t
}

// form reads the next sibling, or returns nil at EOF.
func (p *parser) form() *Node {
	t := p.next()
	atom := func(k NodeKind) *Node { return &Node{Kind: k, Text: t.Text, First: t, Last: t} }
	switch t.Kind {
	case EOF:
		return nil
	case Newline:
		return atom(NNewline)
	case Comment:
		return atom(NComment)
	case Sym:
		return atom(NSym)
	case Kw:
		return atom(NKw)
	case Num:
		return atom(NNum)
	case Str:
		return atom(NStr)
	case Char:
		return atom(NChar)
	case Regex:
		return atom(NRegex)
	case Close:
		p.fail(UnmatchedClose, t)
	case Open:
		k := map[string]NodeKind{"(": NList, "[": NVector, "{": NMap}[t.Text]
		return p.coll(k, t, closerOf(t.Text))
	case SetOpen:
		return p.coll(NSet, t, "}")
	case FnOpen:
		if p.inFn {
			p.fail(NestedFn, t)
		}
		p.inFn = true
		n := p.coll(NFn, t, ")")
		p.inFn = false
		return n
	case Cond:
		k := NCond
		if t.Text == "#?@" {
			k = NSplice
		}
		o := p.nextStart()
		switch {
		case o.Kind == EOF:
			p.fail(EOFAfterPrefix, o)
		case o.Kind == Newline || o.Kind == Comment:
			p.fail(Unsure, o)
		case o.Kind != Open || o.Text != "(":
			p.fail(CondNotList, o)
		}
		n := p.coll(k, o, ")")
		n.First = t
		return n
	case NSMap:
		o := p.nextStart()
		switch {
		case o.Kind == EOF:
			p.fail(EOFAfterPrefix, o)
		case o.Kind == Newline || o.Kind == Comment:
			p.fail(Unsure, o)
		case o.Kind != Open || o.Text != "{":
			p.fail(NSMapNotMap, o)
		}
		n := p.coll(NMap, o, "}")
		n.First = t
		n.Text = t.Text[1:]
		return n
	case Prefix:
		n := &Node{Kind: NPrefix, Text: t.Text, First: t}
		for {
			switch q := p.peek(); q.Kind {
			case EOF:
				p.fail(EOFAfterPrefix, q)
			case Close:
				p.fail(DanglingPrefix, q)
			}
			k := p.form()
			if k.Semantic() {
				n.Kids = []*Node{k}
				n.Last = k.Last
				if t.Text == "^" || t.Text == "#_" || t.Text == "#=" {
					for i, s := range n.Skip {
						if s.Kind == NComment {
							for _, h := range n.Skip[i:] {
								h.Hoisted = true
							}
							p.hoisted = append(n.Skip[i:len(n.Skip):len(n.Skip)], p.hoisted...)
							n.Skip = n.Skip[:i]
							break
						}
					}
				}
				return n
			}
			n.Skip = append(n.Skip, k)
		}
	case VarQ, Hash:
		o := p.nextStart()
		switch {
		case o.Kind == EOF:
			p.fail(EOFAfterPrefix, o)
		case o.Kind == Newline || o.Kind == Comment:
			p.fail(Unsure, o)
		case o.Kind == Prefix && t.Kind == VarQ && o.Text == "^":
			p.fail(Unsure, o)
		case o.Kind != Sym:
			c := BadTag
			if t.Kind == VarQ {
				c = BadVarQuote
			}
			p.fail(c, o)
		}
		k := NTag
		if t.Kind == VarQ {
			k = NVarQ
		}
		return &Node{Kind: k, Text: o.Text, First: t, Last: o}
	}
	panic("unreachable")
}

func closerOf(open string) string {
	return map[string]string{"(": ")", "[": "]", "{": "}"}[open]
}

func (p *parser) coll(k NodeKind, open Tok, closer string) *Node {
	n := &Node{Kind: k, First: open}
	for {
		t := p.peek()
		if t.Kind == EOF {
			p.fail(EOFInColl, t)
		}
		if t.Kind == Close {
			if t.Text != closer {
				p.fail(UnmatchedClose, t)
			}
			n.Last = p.next()
			return n
		}
		n.Kids = p.add(n.Kids, p.form())
	}
}

// Walk calls f for every node, parents first.
func Walk(ns []*Node, f func(n *Node)) {
	for _, n := range ns {
		f(n)
		Walk(n.Kids, f)
	}
}
