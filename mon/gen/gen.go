// Package gen makes Clojure source text: grammar-driven programs, ns
// declarations, and mutations of a corpus. Everything is a function of the PRNG
// it is given.
package gen

import (
	"fmt"
	"math/rand"
	"strings"

	"goclj.verif/mon/ref"
)

// Profile says what a generated text may contain.
type Profile struct {
	NL         float64 // probability that a separator contains a newline
	Blank      float64 // ... that a newline is followed by more newlines
	Comments   float64 // probability that a separator contains a comment
	CRLF       bool    // newlines may be \r\n
	LoneCR     bool    // a comment may end with a bare \r
	PrefixNL   float64 // newline between a reader prefix and its form
	PrefixCmt  float64 // comment between a reader prefix and its form
	Odd        float64 // "# tag", "~ @x" and other legal but unusual spellings
	Stacked    float64 // #_ #_ a b
	Discards   float64 // #_ anywhere
	Meta       float64 // ^meta
	Tags       float64 // #tag form
	Unicode    float64
	MaxDepth   int
	Width      int
	NS         float64 // probability that the program starts with an ns form
	Heads      []string
	NoDispatch bool // no #(...) etc.
}

// Default is the everyday-to-hostile profile.
func Default() Profile {
	return Profile{NL: 0.3, Blank: 0.15, Comments: 0.07, PrefixNL: 0.03, Odd: 0.02, Stacked: 0.01,
		Discards: 0.03, Meta: 0.05, Tags: 0.02, Unicode: 0.08, MaxDepth: 6, Width: 5, NS: 0.2}
}

// Vary perturbs a profile so that different cases stress different features.
func Vary(r *rand.Rand, p Profile) Profile {
	scale := func(f *float64) {
		switch r.Intn(6) {
		case 0:
			*f = 0
		case 1:
			*f *= 3
			if *f > 0.9 {
				*f = 0.9
			}
		}
	}
	scale(&p.NL)
	scale(&p.Blank)
	scale(&p.Comments)
	scale(&p.PrefixNL)
	scale(&p.PrefixCmt)
	scale(&p.Odd)
	scale(&p.Stacked)
	scale(&p.Discards)
	scale(&p.Meta)
	scale(&p.Tags)
	scale(&p.Unicode)
	p.MaxDepth = 2 + r.Intn(p.MaxDepth+1)
	p.Width = 1 + r.Intn(p.Width+2)
	if r.Intn(8) == 0 {
		p.Width *= 3
		p.MaxDepth = 3
	}
	return p
}

// G generates text.
type G struct {
	R    *rand.Rand
	P    Profile
	inFn bool
	n    int // comment counter
	size int
}

func New(r *rand.Rand, p Profile) *G { return &G{R: r, P: p} }

func (g *G) p(f float64) bool { return f > 0 && g.R.Float64() < f }

func Pick[T any](r *rand.Rand, xs []T) T { return xs[r.Intn(len(xs))] }

func (g *G) pick(xs ...string) string { return xs[g.R.Intn(len(xs))] }

var symPool = []string{"a", "b", "x", "y", "foo", "bar", "baz", "inc", "map", "str", "foo-bar", "->foo", "*x*", "x'", "a.b", "Foo.", ".method",
	"a/b", "s/join", "clojure.string/join", "+", "-", "/", "<=", "...", "&", "-x", "+foo", "a#", "%", "%1", "%&", "a%b", "nil?", "true?", "some.pkg/", "_",
	"comment", "ns", "NaN", "a:b", "x->y", "!", "?", "=", "a|b", "nil", "true", "false", "very-long-symbol-name-that-goes-on", "exactly12chr", "thirteenchars", "f11xxxxxxxx"}

var uniSyms = []string{"é", "λ", "naïve", "日本", "x→y", "ñandú", "𝒳", "été/λ", "\u00b5", "Ωmega"}

func (g *G) Sym() string {
	if g.p(g.P.Unicode) {
		return Pick(g.R, uniSyms)
	}
	if g.R.Intn(12) == 0 {
		return "s" + strings.Repeat(string(rune('a'+g.R.Intn(26))), g.R.Intn(20)) + fmt.Sprint(g.R.Intn(100))
	}
	s := Pick(g.R, symPool)
	switch g.R.Intn(60) {
	case 0, 1:
		if d := DictSym(g.R); d != "" {
			s = d
		}
	case 2:
		s = OddSym(g.R)
	}
	if s[0] == '%' && g.P.NoDispatch {
		return "a"
	}
	return s
}

func (g *G) Kw() string {
	switch g.R.Intn(8) {
	case 0:
		return "::" + g.pick("a", "s/b", "foo", "k1", "foo.bar/x")
	case 1:
		return ":" + g.pick("let", "when", "while", ">>", ">>", "default", "else", "clj", "cljs", "require", "import")
	case 2:
		if g.p(g.P.Unicode * 3) {
			return ":" + Pick(g.R, uniSyms)
		}
		if len(dict.kws) > 0 && g.R.Intn(3) == 0 {
			return Pick(g.R, dict.kws)
		}
	}
	return ":" + g.pick("a", "b", "k", "foo", "foo/bar", "a.b.c", "x-y", "1", "a'b", "100%", "k#")
}

func (g *G) Num() string {
	return g.pick("0", "1", "-1", "+2", "42", "3.14", "1e10", "22/7", "0x1F", "36rZZ", "1N", "1.5M", "017", "-0.5", "12345678901234567890", "1e-5", "9'")
}

var strPieces = []string{"a", "foo", " ", "  ", `\n`, `\"`, `\\`, `\t`, `\u00e9`, "é", "日本", ";", "; not a comment", "(", ")", "[", "]", "{", "}", "'", "#_", "~@", "`", "^", "\t", ",", ":k", "%", "word word", "\u2014", "\U0001F600"}

// Str makes a string literal; multi allows raw newlines.
func (g *G) Str(multi bool) string {
	var b strings.Builder
	b.WriteByte('"')
	n := g.R.Intn(5)
	for i := 0; i < n; i++ {
		if multi && g.R.Intn(3) == 0 {
			switch g.R.Intn(6) {
			case 0:
				b.WriteString("\n\n")
			case 1:
				b.WriteString("  \n\t")
			case 2:
				if g.P.CRLF {
					b.WriteByte('\r')
				}
				b.WriteByte('\n')
			default:
				b.WriteByte('\n')
			}
			b.WriteString(strings.Repeat(" ", g.R.Intn(8)))
			continue
		}
		s := Pick(g.R, strPieces)
		if g.R.Intn(30) == 0 {
			s = strings.ReplaceAll(strings.ReplaceAll(DictStr(g.R), `\`, `\\`), `"`, `\"`)
		}
		if s[0] >= 0x80 && !g.p(g.P.Unicode*4) {
			s = "u"
		}
		b.WriteString(s)
	}
	b.WriteByte('"')
	return b.String()
}

// oddSpace has more or less blank characters.
var oddSpace = []string{"\f", "\v", "\u00a0", "\u2003", "\u0085", "\u200b", "\ufeff", "\u2028", "\x1c", "\x00", ","}

// Doc makes a docstring-looking literal.
func (g *G) Doc() string {
	var b strings.Builder
	b.WriteByte('"')
	lines := 1 + g.R.Intn(5)
	for i := 0; i < lines; i++ {
		if i > 0 {
			b.WriteString(g.pick("\n", "\n", "\n", "\n\n", "  \n", "\t\n"))
			b.WriteString(strings.Repeat(" ", g.R.Intn(10)))
			if g.R.Intn(10) == 0 {
				b.WriteString("\t")
			}
			if g.R.Intn(25) == 0 {
				b.WriteString(g.pick(oddSpace...) + g.pick("", " ", "\t"))
			}
		}
		if g.R.Intn(6) > 0 {
			b.WriteString(g.pick("Does a thing.", "- item", "see `foo`", `say \"hi\"`, "x", `back\\slash`, "(code x)", "; semi", "tail  ", `\n`, "1) a   b"))
			if g.R.Intn(25) == 0 {
				b.WriteString(g.pick(oddSpace...) + g.pick("", " "))
			}
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (g *G) Char() string {
	if g.p(g.P.Unicode) {
		return `\` + g.pick("é", "λ", "日", "𝒳")
	}
	if g.R.Intn(10) == 0 && !g.P.NoDispatch {
		if s := OddChar(g.R); isOne(s, ref.Char) {
			return s
		}
	}
	return `\` + g.pick("a", "Z", "0", "newline", "space", "tab", "formfeed", "backspace", "return", "u00e9", "u0041", "o101", "o007", "(", ")", "[", "]", "{", "}", `"`, `\`, ";", "'", "`", "~", "@", "^", "#", ",", "%", ":", "u", "o", "é")
}

func (g *G) Regex() string {
	return `#"` + g.pick(`\d+`, `^foo.*$`, `a|b`, ``, `\"q\"`, `[^\\]`, `(x) ; y`, "a\nb", `\s{2,}`, "#_") + `"`
}

func (g *G) Atom() string {
	switch g.R.Intn(16) {
	case 0, 1, 2, 3, 4, 5:
		return g.Sym()
	case 6, 7, 8:
		return g.Kw()
	case 9, 10:
		return g.Num()
	case 11:
		return g.Str(g.R.Intn(3) == 0)
	case 12:
		return g.Char()
	case 13:
		return g.Regex()
	case 14:
		return g.pick("nil", "true", "false")
	default:
		return g.Str(false)
	}
}

// CommentText makes a comment without its line end; each is unique in a text.
func (g *G) CommentText() string {
	g.n++
	lead := g.pick(";", ";;", "; ", ";;; ", "; ", "#!", "#! ")
	s := lead + fmt.Sprintf("c%d", g.n)
	switch g.R.Intn(10) {
	case 0:
		s += ` "quote`
	case 1:
		s += " (paren ["
	case 2:
		s += " trailing  "
	case 3:
		s += " ; more"
	case 4:
		s += ` \`
	case 5:
		if g.p(g.P.Unicode * 4) {
			s += " é—日"
		}
	case 6:
		s += ") ]}"
	case 7:
		if g.R.Intn(3) == 0 {
			s += g.pick("", " ") + DictStr(g.R)
		}
	}
	return s
}

func (g *G) nl() string {
	if g.P.CRLF && g.R.Intn(2) == 0 {
		return "\r\n"
	}
	return "\n"
}

func (g *G) newlines() string {
	s := g.nl()
	for g.p(g.P.Blank) {
		if g.R.Intn(4) == 0 {
			s += g.pick(" ", "\t", ", ", "   ")
		}
		s += g.nl()
		if g.R.Intn(4) == 0 {
			s += g.nl()
		}
	}
	return s
}

func (g *G) cmtEnd() string {
	if g.P.LoneCR && g.R.Intn(3) == 0 {
		return "\r"
	}
	return g.newlines()
}

func (g *G) blanks() string {
	switch g.R.Intn(12) {
	case 0:
		return "\t"
	case 1:
		return ", "
	case 2:
		return "   "
	case 3:
		return ","
	case 4:
		return "\f"
	}
	return " "
}

// Sep is whitespace between two siblings: never empty.
func (g *G) Sep() string {
	s := ""
	if g.p(g.P.Comments) {
		if g.R.Intn(4) > 0 {
			s += " "
		}
		if g.p(g.P.NL) {
			s += g.newlines()
		}
		s += g.CommentText() + g.cmtEnd()
		for g.R.Intn(3) == 0 {
			s += g.CommentText() + g.cmtEnd()
		}
		if g.R.Intn(30) == 0 {
			for n := 2 + g.R.Intn(8); n > 0; n-- {
				s += g.CommentText() + g.cmtEnd()
			}
		}
		return s
	}
	if g.p(g.P.NL) {
		if g.R.Intn(6) == 0 {
			s += g.blanks()
		}
		s += g.newlines()
		if g.R.Intn(2) == 0 {
			s += strings.Repeat(" ", g.R.Intn(7))
		}
		return s
	}
	return g.blanks()
}

// Edge is whitespace just inside a delimiter: usually empty.
func (g *G) Edge() string {
	if g.R.Intn(5) > 0 {
		return ""
	}
	return g.Sep()
}

const termFirst = "\";@^~()[]{}\\"

// Join puts separators between parts, sometimes omitting them where the text
// still splits the same way.
func (g *G) Join(parts []string) string {
	var b strings.Builder
	for i, p := range parts {
		if i > 0 {
			prev := parts[i-1]
			last := prev[len(prev)-1]
			tight := (strings.IndexByte(termFirst, p[0]) >= 0 && p[0] != ';' && p[0] != '\\' || strings.IndexByte(")]}\"", last) >= 0) &&
				!isCharLit(prev) && last != '~' && last != '#' && g.R.Intn(12) == 0
			if !tight {
				b.WriteString(g.Sep())
			}
		}
		b.WriteString(p)
	}
	return b.String()
}

func isCharLit(s string) bool { return len(s) >= 2 && s[len(s)-2] == '\\' }

func (g *G) Wrap(open string, parts []string, close string) string {
	if len(parts) == 0 {
		if g.R.Intn(4) == 0 {
			return open + g.Edge() + close
		}
		return open + close
	}
	return open + g.Edge() + g.Join(parts) + g.Edge() + close
}

func (g *G) list(parts ...string) string { return g.Wrap("(", parts, ")") }
func (g *G) vec(parts ...string) string  { return g.Wrap("[", parts, "]") }

func (g *G) prefix(pre string, d int) string {
	s := pre
	if g.p(g.P.PrefixNL) {
		s += g.newlines()
	} else if g.p(g.P.PrefixCmt) && (pre[0] == '#' || pre[0] == '^' || g.R.Intn(4) == 0) {
		s += g.CommentText() + "\n"
	} else if g.R.Intn(25) == 0 && pre != "#_" && pre != "#=" {
		s += " "
	}
	f := g.Form(d - 1)
	if pre == "~" && f[0] == '@' && s == "~" {
		f = "x" + f[1:]
		if strings.HasPrefix(f, "x") && len(f) > 1 {
			f = "y"
		}
	}
	return s + f
}

// Forms makes n forms, with discards, metadata and tags sprinkled in.
func (g *G) Forms(n, d int) []string {
	var out []string
	for i := 0; i < n; i++ {
		if g.p(g.P.Discards) {
			out = append(out, g.prefix("#_", d))
		}
		if g.p(g.P.Stacked) {
			out = append(out, g.pick("#_ #_ ", "#_#_", "#_ #_#_ ")+g.Atom(), g.Atom(), g.Atom())
		}
		if g.p(g.P.Meta) {
			out = append(out, g.pick("^", "^", "^", "#^")+g.pick(":private", "String", "{:a 1}", `"tag"`, "{:doc \"x\"\n :b 2}", "bytes"))
		}
		if g.p(g.P.Tags) {
			t := g.pick("#inst", "#uuid", "#js", "#my.ns/rec", "#foo")
			if g.p(g.P.Odd * 5) {
				t = g.pick("# foo", "# _", "# _x", "# =a", "# ?x", "# !b", "#,foo")
			}
			out = append(out, t)
		}
		out = append(out, g.Form(d))
	}
	return out
}

// Form makes one form.
func (g *G) Form(d int) string {
	g.size++
	if d <= 0 || g.size > 4000 {
		return g.Atom()
	}
	switch g.R.Intn(24) {
	case 0, 1, 2, 3, 4, 5:
		return g.Atom()
	case 6:
		return g.vec(g.Forms(g.R.Intn(g.P.Width+1), d-1)...)
	case 7, 8:
		return g.mapForm(d)
	case 9:
		if g.P.NoDispatch {
			return g.Atom()
		}
		return g.Wrap("#{", g.Forms(g.R.Intn(g.P.Width+1), d-1), "}")
	case 10:
		return g.prefix(g.pick("'", "`", "@", "~", "~@", "'", "@"), d)
	case 11:
		if g.p(g.P.Odd) {
			return "~ @" + g.pick("x", "(f x)", "@y")
		}
		return g.prefix(g.pick("'", "`", "~@"), d)
	case 12:
		if g.inFn || g.P.NoDispatch {
			return g.Special(d)
		}
		g.inFn = true
		s := g.Wrap("#(", append([]string{g.head()}, g.Forms(g.R.Intn(g.P.Width+1), d-1)...), ")")
		if g.R.Intn(8) == 0 {
			s = g.Wrap("#(", g.Forms(g.R.Intn(3), d-1), ")")
		}
		g.inFn = false
		return s
	case 13:
		if g.P.NoDispatch {
			return g.Special(d)
		}
		switch g.R.Intn(5) {
		case 0:
			return "#'" + g.pick("foo", "a/b", "x")
		case 1:
			return "#=" + g.pick("(+ 1 2)", "x")
		case 2, 3:
			var parts []string
			for i := g.R.Intn(4); i > 0; i-- {
				parts = append(parts, g.pick(":clj", ":cljs", ":default"), g.Form(d-1))
			}
			return g.pick("#?", "#?@") + g.Wrap("(", parts, ")")
		}
		return g.pick("#:foo", "#::", "#::s", "#:a.b") + g.mapForm(d)
	case 14, 15:
		return g.list(append([]string{g.head()}, g.Forms(g.R.Intn(g.P.Width+1), d-1)...)...)
	case 16:
		return g.list(g.Forms(g.R.Intn(g.P.Width+1), d-1)...)
	default:
		return g.Special(d)
	}
}

func (g *G) mapForm(d int) string {
	var parts []string
	for i := g.R.Intn(g.P.Width + 1); i > 0; i-- {
		k := g.Kw()
		if g.R.Intn(4) == 0 {
			k = g.Form(d - 2)
		}
		parts = append(parts, k, g.Form(d-1))
	}
	if g.R.Intn(15) == 0 {
		parts = append(parts, g.Forms(1, d-1)...)
	}
	return g.Wrap("{", parts, "}")
}

// Heads is every symbol with an indentation rule of its own, and some without.
var Heads = []string{"as->", "assoc", "binding", "bound-fn", "case", "catch", "cond", "cond->", "cond->>", "condp", "def", "definline",
	"definterface", "defmacro", "defmethod", "defmulti", "defn", "defn-", "defonce", "defproject", "defprotocol", "defrecord", "defstruct",
	"deftest", "deftest-", "deftype", "doseq", "dotimes", "doto", "extend", "extend-protocol", "extend-type", "fn", "for", "if", "if-let",
	"if-not", "if-some", "let", "letfn", "locking", "loop", "ns", "proxy", "reify", "send-off", "set-test", "testing", "update", "update-in",
	"when", "when-first", "when-let", "when-not", "when-some", "while", "with-bindings", "with-in-str", "with-local-vars", "with-open",
	"with-precision", "with-redefs", "with-redefs-fn", "with-test",
	"->", "some->", "->>", "with-foo", "when-foo", "defthing", "letthing", "k/defentity", "a/with-x", "foo", "filter", "definitely", "do", "try", "println", "my.ns/let", "x/cond", "and", "comment"}

func (g *G) head() string {
	if g.R.Intn(25) == 0 {
		if s := DictSym(g.R); s != "" && !(s[0] == '%' && g.P.NoDispatch) {
			return s
		}
	}
	if len(g.P.Heads) > 0 && g.R.Intn(3) == 0 {
		return Pick(g.R, g.P.Heads)
	}
	if g.R.Intn(3) == 0 {
		return g.Sym()
	}
	return Pick(g.R, Heads)
}

// few is a number below n, now and then a larger one.
func (g *G) few(n int) int {
	if g.R.Intn(25) == 0 {
		n *= 5
	}
	return g.R.Intn(n)
}

func (g *G) bindings(d int) string {
	var parts []string
	for i := g.few(4); i > 0; i-- {
		parts = append(parts, g.Form(min(d-2, 1)))
		parts = append(parts, g.Forms(1, d-1)...)
	}
	for g.R.Intn(3) == 0 {
		var inner []string
		for i := g.few(3); i > 0; i-- {
			inner = append(inner, g.Sym(), g.Form(d-2))
		}
		parts = append(parts, ":let", g.vec(inner...))
		if g.R.Intn(4) == 0 {
			parts = append(parts, g.Forms(1+g.R.Intn(2), d-2)...)
		}
	}
	if g.R.Intn(6) == 0 {
		parts = append(parts, g.pick(":when", ":while"), g.Form(d-2))
	}
	return g.vec(parts...)
}

func (g *G) fnBody(d int) []string {
	parts := append([]string{g.vec(g.Forms(g.R.Intn(3), 0)...)}, g.Forms(g.R.Intn(3), d-1)...)
	if g.p(g.P.Meta * 2) {
		parts[0] = g.pick("^long", "^String", "^{:a 1}", "^:x", "#t") + g.pick(" ", " ", "\n") + parts[0]
	}
	return parts
}

func (g *G) pairs(d int) []string {
	var parts []string
	for i := g.few(4); i > 0; i-- {
		parts = append(parts, g.Form(d-2))
		if g.R.Intn(5) == 0 {
			parts = append(parts, ":>>")
		}
		parts = append(parts, g.Form(d-1))
	}
	if g.R.Intn(4) == 0 {
		parts = append(parts, g.Atom())
	}
	return parts
}

// Special makes a list shaped for its head.
func (g *G) Special(d int) string {
	one := func(s string) []string { return []string{s} }
	cat := func(xs ...[]string) []string {
		var out []string
		for _, x := range xs {
			out = append(out, x...)
		}
		return out
	}
	switch g.R.Intn(15) {
	case 0:
		return g.list(cat(one(g.pick("let", "loop", "when-let", "if-let", "binding", "dotimes", "with-open", "if-some", "with-redefs")), one(g.bindings(d)), g.Forms(g.R.Intn(3), d-1))...)
	case 1:
		return g.list(cat(one(g.pick("for", "doseq")), one(g.bindings(d)), g.Forms(g.R.Intn(3), d-1))...)
	case 2:
		return g.list(cat(one(g.pick("if", "if-not", "if-some", "if-let")), g.Forms(2+g.R.Intn(2), d-1))...)
	case 3:
		return g.list(cat(one("cond"), g.pairs(d))...)
	case 4:
		return g.list(cat(one(g.pick("case", "cond->", "cond->>", "assoc")), g.Forms(1, 1), g.pairs(d))...)
	case 5:
		return g.list(cat(one(g.pick("condp", "defproject")), g.Forms(2, 1), g.pairs(d))...)
	case 6:
		var th []string
		for i := 1 + g.few(4); i > 0; i-- {
			switch g.R.Intn(4) {
			case 0:
				th = append(th, g.Sym())
			case 1:
				th = append(th, g.list(cat(one(g.pick("assoc", "case", "condp", "cond->", "->", "cond", "some->")), g.pairs(d-1))...))
			default:
				th = append(th, g.list(cat(one(g.head()), g.Forms(g.R.Intn(4), d-2))...))
			}
		}
		return g.list(cat(one(g.pick("->", "some->", "->", "cond->", "->>", "-?>")), g.Forms(1, 1), th)...)
	case 7:
		return g.Defn(d)
	case 8:
		return g.list(cat(one("defmethod"), one(g.Sym()), one(g.pick(g.Kw(), g.Kw(), g.Form(1))), g.fnBody(d))...)
	case 9:
		var fns []string
		for i := g.few(3); i > 0; i-- {
			fns = append(fns, g.list(cat(one(g.Sym()), g.fnBody(d-1))...))
		}
		return g.list(cat(one("letfn"), one(g.vec(fns...)), g.Forms(g.R.Intn(2), d-1))...)
	case 10:
		parts := one(g.pick("defrecord", "deftype", "reify", "extend-type", "defprotocol", "proxy", "definterface", "extend-protocol"))
		parts = append(parts, g.Sym())
		for i := g.few(4); i > 0; i-- {
			parts = append(parts, g.list(cat(one(g.Sym()), g.fnBody(d-1))...))
		}
		return g.list(parts...)
	case 11:
		return g.list(cat(one(g.pick("def", "defonce", "defmulti", "def")), one(g.Sym()), one(g.pick(g.Doc(), g.Form(1))), g.Forms(g.R.Intn(2), d-1))...)
	case 12:
		return g.list(cat(one(g.pick("try", "catch", "when", "while", "testing", "doto", "comment")), g.Forms(g.R.Intn(4), d-1))...)
	case 13:
		return g.list(cat(one("fn"), g.fnBody(d))...)
	default:
		return g.list(cat(one(g.head()), g.Forms(g.R.Intn(g.P.Width+1), d-1))...)
	}
}

// Defn makes a function definition.
func (g *G) Defn(d int) string {
	parts := []string{g.pick("defn", "defn", "defn", "defn-", "defmacro"), g.Sym()}
	if g.R.Intn(3) == 0 {
		parts = append(parts, g.Doc())
	}
	if g.R.Intn(6) == 0 {
		parts = append(parts, "{:added \"1.0\"}")
	}
	if g.R.Intn(5) == 0 {
		for i := 1 + g.R.Intn(2); i > 0; i-- {
			parts = append(parts, g.list(g.fnBody(d-1)...))
		}
	} else {
		parts = append(parts, g.fnBody(d)...)
	}
	return g.list(parts...)
}

// Top makes one top-level form.
func (g *G) Top() string {
	switch g.R.Intn(5) {
	case 0:
		return g.Defn(g.P.MaxDepth)
	case 1, 2:
		return g.Special(g.P.MaxDepth)
	}
	return g.Form(g.P.MaxDepth)
}

// Program makes a whole source text.
func (g *G) Program() string {
	var b strings.Builder
	if g.R.Intn(6) == 0 {
		b.WriteString(g.Sep())
	}
	n := 1 + g.R.Intn(5)
	first := true
	sep := func() {
		if first {
			first = false
			return
		}
		if g.R.Intn(10) == 0 {
			b.WriteString(g.Sep())
			return
		}
		b.WriteString(g.newlines())
		if g.R.Intn(3) == 0 {
			b.WriteString(g.nl())
		}
		if g.p(g.P.Comments * 2) {
			b.WriteString(g.CommentText() + g.cmtEnd())
		}
	}
	if g.p(g.P.NS) {
		sep()
		if g.R.Intn(6) == 0 {
			b.WriteString(g.OddNS())
		} else {
			b.WriteString(g.NS(DefaultNS(g.R)))
		}
	}
	for i := 0; i < n; i++ {
		for _, f := range g.Forms(1, g.P.MaxDepth)[:1] {
			sep()
			if g.R.Intn(2) == 0 {
				f = g.Top()
			}
			// a trailing metadata/tag/discard marker without its form would change what
			// the next form means; give it one
			b.WriteString(f)
		}
	}
	switch g.R.Intn(5) {
	case 0:
	case 1:
		b.WriteString(g.nl() + g.CommentText())
	case 2:
		b.WriteString(" " + g.CommentText() + g.nl())
	default:
		b.WriteString(g.newlines())
	}
	return b.String()
}
