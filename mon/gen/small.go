package gen

import (
	"math/rand"
	"strings"

	"goclj.verif/mon/ref"
)

// childForms are the one-token and one-form spellings small forms are made of.
var childForms = []string{"x", "y", "foo", "a/b", ":k", ":>>", ":else", ":let", ":when", "::k", "1", "-2", `"s"`, `"two\nlines"`, "\"raw\n  line\"", `"doc \"q\""`, `\a`, `#"re"`, "nil", "true",
	"[]", "[x]", "[x y]", "[x 1]", "[x 1 y 2]", "[a\nb]", "[x (f\ny)\nz 2]", "([x] y)", "([x]\ny)", "()", "(f)", "(f x)", "(f\nx)", "(f x\ny)", "(foo x\n y\nz)", "{}", "{:a 1}", "{:a\n1}", "{:a 1\n:b 2}", "#{}", "#{a\nb}",
	"'x", "'(a\nb)", "`x", "~x", "~@x", "@x", "#'x", "#(f %)", "#(f\n%)", "#?(:clj x)", "#?(:clj\nx)", "#?@(:clj [x\ny])", "#:a{:b 1}", "#_x", "#_(x\ny)", "#_ #_ x y", "#=(f)",
	"^long [x]", "^:m x", "^{:a 1} x", "^String x", "^{:a\n1}\nx", "^x (f\ny)", "#tag x", "#tag [x\ny]", "#inst \"2020\"", "(case x\n1 2)", "(cond\na b)", "(let [x 1\ny 2]\nz)", "(-> x\nf)", "(if x\ny\nz)", "(comment x)", "(fn [x]\ny)", "(a b\nc)"}

var childSeps = []string{" ", " ", " ", " ", "\n", "\n", "\n\n", "\n\n\n", " ; c\n", "\n; c\n", " ; c\n\n", "\n\n; c\n\n; d\n", ", ", "  ", "\n#_z "}

// SmallHeads are heads that some rule of the formatter is about.
var SmallHeads = append([]string{"defn", "defn", "defn-", "defmethod", "defmethod", "defmulti", "defmacro", "def", "def", "defonce", "defprotocol", "if", "if", "if-not", "if-let", "let", "for", "doseq", "cond", "case", "condp", "cond->", "->", "some->", "letfn", "comment"}, Heads...)

// SmallForm is a flat form: a head and children of every kind, in every
// spacing, whether or not they make sense.
func (g *G) SmallForm() string {
	var b strings.Builder
	open, close := "(", ")"
	switch g.R.Intn(16) {
	case 0:
		open, close = "[", "]"
	case 1:
		open, close = "{", "}"
	case 2:
		open = "#("
	case 3:
		open, close = "#{", "}"
	case 4:
		open = "'("
	case 5:
		open = g.pick("^:m (", "#t (", "#_(", "`(", "#?(", "@(", "#:a{", "^{:a (", "#_ ^x (")
		if open == "#:a{" {
			close = "}"
		} else if open == "^{:a (" {
			close = ")} x"
		}
	}
	b.WriteString(open)
	if g.R.Intn(10) == 0 {
		b.WriteString(strings.TrimLeft(Pick(g.R, childSeps), " ,"))
	}
	n := g.R.Intn(7)
	if g.R.Intn(50) == 0 {
		n = 10 + g.R.Intn(120)
	}
	if strings.HasPrefix(open, "(") || g.R.Intn(2) == 0 {
		h := Pick(g.R, SmallHeads)
		if g.R.Intn(8) == 0 {
			if s := DictSym(g.R); s != "" {
				h = s
			}
		}
		b.WriteString(h)
		if n > 0 {
			b.WriteString(Pick(g.R, childSeps))
		}
		// the usual first arguments, most of the time
		switch {
		case h == "for" || strings.HasPrefix(h, "def") || strings.HasPrefix(h, "set-test"):
			if g.R.Intn(3) > 0 {
				b.WriteString(g.pick("f", "f", "^:private f", "^{:doc \"x\"} f", "f", "(f x)") + Pick(g.R, childSeps))
			}
			if g.R.Intn(4) == 0 {
				b.WriteString(g.Doc() + Pick(g.R, childSeps))
			}
		case h == "let" || h == "doseq" || strings.HasPrefix(h, "with-") || strings.HasSuffix(h, "-let"):
			if g.R.Intn(3) > 0 {
				b.WriteString(g.pick("[x 1]", "[x 1\ny 2]", "[x\n1]", "[x (f\na) :let [y\n2\nz 3]]", "[x y\nz w\n:let [a\nb]\n:when c\nd e :let [f\ng\nh i]]", "[x y :let [a b] :let [c\nd] :let\n[e\nf]]", "[x :let [a\nb] y z]", "[[a\nb] c\n:when d]", "[]", "[x ; c\n1]") + Pick(g.R, childSeps))
			}
		}
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(Pick(g.R, childSeps))
		}
		switch g.R.Intn(40) {
		case 0:
			if s := DictSym(g.R); s != "" {
				b.WriteString(s)
				continue
			}
		case 1:
			b.WriteString(OddSym(g.R))
			continue
		case 2:
			b.WriteString(g.Atom())
			continue
		case 3:
			b.WriteString(g.Form(2))
			continue
		}
		b.WriteString(Pick(g.R, childForms))
	}
	if g.R.Intn(7) == 0 {
		b.WriteString(Pick(g.R, childSeps))
	}
	b.WriteString(close)
	return b.String()
}

// Small is a text of many small forms. Each is checked to be well formed.
func (g *G) Small() string {
	var b strings.Builder
	for n := 1 + g.R.Intn(12); n > 0; n-- {
		f := g.SmallForm()
		switch g.R.Intn(12) {
		case 0:
			f = g.pick("(let [a 1]\n", "(do\n", "(f ", "[", "{:a ", "(-> x\n", "(cond-> x\nt ", "(some-> ", "(for [x y]\n", "(x y\n") + f
			for i := len(f) - 1; i >= 0; i-- {
				if c := strings.IndexByte("([{", f[i]); c >= 0 && i < 11 {
					f += ")]}"[c : c+1]
					break
				}
			}
		}
		if _, err := ref.Read(f); err != nil {
			continue
		}
		b.WriteString(f)
		b.WriteString(g.pick("\n", "\n", "\n\n", "\n\n\n", " ", " ; c\n", "\n\n; c\n", "\n;; c\n;; d\n\n"))
	}
	return b.String()
}

// OddAtoms is a text of unusual spellings, each well formed by itself.
func (g *G) OddAtoms() string {
	var b strings.Builder
	for n := 1 + g.R.Intn(20); n > 0; n-- {
		var s string
		switch g.R.Intn(10) {
		case 0, 1, 2:
			s = OddSym(g.R)
		case 3:
			s = ":" + g.pick("", ":") + oddWord(g.R)
		case 4:
			s = OddNum(g.R)
		case 5, 6:
			s = OddChar(g.R)
		case 7:
			if s = DictSym(g.R); s == "" {
				s = "x"
			}
		case 8:
			s = g.pick("#'", "#", "^", "'", "`", "~", "@", "#_", "#:", "#::", "#=", "#?", "#^") + OddSym(g.R) + g.pick("", " x", "{:a 1}", "{}", " [x]")
		default:
			s = g.pick(`"`, `#"`) + strings.ReplaceAll(strings.ReplaceAll(DictStr(g.R), `\`, `\\`), `"`, `\"`) + `"`
		}
		if _, err := ref.Read(s); err != nil {
			continue
		}
		switch g.R.Intn(8) {
		case 0:
			s = "(" + s + " a\nb)"
		case 1:
			s = "[" + s + "]"
		case 2:
			s = "{" + s + " " + s + "}"
		}
		if _, err := ref.Read(s); err != nil {
			continue
		}
		b.WriteString(s)
		b.WriteString(g.pick(" ", " ", "\n", "\n\n", ",", " ; c\n"))
	}
	return b.String()
}

// Near makes two forms touch without a separator in all ways that are legal.
func (g *G) Near() string {
	var b strings.Builder
	for n := 2 + g.R.Intn(6); n > 0; n-- {
		b.WriteString(g.pick("a", "1", ":k", `"s"`, `\a`, `#"r"`, "(f)", "[x]", "{}", "#{}", "'x", "@x", "^a b", "#_x", "#(f)", "#'x", "~x", "`x", "nil", ";c\n", "\n", ",", "#t x", "#?(:a b)", "%", "'", "#", `\\`, `\space`))
	}
	return b.String()
}

// OddText is a few unusual spellings, well formed or not.
func OddText(r *rand.Rand) string {
	var b strings.Builder
	for n := 1 + r.Intn(3); n > 0; n-- {
		switch r.Intn(8) {
		case 0, 1:
			b.WriteString(oddWord(r))
		case 2:
			b.WriteString(Pick(r, []string{":", "::", ":", "#", "#'", "^", "#:", "#::", "#_", "\\", "#?", "@", "~"}) + oddWord(r))
		case 3, 4:
			b.WriteString(OddNum(r))
		case 5, 6:
			s := OddChar(r)
			if r.Intn(3) == 0 { // change, add or drop one character
				switch i := 1 + r.Intn(len(s)-1); r.Intn(3) {
				case 0:
					s = s[:i] + string(oddChars[r.Intn(len(oddChars))]) + s[i+1:]
				case 1:
					s = s[:i] + string("0123456789abcdefgxuo78"[r.Intn(22)]) + s[i:]
				default:
					s = s[:i] + s[i+1:]
				}
			}
			b.WriteString(s)
		default:
			b.WriteString(`"` + DictStr(r) + Pick(r, []string{`"`, `"`, ``}))
		}
		b.WriteString(Pick(r, []string{"", " ", "\n", ")", "]", "\"", "x", " y"}))
	}
	return b.String()
}
