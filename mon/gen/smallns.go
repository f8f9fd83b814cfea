package gen

import (
	"strings"

	"goclj.verif/mon/ref"
)

var oddSpecs = []string{"x", "x.y", ".Foo", "Foo.", "java.util.Date.", ".x.y", "a..b", "a.b..C", "x/y", "/", "A$B", "[]", "()", "{}", "#{}", "[[]]", "[x]", "(x)", "[:x]", "(:x y)", `["s" :as z]`, `"s"`, "[x :as]", "[x :as y :as z]",
	"[x y]", "[x y z]", "[x [y :as z]]", "(x [y :refer [z]] w)", "(x (y z))", "[x :refer]", "[x :refer []]", "[x :refer ()]", "[x :refer :all]", "[x :refer y]", "[x :refer [y/z]]", "[x :refer [:y]]", `[x :refer ["y"]]`, "[x :refer [y y]]",
	"[x :refer #{y}]", "[x :only [y]]", "[x :exclude [y]]", "[x :as y :refer [z]]", "[x :refer [z] :as y]", "[x :as nil]", "[nil]", "nil", "true", "[true :as x]", "1", "[1]", `\a`, ":reload", ":verbose", ":as", "'x", "'[x :as y]", "`x", "~x", "@x",
	"#_x", "#_[x :as y]", "^:m x", "^:m [x :as y]", "[^:m x :as y]", "[x ^:m :as y]", "[x :as ^:m y]", "[x :refer [^:m y z]]", "[x :refer ^:m [y z]]", "#t x", "#t [x :as y]", "#?(:clj [x :as y])", "#?@(:clj [[x :as y]])", "[#?(:clj x) :as y]",
	"[x #_:as #_y]", "[x :refer [#_y z]]", "[#_w x :as y]", "#:a{:b 1}", "#(x)", "#'x", "#=x", "[x\n:as y]", "[x :as y ; c\n]", "[x ; c\n:as y]", "[; c\nx :as y]", "[x :refer [y ; c\nz]]", "[x :refer [y\nz]]", "[\nx]", "[x\n]", "(x\ny\nz)", "(x ; c\ny)", "(; c\nx y)",
	"[x :macros [y]]", "[x :include-macros true]", "[x :refer-macros [y]]", "[x :rename {y z}]", "[x :as-alias y]", "[x :as y :foo z]", "[x :as y z]", "[x {:as y}]", "(java.util Date)", "(java.util Date Map)", "(java.util\nDate)", "(java.util)", "[java.util Date]",
	"(java.util Date ; c\nMap)", "java.util.Date", "Date", "(java.util [Date])", "(x.y A.B)", "foo-bar.B_c", "(foo-bar.x_y B-c)", "(a.b.c .D)", "a.b._C", "a.b.$C", "a.b.é", "a.-B", "a.b.1C", "é.Ü", "(é Ü)", "[é :as ü]", "%", "+", "-.x", "a.b/c", "[a.b/c :as d]", "x#", "[x# :as y]", "[% :as y]"}

var oddClauses = []string{"require", "require", "import", "import", "use", "use", "require-macros", "use-macros", "refer-clojure", "gen-class", "load", "refer", "foo", "as", "requires", "imports"}

// OddNS is an ns form whose clauses hold items of every kind, sensible or not.
func (g *G) OddNS() string {
	var b strings.Builder
	b.WriteString("(ns")
	b.WriteString(g.pick(" ", " ", " ", "\n", " ; c\n"))
	b.WriteString(g.pick("x", "x", "x", "x.y", "^:m x", "^{:doc \"x\"\n:a b} x", "#_y x", "", ":x", `"x"`, "[x]", "nil", "x.y-z", "(x)", "#t x"))
	if g.R.Intn(4) == 0 {
		b.WriteString(g.pick(" ", "\n", "\n\n") + g.pick(g.Doc(), "{:a 1}", g.Doc()+"\n{:a\n1}", "y", "nil", ":k", "#_(:require z)", "^:m (:require b a)", "#t (:require b a)", "#?(:clj (:require b a))"))
	}
	for n := g.R.Intn(4); n >= 0; n-- {
		b.WriteString(g.pick(" ", "\n", "\n", "\n\n", " ; c\n", "\n; c\n"))
		name := Pick(g.R, oddClauses)
		if g.R.Intn(8) == 0 {
			if s := DictSym(g.R); s != "" {
				name = s
			}
		}
		head := ":" + name
		switch g.R.Intn(12) {
		case 0:
			head = name
		case 1:
			head = "::" + name
		case 2:
			head = g.pick(`"`+name+`"`, "^:m :"+name, "#_x :"+name, "(:"+name+")", "'"+name, "x :"+name, "\n:"+name, "; c\n:"+name, "#t :"+name)
		}
		open, close := "(", ")"
		switch g.R.Intn(12) {
		case 0:
			open, close = "[", "]"
		case 1:
			open = g.pick("^:m (", "#_(", "#t (", "'(", "#(", "#?(", "#{")
			if open == "#{" {
				close = "}"
			}
		}
		var cl strings.Builder
		cl.WriteString(open + head)
		for k := g.R.Intn(5); k > 0; k-- {
			cl.WriteString(g.pick(" ", " ", "\n", "\n", "\n\n", " ; c\n", "\n; c\n", "\n; c\n; d\n;e\n", "  ", ", "))
			switch g.R.Intn(12) {
			case 0:
				cl.WriteString(OddSym(g.R))
			case 1:
				if s := DictSym(g.R); s != "" {
					cl.WriteString(g.pick(s, "["+s+" :as y]", "[x :as "+s+"]", "[x :refer ["+s+"]]", "("+s+" x)", "(x "+s+")", "[x :"+s+" y]", "[x :"+s+" [y]]"))
				}
			default:
				cl.WriteString(Pick(g.R, oddSpecs))
			}
		}
		cl.WriteString(g.pick("", "", "", "\n", " ; c\n") + close)
		if _, err := ref.Read(cl.String()); err == nil {
			b.WriteString(cl.String())
		}
	}
	b.WriteString(g.pick("", "", "", "\n", " ; c\n") + ")")
	return b.String()
}
