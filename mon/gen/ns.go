package gen

import (
	"fmt"
	"math/rand"
	"strings"
)

// NSOpts says which ns features may be generated.
type NSOpts struct {
	Docstring, Attr   bool
	Use               bool
	Macros            bool
	Vectors, Symbols  bool // [:require ...], (require ...)
	PrefixLists       bool
	Flags             bool // :reload, :verbose
	ReaderConds       bool
	Discards          bool
	MultiClause       bool
	DupNames          bool
	ExtraOpts         bool // :rename, :as-alias, :include-macros
	MetaInside        bool // ^meta or #_ #_ inside clauses
	Namespaces        []string
	Aliases, Referred []string
	MaxLibs           int
	Pairs             bool // only simple [x :as y :refer [z]] specs
}

// DefaultNS is a random selection of features.
func DefaultNS(r *rand.Rand) NSOpts {
	b := func() bool { return r.Intn(3) > 0 }
	return NSOpts{Docstring: b(), Attr: r.Intn(4) == 0, Use: b(), Macros: b(), Vectors: b(), Symbols: b(), PrefixLists: b(), Flags: r.Intn(4) == 0,
		ReaderConds: r.Intn(4) == 0, Discards: r.Intn(4) == 0, MultiClause: b(), DupNames: r.Intn(3) == 0, ExtraOpts: b(), MaxLibs: 1 + r.Intn(8)}
}

var libPool = []string{"a", "b", "c", "foo.bar", "foo.baz", "clojure.string", "clojure.set", "my.ns", "org.lib1", "org.lib3", "z", "foo-bar.x-y", "A", "zeta.core", "foo", "foo.bar.baz", "clojure.core.async", "é.λ"}
var aliasPool = []string{"s", "str", "set", "a", "lib", "x", "q", "foo", "l1", "w"}
var referPool = []string{"f", "g", "h", "join", "blank?", "mycond", "select", "->x", "*y*", "union", "mymacro"}
var classPool = []string{"java.util.Date", "java.io.File", "java.util.zip.GZIPInputStream", "foo_bar.x_y.Z", "Date", "java.util.Map$Entry"}

func (g *G) libName(o *NSOpts) string {
	if len(o.Namespaces) > 0 {
		return Pick(g.R, o.Namespaces)
	}
	if g.R.Intn(10) == 0 {
		return fmt.Sprintf("lib%d.core", g.R.Intn(50))
	}
	return Pick(g.R, libPool)
}

func (g *G) alias(o *NSOpts) string {
	if len(o.Aliases) > 0 {
		return Pick(g.R, o.Aliases)
	}
	return Pick(g.R, aliasPool)
}

func (g *G) refer(o *NSOpts) string {
	if len(o.Referred) > 0 {
		return Pick(g.R, o.Referred)
	}
	return Pick(g.R, referPool)
}

func (g *G) seqOf(o *NSOpts, parts []string) string {
	if g.R.Intn(3) == 0 {
		return g.list(parts...)
	}
	return g.vec(parts...)
}

func (g *G) referList(o *NSOpts) string {
	var parts []string
	for i := g.R.Intn(4); i > 0; i-- {
		parts = append(parts, g.refer(o))
	}
	return g.seqOf(o, parts)
}

// libSpecOpts makes ":as x :refer [y]".
func (g *G) libSpecOpts(o *NSOpts) []string {
	var parts []string
	if g.R.Intn(3) > 0 {
		parts = append(parts, ":as", g.alias(o))
	}
	if g.R.Intn(3) == 0 {
		if g.R.Intn(5) == 0 {
			parts = append(parts, ":refer", ":all")
		} else {
			parts = append(parts, ":refer", g.referList(o))
		}
	}
	if o.Macros && g.R.Intn(6) == 0 {
		parts = append(parts, ":refer-macros", g.referList(o))
	}
	if o.ExtraOpts && g.R.Intn(8) == 0 {
		parts = append(parts, g.pick(":rename {f f2}", ":as-alias zz", ":include-macros true", ":exclude [q]"))
	}
	if len(parts) > 2 && g.R.Intn(4) == 0 && !o.ExtraOpts {
		parts = append(parts[2:], parts[:2]...)
	}
	return parts
}

func (g *G) RequireSpec(o *NSOpts) string {
	lib := g.libName(o)
	switch g.R.Intn(10) {
	case 0:
		return lib
	case 1:
		return g.vec(lib)
	case 2:
		if o.PrefixLists {
			// prefix list: (clojure string [set :as s])
			parts := []string{g.pick("clojure", "org.foo", "my")}
			for i := 1 + g.R.Intn(3); i > 0; i-- {
				if g.R.Intn(2) == 0 {
					parts = append(parts, g.pick("string", "set", "walk", "lib2"))
				} else {
					parts = append(parts, g.vec(append([]string{g.pick("string", "set", "walk")}, ":as", g.alias(o))...))
				}
			}
			return g.seqOf(o, parts)
		}
	case 3:
		if o.Flags {
			return g.pick(":reload", ":verbose", ":reload-all")
		}
	case 4:
		if o.ReaderConds {
			return "#?" + g.Wrap("(", []string{":clj", g.vec(append([]string{lib}, g.libSpecOpts(o)...)...)}, ")")
		}
	case 5:
		if o.Discards {
			return "#_" + g.vec(append([]string{lib}, g.libSpecOpts(o)...)...)
		}
	}
	parts := append([]string{lib}, g.libSpecOpts(o)...)
	if len(parts) > 1 && g.R.Intn(4) == 0 {
		return g.list(parts...)
	}
	return g.vec(parts...)
}

func (g *G) UseSpec(o *NSOpts) string {
	lib := g.libName(o)
	switch g.R.Intn(7) {
	case 0, 1:
		return lib
	case 2:
		return g.vec(lib)
	case 3:
		return g.vec(lib, ":exclude", g.vec(g.refer(o)))
	case 4:
		return g.list("clojure", "set", g.vec("string", ":only", g.vec("join")))
	}
	return g.seqOf(o, []string{lib, ":only", g.referList(o)})
}

func (g *G) ImportSpec(o *NSOpts) string {
	c := Pick(g.R, classPool)
	switch g.R.Intn(5) {
	case 0, 1:
		return c
	}
	pkg := g.pick("java.util", "java.io", "foo_bar2.x_y", "java.util.zip", "javax.swing")
	parts := []string{pkg}
	for i := g.R.Intn(4); i > 0; i-- {
		parts = append(parts, g.pick("Date", "File", "Map", "A", "B", "Map$Entry"))
	}
	return g.seqOf(o, parts)
}

func (g *G) clause(o *NSOpts, name string, parts []string) string {
	head := ":" + name
	if o.Symbols && g.R.Intn(6) == 0 {
		head = name
	}
	if o.MetaInside && len(parts) > 0 && g.R.Intn(3) == 0 {
		i := g.R.Intn(len(parts))
		parts[i] = g.pick("^:m ", "^{:a b} ", "#tag ", "#_#_ [q] ", "#_#_[q :as s]\n", "#_ ^:x ", "^:a ^:b ") + parts[i]
	}
	parts = append([]string{head}, parts...)
	if o.Vectors && g.R.Intn(6) == 0 {
		return g.vec(parts...)
	}
	return g.list(parts...)
}

// NS makes an ns form.
func (g *G) NS(o NSOpts) string {
	if g.R.Intn(3) > 0 && g.P.NL < 0.5 {
		nl := g.P.NL
		g.P.NL = 0.6
		defer func() { g.P.NL = nl }()
	}
	parts := []string{"ns", g.pick("my.app", "a.b", "x")}
	if o.Docstring && g.R.Intn(3) == 0 {
		parts = append(parts, g.Doc())
	}
	if o.Attr {
		parts = append(parts, "{:author \"x\"}")
	}
	n := 1
	if o.MultiClause {
		n = g.R.Intn(5)
	}
	for i := 0; i < n; i++ {
		var specs []string
		k := g.R.Intn(o.MaxLibs + 1)
		switch g.R.Intn(9) {
		case 0, 1, 2, 3:
			for ; k > 0; k-- {
				specs = append(specs, g.RequireSpec(&o))
			}
			parts = append(parts, g.clause(&o, "require", specs))
		case 4, 5:
			for ; k > 0; k-- {
				specs = append(specs, g.ImportSpec(&o))
			}
			parts = append(parts, g.clause(&o, "import", specs))
		case 6:
			if !o.Use {
				continue
			}
			for ; k > 0; k-- {
				specs = append(specs, g.UseSpec(&o))
			}
			parts = append(parts, g.clause(&o, "use", specs))
		case 7:
			if !o.Macros {
				continue
			}
			for ; k > 0; k-- {
				specs = append(specs, g.RequireSpec(&o))
			}
			parts = append(parts, g.clause(&o, "require-macros", specs))
		case 8:
			switch g.R.Intn(4) {
			case 0:
				parts = append(parts, g.clause(&o, "refer-clojure", []string{":exclude", g.seqOf(&o, []string{"map", "get"})}))
			case 1:
				parts = append(parts, g.clause(&o, "gen-class", []string{":name", "foo.Bar", ":main", "false"}))
			case 2:
				parts = append(parts, g.clause(&o, "load", []string{`"x"`, `"y"`}))
			case 3:
				if o.ReaderConds {
					parts = append(parts, "#?(:clj (:import (java.util Date)))")
				} else if o.Discards {
					parts = append(parts, "#_(:require [zz :as z])")
				} else {
					parts = append(parts, "(:unknown [a b])")
				}
			}
		}
	}
	return g.list(parts...)
}

// Mutate edits a text token-wise: the result is usually, but not always, well
// formed.
func Mutate(r *rand.Rand, toks []string, extra []string) string {
	out := append([]string(nil), toks...)
	for n := 1 + r.Intn(4); n > 0 && len(out) > 0; n-- {
		i := r.Intn(len(out))
		switch r.Intn(6) {
		case 0:
			out = append(out[:i], out[i+1:]...)
		case 1:
			out = append(out[:i], append([]string{Pick(r, extra)}, out[i:]...)...)
		case 2:
			out[i] = Pick(r, extra)
		case 3:
			j := r.Intn(len(out))
			out[i], out[j] = out[j], out[i]
		case 4:
			out = append(out[:i], append([]string{out[i]}, out[i:]...)...)
		case 5:
			out[i] = "\n"
		}
	}
	return strings.Join(out, " ")
}

// Use makes code that uses some of the names an ns form may declare.
func (g *G) Use(o NSOpts) string {
	var parts []string
	for i := 1 + g.R.Intn(5); i > 0; i-- {
		a := g.alias(&o)
		if g.R.Intn(4) == 0 {
			a = g.libName(&o)
		}
		var s string
		switch g.R.Intn(14) {
		case 0, 1, 2:
			s = a + "/" + g.pick("f", "go!", "/", "x", "select", "x/y")
		case 3, 4, 5:
			s = g.refer(&o)
		case 6:
			s = "::" + a + "/k"
		case 7:
			s = "#::" + a + g.Wrap("{", []string{":k", "1"}, "}")
		case 8:
			s = "#'" + a + "/v"
		case 9:
			s = "#'" + g.refer(&o)
		case 10:
			s = g.pick(":", ":x/", "\"", "\\", "#_") + a // not a use: keyword, string, char (or discarded symbol)
			if s[0] == '"' {
				s = "\"" + a + "/f " + g.refer(&o) + "\""
			} else if s[0] == '\\' {
				s = "\\a"
			}
		case 11:
			s = "^" + g.pick(a+"/T", "{:k "+a+"/v}", g.refer(&o)) + " " + g.Sym()
		case 12:
			s = g.list("fn", "[x]", g.list(a+"/f", "'"+g.refer(&o), "`"+a+"/g", "~@"+a+"/h"))
		default:
			s = a
		}
		parts = append(parts, s)
	}
	head := g.pick("def x", "do", "defn f []", "comment")
	if g.R.Intn(6) == 0 {
		head = g.pick("in-ns", "require", "import", "use", "alias 'q", "refer", "ns-unmap", "require-macros", "if", "cond", "-> x", "case 1")
		if s := DictSym(g.R); s != "" && s != "ns" && g.R.Intn(2) == 0 {
			head = s
		}
	}
	return g.Wrap("(", append([]string{head}, parts...), ")")
}
