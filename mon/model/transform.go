package model

import (
	"sort"
	"strings"
	"unicode"

	"goclj.verif/mon/ref"
)

func newline() *ref.Node { return &ref.Node{Kind: ref.NNewline, Text: "\n"} }

// Canon rewrites the reader's tree into the tree a formatter works on: nothing
// between a prefix and its form, and a line end after every comment. It drops
// the comments after quotes, so it must not be used for texts that have any.
func Canon(roots []*ref.Node) []*ref.Node {
	return canonSeq(roots, true)
}

func canonSeq(ns []*ref.Node, root bool) []*ref.Node {
	var out []*ref.Node
	for i, n := range ns {
		out = append(out, n)
		if n.Kind == ref.NPrefix {
			n.Skip = nil
			n.Kids = canonSeq(n.Kids, true)
		} else if n.IsColl() {
			n.Kids = canonSeq(n.Kids, false)
		}
		if n.Kind == ref.NComment {
			last := i == len(ns)-1
			if last && !root || !last && ns[i+1].Kind != ref.NNewline {
				out = append(out, newline())
			}
		}
	}
	return out
}

func isNL(n *ref.Node) bool { return n.Kind == ref.NNewline }

func headIs(n *ref.Node, names ...string) bool {
	if n.Kind != ref.NList || len(n.Kids) == 0 || n.Kids[0].Kind != ref.NSym {
		return false
	}
	for _, s := range names {
		if n.Kids[0].Text == s {
			return true
		}
	}
	return false
}

// Layout applies the enabled layout transforms (by command-line name).
func Layout(roots []*ref.Node, on func(string) bool) []*ref.Node {
	for _, r := range roots {
		if on("remove-trailing-newlines") {
			trailing(r)
		}
		if on("fix-defn-arglist-newline") {
			defn(r)
		}
		if on("fix-defmethod-dispatch-val-newline") {
			defmethod(r)
		}
		if on("remove-extra-blank-lines") {
			walk(r, func(n *ref.Node) { n.Kids = blankLines(n.Kids) })
		}
		if on("fix-if-newline-consistency") {
			walk(r, ifArms)
		}
	}
	if on("remove-extra-blank-lines") {
		roots = blankLines(roots)
	}
	return roots
}

func walk(n *ref.Node, f func(*ref.Node)) {
	f(n)
	for _, k := range n.Kids {
		walk(k, f)
	}
}

// trailing removes the line ends before a closing delimiter, except one which
// ends a comment.
func trailing(n *ref.Node) {
	walk(n, func(n *ref.Node) {
		switch n.Kind {
		case ref.NList, ref.NMap, ref.NVector, ref.NFn, ref.NSet:
		default:
			return
		}
		end := len(n.Kids)
		for end > 0 && isNL(n.Kids[end-1]) {
			end--
		}
		if end < len(n.Kids) && end > 0 && n.Kids[end-1].Kind == ref.NComment {
			end++
		}
		n.Kids = n.Kids[:end]
	})
}

// blankLines leaves at most one blank line in a row.
func blankLines(ns []*ref.Node) []*ref.Node {
	var out []*ref.Node
	for _, n := range ns {
		if k := len(out); isNL(n) && k >= 2 && isNL(out[k-1]) && isNL(out[k-2]) {
			continue
		}
		out = append(out, n)
	}
	return out
}

// defn: (defn name NL [args] x ...) becomes (defn name [args] NL x ...).
func defn(n *ref.Node) {
	if !headIs(n, "defn") || len(n.Kids) < 5 {
		return
	}
	k := n.Kids
	if k[1].Kind != ref.NComment && !isNL(k[1]) && isNL(k[2]) && k[3].Kind == ref.NVector && !isNL(k[4]) {
		k[2], k[3] = k[3], k[2]
	}
}

// defmethod: (defmethod name NL :val ...) becomes (defmethod name :val NL ...).
func defmethod(n *ref.Node) {
	if !headIs(n, "defmethod") || len(n.Kids) < 4 {
		return
	}
	k := n.Kids
	if k[1].Kind == ref.NComment || isNL(k[1]) || !isNL(k[2]) || k[3].Kind != ref.NKw {
		return
	}
	if len(k) == 4 || isNL(k[4]) {
		n.Kids = append(append([]*ref.Node{}, k[:2]...), k[3:]...)
	} else {
		k[2], k[3] = k[3], k[2]
	}
}

// ifArms puts both arms of an if on their own line if one of them is.
func ifArms(n *ref.Node) {
	if !headIs(n, "if", "if-not", "if-let", "if-some") {
		return
	}
	var pos []int // of test, then, else
	for i := 1; i < len(n.Kids) && len(pos) < 3; i++ {
		if counts(n.Kids[i]) {
			pos = append(pos, i)
		}
	}
	if len(pos) < 3 {
		return
	}
	has := func(lo, hi int) bool {
		for _, k := range n.Kids[lo:hi] {
			if isNL(k) {
				return true
			}
		}
		return false
	}
	a, b := has(1, pos[1]), has(pos[1]+1, pos[2])
	if a == b {
		return
	}
	at := pos[1]
	if a {
		at = pos[2]
	}
	k := append([]*ref.Node{}, n.Kids[:at]...)
	k = append(k, newline())
	n.Kids = append(k, n.Kids[at:]...)
}

// NS applies the enabled ns transforms (style and sorting) to one ns form.
func NS(n *ref.Node, style, sorting bool) {
	if style {
		for _, c := range n.Kids[1:] {
			styleClause(c)
		}
	}
	if sorting {
		for _, c := range n.Kids[1:] {
			if c.Kind == ref.NList && len(c.Kids) > 0 && c.Kids[0].Kind == ref.NKw {
				switch c.Kids[0].Text {
				case ":require", ":require-macros", ":import":
					sortClause(c)
				}
			}
		}
	}
}

func styleClause(c *ref.Node) {
	if c.Kind != ref.NList && c.Kind != ref.NVector || len(c.Kids) == 0 {
		return
	}
	h := c.Kids[0]
	name := h.Text
	switch {
	case h.Kind == ref.NKw:
		name = name[1:]
	case !plainSym(h):
		return
	}
	switch name {
	case "refer-clojure":
	case "require", "require-macros", "use", "import", "load", "gen-class":
		if len(c.Kids) > 1 && counts(c.Kids[1]) {
			c.Kids = append([]*ref.Node{h, newline()}, c.Kids[1:]...)
		}
	default:
		return
	}
	c.Kind = ref.NList
	if h.Kind == ref.NSym {
		c.Kids[0] = &ref.Node{Kind: ref.NKw, Text: ":" + name}
	}
	for i, k := range c.Kids[1:] {
		switch name {
		case "require", "require-macros":
			switch {
			case plainSym(k):
				c.Kids[i+1] = &ref.Node{Kind: ref.NVector, Kids: []*ref.Node{k}}
			case k.Kind == ref.NList || k.Kind == ref.NVector:
				k.Kind = ref.NVector
				for _, g := range k.Kids {
					if g.Kind == ref.NList {
						g.Kind = ref.NVector
					}
				}
			}
		case "import":
			switch {
			case plainSym(k):
				if j := strings.LastIndexByte(k.Text, '.'); j > 0 && ClassName(k.Text[j+1:]) {
					c.Kids[i+1] = &ref.Node{Kind: ref.NList, Kids: []*ref.Node{
						{Kind: ref.NSym, Text: k.Text[:j]}, {Kind: ref.NSym, Text: k.Text[j+1:]}}}
				}
			case k.Kind == ref.NVector:
				k.Kind = ref.NList
			}
		}
	}
}

// item is a member of a clause with the comments that belong to it.
type item struct {
	above  []*ref.Node
	node   *ref.Node
	beside *ref.Node
	key    string
	keyed  bool
}

func sortKey(n *ref.Node) (string, bool) {
	if plainSym(n) {
		return n.Text, true
	}
	if (n.Kind == ref.NList || n.Kind == ref.NVector) && len(n.Kids) > 0 && plainSym(n.Kids[0]) {
		return n.Kids[0].Text, true
	}
	return "", false
}

// glued reports whether n only makes sense together with the next form.
func glued(n *ref.Node) bool {
	if n.Kind == ref.NTag {
		return true
	}
	if n.Kind != ref.NPrefix {
		return false
	}
	return n.Text == "^" || n.Text == "#_" && (n.Kids[0].Kind == ref.NPrefix && n.Kids[0].Text == "#_" || glued(n.Kids[0]))
}

func sortClause(c *ref.Node) {
	for _, k := range c.Kids {
		if glued(k) {
			return
		}
	}
	out := []*ref.Node{c.Kids[0]}
	rest := c.Kids[1:]
	if len(rest) > 0 && rest[0].Kind == ref.NComment {
		out = append(out, rest[0])
		rest = rest[1:]
	}
	startNL := len(rest) > 0 && isNL(rest[0])
	var items []*item
	var above []*ref.Node
	sameLine := false
	for _, k := range rest {
		switch {
		case isNL(k):
			sameLine = false
		case k.Kind == ref.NComment && sameLine:
			items[len(items)-1].beside = k
		case k.Kind == ref.NComment:
			above = append(above, k)
		default:
			it := &item{above: above, node: k}
			it.key, it.keyed = sortKey(k)
			items = append(items, it)
			above = nil
			sameLine = true
		}
	}
	sort.SliceStable(items, func(i, j int) bool {
		a, b := items[i], items[j]
		return a.keyed && (!b.keyed || a.key < b.key)
	})
	if startNL || len(items) > 0 && len(items[0].above) > 0 {
		out = append(out, newline())
	}
	for _, it := range items {
		for _, k := range it.above {
			out = append(out, k, newline())
		}
		out = append(out, it.node)
		if it.beside != nil {
			out = append(out, it.beside)
		}
		out = append(out, newline())
	}
	for _, k := range above {
		out = append(out, k, newline())
	}
	if k := len(out); k >= 2 && isNL(out[k-1]) && out[k-2].Kind != ref.NComment {
		out = out[:k-1]
	}
	c.Kids = out
}

// Requires collects the aliases and referred names a goclj printer knows.
func Requires(roots []*ref.Node, c *Config) {
	c.Aliases = map[string]string{}
	c.Refers = map[string]string{}
	for _, r := range roots {
		if !headIs(r, "ns") {
			continue
		}
		for _, cl := range r.Kids {
			if cl.Kind != ref.NList || len(cl.Kids) == 0 || cl.Kids[0].Kind != ref.NKw ||
				cl.Kids[0].Text != ":require" && cl.Kids[0].Text != ":require-macros" {
				continue
			}
			for _, spec := range cl.Kids[1:] {
				if spec.Kind != ref.NList && spec.Kind != ref.NVector {
					continue
				}
				as := args(spec.Kids)
				if len(as) == 0 || !plainSym(as[0]) {
					continue
				}
				lib := as[0].Text
				for i := 1; i+1 < len(as); i += 2 {
					if as[i].Kind != ref.NKw {
						continue
					}
					v := as[i+1]
					switch k := as[i].Text; {
					case k == ":as" && plainSym(v):
						c.Aliases[v.Text] = lib
					case (k == ":refer" || k == ":refer-macros") && (v.Kind == ref.NVector || v.Kind == ref.NList):
						for _, s := range v.Kids {
							if plainSym(s) {
								c.Refers[s.Text] = lib
							}
						}
					}
				}
			}
		}
	}
}

// ClassName reports whether s can be the simple name of a class.
func ClassName(s string) bool {
	for _, r := range s {
		return unicode.IsLetter(r) || r == '_' || r == '$'
	}
	return false
}
