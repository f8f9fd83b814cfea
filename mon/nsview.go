package main

import (
	"fmt"
	"sort"
	"strings"

	"goclj.verif/mon/model"
	"goclj.verif/mon/ref"
)

// text serializes a node without layout; f may replace delimiters.
func text(n *ref.Node) string { return textD(n, 0, "") }

// textD serializes an item of an ns clause. kind "require" makes lists vectors
// at the two outer levels, as the style rules do; kind "import" splits class
// names.
func textD(n *ref.Node, depth int, kind string) string {
	var kids []string
	for _, k := range n.Kids {
		if k.Kind == ref.NNewline {
			continue
		}
		kids = append(kids, textD(k, depth+1, kind))
	}
	in := strings.Join(kids, " ")
	vec := kind == "require" && depth <= 1
	switch n.Kind {
	case ref.NList:
		if vec {
			return "[" + in + "]"
		}
		return "(" + in + ")"
	case ref.NVector:
		if kind == "import" && depth == 0 {
			return "(" + in + ")"
		}
		return "[" + in + "]"
	case ref.NMap:
		if n.Text != "" {
			return "#" + n.Text + "{" + in + "}"
		}
		return "{" + in + "}"
	case ref.NSet:
		return "#{" + in + "}"
	case ref.NFn:
		return "#(" + in + ")"
	case ref.NCond, ref.NSplice:
		var raw []string
		for _, k := range n.Kids {
			if k.Kind != ref.NNewline {
				raw = append(raw, text(k))
			}
		}
		return string(n.Kind) + "(" + strings.Join(raw, " ") + ")"
	case ref.NPrefix:
		return n.Text + text(n.Kids[0])
	case ref.NTag:
		return "#tag:" + n.Text
	case ref.NVarQ:
		return "#'" + n.Text
	case ref.NComment:
		return n.Text + "\n"
	case ref.NSym:
		if depth == 0 && n.Text != "nil" && n.Text != "true" && n.Text != "false" {
			if kind == "require" {
				return "[" + n.Text + "]"
			}
			if kind == "import" {
				if j := strings.LastIndexByte(n.Text, '.'); j > 0 && model.ClassName(n.Text[j+1:]) {
					return "(" + n.Text[:j] + " " + n.Text[j+1:] + ")"
				}
			}
		}
	}
	return n.Text
}

var clauseNames = map[string]string{"require": "require", "require-macros": "require", "import": "import", "use": "", "load": "", "gen-class": "", "refer-clojure": ""}

// clauseOf returns the name of an ns clause, or "".
func clauseOf(n *ref.Node) string {
	if n.Kind != ref.NList && n.Kind != ref.NVector || len(n.Kids) == 0 {
		return ""
	}
	h := n.Kids[0]
	name := h.Text
	if h.Kind == ref.NKw {
		name = strings.TrimPrefix(name, ":")
	} else if h.Kind != ref.NSym {
		return ""
	}
	if _, ok := clauseNames[name]; !ok {
		return ""
	}
	return name
}

// nsView describes what an ns form declares, independently of layout, of the
// style rules and of the order of the items of :require, :require-macros and
// :import clauses. With comments, each comment is shown with the thing it is
// attached to.
func nsView(ns *ref.Node, comments bool) string {
	return nsViewDoc(ns, docstringTok(ns), comments)
}

// allStrings makes nsViewDoc disregard the alignment of any string: a docstring
// is no docstring any more if nothing remains after it.
const allStrings = -2

func nsViewDoc(ns *ref.Node, doc int, comments bool) string {
	var b strings.Builder
	emit := func(k *ref.Node) {
		switch {
		case k.Kind == ref.NNewline:
			return
		case k.Kind == ref.NComment && !comments:
			return
		}
		if k.Kind == ref.NStr && (doc == allStrings || doc >= 0 && k.First.Off == doc) {
			fmt.Fprintf(&b, "%s\n", normDoc(k.Text))
			return
		}
		name := clauseOf(k)
		if name == "" {
			fmt.Fprintf(&b, "%s\n", text(k))
			return
		}
		fmt.Fprintf(&b, "(:%s\n", name)
		kind := clauseNames[name]
		var items []string
		sorted := kind != ""
		for _, x := range k.Kids {
			if x.Kind == ref.NTag || x.Kind == ref.NPrefix && (x.Text == "^" || x.Text == "#_" && gluedText(x)) {
				sorted = false // the items after a prefix belong to it: keep the order
			}
		}
		var above []string
		same := false
		for i, x := range k.Kids[1:] {
			switch x.Kind {
			case ref.NNewline:
				same = false
			case ref.NComment:
				switch {
				case !comments:
				case i == 0:
					fmt.Fprintf(&b, "beside head: %s\n", x.Text)
				case same:
					items[len(items)-1] += " beside " + x.Text
				default:
					above = append(above, x.Text)
				}
			default:
				items = append(items, fmt.Sprintf("%s above %q", textD(x, 0, kind), above))
				above = nil
				same = true
			}
		}
		if sorted {
			sort.Strings(items)
		}
		for _, it := range items {
			fmt.Fprintf(&b, "  %s\n", it)
		}
		fmt.Fprintf(&b, "bottom %q)\n", above)
	}
	for _, k := range endComments(ns).Kids {
		emit(k)
	}
	return b.String()
}

// endComments puts a line end after every comment which a bare CR ended.
func endComments(n *ref.Node) *ref.Node {
	cp := *n
	cp.Kids = nil
	for i, k := range n.Kids {
		cp.Kids = append(cp.Kids, endComments(k))
		if k.Kind == ref.NComment && (i == len(n.Kids)-1 || n.Kids[i+1].Kind != ref.NNewline) {
			cp.Kids = append(cp.Kids, &ref.Node{Kind: ref.NNewline, Text: "\n"})
		}
	}
	return &cp
}

func gluedText(n *ref.Node) bool {
	k := n.Kids[0]
	return k.Kind == ref.NTag || k.Kind == ref.NPrefix && (k.Text == "^" || k.Text == "#_") || len(n.Skip) > 0
}
