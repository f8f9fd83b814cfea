package gen

import (
	"math/rand"
	"strings"

	"goclj.verif/mon/ref"
)

// A TinySet enumerates all short sequences of items behind a head.
type TinySet struct {
	heads, items []string
	Len          int // of the longest sequence
	tail         string
}

var (
	// TinyMoves has the forms a transform moves line breaks of, and one that isn't.
	TinyMoves = TinySet{[]string{"(defn", "(defmethod", "(if", "(g"}, []string{"a", ":k", "[b]", "\n", ";c\n", "#_d", "(e\n)"}, 5, ""}
	// TinyStyles has a head for each style of indentation.
	TinyStyles = TinySet{[]string{"(f", "(abcdefghijklm", "(defn", "(let", "(for", "(letfn", "(reify", "(cond", "(case", "(condp", "(->", "(cond->", "[", "{a ", "#?(", "#{", "(", "#("},
		[]string{"a", ":>>", "[b :let [c\nd]\ne]", "\n", ";c\n", "#_d", "(case b\nc\nd\ne)"}, 4, ""}
	// TinyPrefixes stacks up reader prefixes, among them those that take more than one form.
	TinyPrefixes = TinySet{[]string{"("}, []string{"^:m", "^{:a 1}", "#^b", "#t", "#_", "#_a", "#=", "'", "`", "~", "~@", "@", "(comment c)", "\n"}, 4, " x y z (comment w) v"}
)

// Size is the number of sequences.
func (t TinySet) Size() int {
	n, k := 0, 1
	for i := 0; i <= t.Len; i++ {
		n += k
		k *= len(t.items)
	}
	return n * len(t.heads)
}

// Form is the k-th form.
func (t TinySet) Form(k int) string {
	k %= t.Size()
	head := t.heads[k%len(t.heads)]
	k /= len(t.heads)
	n := 0
	for size := 1; k >= size; n++ {
		k -= size
		size *= len(t.items)
	}
	var b strings.Builder
	b.WriteString(head)
	for ; n > 0; n-- {
		b.WriteString(" " + t.items[k%len(t.items)])
		k /= len(t.items)
	}
	b.WriteString(t.tail)
	switch {
	case strings.HasPrefix(head, "["):
		return b.String() + "]\n"
	case strings.Contains(head, "{"):
		return b.String() + "}\n"
	}
	return b.String() + ")\n"
}

// TinyText is how many forms Text puts together.
const TinyText = 32

// Text is the k-th text of several forms.
func (t TinySet) Text(k int) string {
	var b strings.Builder
	for i := 0; i < TinyText; i++ {
		b.WriteString(t.Form(k*TinyText + i))
	}
	return b.String()
}

// Stretch makes a text of short forms with many more of something at one place in each.
func Stretch(r *rand.Rand) string {
	var b strings.Builder
	for n := 1 + r.Intn(5); n > 0; n-- {
		set := Pick(r, []TinySet{TinyMoves, TinyMoves, TinyStyles})
		f := set.Form(r.Intn(set.Size()))
		toks, err := ref.Lex(f)
		if err != nil || len(toks) < 3 {
			continue
		}
		k := Pick(r, []int{r.Intn(12), r.Intn(150), 1<<r.Intn(10) - r.Intn(4)})
		at := toks[2+r.Intn(len(toks)-2)].Off
		unit := Pick(r, []string{"a ", "#_c ", ";c\n", "\n", "^:m ", "[b] ", "a\n", "a b\n", ":k (e\nf) ", "#_c\n", "(e\nf) "})
		f = f[:at] + " " + strings.Repeat(unit, max(k, 0)) + f[at:]
		if _, err := ref.Read(f); err == nil {
			b.WriteString(f)
		}
	}
	return b.String()
}
