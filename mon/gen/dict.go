package gen

import (
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"math/rand"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"goclj.verif/mon/ref"
)

// A dictionary of the literals of the program under test, used like a fuzzer's
// dictionary: names and sizes that the code compares with are worth trying. It
// only steers the choice of inputs; no verdict depends on it.
var dict struct {
	syms, kws, strs []string
	runes           []rune
	ints            []int
}

// LoadDict reads the string, character and integer literals of the non-test
// files under dir.
func LoadDict(dir string) int {
	strs, runes, ints := map[string]bool{}, map[rune]bool{}, map[int]bool{}
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
		if f == nil {
			return nil
		}
		ast.Inspect(f, func(n ast.Node) bool {
			if im, ok := n.(*ast.ImportSpec); ok && im != nil {
				return false
			}
			l, ok := n.(*ast.BasicLit)
			if !ok {
				return true
			}
			switch l.Kind {
			case token.STRING:
				if s, err := strconv.Unquote(l.Value); err == nil && s != "" && len(s) <= 60 {
					strs[s] = true
				}
			case token.CHAR:
				if s, err := strconv.Unquote(l.Value); err == nil {
					c, _ := utf8.DecodeRuneInString(s)
					runes[c] = true
				}
			case token.INT:
				if v, err := strconv.ParseInt(l.Value, 0, 64); err == nil && v > 2 && v <= 1<<20 {
					ints[int(v)] = true
				}
			}
			return true
		})
		return nil
	})
	for s := range strs {
		toks, err := ref.Lex(s)
		one := err == nil && len(toks) == 2 && toks[0].Text == s
		switch {
		case one && toks[0].Kind == ref.Sym:
			dict.syms = append(dict.syms, s)
			dict.kws = append(dict.kws, ":"+s)
		case one && toks[0].Kind == ref.Kw:
			dict.kws = append(dict.kws, s)
			dict.syms = append(dict.syms, strings.TrimLeft(s, ":"))
		}
		if !strings.ContainsAny(s, "\n\r") {
			dict.strs = append(dict.strs, s)
		}
	}
	for c := range runes {
		dict.runes = append(dict.runes, c)
	}
	for v := range ints {
		dict.ints = append(dict.ints, v)
	}
	sort.Strings(dict.syms)
	sort.Strings(dict.kws)
	sort.Strings(dict.strs)
	sort.Slice(dict.runes, func(i, j int) bool { return dict.runes[i] < dict.runes[j] })
	sort.Ints(dict.ints)
	return len(dict.syms) + len(dict.kws) + len(dict.strs) + len(dict.runes) + len(dict.ints)
}

// isOne reports whether s is exactly one token of the kind.
func isOne(s string, k ref.Kind) bool {
	toks, err := ref.Lex(s + " ")
	return err == nil && len(toks) == 2 && toks[0].Kind == k && toks[0].Text == s
}

// DictSym is a symbol made from a literal of the program, or "".
func DictSym(r *rand.Rand) string {
	s := ""
	if len(dict.syms) > 0 && r.Intn(4) > 0 {
		s = Pick(r, dict.syms)
	} else if len(dict.strs) > 0 {
		s = Pick(r, dict.strs)
	}
	switch r.Intn(8) {
	case 0:
		s += Pick(r, []string{"x", "-x", "1", ".x", "*", "?", "'", "#", ".", "/x", "2"})
	case 1:
		s = Pick(r, []string{"x", "x-", "my.ns/", "x.", "*", "-", ".", "a/", "_"}) + s
	case 2:
		if len(s) > 1 {
			s = s[:len(s)-1]
		}
	case 3:
		if len(s) > 1 {
			s = s[1:]
		}
	case 4:
		if len(dict.runes) > 0 {
			s = Pick(r, []string{"", "x"}) + string(Pick(r, dict.runes)) + Pick(r, []string{"", "x", s})
		}
	}
	switch r.Intn(24) {
	case 0:
		s = strings.ToUpper(s)
	case 1, 2:
		if s != "" {
			s = strings.ToUpper(s[:1]) + s[1:]
		}
	}
	if r.Intn(8) == 0 {
		s = Pick(r, []string{"my/", "a.b/", "x/", "clojure.core/", "s/"}) + s
	}
	if isOne(s, ref.Sym) {
		return s
	}
	return ""
}

// DictStr is text from a literal of the program, without line ends.
func DictStr(r *rand.Rand) string {
	if len(dict.strs) == 0 {
		return "x"
	}
	s := Pick(r, dict.strs)
	if r.Intn(4) == 0 && len(dict.runes) > 0 {
		if c := Pick(r, dict.runes); c != '\n' && c != '\r' {
			s = string(c) + Pick(r, []string{"", s})
		}
	}
	return s
}

// DictInt is a size near a number of the program or a power of two, at most hi.
func DictInt(r *rand.Rand, hi int) int {
	for try := 0; try < 10; try++ {
		v := 1 << uint(r.Intn(17))
		if len(dict.ints) > 0 && r.Intn(2) == 0 {
			v = Pick(r, dict.ints)
		} else if r.Intn(3) == 0 {
			v = Pick(r, []int{10, 20, 50, 100, 200, 500, 1000, 5000, 10000, 65535})
		}
		v += r.Intn(3) - 1
		if v >= 1 && v <= hi {
			return v
		}
	}
	return 1 + r.Intn(hi)
}

// OddSym is a short symbol spelled with unusual characters.
func OddSym(r *rand.Rand) string {
	for try := 0; try < 12; try++ {
		s := oddWord(r)
		if isOne(s, ref.Sym) {
			return s
		}
	}
	return "x"
}

const oddChars = "+-.:/%#'&<>=!?*_|$a1Ze0xNMb"

func oddWord(r *rand.Rand) string {
	if r.Intn(6) == 0 {
		return Pick(r, []string{"null", "None", "Inf", "##Inf", "NaN", "nul", "nilx", "truex", "falsey", "nil?", "-.5", "-.foo", "+.foo", ".5", "..", "...", ".", "/", "//",
			"a//", "a/b/c", "/a", "a/", "-/", "+/a", "&", "&rest", "%", "%x", "%10", "-a1", "+1a", "--1", "-+1", "1-", "a:", ":a:", "a::b", "x:y:z", "'a", "a'", "a'b", "#a", "a#", "a#b", "##", "a##",
			"a.b.", ".a.b", "-x-", "_", "__", "<", "<>", "=>", "->", "->>", "->x", "<-", "*", "**", "*a*", "!", "!!", "?", "??", "$", "|", "||", "\u00a0x", "x\u00b7y", "\u2026", "α/β", "\u3042.\u3044"})
	}
	var b strings.Builder
	for n := 1 + r.Intn(5); n > 0; n-- {
		switch r.Intn(12) {
		case 0:
			b.WriteRune(OddRune(r))
		default:
			b.WriteByte(oddChars[r.Intn(len(oddChars))])
		}
	}
	return b.String()
}

// OddRune is a letter-like rune from all over Unicode.
func OddRune(r *rand.Rand) rune {
	switch r.Intn(5) {
	case 0:
		return rune(0x80 + r.Intn(0x180))
	case 1:
		return Pick(r, []rune{0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0xfeff, 0xa0, 0x85, 0x2028, 0x3000, 0x200b, 0x1f600})
	case 2:
		return rune(0x800 + r.Intn(0xd000))
	case 3:
		return rune(0x10000 + r.Intn(0x20000))
	}
	return rune(0x370 + r.Intn(0x400))
}

// OddNum is a number-like spelling; it may not be a number at all.
func OddNum(r *rand.Rand) string {
	const cs = "0123456789+-./exXrRNMabfzZ'"
	s := Pick(r, []string{"", "", "-", "+"}) + string(rune('0'+r.Intn(10)))
	for n := r.Intn(6); n > 0; n-- {
		s += string(cs[r.Intn(len(cs))])
	}
	return s
}

// OddChar is a character literal from the whole documented range.
func OddChar(r *rand.Rand) string {
	const hex, HEX = "0123456789abcdef", "0123456789ABCDEF"
	switch r.Intn(8) {
	case 0, 1, 2: // \uXXXX outside the surrogates
		for {
			s := `\u`
			d := hex
			if r.Intn(2) == 0 {
				d = HEX
			}
			for i := 0; i < 4; i++ {
				s += string(d[r.Intn(16)])
			}
			if c, _ := strconv.ParseInt(s[2:], 16, 32); c < 0xd800 || c > 0xdfff {
				return s
			}
		}
	case 3:
		return `\o` + strconv.FormatInt(int64(r.Intn(0o400)), 8)
	case 4:
		return `\o` + Pick(r, []string{"0", "00", "000", "7", "10", "17", "77", "007", "100", "200", "277", "300", "377", "376"})
	case 5:
		return `\u` + Pick(r, []string{"0000", "0020", "007F", "00a0", "7fff", "8000", "d7ff", "D7FF", "e000", "E000", "fffd", "FFFE", "ffff", "000A", "aBcD"})
	case 6:
		return `\` + string(OddRune(r))
	}
	return `\` + string(rune(33+r.Intn(94)))
}
