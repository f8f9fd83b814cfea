package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/cespare/goclj/format"
	"github.com/cespare/goclj/parse"

	"goclj.verif/mon/gen"
)

func init() {
	register(&Check{
		ID: "C25", Quick: 18000, Thorough: 250000, CLI: true,
		Rule: "The cljfmt binary, built from /repo, is run on scratch directories of 1 to 6 files (well formatted, to be formatted, malformed, empty, large; modes 0400 to 0755; odd names; symbolic and hard links) or on standard input delivered in pieces, with no mode, -l, -w or both, and random transform flags. Its output, exit status, and the content, permissions, modification time and inode of every file are compared with what the library's own Format gives. Non-trivial: at least one file differs from its formatted text or is malformed.",
		Min:  map[string]int64{"runs": 5000, "runs on standard input": 1000, "files that must not change": 10000, "files rewritten": 3000, "malformed files met": 1000},
		Run:  c25,
	})
	register(&Check{
		ID: "C26", Quick: 20000, Thorough: 150000, CLI: true,
		Rule: "Random directory trees (nested and hidden directories, directories named like source files, hidden files, many extensions, symbolic links, names that sort in odd ways) are given to the cljfmt binary as one or several arguments, mixed with explicit files, with the default or configured extensions, under -l, -w or neither. An independent walk of the generated tree predicts which files are processed and in which order. Non-trivial: the tree has both a selected and an ignored file.",
		Min:  map[string]int64{"runs": 4000, "files selected": 15000, "files ignored": 15000, "hidden files": 2000, "runs with configured extensions": 1000},
		Run:  c26,
	})
	register(&Check{
		ID: "C27", Quick: 26000, Thorough: 250000, CLI: true,
		Rule: "The cljfmt binary is run with configuration files at any of the three places (-c, CLJFMT_CONFIG_PATH, HOME), each with different extensions, indentation and thread-first rules, written in varied notation (lists, vectors, single names, name sequences, comments, discards, duplicates), or invalid in one of many ways; and with sequences of transform flags. The output must be the library's Format with the options of the configuration in force; an invalid configuration or flag must stop the run with a message before anything is printed or written. Non-trivial: the configuration changes the output or is invalid.",
		Min:  map[string]int64{"runs": 5000, "configurations in force by -c": 1000, "configurations in force by CLJFMT_CONFIG_PATH": 1000, "configurations in force by HOME": 600, "invalid configurations": 1000, "missing configurations": 400, "outputs changed by the configuration": 1500, "invalid flags": 200},
		Run:  c27,
	})
	register(&Check{
		ID: "C28", Quick: 5400, Thorough: 60000, CLI: true, Level: "fault_enumeration",
		Rule: "The cljfmt binary is run under I/O faults: a full device, a full file system (file size limit at chosen bytes) and a closed pipe as standard output, missing, unreadable and unwritable files and directories as an unprivileged user, standard input that cannot be read, and errors (EIO, ENOSPC, EACCES, EMFILE, EINTR) injected by strace into the n-th open, stat, read, write or directory listing of the source file, directory, configuration or output. A lost read or write must give a non-zero exit status and a message; the source file must hold its original or its formatted text and nothing else; EINTR must have no effect. Non-trivial: the fault happened.",
		Min:  map[string]int64{"runs": 2000, "faults that happened": 1500},
		Init: c28init,
		Run:  c28,
	})
	tools["limit"] = func(args []string) { // limit BYTES CMD ARGS...
		n, err := strconv.ParseUint(args[0], 10, 64)
		if err == nil {
			err = syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: n})
		}
		if err == nil {
			err = syscall.Exec(args[1], args[1:], os.Environ())
		}
		fmt.Fprintln(os.Stderr, "limit:", err)
		os.Exit(99)
	}
}

// --- running the tool

type runResult struct {
	out, err string
	code     int // exit status; -1 if killed by a signal
	timeout  bool
}

type runSpec struct {
	args   []string
	env    []string
	dir    string
	stdin  io.Reader
	stdout io.Writer // default: captured
	uid    int
	wrap   []string // command and arguments in front of the tool
}

func (c *Ctx) run(s runSpec) runResult {
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	argv := append(append(append([]string(nil), s.wrap...), c.Tool), s.args...)
	cmd := exec.CommandContext(ctx, argv[0], argv[1:]...)
	cmd.Env = append([]string{"PATH=/usr/bin:/bin"}, s.env...)
	if d := os.Getenv("GOCOVERDIR"); d != "" {
		cmd.Env = append(cmd.Env, "GOCOVERDIR="+d)
	}
	cmd.Dir = s.dir
	cmd.Stdin = s.stdin
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	if s.stdout != nil {
		cmd.Stdout = s.stdout
	}
	cmd.Stderr = &errb
	if s.uid != 0 {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: uint32(s.uid), Gid: uint32(s.uid), NoSetGroups: false}}
	}
	err := cmd.Run()
	res := runResult{out: out.String(), err: errb.String()}
	var ee *exec.ExitError
	switch {
	case ctx.Err() != nil:
		res.timeout = true
		res.code = -1
	case errors.As(err, &ee):
		res.code = ee.ExitCode()
	case err != nil:
		panic(fmt.Sprintf("running %q: %v", argv, err))
	}
	c.Count("runs", 1)
	return res
}

// crashed says that the tool died of a Go panic or hung.
func (r runResult) crashed() string {
	if r.timeout {
		return "cljfmt did not end within 100 s"
	}
	if strings.Contains(r.err, "goroutine ") && (strings.Contains(r.err, "panic: ") || strings.Contains(r.err, "fatal error: ")) {
		return "cljfmt crashed: " + trunc(r.err, 1500)
	}
	return ""
}

// --- scratch trees

type fent struct {
	dir     bool
	link    string // symbolic link target
	content string
	mode    fs.FileMode
	old     os.FileInfo
}

type ftree map[string]*fent // by path relative to the scratch directory

var oldTime = time.Date(2001, 2, 3, 4, 5, 6, 0, time.UTC)

func (t ftree) paths() []string {
	var ps []string
	for p := range t {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	return ps
}

func must(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

// create makes the tree below base, which is emptied first.
func (t ftree) create(base string) {
	must(os.RemoveAll(base))
	must(os.MkdirAll(base, 0o755))
	for _, p := range t.paths() {
		e := t[p]
		full := filepath.Join(base, p)
		must(os.MkdirAll(filepath.Dir(full), 0o755))
		switch {
		case e.dir:
			must(os.MkdirAll(full, 0o755))
		case e.link != "":
			must(os.Symlink(e.link, full))
		default:
			must(os.WriteFile(full, []byte(e.content), 0o644))
			must(os.Chmod(full, e.mode))
			must(os.Chtimes(full, oldTime, oldTime))
		}
	}
	for _, p := range t.paths() {
		fi, err := os.Lstat(filepath.Join(base, p))
		must(err)
		t[p].old = fi
	}
}

// compare checks that the tree below base is as created, except that the
// files in now have a new content.
func (t ftree) compare(c *Ctx, base string, now map[string]string) string {
	seen := 0
	msg := ""
	must(filepath.Walk(base, func(path string, fi os.FileInfo, err error) error {
		must(err)
		rel, err := filepath.Rel(base, path)
		must(err)
		if rel == "." || msg != "" {
			return nil
		}
		e := t[rel]
		if e == nil {
			for p := range t { // an implied directory
				if fi.IsDir() && strings.HasPrefix(p, rel+"/") {
					return nil
				}
			}
			msg = fmt.Sprintf("a file appeared: %q", rel)
			return nil
		}
		seen++
		if fi.Mode() != e.old.Mode() {
			msg = fmt.Sprintf("the mode of a file changed: %q from %v to %v", rel, e.old.Mode(), fi.Mode())
			return nil
		}
		if !fi.Mode().IsRegular() {
			return nil
		}
		b, err := os.ReadFile(path)
		must(err)
		want, rewritten := now[rel]
		if !rewritten {
			want = e.content
			c.Count("files that must not change", 1)
			if string(b) != want {
				msg = fmt.Sprintf("a file was changed: %q: %s", rel, diffText(want, string(b)))
			} else if !fi.ModTime().Equal(e.old.ModTime()) {
				msg = fmt.Sprintf("a file was rewritten although nothing changes: %q", rel)
			} else if !os.SameFile(fi, e.old) {
				msg = fmt.Sprintf("a file was replaced although nothing changes: %q", rel)
			}
			return nil
		}
		c.Count("files rewritten", 1)
		if string(b) != want {
			msg = fmt.Sprintf("a file has the wrong content: %q: %s", rel, diffText(want, string(b)))
		}
		return nil
	}))
	if msg == "" && seen != len(t) {
		msg = "a file disappeared"
	}
	return msg
}

// --- the model of a run

// step is one file processed by the tool: the name it is shown by and the
// path of its (resolved) content in the tree.
type step struct{ shown, real string }

type mode struct{ list, write bool }

type expectation struct {
	out    string
	now    map[string]string // rewritten files
	failed string            // the error message which stderr must contain, or ""
	failAt string
}

func fmtNamed(name, src string, o *FmtOpts) (string, error) {
	t, err := parse.Reader(strings.NewReader(src), name, parse.IncludeNonSemantic)
	if err != nil {
		return "", err
	}
	return printTree(t, o)
}

func expectRun(t ftree, steps []step, m mode, o *FmtOpts) expectation {
	ex := expectation{now: map[string]string{}}
	var out strings.Builder
	for _, s := range steps {
		src, ok := ex.now[s.real]
		if !ok {
			src = t[s.real].content
		}
		want, err := fmtNamed(s.shown, src, o)
		if err != nil {
			ex.failed, ex.failAt = err.Error(), s.shown
			break
		}
		if want != src {
			if m.list {
				out.WriteString(s.shown + "\n")
			}
			if m.write {
				ex.now[s.real] = want
			}
		}
		if !m.list && !m.write {
			out.WriteString(want)
		}
	}
	ex.out = out.String()
	return ex
}

// judge compares a finished run with its expectation.
func (c *Ctx) judge(t ftree, base string, ex expectation, res runResult) string {
	if m := res.crashed(); m != "" {
		return m
	}
	switch {
	case ex.failed != "" && res.code == 0:
		return fmt.Sprintf("exit status 0 although a file is malformed: %q; stderr %q", ex.failAt, res.err)
	case ex.failed != "" && !strings.Contains(res.err, ex.failed):
		return fmt.Sprintf("the message about the malformed file is missing: want %q in %q", ex.failed, res.err)
	case ex.failed == "" && res.code != 0:
		return fmt.Sprintf("exit status %d: %s", res.code, trunc(res.err, 500))
	case res.out != ex.out:
		return "wrong output: " + diffText(ex.out, res.out)
	}
	return t.compare(c, base, ex.now)
}

// --- texts

// tidy makes a formatted text, if the formatter agrees with itself on it.
func tidy(src string, o *FmtOpts) string {
	for i := 0; i < 3; i++ {
		s, err := Format(src, o)
		if err != nil || s == src {
			return src
		}
		src = s
	}
	return src
}

func (c *Ctx) fileText(r *rand.Rand, o *FmtOpts) string {
	switch r.Intn(12) {
	case 0:
		return ""
	case 1, 2, 3:
		return tidy(c.smallSource(r), o)
	case 4:
		return gen.Pick(r, []string{"(foo", "(foo\n  [bar)\n", ")", "\"abc", "a\n\n  {:b", "'", "(a) \\foo", "#", "(a #<x>)", "{:a 1 2]"})
	case 5:
		return c.Hostile(r)
	case 6:
		return strings.Repeat(c.smallSource(r)+"\n", 1+r.Intn(30))
	case 7:
		return gen.Pick(r, []string{"(f\n\n\n\n x)\n", "(defn\n f\n [x] y)", "  a", "(a)\r\n(b)\r\n", "(if a b\n c)", "(let [a b\n c d] e)", "x"})
	default:
		return c.smallSource(r)
	}
}

// flagArgs are flags for the transforms of o, sometimes with overridden ones.
func flagArgs(r *rand.Rand, o *FmtOpts) []string {
	var args []string
	one := func(n string, v bool) {
		f := "disable-transform"
		if v {
			f = "enable-transform"
		}
		dash := gen.Pick(r, []string{"-", "--"})
		if r.Intn(2) == 0 {
			args = append(args, dash+f+"="+n)
		} else {
			args = append(args, dash+f, n)
		}
	}
	var ns []string
	for _, n := range transformNames {
		if _, ok := o.Set[n]; ok {
			ns = append(ns, n)
		}
	}
	r.Shuffle(len(ns), func(i, j int) { ns[i], ns[j] = ns[j], ns[i] })
	for _, n := range ns {
		for k := r.Intn(6); k > 3; k-- {
			one(n, r.Intn(2) == 0)
		}
		one(n, o.Set[n])
	}
	return args
}

func modeArgs(m mode) []string {
	var args []string
	if m.list {
		args = append(args, "-l")
	}
	if m.write {
		args = append(args, "-w")
	}
	return args
}

// trickle delivers a text in pieces.
type trickle struct {
	s string
	r *rand.Rand
}

func (t *trickle) Read(p []byte) (int, error) {
	if t.s == "" {
		return 0, io.EOF
	}
	n := copy(p, t.s[:1+t.r.Intn(len(t.s))])
	t.s = t.s[n:]
	return n, nil
}

// --- C25

var oddNames = []string{"a.clj", "b.clj", "x.txt", "noext", "with space.clj", "é.clj", "a.edn", "-dash.clj", "%d.clj", "tab\t.clj", ".hidden.clj", "a:1:2.clj", "sub/c.clj", "sub/d.cljs"}

func c25(c *Ctx, idx int) {
	r := c.Rand(idx)
	o := RandOpts(r, true)
	o.Indent, o.Thread, o.Char = nil, nil, ' '
	base := filepath.Join(c.Dir, "t")
	flags := flagArgs(r, o)
	env := []string{"HOME=" + filepath.Join(c.Dir, "nohome")}
	m := mode{list: r.Intn(2) == 0, write: r.Intn(2) == 0}
	if r.Intn(7) == 0 { // standard input
		src := c.fileText(r, o)
		args := append(flags, modeArgs(m)...)
		want, err := fmtNamed("<stdin>", src, o)
		ftree{}.create(base)
		res := c.run(runSpec{args: args, env: env, dir: base, stdin: &trickle{src, r}})
		c.Count("runs on standard input", 1)
		c.Case(fmt.Sprint(args, src), err != nil || want != src)
		msg := res.crashed()
		switch {
		case msg != "":
		case m.write:
			if res.code == 0 || res.out != "" || res.err == "" {
				msg = fmt.Sprintf("-w with standard input: exit status %d, output %q", res.code, trunc(res.out, 200))
			}
		case err != nil:
			c.Count("malformed files met", 1)
			if res.code == 0 || res.out != "" || !strings.Contains(res.err, err.Error()) {
				msg = fmt.Sprintf("malformed standard input: exit status %d, output %q, stderr %q, want %q", res.code, trunc(res.out, 200), res.err, err)
			}
		case res.code != 0:
			msg = fmt.Sprintf("exit status %d: %s", res.code, res.err)
		case res.out != want:
			msg = "wrong output: " + diffText(want, res.out)
		default:
			msg = ftree{}.compare(c, base, nil)
		}
		if msg != "" {
			c.Violate(msg, src, fmt.Sprint(args))
		}
		return
	}
	t := ftree{}
	for n := 1 + r.Intn(6); n > 0; n-- {
		t[gen.Pick(r, oddNames)] = &fent{content: c.fileText(r, o), mode: gen.Pick(r, []fs.FileMode{0o644, 0o644, 0o644, 0o600, 0o755, 0o640, 0o444, 0o666})}
	}
	var files []string
	files = append(files, t.paths()...)
	var steps []step
	var pathArgs []string
	if r.Intn(5) == 0 {
		t["link.clj"] = &fent{link: files[0]}
		pathArgs = append(pathArgs, "link.clj")
		steps = append(steps, step{"link.clj", files[0]})
	}
	r.Shuffle(len(files), func(i, j int) { files[i], files[j] = files[j], files[i] })
	for _, f := range files {
		if r.Intn(6) == 0 {
			continue // a bystander
		}
		for k := r.Intn(9) / 8; k >= 0; k-- {
			shown := f
			switch {
			case strings.HasPrefix(f, "-"), r.Intn(5) == 0:
				shown = "./" + f
			case r.Intn(5) == 0:
				shown = filepath.Join(base, f)
			}
			steps = append(steps, step{shown, f})
			pathArgs = append(pathArgs, shown)
		}
	}
	if len(steps) == 0 {
		return
	}
	// a malformed file stops the run; let it be late in half of the cases
	if r.Intn(2) == 0 {
		sort.SliceStable(steps, func(i, j int) bool {
			_, e1 := Format(t[steps[i].real].content, o)
			_, e2 := Format(t[steps[j].real].content, o)
			return e1 == nil && e2 != nil
		})
		for i, s := range steps {
			pathArgs[i] = s.shown
		}
	}
	t.create(base)
	ex := expectRun(t, steps, m, o)
	if ex.failed != "" {
		c.Count("malformed files met", 1)
	}
	args := append(append(flags, modeArgs(m)...), pathArgs...)
	res := c.run(runSpec{args: args, env: env, dir: base})
	c.Case(fmt.Sprint(args, steps, ex.out), ex.failed != "" || len(ex.now) > 0 || ex.out != "")
	if msg := c.judge(t, base, ex, res); msg != "" {
		c.Violate(msg, t.dump(), fmt.Sprint(args))
	}
}

func (t ftree) dump() string {
	var b strings.Builder
	for _, p := range t.paths() {
		e := t[p]
		switch {
		case e.dir:
			fmt.Fprintf(&b, "dir  %q\n", p)
		case e.link != "":
			fmt.Fprintf(&b, "link %q -> %q\n", p, e.link)
		default:
			fmt.Fprintf(&b, "file %q %v %q\n", p, e.mode, trunc(e.content, 300))
		}
	}
	return b.String()
}

// --- C26

var fileNames = []string{"a.clj", "b.clj", "core.clj", "core.cljs", "util.cljc", "data.edn", "z.clj", "A.clj", "a-b.clj", "a_b.cljs", "a.b.clj", "é.clj",
	"x.CLJ", "x.txt", "README.md", "noext", "x.clj.bak", "x.cljx", "clj", "x.clj~", "project.cl", "x.cljd", "x.boot", "x.", "cljs.txt", "q.clj ",
	".clj", ".hidden.clj", ".x.edn", "..a.clj", ".#lock.clj", "#auto.clj", "~tmp.clj", "a.clj.edn", "foo.bb"}
var dirNames = []string{"src", "test", "a", "a.b", "dir.clj", ".git", ".hidden.clj", "b", "z", "a-b", "target", "node_modules", "x.edn", "_"}

func randTree(c *Ctx, r *rand.Rand, t ftree, prefix string, depth int, text func() string) {
	for n := r.Intn(7); n > 0; n-- {
		t[prefix+gen.Pick(r, fileNames)] = &fent{content: text(), mode: 0o644}
	}
	if depth == 0 {
		return
	}
	for n := r.Intn(4); n > 0; n-- {
		d := prefix + gen.Pick(r, dirNames)
		if t[d] != nil {
			continue
		}
		t[d] = &fent{dir: true}
		randTree(c, r, t, d+"/", depth-1, text)
	}
}

// walk predicts the files processed below the directory dir (relative), shown
// under the name shown.
func (t ftree) walk(c *Ctx, dir, shown string, exts map[string]bool) []step {
	pre := dir + "/"
	if dir == "" {
		pre = ""
	}
	var names []string
	for p := range t {
		if rest, ok := strings.CutPrefix(p, pre); ok && rest != "" && !strings.Contains(rest, "/") {
			names = append(names, rest)
		}
	}
	sort.Strings(names)
	var out []step
	for _, n := range names {
		e, rel, sh := t[pre+n], pre+n, filepath.Join(shown, n)
		if e.dir {
			out = append(out, t.walk(c, rel, sh, exts)...)
			continue
		}
		ext := ""
		if i := strings.LastIndexByte(n, '.'); i >= 0 {
			ext = n[i:]
		}
		hidden := n[0] == '.'
		if hidden {
			c.Count("hidden files", 1)
		}
		if hidden || !exts[ext] {
			c.Count("files ignored", 1)
			continue
		}
		if e.link != "" {
			rel = filepath.Join(filepath.Dir(rel), e.link)
			if t[rel] == nil || t[rel].dir {
				panic("harness: bad link")
			}
		}
		c.Count("files selected", 1)
		out = append(out, step{sh, rel})
	}
	return out
}

func c26(c *Ctx, idx int) {
	r := c.Rand(idx)
	base := filepath.Join(c.Dir, "t")
	t := ftree{}
	o := Defaults()
	o.Char = ' '
	n := 0
	texts := []string{"(f  x)", "(f\n x)\n", "(f\n  x)\n", "", "(let [a b\nc d]\ne)\n", ";; c\n(ns a)\n", " 1", "\n\n\n(a)"}
	randTree(c, r, t, "", 1+r.Intn(3), func() string {
		n++
		if r.Intn(150) == 0 {
			return "(bad"
		}
		if r.Intn(4) == 0 {
			return gen.Pick(r, texts)
		}
		return fmt.Sprintf("(f%d  %s\n x)\n", n, gen.Pick(r, []string{"a", "b", "\"s\"", "[c\nd]"}))
	})
	if len(t) == 0 {
		t["a.clj"] = &fent{content: "(a\nb)", mode: 0o644}
	}
	// symbolic links to files next to them and to directories
	for _, p := range t.paths() {
		switch d, e := filepath.Dir(p), t[p]; {
		case !e.dir && e.link == "" && r.Intn(10) == 0:
			l := filepath.Join(d, gen.Pick(r, []string{"link.clj", "link.txt", ".link.clj"}))
			if t[l] == nil {
				t[l] = &fent{link: filepath.Base(p)}
			}
		case e.dir && r.Intn(6) == 0:
			if l := filepath.Join(d, "dirlink.d"); t[l] == nil {
				t[l] = &fent{link: filepath.Base(p)}
			}
		}
	}
	exts := map[string]bool{".clj": true, ".cljs": true, ".cljc": true, ".edn": true}
	var args []string
	home := filepath.Join(c.Dir, "nohome")
	if r.Intn(3) == 0 {
		exts = map[string]bool{}
		var list []string
		for k := r.Intn(4); k > 0; k-- {
			e := gen.Pick(r, []string{".clj", ".edn", ".boot", ".txt", ".CLJ", ".bak", "", ".md", ".cljx", ".bb", "clj", ".clj.bak"})
			exts[e] = true
			list = append(list, fmt.Sprintf("%q", e))
		}
		conf := filepath.Join(c.Dir, "conf")
		must(os.WriteFile(conf, []byte("{:extensions ["+strings.Join(list, " ")+"]}"), 0o644))
		args = append(args, "-c", conf)
		c.Count("runs with configured extensions", 1)
	}
	m := mode{list: r.Intn(2) == 0, write: r.Intn(2) == 0}
	args = append(args, modeArgs(m)...)
	var steps []step
	var dirs, files []string
	for _, p := range t.paths() {
		switch e := t[p]; {
		case e.dir:
			dirs = append(dirs, p)
		case e.link == "":
			files = append(files, p)
		}
	}
	ignored0 := c.res.Counters["files ignored"]
	for k := 1 + r.Intn(3); k > 0; k-- {
		switch x := r.Intn(8); {
		case x < 3 || x < 6 && len(dirs) == 0 || len(files) == 0:
			root := gen.Pick(r, []string{".", "./", base, base + "/", "../t", "./."})
			args = append(args, root)
			steps = append(steps, t.walk(c, "", root, exts)...)
		case x < 6:
			d := gen.Pick(r, dirs)
			root := gen.Pick(r, []string{d, d + "/", "./" + d, filepath.Join(base, d), d + "//", d + "/."})
			if r.Intn(6) == 0 { // through a symbolic link
				if l := filepath.Join(filepath.Dir(d), "dirlink.d"); t[l] != nil && t[l].link == filepath.Base(d) {
					root = l
					c.Count("directories given as symbolic links", 1)
				}
			}
			args = append(args, root)
			steps = append(steps, t.walk(c, d, root, exts)...)
		default:
			f := gen.Pick(r, files)
			root := gen.Pick(r, []string{"./" + f, filepath.Join(base, f)})
			args = append(args, root)
			steps = append(steps, step{root, f})
			c.Count("files given by name", 1)
		}
	}
	t.create(base)
	ex := expectRun(t, steps, m, o)
	res := c.run(runSpec{args: args, env: []string{"HOME=" + home}, dir: base})
	c.Case(fmt.Sprint(args, steps), len(steps) > 0 && c.res.Counters["files ignored"] > ignored0)
	if msg := c.judge(t, base, ex, res); msg != "" {
		c.Violate(msg, t.dump(), fmt.Sprint(args))
	}
}

// --- C27

var styleNames = map[format.IndentStyle]string{
	format.IndentNormal: ":normal", format.IndentList: ":list", format.IndentListBody: ":list-body", format.IndentLet: ":let",
	format.IndentLetfn: ":letfn", format.IndentFor: ":for", format.IndentDeftype: ":deftype", format.IndentCond0: ":cond0",
	format.IndentCond1: ":cond1", format.IndentCond2: ":cond2", format.IndentCond4: ":cond4",
}

var threadNames = map[format.ThreadFirstStyle]string{format.ThreadFirstNormal: ":normal", format.ThreadFirstCondArrow: ":cond->"}

// confWriter spells configurations.
type confWriter struct {
	r *rand.Rand
	b strings.Builder
}

func (w *confWriter) space() {
	w.b.WriteString(gen.Pick(w.r, []string{" ", " ", "\n", "  ", ", ", " ; a comment\n", " #_ skipped ", " #_(a {b c}) ", "\n#_ :indent-overrides\n", " #_#_ x y "}))
}

func (w *confWriter) seq(items []string) {
	op := gen.Pick(w.r, []string{"[]", "()"})
	w.b.WriteByte(op[0])
	for i, it := range items {
		if i > 0 || w.r.Intn(3) == 0 {
			w.space()
		}
		w.b.WriteString(it)
	}
	if w.r.Intn(4) == 0 {
		w.space()
	}
	w.b.WriteByte(op[1])
}

func (w *confWriter) seqString(items []string) string {
	n := &confWriter{r: w.r}
	n.seq(items)
	return n.b.String()
}

// pairs spells name to style pairs; names of one style may be put together,
// and an earlier entry may be overridden by a later one.
func (w *confWriter) pairs(m map[string]string, decoy func() string) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	w.r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	var items []string
	if len(ks) > 0 && w.r.Intn(3) == 0 {
		items = append(items, fmt.Sprintf("%q", ks[0]), decoy())
	}
	for len(ks) > 0 {
		group := []string{fmt.Sprintf("%q", ks[0])}
		style := m[ks[0]]
		ks = ks[1:]
		for len(ks) > 0 && m[ks[0]] == style && w.r.Intn(3) > 0 {
			group = append(group, fmt.Sprintf("%q", ks[0]))
			ks = ks[1:]
		}
		if len(group) > 1 || w.r.Intn(3) == 0 {
			items = append(items, w.seqString(group), style)
		} else {
			items = append(items, group[0], style)
		}
	}
	return w.seqString(items)
}

// spell writes the configuration of o.
func spell(r *rand.Rand, o *FmtOpts, exts []string) string {
	w := &confWriter{r: r}
	if r.Intn(3) == 0 {
		w.b.WriteString(gen.Pick(r, []string{"; my config\n", "\n\n", "#_ {:bogus 1}\n", "#!/usr/bin/env clj\n"}))
	}
	var entries []string
	if o.Indent != nil {
		m := map[string]string{}
		for k, v := range o.Indent {
			m[k] = styleNames[v]
		}
		entries = append(entries, ":indent-overrides", w.pairs(m, func() string { return styleNames[gen.Pick(r, allStyles)] }))
	}
	if o.Thread != nil {
		m := map[string]string{}
		for k, v := range o.Thread {
			m[k] = threadNames[v]
		}
		th := []string{":thread-first-overrides", w.pairs(m, func() string { return gen.Pick(r, []string{":normal", ":cond->"}) })}
		if r.Intn(2) == 0 {
			entries = append(th, entries...)
		} else {
			entries = append(entries, th...)
		}
	}
	if exts != nil {
		var q []string
		for _, e := range exts {
			q = append(q, fmt.Sprintf("%q", e))
		}
		entries = append(entries, ":extensions", w.seqString(q))
	}
	w.b.WriteByte('{')
	for i, e := range entries {
		if i > 0 {
			w.space()
		}
		w.b.WriteString(e)
	}
	if r.Intn(4) == 0 {
		w.space()
	}
	w.b.WriteString("}")
	if r.Intn(3) == 0 {
		w.space()
	}
	return w.b.String()
}

var badConfigs = []string{
	"{:indent-overrides [\"foo\" :no-such-style]}", "{:indent-overrides [\"foo\"]}", "{:indent-overrides}", "{:indent-overrides {\"foo\" :list}}",
	"{:indent-overrides [foo :list]}", "{:indent-overrides [\"foo\" \"list\"]}", "{:indent-overrides [[foo] :list]}", "{:indent-overrides [\"foo\" :cond->]}",
	"{:thread-first-overrides [\"-?>\" :list]}", "{:thread-first-overrides [\"-?>\"]}", "{:thread-first-overrides :normal}", "{:thread-first-overrides [x :normal]}",
	"{:extensions \".clj\"}", "{:extensions [.clj]}", "{:extensions [\".clj\" :clj]}", "{:extensions}", "{:extension [\".clj\"]}", "{:indent-override []}",
	"{:unknown 1}", "[]", "(:indent-overrides)", ":indent-overrides", "{} {}", "{:indent-overrides []} {}", "{", "{:indent-overrides [}", "\"", "{:a}", "}",
	"{:indent-overrides [\"foo\" :list]} x", "{:extensions [\".clj\"]\n :indent-overrides [\"x\" :nope]}", "{:indent-overrides [\"x\" :list] :bogus true}",
}

var overrideAliases = []string{"my", "s", "m", "a", "x"}

// overrideText makes texts whose layout depends on the overrides.
func overrideText(r *rand.Rand) string {
	var b strings.Builder
	switch r.Intn(4) {
	case 0:
		b.WriteString("(ns my.test\n  (:require [my.ns :as my] [org.lib1 :refer [f]] [x]))\n")
	case 1, 2:
		b.WriteString("(ns my.test\n  (:require")
		for _, lib := range []string{"my.ns", "org.lib1", "org.lib3", "a"} {
			switch r.Intn(4) {
			case 0:
				fmt.Fprintf(&b, " [%s :as %s]", lib, gen.Pick(r, overrideAliases))
			case 1:
				fmt.Fprintf(&b, " [%s :refer [%s]]", lib, gen.Pick(r, []string{"foo", "f", "mycond", "b", "foo f"}))
			case 2:
				fmt.Fprintf(&b, " [%s :as %s :refer [%s]]", lib, gen.Pick(r, overrideAliases), gen.Pick(r, []string{"foo", "f", "mycond", "b"}))
			}
		}
		b.WriteString("))\n")
	}
	for n := 1 + r.Intn(5); n > 0; n-- {
		h := gen.Pick(r, append(overrideNames, "my/foo", "f", "-?>", "mycond", "s/foo", "s/f", "m/foo", "my/f", "s/mycond", "m/b"))
		fmt.Fprintf(&b, "(%s %s [a\nb\nc\nd]\n x\n (up y\n z)\n (g\n 1)\n w)\n", h, gen.Pick(r, []string{"", "q", "(filter p\n xs)"}))
	}
	return b.String()
}

func c27(c *Ctx, idx int) {
	r := c.Rand(idx)
	base := filepath.Join(c.Dir, "t")
	if r.Intn(40) == 0 {
		c27badFlag(c, r, base)
		return
	}
	t := ftree{}
	type place struct {
		o       *FmtOpts
		exts    []string
		present bool // the file exists
		given   bool // the place is named
		bad     bool
		loop    bool // it is a symbolic link to itself, which cannot be opened
		path    string
	}
	places := []*place{{path: "conf/c"}, {path: "conf/e"}, {path: "home/.cljfmt"}}
	transforms := RandOpts(r, false)
	for i, p := range places {
		p.given = r.Intn(2) == 0
		p.present = p.given && r.Intn(8) > 0
		p.o = Defaults()
		if r.Intn(8) > 0 {
			RandOverrides(r, p.o)
			if r.Intn(3) == 0 {
				p.o.Thread = map[string]format.ThreadFirstStyle{gen.Pick(r, overrideNames): gen.Pick(r, []format.ThreadFirstStyle{format.ThreadFirstNormal, format.ThreadFirstCondArrow})}
			}
			if r.Intn(6) == 0 {
				p.o.Indent = nil
			}
		}
		if r.Intn(4) == 0 {
			p.exts = gen.Pick(r, [][]string{{".clj"}, {".txt"}, {".clj", ".txt"}, {}, {".txt", ".edn"}})
		}
		text := spell(r, p.o, p.exts)
		if p.o.Indent == nil && p.o.Thread == nil && p.exts == nil && r.Intn(2) == 0 {
			text = gen.Pick(r, []string{"", "\n", "; nothing\n", "{}", "#_ {:bogus []}"})
		}
		if r.Intn(6) == 0 {
			p.bad = true
			text = gen.Pick(r, badConfigs)
		}
		if p.present {
			t[places[i].path] = &fent{content: text, mode: 0o644}
			switch r.Intn(30) {
			case 0:
				p.bad = true
				t[p.path] = &fent{dir: true}
			case 1:
				p.present, p.loop = false, true
				t[p.path] = &fent{link: filepath.Base(p.path)}
			}
		}
	}
	t["home"] = &fent{dir: true}
	env := []string{}
	var args []string
	inForce := -1
	for i, p := range places {
		if p.given && inForce < 0 {
			inForce = i
		}
	}
	if places[0].given {
		args = append(args, gen.Pick(r, []string{"-c", "--c"}), places[0].path)
		if r.Intn(10) == 0 { // the last one counts
			args = append([]string{"-c", "conf/other"}, args...)
		}
	}
	if places[1].given {
		env = append(env, "CLJFMT_CONFIG_PATH="+places[1].path)
	}
	if places[2].given || r.Intn(2) == 0 {
		env = append(env, "HOME="+gen.Pick(r, []string{"home", filepath.Join(base, "home")}))
	}
	o := &FmtOpts{Set: transforms.Set, Char: ' ', Parse: parse.IncludeNonSemantic}
	exts := map[string]bool{".clj": true, ".cljs": true, ".cljc": true, ".edn": true}
	bad, missing := false, false
	if inForce >= 0 {
		p := places[inForce]
		switch {
		case !p.present:
			missing = true
			for _, q := range places[inForce+1:] {
				if q.present {
					return // whether a lower place then counts is not specified
				}
			}
		case p.bad:
			bad = true
		default:
			o.Indent, o.Thread = p.o.Indent, p.o.Thread
			if p.exts != nil {
				exts = map[string]bool{}
				for _, e := range p.exts {
					exts[e] = true
				}
			}
		}
	}
	text := func() string {
		if r.Intn(4) == 0 {
			s := c.smallSource(r)
			if _, err := Format(s, o); err == nil {
				return s
			}
		}
		return overrideText(r)
	}
	t["src/a.clj"] = &fent{content: text(), mode: 0o644}
	t["src/b.txt"] = &fent{content: text(), mode: 0o644}
	args = append(args, flagArgs(r, o)...)
	m := mode{list: r.Intn(3) == 0, write: r.Intn(2) == 0}
	spec := runSpec{dir: base, env: env}
	var steps []step
	switch r.Intn(4) {
	case 0:
		m = mode{}
		src := t["src/a.clj"].content
		spec.stdin = strings.NewReader(src)
		steps = []step{{"<stdin>", "src/a.clj"}}
	case 1:
		args = append(append(args, modeArgs(m)...), "src")
		steps = t.walk(c, "src", "src", exts)
	default:
		args = append(append(args, modeArgs(m)...), "src/b.txt", "src/a.clj")
		steps = []step{{"src/b.txt", "src/b.txt"}, {"src/a.clj", "src/a.clj"}}
	}
	spec.args = args
	t.create(base)
	res := c.run(spec)
	msg := ""
	switch {
	case bad:
		c.Count("invalid configurations", 1)
		switch {
		case res.crashed() != "":
			msg = res.crashed()
		case res.code == 0:
			msg = "exit status 0 with an invalid configuration"
		case res.err == "":
			msg = "no message about an invalid configuration"
		case !strings.Contains(res.err, places[inForce].path):
			msg = "the message about an invalid configuration does not name it: " + res.err
		case res.out != "":
			msg = "output in spite of an invalid configuration: " + trunc(res.out, 300)
		default:
			msg = t.compare(c, base, nil)
		}
		c.Case(fmt.Sprint(args, env, t[places[inForce].path].content), true)
	default:
		ex := expectRun(t, steps, m, o)
		changed := false
		for _, s := range steps {
			a, _ := Format(t[s.real].content, o)
			b, _ := Format(t[s.real].content, &FmtOpts{Set: o.Set, Parse: o.Parse})
			changed = changed || a != b
		}
		if changed {
			c.Count("outputs changed by the configuration", 1)
		}
		if inForce >= 0 && !missing {
			c.Count("configurations in force by "+[]string{"-c", "CLJFMT_CONFIG_PATH", "HOME"}[inForce], 1)
		}
		msg = c.judge(t, base, ex, res)
		if missing {
			c.Count("missing configurations", 1)
			p := places[inForce]
			if p.loop {
				c.Count("configurations that cannot be opened", 1)
			}
			if msg == "" && (inForce == 0 || p.loop) && !strings.Contains(res.err, p.path) {
				msg = "no warning about the missing or unreadable configuration file: " + res.err
			}
			if msg == "" && inForce > 0 && !p.loop && res.err != "" {
				msg = "a message although the default configuration file may be missing: " + res.err
			}
		}
		c.Case(fmt.Sprint(args, env, ex.out), changed || missing)
	}
	if msg != "" {
		c.Violate(msg, t.dump(), fmt.Sprint(args, env))
	}
}

func c27badFlag(c *Ctx, r *rand.Rand, base string) {
	t := ftree{"a.clj": {content: "(f\nx)", mode: 0o644}}
	t.create(base)
	f := gen.Pick(r, []string{"-enable-transform", "-disable-transform"})
	n := gen.Pick(r, []string{"no-such-transform", "", "Sort-Import-Require", "sort-import-require ", "0", "use_to_require"})
	args := []string{f, n, "-w", "a.clj"}
	if r.Intn(4) == 0 {
		args = []string{gen.Pick(r, []string{"-x", "--write", "-enable", "-lw"}), "-w", "a.clj"}
	}
	res := c.run(runSpec{args: args, dir: base, env: []string{"HOME=" + base}})
	c.Count("invalid flags", 1)
	c.Case(fmt.Sprint(args), true)
	msg := res.crashed()
	switch {
	case msg != "":
	case res.code == 0 || res.err == "":
		msg = fmt.Sprintf("an invalid flag is accepted: %v", args)
	case res.out != "":
		msg = "output in spite of an invalid flag"
	default:
		msg = t.compare(c, base, nil)
	}
	if msg != "" {
		c.Violate(msg, "", fmt.Sprint(args))
	}
}

// --- C28

const nobody = 65534

var haveStrace, haveNobody bool

func c28init(c *Ctx) {
	probe := filepath.Join(c.Dir, "probe.clj")
	must(os.WriteFile(probe, []byte("(a)\n"), 0o600))
	log := filepath.Join(c.Dir, "strace.log")
	cmd := exec.Command("strace", "-f", "-qq", "-o", log, "-P", probe, "-e", "inject=read:error=EIO:when=1", c.Tool, probe)
	cmd.Env = []string{"HOME=" + c.Dir}
	err := cmd.Run()
	b, _ := os.ReadFile(log)
	haveStrace = err != nil && strings.Contains(string(b), "(INJECTED)")
	cmd = exec.Command("/bin/cat", probe)
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
	out, err := cmd.CombinedOutput()
	haveNobody = err != nil && strings.Contains(string(out), "denied") && exec.Command("/bin/cat", probe).Run() == nil
	os.Remove(probe)
}

// lost judges a run in which a read or write was lost.
func lost(what string, res runResult) string {
	if m := res.crashed(); m != "" {
		return m
	}
	if res.code == 0 {
		return "exit status 0 although " + what
	}
	if res.err == "" && res.code > 0 {
		return "no message although " + what
	}
	return ""
}

func c28(c *Ctx, idx int) {
	r := c.Rand(idx)
	base := filepath.Join(c.Dir, "t")
	o := Defaults()
	o.Char = ' '
	var src, want string
	for want == src {
		src = c.smallSource(r)
		if r.Intn(3) == 0 {
			src = overrideText(r)
		}
		w, err := Format(src, o)
		if err != nil {
			src, want = "", ""
			continue
		}
		want = w
	}
	// a tree with an untouched neighbour
	t := ftree{"d/f.clj": {content: src, mode: 0o644}, "d/g.clj": {content: tidy("(a [b])\n", o), mode: 0o644}, "e/other.clj": {content: "(x\ny)", mode: 0o644}}
	home := filepath.Join(c.Dir, "nohome")
	env := []string{"HOME=" + home}
	f := filepath.Join(base, "d/f.clj")
	fail := func(msg string, args []string) {
		if msg != "" {
			c.Violate(msg, src, fmt.Sprint(args))
		}
	}
	happened := func(kind, key string) {
		c.Count("faults that happened", 1)
		c.Count("fault: "+kind, 1)
		c.Case(kind+" "+key+" "+src, true)
	}
	switch k := r.Intn(20); {
	case k == 0: // full device as standard output
		t.create(base)
		full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		must(err)
		defer full.Close()
		args := gen.Pick(r, [][]string{{f}, {"-l", f}, {"-l", filepath.Join(base, "d")}, {filepath.Join(base, "d")}, {}})
		s := runSpec{args: args, env: env, dir: base, stdout: full}
		if len(args) == 0 {
			s.stdin = strings.NewReader(src)
		}
		res := c.run(s)
		happened("standard output is full", fmt.Sprint(args))
		msg := lost("standard output is full", res)
		if msg == "" {
			msg = t.compare(c, base, nil)
		}
		fail(msg, args)
	case k == 1: // a missing path after a good one
		t.create(base)
		args := gen.Pick(r, [][]string{{filepath.Join(base, "missing.clj")}, {"-l", filepath.Join(base, "missing.clj")}, {"-w", filepath.Join(base, "missing.clj")}, {"-w", filepath.Join(base, "e/missing"), f}, {filepath.Join(base, "d/f.clj/missing")}})
		res := c.run(runSpec{args: args, env: env, dir: base})
		happened("missing path", fmt.Sprint(args))
		msg := lost("a path does not exist", res)
		if msg == "" && !strings.Contains(res.err, "missing") {
			msg = "the message does not name the missing path: " + res.err
		}
		if msg == "" {
			now := map[string]string{}
			if len(args) == 3 { // the good file may be processed or not
				if b, _ := os.ReadFile(f); string(b) == want {
					now["d/f.clj"] = want
				}
			}
			msg = t.compare(c, base, now)
		}
		fail(msg, args)
	case k == 2: // standard input cannot be read
		t.create(base)
		d, err := os.Open(base)
		must(err)
		defer d.Close()
		args := gen.Pick(r, [][]string{{}, {"-l"}})
		res := c.run(runSpec{args: args, env: env, dir: base, stdin: d})
		happened("standard input is a directory", fmt.Sprint(args))
		msg := lost("standard input cannot be read", res)
		if msg == "" && res.out != "" {
			msg = "output although standard input cannot be read: " + res.out
		}
		fail(msg, args)
	case k == 3: // the reader of a pipe goes away
		t["d/f.clj"].content = strings.Repeat(src+"\n", 200000/len(src)+1)
		if w, err := Format(t["d/f.clj"].content, o); err != nil || len(w) < 150000 { // more than a pipe holds
			return
		}
		t.create(base)
		pr, pw, err := os.Pipe()
		must(err)
		go func() {
			io.ReadFull(pr, make([]byte, 10))
			pr.Close()
		}()
		res := c.run(runSpec{args: []string{f}, env: env, dir: base, stdout: pw})
		pw.Close()
		happened("the pipe is closed", "")
		msg := res.crashed()
		if msg == "" && res.code == 0 {
			msg = "exit status 0 although the pipe was closed"
		}
		if msg == "" {
			msg = t.compare(c, base, nil)
		}
		fail(msg, []string{f})
	case k < 7: // the file system is full while rewriting or printing
		self, err := os.Executable()
		must(err)
		limit := r.Intn(len(want) + 2)
		wrap := []string{self, "limit", fmt.Sprint(limit)}
		t.create(base)
		if r.Intn(3) == 0 {
			outName := filepath.Join(c.Dir, "out")
			out, err := os.Create(outName)
			must(err)
			res := c.run(runSpec{args: []string{f}, env: env, dir: base, stdout: out, wrap: wrap})
			out.Close()
			b, _ := os.ReadFile(outName)
			msg := res.crashed()
			switch {
			case msg != "":
			case limit < len(want):
				happened("no space for the output", fmt.Sprint(limit))
				msg = lost("the output is incomplete", res)
				if msg == "" && !strings.HasPrefix(want, string(b)) {
					msg = "what was printed is not a prefix of the output"
				}
			case res.code != 0 || string(b) != want:
				msg = fmt.Sprintf("exit status %d without a fault: %s", res.code, res.err)
			}
			if msg == "" {
				msg = t.compare(c, base, nil)
			}
			fail(msg, []string{f, "limit", fmt.Sprint(limit)})
			return
		}
		args := []string{"-w", gen.Pick(r, []string{f, filepath.Join(base, "d")})}
		res := c.run(runSpec{args: args, env: env, dir: base, wrap: wrap})
		msg := res.crashed()
		now := map[string]string{"d/f.clj": want}
		switch {
		case msg != "":
		case limit >= len(want):
			if res.code != 0 {
				msg = fmt.Sprintf("exit status %d without a fault: %s", res.code, res.err)
			}
		default:
			happened("no space for the file", fmt.Sprint(limit))
			msg = lost("the file could not be rewritten", res)
			if msg == "" && limit >= len(src) {
				c.Count("files that could be restored", 1)
				b, err := os.ReadFile(f)
				if err != nil || string(b) != src {
					msg = fmt.Sprintf("a failed rewrite destroys the file: %v %s", err, diffText(src, string(b)))
				}
			}
			b, _ := os.ReadFile(f) // too small a limit allows nothing better
			now["d/f.clj"] = string(b)
		}
		if msg == "" {
			msg = t.compare(c, base, now)
		}
		fail(msg, append(args, "limit", fmt.Sprint(limit)))
	case k < 10: // permissions
		if !haveNobody {
			c.Count("skipped: no unprivileged user", 1)
			return
		}
		c28perm(c, r, t, base, f, src, want)
	default:
		if !haveStrace {
			c.Count("skipped: strace cannot inject", 1)
			return
		}
		c28inject(c, r, t, base, f, src, want)
	}
}

// c28perm runs the tool as a user without rights.
func c28perm(c *Ctx, r *rand.Rand, t ftree, base, f, src, want string) {
	d := filepath.Join(base, "d")
	args := []string{gen.Pick(r, []string{"-l", "-w"}), gen.Pick(r, []string{f, d, base})}
	if r.Intn(3) == 0 {
		args = args[1:]
	}
	write := args[0] == "-w"
	if write { // files of the user
		for _, e := range t {
			e.mode = 0o644
		}
	}
	t.create(base)
	if write {
		must(filepath.Walk(base, func(p string, _ os.FileInfo, err error) error { must(err); return os.Chown(p, nobody, nobody) }))
	}
	kind := r.Intn(4)
	what := ""
	now := map[string]string{}
	broken := true
	switch kind {
	case 0:
		what = "the file cannot be read"
		must(os.Chmod(f, 0o200))
	case 1:
		what = "the directory cannot be listed"
		if args[len(args)-1] == f {
			args[len(args)-1] = d
		}
		must(os.Chmod(d, 0o300))
		if !write {
			must(os.Chmod(d, 0))
		}
	case 2:
		what = "the file cannot be written"
		must(os.Chmod(f, 0o444))
		broken = write
	case 3:
		what = "the file is not reachable"
		must(os.Chmod(d, 0o600))
		if args[len(args)-1] != f {
			args[len(args)-1] = f
		}
		if !write {
			must(os.Chmod(d, 0))
		}
	}
	other := filepath.Join(base, "e/other.clj")
	if target := args[len(args)-1]; target != base {
		switch r.Intn(3) {
		case 0:
			args = append(args, other)
		case 1:
			args = append(args[:len(args)-1:len(args)-1], other, target)
		}
	}
	res := c.run(runSpec{args: args, env: []string{"HOME=" + base}, dir: base, uid: nobody})
	must(os.Chmod(d, 0o755))
	must(os.Chmod(f, t["d/f.clj"].mode))
	c.Count("faults that happened", 1)
	c.Count("fault: "+what, 1)
	c.Case(fmt.Sprint(what, args, src), true)
	msg := res.crashed()
	switch {
	case msg != "":
	case broken:
		msg = lost(what, res)
		if msg == "" && !strings.Contains(res.err, filepath.Base(f)) && !strings.Contains(res.err, d) {
			msg = "the message does not name the path: " + res.err
		}
	case res.code != 0:
		msg = fmt.Sprintf("exit status %d although nothing has to be written: %s", res.code, res.err)
	}
	// other files of the same run may have been rewritten
	if write {
		if b, _ := os.ReadFile(other); string(b) != t["e/other.clj"].content {
			o, _ := Format(t["e/other.clj"].content, Defaults())
			now["e/other.clj"] = o
		}
	}
	if msg == "" {
		msg = t.compare(c, base, now)
	}
	if msg != "" {
		c.Violate(msg, src, fmt.Sprint(what, args))
	}
}

// c28inject injects one error into the system calls on one path.
func c28inject(c *Ctx, r *rand.Rand, t ftree, base, f, src, want string) {
	d := filepath.Join(base, "d")
	conf := filepath.Join(base, "conf")
	t["conf"] = &fent{content: "{:extensions [\".clj\"]}", mode: 0o644}
	outName := filepath.Join(c.Dir, "out")
	log := filepath.Join(c.Dir, "strace.log")
	os.Remove(log)
	m := gen.Pick(r, []mode{{}, {list: true}, {write: true}, {write: true}, {list: true, write: true}})
	arg := gen.Pick(r, []string{f, d})
	target := gen.Pick(r, []string{f, f, f, d, conf, outName})
	if target == d {
		arg = d
	}
	var calls []string
	switch target {
	case d:
		calls = []string{"openat", "getdents64", "newfstatat"}
	case conf:
		calls = []string{"openat", "read"}
	case outName:
		calls = []string{"write"}
		m.write = m.write && m.list
	default:
		calls = []string{"openat", "read", "read", "newfstatat", "fstat"}
		if m.write {
			calls = append(calls, "write", "write", "openat")
		}
	}
	call := gen.Pick(r, calls)
	errno := gen.Pick(r, []string{"EIO", "ENOSPC", "EACCES", "EMFILE", "EINTR"})
	when := fmt.Sprint(1 + r.Intn(3))
	if call == "read" && r.Intn(3) == 0 {
		when = fmt.Sprint(1 + r.Intn(8))
	}
	if r.Intn(5) == 0 && errno != "EINTR" {
		when += "+"
	}
	t.create(base)
	out, err := os.Create(outName)
	must(err)
	args := append(append([]string{"-c", conf}, modeArgs(m)...), arg)
	wrap := []string{"strace", "-f", "-qq", "-o", log, "-P", target, "-e", fmt.Sprintf("inject=%s:error=%s:when=%s", call, errno, when)}
	res := c.run(runSpec{args: args, env: []string{"HOME=" + base}, dir: base, stdout: out, wrap: wrap})
	out.Close()
	lb, _ := os.ReadFile(log)
	hits := 0
	wrote := false // a write into the source file or its truncation came first
	for _, l := range strings.Split(string(lb), "\n") {
		if strings.Contains(l, "(INJECTED)") {
			hits++
		} else if hits == 0 && strings.Contains(l, "O_TRUNC") {
			wrote = true
		}
	}
	printed, _ := os.ReadFile(outName)
	desc := fmt.Sprintf("%s of %s: %s, when %s, %d hits", call, filepath.Base(target), errno, when, hits)
	c.Case(desc+fmt.Sprint(args)+src, hits > 0)
	msg := res.crashed()
	steps := []step{{f, "d/f.clj"}}
	if arg == d {
		steps = t.walk(c, "d", d, map[string]bool{".clj": true})
	}
	ex := expectRun(t, steps, m, Defaults())
	switch {
	case msg != "":
	case hits == 0 || errno == "EINTR":
		if hits > 0 {
			c.Count("faults that happened", 1)
			c.Count("fault: injected EINTR", 1)
		} else {
			c.Count("injections that never fired", 1)
		}
		res.out = string(printed)
		msg = c.judge(t, base, ex, res)
		if msg == "" && target == conf && res.err != "" {
			msg = "an unexpected message: " + res.err
		}
	case target == conf && call == "openat":
		c.Count("faults that happened", 1)
		c.Count("fault: injected into the configuration", 1)
		if res.err == "" {
			msg = "the configuration cannot be opened, and there is no message"
		}
	default:
		c.Count("faults that happened", 1)
		c.Count("fault: injected into "+call, 1)
		if call == "fstat" || call == "newfstatat" {
			// a status that turns out not to be needed may be ignored
			if full := res; res.code == 0 {
				full.out = string(printed)
				if msg = c.judge(t, base, ex, full); msg != "" {
					msg += " (a system call failed)"
				}
				break
			}
		}
		msg = lost("a system call failed", res)
		if msg == "" && !strings.HasPrefix(ex.out, string(printed)) {
			msg = "what was printed is not a prefix of the output: " + diffText(ex.out, string(printed))
		}
		now := map[string]string{}
		b, _ := os.ReadFile(f)
		switch {
		case m.write && string(b) == want:
			now["d/f.clj"] = want
		case m.write && wrote && strings.HasSuffix(when, "+"):
			now["d/f.clj"] = string(b) // the original cannot be put back either
		case m.write:
			now["d/f.clj"] = src // perhaps put back
			if wrote {
				c.Count("files that could be restored", 1)
			}
		}
		if msg == "" {
			msg = t.compare(c, base, now)
		}
	}
	if msg != "" {
		c.Violate(msg+" ["+desc+"]", src, fmt.Sprint(args, wrap))
	}
}
