package main

import (
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"goclj.verif/mon/gen"
	"goclj.verif/mon/ref"
)

func init() {
	register(&Check{
		ID: "C32", Quick: 2250, Thorough: 30000, CLI: true,
		Rule: "Histories of cljfmt invocations on one scratch tree of well-formed files (nested directories, links, names given twice, odd modes), all with the same flags and configuration: print, list, write, list, write, print, list and write together, with edits of files in between. The runs are compared with each other and with the files only: what -l names must be what -w then changes and what printing shows as different, after -w nothing is listed and nothing is touched, and the files hold what was printed for them. Non-trivial: a file was rewritten and another one was not.",
		Min:  map[string]int64{"histories": 900, "runs": 6000, "files rewritten": 1800, "files left alone": 1800, "files edited in between": 900},
		Run:  c32,
	})
}

// snap is what the monitor knows of a file.
type snap struct {
	content string
	fi      os.FileInfo
}

func c32(c *Ctx, idx int) {
	r := c.Rand(idx)
	o := RandOpts(r, true)
	o.Char = ' '
	base := filepath.Join(c.Dir, "t")
	args := flagArgs(r, o)
	o.Indent, o.Thread = nil, nil
	if r.Intn(3) == 0 {
		RandOverrides(r, o)
		conf := filepath.Join(c.Dir, "conf")
		must(os.WriteFile(conf, []byte(spell(r, o, nil)), 0o644))
		args = append(args, "-c", conf)
	}
	t := ftree{}
	text := func() string {
		for {
			var s string
			switch r.Intn(6) {
			case 0:
				s = overrideText(r)
			case 1:
				if n, ok := c.anyNS(r); ok {
					s = n
				}
			default:
				s = c.fileText(r, o)
			}
			if len(s) > 20000 {
				continue
			}
			if _, err := ref.Read(s); err == nil {
				if _, err := Format(s, o); err == nil {
					return s
				}
			}
		}
	}
	randTree(c, r, t, "", r.Intn(3), text)
	t["x.clj"] = &fent{content: text(), mode: 0o644}
	var files []string
	for _, p := range t.paths() {
		if !t[p].dir {
			t[p].mode = gen.Pick(r, []fs.FileMode{0o644, 0o644, 0o600, 0o755, 0o444})
			files = append(files, p)
			if d := filepath.Dir(p) + "/lnk.clj"; r.Intn(10) == 0 && t[filepath.Clean(d)] == nil {
				t[filepath.Clean(d)] = &fent{link: filepath.Base(p)}
			}
		}
	}
	var paths []string
	switch r.Intn(3) {
	case 0:
		paths = []string{"."}
	case 1:
		paths = []string{base}
	default:
		for _, p := range files {
			if r.Intn(3) > 0 {
				paths = append(paths, "./"+p)
			}
		}
		if len(paths) == 0 || r.Intn(4) == 0 {
			paths = append(paths, "./")
		}
		if r.Intn(4) == 0 {
			paths = append(paths, paths[0])
		}
	}
	t.create(base)
	env := []string{"HOME=" + filepath.Join(c.Dir, "nohome")}
	var log []string
	look := func() map[string]snap {
		m := map[string]snap{}
		must(filepath.Walk(base, func(p string, fi os.FileInfo, err error) error {
			must(err)
			if fi.Mode().IsRegular() {
				b, err := os.ReadFile(p)
				must(err)
				m[p] = snap{string(b), fi}
			}
			return nil
		}))
		return m
	}
	// touched lists the files which differ from before, and whether only
	// their state (not the content) does.
	touched := func(before, after map[string]snap) (changed []string, msg string) {
		for p, a := range after {
			b, ok := before[p]
			switch {
			case !ok:
				return nil, fmt.Sprintf("a file appeared: %q", p)
			case a.content != b.content:
				if a.fi.Mode() != b.fi.Mode() {
					return nil, fmt.Sprintf("the mode of %q became %v", p, a.fi.Mode())
				}
				changed = append(changed, p)
			case !a.fi.ModTime().Equal(b.fi.ModTime()) || !os.SameFile(a.fi, b.fi) || a.fi.Mode() != b.fi.Mode():
				return nil, fmt.Sprintf("%q was touched although its content is the same", p)
			}
		}
		if len(after) != len(before) {
			return nil, "a file disappeared"
		}
		sort.Strings(changed)
		return changed, ""
	}
	fail := func(msg string) {
		c.Violate(msg+"; runs: "+strings.Join(log, ", "), t.dump(), fmt.Sprint(args, paths))
	}
	stop := false
	run := func(mode ...string) string {
		argv := append(append(append([]string(nil), mode...), args...), paths...)
		if r.Intn(2) == 0 {
			argv = append(append(append([]string(nil), args...), mode...), paths...)
		}
		res := c.run(runSpec{args: argv, env: env, dir: base})
		log = append(log, fmt.Sprint(mode))
		if m := res.crashed(); m != "" {
			fail(m)
			stop = true
		} else if res.code != 0 || res.err != "" {
			fail(fmt.Sprintf("exit status %d on well-formed files: %s", res.code, trunc(res.err, 500)))
			stop = true
		}
		return res.out
	}
	// names turns a listing into the files it names.
	names := func(out string) ([]string, string) {
		if out != "" && !strings.HasSuffix(out, "\n") {
			return nil, "the list does not end with a line end"
		}
		seen := map[string]bool{}
		var l []string
		for _, n := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
			if n == "" {
				continue
			}
			p := n
			if !filepath.IsAbs(p) {
				p = filepath.Join(base, n)
			}
			p, err := filepath.EvalSymlinks(p)
			if err != nil {
				return nil, fmt.Sprintf("the list names no file: %q", n)
			}
			if !seen[p] {
				seen[p] = true
				l = append(l, p)
			}
		}
		sort.Strings(l)
		return l, ""
	}
	same := func(a, b []string) bool { return strings.Join(a, "\x00") == strings.Join(b, "\x00") }

	for round := 0; round < 2 && !stop; round++ {
		s0 := look()
		printed := run()
		if stop {
			return
		}
		listed, msg := names(run("-l"))
		if stop {
			return
		}
		s1 := look()
		if ch, m := touched(s0, s1); m != "" || len(ch) > 0 {
			fail(fmt.Sprintf("printing and listing change files: %s %q", m, ch))
			return
		}
		if msg != "" {
			fail(msg)
			return
		}
		wmode := []string{"-w"}
		if r.Intn(3) == 0 {
			wmode = []string{"-l", "-w"}
		}
		wout := run(wmode...)
		if stop {
			return
		}
		s2 := look()
		changed, m := touched(s1, s2)
		switch {
		case m != "":
			fail(m)
			return
		case !same(changed, listed):
			fail(fmt.Sprintf("-l lists %q but -w changes %q", listed, changed))
			return
		case len(wmode) == 1 && wout != "":
			fail(fmt.Sprintf("-w prints %q", trunc(wout, 300)))
			return
		case len(wmode) == 2:
			l, msg := names(wout)
			if msg != "" || !same(l, changed) {
				fail(fmt.Sprintf("-l -w lists %q but changes %q %s", l, changed, msg))
				return
			}
		}
		c.Count("files rewritten", int64(len(changed)))
		c.Count("files left alone", int64(len(s2)-len(changed)))
		c.Case(fmt.Sprint(args, paths, t.dump(), round), len(changed) > 0 && len(changed) < len(s2))
		// everything is formatted now
		for k := 0; k < 2; k++ {
			mode := gen.Pick(r, [][]string{{"-l"}, {"-w"}, {"-l", "-w"}, {"-l"}})
			if out := run(mode...); stop {
				return
			} else if out != "" {
				fail(fmt.Sprintf("after -w, %v prints %q", mode, trunc(out, 300)))
				return
			}
		}
		printed2 := run()
		if stop {
			return
		}
		s3 := look()
		if ch, m := touched(s2, s3); m != "" || len(ch) > 0 {
			fail(fmt.Sprintf("a run on formatted files changes files: %s %q", m, ch))
			return
		}
		if printed2 != printed {
			fail("after -w, other text is printed than before: " + diffText(printed, printed2))
			return
		}
		// the files hold what is printed for them
		if len(paths) == 1 || round == 0 {
			f := gen.Pick(r, files)
			old := paths
			paths = []string{"./" + f}
			out := run()
			paths = old
			if stop {
				return
			}
			isIn := false
			for _, p := range changed {
				isIn = isIn || p == filepath.Join(base, f)
			}
			if isIn && out != s3[filepath.Join(base, f)].content {
				fail(fmt.Sprintf("%q was rewritten to another text than is printed for it: %s", f, diffText(out, s3[filepath.Join(base, f)].content)))
				return
			}
		}
		if round == 1 {
			break
		}
		// spoil some of the files
		for _, f := range files {
			if r.Intn(3) > 0 {
				continue
			}
			p := filepath.Join(base, f)
			s := s3[p].content
			if r.Intn(2) == 0 {
				s = text()
			} else {
				s = strings.TrimSuffix(s, "\n") + gen.Pick(r, []string{"\n(x  y)\n", "\n\n\n\n(x)\n", " ", "\n(f\n x)\n", "\n"})
			}
			if _, err := ref.Read(s); err != nil {
				continue
			}
			must(os.Chmod(p, 0o644))
			must(os.WriteFile(p, []byte(s), 0o644))
			must(os.Chmod(p, s3[p].fi.Mode()))
			must(os.Chtimes(p, oldTime, oldTime))
			c.Count("files edited in between", 1)
			log = append(log, fmt.Sprintf("edit %q %q", f, trunc(s, 400)))
		}
	}
	c.Count("histories", 1)
}
