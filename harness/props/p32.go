package props

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"robpike.io/ivy/value"
	"verif/ivy"
	"verif/mc"
)

func init() {
	register(&mc.Prop{ID: "P32", Run: runP32,
		Rule:        "every file content up to a length over an alphabet of a letter, a multi-byte letter, blank, tab, NUL, carriage return and line feed; every line of one character below U+3000 and every pair of control and separator characters; every line length and line count around the buffer and array node sizes (16, 256, 4096, 65536 and their neighbours); every arrangement of the arguments of sys over an alphabet of values, and of names of existing, missing, unreadable (directory) and oddly named files; compared: the value (one character vector per line) or an error, the file unchanged, no variable changed, and the next line evaluated",
		Assumptions: []string{"a carriage return that ends a file without a line feed may or may not be dropped; files are valid UTF-8"}})
}

// lines32 splits a file into its lines. loose: the last line ends in a carriage return, no line feed.
func lines32(s string) (lines []string, loose bool) {
	if s == "" {
		return nil, false
	}
	tail := !strings.HasSuffix(s, "\n")
	parts := strings.Split(s, "\n")
	if !tail {
		parts = parts[:len(parts)-1]
	}
	for i, p := range parts {
		if tail && i == len(parts)-1 {
			return append(lines, p), strings.HasSuffix(p, "\r")
		}
		lines = append(lines, strings.TrimSuffix(p, "\r"))
	}
	return lines, false
}

func isLines32(v value.Value, lines []string) string {
	vec, ok := v.Inner().(*value.Vector)
	if !ok {
		return fmt.Sprintf("a %T", v.Inner())
	}
	if vec.Len() != len(lines) {
		return fmt.Sprintf("%d lines, expected %d", vec.Len(), len(lines))
	}
	for i, l := range lines {
		x, ok := vec.At(i).(*value.Vector)
		if !ok {
			return fmt.Sprintf("line %d a %T", i+1, vec.At(i))
		}
		r := []rune(l)
		if x.Len() != len(r) {
			return fmt.Sprintf("line %d of %d characters, expected %d", i+1, x.Len(), len(r))
		}
		for j, c := range r {
			if x.At(j) != value.Value(value.Char(c)) {
				return fmt.Sprintf("line %d character %d %s, expected %q", i+1, j+1, ivy.Dump(x.At(j)), c)
			}
		}
	}
	return ""
}

func runP32(c *mc.Ctx) {
	dir, err := os.MkdirTemp("", "p32-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "file.txt")
	s := ivy.New()
	s.SetVar("x", value.NewIntVector(1, 2, 3))
	read := func(t *mc.T, what, content string) bool {
		if err := os.WriteFile(file, []byte(content), 0666); err != nil {
			panic(err)
		}
		v, e, p := s.Eval1("sys 'read' '" + file + "'")
		t.Step(1)
		if e != "" || p != nil {
			t.Failf("file %s: sys 'read' reports %s %v", what, e, p)
			return false
		}
		lines, loose := lines32(content)
		bad := isLines32(v, lines)
		if bad != "" && loose {
			n := len(lines) - 1
			lines[n] = strings.TrimSuffix(lines[n], "\r")
			if isLines32(v, lines) == "" {
				bad = ""
			}
		}
		if bad != "" {
			t.Failf("file %s: sys 'read' gives %s", what, bad)
			return false
		}
		if b, err := os.ReadFile(file); err != nil || string(b) != content {
			t.Failf("file %s: changed by sys 'read' to %q %v", what, b, err)
			return false
		}
		t.Observe(what)
		return true
	}
	c.Group("contents")
	alpha := []string{"\n", "\r", "a", "é", " ", "\t", "\x00"}
	n := 5
	if !c.Quick {
		n = 7
	}
	for _, a := range alpha {
		for _, b := range alpha {
			if c.Skip() {
				continue
			}
			c.Do(fmt.Sprintf("contents starting %q", a+b), func(t *mc.T) {
				read(t, fmt.Sprintf("%q", a), a)
				read(t, "\"\"", "")
				var rec func(w string, k int)
				rec = func(w string, k int) {
					if t.Failed() || !read(t, fmt.Sprintf("%q", w), w) || k == n {
						return
					}
					for _, x := range alpha {
						rec(w+x, k+1)
					}
				}
				rec(a+b, 2)
			})
		}
	}
	// Every line of one character and every pair of the unusual ones.
	unusual := "\a\b\t\v\f\r\x1a\x1b\x7f\u0085\u00a0\u2028\u2029\ufeff\ufffd\U0010ffff"
	c.Case("lines of one character", func(t *mc.T) {
		for r := rune(0); r < 0x3000; r++ {
			if r != '\n' && !read(t, fmt.Sprintf("\"a\\n\" %q \"\\nb\\n\"", r), "a\n"+string(r)+"\nb\n") {
				return
			}
		}
		for _, a := range unusual {
			for _, b := range unusual {
				w := string(a) + string(b)
				for _, w := range []string{w, w + "\n", w + "\n\n", "\n" + w, "a" + w + "a\n", string(a) + "\n" + string(b), w + "\r\n" + w + "\r\n"} {
					if !read(t, fmt.Sprintf("%q", w), w) {
						return
					}
				}
			}
		}
	})
	c.Group("sizes")
	sizes := []int{15, 16, 17, 255, 256, 257, 4094, 4095, 4096, 4097, 4098, 65534, 65535, 65536, 65537, 131072}
	for _, size := range sizes {
		for _, end := range []string{"\n", "\r\n", ""} {
			c.Case(fmt.Sprintf("line of %d characters ending %q", size, end), func(t *mc.T) {
				for _, ch := range []string{"a", "é", "\r"} {
					l := strings.Repeat(ch, size)
					for _, w := range []string{l + end, "x" + end + "\n" + l + end, l + "\n" + l + end, l + "\n\n" + "y" + end} {
						if !read(t, fmt.Sprintf("of lines of %d %q, ending %q", size, ch, end), w) {
							return
						}
					}
				}
			})
			if size > 70000 {
				continue
			}
			c.Case(fmt.Sprintf("%d lines ending %q", size, end), func(t *mc.T) {
				for _, l := range []string{"", "a", "bé"} {
					var b strings.Builder
					for i := range size {
						if i > 0 {
							b.WriteString("\n")
						}
						if i%3 == 1 {
							fmt.Fprint(&b, i)
						}
						b.WriteString(l)
					}
					if !read(t, fmt.Sprintf("of %d lines %q ending %q", size, l, end), b.String()+end) {
						return
					}
				}
			})
		}
	}
	c.Group("arguments")
	odd := []string{"f", "é", "a b", "x.y", "-", "#", "%d", "it`s", "a\tb"}
	for _, name := range odd {
		os.WriteFile(filepath.Join(dir, name), []byte("hello\n"+name+"\n"), 0666)
	}
	c.Case("odd names", func(t *mc.T) {
		// Relative names: the file is found from the working directory.
		wd, err := os.Getwd()
		if err != nil {
			panic(err)
		}
		defer os.Chdir(wd)
		if err := os.Chdir(dir); err != nil {
			panic(err)
		}
		for _, name := range odd {
			for _, q := range []string{name, filepath.Join(dir, name), "./" + name} {
				for _, set := range []string{"", ")base 16", ")format '%x'", ")origin 0"} {
					s := ivy.New()
					s.Run(set)
					src := "sys 'read' \"" + strings.ReplaceAll(q, "\t", "\\t") + "\""
					v, e, p := s.Eval1(src)
					t.Step(1)
					if e != "" || p != nil {
						t.Failf("%s %s: %s %v", set, src, e, p)
						return
					}
					if bad := isLines32(v, []string{"hello", name}); bad != "" {
						t.Failf("%s %s: %s", set, src, bad)
						return
					}
				}
			}
		}
	})
	args := []string{"'read'", "'" + file + "'", "'" + dir + "'", "'" + dir + "/missing'", "'" + file + "/x'", "''", "'r'", "1", "(iota 0)", "(2 2 rho 'abcd')", "('ab' 'cd')", "'origin'", "'nosuch'", "x"}
	for _, a := range args {
		if c.Skip() {
			continue
		}
		c.Do("sys of arguments starting "+a, func(t *mc.T) {
			os.WriteFile(file, []byte("one\ntwo\n"), 0666)
			all := []string{a}
			for _, b := range args {
				all = append(all, a+" "+b)
				for _, d := range args {
					all = append(all, a+" "+b+" "+d)
				}
			}
			s := ivy.New()
			s.SetVar("x", value.NewIntVector(1, 2, 3))
			good := "'read' '" + file + "'"
			for _, src := range all {
				v, e, p := s.Eval1("sys " + src)
				t.Step(1)
				switch {
				case p != nil:
					t.Failf("sys %s: %v", src, p)
				case src == good:
					if e != "" || isLines32(v, []string{"one", "two"}) != "" {
						t.Failf("sys %s: %s", src, show(v, e, p))
					}
				case src == "'origin'":
					if e != "" || ivy.Dump(v) != "1" {
						t.Failf("sys %s: %s", src, show(v, e, p))
					}
				case e == "":
					t.Failf("sys %s: %s, expected an error", src, show(v, e, p))
				}
				t.Observe(src + " " + e)
				if v, e, p := s.Eval1("x"); e != "" || p != nil || ivy.Dump(v) != "[1 2 3]" {
					t.Failf("sys %s; x: %s", src, show(v, e, p))
				}
				if t.Failed() {
					return
				}
			}
		})
	}
}
