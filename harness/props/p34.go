package props

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"verif/ivy"
	"verif/mc"
)

func init() {
	register(&mc.Prop{ID: "P34", Run: runP34,
		Rule:        "every word of the documentation (doc.go), as written, in lower and in upper case, given to )help about; every topic and its synonyms, and every operator of the tables in lower and upper case, given to )help, in every pair of base settings; after each, a variable, the settings and the next line; compared with the lines of doc.go",
		Assumptions: []string{"doc.go is the documentation", "operators whose table row has no name of its own (div, idiv, imod) are shown with the operator before them", "@f, f@, /% and \\% are not single tokens and cannot be asked for"}})
}

func runP34(c *mc.Ctx) {
	repo := os.Getenv("IVY_REPO")
	if repo == "" {
		repo = "/repo"
	}
	text, err := os.ReadFile(filepath.Join(repo, "doc.go"))
	if err != nil {
		panic(err)
	}
	_, doc, ok := strings.Cut(string(text), "/*\n")
	doc, _, ok2 := strings.Cut(doc, "\n*/")
	if !ok || !ok2 {
		panic("no documentation in doc.go")
	}
	lines := strings.Split(strings.Trim(doc, "\n"), "\n")
	nonblank := func(s string) []string {
		var out []string
		for _, l := range strings.Split(s, "\n") {
			if strings.TrimSpace(l) != "" {
				out = append(out, l)
			}
		}
		return out
	}
	same := func(a, b []string) bool { return strings.Join(a, "\n") == strings.Join(b, "\n") }
	between := func(start, end string) []string {
		var out []string
		in := start == ""
		for _, l := range lines {
			if start != "" && strings.HasPrefix(l, start) {
				in = true
			}
			if end != "" && strings.HasPrefix(l, end) && in {
				break
			}
			if in && strings.TrimSpace(l) != "" {
				out = append(out, l)
			}
		}
		return out
	}
	if len(lines) < 100 {
		panic("documentation too short")
	}
	// help runs a command in a session and checks that it changes nothing.
	help := func(t *mc.T, pre, cmd string) []string {
		s := ivy.New()
		if pre != "" {
			s.Run(pre)
		}
		out, errs, p := s.Run(cmd)
		t.Step(1)
		if errs != "" || p != nil {
			t.Failf("%s reports %q %v", cmd, errs, p)
			return nil
		}
		t.Observe(out)
		after, _, _ := s.Run(")base\n)origin\nx")
		want, _, _ := func() (string, string, any) {
			z := ivy.New()
			if pre != "" {
				z.Run(pre)
			}
			return z.Run(")base\n)origin\nx")
		}()
		if after != want {
			t.Failf("after %s: %q, expected %q", cmd, after, want)
		}
		return nonblank(out)
	}
	const pre = "x = 1 10 100"
	words := map[string]bool{}
	re := regexp.MustCompile(`[A-Za-z]+|[0-9]+`)
	for _, l := range lines {
		for _, w := range re.FindAllString(l, -1) {
			words[w] = true
			words[strings.ToLower(w)] = true
			words[strings.ToUpper(w)] = true
			words[strings.ToUpper(w[:1])+strings.ToLower(w[1:])] = true
			for i := 1; i < len(w) && !c.Quick; i++ {
				words[w[:i]] = true
				words[w[i:]] = true
			}
		}
	}
	words["zzzz"], words["qqx"] = true, true
	var list []string
	for w := range words {
		list = append(list, w)
	}
	sort.Strings(list)
	c.Group("about")
	for i := 0; i < len(list); i += 40 {
		part := list[i:min(len(list), i+40)]
		if c.Skip() {
			continue
		}
		c.Do("about "+part[0], func(t *mc.T) {
			for _, w := range part {
				if regexp.MustCompile(`^[0-9]+[a-z]|^0[0-9]`).MatchString(w) {
					continue
				}
				var want []string
				for _, l := range lines {
					if strings.Contains(strings.ToLower(l), strings.ToLower(w)) && strings.TrimSpace(l) != "" {
						want = append(want, l)
					}
				}
				got := help(t, pre, ")help about "+w)
				if !same(got, want) {
					t.Failf(")help about %s prints %d lines %.300q, expected %d lines %.300q", w, len(got), got, len(want), want)
				}
			}
		})
	}
	c.Group("topics")
	bases := []string{"", "\n)base 16", "\n)ibase 2", "\n)obase 16"}
	for _, b := range bases {
		for _, tp := range [][]string{
			{"", "Unary operators", "intro", "introduction"}, {"Unary operators", "Binary operators", "unary", "monadic"},
			{"Binary operators", "Operators and axis indicator", "binary", "dyadic"}, {"Operators and axis indicator", "Type-converting operations", "axis"},
			{"Type-converting operations", "# Pre-defined constants", "type", "types", "conversion", "conversions", "convert"},
			{"# Pre-defined constants", "# Character data", "constant", "constants"}, {"# Character data", "# User-defined operators", "character", "char"},
			{"# User-defined operators", "# Special commands", "op", "ops", "operator", "operators"}, {"# Special commands", "", "special"}} {
			for _, name := range tp[2:] {
				if c.Skip() {
					continue
				}
				c.Do("topic "+name+b, func(t *mc.T) {
					for _, n := range []string{name, strings.ToUpper(name)} {
						if n == "OP" {
							continue // A keyword in lower case only.
						}
						got, want := help(t, pre+b, ")help "+n), between(tp[0], tp[1])
						if !same(got, want) {
							t.Failf(")help %s prints %d lines %.300q, expected %d lines %.300q", n, len(got), got, len(want), want)
						}
					}
				})
			}
		}
	}
	// The tables.
	type entry struct {
		op    string
		lines []string
	}
	table := func(start, end string, axis bool) (es []entry) {
		col := -1
		open := false
		for _, l := range between(start, end) {
			r := []rune(l)
			if strings.HasPrefix(l, "\tName") && strings.Contains(l, "Meaning") {
				col = len([]rune(l[:strings.Index(l, " Ivy ")])) + 1
				continue
			}
			if col < 0 || len(r) <= col {
				continue
			}
			f := strings.Fields(string(r[col:]))
			if r[1] == ' ' { // Continued.
				if open && !axis {
					es[len(es)-1].lines = append(es[len(es)-1].lines, l)
				}
				continue
			}
			if open = r[col] != ' '; open {
				es = append(es, entry{f[0], []string{l}})
			}
		}
		return es
	}
	unary := append(table("Unary operators", "Binary operators", false), table("Type-converting operations", "# Pre-defined constants", false)...)
	binary := table("Binary operators", "Operators and axis indicator", false)
	axis := table("Operators and axis indicator", "Type-converting operations", true)
	if len(unary) < 50 || len(binary) < 45 || len(axis) < 6 {
		panic(fmt.Sprintf("tables: %d %d %d", len(unary), len(binary), len(axis)))
	}
	ops := map[string][]string{}
	for _, tb := range [][]entry{unary, binary, axis} {
		for _, e := range tb {
			ops[e.op] = append(ops[e.op], e.lines...)
		}
	}
	var names []string
	for n := range ops {
		names = append(names, n)
	}
	sort.Strings(names)
	c.Group("operators")
	for _, b := range bases {
		for _, n := range names {
			if n == "@f" || n == "f@" || n == "/%" || n == "\\%" || n == "char" {
				continue
			}
			if c.Skip() {
				continue
			}
			c.Do("operator "+n+b, func(t *mc.T) {
				for _, name := range []string{n, strings.ToUpper(n)} {
					if name == "O." {
						continue
					}
					var got []string
					for _, l := range help(t, pre+b, ")help "+name) {
						if !strings.HasSuffix(l, "operators:") && !strings.HasPrefix(l, "\tName ") {
							got = append(got, l)
						}
					}
					if !same(got, ops[n]) {
						t.Failf(")help %s prints %.500q, expected %.500q", name, got, ops[n])
					}
				}
			})
		}
	}
	c.Case("overview", func(t *mc.T) {
		var first []string
		for _, cmd := range []string{")help", ")help help", ")help about", ")help HELP"} {
			got := help(t, pre, cmd)
			if len(got) < 10 || !strings.Contains(strings.Join(got, "\n"), ")help special") {
				t.Failf("%s prints %q", cmd, got)
			}
			if first != nil && !same(got, first) {
				t.Failf("%s prints %q, not %q", cmd, got, first)
			}
			first = got
		}
	})
	c.Case("unknown", func(t *mc.T) {
		for _, w := range []string{"zzzz", "qqq", "3", "iotaa"} {
			got := help(t, pre, ")help "+w)
			if len(got) != 1 || !strings.Contains(got[0], "no docs") {
				t.Failf(")help %s prints %q", w, got)
			}
		}
	})
}
