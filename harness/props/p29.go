package props

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"robpike.io/ivy/value"
	"verif/ivy"
	"verif/mc"
)

func init() {
	register(&mc.Prop{ID: "P29", Run: runP29,
		Rule:        "every shape of rank 1..3 (4 and 5 with looser comparison) within the bounds x every assignment of element tokens (all assignments up to three elements; every background token with every other token at every position beyond) over an alphabet of numbers of all widths, characters of one to three bytes, and nested vectors and matrices, x output settings; the printed text is compared with a layout model built from the printed forms of the scalars",
		Assumptions: []string{"the printed form of a scalar is right (P13)", "extents above 4 behave alike, apart from the long vectors and wide matrices included"}})
}

// layout29 renders values from the rules of array display.
type layout29 struct{ scalar func(v value.Value) string }

func width29(s string) int { return utf8.RuneCountInString(s) }

func pad29(s string, n int) string { return s + strings.Repeat(" ", max(0, n-width29(s))) }

func isScalar29(v value.Value) bool {
	switch v.(type) {
	case *value.Vector, *value.Matrix:
		return false
	}
	return true
}

func allChars29(vs []value.Value) bool {
	for _, v := range vs {
		if _, ok := v.(value.Char); !ok {
			return false
		}
	}
	return len(vs) > 0
}

func items29(v *value.Vector) []value.Value {
	l := make([]value.Value, v.Len())
	for i := range l {
		l[i] = v.At(i).Inner()
	}
	return l
}

func (l layout29) text(v value.Value) string {
	switch x := v.(type) {
	case *value.Vector:
		return strings.Join(l.vector(items29(x)), "\n")
	case *value.Matrix:
		return l.matrix(x.Shape(), items29(x.Data()))
	}
	return l.scalar(v)
}

// cell is the block of lines of one element of an array, in parentheses if
// it is itself an array.
func (l layout29) cell(v value.Value) []string {
	lines := strings.Split(l.text(v), "\n")
	if isScalar29(v) {
		return lines
	}
	_, isMat := v.(*value.Matrix)
	for i, s := range lines {
		if s == "" && isMat && len(lines) > 1 {
			continue // Between the planes.
		}
		left, right := "|", "|"
		if i == 0 {
			left = "("
		}
		if i == len(lines)-1 {
			right = ")"
		}
		lines[i] = left + s + right
	}
	return lines
}

func (l layout29) vector(vs []value.Value) []string {
	if len(vs) == 0 {
		return []string{""}
	}
	if allChars29(vs) {
		s := ""
		for _, v := range vs {
			s += l.scalar(v)
		}
		return strings.Split(s, "\n")
	}
	var out []string
	var used []string
	wid := 0
	for i, v := range vs {
		c := l.cell(v)
		for len(out) < len(c) {
			out = append(out, "")
			used = append(used, "")
		}
		for j := range out {
			out[j] = pad29(out[j], wid)
			if i > 0 {
				out[j] += " "
			}
			if j < len(c) && c[j] != "" {
				out[j] += c[j]
				used[j] = out[j]
			}
		}
		for j := range out {
			wid = max(wid, width29(out[j]))
		}
	}
	return used
}

func (l layout29) matrix(shape []int, vs []value.Value) string {
	if len(vs) == 0 {
		return ""
	}
	n := len(shape)
	if n > 3 {
		size := len(vs) / shape[0]
		s := ""
		for i := 0; i < shape[0]; i++ {
			s += "\n\n" + l.matrix(shape[1:], vs[i*size:(i+1)*size])
		}
		return s
	}
	nr, nc := shape[n-2], shape[n-1]
	if allChars29(vs) {
		s := ""
		for i, v := range vs {
			if i > 0 && i%nc == 0 {
				s += "\n"
				if i%(nr*nc) == 0 {
					s += "\n"
				}
			}
			s += l.scalar(v)
		}
		return s
	}
	// Column widths.
	cells := make([][]string, len(vs))
	wid := make([]int, nc)
	widest := 0
	for i, v := range vs {
		cells[i] = l.cell(v)
		w := 0
		for _, s := range cells[i] {
			w = max(w, width29(s))
		}
		for j := range cells[i] {
			cells[i][j] = pad29(cells[i][j], w)
		}
		if isScalar29(v) && len(cells[i]) > 1 {
			panic("newline")
		}
		wid[i%nc] = max(wid[i%nc], w)
		widest = max(widest, w)
	}
	if widest < 5 {
		for i := range wid {
			wid[i] = widest
		}
	}
	var b strings.Builder
	for i := 0; i < len(vs); i += nc {
		if i > 0 {
			b.WriteString("\n")
			if i%(nr*nc) == 0 {
				b.WriteString("\n")
			}
		}
		h := 1
		for j := 0; j < nc; j++ {
			for k, s := range cells[i+j] {
				if strings.TrimSpace(s) != "" {
					h = max(h, k+1)
				}
			}
		}
		for k := 0; k < h; k++ {
			if k > 0 {
				b.WriteString("\n")
			}
			for j := 0; j < nc; j++ {
				s := ""
				if k < len(cells[i+j]) {
					s = cells[i+j][k]
				} else {
					s = strings.Repeat(" ", width29(cells[i+j][0]))
				}
				if j > 0 {
					b.WriteString(" ")
				}
				b.WriteString(strings.Repeat(" ", wid[j]-width29(s)) + s)
			}
		}
	}
	return b.String()
}

// nonBlank drops empty lines and headers, and collapses blanks if squeeze is set.
func nonBlank29(s string, squeeze bool) string {
	var out []string
	for _, line := range strings.Split(s, "\n") {
		if squeeze {
			if strings.HasSuffix(line, "*]:") {
				continue
			}
			line = strings.Join(strings.Fields(line), " ")
		}
		if strings.TrimSpace(line) != "" {
			out = append(out, line)
		}
	}
	return strings.Join(out, "\n")
}

func hasMatrix29(v value.Value) bool {
	var vs []value.Value
	switch x := v.(type) {
	case *value.Vector:
		vs = items29(x)
	case *value.Matrix:
		vs = items29(x.Data())
	}
	for _, e := range vs {
		if _, ok := e.(*value.Matrix); ok || hasMatrix29(e) {
			return true
		}
	}
	return false
}

func runP29(c *mc.Ctx) {
	s := ivy.New()
	toks := []string{"1", "22", "-333", "4444", "55555", "1/2", "float 7/2", "1j2", "1234567890123", "'a'", "'é'", "'世'", "' '",
		"(1 2)", "'ab'", "(iota 0)", "''", "(,5)", "(2 2 rho iota 4)", "(1 (2 3))", "(2 2 rho 'abcd')", "(2 2 2 rho iota 8)", "(3 1 rho 1 22 333)", "'é世'", "(2 2 rho 'é' 1 'b' 22)", "(0 2 rho 1)", "((2 2 rho 1) 'x')"}
	type set struct {
		base   int
		format string
		origin int
	}
	sets := []set{{0, "", 1}, {16, "", 1}, {2, "", 0}, {0, "%.2f", 0}, {0, "%5d", 2}, {0, "%-6d", 10}}
	vals := make([]value.Value, len(toks))
	for i, src := range toks {
		v, e, p := s.Eval1(src)
		if e != "" || p != nil {
			panic(src + e)
		}
		vals[i] = v
	}
	lay := layout29{func(v value.Value) string { return v.Sprint(s.Conf) }}
	one := func(t *mc.T, st set, shape []int, ix []int) {
		d := make([]value.Value, len(ix))
		for i, k := range ix {
			d[i] = vals[k]
		}
		var x value.Value = value.NewVector(d...)
		if len(shape) > 1 {
			x = value.NewMatrix(shape, value.NewVector(d...))
		}
		s.SetVar("x", x)
		s.Conf.SetBase(0, st.base)
		s.Conf.SetFormat(st.format)
		s.Conf.SetOrigin(st.origin)
		defer func() { s.Conf.SetOrigin(1); s.Conf.SetBase(0, 0); s.Conf.SetFormat("") }()
		out, e, p := s.Run("x")
		t.Step(1)
		desc := func() string {
			var l []string
			for _, k := range ix {
				l = append(l, toks[k])
			}
			return fmt.Sprintf("%v rho %s with %v", shape, strings.Join(l, " , "), st)
		}
		if e != "" || p != nil || !strings.HasSuffix(out, "\n") {
			t.Failf("%s prints %q, error %q %v", desc(), out, e, p)
			return
		}
		got := strings.TrimSuffix(out, "\n")
		want := lay.text(x)
		if len(shape) > 3 || hasMatrix29(x) {
			// Blank lines are added between rows to taste.
			sq := len(shape) > 3
			got, want = nonBlank29(got, sq), nonBlank29(want, sq)
		}
		if got != want {
			t.Failf("%s prints\n%s\nshould be\n%s", desc(), got, want)
			return
		}
		t.Observe(out)
		if len(shape) > 3 {
			grid29(t, desc(), out, st.origin, shape)
		}
	}
	var shapes [][]int
	var rec func(pre []int, rank int, mx int)
	rec = func(pre []int, rank, mx int) {
		if rank == 0 {
			n := 1
			for _, d := range pre {
				n *= d
			}
			if n > 0 && n <= 16 {
				shapes = append(shapes, append([]int{}, pre...))
			}
			return
		}
		for d := 1; d <= mx; d++ {
			rec(append(pre, d), rank-1, mx)
		}
	}
	rec(nil, 1, 6)
	rec(nil, 2, 4)
	rec(nil, 3, 3)
	rec(nil, 4, 2)
	rec(nil, 5, 2)
	for si, st := range sets {
		for _, shape := range shapes {
			n := 1
			for _, d := range shape {
				n *= d
			}
			c.Group(fmt.Sprintf("rank %d", len(shape)))
			if n <= 3 && (si == 0 || !c.Quick) {
				ix := make([]int, n)
				var fill func(k int)
				fill = func(k int) {
					if k == n {
						c.Case(fmt.Sprint(st, shape, ix), func(t *mc.T) { one(t, st, shape, ix) })
						return
					}
					for i := range toks {
						if len(shape) > 3 && i > 8 {
							break
						}
						ix[k] = i
						fill(k + 1)
					}
				}
				fill(0)
				continue
			}
			for b := range toks {
				for o := range toks {
					if len(shape) > 3 && (b > 8 || o > 8) && !(b >= 9 && b < 12 && o >= 9 && o < 12) {
						continue
					}
					c.Case(fmt.Sprint(st, shape, " background ", b, " other ", o), func(t *mc.T) {
						ix := make([]int, n)
						for i := range ix {
							ix[i] = b
						}
						for i := range ix {
							ix[i] = o
							one(t, st, shape, ix)
							if c.Quick && n > 8 && i%2 == 1 {
								ix[i] = b
								continue
							}
							for j := i + 1; j < n && n <= 6; j++ {
								ix[j] = (b + o + j) % len(toks)
								if len(shape) > 3 {
									ix[j] %= 9
									if b > 8 {
										ix[j] = 9 + ix[j]%3
									}
								}
								one(t, st, shape, ix)
								ix[j] = b
							}
							ix[i] = b
						}
					})
				}
			}
		}
	}
	c.Group("large")
	for _, n := range []int{15, 16, 17, 31, 32, 33, 64, 255, 256, 257, 1000, 5000} {
		for b := range toks {
			for o := range toks {
				if n > 300 && (b+o)%5 != 0 {
					continue
				}
				c.Case(fmt.Sprint("large ", n, b, o), func(t *mc.T) {
					ix := make([]int, n)
					for i := range ix {
						ix[i] = b
						if i%7 == 3 || i == n-1 {
							ix[i] = o
						}
					}
					one(t, sets[0], []int{n}, ix)
					if n%16 == 0 {
						one(t, sets[0], []int{n / 4, 4}, ix)
						one(t, sets[0], []int{4, n / 4}, ix)
						one(t, sets[0], []int{4, 2, n / 8}, ix)
					}
				})
			}
		}
	}
	c.Group("empty")
	for _, sh := range []string{"0", "0 0", "0 3", "3 0", "0 2 2", "2 0 2", "2 2 0", "0 0 0 0", "2 2 0 2"} {
		for _, x := range []string{"1", "'a'"} {
			c.Case("empty "+sh+" "+x, func(t *mc.T) {
				out, e, p := s.Run(sh + " rho " + x)
				t.Step(1)
				if e != "" || p != nil || nonBlank29(out, true) != "" {
					t.Failf("%s rho %s prints %q %s %v", sh, x, out, e, p)
				}
			})
		}
	}
}

// grid29 checks, in the display of an array of numbers of rank above 3, that
// each plane is labelled with its indexes and that its rows line up.
func grid29(t *mc.T, what, out string, origin int, shape []int) {
	lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
	width := -1
	labels := 0
	for _, line := range lines {
		switch {
		case strings.HasSuffix(line, "*]:"):
			labels++
			width = -1
		case strings.TrimSpace(line) == "" && !strings.Contains(what, "' '"):
			// A separator.
		default:
			if width >= 0 && width29(line) != width {
				t.Failf("%s: rows of a plane differ in width:\n%s", what, out)
				return
			}
			width = width29(line)
		}
	}
	want, n := 0, 1
	for _, d := range shape[:len(shape)-3] {
		n *= d
		want += n
	}
	if labels != want {
		t.Failf("%s: %d labels, should be %d:\n%s", what, labels, want, out)
	}
	// The labels count up in row-major order.
	var walk func(pre string, k int) []string
	walk = func(pre string, k int) []string {
		if k == len(shape)-3 {
			return nil
		}
		var l []string
		for i := origin; i < origin+shape[k]; i++ {
			p := fmt.Sprintf("%s%d ", pre, i)
			l = append(l, p+strings.Repeat(" *", len(shape)-k-1)[1:]+"]:")
			l = append(l, walk(p, k+1)...)
		}
		return l
	}
	var got []string
	for _, line := range lines {
		if strings.HasSuffix(line, "*]:") {
			got = append(got, strings.TrimSpace(line))
		}
	}
	if w := walk("[", 0); strings.Join(got, ";") != strings.Join(w, ";") {
		t.Failf("%s: labels %q, should be %q", what, got, w)
	}
}
