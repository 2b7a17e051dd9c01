package props

import (
	"strings"

	"robpike.io/ivy/value"
	"verif/ivy"
	"verif/mc"
)

func init() {
	register(&mc.Prop{ID: "P07", Run: runP07,
		Rule:        "every sequence of blank-separated tokens up to a length over an alphabet with every lexical class (number, string, variables, undefined name, symbol operator, unary-only, binary-only and ambivalent operator names, user-defined operators, reduction, parentheses, brackets, semicolon, assignment, colon), and every character string up to a length over four character alphabets (signs, digits, slashes, j, multi-character operators; the first also with names of letters and digits of other scripts), against a reference tokenizer, right-to-left grammar and evaluator that applies one operator at a time; and names and operator names starting with digits in every input base; compared: value or rejection, and every variable afterwards",
		Assumptions: []string{"single applications of an operator, an index or an indexed assignment to variables are judged by other properties", "use of an operator name as a variable is unspecified"}})
}

const setup07 = "op u a = a, 7\nop a b c = (2*a), c\nop h a = -a\nop a h b = b - 3*a\nop f0 a = a\n"

var lang07 = &gLang{
	unary:  map[string]bool{"abs": true, "rot": true, "u": true, "h": true, "j": true},
	binary: map[string]bool{"mod": true, "rot": true, "b": true, "h": true, "j": true},
}

type run07 struct {
	c    *mc.Ctx
	s    *ivy.Sess
	e    *gEnv
	vars []string
	init map[string]value.Value
	lang *gLang
}

func newRun07(c *mc.Ctx) *run07 {
	r := &run07{c: c, s: ivy.New(), e: newGEnv(setup07), vars: []string{"x", "y", "z", "x1", "x2", "x11", "x12", "x21", "x22", "y1"}}
	if out, errs, p := r.s.Run(setup07); errs != "" || p != nil {
		panic(out + errs)
	}
	r.init = map[string]value.Value{"x": value.NewIntVector(3, 1, 2), "y": value.Int(2), "x1": value.Int(11), "x2": value.NewIntVector(4, 5), "x12": value.Int(12)}
	kc := map[string]value.Value{}
	r.lang = &gLang{unary: lang07.unary, binary: lang07.binary, konst: func(text string) (value.Value, bool) {
		if v, ok := kc[text]; ok {
			return v, v != nil
		}
		v := const07(text)
		kc[text] = v
		return v, v != nil
	}}
	return r
}

// const07 is the value of a constant token, nil if it is malformed.
func const07(text string) value.Value {
	if text[0] == '\'' {
		rs := []rune(strings.Trim(text, "'"))
		if len(rs) == 1 {
			return value.Char(rs[0])
		}
		var vs []value.Value
		for _, r := range rs {
			vs = append(vs, value.Char(r))
		}
		return value.NewVector(vs...)
	}
	re, im, cplx := strings.Cut(text, "j")
	rv := ratTok(re)
	if rv == nil {
		return nil
	}
	if !cplx {
		return numVal(rv)
	}
	iv := ratTok(im)
	if iv == nil {
		return nil
	}
	if iv.Sign() == 0 {
		return numVal(rv)
	}
	v, err, p := constSess.Eval1("(" + lit(rv) + ") j (" + lit(iv) + ")")
	if err != "" || p != nil {
		panic(err)
	}
	return v
}

var constSess = ivy.New()

// check judges one line given its tokens (nil tokens: the line must be rejected).
func (r *run07) check(t *mc.T, src string, toks []gTok, lexOK bool) {
	e := r.e
	e.fail = false
	clear(e.vars)
	for n, v := range r.init {
		e.vars[n] = v
	}
	p := &gParser{lang: r.lang, toks: toks}
	var stmts []*gNode
	ok := lexOK
	if ok {
		stmts = p.line()
		ok = !p.bad
	}
	loose := p.loose
	var want []value.Value
	if ok {
		for _, st := range stmts {
			if st.kind == ':' {
				loose = true
			}
			v := e.eval(st)
			if e.fail {
				ok = false
				break
			}
			want = append(want, v)
		}
	}
	undef(r.s, r.vars...)
	for n, v := range r.init {
		r.s.SetVar(n, v)
	}
	vals, err, pn := r.s.Eval(src)
	t.Step(1)
	if err != "" {
		t.Observe("error")
	} else if len(vals) > 0 {
		t.Observe(ivy.Dump(vals[len(vals)-1]))
	}
	if pn != nil {
		t.Failf("%q: %s", src, pn)
		return
	}
	if loose {
		if err == "" && !ok && !namesOp(r.lang, toks) {
			t.Failf("%q: accepted with value %s, expected an error", src, showAll(vals))
		}
		undef(r.s, "mod", "b", "rot", "h", "u", "abs")
		return
	}
	if ok != (err == "") {
		if ok {
			t.Failf("%q: error %s, expected %s", src, err, showAll(want))
		} else {
			t.Failf("%q: value %s, expected an error", src, showAll(vals))
		}
		return
	}
	if ok {
		if len(vals) != len(want) {
			t.Failf("%q: %d values, expected %d", src, len(vals), len(want))
			return
		}
		for i := range vals {
			if a, b := ivy.Dump(vals[i]), ivy.Dump(want[i]); a != b {
				t.Failf("%q: value %s, expected %s", src, a, b)
				return
			}
		}
	}
	for _, n := range r.vars {
		a, b := ivy.Dump(r.s.Var(n)), ivy.Dump(e.vars[n])
		if a != b {
			t.Failf("%q: afterwards %s is %s, expected %s", src, n, a, b)
			return
		}
	}
}

// namesOp: an operator name that is not unary appears where it could be taken as a variable.
func namesOp(l *gLang, toks []gTok) bool {
	for _, t := range toks {
		if t.kind == 'i' && l.binary[t.text] && !l.unary[t.text] {
			return true
		}
	}
	return false
}

func showAll(vs []value.Value) string {
	var s []string
	for _, v := range vs {
		s = append(s, ivy.Dump(v))
	}
	return strings.Join(s, " ; ")
}

func tok07(s string) gTok {
	switch s {
	case "(", ")", "[", "]", ";", "=", ":":
		return gTok{s[0], s}
	}
	switch {
	case s[0] >= '0' && s[0] <= '9' || len(s) > 1 && s[0] == '-' && s[1] >= '0' && s[1] <= '9':
		return gTok{'n', s}
	case s[0] == '\'':
		return gTok{'s', s}
	case s[0] >= 'a' && s[0] <= 'z' && !strings.ContainsAny(s, "@."):
		return gTok{'i', s}
	}
	return gTok{'o', s}
}

func runP07(c *mc.Ctx) {
	r := newRun07(c)
	// Token sequences. A case is a prefix; it covers all its extensions.
	tokens := func(group string, alpha []string, length int) {
		c.Group(group)
		toks := make([]gTok, len(alpha))
		for i, a := range alpha {
			toks[i] = tok07(a)
		}
		n := len(alpha)
		var prefixes [][]int
		for a := 0; a < n; a++ {
			if alpha[a] == ")" {
				continue
			}
			for b := -1; b < n; b++ {
				if b < 0 {
					prefixes = append(prefixes, []int{a})
				} else {
					prefixes = append(prefixes, []int{a, b})
				}
			}
		}
		for _, pre := range prefixes {
			if c.Skip() {
				continue
			}
			var names []string
			for _, i := range pre {
				names = append(names, alpha[i])
			}
			c.Do(group+" "+strings.Join(names, " "), func(t *mc.T) {
				buf := append([]int(nil), pre...)
				var rec func()
				seq := make([]gTok, 0, length)
				rec = func() {
					if t.Failed() {
						return
					}
					seq = seq[:0]
					var sb strings.Builder
					for i, k := range buf {
						seq = append(seq, toks[k])
						if i > 0 {
							sb.WriteByte(' ')
						}
						sb.WriteString(alpha[k])
					}
					r.check(t, sb.String(), seq, true)
					if len(buf) >= length || len(pre) < 2 {
						return
					}
					for k := 0; k < n; k++ {
						buf = append(buf, k)
						rec()
						buf = buf[:len(buf)-1]
					}
				}
				rec()
			})
		}
	}
	full := []string{"2", "x", "y", "'ab'", "-", "abs", "mod", "rot", "u", "b", "+/", "(", ")", "[", "]", ";", "=", "z", ":"}
	core := []string{"2", "x", "-", "mod", "u", "(", ")", "[", "]", "="}
	if c.Quick {
		tokens("tokens", full, 5)
		tokens("core tokens", core, 6)
	} else {
		tokens("tokens", full, 6)
		tokens("core tokens", core, 8)
	}
	small := []string{"2", "-3", "1/2", "2j1", "x", "h", "h@", "+.*", "o.-", "-\\", "(", ")", ";", "="}
	n := 5
	if !c.Quick {
		n = 6
	}
	tokens("more tokens", small, n)

	// Character strings.
	// If name is set, it stands for x.
	chars := func(group, alpha, name string, length int) {
		c.Group(group)
		r := r
		if name != "" {
			r = newRun07(c)
			for i, v := range r.vars {
				r.vars[i] = strings.ReplaceAll(v, "x", name)
			}
			for k, v := range r.init {
				delete(r.init, k)
				r.init[strings.ReplaceAll(k, "x", name)] = v
			}
		}
		n := len(alpha)
		for a := 0; a < n; a++ {
			if alpha[a] == ')' {
				continue
			}
			for b := 0; b < n; b++ {
				if c.Skip() {
					continue
				}
				c.Do(group+" "+string(alpha[a])+string(alpha[b]), func(t *mc.T) {
					buf := []byte{alpha[a], alpha[b]}
					var rec func()
					rec = func() {
						if t.Failed() {
							return
						}
						if buf[len(buf)-1] != ' ' {
							src := string(buf)
							toks, ok, spec := lex07(src)
							if strings.Contains(src, "!") && (strings.Contains(src, "*") || strings.Contains(src, "<<") || strings.Contains(src, "22") || strings.Contains(src, "12") || strings.Contains(src, "21") || strings.Contains(src, "11")) {
								spec = false // factorials too big to wait for
							}
							if spec && len(toks) > 0 && toks[0].kind == ')' {
								spec = false // a special command
							}
							if spec && name != "" {
								if !strings.Contains(src, "x") {
									spec = false
								}
								src = strings.ReplaceAll(src, "x", name)
								for i := range toks {
									toks[i].text = strings.ReplaceAll(toks[i].text, "x", name)
								}
							}
							if spec {
								r.check(t, src, toks, ok)
							}
						}
						if len(buf) >= length {
							return
						}
						for k := 0; k < n; k++ {
							buf = append(buf, alpha[k])
							rec()
							buf = buf[:len(buf)-1]
						}
					}
					rec()
				})
			}
		}
	}
	d := 1
	if !c.Quick {
		d = 2
	}
	chars("signs", "12x -+/()[]", "", 5+d)
	chars("complex", "12j-/ x", "", 6+d)
	chars("operators", "12<>=!* /", "", 5+d)
	chars("scans", "2x+*/\\% (", "", 5+d)
	// Names of letters and digits of other scripts.
	for _, name := range []string{"α", "é", "世", "aß", "z_", "z٣"} {
		chars("signs after "+name, "12x-+/() ]", name, 4+d)
	}
	names07(c)
}

// lex07 is the reference tokenizer for the character alphabets used here.
// spec is false where the reading is not specified.
func lex07(s string) (toks []gTok, ok, spec bool) {
	isD := func(i int) bool { return i < len(s) && s[i] >= '0' && s[i] <= '9' }
	isA := func(i int) bool {
		return i < len(s) && (isD(i) || s[i] >= 'a' && s[i] <= 'z' || s[i] == '_')
	}
	at := func(i int) byte {
		if i < len(s) {
			return s[i]
		}
		return 0
	}
	oper := []string{"===", "!==", "==", "!=", "<=", ">=", "<<", ">>", "**", "<", ">", "!", "*", "+", "-", "/"}
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ':
			i++
			continue
		case strings.IndexByte("()[]", c) >= 0:
			toks = append(toks, gTok{c, string(c)})
			i++
			continue
		}
		num := isD(i)
		if (c == '-' || c == '+') && isD(i+1) {
			num = true
			if i > 0 && (isA(i-1) || s[i-1] == ')' || s[i-1] == ']') {
				num = false
			}
		}
		if num {
			j := i
			real := func() bool {
				if at(j) == '-' || at(j) == '+' {
					j++
				}
				if !isD(j) {
					return false
				}
				for isD(j) {
					j++
				}
				if at(j) == '/' && isD(j+1) {
					j++
					for isD(j) {
						j++
					}
				}
				return true
			}
			real()
			if at(j) == 'j' {
				j++
				if !real() {
					// A number, j, and no number: rejected.
					return nil, false, true
				}
			}
			if isA(j) {
				if at(j) == 'j' {
					return nil, false, false // 1j2j3
				}
				return nil, false, true
			}
			toks = append(toks, gTok{'n', s[i:j]})
			i = j
			continue
		}
		if isA(i) {
			j := i
			for isA(j) {
				j++
			}
			w := s[i:j]
			if w == "j" && at(j) == '/' {
				return nil, false, false
			}
			if w != "j" && strings.Contains(w, "j") {
				return nil, false, false
			}
			toks = append(toks, gTok{'i', w})
			i = j
			continue
		}
		if c == '=' && at(i+1) != '=' {
			toks = append(toks, gTok{'=', "="})
			i++
			continue
		}
		found := ""
		for _, o := range oper {
			if strings.HasPrefix(s[i:], o) {
				found = o
				break
			}
		}
		if found == "" {
			// \ or % on their own: not an operator, never valid here.
			return nil, false, c == '\\' || c == '%'
		}
		i += len(found)
		if at(i) == '/' || at(i) == '\\' {
			found += string(at(i))
			i++
			if at(i) == '%' {
				found += "%"
				i++
			}
		}
		toks = append(toks, gTok{'o', found})
	}
	return toks, true, len(toks) > 0
}
