package props

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"

	"robpike.io/ivy/config"
	"robpike.io/ivy/value"
	"verif/ivy"
	"verif/mc"
)

func init() {
	register(&mc.Prop{ID: "P28", Run: runP28,
		Rule:        "the settings as a state machine: all sequences of up to 2 (thorough 3, the first two valid) special commands over an alphabet of about 170 (every command with valid boundary arguments in several spellings, no argument, and invalid arguments), so every command runs under every input and output base; after every command all settings are read back through the configuration and compared with the model, and at the end of every sequence the reports, the re-setting of every reported value and the effect of every setting on evaluation are compared with the model.",
		Assumptions: []string{"junk after a valid argument, the constants pi and e (recomputed by every command), )cpu and the zone name chosen for a )timezone are not checked; debugging flags only for being set"}})
}

type set28 struct {
	ib, ob, origin                     int
	prec, maxbits, maxdigits, maxstack uint
	prompt, format                     string
	seed                               uint64
	seeded                             bool
	debug                              [len(config.DebugFlags)]int
	zone                               string
}

type cmd28 struct {
	text string
	do   func(s *set28) // nil: invalid, must report an error
	out  func(s *set28) string
}

func read28(s *ivy.Sess, m *set28) string {
	c := s.Conf
	ib, ob := c.Base()
	if c.InputBase() != ib || c.OutputBase() != ob {
		return "inconsistent bases"
	}
	if o := c.BigOrigin(); o != nil && o.Cmp(big.NewInt(int64(c.Origin()))) != 0 {
		return "inconsistent origins"
	}
	g := set28{ib, ob, c.Origin(), c.FloatPrec(), c.MaxBits(), c.MaxDigits(), c.MaxStack(), c.Prompt(), c.Format(), m.seed, m.seeded, m.debug, c.Location().String()}
	if m.seeded {
		g.seed = c.RandomSeed()
	}
	for i, f := range config.DebugFlags {
		g.debug[i] = c.Debug(f)
	}
	if c.Tracing(1) != (m.debug[4] >= 1) {
		return "tracing level differs from the flag"
	}
	if g != *m {
		return fmt.Sprintf("settings are %+v, should be %+v", g, *m)
	}
	return ""
}

func cmds28() []cmd28 {
	var l []cmd28
	num := func(name string, set func(*set28, int), get func(*set28) string, valid []string, bad ...string) {
		for _, v := range valid {
			f, _ := new(big.Float).SetString(v)
			n64, _ := f.Int64()
			n := int(n64)
			l = append(l, cmd28{")" + name + " " + v, func(s *set28) { set(s, n) }, nil})
		}
		n, _ := strconv.Atoi(valid[0])
		l = append(l, cmd28{") " + name + "\t" + valid[0] + " # c", func(s *set28) { set(s, n) }, nil})
		l = append(l, cmd28{")" + name, func(*set28) {}, get})
		for _, b := range append(bad, "-1", "1.5", "1/2", "'a'", "xyz", "(1)", ",", "99999999999999999999999") {
			l = append(l, cmd28{")" + name + " " + b, nil, nil})
		}
	}
	base := func(s *set28) string { return fmt.Sprintf("ibase\t%d\nobase\t%d\n", s.ib, s.ob) }
	bases := []string{"0", "2", "7", "8", "10", "11", "16"}
	big31 := []string{"2147483648", "4294967297", "1e10"}
	num("base", func(s *set28, n int) { s.ib, s.ob = n, n }, base, bases, append(big31, "1", "17")...)
	num("ibase", func(s *set28, n int) { s.ib = n }, base, bases, append(big31, "1", "17")...)
	num("obase", func(s *set28, n int) { s.ob = n }, base, bases, append(big31, "1", "17")...)
	num("origin", func(s *set28, n int) { s.origin = n }, func(s *set28) string { return fmt.Sprintf("%d\n", s.origin) }, []string{"0", "1", "2", "100", "2147483647"}, big31...)
	num("prec", func(s *set28, n int) { s.prec = uint(n) }, func(s *set28) string { return fmt.Sprintf("%d\n", s.prec) }, []string{"24", "64", "300"}, append(big31, "0", "1000001")...)
	num("maxbits", func(s *set28, n int) { s.maxbits = uint(n) }, func(s *set28) string { return fmt.Sprintf("%d\n", s.maxbits) }, []string{"0", "70", "71", "1e6", "2147483647"}, big31...)
	num("maxdigits", func(s *set28, n int) { s.maxdigits = uint(n) }, func(s *set28) string { return fmt.Sprintf("%d\n", s.maxdigits) }, []string{"0", "20", "21", "1e4", "2147483647"}, big31...)
	num("maxstack", func(s *set28, n int) { s.maxstack = uint(n) }, func(s *set28) string { return fmt.Sprintf("%d\n", s.maxstack) }, []string{"3", "4", "1e5", "2097153", "2147483647"}, big31...)
	num("seed", func(s *set28, n int) { s.seed, s.seeded = uint64(n), true }, func(s *set28) string {
		if !s.seeded {
			return ""
		}
		return fmt.Sprintf("%d\n", s.seed)
	}, []string{"0", "7", "1e10", "9223372036854775807"}, "9223372036854775808")
	// 2^63-1 is not exact in the float parse above.
	for i := range l {
		if l[i].text == ")seed 9223372036854775807" {
			l[i].do = func(s *set28) { s.seed, s.seeded = 1<<63-1, true }
		}
	}
	str := func(name string, set func(*set28, string), get func(*set28) string, valid ...string) {
		for _, v := range valid {
			l = append(l, cmd28{")" + name + " " + strconv.Quote(v), func(s *set28) { set(s, v) }, nil})
		}
		if get != nil {
			l = append(l, cmd28{")" + name, func(*set28) {}, get})
		}
		for _, b := range []string{"5", "xyz", "'abc", "('a')"} {
			l = append(l, cmd28{")" + name + " " + b, nil, nil})
		}
	}
	str("prompt", func(s *set28, v string) { s.prompt = v }, func(s *set28) string { return fmt.Sprintf("%q\n", s.prompt) }, "", "> ", "é\n\"'\\%d")
	l = append(l, cmd28{")prompt `a\\b`", func(s *set28) { s.prompt = "a\\b" }, nil}, cmd28{")prompt 'q'", func(s *set28) { s.prompt = "q" }, nil})
	str("format", func(s *set28, v string) { s.format = v }, func(s *set28) string { return fmt.Sprintf("%q\n", s.format) }, "", "%d", "%x", "%.2f", "%5d|")
	str("timezone", func(s *set28, v string) { s.zone = v }, nil, "UTC", "America/New_York")
	l = append(l, cmd28{")timezone 'No/Such'", nil, nil})
	for i, f := range config.DebugFlags {
		if f != "cpu" && f != "trace" {
			continue
		}
		for _, v := range []int{0, 1, 2} {
			l = append(l, cmd28{fmt.Sprintf(")debug %s %d", f, v), func(s *set28) { s.debug[i] = v }, nil})
		}
		l = append(l, cmd28{")debug " + f, func(s *set28) {
			if s.debug[i] == 0 {
				s.debug[i] = 1
			} else {
				s.debug[i] = 0
			}
		}, func(s *set28) string { return fmt.Sprintf("%d\n", s.debug[i]) }})
		l = append(l, cmd28{")debug " + f + " -1", nil, nil}, cmd28{")debug " + f + " 'a'", nil, nil})
	}
	l = append(l, cmd28{")debug", func(*set28) {}, func(s *set28) string {
		o := ""
		for i, f := range config.DebugFlags {
			o += fmt.Sprintf("%s\t%d\n", f, s.debug[i])
		}
		return o + "For trace: 1 traces user-defined only, 2 traces all operators\n"
	}})
	l = append(l, cmd28{")nosuch", nil, nil}, cmd28{")nosuch 5", nil, nil}, cmd28{")", nil, nil}, cmd28{") 5", nil, nil}, cmd28{")'base'", nil, nil},
		cmd28{")op", func(*set28) {}, nil}, cmd28{")op nosuch", nil, nil}, cmd28{")var nosuch", nil, nil}, cmd28{")var", func(*set28) {}, nil}, cmd28{")cpu", func(*set28) {}, nil})
	return l
}

func runP28(c *mc.Ctx) {
	cmds := cmds28()
	depth := 2
	if !c.Quick {
		depth = 3
	}
	var reports []cmd28
	for _, k := range cmds {
		if k.out != nil && !strings.HasPrefix(k.text, ")debug ") {
			reports = append(reports, k)
		}
	}
	seedRef := map[uint64]string{}
	c.Group("sequences")
	var rec func(h []int)
	rec = func(h []int) {
		if !c.Skip() {
			var l []string
			for _, i := range h {
				l = append(l, cmds[i].text)
			}
			c.Do(strings.Join(l, " | "), func(t *mc.T) { seq28(t, cmds, h, reports, seedRef) })
		}
		if len(h) == depth {
			return
		}
		for i := range cmds {
			if len(h) == 2 && (cmds[h[0]].do == nil || cmds[h[1]].do == nil) {
				continue // Invalid commands before the last are covered by the pairs.
			}
			rec(append(h[:len(h):len(h)], i))
		}
	}
	rec(nil)
}

func seq28(t *mc.T, cmds []cmd28, h []int, reports []cmd28, seedRef map[uint64]string) {
	s := ivy.New()
	if e := s.Conf.SetLocation("UTC"); e != nil {
		panic(e)
	}
	m := set28{ib: 0, ob: 0, origin: 1, prec: 256, maxbits: 1e6, maxdigits: 1e4, maxstack: 1e5, zone: "UTC"}
	s.SetVar("xq", value.Int(41))
	what := ""
	run := func(k cmd28) bool {
		what += k.text + " | "
		before := m
		out, errs, p := s.Run(k.text)
		t.Step(1)
		if p != nil {
			t.Failf("%s: %v", what, p)
			return false
		}
		if k.do == nil {
			if errs == "" {
				t.Failf("%s: no error reported (printed %q)", what, out)
				return false
			}
		} else {
			if errs != "" {
				t.Failf("%s: error %s", what, errs)
				return false
			}
			k.do(&m)
		}
		if k.out != nil {
			if want := k.out(&m); want != "" && out != want {
				t.Failf("%s: prints %q, should be %q", what, out, want)
				return false
			}
		} else if k.do != nil && out != "" && m != before {
			t.Failf("%s: prints %q", what, out)
			return false
		}
		if d := read28(s, &m); d != "" {
			t.Failf("%s: %s", what, d)
			return false
		}
		return true
	}
	for _, i := range h {
		if !run(cmds[i]) {
			return
		}
	}
	t.Observe(fmt.Sprint(m))
	if !effects28(t, what, s, &m, seedRef) {
		return
	}
	for _, k := range reports {
		if !run(k) {
			return
		}
	}
	// Setting every reported value again changes nothing.
	for _, k := range reports {
		name := k.text[1:]
		out := k.out(&m)
		var l []string
		switch {
		case name == "debug" || name == "ibase" || name == "obase" || name == "seed":
			continue
		case name == "base":
			for _, x := range strings.Split(strings.TrimSpace(out), "\n") {
				l = append(l, ")"+strings.Replace(x, "\t", " ", 1))
			}
		default:
			l = append(l, k.text+" "+strings.TrimSuffix(out, "\n"))
		}
		for _, x := range l {
			if !run(cmd28{x, func(*set28) {}, nil}) {
				return
			}
		}
	}
	if v := s.Var("xq"); ivy.Dump(v) != "41" {
		t.Failf("%s: variable xq changed", what)
	}
}

// effects28 checks the effect of every setting on evaluation.
func effects28(t *mc.T, what string, s *ivy.Sess, m *set28, seedRef map[uint64]string) bool {
	fail := func(f string, a ...any) bool {
		t.Failf("%s: %s", what, fmt.Sprintf(f, a...))
		return false
	}
	if m.debug[4] > 0 {
		// Tracing writes to standard output.
		s.Conf.SetDebug("trace", 0)
		defer s.Conf.SetDebug("trace", m.debug[4])
	}
	v, e, p := s.Eval1("iota 1+1")
	if w := fmt.Sprintf("%d %d", m.origin, m.origin+1); p != nil || e != "" || !strings.Contains(ivy.Dump(v), w) {
		return fail("iota 2 is %s, want %s", show(v, e, p), w)
	}
	// The sys operator reports the settings, too.
	for verb, want := range map[string]string{
		"base": fmt.Sprintf("%d %d", m.ib, m.ob), "ibase": strconv.Itoa(m.ib), "obase": strconv.Itoa(m.ob), "origin": strconv.Itoa(m.origin),
		"maxbits": fmt.Sprint(m.maxbits), "maxdigits": fmt.Sprint(m.maxdigits), "maxstack": fmt.Sprint(m.maxstack),
		"format": strconv.Quote(m.format), "prompt": strconv.Quote(m.prompt),
	} {
		v, e, p := s.Eval1("sys '" + verb + "'")
		if p != nil || e != "" || v == nil {
			return fail("sys %q gives %s", verb, show(v, e, p))
		}
		var got strings.Builder
		if vec, ok := v.(*value.Vector); ok {
			for i, x := range vec.All() {
				if ch, ok := x.(value.Char); ok {
					got.WriteRune(rune(ch))
				} else {
					if i > 0 {
						got.WriteString(" ")
					}
					got.WriteString(ivy.Dump(x))
				}
			}
		} else {
			got.WriteString(ivy.Dump(v))
		}
		if got.String() != want {
			return fail("sys %q gives %s, want %s", verb, got.String(), want)
		}
	}
	b := m.ib
	if b == 0 {
		b = 10
	}
	v, e, p = s.Eval1("101 + 11")
	if w := strconv.Itoa(b*b + b + 2); p != nil || e != "" || ivy.Dump(v) != w {
		return fail("101 + 11 is %s, want %s", show(v, e, p), w)
	}
	disp := func(n int64) string {
		switch m.format {
		case "":
			if m.ob == 0 || m.ob == 10 {
				return strconv.FormatInt(n, 10)
			}
			return strconv.FormatInt(n, m.ob)
		case "%.2f":
			return fmt.Sprintf("%d.00", n)
		}
		return fmt.Sprintf(m.format, n)
	}
	s.SetVar("zq", value.Int(255))
	out, errs, p := s.Run("zq")
	if p != nil || errs != "" || out != disp(255)+"\n" {
		return fail("255 prints %q %q %v, want %q", out, errs, p, disp(255))
	}
	v, e, p = s.Eval1("sqrt 1 + 1")
	if f, ok := v.(value.BigFloat); p != nil || e != "" || !ok || f.Prec() != m.prec {
		return fail("sqrt 2 is %s, want precision %d", show(v, e, p), m.prec)
	}
	s.SetVar("zq", value.Int(70))
	v, e, p = s.Eval1("1 << zq")
	over := m.maxbits != 0 && 71 > m.maxbits
	if p != nil || (e != "") != over {
		return fail("1<<70 is %s with maxbits %d", show(v, e, p), m.maxbits)
	}
	if m.format == "" && (m.ob == 0 || m.ob == 10) {
		ten20, _ := new(big.Int).SetString("100000000000000000000", 10)
		s.SetVar("zq", value.BigInt{Int: ten20})
		out, errs, p = s.Run("zq")
		long := m.maxdigits != 0 && 21 > m.maxdigits
		if p != nil || errs != "" || (out != "100000000000000000000\n") != long {
			return fail("1e20 prints %q %q %v with maxdigits %d", out, errs, p, m.maxdigits)
		}
	}
	// Calls nest to exactly maxstack.
	s.SetVar("zq", value.Int(0))
	s.Run("op rq z = z <= 1: 1; 1 + rq z - 1")
	for n := int64(2); n <= 5; n++ {
		s.SetVar("zq", value.Int(n))
		v, e, p = s.Eval1("rq zq")
		if p != nil || (e != "") != (uint(n) > m.maxstack) || e == "" && ivy.Dump(v) != strconv.FormatInt(n, 10) {
			return fail("%d nested calls: %s with maxstack %d", n, show(v, e, p), m.maxstack)
		}
	}
	s.Run("opdelete rq z")
	out, _, p = s.RunReader(strings.NewReader("# x\n"), true)
	if p != nil || out != m.prompt+"\n"+m.prompt {
		return fail("interactive session prints %q, prompt is %q", out, m.prompt)
	}
	if m.seeded {
		draw := func(s *ivy.Sess) string {
			s.SetVar("zq", value.Int(1000000))
			var o string
			for i := 0; i < 3; i++ {
				v, e, p := s.Eval1("?zq")
				if p != nil || e != "" {
					return show(v, e, p)
				}
				r, ok := ratOf(v)
				if !ok {
					return show(v, e, p)
				}
				o += " " + r.Sub(r, rat(int64(s.Conf.Origin()), 1)).RatString()
			}
			return o
		}
		want, ok := seedRef[m.seed]
		if !ok {
			n := ivy.New()
			n.Conf.SetRandomSeed(m.seed)
			want = draw(n)
			seedRef[m.seed] = want
		}
		if got := draw(s); got != want {
			return fail("after )seed %d ?1000000 gives %s, want %s", m.seed, got, want)
		}
	}
	return true
}
