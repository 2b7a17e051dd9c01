package props

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	"robpike.io/ivy/value"
	"verif/ivy"
	"verif/mc"
)

func init() {
	register(&mc.Prop{ID: "P31", Run: runP31,
		Rule:        "for every zone of a list x system zones (the same, another, none): every seconds value at the edges of every month of a list of years from -290 million to +290 million, within two hours of every offset transition of the zone between 1880 and 2100, x fractions of a second x operand kinds: encode against an independent calendar, decode of the 7-, 6- and shorter vectors, text; every combination of out-of-range components and arbitrary offsets; operands unchanged; illegal operands and out-of-range times are errors",
		Assumptions: []string{"the offsets of each zone are taken from the zone database through package time", "for local times that occur twice or never at a change of offset, any of the offsets around the change is accepted"}})
}

// civil31 is an independent proleptic Gregorian calendar: days since 1970-01-01.
func civil31(days int64) (y int64, m, d int) {
	// Whole 400-year cycles first, then year by year.
	cyc := floorDiv31(days, 146097)
	days -= cyc * 146097
	y = 1970 + 400*cyc
	for {
		n := int64(365)
		if leap31(y) {
			n = 366
		}
		if days < n {
			break
		}
		days -= n
		y++
	}
	for m = 1; ; m++ {
		n := int64(monthLen31(y, m))
		if days < n {
			return y, m, int(days) + 1
		}
		days -= n
	}
}

func leap31(y int64) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }

func monthLen31(y int64, m int) int {
	switch m {
	case 4, 6, 9, 11:
		return 30
	case 2:
		if leap31(y) {
			return 29
		}
		return 28
	}
	return 31
}

func floorDiv31(a, b int64) int64 {
	q := a / b
	if a%b < 0 {
		q--
	}
	return q
}

// days31 is the inverse, with month and day carrying.
func days31(y, m, d int64) int64 {
	m--
	y += floorDiv31(m, 12)
	m -= 12 * floorDiv31(m, 12)
	cyc := floorDiv31(y-1970, 400)
	days := cyc * 146097
	for x := 1970 + 400*cyc; x < y; x++ {
		days += 365
		if leap31(x) {
			days++
		}
	}
	for i := 1; i <= int(m); i++ {
		days += int64(monthLen31(y, i))
	}
	return days + d - 1
}

func offset31(loc *time.Location, sec int64) int64 {
	_, o := time.Unix(sec, 0).In(loc).Zone()
	return int64(o)
}

type fields31 struct {
	f  [5]int64
	s  int64
	ns int64
	of int64
}

func breakdown31(sec, ns, off int64) fields31 {
	l := sec + off
	days := floorDiv31(l, 86400)
	r := l - days*86400
	y, m, d := civil31(days)
	return fields31{f: [5]int64{y, int64(m), int64(d), r / 3600, r / 60 % 60}, s: r % 60, ns: ns, of: off}
}

var weekdays31 = []string{"Thu", "Fri", "Sat", "Sun", "Mon", "Tue", "Wed"}
var months31 = []string{"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}

func text31(sec, off int64, zone string) string {
	b := breakdown31(sec, 0, off)
	days := floorDiv31(sec+off, 86400)
	wd := days - 7*floorDiv31(days, 7)
	y := fmt.Sprintf("%04d", b.f[0])
	if b.f[0] < 0 {
		y = fmt.Sprintf("-%04d", -b.f[0])
	}
	return fmt.Sprintf("%s %s %2d %02d:%02d:%02d %s %s", weekdays31[wd], months31[b.f[1]-1], b.f[2], b.f[3], b.f[4], b.s, zone, y)
}

// secOf31 is the exact number of seconds, to the nanosecond, of a value.
func nano31(v value.Value) (*big.Int, bool) {
	var r *big.Rat
	if f, ok := v.(value.BigFloat); ok {
		if f.IsInf() {
			return nil, false
		}
		r, _ = f.Rat(nil)
	} else {
		var ok bool
		if r, ok = ratOf(v); !ok {
			return nil, false
		}
	}
	r = new(big.Rat).Mul(r, rat(1000000000, 1))
	// Nearest integer, which must be within a thousandth.
	n := new(big.Int).Mul(r.Num(), big.NewInt(2))
	n.Add(n, r.Denom())
	n.Div(n, new(big.Int).Mul(r.Denom(), big.NewInt(2)))
	d := new(big.Rat).Sub(r, new(big.Rat).SetInt(n))
	if d.Abs(d).Cmp(rat(1, 1000)) > 0 {
		return nil, false
	}
	return n, true
}

func nanos31(sec, ns int64) *big.Int {
	n := new(big.Int).Mul(big.NewInt(sec), big.NewInt(1e9))
	return n.Add(n, big.NewInt(ns))
}

type sess31 struct {
	s         *ivy.Sess
	loc       *time.Location
	name      string // as printed
	lo, hi    int64
	localName string
}

// checkEncode checks encode, decode and text of one instant. val is an
// expression for sec + ns/1e9.
func (z *sess31) checkInstant(t *mc.T, val string, sec, ns int64, full bool) {
	off := offset31(z.loc, sec)
	want := breakdown31(sec, ns, off)
	s := z.s
	bad := func(f string, args ...any) {
		t.Failf("timezone %s, seconds %s: %s", z.name, val, fmt.Sprintf(f, args...))
	}
	if _, e, p := s.Run("x = " + val); e != "" || p != nil {
		bad("cannot assign: %s", e)
		return
	}
	before := ivy.DumpRep(s.Var("x"))
	v, e, p := s.Eval1("'T' encode x")
	t.Step(1)
	vec, ok := v.(*value.Vector)
	if e != "" || p != nil || !ok || vec.Len() != 7 {
		bad("encode gives %s", show(v, e, p))
		return
	}
	for i := 0; i < 5; i++ {
		if r, ok := ratOf(vec.At(i)); !ok || r.Cmp(rat(want.f[i], 1)) != 0 {
			bad("encode gives %s, want %v", show(v, e, p), want)
			return
		}
	}
	if n, ok := nano31(vec.At(5)); !ok || n.Cmp(nanos31(want.s, want.ns)) != 0 {
		bad("encode gives %s, want %v", show(v, e, p), want)
		return
	}
	if r, ok := ratOf(vec.At(6)); !ok || r.Cmp(rat(off, 1)) != 0 {
		bad("encode gives %s, want %v", show(v, e, p), want)
		return
	}
	if got := ivy.DumpRep(s.Var("x")); got != before {
		bad("encode changed its operand from %s to %s", before, got)
		return
	}
	s.SetVar("y", v)
	before = ivy.DumpRep(v)
	v, e, p = s.Eval1("'T' decode y")
	t.Step(1)
	if n, ok := nano31(v); e != "" || p != nil || !ok || n.Cmp(nanos31(sec, ns)) != 0 {
		bad("decode of encode (%s) gives %s", before, show(v, e, p))
		return
	}
	if got := ivy.DumpRep(s.Var("y")); got != before {
		bad("decode changed its operand from %s to %s", before, got)
		return
	}
	out, e, p := s.Run("'T' text x")
	t.Step(1)
	if w := text31(sec, off, z.name) + "\n"; e != "" || p != nil || out != w {
		bad("text gives %q %s, want %q", out, e, w)
		return
	}
	if !full {
		return
	}
	// Without the offset: an instant with the same local time.
	v, e, p = s.Eval1("'T' decode 6 take y")
	t.Step(1)
	n, ok := nano31(v)
	if e != "" || p != nil || !ok {
		bad("decode of 6 take %s gives %s", before, show(v, e, p))
		return
	}
	q, r := new(big.Int).DivMod(n, big.NewInt(1e9), new(big.Int))
	if got := breakdown31(q.Int64(), r.Int64(), offset31(z.loc, q.Int64())); got.f != want.f || got.s != want.s || got.ns != want.ns {
		bad("decode of 6 take %s gives %s, whose local time is %v", before, show(v, e, p), got)
		return
	}
	// Shorter vectors leave out the smallest parts.
	for k := 1; k <= 5; k++ {
		g := [6]int64{0, 1, 1, 0, 0, 0}
		copy(g[:], want.f[:k])
		v, e, p = s.Eval1(fmt.Sprintf("'T' decode %d take y", k))
		t.Step(1)
		z.checkLocal(t, fmt.Sprintf("decode of the first %d of %s", k, before), g, v, e, p)
	}
	t.Observe(fmt.Sprintf("%s %d %d", z.name, sec, off))
}

// checkLocal checks that v is an instant at the local time g, allowing any offset
// in force within two days for times skipped or repeated.
func (z *sess31) checkLocal(t *mc.T, what string, g [6]int64, v value.Value, e string, p *ivy.Panic) {
	local := days31(g[0], g[1], g[2])*86400 + g[3]*3600 + g[4]*60 + g[5]
	n, ok := nano31(v)
	if e == "" && p == nil && ok {
		exact := false
		offs := map[int64]bool{}
		for d := int64(-2 * 86400); d <= 2*86400; d += 3600 {
			o := offset31(z.loc, local+d)
			offs[o] = true
			if offset31(z.loc, local-o) == o {
				exact = true
			}
		}
		for o := range offs {
			if exact && offset31(z.loc, local-o) != o {
				continue
			}
			if n.Cmp(nanos31(local-o, 0)) == 0 {
				return
			}
		}
	}
	t.Failf("timezone %s: %s gives %s; the local time is %v", z.name, what, show(v, e, p), g)
}

func runP31(c *mc.Ctx) {
	zones := []struct{ set, load, name string }{
		{"UTC", "UTC", "UTC"},
		{"GMT", "UTC", "GMT"},
		{"America/New_York", "America/New_York", "America/New_York"},
		{"NYC", "America/New_York", "NYC"},
		{"EST", "America/New_York", "EST"},
		{"pst", "America/Los_Angeles", "pst"},
		{"Paris", "Europe/Paris", "Paris"},
		{"kolkata", "Asia/Kolkata", "Kolkata"},
		{"Europe/London", "Europe/London", "Europe/London"},
		{"Australia/Lord_Howe", "Australia/Lord_Howe", "Australia/Lord_Howe"},
		{"AEST", "Australia/Sydney", "AEST"},
		{"Asia/Kathmandu", "Asia/Kathmandu", "Asia/Kathmandu"},
		{"America/St_Johns", "America/St_Johns", "America/St_Johns"},
		{"Pacific/Apia", "Pacific/Apia", "Pacific/Apia"},
		{"Local", "", "Local"},
		{"", "", ""}, // No setting: the system's zone.
	}
	systems := []string{"UTC", "Asia/Tokyo", "America/New_York"}
	if !c.Quick {
		systems = append(systems, "Europe/London", "Asia/Kathmandu", "Pacific/Kiritimati")
	}
	fr := []int64{0, 1, 500000000, 999999999, 123456789}
	for _, sysZone := range systems {
		sysLoc, err := time.LoadLocation(sysZone)
		if err != nil {
			panic(err) // No zone database: nothing can be checked.
		}
		mk := func(set, load, name string) *sess31 {
			time.Local = sysLoc
			s := ivy.New()
			z := &sess31{s: s, loc: sysLoc, name: name}
			if load != "" {
				z.loc, _ = time.LoadLocation(load)
			}
			if set == "" {
				z.name, _ = time.Now().Zone()
			} else {
				s.Run(fmt.Sprintf(")timezone %q", set))
			}
			return z
		}
		for _, zone := range zones {
			loc := sysLoc
			if zone.load != "" {
				var err error
				if loc, err = time.LoadLocation(zone.load); err != nil {
					panic(err)
				}
			}
			c.Group("instants")
			// The edges of months.
			years := []int64{-290000000, -1000000, -4713, -401, -400, -100, -4, -1, 0, 1, 4, 5, 100, 400, 999, 1000, 1582, 1600, 1700, 1883, 1899, 1900, 1901,
				1969, 1970, 1971, 1972, 1973, 1999, 2000, 2001, 2023, 2024, 2037, 2038, 2039, 2100, 2400, 9999, 10000, 1000000, 290000000}
			if !c.Quick {
				for y := int64(1880); y <= 2110; y++ {
					years = append(years, y)
				}
			}
			for yi, y := range years {
				z := mk
				c.Case(fmt.Sprintf("%s/%s/year %d", sysZone, zone.set, y), func(t *mc.T) {
					z := z(zone.set, zone.load, zone.name)
					n := yi
					for m := 1; m <= 12; m++ {
						for _, d := range []int{1, monthLen31(y, m)} {
							for _, tod := range []int64{0, 86399, 45296} {
								n++
								local := days31(y, int64(m), int64(d))*86400 + tod
								off := offset31(loc, local)
								for k, sec := range []int64{local - off, local} {
									ns := fr[(n+k)%len(fr)]
									for j, val := range forms31(sec, ns) {
										if c.Quick && ns != 0 && j != n%2 {
											continue
										}
										z.checkInstant(t, val, sec, ns, true)
										if t.Failed() {
											return
										}
									}
								}
							}
						}
					}
				})
			}
			// The transitions.
			var trans []int64
			at := time.Date(1880, 1, 1, 0, 0, 0, 0, time.UTC)
			for {
				_, end := at.In(loc).ZoneBounds()
				if end.IsZero() || end.Year() > 2100 {
					break
				}
				if !end.After(at) { // Package time can repeat itself at the end of its table.
					at = at.Add(24 * time.Hour)
					continue
				}
				trans = append(trans, end.Unix())
				at = end
			}
			step := 1
			if c.Quick {
				step = 3
			}
			for lo := 0; lo < len(trans); lo += 20 {
				hi := min(lo+20, len(trans))
				c.Case(fmt.Sprintf("%s/%s/transitions %d", sysZone, zone.set, lo), func(t *mc.T) {
					z := mk(zone.set, zone.load, zone.name)
					for i, tr := range trans[lo:hi] {
						for k, d := range []int64{-86400, -7201, -7200, -3601, -3600, -1801, -1800, -1, 0, 1, 1799, 1800, 3599, 3600, 7199, 7200, 86400} {
							if (i+k)%step != 0 && d != 0 && d != -1 && d != -3600 {
								continue
							}
							ns := fr[(i+k)%len(fr)]
							z.checkInstant(t, forms31(tr+d, ns)[0], tr+d, ns, true)
							if t.Failed() {
								return
							}
						}
					}
				})
			}
			c.Group("vectors")
			// Arbitrary vectors: components that carry and any offset.
			c.Case(fmt.Sprintf("%s/%s/vectors", sysZone, zone.set), func(t *mc.T) {
				z := mk(zone.set, zone.load, zone.name)
				for _, y := range []int64{-1, 1969, 1970, 2023, 2024} {
					for _, m := range []int64{-13, -12, -1, 0, 1, 2, 3, 7, 12, 13, 25, 2147483648} {
						if m > 100 {
							m = 2400 * 500 // A large carry.
						}
						for _, d := range []int64{-400, -1, 0, 1, 29, 31, 32, 366, 3000000000} {
							for _, h := range []int64{-1, 0, 24, 100000} {
								for _, mi := range []int64{-1, 0, 60, 10000} {
									for _, se := range []int64{-61, 0, 60, 86400, 5000000000} {
										g := [6]int64{y, m, d, h, mi, se}
										n := int(y + m + d + h + mi + se)
										if n < 0 {
											n = -n
										}
										if c.Quick && n%7 != 0 {
											continue
										}
										of := []int64{0, 3600, -3600, 32400, -18000, -14400, 1, -1, 20700, 50400, 86399, -86399}[n%12]
										src := fmt.Sprintf("'T' decode %d %d %d %d %d %d %d", y, m, d, h, mi, se, of)
										v, e, p := z.s.Eval1(src)
										t.Step(1)
										w := days31(y, m, d)*86400 + h*3600 + mi*60 + se - of
										if n, ok := nano31(v); e != "" || p != nil || !ok || n.Cmp(nanos31(w, 0)) != 0 {
											t.Failf("timezone %s, system %s: %s gives %s, want %d", zone.set, sysZone, src, show(v, e, p), w)
											return
										}
										// Fractional seconds, as a rational and as a float.
										for _, sec := range []string{fmt.Sprintf("%d/4", 4*se+1), fmt.Sprintf("(float %d/4)", 4*se+1)} {
											src = fmt.Sprintf("'T' decode %d %d %d %d %d %s %d", y, m, d, h, mi, sec, of)
											v, e, p := z.s.Eval1(src)
											t.Step(1)
											if n, ok := nano31(v); e != "" || p != nil || !ok || n.Cmp(nanos31(w, 25e7)) != 0 {
												t.Failf("timezone %s, system %s: %s gives %s, want %d.25", zone.set, sysZone, src, show(v, e, p), w)
												return
											}
										}
										src = fmt.Sprintf("'T' decode %d %d %d %d %d %d", y, m, d, h, mi, se)
										v, e, p = z.s.Eval1(src)
										t.Step(1)
										z.checkLocal(t, src, g, v, e, p)
										if t.Failed() {
											return
										}
									}
								}
							}
						}
					}
				}
			})
			c.Case(fmt.Sprintf("%s/%s/now", sysZone, zone.set), func(t *mc.T) {
				z := mk(zone.set, zone.load, zone.name)
				for _, src := range []string{"sys 'sec'", "sys 'now'", "'T' decode sys 'time'", "'T' decode 6 take sys 'time'", "'T' decode 'T' encode sys 'sec'"} {
					t0 := time.Now().UnixNano()
					v, e, p := z.s.Eval1(src)
					t1 := time.Now().UnixNano()
					t.Step(1)
					f, ok := v.(value.BigFloat)
					if e != "" || p != nil || !ok {
						t.Failf("timezone %s: %s gives %s", zone.set, src, show(v, e, p))
						return
					}
					x, _ := f.Float64()
					if x < float64(t0)/1e9-1e-5 || x > float64(t1)/1e9+1e-5 {
						if strings.Contains(src, "6 take") && offset31(z.loc, t0/1e9+7200) != offset31(z.loc, t0/1e9-7200) {
							continue
						}
						t.Failf("timezone %s: %s gives %v, but the time is %d", zone.set, src, x, t0)
						return
					}
				}
				for try := 0; ; try++ {
					t0 := time.Now().Unix()
					out, e, p := z.s.Run("sys 'date'")
					out2, e2, p2 := z.s.Run(")timezone")
					t1 := time.Now().Unix()
					t.Step(2)
					ok := e == "" && p == nil && e2 == "" && p2 == nil
					match := false
					for x := t0; x <= t1; x++ {
						match = match || out == text31(x, offset31(z.loc, x), z.name)+"\n"
					}
					if !ok || !match {
						t.Failf("timezone %s: sys 'date' gives %q %s, want %q", zone.set, out, e, text31(t0, offset31(z.loc, t0), z.name))
						return
					}
					if w := fmt.Sprintf("%s %d\n", z.name, offset31(z.loc, t0)); out2 != w {
						t.Failf("timezone %s: )timezone prints %q, want %q", zone.set, out2, w)
					}
					return
				}
			})
		}
	}
	c.Group("errors")
	for _, src := range []string{
		"'T' encode 1e30", "'T' encode -1e30", "'T' encode 1e17", "'T' encode 2**63", "'T' encode 2**64", "'T' encode -2**63", "'T' text 1e30", "'T' text 2**63",
		"'T' decode (2**62) 1", "'T' decode (2**64) 1", "'T' decode (-2**62) 1", "'T' decode 1e12 1", "'T' decode 1970 (2**62)", "'T' decode 1970 1 (2**62)", "'T' decode 1970 1 1 (2**62)",
		"'T' decode 1970 1 1 0 (2**62)", "'T' decode 1970 1 1 0 0 (2**62)", "'T' decode 1970 1 1 0 0 (2**80)", "'T' decode 1970 1 1 0 0 1e30", "'T' decode 99999999999",
		"'X' encode 1", "'X' decode 1", "'T' encode 'a'", "'T' encode iota 0", "'T' decode 'a'", "'T' decode 1.5", "'T' decode 1970 1/2", "'T' decode 1970 1 'a'", "'T' decode 1970 1 1 0 0 'a'",
		"'T' decode 1970 1 1 0 0 0 1/2", "'T' decode 1970 1 1 0 0 0 0 0", "'T' decode 9 rho 1", "'T' encode 1j1", "'T' text 'a'",
		")timezone 'Nowhere'", ")timezone 'Nowhere/City'", ")timezone 'nowhere'", ")timezone 3",
	} {
		c.Case("error "+src, func(t *mc.T) {
			time.Local = time.UTC
			s := ivy.New()
			out, e, p := s.Run(src)
			t.Step(1)
			if p != nil || e == "" || out != "" {
				t.Failf("%s should be an error and gives %q %q %v", src, out, e, p)
			}
			if out, e, p := s.Run("'T' text 0"); out != "Thu Jan  1 00:00:00 UTC 1970\n" || e != "" || p != nil {
				t.Failf("after %s: 'T' text 0 gives %q %q", src, out, e)
			}
		})
	}
	// Settings follow one another.
	names := []string{"UTC", "NYC", "paris", "AEST", "Local", "Nowhere"}
	sort.Strings(names)
	c.Group("settings")
	for _, a := range names {
		for _, b := range names {
			for _, d := range names {
				c.Case("settings "+a+" "+b+" "+d, func(t *mc.T) {
					time.Local, _ = time.LoadLocation("Asia/Tokyo")
					s := ivy.New()
					off, name := int64(32400), "JST"
					for _, x := range []string{a, b, d} {
						s.Run(fmt.Sprintf(")timezone %q", x))
						switch x {
						case "UTC":
							off, name = 0, x
						case "NYC":
							off, name = -18000, x
						case "paris":
							off, name = 3600, "Paris"
						case "AEST":
							off, name = 39600, x
						case "Local":
							off, name = 32400, x
						}
						sec := int64(1705311296) // January.
						out, e, p := s.Run("'T' text 1705311296")
						t.Step(2)
						if w := text31(sec, off, name) + "\n"; out != w || e != "" || p != nil {
							t.Failf("after )timezone %s %s %s: 'T' text %d gives %q %s, want %q", a, b, d, sec, out, e, w)
							return
						}
					}
				})
			}
		}
	}
}

// forms31 gives expressions of different types for the same value.
func forms31(sec, ns int64) []string {
	if ns == 0 {
		return []string{fmt.Sprint(sec), fmt.Sprintf("float %d", sec)}
	}
	r := new(big.Rat).SetFrac(nanos31(sec, ns), big.NewInt(1e9))
	return []string{"float " + lit(r), lit(r)}
}
