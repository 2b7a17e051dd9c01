// Package mp is a small reference implementation of the elementary functions
// on arbitrary-precision real and complex numbers, written without regard to
// speed and independent of ivy's algorithms (and constants). All functions
// work to R bits with ample guard bits.
package mp

import (
	"math/big"
)

type F = big.Float

// R is the working precision.
var R uint = 2000

func N() *F              { return new(F).SetPrec(R) }
func I(i int64) *F       { return N().SetInt64(i) }
func Add(a, b *F) *F     { return N().Add(a, b) }
func Sub(a, b *F) *F     { return N().Sub(a, b) }
func Mul(a, b *F) *F     { return N().Mul(a, b) }
func Div(a, b *F) *F     { return N().Quo(a, b) }
func Neg(a *F) *F        { return N().Neg(a) }
func Abs(a *F) *F        { return N().Abs(a) }
func Sqrt(a *F) *F       { return N().Sqrt(N().Set(a)) }
func Shl(a *F, n int) *F { return N().SetMantExp(N().Set(a), n) }

// with runs f with extra bits.
func with(extra uint, f func() *F) *F {
	old := R
	R += extra
	z := f()
	R = old
	return N().Set(z)
}

var piCache = map[uint]*F{}

// Pi by Machin's formula.
func Pi() *F {
	if p := piCache[R]; p != nil {
		return N().Set(p)
	}
	inv := func(k int64) *F { // atan(1/k)
		x := Div(I(1), I(k))
		x2 := Mul(x, x)
		s, t := N().Set(x), N().Set(x)
		for n := int64(3); ; n += 2 {
			t = Neg(Mul(t, x2))
			d := Div(t, I(n))
			if d.Sign() == 0 || d.MantExp(nil) < -int(R)-10 {
				return s
			}
			s = Add(s, d)
		}
	}
	p := with(64, func() *F { return Sub(Mul(I(16), inv(5)), Mul(I(4), inv(239))) })
	piCache[R] = p
	return N().Set(p)
}

// Exp by halving and squaring.
func Exp(x *F) *F {
	if x.Sign() == 0 {
		return I(1)
	}
	k := 0
	if e := x.MantExp(nil); e > -16 {
		k = e + 16
	}
	return with(uint(2*k+64), func() *F {
		y := Shl(x, -k)
		s, t := I(1), I(1)
		for n := int64(1); ; n++ {
			t = Div(Mul(t, y), I(n))
			if t.Sign() == 0 || t.MantExp(nil) < -int(R)-10 {
				break
			}
			s = Add(s, t)
		}
		for i := 0; i < k; i++ {
			s = Mul(s, s)
		}
		return s
	})
}

var ln2Cache = map[uint]*F{}

func ln2() *F {
	if p := ln2Cache[R]; p != nil {
		return N().Set(p)
	}
	// log 2 = 2 atanh(1/3)
	p := with(64, func() *F { return Mul(I(2), atanhSmall(Div(I(1), I(3)))) })
	ln2Cache[R] = p
	return N().Set(p)
}

func atanhSmall(x *F) *F {
	x2 := Mul(x, x)
	s, t := N().Set(x), N().Set(x)
	for n := int64(3); ; n += 2 {
		t = Mul(t, x2)
		d := Div(t, I(n))
		if d.Sign() == 0 || d.MantExp(nil) < s.MantExp(nil)-int(R)-10 {
			return s
		}
		s = Add(s, d)
	}
}

// Log: x = m 2^e, with m in [0.7, 1.4], square roots, then 2 atanh((m-1)/(m+1)).
func Log(x *F) *F {
	if x.Sign() <= 0 {
		panic("mp: log of non-positive")
	}
	return with(96, func() *F {
		m := N()
		e := N().Set(x).MantExp(m)
		if m.Cmp(new(F).SetFloat64(0.7)) < 0 {
			m = Shl(m, 1)
			e--
		}
		k := 0
		for ; k < 8; k++ {
			if d := Sub(m, I(1)); d.Sign() == 0 || d.MantExp(nil) < -10 {
				break
			}
			m = Sqrt(m)
		}
		l := N()
		if d := Sub(m, I(1)); d.Sign() != 0 {
			l = Mul(I(2), atanhSmall(Div(d, Add(m, I(1)))))
		}
		return Add(Shl(l, k), Mul(I(int64(e)), ln2()))
	})
}

// SinCos by reduction modulo 2π, halving and doubling.
func SinCos(x *F) (s, c *F) {
	if x.Sign() == 0 {
		return I(0), I(1)
	}
	old := R
	extra := uint(256)
	if e := x.MantExp(nil); e > 0 {
		extra += uint(e)
	}
	R += extra
	y := N().Set(x)
	twoPi := Mul(I(2), Pi())
	n, _ := Div(y, twoPi).Int(nil)
	y = Sub(y, Mul(N().SetInt(n), twoPi))
	const k = 20
	y = Shl(y, -k)
	// sin and 1-cos
	y2 := Mul(y, y)
	ss, t := N().Set(y), N().Set(y)
	for n := int64(2); t.Sign() != 0; n += 2 {
		t = Neg(Div(Mul(t, y2), I(n*(n+1))))
		if t.Sign() == 0 || t.MantExp(nil) < ss.MantExp(nil)-int(R)-10 {
			break
		}
		ss = Add(ss, t)
	}
	vc := N() // 1 - cos y
	t = I(1)
	for n := int64(1); y.Sign() != 0; n += 2 {
		t = Neg(Div(Mul(t, y2), I(n*(n+1))))
		if t.Sign() == 0 || vc.Sign() != 0 && t.MantExp(nil) < vc.MantExp(nil)-int(R)-10 {
			break
		}
		vc = Sub(vc, t)
	}
	for i := 0; i < k; i++ {
		// sin 2y = 2 sin y cos y; 1-cos 2y = 2 sin² y
		cc := Sub(I(1), vc)
		s2 := Mul(ss, ss)
		ss = Mul(I(2), Mul(ss, cc))
		vc = Mul(I(2), s2)
	}
	cc := Sub(I(1), vc)
	R = old
	return N().Set(ss), N().Set(cc)
}

func Sin(x *F) *F { s, _ := SinCos(x); return s }
func Cos(x *F) *F { _, c := SinCos(x); return c }

// Atan by halving the angle.
func Atan(x *F) *F {
	if x.Sign() == 0 {
		return I(0)
	}
	return with(128, func() *F {
		y := Abs(x)
		inv := y.Cmp(I(1)) > 0
		if inv {
			y = Div(I(1), y)
		}
		k := 0
		for ; k < 12; k++ {
			y = Div(y, Add(I(1), Sqrt(Add(I(1), Mul(y, y)))))
		}
		y2 := Mul(y, y)
		s, t := N().Set(y), N().Set(y)
		for n := int64(3); ; n += 2 {
			t = Neg(Mul(t, y2))
			d := Div(t, I(n))
			if d.Sign() == 0 || d.MantExp(nil) < s.MantExp(nil)-int(R)-10 {
				break
			}
			s = Add(s, d)
		}
		s = Shl(s, k)
		if inv {
			s = Sub(Shl(Pi(), -1), s)
		}
		if x.Sign() < 0 {
			s = Neg(s)
		}
		return s
	})
}

// Atan2 is the argument of x + iy, in (-π, π].
func Atan2(y, x *F) *F {
	switch {
	case x.Sign() > 0:
		return Atan(Div(y, x))
	case x.Sign() < 0:
		a := Atan(Div(y, x))
		if y.Sign() >= 0 {
			return Add(a, Pi())
		}
		return Sub(a, Pi())
	}
	h := Shl(Pi(), -1)
	switch y.Sign() {
	case 1:
		return h
	case -1:
		return Neg(h)
	}
	return I(0)
}

// C is a complex number.
type C struct{ Re, Im *F }

func CR(x *F) C       { return C{N().Set(x), I(0)} }
func CI(a, b int64) C { return C{I(a), I(b)} }
func CAdd(a, b C) C   { return C{Add(a.Re, b.Re), Add(a.Im, b.Im)} }
func CSub(a, b C) C   { return C{Sub(a.Re, b.Re), Sub(a.Im, b.Im)} }
func CNeg(a C) C      { return C{Neg(a.Re), Neg(a.Im)} }
func CMul(a, b C) C {
	return C{Sub(Mul(a.Re, b.Re), Mul(a.Im, b.Im)), Add(Mul(a.Re, b.Im), Mul(a.Im, b.Re))}
}
func CAbs2(a C) *F { return Add(Mul(a.Re, a.Re), Mul(a.Im, a.Im)) }
func CAbs(a C) *F {
	if a.Im.Sign() == 0 {
		return Abs(a.Re)
	}
	return Sqrt(CAbs2(a))
}
func CDiv(a, b C) C {
	d := CAbs2(b)
	n := CMul(a, C{b.Re, Neg(b.Im)})
	return C{Div(n.Re, d), Div(n.Im, d)}
}

// CSqrt is the root with non-negative real part; of negative reals the one on the positive imaginary axis.
func CSqrt(a C) C {
	if a.Im.Sign() == 0 {
		if a.Re.Sign() >= 0 {
			return CR(Sqrt(a.Re))
		}
		return C{I(0), Sqrt(Neg(a.Re))}
	}
	m := CAbs(a)
	if a.Re.Sign() >= 0 {
		r := Sqrt(Shl(Add(m, a.Re), -1))
		return C{r, Div(a.Im, Shl(r, 1))}
	}
	i := Sqrt(Shl(Sub(m, a.Re), -1))
	if a.Im.Sign() < 0 {
		i = Neg(i)
	}
	return C{Div(a.Im, Shl(i, 1)), i}
}

func CLog(a C) C { return C{Log(CAbs(a)), Atan2(a.Im, a.Re)} }
func CExp(a C) C {
	e := Exp(a.Re)
	s, c := SinCos(a.Im)
	return C{Mul(e, c), Mul(e, s)}
}

var one, i1 = func() C { return CI(1, 0) }, func() C { return CI(0, 1) }

func CSin(z C) C { // (e^{iz} - e^{-iz})/2i
	a, b := CExp(CMul(i1(), z)), CExp(CNeg(CMul(i1(), z)))
	return CDiv(CSub(a, b), CI(0, 2))
}
func CCos(z C) C {
	a, b := CExp(CMul(i1(), z)), CExp(CNeg(CMul(i1(), z)))
	return CDiv(CAdd(a, b), CI(2, 0))
}
func CTan(z C) C { return CDiv(CSin(z), CCos(z)) }
func CSinh(z C) C {
	return CDiv(CSub(CExp(z), CExp(CNeg(z))), CI(2, 0))
}
func CCosh(z C) C {
	return CDiv(CAdd(CExp(z), CExp(CNeg(z))), CI(2, 0))
}
func CTanh(z C) C { return CDiv(CSinh(z), CCosh(z)) }

// The inverse functions, by the definitions with principal values.
func CAsin(z C) C {
	w := CAdd(CMul(i1(), z), CSqrt(CSub(one(), CMul(z, z))))
	return CMul(CNeg(i1()), CLog(w))
}
func CAcos(z C) C { return CSub(CR(Shl(Pi(), -1)), CAsin(z)) }
func CAtan(z C) C {
	a := CLog(CAdd(one(), CMul(i1(), z)))
	b := CLog(CSub(one(), CMul(i1(), z)))
	return CDiv(CSub(a, b), CI(0, 2))
}
func CAsinh(z C) C { return CLog(CAdd(z, CSqrt(CAdd(CMul(z, z), one())))) }
func CAcosh(z C) C { return CLog(CAdd(z, CSqrt(CSub(CMul(z, z), one())))) }
func CAtanh(z C) C {
	return CDiv(CSub(CLog(CAdd(one(), z)), CLog(CSub(one(), z))), CI(2, 0))
}
func CPow(a, b C) C { return CExp(CMul(b, CLog(a))) }
