package props

import (
	"strings"

	"robpike.io/ivy/exec"
	"robpike.io/ivy/value"
	"verif/ivy"
)

// A reference reading of ivy's grammar: text -> tokens -> tree -> value.
// The tree is evaluated with single applications of operators to values
// (evaluated by the interpreter, one at a time, on variables), so that what is
// judged is grouping, evaluation order, binding and rejection.

type gTok struct {
	kind byte // n number, s string, i name, o symbol operator, or one of ( ) [ ] ; = :
	text string
}

type gNode struct {
	kind  byte // c constant, v variable, V vector, u unary, b binary, = assign, x index, : conditional
	op    string
	l, r  *gNode
	list  []*gNode // vector elements, indexes (nil: empty slot)
	val   value.Value
	paren bool
}

// gLang says what the names mean.
type gLang struct {
	unary, binary map[string]bool // operator names (identifiers)
	konst         func(text string) (value.Value, bool)
}

type gParser struct {
	lang  *gLang
	toks  []gTok
	bad   bool
	opvar bool // an operator name was read as a variable
	loose bool // a construct whose rejection time is unspecified was met
}

func (p *gParser) peek() gTok {
	if len(p.toks) == 0 {
		return gTok{}
	}
	return p.toks[0]
}

func (p *gParser) next() gTok {
	t := p.peek()
	if len(p.toks) > 0 {
		p.toks = p.toks[1:]
	}
	return t
}

func (p *gParser) fail() *gNode {
	p.bad = true
	p.toks = nil
	return nil
}

// line parses a whole line: statements separated by semicolons.
func (p *gParser) line() []*gNode {
	var out []*gNode
	for {
		e := p.expr()
		if p.bad {
			return nil
		}
		if p.peek().kind == ':' {
			p.next()
			r := p.expr()
			if p.bad {
				return nil
			}
			e = &gNode{kind: ':', l: e, r: r}
		}
		out = append(out, e)
		if p.peek().kind != ';' {
			break
		}
		p.next()
	}
	if p.peek().kind != 0 {
		p.fail()
		return nil
	}
	return out
}

func (p *gParser) isOp(name string) bool { return p.lang.unary[name] || p.lang.binary[name] }

func (p *gParser) expr() *gNode {
	if p.bad {
		return nil
	}
	l := p.operand()
	if p.bad {
		return nil
	}
	t := p.peek()
	switch t.kind {
	case 0, ')', ']', ';', ':':
		return l
	case '=':
		p.next()
		p.target(l)
		r := p.expr()
		if p.bad {
			return nil
		}
		return &gNode{kind: '=', l: l, r: r}
	case 'o':
		p.next()
		r := p.expr()
		if p.bad {
			return nil
		}
		return &gNode{kind: 'b', op: t.text, l: l, r: r}
	case 'i':
		if p.lang.binary[t.text] {
			p.next()
			r := p.expr()
			if p.bad {
				return nil
			}
			return &gNode{kind: 'b', op: t.text, l: l, r: r}
		}
	}
	return p.fail()
}

// target checks that n can be assigned to.
func (p *gParser) target(n *gNode) {
	switch n.kind {
	case 'v':
		if p.isOp(n.op) {
			p.loose = true
		}
	case 'x':
		switch n.l.kind {
		case 'v':
			if p.isOp(n.l.op) {
				p.loose = true
			}
		case 'x':
			p.fail()
		default:
			p.loose = true // rejected, now or when evaluated
		}
	case 'V':
		for _, e := range n.list {
			p.target(e)
		}
	default:
		p.fail()
	}
}

func (p *gParser) operand() *gNode {
	t := p.peek()
	switch t.kind {
	case 'o':
		p.next()
		if strings.Contains(t.text, ".") {
			p.loose = true // a product with no left operand: rejected, now or when evaluated
		}
		r := p.expr()
		if p.bad {
			return nil
		}
		return &gNode{kind: 'u', op: t.text, r: r}
	case 'i':
		if p.lang.unary[t.text] {
			p.next()
			r := p.expr()
			if p.bad {
				return nil
			}
			return &gNode{kind: 'u', op: t.text, r: r}
		}
	case 'n', 's', '(':
	default:
		return p.fail()
	}
	var items []*gNode
	for {
		t := p.peek()
		if t.kind == 'i' && len(items) > 0 && p.isOp(t.text) {
			break
		}
		if t.kind != 'n' && t.kind != 's' && t.kind != 'i' && t.kind != '(' {
			break
		}
		p.next()
		var e *gNode
		switch t.kind {
		case 'n', 's':
			v, ok := p.lang.konst(t.text)
			if !ok {
				return p.fail()
			}
			e = &gNode{kind: 'c', val: v, op: t.text}
		case 'i':
			if p.isOp(t.text) {
				p.opvar = true
			}
			e = p.index(&gNode{kind: 'v', op: t.text})
		case '(':
			e = p.expr()
			if p.bad || p.next().kind != ')' {
				return p.fail()
			}
		}
		if p.bad {
			return nil
		}
		items = append(items, e)
	}
	var e *gNode
	if len(items) == 1 {
		e = items[0]
	} else {
		e = &gNode{kind: 'V', list: items}
	}
	return p.index(e)
}

func (p *gParser) index(e *gNode) *gNode {
	for !p.bad && p.peek().kind == '[' {
		p.next()
		var list []*gNode
		for {
			k := p.peek().kind
			if k == ';' || k == ']' {
				list = append(list, nil)
			} else {
				x := p.expr()
				if p.bad {
					return nil
				}
				list = append(list, x)
			}
			k = p.next().kind
			if k == ']' {
				break
			}
			if k != ';' {
				return p.fail()
			}
		}
		e = &gNode{kind: 'x', l: e, list: list}
	}
	if p.bad {
		return nil
	}
	return e
}

// gEnv evaluates trees.
type gEnv struct {
	s     *ivy.Sess // a session of its own
	vars  map[string]value.Value
	cache map[string]value.Value
	fail  bool
	steps int

	fns    map[string]*gFn // user-defined operators: "f" unary, "_f" binary
	frames []*gFrame
	max    int // call depth limit, 0: none
}

// gFn is a user-defined operator.
type gFn struct {
	left, right *gNode // argument patterns: v or V nodes
	body        []*gNode
	local       map[string]bool
}

type gFrame struct {
	fn   *gFn
	vars map[string]value.Value
}

// analyse determines which names are local: those assigned before they are
// read, in evaluation order; an indexed assignment reads its variable.
func (f *gFn) analyse() {
	f.local = map[string]bool{}
	seen := map[string]bool{}
	see := func(name string, assigned bool) {
		if !seen[name] {
			seen[name] = true
			f.local[name] = assigned
		}
	}
	var walk func(n *gNode, assign bool)
	walk = func(n *gNode, assign bool) {
		if n == nil {
			return
		}
		switch n.kind {
		case 'v':
			see(n.op, assign)
		case 'V':
			for i := len(n.list) - 1; i >= 0; i-- {
				walk(n.list[i], assign)
			}
		case 'u':
			walk(n.r, false)
		case 'b':
			walk(n.r, false)
			walk(n.l, false)
		case '=':
			walk(n.r, false)
			walk(n.l, true)
		case ':':
			walk(n.l, false)
			walk(n.r, false)
		case 'x':
			for i := len(n.list) - 1; i >= 0; i-- {
				walk(n.list[i], false)
			}
			walk(n.l, false)
		}
	}
	walk(f.left, true)
	walk(f.right, true)
	for _, n := range f.body {
		walk(n, false)
	}
}

func (e *gEnv) get(name string) value.Value {
	if n := len(e.frames); n > 0 && e.frames[n-1].fn.local[name] {
		return e.frames[n-1].vars[name]
	}
	return e.vars[name]
}

func (e *gEnv) set(name string, v value.Value) {
	if n := len(e.frames); n > 0 && e.frames[n-1].fn.local[name] {
		e.frames[n-1].vars[name] = v
		return
	}
	e.vars[name] = v
}

// truth of a condition.
func gTrue(v value.Value) (t, ok bool) {
	switch x := v.(type) {
	case *value.Vector:
		if x.Len() == 1 {
			return gTrue(x.At(0))
		}
		return false, false
	case *value.Matrix:
		if x.Data().Len() == 1 {
			return gTrue(x.Data().At(0))
		}
		return false, false
	case value.Char:
		return x != 0, true
	case value.Int:
		return x != 0, true
	case value.BigFloat:
		return x.Float.Sign() != 0, true
	}
	return true, true
}

func (e *gEnv) call(fn *gFn, l, r value.Value) value.Value {
	if len(fn.body) == 0 || e.max > 0 && len(e.frames) >= e.max {
		e.fail = true
		return nil
	}
	e.frames = append(e.frames, &gFrame{fn, map[string]value.Value{}})
	defer func() { e.frames = e.frames[:len(e.frames)-1] }()
	if fn.left != nil {
		e.assign(fn.left, l)
	}
	e.assign(fn.right, r)
	var v value.Value
	for _, st := range fn.body {
		if e.fail {
			return nil
		}
		if st.kind == ':' {
			c := e.eval(st.l)
			if e.fail {
				return nil
			}
			t, ok := gTrue(c)
			if !ok {
				e.fail = true
				return nil
			}
			if t {
				return e.eval(st.r)
			}
			continue
		}
		v = e.eval(st)
	}
	if v == nil {
		e.fail = true // nothing but conditions, none of them true
	}
	return v
}

func newGEnv(setup string) *gEnv {
	e := &gEnv{s: ivy.New(), vars: map[string]value.Value{}, cache: map[string]value.Value{}}
	if out, errs, p := e.s.Run(setup); errs != "" || p != nil {
		panic(out + errs)
	}
	return e
}

var gNil = value.Value(nil)

// apply evaluates src in which ga, gb, gc... stand for the values.
func (e *gEnv) apply(src string, vals ...value.Value) value.Value {
	e.steps++
	var b strings.Builder
	b.WriteString(src)
	for _, v := range vals {
		b.WriteByte(0)
		b.WriteString(ivy.DumpRep(v))
	}
	key := b.String()
	if v, ok := e.cache[key]; ok {
		if v == nil {
			e.fail = true
		}
		return v
	}
	for i, v := range vals {
		e.s.SetVar("g"+string(rune('a'+i)), v)
	}
	v, err, p := e.s.Eval1(src)
	if err != "" || p != nil {
		v = nil
		e.fail = true
	}
	if len(e.cache) > 300000 {
		clear(e.cache)
	}
	e.cache[key] = v
	return v
}

func (e *gEnv) eval(n *gNode) value.Value {
	if e.fail {
		return nil
	}
	switch n.kind {
	case 'c':
		return n.val
	case 'v':
		v := e.get(n.op)
		if v == nil {
			e.fail = true
		}
		return v
	case 'V':
		vals := make([]value.Value, len(n.list))
		for i := len(n.list) - 1; i >= 0; i-- {
			vals[i] = e.eval(n.list[i])
			if e.fail {
				return nil
			}
		}
		return value.NewVector(vals...)
	case 'u':
		r := e.eval(n.r)
		if e.fail {
			return nil
		}
		if fn := e.fns[n.op]; fn != nil {
			return e.call(fn, nil, r)
		}
		return e.apply(n.op+" ga", r)
	case 'b':
		r := e.eval(n.r)
		l := e.eval2(n.l)
		if e.fail {
			return nil
		}
		if fn := e.fns["_"+n.op]; fn != nil {
			return e.call(fn, l, r)
		}
		return e.apply("ga "+n.op+" gb", l, r)
	case ':':
		e.eval(n.r)
		e.eval2(n.l)
		e.fail = true
		return nil
	case '=':
		r := e.eval(n.r)
		if e.fail {
			return nil
		}
		e.assign(n.l, r)
		return r
	case 'x':
		src, vals := e.indexes(n)
		if e.fail {
			return nil
		}
		l := e.eval(n.l)
		if e.fail {
			return nil
		}
		return e.apply("ga"+src, append([]value.Value{l}, vals...)...)
	}
	panic("gram: bad node")
}

// eval2 exists only to keep the right-to-left order visible at call sites.
func (e *gEnv) eval2(n *gNode) value.Value { return e.eval(n) }

func (e *gEnv) indexes(n *gNode) (src string, vals []value.Value) {
	vs := make([]value.Value, len(n.list))
	for i := len(n.list) - 1; i >= 0; i-- {
		if n.list[i] != nil {
			vs[i] = e.eval(n.list[i])
			if e.fail {
				return
			}
		}
	}
	var b strings.Builder
	b.WriteString("[")
	for i, v := range vs {
		if i > 0 {
			b.WriteString(";")
		}
		if v != nil {
			b.WriteString("g" + string(rune('b'+len(vals))))
			vals = append(vals, v)
		}
	}
	b.WriteString("]")
	return b.String(), vals
}

func (e *gEnv) assign(n *gNode, r value.Value) {
	if e.fail {
		return
	}
	switch n.kind {
	case 'v':
		e.set(n.op, r)
	case 'x':
		if n.l.kind != 'v' {
			e.fail = true
			return
		}
		src, vals := e.indexes(n)
		if e.fail {
			return
		}
		v := e.get(n.l.op)
		if v == nil {
			e.fail = true
			return
		}
		all := append([]value.Value{v}, vals...)
		all = append(all, r)
		name := "g" + string(rune('a'+len(all)-1))
		e.set(n.l.op, e.applyAssign("ga"+src+"="+name, all...))
	case 'V':
		rv, ok := r.(*value.Vector)
		if !ok || rv.Len() != len(n.list) {
			e.fail = true
			return
		}
		for i := rv.Len() - 1; i >= 0; i-- {
			e.assign(n.list[i], rv.At(i))
		}
	}
}

// applyAssign evaluates an assignment to (part of) ga and returns ga.
func (e *gEnv) applyAssign(src string, vals ...value.Value) value.Value {
	e.steps++
	for i, v := range vals {
		e.s.SetVar("g"+string(rune('a'+i)), v)
	}
	_, err, p := e.s.Eval1(src)
	if err != "" || p != nil {
		e.fail = true
		return vals[0]
	}
	return e.s.Var("ga")
}

func undef(s *ivy.Sess, names ...string) {
	c := s.Ctx.(*exec.Context)
	for _, n := range names {
		delete(c.Globals, n)
	}
}
