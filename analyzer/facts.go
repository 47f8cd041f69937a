package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"
)

const (
	LT  = 1
	EQ  = 2
	GT  = 4
	ALL = 7
	NE  = LT | GT
	LE  = LT | EQ
	GE  = GT | EQ
)

func flip(m int) int {
	r := m & EQ
	if m&LT != 0 {
		r |= GT
	}
	if m&GT != 0 {
		r |= LT
	}
	return r
}

// Fact: the relation between the two terms lies in Mask ({<,=,>}).
type Fact struct {
	A, B *Term
	Mask int
}

func (f Fact) String() string {
	op := map[int]string{0: "⊥", LT: "<", EQ: "==", GT: ">", LE: "<=", GE: ">=", NE: "!=", ALL: "?"}[f.Mask]
	if isTrueT(f.B) {
		if f.Mask == EQ {
			return f.A.String()
		}
		return "!" + f.A.String()
	}
	return f.A.String() + " " + op + " " + f.B.String()
}

// normPair brings a comparison to canonical form.
func normPair(a, b *Term, mask int) (*Term, *Term, int) {
	a, b = stripConv(a), stripConv(b)
	if (a.Op == "lin" || b.Op == "lin") && (mask == EQ || mask == NE || signedTerm(a) && signedTerm(b)) {
		la, lb := toLin(a), toLin(b)
		l := linForm{constant.MakeInt64(0), map[*Term]constant.Value{}}
		r := linForm{constant.MakeInt64(0), map[*Term]constant.Value{}}
		d := linForm{constant.BinaryOp(la.c, token.SUB, lb.c), map[*Term]constant.Value{}}
		for t, k := range la.ks {
			d.ks[t] = k
		}
		for t, k := range lb.ks {
			if o, ok := d.ks[t]; ok {
				d.ks[t] = constant.BinaryOp(o, token.SUB, k)
			} else {
				d.ks[t] = constant.UnaryOp(token.SUB, k, 0)
			}
		}
		for t, k := range d.ks {
			switch constant.Sign(k) {
			case 1:
				l.ks[t] = k
			case -1:
				r.ks[t] = constant.UnaryOp(token.SUB, k, 0)
			}
		}
		if constant.Sign(d.c) > 0 {
			l.c = d.c
		} else {
			r.c = constant.UnaryOp(token.SUB, d.c, 0)
		}
		// keep "atoms vs constant" when one side has no atoms
		if len(r.ks) == 0 && constant.Sign(l.c) != 0 {
			r.c = constant.BinaryOp(r.c, token.SUB, l.c)
			l.c = constant.MakeInt64(0)
		}
		if len(l.ks) == 0 && constant.Sign(r.c) != 0 && len(r.ks) > 0 {
			l.c = constant.BinaryOp(l.c, token.SUB, r.c)
			r.c = constant.MakeInt64(0)
		}
		a, b = fromLin(l, a.Typ), fromLin(r, b.Typ)
	}
	if isConst(a) && !isConst(b) || (isConst(a) == isConst(b) && a.ID > b.ID) {
		a, b, mask = b, a, flip(mask)
	}
	return a, b, mask
}

func stripConv(t *Term) *Term {
	for t.Op == "conv" {
		t = t.Args[0]
	}
	return t
}

func signedTerm(t *Term) bool {
	if t.Typ == nil || t.Op == "const" || isBigPtr(t.Typ) || isBigInt(t.Typ) {
		return true // unbounded integers; constants take the type of the other side
	}
	b, ok := t.Typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

// narrowed: an operand that may have lost digits in a conversion is not its
// source when compared.
func narrowed(t *Term) *Term {
	if t.Op != "conv" || len(t.Args) != 1 || t.Typ == nil || t.Args[0].Typ == nil {
		return t
	}
	to, ok1 := t.Typ.Underlying().(*types.Basic)
	from, ok2 := t.Args[0].Typ.Underlying().(*types.Basic)
	if ok1 && ok2 && to.Info()&types.IsInteger != 0 && from.Info()&types.IsInteger != 0 && intBits(to) < intBits(from) {
		return mk("narrow", t.Sym, t.Typ, t.Args[0])
	}
	return t
}

func mkCmp(a, b *Term, mask int) *Term {
	if a.Op != "const" && b.Op != "const" {
		a, b = narrowed(a), narrowed(b)
	}
	if r, ok := cmpCall(a, b, mask); ok {
		return r
	}
	if r, ok := cmpCall(b, a, flip(mask)); ok {
		return r
	}
	if isBoolT(b) && (mask == EQ || mask == NE) && !isConst(a) {
		if isTrueT(b) == (mask == EQ) {
			return a
		}
		return mkNot(a)
	}
	if isBoolT(a) && (mask == EQ || mask == NE) && !isConst(b) {
		if isTrueT(a) == (mask == EQ) {
			return b
		}
		return mkNot(b)
	}
	a, b, mask = normPair(a, b, mask)
	if a == b && !isFloat(a) {
		return kBool(mask&EQ != 0)
	}
	if m := constRel(a, b); m != 0 {
		return kBool(mask&m != 0)
	}
	return mk("cmp", strconv.Itoa(mask), types.Typ[types.Bool], a, b)
}

// isFloat: constants are shared between numeric types and never count.
func isFloat(t *Term) bool {
	return t.Typ != nil && t.Op != "const" && floatType(t.Typ)
}

func floatType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// constRel: relation between two constants, 0 if unknown. NE is returned for
// unordered distinct constants.
func constRel(a, b *Term) int {
	if !isConst(a) || !isConst(b) {
		return 0
	}
	va, ok1 := numVal(a)
	vb, ok2 := numVal(b)
	if ok1 && ok2 {
		switch {
		case constant.Compare(va, token.LSS, vb):
			return LT
		case constant.Compare(va, token.EQL, vb):
			return EQ
		default:
			return GT
		}
	}
	if a == b {
		return EQ
	}
	if isStr(a) && isStr(b) {
		x, _ := strconv.Unquote(a.Sym)
		y, _ := strconv.Unquote(b.Sym)
		if x < y {
			return LT
		}
		return GT
	}
	if isBoolT(a) && isBoolT(b) {
		return GT
	}
	return 0
}

// cmpCall: comparisons of three-way comparison results with a constant.
func cmpCall(a, b *Term, mask int) (*Term, bool) {
	if a.Op != "cmp3" {
		return nil, false
	}
	k, ok := numVal(b)
	if !ok {
		return nil, false
	}
	m := 0
	for _, rv := range []struct {
		v int64
		m int
	}{{-1, LT}, {0, EQ}, {1, GT}} {
		var rel int
		switch {
		case constant.Compare(constant.MakeInt64(rv.v), token.LSS, k):
			rel = LT
		case constant.Compare(constant.MakeInt64(rv.v), token.EQL, k):
			rel = EQ
		default:
			rel = GT
		}
		if rel&mask != 0 {
			m |= rv.m
		}
	}
	if m == 0 {
		return kBool(false), true
	}
	if m == ALL {
		return kBool(true), true
	}
	return mkCmp(a.Args[0], a.Args[1], m), true
}

func mkNot(t *Term) *Term {
	if isTrueT(t) {
		return kBool(false)
	}
	if isFalseT(t) {
		return kBool(true)
	}
	if t.Op == "not" {
		return t.Args[0]
	}
	if t.Op == "cmp" {
		m, _ := strconv.Atoi(t.Sym)
		if isFloat(t.Args[0]) || isFloat(t.Args[1]) {
			return mk("not", "", types.Typ[types.Bool], t)
		}
		return mk("cmp", strconv.Itoa(ALL&^m), types.Typ[types.Bool], t.Args[0], t.Args[1])
	}
	return mk("not", "", types.Typ[types.Bool], t)
}

func litOf(t *Term, pol bool) Fact {
	for t.Op == "not" {
		t, pol = t.Args[0], !pol
	}
	if t.Op == "cmp" {
		m, _ := strconv.Atoi(t.Sym)
		if !pol {
			m = ALL &^ m
		}
		return Fact{t.Args[0], t.Args[1], m}
	}
	if pol {
		return Fact{t, kBool(true), EQ}
	}
	return Fact{t, kBool(true), NE}
}

// Facts is an append-only list (slices are shared copy-on-append).
type Facts []Fact

func (fs Facts) direct(a, b *Term) int {
	m := ALL
	for _, f := range fs {
		if f.A == a && f.B == b {
			m &= f.Mask
		} else if f.A == b && f.B == a {
			m &= flip(f.Mask)
		}
	}
	return m
}

func nonNegTerm(t *Term) bool {
	if t.Op == "len" || t.Op == "cap" {
		return true
	}
	if t.Op == "pcall" || t.Op == "call" {
		n := baseName(t.Sym)
		if n == "BitLen" {
			return true
		}
	}
	if t.Typ != nil {
		if b, ok := t.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			return t.Op != "lin" || !strings.Contains(t.Sym, "-")
		}
	}
	return false
}

// possible returns the relations between a and b consistent with the facts.
func (fs Facts) possible(a, b *Term) int {
	if a == b {
		return EQ
	}
	if m := constRel(a, b); m != 0 {
		return m
	}
	m := fs.direct(a, b)
	if isNilT(b) && nonNil(a) || isNilT(a) && nonNil(b) {
		m &= NE
	}
	if c, ok := numVal(b); ok {
		m &= fs.vsConst(a, c)
	} else if c, ok := numVal(a); ok {
		m &= flip(fs.vsConst(b, c))
	} else if isConst(b) && !isNilT(b) {
		for _, f := range fs {
			if f.A == a && f.Mask == EQ && isConst(f.B) && f.B != b {
				if r := constRel(f.B, b); r != 0 {
					m &= r
				}
			}
		}
	} else {
		// both symbolic: through equal constants / bounds
		loA, hiA, _ := fs.bounds(a)
		loB, hiB, _ := fs.bounds(b)
		if hiA != nil && loB != nil && constant.Compare(hiA, token.LSS, loB) {
			m &= LT
		}
		if hiB != nil && loA != nil && constant.Compare(hiB, token.LSS, loA) {
			m &= GT
		}
		// one-step transitivity through equality and ordering
		if m != EQ {
			for _, f := range fs {
				if f.Mask == EQ {
					var o *Term
					if f.A == a && f.B != b {
						o = f.B
					} else if f.B == a && f.A != b {
						o = f.A
					}
					if o != nil && !isNilT(o) {
						if r := constRel(o, b); r != 0 {
							m &= r
						}
						m &= fs.direct(o, b)
					}
				}
			}
		}
	}
	return m
}

func (fs Facts) bounds(a *Term) (lo, hi constant.Value, excl []constant.Value) {
	isInt := !isFloat(a)
	if a.Op == "bin" && a.Sym == "/" && isInt {
		// quotient of a bounded non-negative value and a positive constant
		if k, ok := numVal(a.Args[1]); ok && constant.Sign(k) > 0 && k.Kind() == constant.Int {
			l, h := fs.linBounds(a.Args[0])
			if l != nil && h != nil && constant.Sign(l) >= 0 {
				lo = constant.BinaryOp(l, token.QUO_ASSIGN, k)
				hi = constant.BinaryOp(h, token.QUO_ASSIGN, k)
			}
		}
	}
	if nonNegTerm(a) {
		lo = constant.MakeInt64(0)
	}
	one := constant.MakeInt64(1)
	for _, f := range fs {
		if f.A != a {
			continue
		}
		c, ok := numVal(f.B)
		if !ok {
			continue
		}
		switch f.Mask {
		case EQ:
			lo, hi = maxC(lo, c), minC(hi, c)
		case LT:
			if isInt {
				hi = minC(hi, constant.BinaryOp(c, token.SUB, one))
			} else {
				hi = minC(hi, c)
			}
		case LE:
			hi = minC(hi, c)
		case GT:
			if isInt {
				lo = maxC(lo, constant.BinaryOp(c, token.ADD, one))
			} else {
				lo = maxC(lo, c)
			}
		case GE:
			lo = maxC(lo, c)
		case NE:
			excl = append(excl, c)
		}
	}
	if isInt {
		for ch := true; ch; {
			ch = false
			for _, e := range excl {
				if lo != nil && constant.Compare(e, token.EQL, lo) {
					lo = constant.BinaryOp(lo, token.ADD, one)
					ch = true
				}
				if hi != nil && constant.Compare(e, token.EQL, hi) {
					hi = constant.BinaryOp(hi, token.SUB, one)
					ch = true
				}
			}
		}
	}
	return
}

// linBounds: bounds of c + k*x with k = 1.
func (fs Facts) linBounds(a *Term) (lo, hi constant.Value) {
	if a.Op == "lin" && len(a.Args) == 1 {
		var c, k int64
		if n, _ := fmt.Sscanf(a.Sym, "%d,%d", &c, &k); n == 2 && k == 1 {
			l, h, _ := fs.bounds(a.Args[0])
			if l != nil {
				lo = constant.BinaryOp(l, token.ADD, constant.MakeInt64(c))
			}
			if h != nil {
				hi = constant.BinaryOp(h, token.ADD, constant.MakeInt64(c))
			}
			return
		}
	}
	lo, hi, _ = fs.bounds(a)
	return
}

func maxC(a, b constant.Value) constant.Value {
	if a == nil || constant.Compare(a, token.LSS, b) {
		return b
	}
	return a
}
func minC(a, b constant.Value) constant.Value {
	if a == nil || constant.Compare(a, token.GTR, b) {
		return b
	}
	return a
}

func (fs Facts) vsConst(a *Term, c constant.Value) int {
	lo, hi, excl := fs.bounds(a)
	m := 0
	if lo == nil || constant.Compare(lo, token.LSS, c) {
		m |= LT
	}
	if hi == nil || constant.Compare(hi, token.GTR, c) {
		m |= GT
	}
	if (lo == nil || constant.Compare(lo, token.LEQ, c)) && (hi == nil || constant.Compare(hi, token.GEQ, c)) {
		ex := false
		for _, e := range excl {
			if constant.Compare(e, token.EQL, c) {
				ex = true
			}
		}
		if !ex {
			m |= EQ
		}
	}
	return m
}

// decide: 1 true, 0 false, -1 unknown
func (fs Facts) decide(t *Term) int {
	if isTrueT(t) {
		return 1
	}
	if isFalseT(t) {
		return 0
	}
	f := litOf(t, true)
	p := fs.possible(f.A, f.B)
	if p&f.Mask == 0 {
		return 0
	}
	if p&^f.Mask == 0 {
		return 1
	}
	return -1
}

// add returns the extended facts and false when contradictory.
func (fs Facts) add(t *Term, pol bool) (Facts, bool) {
	if isTrueT(t) {
		return fs, pol
	}
	if isFalseT(t) {
		return fs, !pol
	}
	f := litOf(t, pol)
	p := fs.possible(f.A, f.B)
	if p&f.Mask == 0 {
		return fs, false
	}
	if p&^f.Mask == 0 && fs.direct(f.A, f.B)&^f.Mask == 0 {
		return fs, true
	}
	return append(fs[:len(fs):len(fs)], Fact{f.A, f.B, f.Mask}), true
}

// implies: the facts entail relation mask between a and b.
func (fs Facts) implies(a, b *Term, mask int) bool {
	a, b, mask = normPair(a, b, mask)
	return fs.possible(a, b)&^mask == 0
}

func nonNil(t *Term) bool {
	switch t.Op {
	case "alloc", "closure", "func", "fa", "ia", "gaddr", "mkmap", "mkslice", "mkchan", "append1", "nnerr":
		return true
	case "const":
		return t.Sym != "nil"
	case "conv", "iface":
		return nonNil(t.Args[0]) || t.Op == "iface" && t.Args[0].Typ != nil && !nilable(t.Args[0].Typ)
	case "global":
		return nonNilGlobals[t.Sym]
	case "call", "pcall":
		n := t.Sym
		if i := strings.IndexByte(n, '#'); i >= 0 {
			n = n[:i]
		}
		return nonNilFuncs[n]
	}
	if t.Typ != nil && !nilable(t.Typ) {
		return true
	}
	return false
}

func nilable(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	case *types.Basic:
		return u.Kind() == types.UntypedNil || u.Kind() == types.UnsafePointer
	}
	return false
}

var nonNilGlobals = map[string]bool{}
var nonNilFuncs = map[string]bool{"errors.New": true, "fmt.Errorf": true, "errors.Errorf": true, "errors.Wrap": false}

func baseName(n string) string {
	if i := strings.IndexByte(n, '#'); i >= 0 {
		n = n[:i]
	}
	if i := strings.LastIndexByte(n, '.'); i >= 0 {
		n = n[i+1:]
	}
	return n
}
