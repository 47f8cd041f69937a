package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// Term is a hash-consed canonical value: two SSA values with the same Term
// compute the same value on every run (value numbering over access paths).
type Term struct {
	ID   int
	Op   string
	Sym  string
	Args []*Term
	Typ  types.Type
}

type termTab struct {
	m    map[string]*Term
	list []*Term
	cur  map[string]*Term
}

var tt = &termTab{m: map[string]*Term{}, cur: map[string]*Term{}}

func mk(op, sym string, typ types.Type, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(sym)
	for _, a := range args {
		b.WriteByte('|')
		b.WriteString(strconv.Itoa(a.ID))
	}
	if op == "param" {
		// parameters of different functions have different types; without a
		// type, the parameter most recently used is meant
		if typ == nil {
			if t := tt.cur[sym]; t != nil {
				return t
			}
		} else {
			b.WriteByte('|')
			b.WriteString(types.TypeString(typ, nil))
		}
	}
	k := b.String()
	if t, ok := tt.m[k]; ok {
		if op == "param" && typ != nil {
			tt.cur[sym] = t
		}
		return t
	}
	t := &Term{ID: len(tt.list) + 1, Op: op, Sym: sym, Args: args, Typ: typ}
	tt.m[k] = t
	tt.list = append(tt.list, t)
	if op == "param" && typ != nil {
		tt.cur[sym] = t
	}
	return t
}

func kInt(n int64) *Term          { return mk("const", strconv.FormatInt(n, 10), types.Typ[types.Int]) }
func kIntS(s string) *Term        { return mk("const", s, types.Typ[types.Int]) }
func kBool(b bool) *Term          { return mk("const", strconv.FormatBool(b), types.Typ[types.Bool]) }
func kNil() *Term                 { return mk("const", "nil", types.Typ[types.UntypedNil]) }
func kStr(s string) *Term         { return mk("const", strconv.Quote(s), types.Typ[types.String]) }
func isConst(t *Term) bool        { return t != nil && t.Op == "const" }
func isNilT(t *Term) bool         { return t != nil && t.Op == "const" && t.Sym == "nil" }
func isTrueT(t *Term) bool        { return t.Op == "const" && t.Sym == "true" }
func isFalseT(t *Term) bool       { return t.Op == "const" && t.Sym == "false" }
func isBoolT(t *Term) bool        { return isTrueT(t) || isFalseT(t) }
func (t *Term) is(op string) bool { return t != nil && t.Op == op }

func numVal(t *Term) (constant.Value, bool) {
	if t == nil || t.Op != "const" || t.Sym == "" {
		return nil, false
	}
	c := t.Sym[0]
	if c != '-' && (c < '0' || c > '9') {
		return nil, false
	}
	if strings.ContainsAny(t.Sym, "./e") {
		v := constant.MakeFromLiteral(t.Sym, token.FLOAT, 0)
		if v.Kind() == constant.Unknown {
			return nil, false
		}
		return v, true
	}
	neg := false
	s := t.Sym
	if c == '-' {
		neg, s = true, s[1:]
	}
	v := constant.MakeFromLiteral(s, token.INT, 0)
	if v.Kind() == constant.Unknown {
		return nil, false
	}
	if neg {
		v = constant.UnaryOp(token.SUB, v, 0)
	}
	return v, true
}

func kVal(v constant.Value, typ types.Type) *Term {
	if v == nil {
		return zeroOf(typ)
	}
	switch v.Kind() {
	case constant.Bool:
		return kBool(constant.BoolVal(v))
	case constant.String:
		return mk("const", strconv.Quote(constant.StringVal(v)), typ)
	case constant.Int:
		return mk("const", v.ExactString(), typ)
	case constant.Float:
		if iv := constant.ToInt(v); iv.Kind() == constant.Int {
			return mk("const", iv.ExactString(), typ)
		}
		return mk("const", v.ExactString(), typ)
	}
	return mk("const", v.ExactString(), typ)
}

func zeroOf(typ types.Type) *Term {
	if typ == nil {
		return mk("zero", "?", nil)
	}
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return kBool(false)
		case u.Info()&types.IsString != 0:
			return mk("const", `""`, typ)
		case u.Info()&types.IsNumeric != 0:
			return mk("const", "0", typ)
		}
		return kNil()
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return kNil()
	case *types.Struct, *types.Array:
		if isBigInt(typ) {
			return kInt(0)
		}
		return mk("zero", shortType(typ), typ)
	}
	return mk("zero", shortType(typ), typ)
}

func isBigInt(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "math/big" && n.Obj().Name() == "Int"
}
func isBigPtr(t types.Type) bool {
	if t == nil {
		return false
	}
	p, ok := t.Underlying().(*types.Pointer)
	return ok && isBigInt(p.Elem())
}

func shortType(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// ---- arithmetic normal forms -------------------------------------------------

func mkBin(op token.Token, a, b *Term, typ types.Type) *Term {
	if va, ok := numVal(a); ok {
		if vb, ok := numVal(b); ok {
			if r, ok := foldInt(op, va, vb, typ); ok {
				return r
			}
		}
	}
	if isStr(a) && isStr(b) && op == token.ADD {
		x, _ := strconv.Unquote(a.Sym)
		y, _ := strconv.Unquote(b.Sym)
		return kStr(x + y)
	}
	if isNumericT(typ) && isIntType(typ) {
		switch op {
		case token.ADD, token.SUB:
			return mkLinear(op, a, b, typ)
		}
	}
	switch op {
	case token.ADD:
		if !isIntType(typ) {
			return mk("bin", "+", typ, a, b) // string concat, floats
		}
	case token.MUL, token.AND, token.OR, token.XOR:
		if a.ID > b.ID {
			a, b = b, a
		}
		if op == token.MUL {
			if n, ok := numVal(a); ok && constant.Compare(n, token.EQL, constant.MakeInt64(1)) {
				return b
			}
			if n, ok := numVal(b); ok && constant.Compare(n, token.EQL, constant.MakeInt64(1)) {
				return a
			}
			if isIntType(typ) {
				for _, z := range []*Term{a, b} {
					if n, ok := numVal(z); ok && n.Kind() == constant.Int && constant.Sign(n) == 0 {
						return kVal(n, typ)
					}
				}
				// a constant times a sum is a sum
				k, l := a, b
				if _, ok := numVal(k); !ok {
					k, l = b, a
				}
				if n, ok := numVal(k); ok && n.Kind() == constant.Int && l.Op == "lin" {
					lf := toLin(l)
					r := linForm{constant.BinaryOp(lf.c, token.MUL, n), map[*Term]constant.Value{}}
					for t, c := range lf.ks {
						r = linPlus(r, toLin(mkBin(token.MUL, k, t, typ)), c)
					}
					return fromLin(r, typ)
				}
				if fs := append(factors(a), factors(b)...); len(fs) > 2 {
					k := constant.MakeInt64(1)
					var rest []*Term
					for _, f := range fs {
						if n, ok := numVal(f); ok {
							k = constant.BinaryOp(k, token.MUL, n)
						} else {
							rest = append(rest, f)
						}
					}
					sort.Slice(rest, func(i, j int) bool { return rest[i].ID < rest[j].ID })
					if constant.Compare(k, token.NEQ, constant.MakeInt64(1)) {
						rest = append(rest, kVal(k, typ))
					}
					r := rest[0]
					for _, f := range rest[1:] {
						r = mk("bin", "*", typ, r, f)
					}
					return r
				}
			}
		}
	case token.SHL:
		if n, ok := numVal(b); ok && isIntType(typ) {
			if k, ok := constant.Int64Val(n); ok && k >= 0 && k < 64 {
				return mkBin(token.MUL, a, kVal(constant.Shift(constant.MakeInt64(1), token.SHL, uint(k)), typ), typ)
			}
		}
	}
	return mk("bin", op.String(), typ, a, b)
}

// factors of a product.
func factors(t *Term) []*Term {
	if t.Op == "bin" && t.Sym == "*" {
		return append(factors(t.Args[0]), factors(t.Args[1])...)
	}
	return []*Term{t}
}

func isStr(t *Term) bool { return t.Op == "const" && len(t.Sym) > 0 && t.Sym[0] == '"' }

func isIntType(t types.Type) bool {
	if t == nil {
		return true
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isNumericT(t types.Type) bool {
	if t == nil {
		return true
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

func foldInt(op token.Token, a, b constant.Value, typ types.Type) (*Term, bool) {
	defer func() { recover() }()
	switch op {
	case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
		return kVal(constant.BinaryOp(a, op, b), typ), true
	case token.QUO:
		if constant.Sign(b) != 0 {
			if isIntType(typ) {
				return kVal(constant.BinaryOp(a, token.QUO_ASSIGN, b), typ), true
			}
			return kVal(constant.BinaryOp(a, op, b), typ), true
		}
	case token.REM:
		if constant.Sign(b) != 0 {
			return kVal(constant.BinaryOp(a, op, b), typ), true
		}
	case token.SHL, token.SHR:
		if k, ok := constant.Int64Val(b); ok && k >= 0 && k < 512 {
			return kVal(constant.Shift(a, op, uint(k)), typ), true
		}
	}
	return nil, false
}

// linear form: lin(c; (t1,k1), (t2,k2) ...) rendered as op "lin" with Sym the
// coefficients "c,k1,k2" and Args the atoms in ID order.
type linForm struct {
	c  constant.Value
	ks map[*Term]constant.Value
}

func toLin(t *Term) linForm {
	if v, ok := numVal(t); ok && v.Kind() == constant.Int {
		return linForm{v, map[*Term]constant.Value{}}
	}
	if t.Op == "lin" {
		parts := strings.Split(t.Sym, ",")
		l := linForm{mustInt(parts[0]), map[*Term]constant.Value{}}
		for i, a := range t.Args {
			l.ks[a] = mustInt(parts[i+1])
		}
		return l
	}
	return linForm{constant.MakeInt64(0), map[*Term]constant.Value{t: constant.MakeInt64(1)}}
}

func mustInt(s string) constant.Value {
	if s[0] == '-' {
		return constant.UnaryOp(token.SUB, constant.MakeFromLiteral(s[1:], token.INT, 0), 0)
	}
	return constant.MakeFromLiteral(s, token.INT, 0)
}

func fromLin(l linForm, typ types.Type) *Term {
	var atoms []*Term
	for a, k := range l.ks {
		if constant.Sign(k) != 0 {
			atoms = append(atoms, a)
		}
	}
	if len(atoms) == 0 {
		return kVal(l.c, typ)
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].ID < atoms[j].ID })
	if len(atoms) == 1 && constant.Sign(l.c) == 0 && constant.Compare(l.ks[atoms[0]], token.EQL, constant.MakeInt64(1)) {
		return atoms[0]
	}
	s := l.c.ExactString()
	for _, a := range atoms {
		s += "," + l.ks[a].ExactString()
	}
	return mk("lin", s, typ, atoms...)
}

func mkLinear(op token.Token, a, b *Term, typ types.Type) *Term {
	la, lb := toLin(a), toLin(b)
	r := linForm{constant.BinaryOp(la.c, op, lb.c), map[*Term]constant.Value{}}
	for t, k := range la.ks {
		r.ks[t] = k
	}
	for t, k := range lb.ks {
		if o, ok := r.ks[t]; ok {
			r.ks[t] = constant.BinaryOp(o, op, k)
		} else {
			r.ks[t] = constant.BinaryOp(constant.MakeInt64(0), op, k)
		}
	}
	return fromLin(r, typ)
}

// ---- rendering ----------------------------------------------------------------

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d > 12 {
		return "…"
	}
	args := func(from int) string {
		var s []string
		for _, a := range t.Args[from:] {
			s = append(s, a.str(d+1))
		}
		return strings.Join(s, ", ")
	}
	switch t.Op {
	case "const":
		return t.Sym
	case "param":
		return "A" + t.Sym
	case "global":
		return t.Sym
	case "gaddr":
		return "&" + t.Sym
	case "func":
		return t.Sym
	case "field":
		return t.Args[0].str(d+1) + "." + t.Sym
	case "fa":
		return "&" + t.Args[0].str(d+1) + "." + t.Sym
	case "elem":
		return t.Args[0].str(d+1) + "[" + t.Args[1].str(d+1) + "]"
	case "ia":
		return "&" + t.Args[0].str(d+1) + "[" + t.Args[1].str(d+1) + "]"
	case "deref":
		return "*" + t.Args[0].str(d+1)
	case "call", "pcall":
		n := t.Sym
		if i := strings.IndexByte(n, '#'); i >= 0 && strings.HasSuffix(n, "#0") {
			n = n[:i]
		}
		return n + "(" + args(0) + ")"
	case "ext":
		return t.Args[0].str(d+1) + "." + t.Sym
	case "bin":
		return "(" + t.Args[0].str(d+1) + " " + t.Sym + " " + t.Args[1].str(d+1) + ")"
	case "lin":
		p := strings.Split(t.Sym, ",")
		s := ""
		for i, a := range t.Args {
			k := p[i+1]
			switch {
			case k == "1" && s == "":
				s += a.str(d + 1)
			case k == "1":
				s += "+" + a.str(d+1)
			case k == "-1":
				s += "-" + a.str(d+1)
			case strings.HasPrefix(k, "-"):
				s += k + "*" + a.str(d+1)
			default:
				s += "+" + k + "*" + a.str(d+1)
			}
		}
		if p[0] != "0" {
			if p[0][0] != '-' {
				s += "+"
			}
			s += p[0]
		}
		return "(" + s + ")"
	case "alloc":
		return "new@" + t.Sym
	case "len":
		return "len(" + args(0) + ")"
	case "zero":
		return "zero(" + t.Sym + ")"
	case "conv":
		return t.Sym + "(" + args(0) + ")"
	case "iter":
		return "iter@" + t.Sym
	}
	s := t.Op
	if t.Sym != "" {
		s += ":" + t.Sym
	}
	if len(t.Args) > 0 {
		s += "(" + args(0) + ")"
	}
	return s
}

// root is the object an access path starts from.
func (t *Term) root() *Term {
	for {
		switch t.Op {
		case "field", "fa", "elem", "ia", "deref", "slice", "conv", "ver", "bigc", "ma":
			t = t.Args[0]
		default:
			return t
		}
	}
}

func (t *Term) mentions(p func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(*Term) bool
	rec = func(x *Term) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		if p(x) {
			return true
		}
		for _, a := range x.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func (t *Term) has(u *Term) bool { return t.mentions(func(x *Term) bool { return x == u }) }

var _ = fmt.Sprint
