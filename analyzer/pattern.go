package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"
)

// Patterns are Go expressions over terms:
//
//	A0,A1..   parameters of the analysed function (A0 is the receiver)
//	_         anything          X, Y1..  metavariables (identifiers starting with X, Y or Z)
//	e.f       field             F(a, b)  call of a function whose base name is F (receiver first);
//	                            "___" as last argument accepts any further arguments
//	pkg.Name  global            a[i]     element        len(a)
//	conversions are transparent.
type Bind map[string]*Term

var patCache = map[string]ast.Expr{}

func pat(s string) ast.Expr {
	if e, ok := patCache[s]; ok {
		return e
	}
	e, err := parser.ParseExpr(s)
	if err != nil {
		panic(fmt.Sprintf("bad pattern %q: %v", s, err))
	}
	patCache[s] = e
	return e
}

func isMeta(n string) bool {
	if n == "I" || n == "J" || n == "P" || n == "Q" {
		return true
	}
	return len(n) > 0 && (n[0] == 'X' || n[0] == 'Y' || n[0] == 'Z') && (len(n) == 1 || n[1] >= '0' && n[1] <= '9')
}

func (b Bind) copy() Bind {
	n := Bind{}
	for k, v := range b {
		n[k] = v
	}
	return n
}

func matchT(p ast.Expr, t *Term, b Bind) (Bind, bool) {
	if t == nil {
		return nil, false
	}
	if r, ok := match1(p, t, b); ok {
		return r, true
	}
	switch t.Op {
	case "conv", "iface", "assert":
		return matchT(p, t.Args[0], b)
	}
	return nil, false
}

func match1(p ast.Expr, t *Term, b Bind) (Bind, bool) {
	switch x := p.(type) {
	case *ast.ParenExpr:
		return matchT(x.X, t, b)
	case *ast.Ident:
		n := x.Name
		switch {
		case n == "_":
			return b, true
		case isMeta(n):
			if v, ok := b[n]; ok {
				return b, v == t || stripConv(v) == stripConv(t)
			}
			c := b.copy()
			c[n] = t
			return c, true
		case len(n) >= 2 && n[0] == 'A' && n[1] >= '0' && n[1] <= '9':
			return b, t.Op == "param" && t.Sym == n[1:]
		case n == "nil" || n == "true" || n == "false":
			return b, t.Op == "const" && t.Sym == n
		case n == "ZERO":
			return b, t.Op == "zero" || t.Op == "const" && (t.Sym == "0" || t.Sym == "nil" || t.Sym == `""`) || t.Op == "global" && strings.HasPrefix(baseName(t.Sym), "Zero")
		case n == "HALF":
			return b, t.Op == "const" && t.Sym == "1/2"
		case n == "ITER":
			return b, t.Op == "iter" || t.Op == "lin" && len(t.Args) == 1 && t.Args[0].Op == "iter"
		case n == "NEW":
			return b, t.Op == "alloc" || t.Op == "mkslice" || t.Op == "mkmap"
		}
		return b, (t.Op == "global" || t.Op == "func") && baseName(t.Sym) == n || t.Op == "iter" && n == "ITER"
	case *ast.BasicLit:
		if t.Op != "const" {
			return nil, false
		}
		if x.Kind == token.STRING {
			s, _ := strconv.Unquote(x.Value)
			return b, t.Sym == strconv.Quote(s)
		}
		return b, t.Sym == x.Value
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok && t.Op == "global" && t.Sym == id.Name+"."+x.Sel.Name {
			return b, true
		}
		if t.Op == "field" && (t.Sym == x.Sel.Name || strings.HasPrefix(t.Sym, x.Sel.Name+"@")) {
			return matchT(x.X, t.Args[0], b)
		}
		if t.Op == "ext" && len(x.Sel.Name) == 2 && x.Sel.Name[0] == 'R' && t.Sym == x.Sel.Name[1:] {
			return matchT(x.X, t.Args[0], b)
		}
		return nil, false
	case *ast.IndexExpr:
		if t.Op != "elem" && t.Op != "mapget" {
			return nil, false
		}
		c, ok := matchT(x.X, t.Args[0], b)
		if !ok {
			return nil, false
		}
		return matchT(x.Index, t.Args[1], c)
	case *ast.SliceExpr:
		// a[lo:hi] of the value or of the content
		if t.Op != "sub" && t.Op != "slice" {
			return nil, false
		}
		base := t.Args[0]
		if base.Op == "deref" {
			base = base.Args[0]
		}
		c, ok := matchT(x.X, base, b)
		if !ok {
			return nil, false
		}
		for i, e := range []ast.Expr{x.Low, x.High} {
			v := t.Args[i+1]
			if e == nil {
				if !isNilT(v) && !(i == 0 && v.Op == "const" && v.Sym == "0") && !(i == 1 && v.Op == "len") {
					return nil, false
				}
				continue
			}
			if i == 0 && isNilT(v) {
				v = kInt(0)
			}
			if c, ok = matchT(e, v, c); !ok {
				return nil, false
			}
		}
		return c, true
	case *ast.StarExpr:
		if t.Op != "deref" {
			return nil, false
		}
		return matchT(x.X, t.Args[0], b)
	case *ast.UnaryExpr:
		if x.Op == token.AND {
			switch t.Op {
			case "fa":
				if s, ok := x.X.(*ast.SelectorExpr); ok && s.Sel.Name == t.Sym {
					return matchT(s.X, t.Args[0], b)
				}
			case "ia":
				if s, ok := x.X.(*ast.IndexExpr); ok {
					c, ok := matchT(s.X, t.Args[0], b)
					if !ok {
						return nil, false
					}
					return matchT(s.Index, t.Args[1], c)
				}
			}
			return nil, false
		}
		if x.Op == token.XOR && t.Op == "un" && t.Sym == "^" {
			return matchT(x.X, t.Args[0], b)
		}
		if x.Op == token.SUB && t.Op == "const" {
			if l, ok := x.X.(*ast.BasicLit); ok {
				return b, t.Sym == "-"+l.Value
			}
		}
		if x.Op == token.NOT && t.Op == "not" {
			return matchT(x.X, t.Args[0], b)
		}
		return nil, false
	case *ast.BinaryExpr:
		if t.Op == "cmp" {
			m := 0
			switch x.Op {
			case token.EQL:
				m = EQ
			case token.NEQ:
				m = NE
			case token.LSS:
				m = LT
			case token.LEQ:
				m = LT | EQ
			case token.GTR:
				m = GT
			case token.GEQ:
				m = GT | EQ
			}
			if t.Sym == itoa(m) {
				if c, ok := matchT(x.X, t.Args[0], b); ok {
					if d, ok := matchT(x.Y, t.Args[1], c); ok {
						return d, true
					}
				}
			}
			if t.Sym == itoa(flip(m)) {
				if c, ok := matchT(x.X, t.Args[1], b); ok {
					return matchT(x.Y, t.Args[0], c)
				}
			}
			return nil, false
		}
		return matchBin(x, t, b)
	case *ast.CallExpr:
		fn := ""
		switch f := x.Fun.(type) {
		case *ast.Ident:
			fn = f.Name
		case *ast.SelectorExpr:
			fn = exprName(f)
		}
		switch fn {
		case "int", "int64", "uint64", "uint", "byte", "uint8", "uint16", "uint32", "int32":
			if len(x.Args) == 1 {
				return matchT(x.Args[0], stripConv(t), b)
			}
		}
		if fn == "as" && len(x.Args) == 2 {
			// a value of a named type
			id, _ := x.Args[0].(*ast.Ident)
			for u := t; u != nil; u = u.Args[0] {
				if n, ok := types.Unalias(derefType(u.Typ)).(*types.Named); ok && id != nil && n.Obj().Name() == id.Name {
					v := t
					for v.Op == "iface" || v.Op == "conv" {
						v = v.Args[0]
					}
					return matchT(x.Args[1], stripConv(v), b)
				}
				if u.Op != "conv" && u.Op != "iface" {
					break
				}
			}
			return nil, false
		}
		if fn == "zeros" && len(x.Args) == 1 {
			// a run of zero bytes of the given length
			if t.Op == "zerobytes" {
				return matchT(x.Args[0], t.Args[0], b)
			}
			if t.Op == "zero" && t.Typ != nil {
				if a, ok := t.Typ.Underlying().(*types.Array); ok {
					return matchT(x.Args[0], kInt(a.Len()), b)
				}
			}
			return nil, false
		}
		var tn string
		targs := t.Args
		switch t.Op {
		case "call", "pcall":
			tn = t.Sym
			if i := strings.IndexByte(tn, '#'); i >= 0 {
				tn = tn[:i]
			}
		case "ext":
			if t.Sym != "0" {
				return nil, false
			}
			return match1(p, t.Args[0], b) // first result of a tuple call
		case "big":
			tn = t.Sym
		default:
			tn = t.Op
		}
		if fn != "_" {
			if strings.Contains(fn, ".") {
				if tn != fn && !strings.HasSuffix(tn, "."+fn) {
					return nil, false
				}
			} else if baseName(tn) != fn {
				return nil, false
			}
		}
		for i, a := range x.Args {
			if id, ok := a.(*ast.Ident); ok && id.Name == "___" && i == len(x.Args)-1 {
				return b, true
			}
			if i >= len(targs) {
				return nil, false
			}
			var ok bool
			if b, ok = matchT(a, targs[i], b); !ok {
				return nil, false
			}
		}
		return b, len(targs) == len(x.Args)
	}
	return nil, false
}

func exprName(e ast.Expr) string {
	switch x := e.(type) {
	case *ast.Ident:
		return x.Name
	case *ast.SelectorExpr:
		return exprName(x.X) + "." + x.Sel.Name
	}
	return "?"
}

// matchBin matches + - * etc. Sums are matched against linear forms.
func matchBin(x *ast.BinaryExpr, t *Term, b Bind) (Bind, bool) {
	switch x.Op {
	case token.ADD, token.SUB:
		if t.Op == "lin" {
			var pos, neg []ast.Expr
			c := new(big.Int)
			var flat func(e ast.Expr, sign int) bool
			flat = func(e ast.Expr, sign int) bool {
				switch y := e.(type) {
				case *ast.ParenExpr:
					return flat(y.X, sign)
				case *ast.BinaryExpr:
					if y.Op == token.ADD {
						return flat(y.X, sign) && flat(y.Y, sign)
					}
					if y.Op == token.SUB {
						return flat(y.X, sign) && flat(y.Y, -sign)
					}
				case *ast.BasicLit:
					if y.Kind == token.INT {
						n, ok := new(big.Int).SetString(y.Value, 0)
						if !ok {
							return false
						}
						if sign < 0 {
							n.Neg(n)
						}
						c.Add(c, n)
						return true
					}
				}
				if sign > 0 {
					pos = append(pos, e)
				} else {
					neg = append(neg, e)
				}
				return true
			}
			flat(x, 1)
			ks := strings.Split(t.Sym, ",")
			if ks[0] != c.String() || len(pos)+len(neg) != len(t.Args) {
				return nil, false
			}
			used := make([]bool, len(t.Args))
			var rec func(i int, b Bind) (Bind, bool)
			all := append(append([]ast.Expr{}, pos...), neg...)
			rec = func(i int, b Bind) (Bind, bool) {
				if i == len(all) {
					return b, true
				}
				want := "1"
				if i >= len(pos) {
					want = "-1"
				}
				for k, a := range t.Args {
					if used[k] || ks[k+1] != want {
						continue
					}
					if c, ok := matchT(all[i], a, b); ok {
						used[k] = true
						if r, ok := rec(i+1, c); ok {
							return r, true
						}
						used[k] = false
					}
				}
				return nil, false
			}
			return rec(0, b)
		}
	}
	if t.Op == "bin" && t.Sym == "*" && x.Op == token.MUL {
		{
			fs := factors(t)
			var ps []ast.Expr
			k := big.NewInt(1)
			var flat func(e ast.Expr)
			flat = func(e ast.Expr) {
				switch y := e.(type) {
				case *ast.ParenExpr:
					if z, ok := y.X.(*ast.BinaryExpr); !ok || z.Op == token.MUL {
						flat(y.X)
						return
					}
				case *ast.BinaryExpr:
					if y.Op == token.MUL {
						flat(y.X)
						flat(y.Y)
						return
					}
				case *ast.BasicLit:
					if n, ok := new(big.Int).SetString(y.Value, 0); ok && y.Kind == token.INT {
						k.Mul(k, n)
						return
					}
				}
				ps = append(ps, e)
			}
			flat(x)
			var ts []*Term
			for _, f := range fs {
				if n, ok := numVal(f); ok {
					if constant.Compare(n, token.NEQ, constant.Make(k)) {
						return nil, false
					}
					k = big.NewInt(1)
				} else {
					ts = append(ts, f)
				}
			}
			if k.Cmp(big.NewInt(1)) != 0 || len(ts) != len(ps) {
				return nil, false
			}
			used := make([]bool, len(ts))
			var rec func(i int, b Bind) (Bind, bool)
			rec = func(i int, b Bind) (Bind, bool) {
				if i == len(ps) {
					return b, true
				}
				for j, a := range ts {
					if used[j] {
						continue
					}
					if c, ok := matchT(ps[i], a, b); ok {
						used[j] = true
						if r, ok := rec(i+1, c); ok {
							return r, true
						}
						used[j] = false
					}
				}
				return nil, false
			}
			return rec(0, b)
		}
	}
	if t.Op == "bin" && t.Sym == x.Op.String() {
		if c, ok := matchT(x.X, t.Args[0], b); ok {
			if d, ok := matchT(x.Y, t.Args[1], c); ok {
				return d, true
			}
		}
		switch x.Op {
		case token.MUL, token.AND, token.OR, token.XOR:
			if c, ok := matchT(x.X, t.Args[1], b); ok {
				return matchT(x.Y, t.Args[0], c)
			}
		}
	}
	return nil, false
}

func maskOf(op token.Token) int {
	switch op {
	case token.EQL:
		return EQ
	case token.NEQ:
		return NE
	case token.LSS:
		return LT
	case token.LEQ:
		return LE
	case token.GTR:
		return GT
	case token.GEQ:
		return GE
	}
	return 0
}

// FindFact looks for a fact entailing the pattern (a comparison or a boolean
// term) and returns the bindings.
func (fs Facts) Find(ps string, b Bind) (Bind, bool) {
	return fs.findE(pat(ps), b)
}

func (fs Facts) findE(p ast.Expr, b Bind) (Bind, bool) {
	if b == nil {
		b = Bind{}
	}
	switch x := p.(type) {
	case *ast.ParenExpr:
		return fs.findE(x.X, b)
	case *ast.BinaryExpr:
		switch x.Op {
		case token.LAND:
			for _, c := range fs.findAll(x.X, b) {
				if d, ok := fs.findE(x.Y, c); ok {
					return d, true
				}
			}
			return nil, false
		case token.LOR:
			if c, ok := fs.findE(x.X, b); ok {
				return c, true
			}
			return fs.findE(x.Y, b)
		}
	}
	if l := fs.findAll(p, b); len(l) > 0 {
		return l[0], true
	}
	return nil, false
}

func (fs Facts) findAll(p ast.Expr, b Bind) []Bind {
	var out []Bind
	switch x := p.(type) {
	case *ast.ParenExpr:
		return fs.findAll(x.X, b)
	case *ast.BinaryExpr:
		if x.Op == token.LAND || x.Op == token.LOR {
			if c, ok := fs.findE(p, b); ok {
				return []Bind{c}
			}
			return nil
		}
		m := maskOf(x.Op)
		if m == 0 {
			return nil
		}
		try := func(a, c *Term, mask int) {
			if mask&^m != 0 {
				return
			}
			if b1, ok := matchT(x.X, a, b); ok {
				if b2, ok := matchT(x.Y, c, b1); ok {
					out = append(out, b2)
				}
			}
		}
		for _, f := range fs {
			mm := fs.possible(f.A, f.B)
			try(f.A, f.B, mm)
			try(f.B, f.A, flip(mm))
			// bounds against another constant
			if _, ok := numVal(f.B); ok {
				if lit, ok := x.Y.(*ast.BasicLit); ok && lit.Kind == token.INT {
					k := kIntS(lit.Value)
					if k != f.B {
						try(f.A, k, fs.possible(f.A, k))
					}
				}
			}
		}
		return out
	case *ast.UnaryExpr:
		if x.Op == token.NOT {
			for _, f := range fs {
				if isTrueT(f.B) && f.Mask == NE {
					if c, ok := matchT(x.X, f.A, b); ok {
						out = append(out, c)
					}
				}
			}
			return out
		}
	}
	for _, f := range fs {
		if isTrueT(f.B) && f.Mask == EQ {
			if c, ok := matchT(p, f.A, b); ok {
				out = append(out, c)
			}
		}
	}
	return out
}

// FindCalls returns the call events matching a call pattern, searching loops'
// bodies when deep.
func findEvents(evs []*Event, kind, ps string, b Bind) []*Event {
	var out []*Event
	p := pat(ps)
	for _, ev := range evs {
		if ev.Kind != kind {
			continue
		}
		if _, ok := matchEvent(ev, p, b); ok {
			out = append(out, ev)
		}
	}
	return out
}

func matchEvent(ev *Event, p ast.Expr, b Bind) (Bind, bool) {
	if b == nil {
		b = Bind{}
	}
	x, ok := p.(*ast.CallExpr)
	if !ok {
		return nil, false
	}
	if ev.Kind == "call" {
		t := mk("call", ev.Name, nil, ev.Args...)
		return match1(p, t, b)
	}
	// other kinds: pattern KIND(args...)
	fn := exprName(x.Fun)
	if fn != ev.Kind && fn != "_" {
		return nil, false
	}
	for i, a := range x.Args {
		if id, ok := a.(*ast.Ident); ok && id.Name == "___" {
			return b, true
		}
		if i >= len(ev.Args) {
			return nil, false
		}
		if b, ok = matchT(a, ev.Args[i], b); !ok {
			return nil, false
		}
	}
	return b, len(x.Args) == len(ev.Args)
}

func derefType(t types.Type) types.Type {
	if t == nil {
		return types.Typ[types.Invalid]
	}
	if p, ok := t.(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}
