package main

import (
	"go/constant"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

var globalConst = map[string]*Term{}

// globalBig: *big.Int variables initialised once with big.NewInt(const) and
// never used as the destination of an operation.
var globalBig = map[string]*Term{}

// initGlobals records package variables that are assigned exactly once, by
// their initializer, and whose value is non-nil or a constant.
func (p *Prog) initGlobals() {
	nonNilGlobals = map[string]bool{}
	globalConst = map[string]*Term{}
	globalBig = map[string]*Term{}
	globalBytesOf = map[string][]*Term{}
	type info struct {
		stores int
		escape bool
		val    ssa.Value
		g      *ssa.Global
	}
	m := map[*ssa.Global]*info{}
	get := func(g *ssa.Global) *info {
		if m[g] == nil {
			m[g] = &info{g: g}
		}
		return m[g]
	}
	names := map[string]int{}
	for _, sp := range p.SPkg {
		if sp == nil {
			continue
		}
		for _, mem := range sp.Members {
			if g, ok := mem.(*ssa.Global); ok {
				names[globalName(g)]++
			}
		}
	}
	for _, f := range p.Fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						i := get(g)
						i.stores++
						if f.Synthetic == "package initializer" {
							i.val = st.Val
						} else {
							i.escape = true
						}
						continue
					}
				}
				if u, ok := in.(*ssa.UnOp); ok {
					if _, ok := u.X.(*ssa.Global); ok {
						continue
					}
				}
				var ops []*ssa.Value
				for _, o := range in.Operands(ops) {
					if g, ok := (*o).(*ssa.Global); ok {
						switch x := in.(type) {
						case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice, *ssa.DebugRef:
							_ = x
						default:
							get(g).escape = true
						}
					}
				}
			}
		}
	}
	for g, i := range m {
		n := globalName(g)
		if i.escape || names[n] > 1 || i.stores != 1 || i.val == nil {
			continue
		}
		if definitelyNonNil(i.val, 0) {
			nonNilGlobals[n] = true
		}
		if isBigPtr(g.Type().(*types.Pointer).Elem()) {
			if v := evalBig(p, i.val, nil, 0); v != nil {
				globalBig[n] = kIntS(v.String())
			}
		}
		if bs := byteLits(i.val); bs != nil && !g.Object().Exported() {
			globalBytesOf[n] = bs
		}
		if u, ok := i.val.(*ssa.UnOp); ok {
			// an alias of another variable that is also never reassigned
			if h, ok := u.X.(*ssa.Global); ok && !nilable(g.Type().(*types.Pointer).Elem()) {
				if j := m[h]; j != nil && !j.escape && j.stores == 1 && names[globalName(h)] == 1 {
					globalConst[n] = mk("global", globalName(h), g.Type().(*types.Pointer).Elem())
				}
			}
		}
		if c, ok := i.val.(*ssa.Const); ok && c.Value != nil {
			if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsConstType != 0 {
				globalConst[n] = kVal(c.Value, c.Type())
			}
		}
	}
}

func definitelyNonNil(v ssa.Value, d int) bool {
	if d > 5 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeClosure, *ssa.MakeChan, *ssa.Function:
		return true
	case *ssa.MakeInterface:
		return definitelyNonNil(x.X, d+1) || !nilable(x.X.Type())
	case *ssa.ChangeInterface:
		return definitelyNonNil(x.X, d+1)
	case *ssa.ChangeType:
		return definitelyNonNil(x.X, d+1)
	case *ssa.Slice:
		return definitelyNonNil(x.X, d+1)
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil {
			return false
		}
		n := fnName(f)
		switch n {
		case "errors.New", "fmt.Errorf", "errors.Errorf", "big.NewInt", "errors.Wrap":
			return true
		}
		if inRepo(f) && len(f.Blocks) > 0 && f.Signature.Results().Len() == 1 {
			for _, b := range f.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					if !definitelyNonNil(r.Results[0], d+1) {
						return false
					}
				}
			}
			return true
		}
		if n == "big.Int.Mul" || n == "big.Int.Add" || n == "big.Int.Sub" || n == "big.Int.Exp" || n == "big.Int.Div" || n == "big.Int.Set" || n == "big.Int.Lsh" || n == "big.Int.Quo" {
			return true
		}
	}
	return false
}

// evalBig folds the initializer of a *big.Int variable built from constants.
func evalBig(p *Prog, v ssa.Value, env map[ssa.Value]interface{}, d int) *big.Int {
	if d > 8 {
		return nil
	}
	if x, ok := env[v]; ok {
		b, _ := x.(*big.Int)
		return b
	}
	num := func(v ssa.Value) (int64, bool) {
		if x, ok := env[v]; ok {
			n, ok := x.(int64)
			return n, ok
		}
		if c, ok := v.(*ssa.Convert); ok {
			v = c.X
		}
		if k, ok := v.(*ssa.Const); ok && k.Value != nil {
			return constant.Int64Val(constant.ToInt(k.Value))
		}
		return 0, false
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok {
			if iv := initOf(p, g); iv != nil {
				return evalBig(p, iv, nil, d+1)
			}
		}
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil {
			return nil
		}
		a := x.Call.Args
		n := fnName(f)
		if n == "big.NewInt" {
			if k, ok := num(a[0]); ok {
				return big.NewInt(k)
			}
			return nil
		}
		bin := func(op func(x, y *big.Int) *big.Int) *big.Int {
			l, r := evalBig(p, a[1], env, d+1), evalBig(p, a[2], env, d+1)
			if l == nil || r == nil {
				return nil
			}
			return op(l, r)
		}
		switch n {
		case "big.Int.Sub":
			return bin(func(x, y *big.Int) *big.Int { return new(big.Int).Sub(x, y) })
		case "big.Int.Add":
			return bin(func(x, y *big.Int) *big.Int { return new(big.Int).Add(x, y) })
		case "big.Int.Mul":
			return bin(func(x, y *big.Int) *big.Int { return new(big.Int).Mul(x, y) })
		case "big.Int.Exp":
			if k, ok := a[3].(*ssa.Const); !ok || k.Value != nil {
				return nil
			}
			return bin(func(x, y *big.Int) *big.Int {
				if y.Sign() < 0 || y.BitLen() > 12 {
					return nil
				}
				return new(big.Int).Exp(x, y, nil)
			})
		case "big.Int.Set":
			return evalBig(p, a[1], env, d+1)
		case "big.Int.SetUint64", "big.Int.SetInt64":
			if k, ok := num(a[1]); ok {
				return big.NewInt(k)
			}
		case "big.Int.Lsh":
			l := evalBig(p, a[1], env, d+1)
			k, ok := num(a[2])
			if l == nil || !ok || k > 4096 {
				return nil
			}
			return new(big.Int).Lsh(l, uint(k))
		}
		if inRepo(f) && len(f.Blocks) == 1 {
			if r, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
				env2 := map[ssa.Value]interface{}{}
				for i, pa := range f.Params {
					if k, ok := num(a[i]); ok {
						env2[pa] = k
					} else if b := evalBig(p, a[i], env, d+1); b != nil {
						env2[pa] = b
					}
				}
				return evalBig(p, r.Results[0], env2, d+1)
			}
		}
	}
	return nil
}

// globalBytesOf: the elements of never-reassigned byte-slice variables with a
// literal initializer.
var globalBytesOf map[string][]*Term

func byteLits(v ssa.Value) []*Term {
	if !isByteSeq(v.Type()) {
		return nil
	}
	sl, ok := v.(*ssa.Slice)
	if !ok || sl.Low != nil || sl.High != nil {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	at, ok := pointee(al.Type()).Underlying().(*types.Array)
	if !ok || at.Len() > 64 {
		return nil
	}
	out := make([]*Term, at.Len())
	for i := range out {
		out[i] = kInt(0)
	}
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.IndexAddr:
			k, ok := x.Index.(*ssa.Const)
			if !ok {
				return nil
			}
			for _, q := range *x.Referrers() {
				st, ok := q.(*ssa.Store)
				if !ok {
					return nil
				}
				c, ok := st.Val.(*ssa.Const)
				if !ok || c.Value == nil {
					return nil
				}
				out[k.Int64()] = kInt(c.Int64())
			}
		case *ssa.Slice:
		default:
			return nil
		}
	}
	return out
}
