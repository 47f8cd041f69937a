package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) val(s *State, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return zeroOf(x.Type())
		}
		return kVal(x.Value, x.Type())
	case *ssa.Global:
		return mk("gaddr", globalName(x), x.Type())
	case *ssa.Function:
		return e.funcTerm(x)
	case *ssa.Builtin:
		return mk("func", "builtin."+x.Name(), x.Type())
	}
	if ix, ok := s.fi.idx[v]; ok {
		if t := s.env[ix]; t != nil {
			return t
		}
	}
	return mk("undef", v.Name(), v.Type())
}

func globalName(g *ssa.Global) string {
	n := g.Name()
	if g.Pkg != nil {
		n = g.Pkg.Pkg.Name() + "." + n
	}
	return n
}

var funcByTerm = map[*Term]*ssa.Function{}

func (e *Engine) funcTerm(f *ssa.Function) *Term {
	t := mk("func", fnName(f), f.Type())
	funcByTerm[t] = f
	return t
}

// ---- memory ---------------------------------------------------------------

func isAddr(t *Term) bool {
	switch t.Op {
	case "fa", "ia", "gaddr", "alloc":
		return true
	}
	return false
}

func localObj(t *Term) bool { return t.Op == "alloc" || t.Op == "mkslice" || t.Op == "mkmap" }

func pointee(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

// cell is the canonical name of the initial content of an address.
func cell(a *Term) *Term {
	switch a.Op {
	case "fa":
		return mk("field", a.Sym, pointee(a.Typ), cellBase(a.Args[0]))
	case "ia":
		return mk("elem", "", pointee(a.Typ), cellBase(a.Args[0]), a.Args[1])
	case "gaddr":
		if c, ok := globalConst[a.Sym]; ok {
			return c
		}
		return mk("global", a.Sym, pointee(a.Typ))
	}
	return mk("deref", "", pointee(a.Typ), a)
}

func cellBase(b *Term) *Term {
	switch b.Op {
	case "fa", "ia", "gaddr":
		return cell(b)
	}
	return b
}

func isByteSeq(t types.Type) bool {
	if t == nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Array:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	case *types.Pointer:
		return isByteSeq(u.Elem())
	}
	return false
}

func (s *State) subCells(a *Term) []*Term {
	var out []*Term
	for k := range s.mem {
		if (k.Op == "fa" || k.Op == "ia") && k.Args[0] == a {
			out = append(out, k)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

func (s *State) hasSubs(a *Term) bool {
	for k := range s.mem {
		if (k.Op == "fa" || k.Op == "ia") && (k.Args[0] == a || s.under(k.Args[0], a)) {
			return true
		}
	}
	return false
}

func (s *State) under(x, a *Term) bool {
	for x.Op == "fa" || x.Op == "ia" {
		if x.Args[0] == a {
			return true
		}
		x = x.Args[0]
	}
	return false
}

func (s *State) load(a *Term) *Term {
	typ := pointee(a.Typ)
	if typ != nil {
		if st, ok := typ.Underlying().(*types.Struct); ok && !isBigInt(typ) && s.hasSubs(a) {
			// rebuild the struct value field by field
			base := s.loadWhole(a, typ)
			out := base
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				fa := mkFA(a, f.Name(), f.Type())
				v := s.load(fa)
				if v != fieldOf(base, f.Name(), f.Type()) {
					out = updField(out, f.Name(), v, typ)
				}
			}
			return out
		}
		if at, ok := typ.Underlying().(*types.Array); ok && !isByteSeq(typ) && s.hasSubs(a) {
			// array value: element updates with constant indices
			out := s.loadWhole(a, typ)
			seen := map[*Term]bool{}
			var idx []*Term
			for k := range s.mem {
				for x := k; x.Op == "fa" || x.Op == "ia"; x = x.Args[0] {
					if x.Op == "ia" && x.Args[0] == a && !seen[x.Args[1]] {
						seen[x.Args[1]] = true
						idx = append(idx, x.Args[1])
					}
				}
			}
			sort.Slice(idx, func(i, j int) bool { return idx[i].ID < idx[j].ID })
			for _, i := range idx {
				out = mk("updi", "", typ, out, i, s.load(mk("ia", "", types.NewPointer(at.Elem()), a, i)))
			}
			return out
		}
	}
	return s.loadWhole(a, typ)
}

func (s *State) loadWhole(a *Term, typ types.Type) *Term {
	if v, ok := s.mem[a]; ok {
		return v
	}
	switch a.Op {
	case "fa":
		p := a.Args[0]
		if isAddr(p) {
			if v, ok := s.ancestor(p); ok {
				return fieldOf(v, a.Sym, typ)
			}
		} else if v, ok := s.mem[p]; ok {
			return fieldOf(v, a.Sym, typ)
		}
	case "ia":
		p := a.Args[0]
		if isAddr(p) || localObj(p) {
			if v, ok := s.ancestor(p); ok {
				return elemOf(v, a.Args[1], typ)
			}
			if localObj(p) && s.symbolicStore(p) {
				return mk("elem", "", typ, p, a.Args[1])
			}
		}
		if w, ok := s.mem[mk("loopw", "", nil, p)]; ok && w != a.Args[1] {
			if localObj(p) {
				return mk("elem", "", typ, p, a.Args[1])
			}
			return mk("elem", "", typ, mk("looped", "", nil, p, w), a.Args[1])
		}
	case "alloc":
		if v, ok := s.mem[mk("opq", "", nil, a)]; ok {
			if v.Op == "unp" {
				return mk("unp", "", typ, v.Args...)
			}
			return mk("out", "", typ, v, a)
		}
		return zeroOf(typ)
	}
	r := a.root()
	if localObj(r) && a.Op != "deref" && pathLocal(a) {
		if v, ok := s.mem[mk("opq", "", nil, r)]; ok {
			if v.Op == "unp" {
				return unpField(a, r, v)
			}
			return mk("field", a.Sym+"@"+itoa(v.ID), typ, append([]*Term{v}, a.Args...)...)
		}
		return zeroOf(typ)
	}
	c := cell(a)
	if r.Op == "param" && inside(a, r) {
		if v := s.paramWritten(a, r, typ); v != nil {
			return mk("after", "", typ, v.Args[0], c)
		}
	}
	return c
}

// inside: the address is a part of the object itself, not behind a pointer
// loaded from it.
func inside(a, r *Term) bool {
	for a.Op == "fa" || a.Op == "ia" {
		a = a.Args[0]
	}
	return a == r
}

// paramWritten: the last call that may have written the part of a parameter's
// object at address a.
func (s *State) paramWritten(a, r *Term, typ types.Type) *Term {
	if v, ok := s.mem[mk("opq", "*", nil, r)]; ok {
		return v
	}
	for x := a; x.Op == "fa" || x.Op == "ia"; x = x.Args[0] {
		if x.Op == "fa" {
			if v, ok := s.mem[mk("opq", x.Sym, nil, r)]; ok {
				return v
			}
		}
	}
	if typ != nil {
		if _, ok := typ.Underlying().(*types.Struct); ok {
			for k, v := range s.mem {
				if k.Op == "opq" && k.Args[0] == r {
					return v
				}
			}
		}
	}
	return nil
}

// killParam forgets what is known of the named fields ("*": all) of the object
// behind a parameter.
func (s *State) killParam(r *Term, why *Term, fields map[string]bool) {
	var ks []*Term
	for k := range s.mem {
		if k.Op == "allocd" || k.Op == "opq" || !inside(k, r) {
			continue
		}
		hit := fields["*"]
		for x := k; x.Op == "fa" || x.Op == "ia"; x = x.Args[0] {
			hit = hit || x.Op == "fa" && fields[x.Sym]
		}
		if hit {
			ks = append(ks, k)
		}
	}
	for _, k := range ks {
		s.setMem(k, nil)
	}
	for f := range fields {
		s.setMem(mk("opq", f, nil, r), mk("out", f, nil, why, r))
	}
}

// pathLocal: the address is inside the local object itself, not behind a
// pointer loaded from it.
func pathLocal(a *Term) bool {
	for a.Op == "fa" || a.Op == "ia" {
		a = a.Args[0]
	}
	return localObj(a)
}

func (s *State) symbolicStore(p *Term) bool {
	for k := range s.mem {
		if k.Op == "ia" && k.Args[0] == p && !isConst(k.Args[1]) {
			return true
		}
	}
	return false
}

func (s *State) ancestor(p *Term) (*Term, bool) {
	if v, ok := s.mem[p]; ok {
		return v, true
	}
	if p.Op == "fa" && isAddr(p.Args[0]) {
		if v, ok := s.ancestor(p.Args[0]); ok {
			return fieldOf(v, p.Sym, pointee(p.Typ)), true
		}
	}
	if p.Op == "ia" && isAddr(p.Args[0]) {
		if v, ok := s.ancestor(p.Args[0]); ok {
			return elemOf(v, p.Args[1], pointee(p.Typ)), true
		}
	}
	return nil, false
}

func mkFA(base *Term, f string, ft types.Type) *Term {
	return mk("fa", f, types.NewPointer(ft), base)
}

func fieldOf(v *Term, f string, ft types.Type) *Term {
	switch v.Op {
	case "upd":
		if v.Sym == f {
			return v.Args[1]
		}
		return fieldOf(v.Args[0], f, ft)
	case "zero":
		return zeroOf(ft)
	case "deref":
		return mk("field", f, ft, v.Args[0])
	}
	return mk("field", f, ft, v)
}

func updField(base *Term, f string, v *Term, typ types.Type) *Term {
	return mk("upd", f, typ, base, v)
}

func elemOf(v, i *Term, et types.Type) *Term {
	switch v.Op {
	case "zero":
		return zeroOf(et)
	case "updi":
		if v.Args[1] == i {
			return v.Args[2]
		}
		if isConst(v.Args[1]) && isConst(i) {
			return elemOf(v.Args[0], i, et)
		}
	case "bytesw":
		// bytesw(old, lo, hi, src)
		if lo, ok := i64(v.Args[1]); ok {
			if hi, ok := i64(v.Args[2]); ok {
				if k, ok := i64(i); ok {
					if k < lo || k >= hi {
						return elemOf(v.Args[0], i, et)
					}
					if hi == lo+1 {
						return v.Args[3]
					}
					return mk("elem", "", et, v.Args[3], kInt(k-lo))
				}
			}
		}
	}
	return mk("elem", "", et, v, i)
}

func i64(t *Term) (int64, bool) {
	v, ok := numVal(t)
	if !ok {
		return 0, false
	}
	return constant.Int64Val(v)
}

func (s *State) store(a, v *Term) {
	// byte arrays: record as a byte write so that content terms are canonical
	if a.Op == "ia" && localObj(a.Args[0]) && isByteSeq(a.Args[0].Typ) {
		base := a.Args[0]
		if k, ok := i64(a.Args[1]); ok {
			s.setMem(base, bytesWrite(s.bytesContent(base), kInt(k), kInt(k+1), v, base.Typ))
			return
		}
		if old, ok := s.mem[base]; ok {
			i := a.Args[1]
			s.setMem(base, bytesWrite(old, i, mkBin(token.ADD, i, kInt(1), i.Typ), v, base.Typ))
			return
		}
	}
	for _, k := range s.subCells(a) {
		s.dropDeep(k)
	}
	s.setMem(a, v)
}

func (s *State) dropDeep(a *Term) {
	for _, k := range s.subCells(a) {
		s.dropDeep(k)
	}
	s.setMem(a, nil)
}

func bytesWrite(old, lo, hi, src *Term, typ types.Type) *Term {
	return mk("bytesw", "", typ, old, lo, hi, src)
}

func (s *State) bytesContent(base *Term) *Term {
	if v, ok := s.mem[base]; ok {
		return v
	}
	if base.Op == "alloc" {
		return zeroOf(pointee(base.Typ))
	}
	if base.Op == "mkslice" {
		if v, ok := s.mem[mk("opq", "", nil, base)]; ok {
			return mk("out", "", base.Typ, v.Args...)
		}
		return mk("zerobytes", "", base.Typ, base.Args[0])
	}
	return s.load(base)
}

// bytesVal is the content behind a []byte value.
func (s *State) bytesVal(t *Term) *Term {
	t = stripConv(t)
	switch t.Op {
	case "slice":
		b := t.Args[0]
		full := isNilT(t.Args[1]) && isNilT(t.Args[2])
		var c *Term
		if b.Op == "alloc" || b.Op == "mkslice" {
			c = s.bytesContent(b)
		} else if b.Op == "param" && b.Typ != nil && pointee(b.Typ) == nil {
			c = b
		} else if isAddr(b) {
			c = s.load(b)
		} else if b.Typ != nil && pointee(b.Typ) != nil {
			c = s.load(b)
		} else {
			c = s.bytesVal(b)
		}
		if full {
			return c
		}
		if c.Op == "sub" {
			// part of a part
			lo, hi := c.Args[1], c.Args[2]
			at := func(x *Term) *Term {
				if lo == kNil() || x == kNil() {
					return x
				}
				return mkBin(token.ADD, lo, x, types.Typ[types.Int])
			}
			if t.Args[1] != kNil() {
				lo = at(t.Args[1])
			}
			if t.Args[2] != kNil() {
				l := c.Args[1]
				if hi = t.Args[2]; l != kNil() {
					hi = mkBin(token.ADD, l, hi, types.Typ[types.Int])
				}
			}
			return mk("sub", "", t.Typ, c.Args[0], lo, hi)
		}
		return mk("sub", "", t.Typ, c, t.Args[1], t.Args[2])
	case "mkslice":
		return s.bytesContent(t)
	case "append":
		return t
	}
	return t
}

// kill forgets the content of a local object (its address escaped to code that
// may write it).
func (s *State) kill(r *Term, why *Term) {
	var ks []*Term
	for k := range s.mem {
		if k.Op == "allocd" || k.Op == "opq" {
			continue
		}
		if k == r || k.root() == r && pathLocal(k) {
			ks = append(ks, k)
		}
	}
	for _, k := range ks {
		s.setMem(k, nil)
	}
	if r.Op == "alloc" && pointee(r.Typ) != nil && isAtomic(pointee(r.Typ)) {
		s.setMem(r, mk("out", "", pointee(r.Typ), why, r))
	} else {
		s.setMem(mk("opq", "", nil, r), mk("out", "", nil, why, r))
	}
}

func isAtomic(t types.Type) bool {
	if isBigInt(t) {
		return true
	}
	_, ok := t.Underlying().(*types.Struct)
	return !ok
}

// ---- instructions ---------------------------------------------------------

func (e *Engine) set(s *State, v ssa.Value, t *Term) { s.env[s.fi.idx[v]] = t }

func allocName(e *Engine, x ssa.Value, ctx string) string {
	return ctx + fnName(x.Parent()) + "." + x.Name()
}

func (e *Engine) instr(s *State, in ssa.Instruction, ctx string) {
	switch x := in.(type) {
	case *ssa.Alloc:
		t := mk("alloc", allocName(e, x, ctx), x.Type())
		s.clearObj(t)
		s.setMem(mk("allocd", "", nil, t), kBool(true))
		e.set(s, x, t)
	case *ssa.MakeSlice:
		t := mk("mkslice", allocName(e, x, ctx), x.Type(), e.val(s, x.Len))
		s.clearObj(t)
		s.setMem(mk("allocd", "", nil, t), kBool(true))
		e.set(s, x, t)
	case *ssa.MakeMap:
		t := mk("mkmap", allocName(e, x, ctx), x.Type())
		s.clearObj(t)
		s.setMem(mk("allocd", "", nil, t), kBool(true))
		e.set(s, x, t)
	case *ssa.MakeChan:
		e.set(s, x, mk("mkchan", allocName(e, x, ctx), x.Type()))
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, e.val(s, b))
		}
		t := mk("closure", fnName(fn), x.Type(), bs...)
		funcByTerm[t] = fn
		e.set(s, x, t)
	case *ssa.MakeInterface:
		e.set(s, x, e.val(s, x.X))
	case *ssa.ChangeInterface:
		e.set(s, x, e.val(s, x.X))
	case *ssa.ChangeType:
		e.set(s, x, e.val(s, x.X))
	case *ssa.Convert:
		e.set(s, x, convTerm(e.val(s, x.X), x.X.Type(), x.Type(), s))
	case *ssa.MultiConvert:
		e.set(s, x, mk("conv", shortType(x.Type()), x.Type(), e.val(s, x.X)))
	case *ssa.SliceToArrayPointer:
		e.set(s, x, mk("conv", shortType(x.Type()), x.Type(), e.val(s, x.X)))
	case *ssa.FieldAddr:
		st := pointee(x.X.Type()).Underlying().(*types.Struct)
		f := st.Field(x.Field)
		e.set(s, x, mkFA(e.val(s, x.X), f.Name(), f.Type()))
	case *ssa.Field:
		st := x.X.Type().Underlying().(*types.Struct)
		f := st.Field(x.Field)
		e.set(s, x, fieldOf(e.val(s, x.X), f.Name(), f.Type()))
	case *ssa.IndexAddr:
		base := e.val(s, x.X)
		base, idx := normIndex(base, e.val(s, x.Index))
		e.set(s, x, mk("ia", "", x.Type(), base, idx))
	case *ssa.Index:
		e.set(s, x, elemOf(e.val(s, x.X), e.val(s, x.Index), x.Type()))
	case *ssa.Lookup:
		m, k := e.val(s, x.X), e.val(s, x.Index)
		var v *Term
		if mv, ok := s.mem[mk("ma", "", nil, m, k)]; ok {
			v = mv
		}
		vt := x.Type()
		if x.CommaOk {
			vt = vt.(*types.Tuple).At(0).Type()
		}
		if v == nil {
			v = mk("mapget", "", vt, m, k)
			if x.CommaOk {
				e.set(s, x, mk("tuple", "", nil, v, mk("mapok", "", types.Typ[types.Bool], m, k)))
				return
			}
		} else if x.CommaOk {
			ok := kBool(v.Op != "deleted")
			if v.Op == "deleted" {
				v = zeroOf(vt)
			} else if v.Op == "iterm" {
				// whatever earlier iterations left there, if anything
				ok = mk("mapok", v.Sym, types.Typ[types.Bool], m, k)
			}
			e.set(s, x, mk("tuple", "", nil, v, ok))
			return
		}
		if v.Op == "deleted" {
			v = zeroOf(vt)
		}
		e.set(s, x, v)
	case *ssa.MapUpdate:
		m, k, v := e.val(s, x.Map), e.val(s, x.Key), e.val(s, x.Value)
		s.push(&Event{Kind: "mapset", Args: []*Term{m, k, v}, Pos: x.Pos(), In: x.Parent(), Site: x, St: s.snap()})
		s.setMem(mk("ma", "", nil, m, k), v)
	case *ssa.Slice:
		b := e.val(s, x.X)
		lo, hi := kNil(), kNil()
		if x.Low != nil {
			lo = e.val(s, x.Low)
			if lo.Sym == "0" && isConst(lo) {
				lo = kNil()
			}
		}
		if x.High != nil {
			hi = e.val(s, x.High)
		}
		if arr, ok := arrayLen(x.X.Type()); ok {
			if h, ok := i64(hi); ok && h == arr {
				hi = kNil()
			}
		}
		if isNilT(lo) && isNilT(hi) {
			if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
				e.set(s, x, b)
				return
			}
		}
		// slice of slice
		if b.Op == "slice" && !isByteSeq(b.Typ) || b.Op == "slice" && isNilT(b.Args[2]) && !isNilT(b.Args[1]) {
			nlo := mkBin(token.ADD, orZero(b.Args[1]), orZero(lo), types.Typ[types.Int])
			nhi := b.Args[2]
			if !isNilT(hi) {
				nhi = mkBin(token.ADD, orZero(b.Args[1]), hi, types.Typ[types.Int])
			}
			if nlo.Op == "const" && nlo.Sym == "0" {
				nlo = kNil()
			}
			e.set(s, x, mk("slice", "", x.Type(), b.Args[0], nlo, nhi))
			return
		}
		e.set(s, x, mk("slice", "", x.Type(), b, lo, hi))
	case *ssa.BinOp:
		e.set(s, x, e.binop(s, x))
	case *ssa.UnOp:
		v := e.val(s, x.X)
		switch x.Op {
		case token.MUL:
			e.set(s, x, s.load(v))
		case token.NOT:
			e.set(s, x, mkNot(v))
		case token.SUB:
			e.set(s, x, mkBin(token.SUB, kInt(0), v, x.Type()))
		case token.ARROW:
			s.push(&Event{Kind: "recv", Args: []*Term{v}, Pos: x.Pos(), In: x.Parent(), Site: x})
			n := 0
			if s.ev != nil {
				n = s.ev.n
			}
			r := mk("recv", itoa(n), x.Type(), v)
			if x.CommaOk {
				r = mk("tuple", "", nil, mk("recv", itoa(n), nil, v), mk("recvok", itoa(n), types.Typ[types.Bool], v))
			}
			e.set(s, x, r)
		default:
			e.set(s, x, mk("un", x.Op.String(), x.Type(), v))
		}
	case *ssa.Store:
		a, v := e.val(s, x.Addr), e.val(s, x.Val)
		if !(localObj(a.root()) && pathLocal(a)) {
			s.push(&Event{Kind: "store", Name: a.Sym, Args: []*Term{a, v}, Pos: x.Pos(), In: x.Parent(), Site: x, St: s.snap()})
		}
		s.store(a, v)
	case *ssa.Extract:
		t := e.val(s, x.Tuple)
		if t.Op == "tuple" {
			e.set(s, x, t.Args[x.Index])
		} else {
			e.set(s, x, mk("ext", itoa(x.Index), x.Type(), t))
		}
	case *ssa.TypeAssert:
		v := e.val(s, x.X)
		if v.Typ != nil && !types.IsInterface(v.Typ) && v.Op != "const" && !x.CommaOk {
			e.set(s, x, v)
			return
		}
		if x.CommaOk {
			if v.Typ != nil && !types.IsInterface(v.Typ) && v.Op != "const" {
				same := types.Identical(v.Typ, x.AssertedType) || types.IsInterface(x.AssertedType) && types.Implements(v.Typ, x.AssertedType.Underlying().(*types.Interface))
				if same {
					e.set(s, x, mk("tuple", "", nil, v, kBool(true)))
				} else {
					e.set(s, x, mk("tuple", "", nil, zeroOf(x.AssertedType), kBool(false)))
				}
				return
			}
			e.set(s, x, mk("tuple", "", nil, mk("assert", shortType(x.AssertedType), x.AssertedType, v), mk("isT", shortType(x.AssertedType), types.Typ[types.Bool], v)))
		} else {
			e.set(s, x, mk("assert", shortType(x.AssertedType), x.AssertedType, v))
		}
	case *ssa.Range:
		e.set(s, x, mk("range", ctx+x.Name(), nil, e.val(s, x.X)))
	case *ssa.Next:
		it := e.val(s, x.Iter)
		tup := x.Type().(*types.Tuple)
		e.set(s, x, mk("tuple", "", nil, mk("rok", it.Sym, types.Typ[types.Bool], it), mk("rkey", it.Sym, tup.At(1).Type(), it.Args[0]), mk("rval", it.Sym, tup.At(2).Type(), it.Args[0])))
	case *ssa.Defer:
		fnv, args := e.callArgs(s, &x.Call)
		s.defers = append(s.defers, &dcall{call: &x.Call, args: args, fnv: fnv, site: x, instr: x})
	case *ssa.Go:
		fnv, args := e.callArgs(s, &x.Call)
		if fnv != nil {
			args = append([]*Term{fnv}, args...)
		}
		ev := &Event{Kind: "go", Name: callName(&x.Call), Fn: x.Call.StaticCallee(), Args: args, Pos: x.Pos(), In: x.Parent(), Site: x}
		s.push(ev)
		e.goBody(s, x, fnv, args, ev, ctx)
	case *ssa.Send:
		s.push(&Event{Kind: "send", Args: []*Term{e.val(s, x.Chan), e.val(s, x.X)}, Pos: x.Pos(), In: x.Parent(), Site: x})
	case *ssa.Select:
		n := 0
		if s.ev != nil {
			n = s.ev.n
		}
		var args []*Term
		for _, st := range x.States {
			args = append(args, e.val(s, st.Chan))
		}
		s.push(&Event{Kind: "select", Args: args, Pos: x.Pos(), In: x.Parent(), Site: x})
		e.set(s, x, mk("select", allocName(e, x, ctx)+itoa(n), x.Type(), args...))
	default:
		e.fail("unhandled instruction %T in %s", in, fnName(in.Parent()))
	}
}

func orZero(t *Term) *Term {
	if isNilT(t) {
		return kInt(0)
	}
	return t
}

func (s *State) clearObj(r *Term) {
	var ks []*Term
	for k := range s.mem {
		if k == r || k.Op == "opq" && k.Args[0] == r || (k.Op == "ma" || k.Op == "bigc") && k.Args[0] == r || (k.Op == "fa" || k.Op == "ia") && pathLocal(k) && k.root() == r {
			ks = append(ks, k)
		}
	}
	for _, k := range ks {
		s.setMem(k, nil)
	}
}

// snap shares the memory of the current state for later queries.
func (s *State) snap() *State {
	s.memSh = true
	return &State{mem: s.mem, memSh: true, facts: s.facts, ev: s.ev, seq: s.seq, seqSh: true}
}

func arrayLen(t types.Type) (int64, bool) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return a.Len(), true
	}
	return 0, false
}

func normIndex(base, idx *Term) (*Term, *Term) {
	for base.Op == "slice" && !isStringT(base.Typ) {
		idx = mkBin(token.ADD, orZero(base.Args[1]), idx, types.Typ[types.Int])
		base = base.Args[0]
	}
	return base, idx
}

func convTerm(t *Term, from, to types.Type, s *State) *Term {
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 {
		if v, ok := numVal(t); ok && tb.Info()&types.IsInteger != 0 && fb.Info()&types.IsInteger != 0 {
			return kVal(v, to)
		}
		if fb.Kind() == tb.Kind() {
			return t
		}
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 && intBits(tb) >= intBits(fb) && (fb.Info()&types.IsUnsigned == tb.Info()&types.IsUnsigned || fb.Info()&types.IsUnsigned != 0 && intBits(tb) > intBits(fb)) {
			if intBits(tb) > intBits(fb) {
				return narrowed(t) // digits lost before stay lost
			}
			return t // value preserving
		}
		return mk("conv", tb.Name(), to, t)
	}
	// string <-> []byte
	if isByteSeq(from) || isByteSeq(to) {
		if isByteSeq(from) && s != nil {
			return mk("conv", shortType(to), to, s.bytesVal(t))
		}
		return mk("conv", shortType(to), to, t)
	}
	return t
}

func intBits(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func (e *Engine) binop(s *State, x *ssa.BinOp) *Term {
	a, b := e.val(s, x.X), e.val(s, x.Y)
	switch x.Op {
	case token.EQL:
		return mkCmp(a, b, EQ)
	case token.NEQ:
		return mkNot(mkCmp(a, b, EQ))
	case token.LSS:
		return mkCmp(a, b, LT)
	case token.LEQ:
		if floatType(x.X.Type()) {
			return mk("fcmp", "<=", x.Type(), a, b)
		}
		return mkCmp(a, b, LE)
	case token.GTR:
		return mkCmp(a, b, GT)
	case token.GEQ:
		if floatType(x.X.Type()) {
			return mk("fcmp", "<=", x.Type(), b, a)
		}
		return mkCmp(a, b, GE)
	}
	return mkBin(x.Op, a, b, x.Type())
}

func callName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		t := c.Value.Type()
		if n, ok := t.(*types.Named); ok {
			pk := ""
			if n.Obj().Pkg() != nil {
				pk = n.Obj().Pkg().Name() + "."
			}
			return pk + n.Obj().Name() + "." + c.Method.Name()
		}
		return "iface." + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return fnName(f)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	return "dyn"
}

var _ = strings.Contains

// goBody follows the body of a goroutine started with a function literal: its
// paths are attached to the event, and what it may write becomes unknown to the
// code after the go statement.
func (e *Engine) goBody(s *State, x *ssa.Go, fnv *Term, args []*Term, ev *Event, ctx string) {
	if x.Call.IsInvoke() {
		return
	}
	fn := x.Call.StaticCallee()
	if fn == nil && fnv != nil {
		fn = funcByTerm[fnv]
	}
	if fn == nil || fn.Parent() == nil || len(fn.Blocks) == 0 || !e.wantInline(fn, fnName(fn)) {
		return
	}
	var free []*Term
	if fnv != nil {
		args = args[1:]
		if fnv.Op == "closure" {
			free = fnv.Args
		}
	}
	outs := e.runFunc(fn, args, free, s, ctx+siteID(x)+"/")
	if e.err != nil {
		return
	}
	info := &LoopInfo{Fn: fn, Pos: x.Pos()}
	for _, o := range outs {
		info.Iters = append(info.Iters, o.st)
		var as []*Term
		for a, v := range o.st.mem {
			if old, ok := s.mem[a]; a.Op != "allocd" && a.Op != "loopw" && (!ok || old != v) {
				if r := a.root(); r.Op == "alloc" || r.Op == "mkslice" || r.Op == "mkmap" {
					if _, known := s.mem[mk("allocd", "", nil, r)]; !known {
						continue
					}
				}
				as = append(as, a)
			}
		}
		sort.Slice(as, func(i, j int) bool { return as[i].ID < as[j].ID })
		for _, a := range as {
			s.setMem(a, mk("goval", ctx+siteID(x), addrElem(a), a))
		}
	}
	ev.Loop = info
}
