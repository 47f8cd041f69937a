package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// doCall evaluates a call: builtin, intrinsic, inlined or opaque.
func (e *Engine) doCall(s *State, c *ssa.CallCommon, fnv *Term, args []*Term, site ssa.Instruction, ctx string, deferred bool) []Outcome {
	one := func(t ...*Term) []Outcome { return []Outcome{{st: s, res: t}} }
	var callee *ssa.Function
	var free []*Term
	name := ""
	if c.IsInvoke() {
		name = callName(c)
		recv := args[0]
		if recv.Typ != nil && !types.IsInterface(recv.Typ) && !isConst(recv) {
			rt := recv.Typ
			if pt := pointee(rt); pt != nil && (recv.Op == "bytesw" || recv.Op == "zero") {
				rt = pt // the value, not its address
			}
			if m := e.lookupMethod(rt, c.Method); m != nil {
				callee = m
			}
		}
		if callee == nil && e.devirt != nil {
			if tn, ok := e.devirt[name]; ok {
				i := strings.LastIndexByte(tn, '.')
				callee = e.p.Func(tn[:i], tn[i+1:]+"."+c.Method.Name())
			}
		}
		if callee != nil {
			name = fnName(callee)
		}
	} else {
		if b, ok := c.Value.(*ssa.Builtin); ok {
			return e.builtin(s, b.Name(), args, c, site, ctx)
		}
		callee = c.StaticCallee()
		if callee == nil && fnv != nil {
			callee = funcByTerm[fnv]
		}
		if callee != nil {
			if fnv != nil && fnv.Op == "closure" {
				free = fnv.Args
			}
			name = fnName(callee)
		} else {
			name = "dyn"
			args = append([]*Term{fnv}, args...)
		}
	}
	if callee != nil && callee.Synthetic != "" && len(callee.Blocks) == 0 && callee.Object() != nil {
		if f := e.p.SSA.FuncValue(callee.Object().(*types.Func)); f != nil {
			callee = f
		}
	}
	if e.outVals {
		if r, ok := e.outParams(s, name, callee, args, c); ok {
			return one(r...)
		}
	}
	if r, ok := e.intrinsic(s, name, callee, args, c, site); ok {
		return one(r...)
	}
	if callee != nil && len(callee.Blocks) > 0 && e.wantInline(callee, name) {
		sub := ctx + siteID(site) + "/"
		outs := e.runFunc(callee, args, free, s, sub)
		if e.collapse {
			outs = e.collapseErrs(callee, outs, s)
		}
		return outs
	}
	return one(e.opaqueCall(s, name, callee, args, c, site, deferred)...)
}

var siteIDs = map[ssa.Instruction]string{}

func siteID(in ssa.Instruction) string {
	if id, ok := siteIDs[in]; ok {
		return id
	}
	id := itoa(len(siteIDs) + 1)
	siteIDs[in] = id
	return id
}

func (e *Engine) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	ms := e.p.SSA.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return e.p.SSA.MethodValue(sel)
}

var quietPkgs = map[string]bool{"log15": true, "monitor": true}

func (e *Engine) wantInline(f *ssa.Function, name string) bool {
	if e.opaque != nil && e.opaque(name, f) {
		return false
	}
	for _, s := range e.stack {
		if s == f {
			return false
		}
	}
	if len(e.stack) >= e.maxDepth {
		return false
	}
	if !inRepo(f) {
		return false
	}
	if quietPkgs[pkgRel(f)] {
		return false
	}
	if f.Parent() != nil {
		return true // closures of analysed functions
	}
	if f.Synthetic != "" && strings.Contains(f.Synthetic, "wrapper") {
		return true
	}
	if e.inline != nil && e.inline(f) {
		return true
	}
	if e.home[pkgRel(f)] {
		return true
	}
	return e.autoMax > 0 && smallLeaf(f, e.autoMax)
}

var leafCache = map[*ssa.Function]int{}

// smallLeaf: loop-free, few instructions, no stores to non-local memory, no
// calls except to other small leaves or side-effect-free externals.
func smallLeaf(f *ssa.Function, max int) bool {
	if v, ok := leafCache[f]; ok {
		return v == 1
	}
	leafCache[f] = 0
	fi := infoOf(f)
	if len(fi.loops) > 0 || fi.bad != "" {
		return false
	}
	n := 0
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			n++
			switch x := in.(type) {
			case *ssa.Store:
				r := x.Addr
				for {
					if fa, ok := r.(*ssa.FieldAddr); ok {
						r = fa.X
					} else if ia, ok := r.(*ssa.IndexAddr); ok {
						r = ia.X
					} else {
						break
					}
				}
				if _, ok := r.(*ssa.Alloc); !ok {
					return false
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select, *ssa.Panic:
				return false
			case *ssa.Call:
				if x.Call.IsInvoke() {
					return false
				}
				if _, ok := x.Call.Value.(*ssa.Builtin); ok {
					continue
				}
				g := x.Call.StaticCallee()
				if g == nil {
					return false
				}
				if inRepo(g) {
					if len(g.Blocks) == 0 || !smallLeaf(g, max) {
						return false
					}
				} else if !pureExternal(fnName(g), g) {
					return false
				}
			}
		}
	}
	if n > max {
		return false
	}
	leafCache[f] = 1
	return true
}

func extPkg(f *ssa.Function) string {
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

var purePkgs = map[string]bool{"math/big": true, "bytes": true, "strings": true, "strconv": true, "encoding/binary": true, "encoding/hex": true, "math": true, "errors": true, "fmt": true, "math/bits": true, "sort": false, "path": true, "path/filepath": true, "unicode": true, "encoding/base64": true, "encoding/json": true, "reflect": true, "github.com/pkg/errors": true, "golang.org/x/crypto/blake2b": true, "hash": true, "crypto/sha256": true, "crypto/hmac": true}

func pureExternal(name string, f *ssa.Function) bool {
	pk := extPkg(f)
	if pk == "time" {
		return name != "time.Now" && name != "time.Since" && name != "time.Sleep" && name != "time.Until" && name != "time.After" && name != "time.NewTicker" && name != "time.NewTimer"
	}
	if strings.HasPrefix(name, "bytes.Buffer.") {
		switch baseName(name) {
		case "Bytes", "Len", "String", "Cap":
		default:
			return false
		}
	}
	if strings.HasPrefix(name, "reflect.Value.Set") || name == "reflect.Copy" {
		return false
	}
	return purePkgs[pk]
}

func isGetter(n string) bool {
	for _, p := range []string{"Get", "get", "Is", "is", "Has", "has", "Query", "query", "Latest", "Load", "load", "Len", "len", "Size", "Find", "find", "Exist", "Check", "check", "Head", "Tail", "Address", "PrevHash", "Genesis", "Compute", "compute", "Verify", "verify", "New", "Can", "String", "Bytes", "Err", "Producer", "Index2Time", "Time2Index"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

func (e *Engine) opaqueCall(s *State, name string, callee *ssa.Function, args []*Term, c *ssa.CallCommon, site ssa.Instruction, deferred bool) []*Term {
	quiet := callee != nil && inRepo(callee) && quietPkgs[pkgRel(callee)] || strings.HasPrefix(name, "log15.")
	res := c.Signature().Results()
	var rt types.Type
	if res.Len() == 1 {
		rt = res.At(0).Type()
	} else if res.Len() > 1 {
		rt = res
	}
	if quiet {
		return []*Term{mk("pcall", name, rt)}
	}
	e.opaqueN[name]++
	// byte slices are passed by content
	if name == "sort.Stable" {
		name = "sort.Sort"
	}
	if name == "sort.Sort" && len(args) == 1 {
		// the order is part of the call
		if mi, ok := c.Args[0].(*ssa.MakeInterface); ok {
			args = []*Term{mk("iface", "", mi.X.Type(), args[0])}
		}
	}
	cargs := make([]*Term, len(args))
	for i, a := range args {
		cargs[i] = a
		if a.Typ != nil {
			if _, ok := a.Typ.Underlying().(*types.Slice); ok && isByteSeq(a.Typ) {
				cargs[i] = s.bytesVal(a)
			}
		}
		if a.Op == "slice" && localObj(a.Args[0]) && !isByteSeq(a.Typ) {
			// variadic argument array: pass the elements
			if l := s.sliceElems(a); l != nil {
				for k := range l {
					if l[k].Op == "slice" && isByteSeq(l[k].Typ) {
						l[k] = s.bytesVal(l[k])
					}
					if isBigPtr(l[k].Typ) {
						l[k] = s.big(l[k])
					} else if l[k].Op == "conv" && len(l[k].Args) == 1 && isBigPtr(l[k].Args[0].Typ) {
						l[k] = s.big(l[k].Args[0])
					} else if strings.HasPrefix(baseName(name), "Pack") {
						// the encoders look through pointers
						for x := stripConv(l[k]); x.Op == "alloc"; x = stripConv(l[k]) {
							l[k] = s.load(x)
						}
					}
				}
				cargs[i] = mk("list", "", a.Typ, l...)
			}
		}
		if isBigPtr(a.Typ) {
			cargs[i] = s.big(a)
		}
	}
	pure := callee != nil && !inRepo(callee) && pureExternal(name, callee)
	var r *Term
	if pure {
		r = mk("pcall", name, rt, cargs...)
	} else {
		var recv *Term
		if len(args) > 0 {
			recv = args[0]
		} else {
			recv = kNil()
		}
		r = mk("call", name+"#"+itoa(s.seq[recv]), rt, cargs...)
		if fresh := strings.Contains(name, "ntPool."); fresh || !isGetter(baseName(name)) && name != "list.List.Front" && name != "list.List.Back" {
			s.bumpSeq(recv)
			r = mk("call", name+"#"+itoa(s.seq[recv]-1), rt, cargs...)
		}
	}
	if !pure || callee == nil {
		s.push(&Event{Kind: "call", Name: name, Fn: callee, Args: cargs, Res: r, Pos: site.Pos(), In: site.Parent(), Site: site, St: s.snap(), Defer: deferred, InLoop: e.inLoop > 0})
	}
	if n := baseName(name); len(cargs) == 4 && (n == "UnpackMethod" || n == "UnpackVariable" || n == "UnpackEvent") {
		s.unpackInto(args[1], mk("unp", "", nil, cargs[0], cargs[2], cargs[3]))
	}
	// escaping local objects
	for i, a := range args {
		e.escape(s, a, r, callee, i, name)
	}
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return []*Term{r}
	}
	var out []*Term
	for i := 0; i < res.Len(); i++ {
		out = append(out, mk("ext", itoa(i), res.At(i).Type(), r))
	}
	return out
}

func (s *State) sliceElems(a *Term) []*Term {
	b := a.Args[0]
	if b.Op != "alloc" {
		return nil
	}
	n, ok := arrayLen(b.Typ)
	if !ok || n > 64 {
		return nil
	}
	var out []*Term
	et := pointee(b.Typ).Underlying().(*types.Array).Elem()
	for i := int64(0); i < n; i++ {
		out = append(out, s.load(mk("ia", "", types.NewPointer(et), b, kInt(i))))
	}
	return out
}

// escape: a pointer to a local object handed to opaque code. External code may
// write it; repository code writes it only if its modset says so.
func (e *Engine) escape(s *State, a *Term, r *Term, callee *ssa.Function, i int, name string) {
	a = stripConv(a)
	root := a
	if a.Op == "slice" {
		root = a.Args[0]
	}
	if root.Op == "fa" || root.Op == "ia" {
		root = root.root()
	}
	if root.Op == "param" && e.modParams && callee != nil && inRepo(callee) && len(callee.Blocks) > 0 && pointee(root.Typ) != nil && writesParam(callee, i, map[*ssa.Function]bool{}) {
		s.killParam(root, r, fieldsWritten(callee, i, map[*ssa.Function]bool{}))
		return
	}
	if root.Op != "alloc" && root.Op != "mkslice" {
		return
	}
	if isBigPtr(root.Typ) {
		return // *big.Int arguments are passed by value (assumption: callee does not write them)
	}
	if callee != nil {
		if !inRepo(callee) {
			if pureExternal(name, callee) && !strings.HasPrefix(baseName(name), "Unmarshal") && !strings.HasPrefix(baseName(name), "Put") && !strings.HasPrefix(baseName(name), "Read") {
				return
			}
			if strings.HasPrefix(name, "sync.") || strings.HasPrefix(name, "atomic.") || strings.HasPrefix(name, "bigcache.") || strings.HasPrefix(name, "lru.") || strings.HasPrefix(name, "leveldb.DB.") || strings.HasPrefix(name, "list.") || name == "proto.Marshal" {
				return
			}
		} else if len(callee.Blocks) > 0 && name != "chain_file_manager.FileManager.ReadRange" && !writesParam(callee, i, map[*ssa.Function]bool{}) {
			return
		}
	} else if name != "dyn" {
		// interface method: only kill when some argument is written by convention
		n := baseName(name)
		if !(strings.HasPrefix(n, "Unmarshal") || strings.HasPrefix(n, "Decode") || strings.HasPrefix(n, "Read") || strings.HasPrefix(n, "Scan")) {
			return
		}
	}
	s.kill(root, r)
}

var wpCache = map[*ssa.Function]map[int]bool{}

// writesParam: does f store through its i-th parameter (transitively)?
func writesParam(f *ssa.Function, i int, seen map[*ssa.Function]bool) bool {
	if m, ok := wpCache[f]; ok {
		if v, ok := m[i]; ok {
			return v
		}
	}
	if seen[f] || i >= len(f.Params) {
		return false
	}
	seen[f] = true
	derived := map[ssa.Value]bool{f.Params[i]: true}
	res := false
	for ch := true; ch && !res; {
		ch = false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok && !derived[v] {
					switch x := in.(type) {
					case *ssa.FieldAddr:
						if derived[x.X] {
							derived[v] = true
							ch = true
						}
					case *ssa.IndexAddr:
						if derived[x.X] {
							derived[v] = true
							ch = true
						}
					case *ssa.Slice:
						if derived[x.X] {
							derived[v] = true
							ch = true
						}
					case *ssa.Phi:
						for _, ed := range x.Edges {
							if derived[ed] {
								derived[v] = true
								ch = true
							}
						}
					case *ssa.ChangeType:
						if derived[x.X] {
							derived[v] = true
							ch = true
						}
					case *ssa.MakeInterface:
						if derived[x.X] {
							derived[v] = true
							ch = true
						}
					}
				}
				switch x := in.(type) {
				case *ssa.Store:
					if derived[x.Addr] {
						res = true
					}
				case ssa.CallInstruction:
					c := x.Common()
					g := c.StaticCallee()
					if c.IsInvoke() && derived[c.Value] && strings.HasPrefix(c.Method.Name(), "DeSerialize") {
						res = true // a decoder fills its receiver
					}
					for k, a := range c.Args {
						if !derived[a] {
							continue
						}
						if bt, ok := c.Value.(*ssa.Builtin); ok {
							if bt.Name() == "copy" && k == 0 {
								res = true
							}
							continue
						}
						if g == nil {
							continue
						}
						if inRepo(g) {
							if writesParam(g, k, seen) {
								res = true
							}
						} else {
							n := g.Name()
							if strings.HasPrefix(n, "Unmarshal") || strings.HasPrefix(n, "Put") || strings.HasPrefix(n, "Read") || strings.HasPrefix(n, "Decode") {
								res = true
							}
						}
					}
				}
			}
		}
	}
	if wpCache[f] == nil {
		wpCache[f] = map[int]bool{}
	}
	wpCache[f][i] = res
	return res
}

// fieldsWritten: the names of the fields f stores to through its i-th
// parameter (transitively); "*" when a store is not to a field.
func fieldsWritten(f *ssa.Function, i int, seen map[*ssa.Function]bool) map[string]bool {
	out := map[string]bool{}
	if seen[f] || i >= len(f.Params) {
		return out
	}
	seen[f] = true
	derived := map[ssa.Value]string{f.Params[i]: "*"} // the field whose address it is
	for ch := true; ch; {
		ch = false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || derived[v] != "" {
					continue
				}
				var from ssa.Value
				name := ""
				switch x := in.(type) {
				case *ssa.FieldAddr:
					from = x.X
					name = pointee(x.X.Type()).Underlying().(*types.Struct).Field(x.Field).Name()
				case *ssa.IndexAddr:
					from = x.X
				case *ssa.Slice:
					from = x.X
				case *ssa.ChangeType:
					from = x.X
				case *ssa.MakeInterface:
					from = x.X
				case *ssa.Phi:
					for _, ed := range x.Edges {
						if derived[ed] != "" {
							from, name = ed, "*"
						}
					}
				}
				if from != nil && derived[from] != "" {
					if name == "" {
						name = derived[from]
					}
					derived[v] = name
					ch = true
				}
			}
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if n := derived[x.Addr]; n != "" {
					out[n] = true
				}
			case ssa.CallInstruction:
				c := x.Common()
				g := c.StaticCallee()
				if c.IsInvoke() && derived[c.Value] != "" && strings.HasPrefix(c.Method.Name(), "DeSerialize") {
					out[derived[c.Value]] = true
				}
				for k, a := range c.Args {
					n := derived[a]
					if n == "" {
						continue
					}
					if bt, ok := c.Value.(*ssa.Builtin); ok {
						if bt.Name() == "copy" && k == 0 {
							out[n] = true
						}
						continue
					}
					if g == nil {
						continue
					}
					if inRepo(g) {
						for h := range fieldsWritten(g, k, seen) {
							if h == "*" {
								h = n
							}
							out[h] = true
						}
					} else if writesExt(g.Name()) {
						out[n] = true
					}
				}
			}
		}
	}
	return out
}

func writesExt(n string) bool {
	return strings.HasPrefix(n, "Unmarshal") || strings.HasPrefix(n, "Put") || strings.HasPrefix(n, "Read") || strings.HasPrefix(n, "Decode")
}

func (e *Engine) builtin(s *State, n string, args []*Term, c *ssa.CallCommon, site ssa.Instruction, ctx string) []Outcome {
	one := func(t ...*Term) []Outcome { return []Outcome{{st: s, res: t}} }
	var rt types.Type
	if v, ok := site.(ssa.Value); ok {
		rt = v.Type()
	}
	switch n {
	case "len", "cap":
		return one(s.lenOf(args[0], n, rt))
	case "append":
		base := args[0]
		var pieces []*Term
		if len(args) > 1 {
			sp := args[1]
			if el := sp; el.Op == "slice" && el.Args[0].Op == "alloc" && isNilT(el.Args[1]) && isNilT(el.Args[2]) && variadicArr(c, 1) {
				pieces = s.sliceElems(el)
			}
			if pieces == nil {
				if isByteSeq(sp.Typ) || isByteSeq(rt) {
					sp = s.bytesVal(sp)
				}
				pieces = []*Term{mk("spread", "", sp.Typ, sp)}
				if isNilT(sp) {
					return one(base)
				}
			}
		}
		var all []*Term
		if base.Op == "append" {
			all = append(all, base.Args...)
		} else {
			all = append(all, base)
		}
		all = append(all, pieces...)
		if len(pieces) == 0 {
			return one(base)
		}
		t := mk("append", "", rt, all...)
		s.push(&Event{Kind: "append", Args: append([]*Term{base}, pieces...), Res: t, Pos: site.Pos(), In: site.Parent(), Site: site})
		return one(t)
	case "copy":
		dst, src := args[0], args[1]
		sv := src
		if isByteSeq(src.Typ) || isByteSeq(dst.Typ) {
			sv = s.bytesVal(src)
		}
		s.push(&Event{Kind: "copy", Args: []*Term{dst, sv}, Pos: site.Pos(), In: site.Parent(), Site: site, St: s.snap()})
		s.writeBytes(dst, sv, nil)
		return one(mk("copyn", "", rt, s.lenOf(dst, "len", rt), s.lenOf(src, "len", rt)))
	case "delete":
		s.push(&Event{Kind: "mapdel", Args: args, Pos: site.Pos(), In: site.Parent(), Site: site, St: s.snap()})
		s.setMem(mk("ma", "", nil, args[0], args[1]), mk("deleted", "", nil))
		return one()
	case "close":
		s.push(&Event{Kind: "close", Args: args, Pos: site.Pos(), In: site.Parent(), Site: site})
		return one()
	case "recover":
		return one(mk("recover", "", rt))
	case "min", "max":
		return one(mk(n, "", rt, args...))
	case "ssa:wrapnilchk":
		return one(args[0])
	case "print", "println":
		return one()
	}
	return one(mk("pcall", "builtin."+n, rt, args...))
}

func variadicArr(c *ssa.CallCommon, i int) bool {
	sl, ok := c.Args[i].(*ssa.Slice)
	if !ok {
		return false
	}
	al, ok := sl.X.(*ssa.Alloc)
	return ok && (al.Comment == "varargs" || al.Comment == "slicelit")
}

// writeBytes models copy / PutUintXX into a (sub)slice of a local byte object.
func (s *State) writeBytes(dst, src *Term, n *Term) {
	lo := kInt(0)
	base := dst
	var hi *Term
	if dst.Op == "slice" {
		base = dst.Args[0]
		lo = orZero(dst.Args[1])
		if !isNilT(dst.Args[2]) {
			hi = dst.Args[2]
		}
		for base.Op == "slice" {
			if o := orZero(base.Args[1]); !isZero(o) {
				lo = mkBin(token.ADD, lo, o, types.Typ[types.Int])
				if hi != nil {
					hi = mkBin(token.ADD, hi, o, types.Typ[types.Int])
				}
			}
			if hi == nil && !isNilT(base.Args[2]) {
				hi = base.Args[2]
			}
			base = base.Args[0]
		}
	}
	if !localObj(base) && !(isAddr(base) && isByteSeq(base.Typ)) {
		return
	}
	if !isByteSeq(base.Typ) {
		return
	}
	if n != nil {
		hi = mkBin(token.ADD, lo, n, types.Typ[types.Int])
	} else {
		l := s.lenOf(src, "len", types.Typ[types.Int])
		if l.Op == "const" || hi == nil {
			hi = mkBin(token.ADD, lo, l, types.Typ[types.Int])
		}
	}
	s.setMem(base, bytesWrite(s.bytesContent(base), lo, hi, src, base.Typ))
}

func (s *State) lenOf(t *Term, n string, rt types.Type) *Term {
	t = stripConvB(t)
	if t.Typ != nil {
		if l, ok := arrayLen(t.Typ); ok {
			return kInt(l)
		}
	}
	switch t.Op {
	case "call", "pcall":
		if n == "len" && strings.Contains(t.Sym, "rand.Rand.Perm") && len(t.Args) == 2 {
			return t.Args[1]
		}
	case "mkslice":
		if n == "len" {
			return t.Args[0]
		}
	case "slice":
		if n == "len" {
			var end *Term
			if !isNilT(t.Args[2]) {
				end = t.Args[2]
			} else {
				end = s.lenOf(t.Args[0], "len", rt)
			}
			return mkBin(token.SUB, end, orZero(t.Args[1]), types.Typ[types.Int])
		}
	case "sub":
		var end *Term
		if !isNilT(t.Args[2]) {
			end = t.Args[2]
		} else {
			end = s.lenOf(t.Args[0], "len", rt)
		}
		return mkBin(token.SUB, end, orZero(t.Args[1]), types.Typ[types.Int])
	case "const":
		if isNilT(t) {
			return kInt(0)
		}
		if isStr(t) {
			if v, err := unq(t.Sym); err == nil {
				return kInt(int64(len(v)))
			}
		}
	case "bytesw":
		return s.lenOf(t.Args[0], n, rt)
	case "zerobytes":
		return t.Args[0]
	case "out":
		if len(t.Args) == 2 && t.Args[1].Op == "mkslice" {
			return t.Args[1].Args[0]
		}
	case "be64", "le64":
		return kInt(8)
	case "be32", "le32":
		return kInt(4)
	case "be16", "le16":
		return kInt(2)
	case "append":
		if n == "len" {
			sum := s.lenOf(t.Args[0], n, rt)
			for _, p := range t.Args[1:] {
				if p.Op == "spread" {
					sum = mkBin(token.ADD, sum, s.lenOf(p.Args[0], n, rt), types.Typ[types.Int])
				} else {
					sum = mkBin(token.ADD, sum, kInt(1), types.Typ[types.Int])
				}
			}
			return sum
		}
	}
	return mk(n, "", types.Typ[types.Int], t)
}

func stripConvB(t *Term) *Term {
	for t.Op == "conv" && (isByteSeq(t.Typ) || t.Typ != nil && isStringT(t.Typ)) && t.Args[0].Typ != nil && (isByteSeq(t.Args[0].Typ) || isStringT(t.Args[0].Typ)) {
		t = t.Args[0]
	}
	return t
}

func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

var errIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

// collapseErrs joins all outcomes of an inlined call that return a non-nil
// error into one (entry facts and events): for rules about success paths only.
func (e *Engine) collapseErrs(f *ssa.Function, outs []Outcome, s *State) []Outcome {
	rs := f.Signature.Results()
	if rs.Len() == 0 || !types.Implements(rs.At(rs.Len()-1).Type(), errIface) {
		return outs
	}
	var keep []Outcome
	var first *Outcome
	n := 0
	for i := range outs {
		o := outs[i]
		if o.panic {
			continue
		}
		if o.st.facts.possible(o.res[len(o.res)-1], kNil())&EQ == 0 {
			if first == nil {
				first = &outs[i]
			}
			n++
			continue
		}
		keep = append(keep, o)
	}
	if n <= 1 {
		return outs
	}
	st := s.clone()
	var res []*Term
	for i := range first.res {
		same := true
		for _, o := range outs {
			if !o.panic && o.st.facts.possible(o.res[len(o.res)-1], kNil())&EQ == 0 && o.res[i] != first.res[i] {
				same = false
			}
		}
		if same {
			res = append(res, first.res[i])
		} else if i == len(first.res)-1 {
			res = append(res, mk("nnerr", "collapsed:"+fnName(f), rs.At(i).Type(), kNil()))
		} else {
			res = append(res, mk("errres", fnName(f)+itoa(i), rs.At(i).Type()))
		}
	}
	return append(keep, Outcome{st: st, res: res, pos: first.pos})
}

// unpackInto: an ABI decoder filled the object behind dst from its data.
func (s *State) unpackInto(dst, v *Term) {
	r := stripConv(dst)
	if r.Op != "alloc" || pointee(r.Typ) == nil {
		return
	}
	if isAtomic(pointee(r.Typ)) {
		v = mk("unp", "", pointee(r.Typ), v.Args...)
	}
	s.kill(r, v)
	if isAtomic(pointee(r.Typ)) {
		s.setMem(r, v)
	} else {
		s.setMem(mk("opq", "", nil, r), v)
	}
}

// unpField reads a field of a decoded object.
func unpField(a, root, v *Term) *Term {
	if a == root {
		return v
	}
	b := unpField(a.Args[0], root, v)
	if a.Op == "ia" {
		return mk("elem", "", pointee(a.Typ), b, a.Args[1])
	}
	return mk("field", a.Sym, pointee(a.Typ), b)
}
