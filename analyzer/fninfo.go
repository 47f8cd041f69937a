package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// FnInfo caches per-function structure: reverse postorder, natural loops and
// liveness.
type FnInfo struct {
	fn    *ssa.Function
	rpo   []*ssa.BasicBlock
	rpoIx map[*ssa.BasicBlock]int
	loops map[*ssa.BasicBlock]*Loop // by header
	inner map[*ssa.BasicBlock]*Loop // innermost loop of a block
	idx   map[ssa.Value]int
	live  map[*ssa.BasicBlock][]int // value indexes live-in (incl. own phis)
	bad   string
}

type Loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *Loop
}

var fnInfos = map[*ssa.Function]*FnInfo{}

func infoOf(fn *ssa.Function) *FnInfo {
	if fi, ok := fnInfos[fn]; ok {
		return fi
	}
	fi := &FnInfo{fn: fn, rpoIx: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*Loop{}, inner: map[*ssa.BasicBlock]*Loop{}, idx: map[ssa.Value]int{}, live: map[*ssa.BasicBlock][]int{}}
	fnInfos[fn] = fi
	// RPO
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fi.rpoIx[post[i]] = len(fi.rpo)
		fi.rpo = append(fi.rpo, post[i])
	}
	// loops
	for _, b := range fi.rpo {
		for _, s := range b.Succs {
			if fi.rpoIx[s] <= fi.rpoIx[b] {
				if !s.Dominates(b) {
					fi.bad = "irreducible control flow"
					continue
				}
				lp := fi.loops[s]
				if lp == nil {
					lp = &Loop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = lp
				}
				var st []*ssa.BasicBlock
				if !lp.blocks[b] {
					lp.blocks[b] = true
					st = append(st, b)
				}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					for _, p := range x.Preds {
						if !lp.blocks[p] && seen[p] {
							lp.blocks[p] = true
							st = append(st, p)
						}
					}
				}
			}
		}
	}
	var heads []*ssa.BasicBlock
	for h := range fi.loops {
		heads = append(heads, h)
	}
	sort.Slice(heads, func(i, j int) bool { return len(fi.loops[heads[i]].blocks) > len(fi.loops[heads[j]].blocks) })
	for _, h := range heads { // big to small: innermost wins
		for b := range fi.loops[h].blocks {
			if o := fi.inner[b]; o != nil && b == h {
				fi.loops[h].parent = o
			}
			fi.inner[b] = fi.loops[h]
		}
	}
	// value numbering
	n := 0
	add := func(v ssa.Value) {
		if _, ok := fi.idx[v]; !ok {
			fi.idx[v] = n
			n++
		}
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	// liveness (backward)
	liveIn := map[*ssa.BasicBlock]map[int]bool{}
	for _, b := range fn.Blocks {
		liveIn[b] = map[int]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fi.rpo) - 1; i >= 0; i-- {
			b := fi.rpo[i]
			cur := map[int]bool{}
			for _, s := range b.Succs {
				for v := range liveIn[s] {
					cur[v] = true
				}
				// phi operands are used at the edge
				pi := -1
				for k, p := range s.Preds {
					if p == b {
						pi = k
					}
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					delete(cur, fi.idx[ph])
					_ = pi
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if pi >= 0 {
						if ix, ok := fi.idx[ph.Edges[pi]]; ok {
							cur[ix] = true
						}
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if ph, ok := in.(*ssa.Phi); ok {
					cur[fi.idx[ph]] = true // keep own phis in live-in
					continue
				}
				if v, ok := in.(ssa.Value); ok {
					delete(cur, fi.idx[v])
				}
				var ops []*ssa.Value
				for _, o := range in.Operands(ops) {
					if *o != nil {
						if ix, ok := fi.idx[*o]; ok {
							cur[ix] = true
						}
					}
				}
			}
			if len(cur) != len(liveIn[b]) {
				liveIn[b] = cur
				changed = true
			}
		}
	}
	for b, m := range liveIn {
		var l []int
		for v := range m {
			l = append(l, v)
		}
		sort.Ints(l)
		fi.live[b] = l
	}
	return fi
}

func fnName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	if p := f.Parent(); p != nil {
		n := f.Name()
		if i := strings.LastIndexByte(n, '$'); i >= 0 {
			return fnName(p) + n[i:]
		}
		return fnName(p) + "$" + n
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	if recv := f.Signature.Recv(); recv != nil {
		t := recv.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if nt, ok := t.(*types.Named); ok {
			pk := ""
			if nt.Obj().Pkg() != nil {
				pk = nt.Obj().Pkg().Name() + "."
			}
			return pk + nt.Obj().Name() + "." + f.Name()
		}
		return shortType(t) + "." + f.Name()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Name() + "." + f.Name()
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Name() + "." + f.Name()
	}
	return f.Name()
}

func pkgRel(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	var pk *types.Package
	if f.Pkg != nil {
		pk = f.Pkg.Pkg
	} else if o := f.Object(); o != nil {
		pk = o.Pkg()
	}
	if pk == nil {
		return "?"
	}
	if pk.Path() == modPath {
		return ""
	}
	return strings.TrimPrefix(pk.Path(), modPath+"/")
}

func (p *Prog) pos(x token.Pos) string {
	ps := p.Fset.Position(x)
	return strings.TrimPrefix(ps.Filename, p.Root+"/") + ":" + itoa(ps.Line)
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	s := ""
	neg := n < 0
	if neg {
		n = -n
	}
	for n > 0 {
		s = string(rune('0'+n%10)) + s
		n /= 10
	}
	if neg {
		s = "-" + s
	}
	return s
}

// Func finds a function or method: "vm.(*VM).RunV2", "vm.VM.RunV2" or
// "core.NewX" addressed by package path relative to the module and name.
func (p *Prog) Func(rel, name string) *ssa.Function {
	sp := p.SPkg[rel]
	if sp == nil {
		return nil
	}
	if i := strings.IndexByte(name, '.'); i >= 0 {
		tn, mn := name[:i], name[i+1:]
		o, ok := sp.Pkg.Scope().Lookup(tn).(*types.TypeName)
		if !ok {
			return nil
		}
		for _, t := range []types.Type{types.NewPointer(o.Type()), o.Type()} {
			ms := types.NewMethodSet(t)
			if s := ms.Lookup(sp.Pkg, mn); s != nil {
				fo := s.Obj().(*types.Func)
				return p.SSA.FuncValue(fo)
			}
		}
		return nil
	}
	return sp.Func(name)
}

// stepsByOne: every back edge adds exactly one to the phi.
func (fi *FnInfo) stepsByOne(ph *ssa.Phi, lp *Loop) bool {
	for i, p := range lp.head.Preds {
		if !lp.blocks[p] {
			continue
		}
		b, ok := ph.Edges[i].(*ssa.BinOp)
		if !ok || b.Op != token.ADD || b.X != ssa.Value(ph) {
			return false
		}
		c, ok := b.Y.(*ssa.Const)
		if !ok || c.Int64() != 1 {
			return false
		}
	}
	return true
}
