package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Lock sets: which mutexes are certainly held at every instruction.
//
// Mutexes are identified by the struct field (or global) that holds them.
// Every function gets a relative state per program point (what it acquired and
// released itself); the absolute one adds what every caller holds. Callers are
// static calls, interface calls (all implementations in the repository) and
// functions passed to a call that runs them at once.

type lockMode int8

const (
	lkGone lockMode = -1 // released although the function did not acquire it
	lkR    lockMode = 1
	lkW    lockMode = 2
)

type lockSet map[string]lockMode

func (a lockSet) clone() lockSet {
	b := make(lockSet, len(a))
	for k, v := range a {
		b[k] = v
	}
	return b
}

func (a lockSet) equal(b lockSet) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

// meet keeps what certainly holds on both sides (absent = inherited).
func (a lockSet) meet(b lockSet) lockSet {
	if a["*"] != 0 { // not shared yet: nothing is missing
		return b
	}
	if b["*"] != 0 {
		return a
	}
	out := lockSet{}
	for k, v := range a {
		if w, ok := b[k]; ok {
			if w < v {
				v = w
			}
			out[k] = v
		} else if v == lkGone {
			out[k] = v
		}
	}
	for k, v := range b {
		if _, ok := a[k]; !ok && v == lkGone {
			out[k] = v
		}
	}
	return out
}

// over applies a relative state to the caller's absolute one.
func (rel lockSet) over(entry lockSet) lockSet {
	out := lockSet{}
	for k, v := range entry {
		out[k] = v
	}
	for k, v := range rel {
		if v == lkGone {
			delete(out, k)
		} else if v > out[k] {
			out[k] = v
		}
	}
	return out
}

type lockFn struct {
	f     *ssa.Function
	at    map[ssa.Instruction]lockSet // relative state before the instruction
	exit  lockSet                     // relative state at every return
	entry lockSet                     // absolute, nil = not reached yet
	sites []lockSite
	root  bool
	dead  bool // an unexported method that nothing uses
	why   string

	startup bool // runs before the object is shared
}

// lockFnName: "ledger/chain/cache.Cache.Init".
func lockFnName(f *ssa.Function) string {
	if f.Pkg == nil {
		return f.Name()
	}
	n := strings.TrimPrefix(strings.TrimPrefix(f.Pkg.Pkg.Path(), modPath), "/") + "."
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if nt, ok := types.Unalias(t).(*types.Named); ok {
			n += nt.Obj().Name() + "."
		}
	}
	return n + f.Name()
}

type lockSite struct {
	in  *lockFn
	ins ssa.Instruction
	rel lockSet // overrides in.at[ins]
	arg []ssa.Value
}

type lockProg struct {
	p     *Prog
	fns   map[*ssa.Function]*lockFn
	order []*lockFn
	impl  map[string][]*ssa.Function // method name -> implementations
	fresh map[ssa.Value]int          // 0 unknown, 1 in progress, 2 fresh, 3 not
}

func fieldKey(x ssa.Value, i int) string {
	t := x.Type()
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	name := "struct"
	pkg := ""
	if n, ok := types.Unalias(t).(*types.Named); ok {
		name = n.Obj().Name()
		if n.Obj().Pkg() != nil {
			pkg = n.Obj().Pkg().Path()
		}
	}
	f := st.Field(i).Name()
	if !strings.HasPrefix(pkg, modPath) {
		if k := lockKey(x); k != "" {
			return k + "." + f
		}
		return ""
	}
	return strings.TrimPrefix(strings.TrimPrefix(pkg, modPath), "/") + "." + name + "." + f
}

// lockKey names the place a mutex (or any other value) is kept in.
func lockKey(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return fieldKey(x.X, x.Field)
	case *ssa.Field:
		return fieldKey(x.X, x.Field)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return lockKey(x.X)
		}
	case *ssa.MakeInterface:
		return lockKey(x.X)
	case *ssa.ChangeType:
		return lockKey(x.X)
	case *ssa.Global:
		return strings.TrimPrefix(strings.TrimPrefix(x.Pkg.Pkg.Path(), modPath), "/") + "." + x.Name()
	case *ssa.Alloc:
		return "local " + x.Parent().String() + "." + x.Comment
	case *ssa.FreeVar:
		if mc := closureOf(x.Parent()); mc != nil {
			for i, fv := range x.Parent().FreeVars {
				if fv == x {
					return lockKey(mc.Bindings[i])
				}
			}
		}
	}
	return ""
}

func closureOf(f *ssa.Function) *ssa.MakeClosure {
	if f.Parent() == nil {
		return nil
	}
	var out *ssa.MakeClosure
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
				out = mc
			}
		}
	}
	return out
}

// lockOp: the effect of a call on a mutex.
func lockOp(c *ssa.CallCommon) (key string, op string) {
	if c.IsInvoke() {
		if c.Method.Pkg() != nil && c.Method.Pkg().Path() == "sync" {
			return lockKey(c.Value), c.Method.Name()
		}
		return "", ""
	}
	f := c.StaticCallee()
	if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "sync" || f.Signature.Recv() == nil || len(c.Args) == 0 {
		return "", ""
	}
	switch f.Name() {
	case "Lock", "Unlock", "RLock", "RUnlock":
		return lockKey(c.Args[0]), f.Name()
	}
	return "", ""
}

func (s lockSet) apply(key, op string) {
	switch op {
	case "Lock":
		s[key] = lkW
	case "RLock":
		if s[key] != lkW {
			s[key] = lkR
		}
	case "Unlock", "RUnlock":
		if s[key] > 0 {
			delete(s, key)
		} else {
			s[key] = lkGone
		}
	}
}

func newLockProg(p *Prog, startup ...string) *lockProg {
	lp := &lockProg{p: p, fns: map[*ssa.Function]*lockFn{}, impl: map[string][]*ssa.Function{}, fresh: map[ssa.Value]int{}}
	all := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || all[f] {
			return
		}
		all[f] = true
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for f := range p.All {
		add(f)
	}
	for _, sp := range p.SPkg { // methods that nothing uses
		for _, m := range sp.Members {
			if t, ok := m.(*ssa.Type); ok {
				if n, ok := t.Type().(*types.Named); ok {
					for i := 0; i < n.NumMethods(); i++ {
						add(p.SSA.FuncValue(n.Method(i)))
					}
				}
			}
		}
	}
	for f := range all {
		if len(f.Blocks) > 0 && inRepo(f) {
			lf := &lockFn{f: f, dead: !p.All[f] && f.Parent() == nil && !token.IsExported(f.Name())}
			lp.fns[f] = lf
			lp.order = append(lp.order, lf)
			if f.Signature.Recv() != nil {
				lp.impl[f.Name()] = append(lp.impl[f.Name()], f)
			}
		}
	}
	sort.Slice(lp.order, func(i, j int) bool { return lp.order[i].f.String() < lp.order[j].f.String() })
	// relative states; summaries of callees by iteration
	for n := 0; n < 40; n++ {
		changed := false
		for _, lf := range lp.order {
			if lp.relative(lf) {
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	lp.callers()
	for _, lf := range lp.order {
		for _, n := range startup {
			if lockFnName(lf.f) == n {
				lf.startup = true
			}
		}
	}
	lp.entries()
	return lp
}

// targets: the functions of the repository a call may run.
func (lp *lockProg) targets(c *ssa.CallCommon) []*lockFn {
	if c.IsInvoke() {
		it, _ := c.Value.Type().Underlying().(*types.Interface)
		var out []*lockFn
		for _, f := range lp.impl[c.Method.Name()] {
			if it != nil && types.Implements(f.Signature.Recv().Type(), it) {
				out = append(out, lp.fns[f])
			}
		}
		return out
	}
	if f := c.StaticCallee(); f != nil {
		if lf := lp.fns[f]; lf != nil {
			return []*lockFn{lf}
		}
	}
	return nil
}

func (lp *lockProg) callEffect(s lockSet, c *ssa.CallCommon) {
	if k, op := lockOp(c); op != "" {
		if k != "" {
			s.apply(k, op)
		}
		return
	}
	ts := lp.targets(c)
	if len(ts) == 0 {
		return
	}
	var eff lockSet
	for i, t := range ts {
		if t.exit == nil {
			if len(ts) == 1 {
				return
			}
			continue
		}
		if eff == nil || i == 0 {
			eff = t.exit
		} else {
			eff = eff.meet(t.exit)
		}
	}
	for k, v := range eff {
		if v == lkGone {
			if s[k] > 0 {
				delete(s, k)
			} else {
				s[k] = lkGone
			}
		} else if s[k] < v {
			s[k] = v
		}
	}
}

// deferred calls of a function, in the order of their registration.
func defersOf(f *ssa.Function) []*ssa.Defer {
	var out []*ssa.Defer
	for _, b := range f.DomPreorder() {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.Defer); ok {
				out = append(out, d)
			}
		}
	}
	return out
}

func (lp *lockProg) relative(lf *lockFn) bool {
	f := lf.f
	in := map[*ssa.BasicBlock]lockSet{f.Blocks[0]: {}}
	at := map[ssa.Instruction]lockSet{}
	defers := defersOf(f)
	work := []*ssa.BasicBlock{f.Blocks[0]}
	var exit lockSet
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		s := in[b].clone()
		for _, ins := range b.Instrs {
			at[ins] = s.clone()
			switch x := ins.(type) {
			case *ssa.Call:
				lp.callEffect(s, &x.Call)
			case *ssa.RunDefers:
				for i := len(defers) - 1; i >= 0; i-- {
					d := defers[i]
					if !d.Block().Dominates(b) {
						// may or may not be registered: only its releases count
						t := s.clone()
						lp.callEffect(t, &d.Call)
						for k := range s {
							if s[k] > 0 && t[k] < s[k] {
								delete(s, k)
							}
						}
						continue
					}
					at[d] = s.clone() // runs here
					lp.callEffect(s, &d.Call)
				}
			}
		}
		for _, t := range b.Succs {
			old, ok := in[t]
			n := s
			if ok {
				n = old.meet(s)
				if n.equal(old) {
					continue
				}
			}
			in[t] = n.clone()
			work = append(work, t)
		}
	}
	for _, b := range f.Blocks {
		if in[b] == nil || len(b.Instrs) == 0 {
			continue
		}
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			s := at[r]
			if exit == nil {
				exit = s.clone()
			} else {
				exit = exit.meet(s)
			}
		}
	}
	ch := lf.exit == nil && exit != nil || lf.exit != nil && !lf.exit.equal(exit)
	lf.at, lf.exit = at, exit
	return ch
}

// runsAtOnce: a function value passed as this argument is only called, and
// before the call returns.
func (lp *lockProg) runsAtOnce(c *ssa.CallCommon, arg int, depth int) bool {
	if c.IsInvoke() {
		ts := lp.targets(c)
		for _, t := range ts {
			if !lp.paramOnlyCalled(t.f, arg+1, depth) {
				return false
			}
		}
		return len(ts) > 0
	}
	f := c.StaticCallee()
	if f == nil {
		return false
	}
	if lf := lp.fns[f]; lf != nil {
		return lp.paramOnlyCalled(f, arg, depth)
	}
	if f.Pkg != nil {
		switch f.Pkg.Pkg.Path() {
		case "sort", "strings", "bytes", "slices", "maps":
			return true
		case "sync":
			return f.Name() == "Range" || f.Name() == "Do"
		}
	}
	return false
}

func (lp *lockProg) paramOnlyCalled(f *ssa.Function, i, depth int) bool {
	if depth > 3 || i >= len(f.Params) {
		return false
	}
	for _, r := range *f.Params[i].Referrers() {
		switch x := r.(type) {
		case *ssa.Call:
			if x.Call.Value == f.Params[i] {
				continue
			}
			for j, a := range x.Call.Args {
				if a == f.Params[i] && !lp.runsAtOnce(&x.Call, j, depth+1) {
					return false
				}
			}
		case *ssa.DebugRef, *ssa.BinOp, *ssa.If:
		default:
			return false
		}
	}
	return true
}

func (lp *lockProg) callers() {
	valueUse := func(v ssa.Value, lf *lockFn, ins ssa.Instruction, fn *lockFn) {
		// a function value: fine when the instruction is a call that runs it
		switch x := ins.(type) {
		case *ssa.Call:
			for j, a := range x.Call.Args {
				if a == v {
					if lp.runsAtOnce(&x.Call, j, 0) {
						fn.sites = append(fn.sites, lockSite{in: lf, ins: ins})
					} else {
						fn.root, fn.why = true, "passed on"
					}
				}
			}
		case *ssa.Defer:
			for _, a := range x.Call.Args {
				if a == v {
					fn.root, fn.why = true, "passed on"
				}
			}
		case *ssa.DebugRef:
		default:
			fn.root, fn.why = true, "stored"
		}
	}
	for _, lf := range lp.order {
		for _, b := range lf.f.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok {
					c := ci.Common()
					_, isGo := ins.(*ssa.Go)
					ts := lp.targets(c)
					if mc, ok := c.Value.(*ssa.MakeClosure); ok && len(ts) == 0 {
						if g := lp.fns[mc.Fn.(*ssa.Function)]; g != nil {
							ts = []*lockFn{g}
						}
					}
					for _, t := range ts {
						if isGo {
							t.root, t.why = true, "own goroutine"
							continue
						}
						args := c.Args
						if c.IsInvoke() {
							args = append([]ssa.Value{c.Value}, args...)
						}
						t.sites = append(t.sites, lockSite{in: lf, ins: ins, arg: args})
					}
				}
				for _, op := range ins.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					switch v := (*op).(type) {
					case *ssa.Function:
						fn := lp.fns[v]
						if fn == nil {
							continue
						}
						if ci, ok := ins.(ssa.CallInstruction); ok && ci.Common().Value == v {
							used := false
							for _, a := range ci.Common().Args {
								used = used || a == v
							}
							if !used {
								continue
							}
						}
						if mc, ok := ins.(*ssa.MakeClosure); ok {
							for _, r := range *mc.Referrers() {
								if ci, ok := r.(ssa.CallInstruction); ok && ci.Common().Value == mc {
									continue
								}
								valueUse(mc, lf, r, fn)
							}
							continue
						}
						valueUse(v, lf, ins, fn)
					}
				}
			}
		}
	}
}

func (lp *lockProg) entries() {
	for _, lf := range lp.order {
		if lf.root || len(lf.sites) == 0 && !lf.dead {
			lf.entry = lockSet{}
		}
		if lf.startup {
			lf.entry = lockSet{"*": lkW}
		}
	}
	for n := 0; n < 60; n++ {
		changed := false
		for _, lf := range lp.order {
			if lf.root || lf.startup || len(lf.sites) == 0 {
				continue
			}
			var e lockSet
			for _, s := range lf.sites {
				if s.in.entry == nil || s.in.at[s.ins] == nil {
					continue
				}
				h := s.in.at[s.ins].over(s.in.entry)
				if e == nil {
					e = h
				} else {
					e = e.meet(h)
				}
			}
			if e == nil {
				continue
			}
			if lf.entry == nil || !lf.entry.equal(e) {
				lf.entry = e
				changed = true
			}
		}
		if !changed {
			return
		}
	}
}

func (lp *lockProg) held(lf *lockFn, ins ssa.Instruction) lockSet {
	if lf.entry == nil || lf.at[ins] == nil {
		return nil // not reachable
	}
	return lf.at[ins].over(lf.entry)
}

// isFresh: the object was made by the running function (or handed over by
// callers that all made it), so nobody else can reach it yet.
func (lp *lockProg) isFresh(v ssa.Value) bool {
	switch lp.fresh[v] {
	case 1, 2:
		return true
	case 3:
		return false
	}
	lp.fresh[v] = 1
	ok := lp.fresh1(v)
	if ok {
		lp.fresh[v] = 2
	} else {
		lp.fresh[v] = 3
	}
	return ok
}

func (lp *lockProg) fresh1(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return lp.isFresh(x.X)
	case *ssa.IndexAddr:
		return lp.isFresh(x.X)
	case *ssa.MakeInterface:
		return lp.isFresh(x.X)
	case *ssa.ChangeType:
		return lp.isFresh(x.X)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !lp.isFresh(e) {
				return false
			}
		}
		return true
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return lp.freshResult(&c.Call, x.Index)
		}
	case *ssa.Call:
		return lp.freshResult(&x.Call, 0)
	case *ssa.Const:
		return x.IsNil()
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL && a.Referrers() != nil {
			// a local variable holding a fresh object
			for _, r := range *a.Referrers() {
				switch y := r.(type) {
				case *ssa.Store:
					if y.Addr == a && !lp.isFresh(y.Val) {
						return false
					}
				case *ssa.UnOp, *ssa.DebugRef, *ssa.MakeClosure, *ssa.FieldAddr:
				default:
					return false
				}
			}
			return true
		}
	case *ssa.Parameter:
		lf := lp.fns[x.Parent()]
		if lf == nil || lf.root || len(lf.sites) == 0 {
			return false
		}
		for i, p := range x.Parent().Params {
			if p != x {
				continue
			}
			for _, s := range lf.sites {
				if i >= len(s.arg) || !lp.isFresh(s.arg[i]) {
					return false
				}
			}
			return true
		}
	}
	return false
}

func (lp *lockProg) freshResult(c *ssa.CallCommon, i int) bool {
	f := c.StaticCallee()
	if f == nil || lp.fns[f] == nil {
		return false
	}
	n := 0
	for _, b := range f.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(r.Results) {
			n++
			if !lp.isFresh(r.Results[i]) {
				return false
			}
		}
	}
	return n > 0
}

type lockAccess struct {
	field string
	write bool
	lf    *lockFn
	ins   ssa.Instruction
	held  lockSet
}

func (a lockAccess) mode(l string) lockMode {
	if a.held["*"] != 0 {
		return lkW
	}
	return a.held[l]
}

// accesses: every access to a field of a struct of the repository, except to
// objects nobody else can reach.
func (lp *lockProg) accesses(want func(string) bool) []lockAccess {
	var out []lockAccess
	for _, lf := range lp.order {
		for _, b := range lf.f.Blocks {
			for _, ins := range b.Instrs {
				fa, ok := ins.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				k := fieldKey(fa.X, fa.Field)
				if k == "" || !want(k) || lp.isFresh(fa.X) {
					continue
				}
				lp.uses(lf, fa, k, &out)
			}
		}
	}
	return out
}

func (lp *lockProg) uses(lf *lockFn, v ssa.Value, k string, out *[]lockAccess) {
	if v.Referrers() == nil {
		return
	}
	add := func(ins ssa.Instruction, write bool) {
		h := lp.held(lf, ins)
		if h == nil {
			return
		}
		*out = append(*out, lockAccess{field: k, write: write, lf: lf, ins: ins, held: h})
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp:
			if x.Op != token.MUL {
				continue
			}
			add(x, false)
			switch x.Type().Underlying().(type) {
			case *types.Map, *types.Slice:
				lp.content(lf, x, add)
			}
		case *ssa.Store:
			if x.Addr == v {
				add(x, true)
			} else {
				add(x, false)
			}
		case *ssa.FieldAddr:
			lp.uses(lf, x, k, out)
		case *ssa.IndexAddr:
			lp.uses(lf, x, k, out)
		case ssa.CallInstruction:
			if f := x.Common().StaticCallee(); f != nil && f.Pkg != nil {
				switch f.Pkg.Pkg.Path() {
				case "sync/atomic", "sync":
					continue
				}
			}
			add(r, false)
		}
	}
}

func (lp *lockProg) content(lf *lockFn, m ssa.Value, add func(ssa.Instruction, bool)) {
	for _, r := range *m.Referrers() {
		switch x := r.(type) {
		case *ssa.MapUpdate:
			if x.Map == m {
				add(x, true)
			}
		case *ssa.Lookup:
			add(x, false)
		case *ssa.Range:
			add(x, false)
			for _, n := range *x.Referrers() {
				if nx, ok := n.(*ssa.Next); ok {
					add(nx, false)
				}
			}
		case *ssa.IndexAddr:
			for _, s := range *x.Referrers() {
				if st, ok := s.(*ssa.Store); ok && st.Addr == x {
					add(st, true)
				} else if _, ok := s.(*ssa.UnOp); ok {
					add(s, false)
				}
			}
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
				switch bi.Name() {
				case "delete", "clear":
					add(x, true)
				case "append":
				default:
					add(x, false)
				}
			}
		}
	}
}

// locksReport prints what could be a guard of what (for writing the table).
func locksReport(args []string) {
	root := "/repo"
	if r := os.Getenv("VC_REPO"); r != "" {
		root = r
	}
	p, err := load(root)
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	lp := newLockProg(p, lockStartup...)
	acc := lp.accesses(func(k string) bool {
		for _, a := range args {
			if strings.HasPrefix(k, a) {
				return true
			}
		}
		return len(args) == 0
	})
	type st struct{ w, r int }
	tot := map[string]*st{}
	by := map[string]map[string]*st{}
	bad := map[string]map[string][]string{}
	for _, a := range acc {
		if tot[a.field] == nil {
			tot[a.field], by[a.field], bad[a.field] = &st{}, map[string]*st{}, map[string][]string{}
		}
		if a.write {
			tot[a.field].w++
		} else {
			tot[a.field].r++
		}
		for l, m := range a.held {
			if l == "*" {
				if a.write {
					tot[a.field].w--
				} else {
					tot[a.field].r--
				}
				continue
			}
			if by[a.field][l] == nil {
				by[a.field][l] = &st{}
			}
			if a.write && m == lkW {
				by[a.field][l].w++
			} else if !a.write {
				by[a.field][l].r++
			}
		}
	}
	var fs []string
	for f := range tot {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	for _, f := range fs {
		if tot[f].w == 0 && os.Getenv("VC_RO") == "" || len(by[f]) == 0 {
			continue
		}
		var ls []string
		for l := range by[f] {
			ls = append(ls, l)
		}
		sort.Strings(ls)
		for _, l := range ls {
			b := by[f][l]
			if (b.w+b.r)*2 < tot[f].w+tot[f].r {
				continue
			}
			if os.Getenv("VC_FULL") != "" {
				if b.w == tot[f].w && b.r == tot[f].r {
					fmt.Println(l, f)
				}
				continue
			}
			fmt.Printf("%s  [%s]  w %d/%d r %d/%d\n", f, l, b.w, tot[f].w, b.r, tot[f].r)
			if b.w < tot[f].w || b.r < tot[f].r {
				for _, a := range acc {
					m := a.mode(l)
					if a.field == f && (a.write && m != lkW || m == 0) {
						fmt.Printf("      %s %s write=%v root=%v %s\n", p.pos(a.ins.Pos()), a.lf.f.Name(), a.write, a.lf.root, a.lf.why)
					}
				}
			}
		}
	}
}

func lockOrderReport() {
	root := "/repo"
	if r := os.Getenv("VC_REPO"); r != "" {
		root = r
	}
	p, err := load(root)
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	lp := newLockProg(p, lockStartup...)
	for _, lf := range lp.order {
		for r, m := range lp.leaks(lf) {
			for k, ins := range m {
				fmt.Println("LEAK", p.pos(ins.Pos()), lockFnName(lf.f), k, "return", p.pos(r.Pos()), "must", lf.exit[k], "root", lf.root || len(lf.sites) == 0)
			}
		}
	}
	es := lp.lockOrder()
	last := ""
	for _, e := range es {
		if s := e.from + " -> " + e.to; s != last {
			fmt.Println("EDGE", s, p.pos(e.ins.Pos()), e.via)
			last = s
		}
	}
	for _, c := range lockCycles(es) {
		fmt.Println("CYCLE", c)
	}
}
