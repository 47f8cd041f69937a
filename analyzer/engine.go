package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The engine is a path-partitioned abstract interpreter over SSA: abstract
// states carry value-numbered terms, an access-path memory, the branch facts
// that must hold, and the ordered events seen. Loops are widened (header phis
// and written memory become opaque), joins merge states that differ by one
// complementary fact. No path is handed to a solver and nothing is executed.

type Event struct {
	Kind   string // call, store, mapset, mapdel, send, go, loop, copy, panic, close
	Name   string
	Fn     *ssa.Function
	Args   []*Term
	Res    *Term
	Pos    token.Pos
	Facts  Facts
	In     *ssa.Function // function containing the construct
	Loop   *LoopInfo
	St     *State // state just before (for memory queries)
	Defer  bool
	Site   ssa.Instruction
	InLoop bool
}

type evList struct {
	prev *evList
	ev   *Event
	n    int
}

type LoopInfo struct {
	Fn    *ssa.Function
	Head  *ssa.BasicBlock
	Phis  []PhiInfo
	Iters []*State // states at back edges (facts, events since the loop node)
	Pos   token.Pos
	Range *Term     // map/string being ranged, if any
	Cells []PhiInfo // memory cells changed by the loop
}
type PhiInfo struct {
	Addr       *Term // for a memory cell
	Init, Iter *Term
	Next       []*Term
}

type State struct {
	env    []*Term
	fi     *FnInfo
	mem    map[*Term]*Term
	memSh  bool
	facts  Facts
	ev     *evList
	defers []*dcall
	outer  *frame // the callers' values
	seq    map[*Term]int
	seqSh  bool
}

// frame: what the callers of an inlined function still hold.
type frame struct {
	env    []*Term
	defers []*dcall
	up     *frame
}

type dcall struct {
	call  *ssa.CallCommon
	args  []*Term
	fnv   *Term
	site  ssa.Instruction
	instr *ssa.Defer
}

type Outcome struct {
	st    *State
	res   []*Term
	panic bool
	pos   token.Pos
}

type Engine struct {
	p         *Prog
	inline    func(f *ssa.Function) bool // extra inline policy
	opaque    func(name string, f *ssa.Function) bool
	home      map[string]bool // package rels whose functions are inlined
	maxDepth  int
	stack     []*ssa.Function
	steps     int
	budget    int
	inlined   map[*ssa.Function]bool
	opaqueN   map[string]int
	err       error
	autoMax   int
	maxStates int
	devirt    map[string]string // interface method "pkg.I.M" -> type name filter
	noEvents  func(name string) bool
	paramBind map[int]*Term
	inLoop    int
	lossy     int
	collapse  bool
	outVals   bool // results through pointers as values (p_sig.go)
	modParams bool // objects behind parameters change when handed to repository code that writes them: loads give after(call, old)
	unroll    int  // rounds of exact loop execution before widening (0: none)
}

func newEngine(p *Prog, home ...string) *Engine {
	e := &Engine{p: p, home: map[string]bool{}, maxDepth: 18, budget: 400000, inlined: map[*ssa.Function]bool{}, opaqueN: map[string]int{}, autoMax: 60, maxStates: 512}
	for _, h := range home {
		e.home[h] = true
	}
	return e
}

func (s *State) clone() *State {
	n := *s
	n.env = append([]*Term(nil), s.env...)
	s.memSh, n.memSh = true, true
	s.seqSh, n.seqSh = true, true
	n.defers = s.defers[:len(s.defers):len(s.defers)]
	return &n
}

func (s *State) setMem(a, v *Term) {
	if s.memSh {
		m := make(map[*Term]*Term, len(s.mem)+4)
		for k, x := range s.mem {
			m[k] = x
		}
		s.mem, s.memSh = m, false
	}
	if v == nil {
		delete(s.mem, a)
	} else {
		s.mem[a] = v
	}
}

func (s *State) bumpSeq(r *Term) {
	m := make(map[*Term]int, len(s.seq)+1)
	for k, x := range s.seq {
		m[k] = x
	}
	m[r]++
	s.seq, s.seqSh = m, false
}

func (s *State) push(ev *Event) {
	n := 1
	if s.ev != nil {
		n = s.ev.n + 1
	}
	ev.Facts = s.facts
	s.ev = &evList{s.ev, ev, n}
}

// Events returns the events in order.
func (s *State) Events() []*Event { return s.ev.slice(nil) }

func (l *evList) slice(stop *evList) []*Event {
	var out []*Event
	for x := l; x != nil && x != stop; x = x.prev {
		out = append(out, x.ev)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (e *Engine) fail(f string, a ...interface{}) {
	if e.err == nil {
		e.err = fmt.Errorf(f, a...)
	}
}

// Run analyses fn from an unconstrained entry state.
func (e *Engine) Run(fn *ssa.Function, pre ...*Term) ([]Outcome, error) {
	if fn == nil || len(fn.Blocks) == 0 {
		return nil, fmt.Errorf("function not found or without body")
	}
	e.err = nil
	e.steps = 0
	st := &State{mem: map[*Term]*Term{}, seq: map[*Term]int{}}
	var args []*Term
	for i, p := range fn.Params {
		t := e.paramBind[i]
		if t == nil {
			t = mk("param", itoa(i), p.Type())
		}
		args = append(args, t)
	}
	var free []*Term
	for _, fv := range fn.FreeVars {
		free = append(free, mk("free", fv.Name(), fv.Type()))
	}
	for _, c := range pre {
		st.facts, _ = st.facts.add(c, true)
	}
	outs := e.runFunc(fn, args, free, st, "")
	return outs, e.err
}

func (e *Engine) runFunc(fn *ssa.Function, args, free []*Term, st *State, ctx string) []Outcome {
	e.inlined[fn] = true
	fi := infoOf(fn)
	if fi.bad != "" {
		e.fail("%s: %s", fnName(fn), fi.bad)
		return nil
	}
	e.stack = append(e.stack, fn)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	s := st.clone()
	callerEnv, callerFi, callerDef, callerUp := st.env, st.fi, st.defers, st.outer
	s.outer = &frame{callerEnv, callerDef, callerUp}
	s.env = make([]*Term, len(fi.idx))
	s.fi = fi
	s.defers = nil
	for i, p := range fn.Params {
		if i < len(args) {
			s.env[fi.idx[p]] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(free) {
			s.env[fi.idx[p]] = free[i]
		}
	}
	_, outs, _ := e.region(fi, nil, map[*ssa.BasicBlock][]*State{fn.Blocks[0]: {s}}, ctx)
	for i := range outs {
		o := outs[i].st
		o.env = append([]*Term(nil), callerEnv...)
		o.fi = callerFi
		o.defers = callerDef
		o.outer = callerUp
	}
	// exact merge of equal outcomes
	return e.mergeOuts(outs)
}

func (e *Engine) mergeOuts(outs []Outcome) []Outcome {
	if len(outs) < 2 {
		return outs
	}
	groups := map[string][]Outcome{}
	var keys []string
	for _, o := range outs {
		k := fmt.Sprintf("%v", o.panic)
		for _, r := range o.res {
			k += "," + itoa(r.ID)
		}
		if o.panic {
			k += fmt.Sprint(o.pos)
		}
		if _, ok := groups[k]; !ok {
			keys = append(keys, k)
		}
		groups[k] = append(groups[k], o)
	}
	var res []Outcome
	for _, k := range keys {
		g := groups[k]
		var sts []*State
		for _, o := range g {
			sts = append(sts, o.st)
		}
		for _, s := range e.mergeStates(sts, nil, g[0].res) {
			res = append(res, Outcome{st: s, res: g[0].res, panic: g[0].panic, pos: g[0].pos})
		}
	}
	return res
}

// region explores the blocks of loop lp (nil: whole function) in reverse
// postorder; back edges to lp.head stop.
func (e *Engine) region(fi *FnInfo, lp *Loop, pend map[*ssa.BasicBlock][]*State, ctx string) (exits map[*ssa.BasicBlock][]*State, outs []Outcome, backs []*State) {
	exits = map[*ssa.BasicBlock][]*State{}
	// route sends a state over the edge from->to (phis already assigned)
	route := func(to *ssa.BasicBlock, s *State) {
		if lp != nil {
			if to == lp.head {
				backs = append(backs, s)
				return
			}
			if !lp.blocks[to] {
				exits[to] = append(exits[to], s)
				return
			}
		}
		pend[to] = append(pend[to], s)
	}
	started := false
	for _, b := range fi.rpo {
		if lp != nil && !lp.blocks[b] {
			continue
		}
		sts := pend[b]
		if len(sts) == 0 {
			continue
		}
		delete(pend, b)
		if in := fi.loops[b]; in != nil && in != lp || in != nil && in == lp && started {
			if in == lp {
				continue
			}
			sts = e.mergeStates(sts, fi.live[b], nil)
			for _, s := range sts {
				ex, o := e.loop(fi, in, s, ctx)
				outs = append(outs, o...)
				for to, l := range ex {
					for _, x := range l {
						route(to, x)
					}
				}
			}
			started = true
			continue
		}
		started = true
		sts = e.mergeStates(sts, fi.live[b], nil)
		for _, s := range sts {
			e.steps++
			if e.steps > e.budget {
				e.fail("state budget exceeded in %s", fnName(fi.fn))
				return
			}
			e.block(fi, b, 0, s, ctx, route, &outs)
			if e.err != nil {
				return
			}
		}
	}
	return
}

func (e *Engine) loop(fi *FnInfo, lp *Loop, entry *State, ctx string) (map[*ssa.BasicBlock][]*State, []Outcome) {
	var phis []*ssa.Phi
	for _, in := range lp.head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
	}
	if e.unroll > 0 {
		if ex, outs, ok := e.unrolled(fi, lp, entry, ctx); ok || e.err != nil {
			return ex, outs
		}
	}
	tag := ctx + "L" + fnName(fi.fn) + "." + itoa(lp.head.Index)
	havoc := map[*Term]bool{}
	swept := map[*Term]*Term{} // arrays written element by element
	stale := map[*Term]bool{}  // receivers whose state the loop may change
	e.inLoop++
	defer func() { e.inLoop-- }()
	for pass := 0; ; pass++ {
		s := entry.clone()
		info := &LoopInfo{Fn: fi.fn, Head: lp.head, Pos: lp.head.Instrs[0].Pos()}
		for k, ph := range phis {
			it := mk("iter", tag+"."+itoa(k), ph.Type())
			ini := entry.env[fi.idx[ph]]
			info.Phis = append(info.Phis, PhiInfo{Init: ini, Iter: it})
			if n, ok := i64(ini); ok && n == -1 && isIntType(ph.Type()) && fi.stepsByOne(ph, lp) {
				// "for i := range": number the iterations from 0
				s.env[fi.idx[ph]] = mkBin(token.SUB, it, kInt(1), ph.Type())
			} else {
				s.env[fi.idx[ph]] = it
			}
		}
		var hs []*Term
		for a := range havoc {
			hs = append(hs, a)
		}
		sort.Slice(hs, func(i, j int) bool { return hs[i].ID < hs[j].ID })
		for _, a := range hs {
			m := mk("iterm", tag, addrElem(a), a)
			info.Cells = append(info.Cells, PhiInfo{Addr: a, Init: entry.load(a), Iter: m})
			s.setMem(a, m)
		}
		for r := range stale {
			s.bumpSeq(r)
		}
		for k, it := range swept {
			if old, ok := s.mem[k]; ok && old != it {
				it = mk("mixed", "", nil) // written by an earlier loop as well
			}
			s.setMem(k, it)
		}
		s.push(&Event{Kind: "loop", Loop: info, In: fi.fn, Pos: info.Pos})
		base := s.clone() // region changes s
		ex, outs, backs := e.region(fi, lp, map[*ssa.BasicBlock][]*State{lp.head: {s}}, ctx)
		if e.err != nil {
			return nil, nil
		}
		grew := false
		for _, b := range backs {
			for r, n := range b.seq {
				if n > base.seq[r] && !stale[r] {
					stale[r] = true
					grew = true
				}
			}
			for a, v := range b.mem {
				if a.Op == "allocd" || a.Op == "loopw" || havoc[a] {
					continue
				}
				if ov, ok := base.mem[a]; ok && ov == v {
					continue
				}
				own := false
				for _, ph := range info.Phis {
					if isIntType(ph.Iter.Typ) && a.has(ph.Iter) {
						own = true // cell of the current index: not written by earlier iterations
						for x := a; x.Op == "fa" || x.Op == "ia"; x = x.Args[0] {
							if x.Op == "ia" && x.Args[1].has(ph.Iter) {
								if k := mk("loopw", "", nil, x.Args[0]); swept[k] == nil {
									swept[k] = ph.Iter
									grew = true
								}
							}
						}
					}
				}
				if own {
					continue
				}
				r := a.root()
				if r.Op == "alloc" || r.Op == "mkslice" || r.Op == "mkmap" {
					if _, ok := base.mem[mk("allocd", "", nil, r)]; !ok {
						continue
					}
				}
				havoc[a] = true
				grew = true
			}
		}
		if grew && pass < 6 {
			continue
		}
		for _, b := range backs {
			for k := range phis {
				info.Phis[k].Next = append(info.Phis[k].Next, b.env[fi.idx[phis[k]]])
			}
			for k := range info.Cells {
				info.Cells[k].Next = append(info.Cells[k].Next, b.mem[info.Cells[k].Addr])
			}
			info.Iters = append(info.Iters, b)
		}
		return ex, outs
	}
}

// unrolled executes a loop whose trip count is fixed by constants; it reports
// failure when the loop does not end within e.unroll rounds or splits.
func (e *Engine) unrolled(fi *FnInfo, lp *Loop, entry *State, ctx string) (map[*ssa.BasicBlock][]*State, []Outcome, bool) {
	exits := map[*ssa.BasicBlock][]*State{}
	var outs []Outcome
	cur := []*State{entry.clone()}
	steps := e.steps
	for n := 0; n < e.unroll; n++ {
		ex, o, backs := e.region(fi, lp, map[*ssa.BasicBlock][]*State{lp.head: cur}, ctx+"u"+itoa(n)+"/")
		if e.err != nil {
			return nil, nil, false
		}
		for b, l := range ex {
			exits[b] = append(exits[b], l...)
		}
		outs = append(outs, o...)
		if len(backs) == 0 {
			return exits, outs, true
		}
		if len(backs) > 4 || len(ex) > 0 {
			break
		}
		cur = backs
	}
	e.steps = steps
	return nil, nil, false
}

func addrElem(a *Term) types.Type {
	if a.Typ == nil {
		return nil
	}
	if p, ok := a.Typ.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

// mergeStates performs exact merging: equal live environment, memory and
// events, facts differing in one complementary literal (or equal).
func (e *Engine) mergeStates(sts []*State, live []int, res []*Term) []*State {
	if len(sts) < 2 {
		return sts
	}
	groups := map[string][]*State{}
	var keys []string
	for _, s := range sts {
		if live != nil {
			keep := map[int]bool{}
			for _, v := range live {
				keep[v] = true
			}
			for i := range s.env {
				if !keep[i] {
					s.env[i] = nil
				}
			}
		}
		k := e.stateKey(s, live, res)
		if _, ok := groups[k]; !ok {
			keys = append(keys, k)
		}
		groups[k] = append(groups[k], s)
	}
	var out []*State
	for _, k := range keys {
		g := groups[k]
		g = mergeFacts(g)
		if len(g) > e.maxStates {
			// lossy: intersect facts
			e.lossy++
			base := g[0]
			for _, o := range g[1:] {
				base.facts = intersect(base.facts, o.facts)
			}
			g = []*State{base}
		}
		out = append(out, g...)
	}
	return out
}

func intersect(a, b Facts) Facts {
	var r Facts
	for _, f := range a {
		m := f.Mask | b.direct(f.A, f.B)
		if m != ALL {
			r = append(r, Fact{f.A, f.B, m})
		}
	}
	return r
}

func mergeFacts(g []*State) []*State {
	for changed := true; changed; {
		changed = false
	outer:
		for i := 0; i < len(g); i++ {
			for j := i + 1; j < len(g); j++ {
				if f, ok := mergeTwo(g[i].facts, g[j].facts); ok {
					g[i].facts = f
					g = append(g[:j:j], g[j+1:]...)
					changed = true
					break outer
				}
			}
		}
		if len(g) > 600 {
			break
		}
	}
	return g
}

// normFacts combines masks per pair.
func normFacts(fs Facts) map[[2]*Term]int {
	m := map[[2]*Term]int{}
	for _, f := range fs {
		k := [2]*Term{f.A, f.B}
		if o, ok := m[k]; ok {
			m[k] = o & f.Mask
		} else {
			m[k] = f.Mask
		}
	}
	return m
}

func mergeTwo(a, b Facts) (Facts, bool) {
	na, nb := normFacts(a), normFacts(b)
	if len(na)-len(nb) > 1 || len(nb)-len(na) > 1 {
		// a could still be implied by b: subset test
	}
	var diff [][2]*Term
	for k, m := range na {
		if o, ok := nb[k]; !ok || o != m {
			diff = append(diff, k)
		}
	}
	for k := range nb {
		if _, ok := na[k]; !ok {
			diff = append(diff, k)
		}
	}
	if len(diff) == 0 {
		return a, true
	}
	// subsumption: every fact of a is implied by b -> a is weaker, keep a
	if len(diff) > 1 {
		sub := func(x, y map[[2]*Term]int) bool {
			for k, m := range x {
				o, ok := y[k]
				if !ok || o&^m != 0 {
					return false
				}
			}
			return true
		}
		if sub(na, nb) {
			return a, true
		}
		if sub(nb, na) {
			return b, true
		}
		return nil, false
	}
	k := diff[0]
	ma, ok1 := na[k]
	mb, ok2 := nb[k]
	if !ok1 {
		ma = ALL
	}
	if !ok2 {
		mb = ALL
	}
	m := ma | mb
	var out Facts
	done := false
	for _, f := range a {
		if f.A == k[0] && f.B == k[1] {
			if !done && m != ALL {
				out = append(out, Fact{f.A, f.B, m})
			}
			done = true
			continue
		}
		out = append(out, f)
	}
	return out, true
}

func (e *Engine) stateKey(s *State, live []int, res []*Term) string {
	var b strings.Builder
	roots := map[*Term]bool{}
	for _, r := range res {
		roots[r] = true
	}
	if live != nil {
		for _, v := range live {
			if t := s.env[v]; t != nil {
				b.WriteString(itoa(t.ID))
				roots[t] = true
			}
			b.WriteByte(',')
		}
	}
	fmt.Fprintf(&b, "|%p|%d|", s.ev, len(s.defers))
	for _, d := range s.defers {
		fmt.Fprintf(&b, "%p", d.instr)
	}
	// memory: ignore cells of local objects that are unreachable from live values
	reach := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if reach[t] {
			return
		}
		reach[t] = true
		for _, a := range t.Args {
			walk(a)
		}
	}
	for r := range roots {
		walk(r)
	}
	held := func(ds []*dcall) {
		for _, d := range ds {
			for _, a := range d.args {
				walk(a)
			}
			if d.fnv != nil {
				walk(d.fnv)
			}
		}
	}
	held(s.defers)
	if live != nil {
		for f := s.outer; f != nil; f = f.up {
			held(f.defers)
			for _, t := range f.env {
				if t != nil {
					walk(t)
				}
			}
		}
	}
	if live == nil {
		// at function return the caller's environment may hold anything
		for a := range s.mem {
			walk(a)
		}
	}
	for grow := true; grow; {
		grow = false
		for a, v := range s.mem {
			if a.Op == "allocd" {
				continue
			}
			r := a.root()
			local := r.Op == "alloc" || r.Op == "mkslice" || r.Op == "mkmap"
			if (!local || reach[r]) && !reach[v] {
				walk(v)
				grow = true
			}
		}
	}
	var cells []string
	for a, v := range s.mem {
		if a.Op == "allocd" {
			continue
		}
		r := a.root()
		local := r.Op == "alloc" || r.Op == "mkslice" || r.Op == "mkmap"
		if local && !reach[r] {
			continue
		}
		cells = append(cells, itoa(a.ID)+"="+itoa(v.ID))
	}
	sort.Strings(cells)
	b.WriteString(strings.Join(cells, ";"))
	return b.String()
}

func (e *Engine) transition(fi *FnInfo, from, to *ssa.BasicBlock, s *State) *State {
	pi := -1
	for k, p := range to.Preds {
		if p == from {
			pi = k
			break
		}
	}
	var vals []*Term
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, e.val(s, ph.Edges[pi]))
	}
	for i, ph := range phis {
		s.env[fi.idx[ph]] = vals[i]
	}
	return s
}

func (e *Engine) block(fi *FnInfo, b *ssa.BasicBlock, from int, s *State, ctx string, route func(*ssa.BasicBlock, *State), outs *[]Outcome) {
	for k := from; k < len(b.Instrs); k++ {
		in := b.Instrs[k]
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := e.val(s, x.Cond)
			e.branch(fi, b, c, s, route)
			return
		case *ssa.Jump:
			route(b.Succs[0], e.transition(fi, b, b.Succs[0], s))
			return
		case *ssa.Return:
			var res []*Term
			for _, r := range x.Results {
				res = append(res, e.val(s, r))
			}
			*outs = append(*outs, Outcome{st: s, res: res, pos: x.Pos()})
			return
		case *ssa.Panic:
			s.push(&Event{Kind: "panic", Args: []*Term{e.val(s, x.X)}, Pos: x.Pos(), In: fi.fn, Site: x})
			*outs = append(*outs, Outcome{st: s, panic: true, pos: x.Pos(), res: []*Term{e.val(s, x.X)}})
			return
		case *ssa.FieldAddr:
			if v := e.val(s, x.X); isNilT(v) {
				// nil dereference
				s.push(&Event{Kind: "panic", Args: []*Term{v}, Pos: x.Pos(), In: fi.fn, Site: x})
				*outs = append(*outs, Outcome{st: s, panic: true, pos: x.Pos(), res: []*Term{v}})
				return
			}
			e.instr(s, in, ctx)
		case *ssa.MapUpdate:
			if v := e.val(s, x.Map); isNilT(v) || s.facts.possible(v, kNil()) == EQ {
				// assignment to an entry of a nil map
				s.push(&Event{Kind: "panic", Args: []*Term{v}, Pos: x.Pos(), In: fi.fn, Site: x})
				*outs = append(*outs, Outcome{st: s, panic: true, pos: x.Pos(), res: []*Term{v}})
				return
			}
			e.instr(s, in, ctx)
		case *ssa.RunDefers:
			if len(s.defers) > 0 {
				ds := s.defers
				s.defers = nil
				cur := []*State{s}
				for i := len(ds) - 1; i >= 0; i-- {
					var nxt []*State
					for _, c := range cur {
						for _, o := range e.doCall(c, ds[i].call, ds[i].fnv, ds[i].args, ds[i].site, ctx, true) {
							if !o.panic {
								nxt = append(nxt, o.st)
							}
						}
					}
					cur = nxt
				}
				for _, c := range cur {
					e.block(fi, b, k+1, c, ctx, route, outs)
				}
				return
			}
		case *ssa.Call:
			fnv, args := e.callArgs(s, &x.Call)
			rs := e.doCall(s, &x.Call, fnv, args, x, ctx, false)
			if e.err != nil {
				return
			}
			if len(rs) == 1 && !rs[0].panic {
				s = rs[0].st
				s.env[fi.idx[x]] = tupleOf(rs[0].res)
				continue
			}
			for _, r := range rs {
				if r.panic {
					*outs = append(*outs, r)
					continue
				}
				r.st.env[fi.idx[x]] = tupleOf(r.res)
				e.block(fi, b, k+1, r.st, ctx, route, outs)
				if e.err != nil {
					return
				}
			}
			return
		default:
			e.instr(s, in, ctx)
			if e.err != nil {
				return
			}
		}
	}
}

func (e *Engine) branch(fi *FnInfo, b *ssa.BasicBlock, c *Term, s *State, route func(*ssa.BasicBlock, *State)) {
	switch s.facts.decide(c) {
	case 1:
		route(b.Succs[0], e.transition(fi, b, b.Succs[0], s))
		return
	case 0:
		route(b.Succs[1], e.transition(fi, b, b.Succs[1], s))
		return
	}
	s2 := s.clone()
	var ok bool
	if s.facts, ok = s.facts.add(c, true); ok {
		route(b.Succs[0], e.transition(fi, b, b.Succs[0], s))
	}
	if s2.facts, ok = s2.facts.add(c, false); ok {
		route(b.Succs[1], e.transition2(fi, b, b.Succs[1], s2))
	}
}

// transition2 is transition for the false edge (both successors may be the
// same block: use the second predecessor slot then).
func (e *Engine) transition2(fi *FnInfo, from, to *ssa.BasicBlock, s *State) *State {
	if from.Succs[0] == from.Succs[1] {
		n := 0
		pi := -1
		for k, p := range to.Preds {
			if p == from {
				n++
				if n == 2 {
					pi = k
				}
			}
		}
		if pi >= 0 {
			var vals []*Term
			var phis []*ssa.Phi
			for _, in := range to.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				phis = append(phis, ph)
				vals = append(vals, e.val(s, ph.Edges[pi]))
			}
			for i, ph := range phis {
				s.env[fi.idx[ph]] = vals[i]
			}
			return s
		}
	}
	return e.transition(fi, from, to, s)
}

func tupleOf(res []*Term) *Term {
	switch len(res) {
	case 0:
		return mk("unit", "", nil)
	case 1:
		return res[0]
	}
	return mk("tuple", "", nil, res...)
}

func (e *Engine) callArgs(s *State, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	var fnv *Term
	if c.IsInvoke() {
		args = append(args, e.val(s, c.Value))
	} else {
		fnv = e.val(s, c.Value)
	}
	for _, a := range c.Args {
		args = append(args, e.val(s, a))
	}
	return fnv, args
}

var debugEngine = os.Getenv("VC_DEBUG") != ""
