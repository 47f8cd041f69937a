package main

import (
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// leaks: the locks that may still be held where a function returns, per return.
func (lp *lockProg) leaks(lf *lockFn) map[*ssa.Return]map[string]ssa.Instruction {
	f := lf.f
	type st map[string]ssa.Instruction // lock -> where it was taken
	in := map[*ssa.BasicBlock]st{f.Blocks[0]: {}}
	out := map[*ssa.Return]map[string]ssa.Instruction{}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	eff := func(s st, c *ssa.CallCommon, ins ssa.Instruction, deferred bool) {
		if k, op := lockOp(c); op != "" {
			if k == "" {
				return
			}
			switch op {
			case "Lock", "RLock":
				if !deferred {
					s[k] = ins
				}
			default:
				delete(s, k)
			}
			return
		}
		for _, t := range lp.targets(c) {
			for k, v := range t.exit {
				if v == lkGone {
					delete(s, k)
				} else if !deferred {
					s[k] = ins
				}
			}
		}
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			if g := lp.fns[mc.Fn.(*ssa.Function)]; g != nil {
				for k, v := range g.exit {
					if v == lkGone {
						delete(s, k)
					}
				}
			}
		}
	}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		s := st{}
		for k, v := range in[b] {
			s[k] = v
		}
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Call:
				eff(s, &x.Call, ins, false)
			case *ssa.Defer:
				eff(s, &x.Call, ins, true)
			case *ssa.RunDefers:
				for _, d := range defersOf(f) {
					if d.Block().Dominates(b) {
						eff(s, &d.Call, d, true)
					}
				}
			case *ssa.Return:
				out[x] = s
			}
		}
		for _, t := range b.Succs {
			n, ok := in[t]
			ch := !ok
			if !ok {
				n = st{}
			}
			for k, v := range s {
				if n[k] == nil {
					n[k] = v
					ch = true
				}
			}
			in[t] = n
			if ch {
				work = append(work, t)
			}
		}
	}
	return out
}

type lockEdge struct {
	from, to string
	in       *lockFn
	ins      ssa.Instruction
	via      string
}

// lockOrder: which lock is taken (directly or by a callee) while which is held.
func (lp *lockProg) lockOrder() []lockEdge {
	acq := map[*lockFn]map[string]bool{}
	for _, lf := range lp.order {
		acq[lf] = map[string]bool{}
	}
	for n := 0; n < 40; n++ {
		ch := false
		for _, lf := range lp.order {
			m := acq[lf]
			for _, b := range lf.f.Blocks {
				for _, ins := range b.Instrs {
					ci, ok := ins.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if _, ok := ins.(*ssa.Go); ok {
						continue
					}
					if k, op := lockOp(ci.Common()); op != "" {
						if (op == "Lock" || op == "RLock") && k != "" && !m[k] {
							m[k], ch = true, true
						}
						continue
					}
					leaf := strings.HasPrefix(lockFnName(lf.f), "common/db/xleveldb")
					for _, t := range lp.callees(ci.Common()) {
						for k := range acq[t] {
							if !m[k] && (!leaf || strings.HasPrefix(k, "common/db/xleveldb")) {
								m[k], ch = true, true
							}
						}
					}
				}
			}
		}
		if !ch {
			break
		}
	}
	var out []lockEdge
	for _, lf := range lp.order {
		for _, b := range lf.f.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if _, ok := ins.(*ssa.Go); ok {
					continue
				}
				held := lf.at[ins]
				for k1, m := range held {
					if m <= 0 {
						continue
					}
					if k, op := lockOp(ci.Common()); op != "" {
						if (op == "Lock" || op == "RLock") && k != "" {
							out = append(out, lockEdge{from: k1, to: k, in: lf, ins: ins})
						}
						continue
					}
					for _, t := range lp.callees(ci.Common()) {
						for k := range acq[t] {
							out = append(out, lockEdge{from: k1, to: k, in: lf, ins: ins, via: lockFnName(t.f)})
						}
					}
				}
			}
		}
	}
	sort.SliceStable(out, func(i, j int) bool {
		a, b := out[i], out[j]
		if a.from != b.from {
			return a.from < b.from
		}
		return a.to < b.to
	})
	return out
}

func (lp *lockProg) callees(c *ssa.CallCommon) []*lockFn {
	ts := lp.targets(c)
	if mc, ok := c.Value.(*ssa.MakeClosure); ok && len(ts) == 0 {
		if g := lp.fns[mc.Fn.(*ssa.Function)]; g != nil {
			ts = append(ts, g)
		}
	}
	for j, a := range c.Args {
		var fn *ssa.Function
		switch x := a.(type) {
		case *ssa.MakeClosure:
			fn = x.Fn.(*ssa.Function)
		case *ssa.Function:
			fn = x
		}
		if g := lp.fns[fn]; fn != nil && g != nil && lp.runsAtOnce(c, j, 0) {
			ts = append(ts, g)
		}
	}
	return ts
}

// lockCycles: the strongly connected parts of the lock order.
func lockCycles(es []lockEdge) [][]string {
	succ := map[string]map[string]bool{}
	for _, e := range es {
		if e.from == e.to {
			continue
		}
		if succ[e.from] == nil {
			succ[e.from] = map[string]bool{}
		}
		succ[e.from][e.to] = true
	}
	reach := func(a string) map[string]bool {
		seen := map[string]bool{}
		w := []string{a}
		for len(w) > 0 {
			x := w[0]
			w = w[1:]
			for y := range succ[x] {
				if !seen[y] {
					seen[y] = true
					w = append(w, y)
				}
			}
		}
		return seen
	}
	var ks []string
	for k := range succ {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	r := map[string]map[string]bool{}
	for _, k := range ks {
		r[k] = reach(k)
	}
	done := map[string]bool{}
	var out [][]string
	for _, a := range ks {
		if done[a] || !r[a][a] {
			continue
		}
		var c []string
		for _, b := range ks {
			if r[a][b] && r[b] != nil && r[b][a] {
				c = append(c, b)
				done[b] = true
			}
		}
		out = append(out, c)
	}
	return out
}
