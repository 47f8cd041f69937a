package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const vmPkg = "vm"

// vmOp is one entry of an instruction set.
type vmOp struct {
	set                   string
	code                  int
	name                  string
	off                   bool // off-chain set
	exec, gas, valid, mem *Term
	flags                 map[string]bool
	st                    *State // state of the table builder (captured variables of closures)
}

func (o *vmOp) String() string { return o.set + "/" + o.name }

// setInit resolves the function that builds the table stored in v.
func tableBuilder(p *Prog, v ssa.Value, d int) *ssa.Function {
	if d > 6 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Call:
		return x.Call.StaticCallee()
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok {
			return tableBuilder(p, initOf(p, g), d+1)
		}
	}
	return nil
}

// initOf returns the value the package initializer stores into g.
func initOf(p *Prog, g *ssa.Global) ssa.Value {
	f := g.Pkg.Func("init")
	if f == nil {
		return nil
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && st.Addr == g {
				return st.Val
			}
		}
	}
	return nil
}

// vmTables evaluates the instruction sets reachable from interpreter selection.
func vmTables(c *Ctx) []*vmOp {
	names := map[int]string{}
	sp := c.P.SPkg[vmPkg]
	if sp == nil {
		c.Ob(false, "instruction-sets", vmPkg, "", "package not found")
		return nil
	}
	for _, m := range sp.Members {
		if k, ok := m.(*ssa.NamedConst); ok {
			if n, ok := k.Type().(*types.Named); ok && n.Obj().Name() == "opCode" {
				v, _ := constant.Int64Val(k.Value.Value)
				names[int(v)] = k.Name()
			}
		}
	}
	fn := c.Func(vmPkg, "newInterpreter")
	if fn == nil {
		return nil
	}
	e := c.Opts([]string{vmPkg}, "IsEarthUpgrade", "IsSeedUpgrade")
	var ops []*vmOp
	seen := map[string]bool{}
	for _, p := range c.all(c.Paths(e, fn)) {
		off := p.Holds("A1")
		set := "simple"
		if p.Holds("IsEarthUpgrade(A0)") {
			set = "earth"
		} else if p.Holds("IsSeedUpgrade(A0)") {
			set = "rand"
		}
		if off {
			set = "offchain-" + set
		}
		g := p.o.res[0]
		if !c.Ob(g.Op == "global", "instruction-sets", set, p.where(), "the interpreter chosen for %s is not a known instruction set: %v", set, g) {
			continue
		}
		if seen[set] {
			continue
		}
		seen[set] = true
		gl, _ := sp.Members[baseName(g.Sym)].(*ssa.Global)
		var builder *ssa.Function
		if gl != nil {
			if al, ok := initOf(c.P, gl).(*ssa.Alloc); ok {
				for _, r := range *al.Referrers() {
					if fa, ok := r.(*ssa.FieldAddr); ok {
						for _, r2 := range *fa.Referrers() {
							if st, ok := r2.(*ssa.Store); ok {
								builder = tableBuilder(c.P, st.Val, 0)
							}
						}
					}
				}
			}
		}
		if !c.Ob(builder != nil, "instruction-sets", set, p.where(), "cannot resolve the table of %v", g) {
			continue
		}
		e2 := c.Opts([]string{vmPkg})
		outs := c.Paths(e2, builder)
		if !c.Ob(len(outs) == 1, "instruction-sets", set, "", "the table builder has %d outcomes", len(outs)) {
			continue
		}
		tab := outs[0].res[0]
		for i := 0; i < 256; i++ {
			ent := elemOf(tab, kInt(int64(i)), nil)
			if ent.Op == "zero" || ent.Op != "upd" {
				if ent.Op != "upd" && !(ent.Op == "zero") && !isNilT(ent) {
					c.Ob(false, "instruction-sets", set, "", "entry %d of the table is not resolved: %v", i, ent)
				}
				continue
			}
			op := &vmOp{set: set, code: i, name: names[i], off: off, flags: map[string]bool{}, st: outs[0].st}
			if i == 0xfd {
				op.name = "REVERT"
			}
			if op.name == "" {
				op.name = "0x" + strconv.FormatInt(int64(i), 16)
			}
			for t := ent; t.Op == "upd"; t = t.Args[0] {
				v := t.Args[1]
				switch t.Sym {
				case "execute":
					op.exec = v
				case "gasCost":
					op.gas = v
				case "validateStack":
					op.valid = v
				case "memorySize":
					op.mem = v
				default:
					op.flags[t.Sym] = isTrueT(v)
				}
			}
			if op.flags["valid"] {
				ops = append(ops, op)
			}
		}
	}
	sort.Slice(ops, func(i, j int) bool {
		if ops[i].set != ops[j].set {
			return ops[i].set < ops[j].set
		}
		return ops[i].code < ops[j].code
	})
	return ops
}

// callTerm runs the function value f on fresh parameters from state st.
func (e *Engine) callTerm(st *State, f *Term, pre ...*Term) ([]Outcome, error) {
	fn := funcByTerm[f]
	if fn == nil {
		return nil, fmt.Errorf("unresolved function value %v", f)
	}
	e.err = nil
	e.steps = 0
	s := st.clone()
	s.ev = nil
	s.facts = nil
	var free []*Term
	if f.Op == "closure" {
		free = f.Args
	}
	var args []*Term
	for i, p := range fn.Params {
		args = append(args, mk("param", itoa(i), p.Type()))
	}
	for _, c := range pre {
		s.facts, _ = s.facts.add(c, true)
	}
	outs := e.runFunc(fn, args, free, s, "")
	return outs, e.err
}

// final stack of a path: number of entries popped from the initial stack and
// the entries pushed on top of them.
func finalStack(t *Term, data *Term) (k int64, pushed []*Term, ok bool) {
	for t.Op == "append" {
		pushed = append([]*Term{t.Args[1]}, pushed...)
		if len(t.Args) != 2 {
			return 0, nil, false
		}
		t = t.Args[0]
	}
	if t.Op == "slice" && t.Args[0] == data && isNilT(t.Args[1]) {
		n, ok := depthOf(t.Args[2], data)
		return n, pushed, ok
	}
	return 0, pushed, t == data
}

// depthOf: t == len(data)-n
func depthOf(t, data *Term) (int64, bool) {
	l := mk("len", "", types.Typ[types.Int], data)
	d := mkBin(token.SUB, l, t, types.Typ[types.Int])
	return i64(d)
}

func vmDebugOps(p *Prog, filter string) {
	c := &Ctx{P: p, count: map[string]int{}, seen: map[string]bool{}, fns: map[*ssa.Function]bool{}, Prop: &Prop{ID: "X"}}
	for _, op := range vmTables(c) {
		if !strings.HasPrefix(op.String(), filter) {
			continue
		}
		e := opEngine(c)
		outs, err := e.callTerm(op.st, op.exec)
		fmt.Println("==", op, err, len(outs))
		for _, o := range outs {
			s := o.st
			cur := s.load(mkFA(mk("param", "4", funcByTerm[op.exec].Params[4].Type()), "data", nil2))
			k, pu, ok := finalStack(cur, stackDataOf(op))
			fmt.Println("  facts", o.st.facts, "ret", o.res, "pop", k, ok)
			for _, x := range pu {
				fmt.Println("     push", x, "=", s.big(x))
			}
			for _, ev := range o.st.Events() {
				if ev.Kind == "bigset" {
					fmt.Println("     set", ev.Args[0], "=", s.big(ev.Args[0]))
				} else if ev.Kind != "store" && ev.Kind != "append" {
					fmt.Println("     ", ev.Kind, ev.Name, ev.Args)
				}
			}
		}
	}
	for _, o := range c.obs {
		if !o.OK {
			fmt.Println("FAIL", o.Rule, o.Construct, o.Detail)
		}
	}
}

func stackDataOf(op *vmOp) *Term {
	ps := funcByTerm[op.exec].Params
	return cell(mkFA(mk("param", "4", ps[4].Type()), "data", nil2))
}

func opEngine(c *Ctx) *Engine {
	e := c.Opts([]string{vmPkg, "common/helper"}, "memory.get", "memory.getPtr", "memory.set", "memory.set32", "helper.Exp", "helper.Byte", "helper.GetDataBig", "helper.RightPadBytes",
		"destinations.has", "contract.getOp", "VM.delegateCall", "VM.AppendBlock", "MakeRequestBlock", "ComputeSendBlockHash", "GetContractCode", "GetValue", "SetValue", "BigToHash", "BigToAddress", "BigToTokenTypeId", "IntPool.Get", "IntPool.GetZero", "IntPool.Put", "DealWithErr", "memoryGasCost", "memory.len", "GetContractABI")
	e.unroll = 40
	return e
}

type partRes struct {
	outs []Outcome
	err  error
}

var partMemo = map[*Term]partRes{}

// runPart interprets a handler; plain functions are shared between the sets.
func runPart(c *Ctx, op *vmOp, f *Term) ([]Outcome, error) {
	if r, ok := partMemo[f]; ok && f.Op == "func" {
		return r.outs, r.err
	}
	e := opEngine(c)
	outs, err := e.callTerm(op.st, f)
	c.paths += len(outs)
	for g := range e.inlined {
		c.fns[g] = true
	}
	if f.Op == "func" {
		partMemo[f] = partRes{outs, err}
	}
	return outs, err
}
