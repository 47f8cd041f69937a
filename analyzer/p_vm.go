package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
)

func init() {
	register(&Prop{
		ID:    "C05",
		Title: "No contract instruction can underflow or overflow the VM stack",
		Statement: "For every instruction of every instruction set (before and after each upgrade, on chain and off chain), the stack check made before it guarantees that all stack entries its execution, its quota calculation and its memory size calculation touch exist, and that the stack stays within 1024 entries afterwards, and refuses no other stack. " +
			"Every successful execution of an instruction changes the stack depth by the same documented amount. " +
			"A number returned to the reuse pool is never at the same time still on the stack, returned twice, or part of the block, the ledger state or a generated request.",
		Over:      []string{"inputs"},
		Quant:     "all opcodes of the six instruction sets, all stack contents and depths, all paths of the handlers",
		Why:       "Tests run a handful of opcodes with one stack; the mismatch shows only for a particular depth or path of a particular opcode in a particular set.",
		Files:     []string{"vm/jump_table.go", "vm/instructions.go", "vm/stack_table.go", "vm/gas_table.go", "vm/memory_table.go"},
		Mech:      [][2]string{{"declared effect", "vm/jump_table.go validateStack"}, {"actual effect", "vm/instructions.go handlers"}},
		Technique: "table extraction and abstract interpretation of every handler (abstract stack), obligations discharged by linear entailment",
		Note:      "Loops with constant trip counts are executed exactly, all others make the check fail. Handlers' callees outside the vm package are opaque and assumed not to touch the stack they are not given.",
		Run:       runC05,
	})
	register(&Prop{
		ID:    "C06",
		Title: "Contract instructions only touch memory that was sized and paid for",
		Statement: "For every instruction of every instruction set, each memory range it reads or writes lies within the memory size computed for it beforehand from the same operands, unless the range is empty. " +
			"The quota charged for an instruction that computes a memory size includes the cost of growing the memory to that size, a failure to compute it is reported, and no quota sum silently overflows.",
		Over:      []string{"inputs"},
		Quant:     "all opcodes, operands and memory contents",
		Why:       "Only operands near the memory boundary expose a missing byte; tests use a few fixed offsets.",
		Files:     []string{"vm/jump_table.go", "vm/instructions.go", "vm/memory_table.go", "vm/gas_table.go"},
		Mech:      [][2]string{{"memory size", "vm/memory_table.go"}, {"memory quota", "vm/gas_table.go memoryGasCost"}},
		Technique: "table extraction and abstract interpretation; range entailment between size function and handler accesses",
		Note:      "Sizes are compared as unbounded integers; the interpreter's overflow checks (C08) make the machine conversions exact. Trusts that growing the memory (resize) reaches the requested size.",
		Run:       runC06,
	})
	register(&Prop{
		ID:    "C07",
		Title: "Each contract instruction computes its documented function",
		Statement: "For every operand, the arithmetic, comparison, bitwise, shift, hashing, environment, memory, storage, jump, push, dup, swap, log, call and return instructions leave exactly the documented 256-bit results on the stack and perform exactly the documented effect (storage write, memory write, log, generated request, program counter change) with their own operands, and nothing else. " +
			"Jumps go only to positions accepted by the jump destination analysis.",
		Over:      []string{"inputs"},
		Quant:     "all operand values and all paths of every handler",
		Why:       "The results range over 2^256 operand values including signed and boundary cases; tests sample few.",
		Files:     []string{"vm/instructions.go", "common/helper/math_big.go"},
		Mech:      [][2]string{{"handlers", "vm/instructions.go"}},
		Technique: "abstract interpretation of every handler to canonical result terms, compared per path with a specification table",
		Note:      "Result terms are matched against the specification (commutativity and linear arithmetic normalised). The arithmetic right shift of zero by 256 or more is a recorded finding. Exponentiation, byte extraction and data padding helpers are trusted.",
		Run:       runC07,
	})
}

func opParams(op *vmOp) []*Term {
	var out []*Term
	for i, p := range funcByTerm[op.exec].Params {
		out = append(out, mk("param", itoa(i), p.Type()))
	}
	return out
}

// stackDepths collects the depths (1 = top) of all entries of data that occur
// in t; ok is false when an index is not a constant distance from the top.
func stackDepths(t, data *Term, seen map[*Term]bool, out map[int64]bool) bool {
	if t == nil || seen[t] {
		return true
	}
	seen[t] = true
	if (t.Op == "elem" || t.Op == "ia") && (t.Args[0] == data || isStackAddr(t.Args[0], data)) {
		n, ok := depthOf(t.Args[1], data)
		if !ok {
			return false
		}
		out[n] = true
	}
	if t.Op == "slice" && t.Args[0] == data && isNilT(t.Args[1]) {
		n, ok := depthOf(t.Args[2], data)
		if !ok {
			return false
		}
		out[n] = true
		return true
	}
	for _, a := range t.Args {
		if !stackDepths(a, data, seen, out) {
			return false
		}
	}
	return true
}

func isStackAddr(a, data *Term) bool {
	return a.Op == "fa" && a.Sym == "data" && data.Op == "field" && a.Args[0] == data.Args[0]
}

func outcomeDepths(o Outcome, data *Term) (map[int64]bool, bool) {
	out := map[int64]bool{}
	seen := map[*Term]bool{}
	ok := true
	visit := func(t *Term) {
		if !stackDepths(t, data, seen, out) {
			ok = false
		}
	}
	for _, f := range o.st.facts {
		visit(f.A)
		visit(f.B)
	}
	for _, r := range o.res {
		visit(r)
	}
	for k, v := range o.st.mem {
		visit(k)
		visit(v)
	}
	walkEvents(o.st.Events(), func(ev *Event) {
		for _, a := range ev.Args {
			visit(a)
		}
	})
	return out, ok
}

// rebase maps terms over parameter `from` (stack position in another
// signature) to the handler's stack parameter 4.
func stackParamOf(f *Term) (*Term, bool) {
	fn := funcByTerm[f]
	if fn == nil {
		return nil, false
	}
	for i, p := range fn.Params {
		if pt, ok := p.Type().(*types.Pointer); ok {
			if n, ok := pt.Elem().(*types.Named); ok && n.Obj().Name() == "stack" {
				return mk("field", "data", nil, mk("param", itoa(i), p.Type())), true
			}
		}
	}
	return nil, false
}

func runC05(c *Ctx) {
	ops := vmTables(c)
	limit := c.Const(vmPkg, "stackLimit")
	c.Ob(limit != nil && limit.Sym == "1024", "stack-limit", "vm.stackLimit", "", "the stack limit is %v, not 1024", limit)
	for _, op := range ops {
		name := op.String()
		if !c.Ob(op.exec != nil && op.gas != nil && op.valid != nil && !isNilT(op.exec) && !isNilT(op.gas) && !isNilT(op.valid), "complete-entry", name, "", "instruction without handler, quota function or stack check") {
			continue
		}
		e := opEngine(c)
		vouts, err := e.callTerm(op.st, op.valid)
		if err != nil {
			c.Undecided("stack-check", name, err)
			continue
		}
		vdata, ok := stackParamOf(op.valid)
		if !c.Ob(ok, "stack-check", name, "", "stack check without a stack parameter") {
			continue
		}
		vlen := mk("len", "", types.Typ[types.Int], vdata)
		var checks []Facts
		for _, p := range c.success(vouts, 0) {
			checks = append(checks, p.F)
		}
		if !c.Ob(len(checks) > 0, "stack-check", name, "", "the stack check never succeeds") {
			continue
		}
		need := func(n int64) bool {
			for _, f := range checks {
				if !f.implies(vlen, kInt(n), GE) {
					return false
				}
			}
			return true
		}
		var deepest int64
		net := int64(0)
		// handlers, quota and memory size functions
		for _, part := range []struct {
			kind string
			f    *Term
		}{{"execution", op.exec}, {"quota", op.gas}, {"memory size", op.mem}} {
			if part.f == nil || isNilT(part.f) {
				continue
			}
			data, ok := stackParamOf(part.f)
			if !c.Ob(ok, "stack-access", name, "", "%s function without a stack parameter", part.kind) {
				continue
			}
			outs, err := runPart(c, op, part.f)
			if err != nil {
				c.Undecided("stack-access", name, err)
				continue
			}
			for _, o := range outs {
				ds, ok := outcomeDepths(o, data)
				c.Ob(ok, "stack-access", name, c.P.pos(o.pos), "the %s touches a stack entry at a position that is not a constant distance from the top", part.kind)
				for d := range ds {
					if d > deepest {
						deepest = d
					}
					c.Ob(d <= 0 || need(d), "stack-access", name, c.P.pos(o.pos), "the %s touches stack entry %d from the top, but the stack check lets fewer entries through", part.kind, d)
				}
			}
			if part.kind != "execution" {
				continue
			}
			// net effect
			delta := map[int64]bool{}
			for _, o := range outs {
				if o.panic || len(o.res) < 2 || o.st.facts.possible(o.res[1], kNil())&EQ == 0 {
					continue
				}
				cur := o.st.load(mkFA(data.Args[0], "data", nil2))
				k, pushed, ok := finalStack(cur, data)
				if !c.Ob(ok, "stack-effect", name, c.P.pos(o.pos), "the resulting stack is not derived from the given one: %v", cur) {
					continue
				}
				n := int64(len(pushed)) - k
				delta[n] = true
				net = n
				for _, f := range checks {
					after := mkBin(token.ADD, vlen, kInt(n), types.Typ[types.Int])
					c.Ob(f.implies(after, kInt(1024), LE), "stack-limit", name, c.P.pos(o.pos), "the stack check lets a stack through that has more than 1024 entries after the instruction (depth change %+d)", n)
				}
				if want, ok := opDelta(op); ok {
					c.Ob(n == want, "stack-effect", name, c.P.pos(o.pos), "the instruction changes the stack depth by %+d, documented is %+d", n, want)
				}
				poolRules(c, op, o, data, k, pushed)
			}
			c.Ob(len(delta) <= 1, "stack-effect", name, "", "the instruction changes the stack depth by different amounts on different paths: %v", delta)
		}
		for _, p := range c.failure(vouts, 0) {
			after := mkBin(token.ADD, vlen, kInt(net), types.Typ[types.Int])
			c.Ob(p.F.implies(vlen, kInt(deepest), LT) || p.F.implies(after, kInt(1024), GT), "stack-refusal", name, p.where(), "the stack check refuses a stack that has the %d entries the instruction needs and no more than 1024 afterwards", deepest)
		}
	}
	c.Floor("complete-entry", 700)
	c.Floor("stack-effect", 700)
	c.Floor("pool-on-stack", 500)
}

// poolRules: entries given back to the pool are dead.
func poolRules(c *Ctx, op *vmOp, o Outcome, data *Term, k int64, pushed []*Term) {
	var puts []*Term
	walkEvents(o.st.Events(), func(ev *Event) {
		if ev.Kind == "call" && strings.HasSuffix(ev.Name, "IntPool.Put") || ev.Kind == "defer" && strings.HasSuffix(ev.Name, "IntPool.Put") {
			if l := ev.Args[1]; l.Op == "list" {
				puts = append(puts, l.Args...)
			} else {
				puts = append(puts, l)
			}
		}
	})
	on := map[*Term]bool{}
	for _, x := range pushed {
		on[x] = true
	}
	for d := k + 1; d <= 20; d++ {
		idx := mkBin(token.SUB, mk("len", "", types.Typ[types.Int], data), kInt(d), types.Typ[types.Int])
		on[o.st.load(mk("ia", "", types.NewPointer(nil2), mkFA(data.Args[0], "data", nil2), idx))] = true
		on[mk("elem", "", nil, data, idx)] = true
	}
	seen := map[*Term]bool{}
	for _, x := range puts {
		c.Ob(!on[x], "pool-on-stack", op.String(), c.P.pos(o.pos), "%v is given back to the pool while it is still on the stack", x)
		c.Ob(!seen[x], "pool-twice", op.String(), c.P.pos(o.pos), "%v is given back to the pool twice", x)
		seen[x] = true
		shared := x.root().Op == "param" && !x.has(data) && !x.mentions(func(t *Term) bool { return t.Op == "call" || t.Op == "pcall" }) || x.Op == "global"
		c.Ob(!shared, "pool-shared", op.String(), c.P.pos(o.pos), "%v, which belongs to the block or ledger state, is given to the pool", x)
		// retained by a generated request or log
		walkEvents(o.st.Events(), func(ev *Event) {
			if ev.Kind == "call" && (strings.HasSuffix(ev.Name, "MakeRequestBlock") || strings.HasSuffix(ev.Name, "AppendBlock")) {
				for _, a := range ev.Args {
					c.Ob(a != x, "pool-retained", op.String(), c.P.pos(ev.Pos), "%v is given back to the pool while a generated request still uses it", x)
				}
			}
		})
	}
	for _, x := range pushed {
		bad := x.Op == "global" || x.root().Op == "param" && !x.has(data) && !x.mentions(func(t *Term) bool { return t.Op == "call" || t.Op == "pcall" })
		c.Ob(!bad, "pool-shared", op.String(), c.P.pos(o.pos), "%v, which belongs to the block or ledger state, is put on the stack without copying", x)
	}
}

var opDeltas = map[string]int64{}

func opDelta(op *vmOp) (int64, bool) {
	n := op.name
	num := func(p string) (int64, bool) {
		if !strings.HasPrefix(n, p) {
			return 0, false
		}
		var k int64
		if _, err := fmt.Sscanf(n[len(p):], "%d", &k); err != nil {
			return 0, false
		}
		return k, true
	}
	if _, ok := num("PUSH"); ok {
		return 1, true
	}
	if _, ok := num("DUP"); ok {
		return 1, true
	}
	if _, ok := num("SWAP"); ok {
		return 0, true
	}
	if k, ok := num("LOG"); ok {
		return -2 - k, true
	}
	for d, l := range deltaTable {
		for _, x := range strings.Fields(l) {
			if x == n {
				return d, true
			}
		}
	}
	return 0, false
}

var deltaTable = map[int64]string{
	0:  "STOP ISZERO NOT CALLDATALOAD MLOAD SLOAD JUMPDEST EXTCODESIZE BALANCE",
	-1: "ADD MUL SUB DIV SDIV MOD SMOD EXP SIGNEXTEND LT GT SLT SGT EQ AND OR XOR BYTE SHL SHR SAR SHA3 BLAKE2B POP JUMP",
	-2: "ADDMOD MULMOD MSTORE MSTORE8 SSTORE JUMPI RETURN REVERT",
	-3: "CALLDATACOPY CODECOPY RETURNDATACOPY",
	-4: "EXTCODECOPY DELEGATECALL CALL2",
	-5: "CALL",
	1:  "ADDRESS CALLER CALLVALUE CALLDATASIZE CODESIZE RETURNDATASIZE TIMESTAMP HEIGHT TOKENID ACCOUNTHEIGHT ACCOUNTHASH FROMHASH SEED RANDOM PREVHASH PC MSIZE",
}

// ---- memory ---------------------------------------------------------------

type memAccess struct {
	off, size *Term
	facts     Facts
	what      string
	pos       token.Pos
}

// memAccesses lists the memory ranges touched on a path.
func memAccesses(o Outcome, memParam *Term) []memAccess {
	var out []memAccess
	store := mk("field", "store", nil, memParam)
	walkEvents(o.st.Events(), func(ev *Event) {
		if ev.Kind == "call" && len(ev.Args) >= 3 && ev.Args[0] == memParam {
			switch baseName(ev.Name) {
			case "get", "getPtr", "set":
				out = append(out, memAccess{ev.Args[1], ev.Args[2], o.st.facts, ev.Name, ev.Pos})
			case "set32":
				out = append(out, memAccess{ev.Args[1], kInt(32), o.st.facts, ev.Name, ev.Pos})
			}
		}
	})
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if (t.Op == "elem" || t.Op == "ia") && (t.Args[0] == store || t.Args[0].Op == "fa" && t.Args[0].Sym == "store" && t.Args[0].Args[0] == memParam) {
			out = append(out, memAccess{t.Args[1], kInt(1), o.st.facts, "memory byte access", o.pos})
		}
		if (t.Op == "sub" || t.Op == "slice") && t.Args[0] == store {
			hi := t.Args[2]
			lo := orZero(t.Args[1])
			if isNilT(hi) {
				out = append(out, memAccess{lo, nil, o.st.facts, "memory slice", o.pos})
			} else {
				out = append(out, memAccess{lo, mkBin(token.SUB, hi, lo, types.Typ[types.Int]), o.st.facts, "memory slice", o.pos})
			}
		}
		for _, a := range t.Args {
			visit(a)
		}
	}
	for k, v := range o.st.mem {
		visit(k)
		visit(v)
	}
	for _, r := range o.res {
		visit(r)
	}
	walkEvents(o.st.Events(), func(ev *Event) {
		for _, a := range ev.Args {
			visit(a)
		}
	})
	return out
}

// subst replaces parameter from by to.
func subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if r, ok := memo[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	args := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		args[i] = subst(a, m, memo)
		if args[i] != a {
			ch = true
		}
	}
	r := t
	if ch && t.Op == "lin" {
		l := toLin(t)
		sum := linForm{l.c, map[*Term]constant.Value{}}
		for i, a := range t.Args {
			sum = linPlus(sum, toLin(args[i]), l.ks[a])
		}
		r = fromLin(sum, t.Typ)
	} else if ch && t.Op == "bin" && t.Sym == "*" {
		r = mkBin(token.MUL, args[0], args[1], t.Typ)
	} else if ch {
		r = mk(t.Op, t.Sym, t.Typ, args...)
	}
	memo[t] = r
	return r
}

func substFacts(fs Facts, m map[*Term]*Term) Facts {
	memo := map[*Term]*Term{}
	var out Facts
	for _, f := range fs {
		out = append(out, Fact{subst(f.A, m, memo), subst(f.B, m, memo), f.Mask})
	}
	return out
}

// noConv drops machine integer conversions inside a term.
func noConv(t *Term) *Term {
	for t.Op == "conv" {
		t = t.Args[0]
	}
	if len(t.Args) == 0 || t.Op == "elem" || t.Op == "len" {
		return t
	}
	if t.Op == "lin" {
		l := toLin(t)
		r := linForm{l.c, map[*Term]constant.Value{}}
		for _, a := range t.Args {
			r = linPlus(r, toLin(noConv(a)), l.ks[a])
		}
		return fromLin(r, types.Typ[types.Int])
	}
	args := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		args[i] = noConv(a)
		ch = ch || args[i] != a
	}
	if !ch {
		return t
	}
	return mk(t.Op, t.Sym, t.Typ, args...)
}

func runC06(c *Ctx) {
	ops := vmTables(c)
	for _, op := range ops {
		name := op.String()
		if op.exec == nil || op.gas == nil {
			continue
		}
		ps := opParams(op)
		// memory size outcomes, over the handler's stack parameter
		type msOut struct {
			facts Facts
			val   *Term
		}
		var sizes []msOut
		hasMem := op.mem != nil && !isNilT(op.mem)
		if hasMem {
			e := opEngine(c)
			outs, err := e.callTerm(op.st, op.mem)
			if err != nil {
				c.Undecided("memory-size", name, err)
				continue
			}
			m := map[*Term]*Term{mk("param", "0", ps[4].Typ): ps[4]}
			for _, o := range outs {
				if o.panic {
					continue
				}
				memo := map[*Term]*Term{}
				sizes = append(sizes, msOut{substFacts(o.st.facts, m), subst(o.st.big(o.res[0]), m, memo)})
			}
			c.Ob(len(sizes) > 0, "memory-size", name, "", "the memory size function has no outcome")
		}
		for _, part := range []struct {
			kind string
			f    *Term
			mi   int
			si   int
		}{{"execution", op.exec, 3, 4}, {"quota", op.gas, 3, 2}} {
			outs, err := runPart(c, op, part.f)
			if err != nil {
				c.Undecided("memory-range", name, err)
				continue
			}
			fps := funcByTerm[part.f].Params
			m := map[*Term]*Term{mk("param", itoa(part.si), fps[part.si].Type()): ps[4]}
			if part.si == 4 {
				m = map[*Term]*Term{}
			}
			for _, o := range outs {
				for _, a := range memAccesses(o, mk("param", itoa(part.mi), fps[part.mi].Type())) {
					memo := map[*Term]*Term{}
					if a.size == nil {
						c.Ob(false, "memory-range", name, c.P.pos(a.pos), "%s touches memory from %v to its end", part.kind, a.off)
						continue
					}
					off, size := subst(noConv(a.off), m, memo), subst(noConv(a.size), m, memo)
					if !hasMem {
						c.Ob(o.st.facts.implies(a.size, kInt(0), LE), "memory-range", name+" without memory size", c.P.pos(a.pos), "the %s touches memory [%v, +%v) although the instruction computes no memory size", part.kind, off, size)
						continue
					}
					end := mkBin(token.ADD, off, size, types.Typ[types.Int])
					pf := substFacts(o.st.facts, m)
					for _, s := range sizes {
						fs := s.facts
						feasible := true
						for _, f := range pf {
							nf, ok := fs.add(mkCmp(f.A, f.B, f.Mask), true)
							if !ok {
								feasible = false
								break
							}
							fs = nf
						}
						if !feasible {
							continue
						}
						good := fs.implies(size, kInt(0), EQ) || fs.implies(s.val, end, GE)
						c.Ob(good, "memory-range", name, c.P.pos(a.pos), "the %s touches memory [%v, +%v) but only %v bytes were computed when %v", part.kind, off, size, s.val, s.facts)
					}
				}
			}
			if part.kind == "quota" {
				memQuota(c, op, outs, hasMem)
			}
		}
	}
	c.Floor("memory-range", 100)
	c.Floor("memory-quota", 60)
}

// memQuota: on success the quota includes the memory growth.
func memQuota(c *Ctx, op *vmOp, outs []Outcome, hasMem bool) {
	name := op.String()
	for _, p := range c.success(outs, 2) {
		cost := p.o.res[0]
		evs := calls(p.Evs, "memoryGasCost")
		if hasMem {
			ok := false
			for _, ev := range evs {
				r0 := mk("ext", "0", nil, ev.Res)
				if ev.Args[1].Op == "param" && ev.Args[1].Sym == "3" && ev.Args[2].Op == "param" && ev.Args[2].Sym == "4" &&
					p.F.implies(mk("ext", "2", nil, ev.Res), kNil(), EQ) && linCoef(cost, r0) >= 1 {
					ok = true
				}
			}
			c.Ob(ok, "memory-quota", name, p.where(), "the quota %v does not include the cost of growing the memory to the computed size (or its error is ignored): %s", cost, p.Describe())
		}
		// overflow: every sum/product in the cost must be guarded
		for _, bad := range unguarded(p, cost) {
			c.Ob(false, "quota-overflow", name, p.where(), "the quota sum %v may overflow: %s", bad, p.Describe())
		}
		c.Ob(true, "quota-overflow", name, p.where(), "")
	}
}

// linCoef: constant coefficient of x in t.
func linCoef(t, x *Term) int64 {
	if t == x {
		return 1
	}
	if k, ok := toLin(t).ks[x]; ok {
		if v, ok := i64(kVal(k, nil)); ok {
			return v
		}
	}
	return 0
}

const maxU64 = "18446744073709551615"

// sumGuarded: a check "y <= max - x" (or the like) for this very sum.
func sumGuarded(p *Path, cost *Term) bool {
	if p.F.implies(cost, kIntS(maxU64), LE) {
		return true
	}
	for _, f := range p.F {
		a, b := f.A, f.B
		if f.Mask&^GE == 0 {
			a, b = b, a
		} else if f.Mask&^LE != 0 {
			continue
		}
		d := mkLinear(token.SUB, b, a, types.Typ[types.Uint64])
		if mkLinear(token.ADD, d, cost, types.Typ[types.Uint64]) == kIntS(maxU64) {
			return true
		}
	}
	return false
}

// unguarded lists the sums and products of a cost that are not known to stay
// below 2^64 on the path.
func unguarded(p *Path, cost *Term) []*Term {
	var bad []*Term
	l := toLin(cost)
	n, wild := 0, false
	for a := range l.ks {
		n++
		if a.mentions(func(t *Term) bool {
			return t.Op == "call" || t.Op == "pcall" || t.Op == "elem" || t.Op == "param" && t.Sym == "4"
		}) {
			wild = true
		}
		for x := a; x.Op == "bin" && x.Sym == "*"; {
			f, g := x.Args[0], x.Args[1]
			small := func(t *Term) bool {
				if n, ok := i64(t); ok && n < 1<<16 {
					return true
				}
				return t.mentions(func(u *Term) bool { return u.Op == "len" || strings.HasSuffix(u.Sym, "BitLen") })
			}
			q := func(a, b *Term) bool {
				return p.F.implies(a, mkBin(token.QUO, kIntS(maxU64), b, types.Typ[types.Uint64]), LE)
			}
			if !small(f) && !small(g) && !q(f, g) && !q(g, f) && !p.F.implies(f, kInt(0), EQ) && !p.F.implies(g, kInt(0), EQ) {
				bad = append(bad, x)
			}
			break
		}
	}
	if wild && (n >= 2 || n == 1 && constant.Sign(l.c) != 0) && !sumGuarded(p, cost) {
		bad = append(bad, cost)
	}
	return bad
}
