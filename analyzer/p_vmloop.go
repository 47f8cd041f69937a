package main

import (
	"fmt"
	"sort"
	"strings"
)

func init() {
	register(&Prop{
		ID:    "C08",
		Title: "The interpreter checks and charges every instruction before it runs",
		Statement: "In every step of contract execution the interpreter runs an instruction only after finding it valid in the instruction set of the current upgrade height and mode, after its stack check passed, after its memory size was computed without overflow and rounded up to words, after its quota was computed for that size and successfully deducted from the quota left (never going below zero), and after the memory was grown to that size. " +
			"A failing check ends the execution with that error and no result; otherwise the execution ends exactly at a halting, reverting or failing instruction, reverting is reported as reverted together with its data, and the position advances by one unless the instruction is a jump. " +
			"Every instruction that does not end the execution costs quota (except generated requests, whose price is reduced by a base amount, and storage writes that restore an earlier value). Jump destinations are accepted only inside the code, on a JUMPDEST byte that is not push data. A panic while code is read off chain is reported as an error.",
		Over:      []string{"inputs", "histories"},
		Quant:     "all programs, states and steps",
		Why:       "An unchecked or uncharged step only matters for adversarial bytecode; tests run well-formed contracts.",
		Files:     []string{"vm/interpreter.go", "vm/memory.go", "vm/destination.go", "vm/util/quota.go", "vm/gas_table.go"},
		Mech:      [][2]string{{"step", "vm/interpreter.go interpreter.runLoop"}, {"quota deduction", "vm/util/quota.go UseQuotaWithFlag"}, {"jump targets", "vm/destination.go destinations.has"}},
		Technique: "path-sensitive dataflow over the interpreter loop body (typestate of one step: valid, checked, sized, charged, resized, executed) and over the quota functions",
		Note:      "The bitmap of push data itself is trusted. The quota prices are opaque and assumed positive.",
		Run:       runC08,
	})
}

func runC08(c *Ctx) {
	c.panicErr(c.Opts([]string{vmPkg}, "newContract", "newInterpreter", "contract.setCallCode", "contract.run"), c.Func(vmPkg, "VM.OffChainReader"), 1, "panic")
	fn := c.Func(vmPkg, "interpreter.runLoop")
	if fn != nil {
		e := c.Opts([]string{vmPkg, "common/helper", "vm/util"}, "memory.print", "stack.print", "DebugGetStorage", "PrintMap", "newMemory", "newStack", "UseQuotaWithFlag", "memory.resize")
		outs := c.Paths(e, fn)
		var steps []*Path
		loops := map[*LoopInfo]bool{}
		for _, p := range c.all(outs) {
			if p.o.panic {
				continue
			}
			steps = append(steps, p)
		}
		for _, o := range outs {
			for _, ev := range o.st.Events() {
				if stepLoop(ev) && !loops[ev.Loop] {
					loops[ev.Loop] = true
					for _, it := range ev.Loop.Iters {
						q := &Path{c: c, o: Outcome{st: it, pos: ev.Pos}, F: it.facts, Evs: iterEvents(ev, it)}
						stepRule(c, q, false)
					}
				}
			}
		}
		for _, p := range steps {
			// the part of the path in the last step
			evs := p.Evs
			for i, ev := range evs {
				if stepLoop(ev) {
					evs = evs[i+1:]
					break
				}
			}
			q := &Path{c: c, o: p.o, F: p.F, Evs: evs}
			stepRule(c, q, true)
		}
		c.Floor("charged", 100)
		c.Floor("ends", 20)
	}
	runC08Prims(c)
	runC08Gas(c)
}

// stepLoop: the loop whose iterations execute operations, in whichever function it is written
func stepLoop(ev *Event) bool {
	if ev.Kind != "loop" {
		return false
	}
	for _, it := range ev.Loop.Iters {
		for _, x := range iterEvents(ev, it) {
			if dynOf(x, "execute") {
				return true
			}
		}
	}
	return false
}

func dynOf(ev *Event, field string) bool {
	return ev.Kind == "call" && len(ev.Args) > 0 && strings.HasSuffix(ev.Args[0].String(), "."+field)
}

// stepRule: the typestate of one step of the interpreter.
func stepRule(c *Ctx, p *Path, last bool) {
	const name = "interpreter.runLoop"
	var exec, gas, use, vst, msz *Event
	var resize *Event
	order := map[*Event]int{}
	var quotaStore, pcStore, rdStore *Event
	n := 0
	for i, ev := range p.Evs {
		order[ev] = i
		switch {
		case dynOf(ev, "execute"):
			exec = ev
			n++
		case dynOf(ev, "gasCost"):
			gas = ev
		case dynOf(ev, "validateStack"):
			vst = ev
		case dynOf(ev, "memorySize"):
			msz = ev
		case ev.Kind == "call" && baseName(ev.Name) == "UseQuotaWithFlag":
			use = ev
		case ev.Kind == "call" && baseName(ev.Name) == "resize":
			resize = ev
		case ev.Kind == "store" && strings.HasSuffix(ev.Args[0].String(), ".quotaLeft"):
			quotaStore = ev
		case ev.Kind == "store" && strings.HasSuffix(ev.Args[0].String(), ".returnData"):
			rdStore = ev
		}
	}
	if exec == nil {
		if !last {
			c.Ob(false, "executed", name, p.where(), "a step continues without executing its instruction: %s", p.Describe())
			return
		}
		// a rejected step must end with an error and nothing else
		err := p.o.res[1]
		c.Ob(isNilT(p.o.res[0]) && p.F.possible(err, kNil())&EQ == 0, "rejected", name, p.where(), "a step that is not executed ends without an error (%v)", err)
		return
	}
	c.Ob(n == 1, "executed", name, p.where(), "an instruction is executed more than once in a step")
	x := order[exec]
	op := exec.Args[0].Args[0] // the operation
	if exec.Args[0].Op != "field" && exec.Args[0].Op != "deref" {
		op = exec.Args[0]
		for op != nil && op.Op != "field" && len(op.Args) > 0 {
			op = op.Args[0]
		}
		if op != nil && op.Op == "field" {
			op = op.Args[0]
		}
	}
	same := func(ev *Event) bool { return ev != nil && ev.Args[0].has(op) && order[ev] < x }
	opOK := op.Op == "elem" && op.Args[0].Op == "field" && op.Args[0].Sym == "instructionSet" && op.Args[0].Args[0].Op == "param" && op.Args[0].Args[0].Sym == "0"
	c.Ob(opOK, "instruction-set", name, c.P.pos(exec.Pos), "the executed operation %v is not an entry of the interpreter's instruction set", op)
	if opOK {
		code := op.Args[1]
		pcOK := false
		if code == kInt(0) || code.Op == "const" && code.Sym == "0" {
			pcOK = true
			_, pcOK = p.F.Find("len(A2.code) <= X", nil)
		} else if b, ok := matchT(pat("A2.code[X]"), code, Bind{}); ok {
			pcOK = p.F.possible(mk("len", "", nil2, mk("field", "code", nil, param(2, nil))), b["X"])&(EQ|LT) == 0 || p.Holds("len(A2.code) > X")
		}
		c.Ob(pcOK, "fetch", name, c.P.pos(exec.Pos), "the executed operation %v is not the one at the current position", op)
	}
	has := func(field string) bool { return p.F.decide(mk("field", field, nil, op)) == 1 }
	not := func(field string) bool { return p.F.decide(mk("field", field, nil, op)) == 0 }
	c.Ob(has("valid"), "valid", name, c.P.pos(exec.Pos), "an instruction is executed without being valid in the instruction set: %s", p.Describe())
	c.Ob(same(vst) && p.F.possible(vst.Res, kNil()) == EQ && vst.Args[1] == exec.Args[5], "stack-checked", name, c.P.pos(exec.Pos), "an instruction is executed without its stack check having passed on the stack it gets: %s", p.Describe())
	okG := same(gas) && len(gas.Args) == 6 && gas.Args[2] == exec.Args[3] && gas.Args[3] == exec.Args[5] && gas.Args[4] == exec.Args[4] && p.F.possible(ext(gas.Res, 2), kNil()) == EQ
	c.Ob(okG, "charged", name, c.P.pos(exec.Pos), "an instruction is executed without its quota having been computed: %s", p.Describe())
	if okG {
		size := gas.Args[5]
		memNil := p.F.possible(mk("field", "memorySize", nil, op), kNil())
		switch {
		case memNil == EQ:
			c.Ob(size == kInt(0) || size.Sym == "0", "memory-sized", name, c.P.pos(gas.Pos), "the memory size is %v although the instruction has none", size)
		default:
			ok := same(msz) && msz.Args[1] == exec.Args[5]
			if ok {
				ok = wordRounded(p, size, msz.Res)
			}
			c.Ob(ok, "memory-sized", name, c.P.pos(gas.Pos), "the quota is computed for memory size %v, not for the instruction's memory size rounded up to words without overflow: %s", size, p.Describe())
			zero := p.F.possible(size, kInt(0))&GT == 0
			okR := zero || resize != nil && order[resize] < x && resize.Args[0] == exec.Args[4] && resize.Args[1] == size
			c.Ob(okR, "memory-grown", name, c.P.pos(exec.Pos), "an instruction is executed before the memory was grown to %v: %s", size, p.Describe())
		}
		okU := use != nil && order[use] > order[gas] && order[use] < x && strings.HasSuffix(use.Args[0].String(), "quotaLeft)") || use != nil && strings.HasSuffix(use.Args[0].String(), "quotaLeft")
		okU = okU && use.Args[1] == ext(gas.Res, 0) && use.Args[2] == ext(gas.Res, 1) && p.F.possible(ext(use.Res, 1), kNil()) == EQ
		c.Ob(okU, "charged", name, c.P.pos(exec.Pos), "an instruction is executed without its quota having been deducted: %s", p.Describe())
		if okU {
			c.Ob(quotaStore != nil && order[quotaStore] < x && quotaStore.Args[1] == ext(use.Res, 0), "charged", name, c.P.pos(exec.Pos), "the quota left is not updated before the instruction runs: %s", p.Describe())
		}
	}
	// after the instruction
	errNil := p.F.possible(ext(exec.Res, 1), kNil())
	ret := ext(exec.Res, 0)
	if has("returns") {
		c.Ob(rdStore != nil && order[rdStore] > x && rdStore.Args[1] == ret, "return-data", name, p.where(), "the return data is not recorded: %s", p.Describe())
	} else {
		c.Ob(rdStore == nil || order[rdStore] < x, "return-data", name, p.where(), "return data is recorded for an instruction that returns none: %s", p.Describe())
	}
	pcA := exec.Args[1]
	for _, ev := range p.Evs {
		if ev.Kind == "store" && ev.Args[0] == pcA && order[ev] > x {
			pcStore = ev
		}
	}
	pcNow := p.o.st.load(pcA)
	adv := pcNow.Op == "lin"
	_ = pcStore
	if !last {
		c.Ob(errNil == EQ && not("halts") && not("reverts"), "ends", name, p.where(), "execution continues after a failing, halting or reverting instruction: %s", p.Describe())
		c.Ob(adv == not("jumps") && adv != has("jumps"), "advance", name, p.where(), "the position becomes %v: %s", pcNow, p.Describe())
		if adv {
			c.Ob(strings.HasPrefix(pcNow.Sym, "1,1") && len(pcNow.Args) == 1, "advance", name, p.where(), "the position becomes %v", pcNow)
		}
		return
	}
	r0, r1 := p.o.res[0], p.o.res[1]
	switch {
	case errNil&EQ == 0:
		c.Ob(isNilT(r0) && r1 == ext(exec.Res, 1), "ends", name, p.where(), "a failing instruction must end the execution with its error and no result")
	case has("halts"):
		c.Ob(r0 == ret && isNilT(r1), "ends", name, p.where(), "a halting instruction must end the execution with its result")
	case has("reverts"):
		c.Ob(r0 == ret && r1.String() == "util.ErrExecutionReverted" && not("halts"), "ends", name, p.where(), "a reverting instruction must end the execution with its data and the reverted error, not %v, %v", r0, r1)
	default:
		c.Ob(false, "ends", name, p.where(), "execution ends although the instruction neither failed nor halted: %s", p.Describe())
	}
}

// wordRounded: size is 32*ceil(m/32) computed without overflow.
func wordRounded(p *Path, size, m *Term) bool {
	if p.F.possible(size, kInt(0)) == EQ && p.F.possible(m, kInt(0)) == EQ {
		return true
	}
	if size == kInt(0) || size.Sym == "0" {
		_, z := p.F.Find("(X + 31) / 32 == 0", Bind{"X": m})
		return z
	}
	small := false
	for _, s := range []string{"BitLen(X) <= 64", "X <= 18446744073709551584", "X <= 18446744073709551615"} {
		if b, ok := p.F.Find(s, Bind{"X": m}); ok && b["X"] == m {
			small = true
		}
	}
	if !small {
		return false
	}
	for _, s := range []string{"32 * ((X + 31) / 32)", "((X + 31) / 32) * 32"} {
		if _, ok := matchT(pat(s), size, Bind{"X": m}); ok {
			// the sum must not wrap: X <= 2^64-32
			_, a := p.F.Find("X <= 18446744073709551584", Bind{"X": m})
			return a
		}
	}
	// sizes above 2^64-32 round up to 2^59 words, an overflow that must have been rejected
	return false
}

func runC08Prims(c *Ctx) {
	eng := func() *Engine { return c.Opts([]string{vmPkg, "vm/util"}, "codeBitmap", "DealWithErr") }
	if f := c.Func(vmPkg, "memory.resize"); f != nil {
		for _, p := range c.all(c.Paths(eng(), f)) {
			cur := p.o.st.load(mkFA(param(0, f.Params[0].Type()), "store", nil2))
			ok := p.Holds("len(A0.store) >= A1")
			if !ok {
				_, ok = matchT(pat("append(A0.store, spread(zerobytes(A1 - len(A0.store))))"), cur, Bind{})
			}
			c.Ob(ok, "resize", "memory.resize", p.where(), "the memory becomes %v", cur)
		}
	}
	if f := c.Func("vm/util", "UseQuotaWithFlag"); f != nil {
		for _, p := range c.all(c.Paths(eng(), f)) {
			if isNilT(p.o.res[1]) {
				_, sub := matchT(pat("A0 - A1"), p.o.res[0], Bind{})
				_, add := matchT(pat("A0 + A1"), p.o.res[0], Bind{})
				ok := sub && p.Holds("A2") && p.Holds("A0 >= A1") || add && p.Holds("!A2")
				c.Ob(ok, "deduct", "UseQuotaWithFlag", p.where(), "quota left becomes %v: %s", p.o.res[0], p.Describe())
			} else {
				c.Ob(p.Holds("A2") && p.Holds("A0 < A1") && p.F.possible(p.o.res[1], kNil())&EQ == 0, "deduct", "UseQuotaWithFlag", p.where(), "failure although enough quota is left: %s", p.Describe())
			}
		}
	}
	if f := c.Func(vmPkg, "destinations.has"); f != nil {
		for _, p := range c.all(c.Paths(eng(), f)) {
			if p.o.res[0].String() == "false" {
				ok := p.Holds("BitLen(A3) >= 63") || p.Holds("A3 >= len(A2)") || p.Holds("A2[A3] != 91") || p.Holds("(_ & _) != 0")
				c.Ob(ok, "jump-target", "destinations.has", p.where(), "a destination is refused without a reason: %s", p.Describe())
				continue
			}
			if !isBoolT(p.o.res[0]) {
				p.F, _ = p.F.add(p.o.res[0], true)
			}
			in := p.Holds("A3 < len(A2)") && p.Holds("BitLen(A3) < 63")
			c.Ob(in, "jump-target", "destinations.has", p.where(), "a jump outside the code is accepted: %s", p.Describe())
			jd := p.Holds("A2[A3] == 91")
			c.Ob(jd, "jump-target", "destinations.has", p.where(), "a jump to a byte that is no JUMPDEST is accepted: %s", p.Describe())
			data := false
			for _, m := range []string{"codeBitmap(A2)", "mapget(A0, A1)"} {
				for _, s := range []string{"(M[A3 / 8] & (128 >> (A3 % 8))) == 0", "((128 >> (A3 % 8)) & M[A3 / 8]) == 0"} {
					ps := strings.Replace(s, "M", m, 1)
					if p.Holds(ps) {
						data = true
					}
					if _, ok := matchT(pat(ps), p.o.res[0], Bind{}); ok {
						data = true
					}
				}
			}
			c.Ob(data, "jump-target", "destinations.has", p.where(), "a jump into push data is accepted: result %v, %s", p.o.res[0], p.Describe())
			// the analysis is stored for the same code
			for _, ev := range p.Evs {
				if ev.Kind == "mapset" {
					_, ok := matchT(pat("codeBitmap(A2)"), ev.Args[2], Bind{})
					c.Ob(ok && ev.Args[1].String() == "A1", "jump-target", "destinations.has", p.where(), "the analysis stored for the code is %v", ev.Args[2])
				}
			}
		}
		c.Floor("jump-target", 6)
	}
	if f := c.Func(vmPkg, "newInterpreter"); f != nil {
		need := map[string]string{
			"earthInterpreter": "IsEarthUpgrade(A0) && !A1", "offchainEarthInterpreter": "IsEarthUpgrade(A0) && A1",
			"randInterpreter": "!IsEarthUpgrade(A0) && IsSeedUpgrade(A0) && !A1", "offchainRandInterpreter": "!IsEarthUpgrade(A0) && IsSeedUpgrade(A0) && A1",
			"simpleInterpreter": "!IsEarthUpgrade(A0) && !IsSeedUpgrade(A0) && !A1", "offchainSimpleInterpreter": "!IsEarthUpgrade(A0) && !IsSeedUpgrade(A0) && A1",
		}
		for _, p := range c.all(c.Paths(c.Opts([]string{vmPkg}), f)) {
			got := baseName(p.o.res[0].String())
			cond := need[got]
			ok := cond != ""
			for _, x := range strings.Split(cond, " && ") {
				ok = ok && p.Holds(x)
			}
			c.Ob(ok, "instruction-set", "newInterpreter", p.where(), "interpreter %s is chosen although not (%s): %s", got, cond, p.Describe())
		}
	}
}

// runC08Gas: every instruction that lets execution continue costs quota.
func runC08Gas(c *Ctx) {
	present := map[string]bool{}
	for _, op := range vmTables(c) {
		present[op.String()] = true
	}
	var names []string
	for n := range opSpec {
		names = append(names, n)
	}
	for i := 1; i <= 32; i++ {
		names = append(names, fmt.Sprintf("PUSH%d", i))
		if i <= 16 {
			names = append(names, fmt.Sprintf("DUP%d", i), fmt.Sprintf("SWAP%d", i))
		}
		if i <= 5 {
			names = append(names, fmt.Sprintf("LOG%d", i-1))
		}
	}
	sort.Strings(names)
	for _, set := range []string{"simple", "rand", "earth", "offchain-simple", "offchain-rand", "offchain-earth"} {
		for _, n := range names {
			want := true
			switch n {
			case "RANDOM":
				want = !strings.HasSuffix(set, "simple")
			case "DELEGATECALL", "EXTCODESIZE", "EXTCODECOPY":
				want = false // never enabled
			case "CALL2":
				want = strings.HasSuffix(set, "earth")
			}
			c.Ob(present[set+"/"+n] == want, "available", set+"/"+n, "", "availability of the instruction must be %v", want)
		}
	}
	for _, op := range vmTables(c) {
		name := op.String()
		if op.gas == nil || isNilT(op.gas) {
			c.Ob(op.flags["valid"] == false, "cost", name, "", "instruction without quota")
			continue
		}
		if op.flags["halts"] || op.flags["reverts"] {
			continue
		}
		outs, err := runPart(c, op, op.gas)
		if err != nil {
			c.Undecided("cost", name, err)
			continue
		}
		for _, p := range c.success(outs, 2) {
			cost, flag := p.o.res[0], p.o.res[1]
			if flag.String() == "false" {
				c.Ob(op.name == "SSTORE", "cost", name, p.where(), "an instruction other than a storage write gives quota back")
				continue
			}
			if op.name == "CALL" || op.name == "CALL2" {
				continue
			}
			if op.name == "SSTORE" && cost.Op == "lin" {
				continue // differences of storage prices
			}
			c.Ob(positiveCost(cost, p), "cost", name, p.where(), "the instruction costs %v, which may be nothing: %s", cost, p.Describe())
		}
	}
	c.Floor("cost", 500)
}

func positiveCost(t *Term, p *Path) bool {
	t = stripConv(t)
	switch t.Op {
	case "field":
		return strings.HasSuffix(t.Sym, "Quota") && strings.Contains(t.String(), "gasTable.")
	case "const":
		return t.Sym != "0" && !strings.HasPrefix(t.Sym, "-")
	case "lin":
		ks := strings.Split(t.Sym, ",")
		if strings.HasPrefix(ks[0], "-") {
			return false
		}
		pos := ks[0] != "0"
		for i, a := range t.Args {
			if strings.HasPrefix(ks[i+1], "-") {
				return false
			}
			if positiveCost(a, p) {
				pos = true
			}
		}
		return pos
	}
	return p.F.possible(t, kInt(0)) == GT
}

func ext(t *Term, i int) *Term { return mk("ext", itoa(i), nil, t) }
