package main

import "strings"

func init() {
	register(&Prop{
		ID:    "C09",
		Title: "Executing a block neither creates nor destroys coins",
		Statement: "Whenever the virtual machine accepts a user's send block, the sender's balance of the sent token has been reduced by exactly the amount, and the VITE balance by exactly the fee, once each and only if covered; otherwise the block is refused. " +
			"When a receive block succeeds, the receiver's balance was increased by exactly the sent amount, once. When it fails (other than for call depth), all effects of the execution are undone first and the receiver is then credited with exactly what is sent back to the original sender: the amount, plus the fee where the method refunds it, each in its own token. " +
			"Requests generated by a contract are each executed as sends of the contract, and if one of them is refused the whole receive fails. Rewards can be issued only by the governance and asset contracts.",
		Over:      []string{"inputs", "histories"},
		Quant:     "all blocks, balances, contract behaviours and failure points",
		Why:       "Conservation must hold on every failure path (out of quota, failing sub-send, failing refund), most of which no test reaches.",
		Files:     []string{"vm/vm.go", "vm/util/db_helper.go"},
		Mech:      [][2]string{{"execution", "vm/vm.go VM.RunV2"}, {"balance primitives", "vm/util/db_helper.go AddBalance, SubBalance"}, {"generated requests", "vm/vm.go VM.doSendBlockList"}},
		Technique: "path-sensitive dataflow over VM.RunV2 with helpers inlined: the balance changes and state resets on every path are accounted against the block",
		Note:      "What contract code and built-in contracts do between credit and reset is not examined here (built-in contracts have their own properties). The reset of the state database is a separate property.",
		Run:       runC09,
	})
	register(&Prop{
		ID:    "C10",
		Title: "No block is executed without paying its quota",
		Statement: "A send block of a user is accepted only if its quota cost was computed and covered by the quota available to the account; a receive block of an account or contract likewise, except built-in contracts without receive quota and the fixed allowance for contract creation. " +
			"The quota recorded in the block is exactly the quota available minus the quota left after execution, less the part covered by proof of work, and is zero for requests generated by contracts and for executions that ran out of quota. " +
			"Quota sums and multiples that would overflow are refused; the quota available is that of the block's own account, stake and proof of work, and a receive block also records the hash of the logs it produced.",
		Over:      []string{"inputs", "histories"},
		Quant:     "all blocks, quota amounts and outcomes",
		Why:       "Quota accounting errors appear only for particular combinations of proof of work, staked quota and failure kind.",
		Files:     []string{"vm/vm.go", "vm/util/quota.go", "vm/gas_table.go"},
		Mech:      [][2]string{{"execution", "vm/vm.go VM.RunV2"}, {"quota arithmetic", "vm/util/quota.go"}},
		Technique: "path-sensitive dataflow over VM.RunV2 with helpers inlined, plus value analysis of the quota arithmetic",
		Note:      "How much quota an account has available (staking formula, proof of work difficulty) is floating-point and table driven and is not decided here.",
		Run:       runC10,
	})
	register(&Prop{
		ID:    "C11",
		Title: "A contract can be created only with valid parameters and code",
		Statement: "A create-contract block is accepted only with data of at least the minimum length for the upgrade height, a consensus group other than the snapshot group, a known contract type, response latency and random degree within their limits (random degree not above latency), latency and random degree above zero where the code depends on snapshot data, and a quota multiplier between 10 and 100; the contract's address is derived from the creator, height and previous hash, and its meta data records exactly these parameters. " +
			"The creation response succeeds only for an address without history, only if the initialisation code ran successfully, and only with code within the size limit whose storage was paid for; otherwise no code is stored. Calls nested at or beyond the depth limit are not executed.",
		Over:      []string{"inputs"},
		Quant:     "all create blocks and responses at all upgrade heights",
		Why:       "Each limit has two sides per upgrade height; tests use a valid contract.",
		Files:     []string{"vm/vm.go"},
		Mech:      [][2]string{{"request", "vm/vm.go VM.sendCreate"}, {"response", "vm/vm.go VM.receiveCreate"}},
		Technique: "path-sensitive dataflow over VM.RunV2 with helpers inlined: required facts on every accepting path",
		Note:      "The scan for snapshot-dependent instructions (ContainsStatusCode) is opaque.",
		Run:       runC11,
	})
}

var runV2Memo []Outcome

func runV2(c *Ctx) []Outcome {
	f := c.Func(vmPkg, "VM.RunV2")
	if f == nil {
		return nil
	}
	if runV2Memo == nil {
		e := c.Opts([]string{vmPkg}, "AddBalance", "SubBalance", "doSendBlockList", "GetQuotaForBlock", "UseQuota", "gasReceive", "gasSendCreate", "gasSendCall", "CalcQuotaUsed", "MultipleCost", "getReceiveCallData", "runLoop", "GetBuiltinContractMethod", "MakeRequestBlock", "LogTimerConsuming", "getStakeBeneficialAmount", "GetContractCode", "newContract", "gasReceiveCreate", "Copy", "getContractMeta", "printDebugBlockInfo", "ContainsStatusCode", "ContainsCertainStatusCode", "IsReceiveBlock", "IsSendBlock", "newInterpreter", "getQuotaMultiplierForS", "QuotaTableByHeight", "NewContractAddress", "IsExistContractType", "PackContractCode", "GetGidFromCreateContractData", "GetContractTypeFromCreateContractData", "GetSnapshotCountFromCreateContractData", "GetSnapshotWithSeedCountCountFromCreateContractData", "GetQuotaMultiplierFromCreateContractData", "GetCodeFromCreateContractData")
		runV2Memo = c.Paths(e, f)
	}
	return runV2Memo
}

const bcopy = "Copy(A2)"

// balEv is a balance change on a path.
type balEv struct {
	i        int
	add      bool
	tok, amt *Term
	ok       bool // successful
	ev       *Event
}

func balances(p *Path) []balEv {
	var out []balEv
	for i, ev := range p.Evs {
		if ev.Kind != "call" {
			continue
		}
		switch baseName(ev.Name) {
		case "AddBalance", "SubBalance":
			b := balEv{i: i, add: baseName(ev.Name) == "AddBalance", ev: ev, ok: true}
			st := ev.St
			if st == nil {
				st = p.o.st
			}
			b.tok = st.load(ev.Args[1])
			b.amt = st.big(ev.Args[2])
			if !b.add {
				b.ok = p.F.decide(ev.Res) == 1
			}
			out = append(out, b)
		}
	}
	return out
}

func isT(t *Term, ps string) bool { _, ok := matchT(pat(ps), t, Bind{}); return ok }

func pathHasSend(p *Path) bool { return p.Holds("IsSendBlock(Copy(A2))") }

// lastCall: index of the last call with one of the names, -1 if none.
func lastCall(p *Path, names ...string) (int, *Event) {
	for i := len(p.Evs) - 1; i >= 0; i-- {
		ev := p.Evs[i]
		if ev.Kind != "call" {
			continue
		}
		for _, n := range names {
			if baseName(ev.Name) == n {
				return i, ev
			}
		}
	}
	return -1, nil
}

func runC09(c *Ctx) {
	outs := runV2(c)
	for _, p := range c.all(outs) {
		if p.o.panic || isNilT(p.o.res[0]) {
			// nothing is returned: there must be an error or a retry
			if !p.o.panic {
				ok := p.F.possible(p.o.res[2], kNil())&EQ == 0 || isTrueT(p.o.res[1])
				c.Ob(ok, "refused", "VM.RunV2", p.where(), "no block is returned and there is neither an error nor a retry: %s", p.Describe())
			}
			continue
		}
		bl := balances(p)
		if pathHasSend(p) {
			sendBalance(c, p, bl, bcopy, "VM.RunV2 send")
			continue
		}
		receiveBalance(c, p, bl)
		// the send block is not changed
		for _, ev := range p.Evs {
			if ev.Kind == "store" || ev.Kind == "bigset" {
				r := ev.Args[0].root()
				bad := r.Op == "param" && (r.Sym == "2" || r.Sym == "3")
				c.Ob(!bad, "inputs-unchanged", "VM.RunV2", c.P.pos(ev.Pos), "the given block is changed: %v", ev.Args[0])
			}
		}
	}
	c.Floor("debit", 10)
	c.Floor("credit", 10)
	c.Floor("refund", 20)
	genRequests(c)
	balancePrims(c)
}

// sendBalance: an accepted send is debited exactly.
func sendBalance(c *Ctx, p *Path, bl []balEv, b, name string) {
	amount, fee := 0, 0
	blk := copyTerm(p)
	if blk == nil {
		c.Ob(false, "debit", name, p.where(), "the executed block is not a copy of the given one")
		return
	}
	feeV := p.o.st.big(p.o.st.load(mkFA(blk, "Fee", nil2)))
	for _, e := range bl {
		if e.add || !e.ok {
			c.Ob(false, "debit", name, c.P.pos(e.ev.Pos), "an accepted send has the balance change %v %v (credit %v, succeeded %v)", e.tok, e.amt, e.add, e.ok)
			continue
		}
		switch {
		case isT(e.tok, b+".TokenId") && isT(e.amt, b+".Amount") && amount == 0:
			amount++
		case strings.HasSuffix(e.tok.String(), "ViteTokenId") && (e.amt == feeV || isT(e.amt, b+".Fee")):
			fee++
		case isT(e.tok, b+".TokenId") && p.Holds(b+".TokenId == core.ViteTokenId") && e.amt == feeV:
			fee++
		default:
			c.Ob(false, "debit", name, c.P.pos(e.ev.Pos), "an accepted send is debited %v of %v", e.amt, e.tok)
		}
	}
	c.Ob(amount == 1, "debit", name, p.where(), "an accepted send is debited its amount %d times: %s", amount, p.Describe())
	zeroFee := feeV != nil && (feeV.String() == "0" || p.F.possible(feeV, kInt(0)) == EQ)
	want := 1
	if zeroFee {
		want = fee // debiting a zero fee is harmless
		if fee > 1 {
			want = 1
		}
	}
	c.Ob(fee == want, "debit", name, p.where(), "an accepted send with fee %v is debited the fee %d times: %s", feeV, fee, p.Describe())
}

func receiveBalance(c *Ctx, p *Path, bl []balEv) {
	const name = "VM.RunV2 receive"
	reset, _ := lastCall(p, "Reset")
	run, _ := lastCall(p, "runLoop", "DoReceive")
	var adds []balEv
	for _, e := range bl {
		if !e.add {
			c.Ob(false, "credit", name, c.P.pos(e.ev.Pos), "a receive debits the account directly")
			continue
		}
		if e.i > reset {
			adds = append(adds, e)
		}
	}
	errNil := p.F.possible(p.o.res[2], kNil())
	if reset < 0 {
		c.Ob(len(adds) == 1 && isT(adds[0].tok, "A3.TokenId") && isT(adds[0].amt, "A3.Amount"), "credit", name, p.where(), "a receive that keeps its effects credits %d balances, not the sent amount once: %s", len(adds), p.Describe())
		if run >= 0 {
			c.Ob(errNil == EQ, "credit", name, p.where(), "a failed execution keeps its effects: %s", p.Describe())
			if len(adds) == 1 {
				c.Ob(adds[0].i < run, "credit", name, p.where(), "the amount is credited after the execution")
			}
			// generated requests were executed
			d, ev := lastCall(p, "doSendBlockList")
			ok := d > run && p.F.possible(ext(ev.Res, 1), kNil()) == EQ
			c.Ob(ok, "requests", name, p.where(), "a contract receive succeeds without its generated requests having been executed: %s", p.Describe())
		} else {
			depth := p.o.res[2].String() == "util.ErrDepth"
			c.Ob(errNil == EQ || depth, "credit", name, p.where(), "a receive without execution ends with %v", p.o.res[2])
		}
		return
	}
	c.Ob(reset > run, "undo", name, p.where(), "effects are reset before the execution")
	c.Ob(errNil&EQ == 0 || run >= 0, "undo", name, p.where(), "a successful receive is undone: %s", p.Describe())
	// what is sent back
	create := p.Holds("A3.BlockType == 1")
	amt, fee := fld(param(3, nil), "Amount"), fld(param(3, nil), "Fee")
	pa, pf := p.F.possible(amt, kInt(0)), p.F.possible(fee, kInt(0))
	wantA := pa&GT != 0
	wantF := pf&GT != 0 && !create
	if wantA && pa != GT || wantF && pf != GT {
		// not decided on this path: the credit must be unconditional
	}
	gotA, gotF := 0, 0
	for _, e := range adds {
		vite := strings.HasSuffix(e.tok.String(), "ViteTokenId")
		switch {
		case isT(e.tok, "A3.TokenId") && isT(e.amt, "A3.Amount"):
			gotA++
		case vite && isT(e.amt, "A3.Fee"):
			gotF++
		case (vite || isT(e.tok, "A3.TokenId")) && p.Holds("A3.TokenId == core.ViteTokenId") && isT(e.amt, "A3.Amount + A3.Fee"):
			gotA++
			gotF++
		default:
			c.Ob(false, "refund", name, c.P.pos(e.ev.Pos), "after undoing a failed receive %v of %v is credited", e.amt, e.tok)
		}
	}
	b2i := map[bool]int{true: 1}
	c.Ob(gotA == b2i[wantA] || gotA == 1 && pa&GT == 0, "refund", name, p.where(), "after undoing a failed receive the amount is credited %d times: %s", gotA, p.Describe())
	c.Ob(gotF == b2i[wantF] || gotF == 1 && !create && pf&GT == 0, "refund", name, p.where(), "after undoing a failed receive the fee is credited %d times: %s", gotF, p.Describe())
	// each credit is sent back
	type req struct{ tok, amt *Term }
	var reqs []req
	for i, ev := range p.Evs {
		if i > reset && ev.Kind == "call" && baseName(ev.Name) == "MakeRequestBlock" {
			a := p.o.st.big(ev.Args[3])
			if ev.St != nil {
				a = ev.St.big(ev.Args[3])
			}
			c.Ob(isT(ev.Args[0], bcopy+".AccountAddress") && isT(ev.Args[1], "A3.AccountAddress"), "refund", name, c.P.pos(ev.Pos), "the refund goes from %v to %v", ev.Args[0], ev.Args[1])
			if a.String() != "0" {
				reqs = append(reqs, req{ev.Args[4], a})
			}
		}
	}
	ok := len(reqs) == len(adds)
	for _, e := range adds {
		found := false
		for _, r := range reqs {
			if r.amt == e.amt && r.tok == e.tok {
				found = true
			}
		}
		ok = ok && found
	}
	c.Ob(ok, "refund", name, p.where(), "the credits after undoing a failed receive are not exactly what is sent back (%d credits, %d requests): %s", len(adds), len(reqs), p.Describe())
	if len(reqs) > 0 {
		d, ev := lastCall(p, "doSendBlockList")
		c.Ob(d > reset && p.F.possible(ext(ev.Res, 1), kNil()) == EQ, "refund", name, p.where(), "the refund is not executed: %s", p.Describe())
		// the executed list is the refund only, and it is the block's list
		if d >= 0 && ev.St != nil {
			l := ev.St.load(mkFA(mkFA(param(0, nil), "vmContext", nil2), "sendBlockList", nil2))
			n := 0
			t := l
			for t != nil && t.Op == "append" {
				n += len(t.Args) - 1
				t = t.Args[0]
			}
			c.Ob(t != nil && isNilT(t) && n >= len(reqs), "refund", name, p.where(), "the executed requests %v are not only the refund", l)
		}
	}
}

// genRequests: every generated request is executed as a send of its kind.
func genRequests(c *Ctx) {
	f := c.Func(vmPkg, "VM.doSendBlockList")
	if f == nil {
		return
	}
	e := c.Opts([]string{vmPkg}, "AddBalance", "SubBalance", "CalcQuotaUsed", "GetBuiltinContractMethod", "LogTimerConsuming", "useQuotaForSend", "IsReceiveBlock", "updateBlock")
	outs := c.Paths(e, f)
	seen := map[*LoopInfo]bool{}
	for _, p := range c.success(outs, 1) {
		okAll := p.Holds("len(A0.vmContext.sendBlockList) <= 0") || p.Holds("len(A0.sendBlockList) <= 0") || p.Holds("len(A0.vmContext.sendBlockList) == 0")
		if !okAll {
			for _, l := range append(p.loopsOver("A0.vmContext.sendBlockList"), p.loopsOver("A0.sendBlockList")...) {
				okAll = okAll || l.full
			}
		}
		c.Ob(okAll, "requests", "VM.doSendBlockList", p.where(), "success is reported before every generated request was executed: %s", p.Describe())
		for _, ev := range p.Evs {
			if ev.Kind != "loop" || seen[ev.Loop] {
				continue
			}
			seen[ev.Loop] = true
			for _, it := range ev.Loop.Iters {
				q := &Path{c: c, o: Outcome{st: it, pos: ev.Pos}, F: it.facts, Evs: iterEvents(ev, it)}
				requestIter(c, q)
			}
		}
	}
	c.Floor("requests", 4)
}

func requestIter(c *Ctx, q *Path) {
	const name = "VM.doSendBlockList"
	var blk *Term
	for _, f := range q.F {
		for _, t := range []*Term{f.A, f.B} {
			t = stripConv(t)
			if t.Op == "field" && t.Sym == "BlockType" && t.Args[0].Op == "elem" {
				blk = t.Args[0]
			}
		}
	}
	if blk == nil {
		c.Ob(false, "requests", name, q.where(), "a generated request is not dispatched by its type: %s", q.Describe())
		return
	}
	bl := balances(q)
	bt := fld(blk, "BlockType")
	amount, fee := 0, 0
	feeV := q.o.st.big(q.o.st.load(mkFA(blk, "Fee", nil2)))
	for _, e := range bl {
		if e.add || !e.ok {
			c.Ob(false, "requests", name, c.P.pos(e.ev.Pos), "an executed request has the balance change %v %v", e.tok, e.amt)
			continue
		}
		switch {
		case e.tok == fld(blk, "TokenId") && e.amt == fld(blk, "Amount"):
			amount++
		case strings.HasSuffix(e.tok.String(), "ViteTokenId") && e.amt == feeV:
			fee++
		default:
			c.Ob(false, "requests", name, c.P.pos(e.ev.Pos), "an executed request is debited %v of %v", e.amt, e.tok)
		}
	}
	switch {
	case q.F.possible(bt, kInt(2)) == EQ, q.F.possible(bt, kInt(6)) == EQ:
		c.Ob(amount == 1, "requests", name, q.where(), "a generated request is executed without debiting its amount once (%d): %s", amount, q.Describe())
		zero := feeV.String() == "0"
		c.Ob(fee == 1 && !zero || zero && fee <= 1, "requests", name, q.where(), "a generated request with fee %v is debited its fee %d times", feeV, fee)
	case q.F.possible(bt, kInt(3)) == EQ:
		c.Ob(amount == 0 && fee == 0, "requests", name, q.where(), "an issued reward debits the account")
		ok := false
		for _, a := range []string{"types.AddressGovernance", "types.AddressAsset"} {
			if _, y := q.F.Find("X.AccountAddress == "+a, Bind{"X": blk}); y {
				ok = true
			}
		}
		c.Ob(ok, "reward", name, q.where(), "a reward is issued by an address other than the governance or asset contract: %s", q.Describe())
	default:
		c.Ob(false, "requests", name, q.where(), "a request of another type is passed on: %s", q.Describe())
	}
}

func balancePrims(c *Ctx) {
	e := func() *Engine { return c.Opts([]string{"vm/util"}, "DealWithErr") }
	if f := c.Func("vm/util", "AddBalance"); f != nil {
		for _, p := range c.all(c.Paths(e(), f)) {
			s := calls(p.Evs, "SetBalance")
			ok := len(s) == 1 && len(s[0].Args) == 3 && s[0].Args[1].String() == "A1" && isT(p.o.st.big(s[0].Args[2]), "GetBalance(A0, A1).R0 + A2")
			c.Ob(ok, "primitive", "AddBalance", p.where(), "the balance is not increased by the amount")
		}
	}
	if f := c.Func("vm/util", "SubBalance"); f != nil {
		for _, p := range c.all(c.Paths(e(), f)) {
			s := calls(p.Evs, "SetBalance")
			if isFalseT(p.o.res[0]) {
				c.Ob(len(s) == 0, "primitive", "SubBalance", p.where(), "a refused debit changes the balance")
				continue
			}
			ok := len(s) == 1 && s[0].Args[1].String() == "A1" && isT(p.o.st.big(s[0].Args[2]), "GetBalance(A0, A1).R0 - A2") && p.Holds("GetBalance(A0, A1).R0 >= A2")
			c.Ob(ok, "primitive", "SubBalance", p.where(), "the balance is not decreased by an amount it covers: %s", p.Describe())
		}
	}
}

func runC10(c *Ctx) {
	outs := runV2(c)
	for _, p := range c.all(outs) {
		if p.o.panic || isNilT(p.o.res[0]) {
			continue
		}
		const name = "VM.RunV2"
		st := p.o.st
		blk := copyTerm(p)
		if blk == nil {
			c.Ob(false, "copy", name, p.where(), "the executed block is not a copy of the given one")
			continue
		}
		q, qu := st.load(mkFA(blk, "Quota", nil2)), st.load(mkFA(blk, "QuotaUsed", nil2))
		// the last successful deduction before acceptance
		var uses []*Event
		for _, ev := range calls(p.Evs, "UseQuota") {
			uses = append(uses, ev)
		}
		total := mk("none", "", nil)
		if _, ev := lastCall(p, "GetQuotaForBlock"); ev != nil {
			total = ext(ev.Res, 0)
		}
		for _, ev := range calls(p.Evs, "GetQuotaForBlock") {
			ok := isT(ev.Args[0], "A1") && isT(ev.Args[1], "Copy(A2).AccountAddress") && isT(ev.Args[2], "getStakeBeneficialAmount(A1)") && isT(ev.Args[3], "Copy(A2).Difficulty") && isT(ev.Args[4], "LatestSnapshotBlock(A1).R0.Height")
			c.Ob(ok, "quota-of", name, c.P.pos(ev.Pos), "the available quota is computed for %s, not for the block's account, its stake and the block's proof of work at the latest snapshot", joinT(ev.Args))
		}
		kindSend := pathHasSend(p)
		if !kindSend && !p.Holds("!IsReceiveBlock(Copy(A2))") {
			lh := st.load(mkFA(blk, "LogHash", nil2))
			c.Ob(isT(lh, "GetLogListHash(_)"), "log-hash", name, p.where(), "the log hash recorded in a receive block is %s: %s", trunc(lh.String(), 150), p.Describe())
		}
		switch {
		case kindSend:
			ok := len(uses) == 1 && uses[0].Args[0] == total && p.F.possible(ext(uses[0].Res, 1), kNil()) == EQ && costTerm(c, p, uses[0].Args[1], true)
			c.Ob(ok, "send-paid", name, p.where(), "a send is accepted without its quota being deducted from the available quota: %s", p.Describe())
			if ok {
				quotaRecorded(c, p, q, qu, total, ext(uses[0].Res, 0), kNil())
			}
		case p.Holds("A3.BlockType == 1"):
			ok := len(uses) >= 1 && p.F.possible(ext(uses[0].Res, 1), kNil()) == EQ && isT(uses[0].Args[1], "gasReceiveCreate(___).R0") && uses[0].Args[0] == c.Const("vm/quota", "QuotaForCreateContractResponse")
			c.Ob(ok, "receive-paid", name, p.where(), "a contract creation is accepted without deducting its quota from the fixed allowance: %s", p.Describe())
			c.Ob(isZero(q) && isZero(qu), "recorded", name, p.where(), "a contract creation records quota %v, %v", q, qu)
		default:
			depth := p.o.res[2].String() == "util.ErrDepth"
			bi := p.Holds("GetBuiltinContractMethod(___).R1")
			inUse := p.Holds("IsBuiltinContractAddrInUse(Copy(A2).AccountAddress)")
			switch {
			case depth:
				c.Ob(isZero(q) && isZero(qu), "recorded", name, p.where(), "quota %v, %v is recorded for a call that is too deep", q, qu)
			case bi:
				var used *Term
				if _, ev := lastCall(p, "GetReceiveQuota"); ev != nil {
					used = ev.Res
				}
				free := used != nil && p.F.possible(used, kInt(0))&GT == 0
				ok := free || len(uses) == 1 && used != nil && uses[0].Args[0] == total && uses[0].Args[1] == used && p.F.possible(ext(uses[0].Res, 1), kNil()) == EQ
				c.Ob(ok, "receive-paid", name, p.where(), "a built-in contract executes without the quota its method needs: %s", p.Describe())
				c.Ob(used != nil && (q == used || free && isZero(q)) && (qu == used || free && isZero(qu)), "recorded", name, p.where(), "a built-in contract records quota %v, %v", q, qu)
			case inUse && len(uses) == 0:
				c.Ob(true, "receive-paid", name, p.where(), "")
				quotaRecorded(c, p, q, qu, kInt(0), kInt(0), kNil())
			default:
				ok := len(uses) == 1 && uses[0].Args[0] == total && p.F.possible(ext(uses[0].Res, 1), kNil()) == EQ && costTerm(c, p, uses[0].Args[1], false)
				c.Ob(ok, "receive-paid", name, p.where(), "a receive is accepted without its quota being deducted from the available quota: %s", p.Describe())
				if ok {
					left := ext(uses[0].Res, 0)
					if _, ev := lastCall(p, "newContract"); ev != nil {
						c.Ob(ev.Args[4] == left, "receive-paid", name, c.P.pos(ev.Pos), "the contract runs with quota %v", ev.Args[4])
						left = nil
					}
					quotaRecorded(c, p, q, qu, total, left, p.o.res[2])
				}
			}
		}
	}
	if f := c.Func(vmPkg, "getStakeBeneficialAmount"); f != nil {
		for _, p := range c.all(c.Paths(c.Opts([]string{vmPkg}, "DealWithErr"), f)) {
			c.Ob(p.o.panic || isT(p.o.res[0], "GetStakeBeneficialAmount(A0, Address(A0)).R0"), "quota-of", "getStakeBeneficialAmount", p.where(), "the account's stake is read as %v", p.o.res)
		}
	}
	c.Floor("quota-of", 10)
	c.Floor("log-hash", 20)
	c.Floor("send-paid", 10)
	c.Floor("receive-paid", 30)
	c.Floor("recorded", 40)
	quotaPrims(c)
}

func isZero(t *Term) bool { return t != nil && t.Op == "const" && t.Sym == "0" }

func copyTerm(p *Path) *Term {
	for _, ev := range calls(p.Evs, "Copy") {
		if len(ev.Args) == 1 && ev.Args[0].String() == "A2" {
			return ev.Res
		}
	}
	return nil
}

// costTerm: the deducted cost is a computed quota cost (times the multiplier).
func costTerm(c *Ctx, p *Path, t *Term, send bool) bool {
	pats := []string{"gasReceive(___).R0"}
	if send {
		pats = []string{"gasSendCreate(___).R0", "MultipleCost(gasSendCall(___).R0, getQuotaMultiplierForS(___).R0).R0", "GetSendQuota(___).R0"}
	}
	for _, s := range pats {
		if isT(t, s) {
			return p.F.possible(ext(t.Args[0], 1), kNil()) == EQ
		}
	}
	return false
}

// quotaRecorded: the block records CalcQuotaUsed(true, total, addition, left, err).
func quotaRecorded(c *Ctx, p *Path, q, qu, total, left, err *Term) {
	const name = "VM.RunV2"
	ok := q.Op == "ext" && qu.Op == "ext" && q.Args[0] == qu.Args[0] && q.Sym == "0" && qu.Sym == "1" && strings.Contains(q.Args[0].Sym, "CalcQuotaUsed")
	if !c.Ob(ok, "recorded", name, p.where(), "the block records quota %v, %v", q, qu) {
		return
	}
	a := q.Args[0].Args
	ok = isTrueT(a[0]) && a[1] == total
	if total.Op == "ext" {
		ok = ok && a[2] == ext(total.Args[0], 1)
	}
	if left != nil {
		ok = ok && a[3] == left
	} else {
		ok = ok && strings.Contains(a[3].String(), "quotaLeft") && strings.Contains(a[3].String(), "newContract")
	}
	if p.F.possible(err, kNil()) == EQ {
		ok = ok && p.F.possible(a[4], kNil()) == EQ
	} else {
		ok = ok && a[4] == err
	}
	c.Ob(ok, "recorded", name, p.where(), "the recorded quota is computed from %v", q.Args[0])
}

func quotaPrims(c *Ctx) {
	e := func() *Engine { return c.Opts([]string{"vm/util"}) }
	if f := c.Func("vm/util", "UseQuota"); f != nil {
		for _, p := range c.all(c.Paths(e(), f)) {
			if isNilT(p.o.res[1]) {
				c.Ob(isT(p.o.res[0], "A0 - A1") && p.Holds("A0 >= A1"), "primitive", "UseQuota", p.where(), "quota left becomes %v: %s", p.o.res[0], p.Describe())
			} else {
				c.Ob(p.o.res[1].String() == "util.ErrOutOfQuota" && p.Holds("A0 < A1"), "primitive", "UseQuota", p.where(), "refused although covered: %s", p.Describe())
			}
		}
	}
	if f := c.Func("vm/util", "CalcQuotaUsed"); f != nil {
		for _, p := range c.all(c.Paths(e(), f)) {
			a, b := p.o.res[0], p.o.res[1]
			zero := isZero(a) && isZero(b) && (p.Holds("!A0") || p.Holds("A4 == util.ErrOutOfQuota"))
			live := p.Holds("A0") && p.Holds("A4 != util.ErrOutOfQuota") && isT(b, "A1 - A3")
			pow := isZero(a) && (p.Holds("A1 - A3 < A2") || p.Holds("A1 - A3 <= A2"))
			stake := isT(a, "A1 - A3 - A2") && (p.Holds("A1 - A3 >= A2") || p.Holds("A1 - A3 > A2"))
			c.Ob(zero || live && (pow || stake), "primitive", "CalcQuotaUsed", p.where(), "quota used is %v, %v: %s", a, b, p.Describe())
		}
		c.Floor("primitive", 6)
	}
	if f := c.Func("vm/util", "MultipleCost"); f != nil {
		for _, p := range c.all(c.Paths(e(), f)) {
			if !isNilT(p.o.res[1]) {
				continue
			}
			r := p.o.res[0]
			id := isT(r, "A0") && p.Holds("A1 == 10")
			mul := (isT(r, "A0 * A1 / 10") || isT(r, "A1 * A0 / 10")) && (p.Holds("A0 <= 18446744073709551615 / A1")) && p.Holds("A1 >= 10")
			c.Ob(id || mul, "primitive", "MultipleCost", p.where(), "the multiplied cost is %v: %s", r, p.Describe())
		}
	}
}

func runC11(c *Ctx) {
	outs := runV2(c)
	nSend, nRecv := 0, 0
	for _, p := range c.all(outs) {
		if p.o.panic || isNilT(p.o.res[0]) {
			continue
		}
		const name = "VM.RunV2"
		need := func(rule, what string, alts ...string) {
			ok := false
			for _, a := range alts {
				all := true
				for _, x := range strings.Split(a, " && ") {
					all = all && p.Holds(x)
				}
				ok = ok || all
			}
			c.Ob(ok, rule, name, p.where(), "%s: %s", what, p.Describe())
		}
		if pathHasSend(p) && p.Holds("Copy(A2).BlockType == 1") {
			nSend++
			D := "Copy(A2).Data"
			seed := p.Holds("IsSeedUpgrade(_)")
			noseed := p.Holds("!IsSeedUpgrade(_)")
			c.Ob(seed || noseed, "create-params", name, p.where(), "the parameters are not checked according to the upgrade height: %s", p.Describe())
			if noseed {
				need("create-params", "too short create data is accepted", "len("+D+") >= 13")
			} else {
				need("create-params", "too short create data is accepted", "len("+D+") >= 14")
			}
			need("create-params", "the snapshot group is accepted", "GetGidFromCreateContractData("+D+") != types.SNAPSHOT_GID", "GetGidFromCreateContractData("+D+").R0 != types.SNAPSHOT_GID")
			need("create-params", "an unknown contract type is accepted", "IsExistContractType(GetContractTypeFromCreateContractData("+D+"))")
			sc := "GetSnapshotCountFromCreateContractData(" + D + ")"
			need("create-params", "the response latency is not limited", sc+" <= 75")
			qm := "GetQuotaMultiplierFromCreateContractData(" + D + ", _)"
			need("create-params", "the quota multiplier is not limited", qm+" >= 10 && "+qm+" <= 100")
			if noseed {
				need("create-params", "code that reads snapshot data needs a latency", "!ContainsStatusCode(GetCodeFromCreateContractData("+D+", _))", sc+" > 0")
			} else {
				ss := "GetSnapshotWithSeedCountCountFromCreateContractData(" + D + ")"
				need("create-params", "the random degree is not limited", ss+" <= 75 && "+sc+" >= "+ss)
				need("create-params", "code that reads snapshot data needs a latency", "!ContainsCertainStatusCode(GetCodeFromCreateContractData("+D+", _)).R0", sc+" > 0")
				need("create-params", "code that reads random numbers needs a random degree", "!ContainsCertainStatusCode(GetCodeFromCreateContractData("+D+", _)).R1", ss+" > 0")
			}
			blk := copyTerm(p)
			to := p.o.st.load(mkFA(blk, "ToAddress", nil2))
			c.Ob(isT(to, "NewContractAddress(Copy(A2).AccountAddress, Copy(A2).Height, Copy(A2).PrevHash)"), "create-address", name, p.where(), "the contract address is %v", to)
			ms := calls(p.Evs, "SetContractMeta")
			ok := len(ms) == 1 && ms[0].Args[1] == to
			if ok {
				m := ms[0].Args[2]
				st := p.o.st
				ok = isT(st.load(mkFA(m, "Gid", nil2)), "GetGidFromCreateContractData("+D+")") && isT(st.load(mkFA(m, "SendConfirmedTimes", nil2)), sc) && isT(st.load(mkFA(m, "QuotaRatio", nil2)), qm)
				s := st.load(mkFA(m, "SeedConfirmedTimes", nil2))
				if noseed {
					ok = ok && isT(s, sc)
				} else {
					ok = ok && isT(s, "GetSnapshotWithSeedCountCountFromCreateContractData("+D+")")
				}
			}
			c.Ob(ok, "create-meta", name, p.where(), "the contract's meta data does not record the create parameters")
			continue
		}
		if !pathHasSend(p) && p.Holds("A3.BlockType == 1") {
			nRecv++
			need("create-collision", "a contract is created on an address with history", "PrevAccountBlock(A1).R0 == nil")
			sets := calls(p.Evs, "SetContractCode")
			reset, _ := lastCall(p, "Reset")
			okRes := p.F.possible(p.o.res[2], kNil()) == EQ && reset < 0
			if okRes {
				run, ev := lastCall(p, "runLoop")
				c.Ob(len(sets) == 1 && run >= 0 && p.F.possible(ext(ev.Res, 1), kNil()) == EQ, "create-code", name, p.where(), "a creation succeeds without storing the code of a successful initialisation: %s", p.Describe())
				if len(sets) == 1 && run >= 0 {
					code := sets[0].Args[1]
					c.Ob(isT(code, "PackContractCode(GetContractTypeFromCreateContractData(A3.Data), _)") && code.has(ext(ev.Res, 0)), "create-code", name, p.where(), "the stored code is %v", code)
					big := p.F.possible(mk("len", "", nil2, ext(ev.Res, 0)), c.Const(vmPkg, "maxCodeSize"))
					c.Ob(big&GT == 0, "create-code", name, p.where(), "code above the size limit is stored: %s", p.Describe())
					paid := false
					for _, u := range calls(p.Evs, "UseQuota") {
						if u.Args[1].mentions(func(t *Term) bool { return t.Op == "field" && t.Sym == "CodeQuota" }) && u.Args[1].has(code) && p.F.possible(ext(u.Res, 1), kNil()) == EQ {
							paid = true
						}
					}
					c.Ob(paid, "create-code", name, p.where(), "the code is stored without paying for its size: %s", p.Describe())
				}
			} else {
				last := -1
				for i, ev := range p.Evs {
					if ev.Kind == "call" && baseName(ev.Name) == "SetContractCode" {
						last = i
					}
				}
				c.Ob(last < reset, "create-code", name, p.where(), "a failed creation keeps its code: %s", p.Describe())
			}
		}
		if !pathHasSend(p) && !p.Holds("A3.BlockType == 1") {
			if run, _ := lastCall(p, "runLoop", "DoReceive"); run >= 0 && (p.Holds("A3.BlockType == 2")) {
				ok := false
				for _, s := range []string{"GetCallDepth(A1, &A3.Hash).R0 < 512", "checkDepth(___) == false"} {
					ok = ok || p.Holds(s)
				}
				c.Ob(ok, "call-depth", name, p.where(), "a call is executed without its depth being below the limit: %s", p.Describe())
			}
		}
	}
	c.Ob(nSend > 0 && nRecv > 0, "coverage", "VM.RunV2", "", "no accepting creation path found")
	c.Floor("create-params", 20)
	c.Floor("create-code", 4)
	c.Floor("call-depth", 10)
	createLayout(c)
}

// createLayout: create data is group (10), type, latency, [random degree,] multiplier, code.
func createLayout(c *Ctx) {
	want := map[string][2]string{
		"GetGidFromCreateContractData":                        {"BytesToGid(A0[:10]).R0", ""},
		"GetContractTypeFromCreateContractData":               {"A0[10]", ""},
		"GetSnapshotCountFromCreateContractData":              {"A0[11]", ""},
		"GetSnapshotWithSeedCountCountFromCreateContractData": {"A0[12]", ""},
		"GetQuotaMultiplierFromCreateContractData":            {"A0[12]", "A0[13]"},
		"GetCodeFromCreateContractData":                       {"A0[13:]", "A0[14:]"},
	}
	for _, n := range sortedKeys(want) {
		f := c.Func("vm/util", n)
		if f == nil {
			continue
		}
		w := want[n]
		e := c.Opts([]string{"vm/util"}, "BytesToGid", "IsSeedUpgrade")
		for _, p := range c.all(c.Paths(e, f)) {
			exp := w[0]
			if w[1] != "" && p.Holds("IsSeedUpgrade(A1)") {
				exp = w[1]
			}
			known := w[1] == "" || p.Holds("IsSeedUpgrade(A1)") || p.Holds("!IsSeedUpgrade(A1)")
			c.Ob(known && isT(p.o.res[0], exp), "create-layout", n, p.where(), "the parameter is read from %v, expected %s", p.o.res[0], exp)
		}
	}
	c.Floor("create-layout", 8)
	if f := c.Func("vm/util", "NewContractAddress"); f != nil {
		for _, p := range c.all(c.Paths(c.Opts([]string{"vm/util"}, "CreateContractAddress", "LeftPadBytes", "Bytes"), f)) {
			t := p.o.res[0]
			ok := t.mentions(func(x *Term) bool { return x.Op == "param" && x.Sym == "0" }) && t.mentions(func(x *Term) bool { return x.Op == "param" && x.Sym == "1" }) && t.mentions(func(x *Term) bool { return x.Op == "param" && x.Sym == "2" })
			c.Ob(ok, "create-address", "NewContractAddress", p.where(), "a contract address does not depend on the creator, its height and the previous hash: %v", t)
		}
	}
	if f := c.Func("vm/util", "IsExistContractType"); f != nil {
		for _, p := range c.all(c.Paths(c.Opts([]string{"vm/util"}), f)) {
			ok := isFalseT(p.o.res[0]) || p.Holds("A0 == 1") || isT(p.o.res[0], "A0 == 1")
			c.Ob(ok, "create-params", "IsExistContractType", p.where(), "an unknown contract type exists")
		}
	}
}

func constOf(c *Ctx, rel, name string) string { return c.Const(rel, name).String() }
