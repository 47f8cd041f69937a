package main

const verPkg = "ledger/verifier"

func init() {
	register(&Prop{
		ID:    "C01",
		Title: "No account block is accepted from the network or an RPC client unauthenticated",
		Statement: "An account block received from the network, or submitted through the RPC path, is accepted only if its hash is non-zero and equals the hash recomputed from its content, every block sent by a contract inside it carries the hash recomputed for its own position, and its signature verifies with its public key over that hash. " +
			"The only blocks accepted without a signature check are the ones the chain reports as genesis blocks and contract-sent blocks, and the latter must then carry neither signature nor public key.",
		Over:      []string{"inputs", "histories"},
		Quant:     "every block content, every combination of block type and account kind, every outcome of the chain queries made on the way",
		Why:       "The verifier package does not compile without the missing genesis constant, so no stable test runs it; a test would sample a few malformed blocks, not every combination of fields.",
		Files:     []string{"ledger/verifier/verifier.go", "ledger/verifier/account_verifier.go"},
		Mech:      [][2]string{{"hash check", "account_verifier.go verifyHash"}, {"signature check", "account_verifier.go verifySignature"}, {"entry points", "verifier.go VerifyNetAccountBlock, VerifyRPCAccountBlock"}},
		Technique: "path-partitioned dataflow over SSA: must-facts at every accepting return",
		Note:      "Decides, for every control-flow path through the entry points (helpers inlined), that accepting implies the listed comparisons and the signature call with these operands. Trusts the recomputation and signature primitives themselves (separate properties cover the hash content) and assumes distinct pointers do not alias.",
		Run:       runC01,
	})
	register(&Prop{
		ID:    "C02",
		Title: "An account block enters the ledger only in sequence and with legal fields",
		Statement: "A block passes ledger verification only if it directly extends its account's latest block (height one more and previous hash equal, or height one with an empty previous hash on an empty account), a receive block names an existing, not yet received send addressed to this very account, a user's block is produced by the owner of the account's address, and a contract's receive is by an authorised producer, in the per-caller order of its pending sends, and after the confirmation and seed confirmation counts its contract demands. " +
			"Amounts and fees of a send (also of sends inside a contract receive) are non-negative and within 256 bits, a send names no source block, contract sends carry no signature, a receive carries no token, amount, fee or destination, and only contracts may attach data or sends to a receive. " +
			"A proof-of-work nonce is accepted only from a user account, together with a difficulty, with a length of eight bytes, and after the check over the account address and previous hash; without a nonce no difficulty may be present.",
		Over:      []string{"inputs", "histories"},
		Quant:     "every block and every chain state, i.e. all outcomes of the chain, on-road and consensus queries",
		Why:       "The verifier is untested here (it does not compile in the test setup); the property ranges over all field combinations and chain states.",
		Files:     []string{"ledger/verifier/account_verifier.go", "ledger/verifier/verifier.go"},
		Mech:      [][2]string{{"self checks", "account_verifier.go verifySelf"}, {"dependency checks", "account_verifier.go verifyDependency"}, {"producer checks", "account_verifier.go verifyProducerLegality"}},
		Technique: "path-partitioned dataflow over SSA: must-facts at every accepting return",
		Note:      "Every accepting path of the referred-block verification must entail each listed comparison over the block and the queried chain values. Does not verify what the chain queries return.",
		Run:       runC02,
	})
	register(&Prop{
		ID:    "C03",
		Title: "Accepted account blocks equal the result of re-executing them",
		Statement: "The pool and RPC entry points hand back a block for insertion only after every field, dependency and authenticity check of the respective path succeeded and the block was executed again by the virtual machine against the previous block and the given snapshot, and only if the re-executed block's hash equals the verified block's hash. " +
			"A block with a missing dependency is never executed nor handed back.",
		Over:      []string{"inputs", "histories"},
		Quant:     "every block, snapshot and outcome of the checks and of the virtual machine",
		Why:       "No stable test compiles the verifier; equality with re-execution has to hold for every block.",
		Files:     []string{"ledger/verifier/verifier.go", "ledger/verifier/account_verifier.go"},
		Mech:      [][2]string{{"re-execution", "account_verifier.go vmVerify"}, {"comparison", "account_verifier.go verifyVMResult"}},
		Technique: "path-partitioned dataflow over SSA: typestate (checks before execution) and must-facts at accepting returns",
		Note:      "Decides order and guards on all paths; trusts the generator's execution (own properties).",
		Run:       runC03,
	})
	register(&Prop{
		ID:    "C04",
		Title: "Snapshot blocks are accepted only authenticated, in sequence and by schedule",
		Statement: "A snapshot block from the network is accepted only with a timestamp that is present and not more than the allowed distance ahead of the local clock (one hour, twenty seconds since version 13), with a hash equal to the hash recomputed from its content, and with a valid signature over it unless it is the genesis block. " +
			"Before it is appended it must have exactly the next height and the hash of the current head as its previous hash, a timestamp strictly after the head's, every account entry in its content must name a block known to the chain whose hash matches at that height, and the consensus must confirm its producer.",
		Over:      []string{"inputs", "histories"},
		Quant:     "every snapshot block, head and outcome of the chain and consensus queries",
		Why:       "No stable test compiles the verifier; the property ranges over all blocks and chain states.",
		Files:     []string{"ledger/verifier/snapshot_verifier.go"},
		Mech:      [][2]string{{"net checks", "snapshot_verifier.go VerifyNetSb"}, {"referred checks", "snapshot_verifier.go VerifyReferred"}},
		Technique: "path-partitioned dataflow over SSA: must-facts at every accepting return",
		Note:      "Decides guards on all accepting paths; the consensus producer check is its own property.",
		Run:       runC04,
	})
}

func (p *Path) isContract(b string) bool { return p.Holds(b + ".AccountAddress[20] == 1") }
func (p *Path) mayContract(t *Term) bool {
	return p.F.possible(mk("elem", "", nil, fld(t, "AccountAddress"), kInt(20)), kInt(1))&EQ != 0
}
func (p *Path) mustContract(t *Term) bool {
	return p.F.possible(mk("elem", "", nil, fld(t, "AccountAddress"), kInt(20)), kInt(1)) == EQ
}

// blockKind: may the block be a send / a receive on this path?
func (p *Path) maySend(t *Term) bool {
	bt := fld(t, "BlockType")
	for _, k := range []int64{1, 2, 3, 6} {
		if p.F.possible(bt, kInt(k))&EQ != 0 {
			return true
		}
	}
	return false
}
func (p *Path) mustSend(t *Term) bool {
	bt := fld(t, "BlockType")
	for _, k := range []int64{1, 2, 3, 6} {
		if p.F.possible(bt, kInt(k)) == EQ {
			return true
		}
	}
	return false
}
func (p *Path) mayReceive(t *Term) bool {
	bt := fld(t, "BlockType")
	for _, k := range []int64{4, 5, 7} {
		if p.F.possible(bt, kInt(k))&EQ != 0 {
			return true
		}
	}
	return false
}

// authenticated checks the clauses of C01 on one accepting path for block A1.
func authenticated(c *Ctx, p *Path, entry string) {
	b := param(1, nil)
	c.Ob(p.Holds("A1.Hash != types.ZERO_HASH"), "hash-nonzero", entry, p.where(), "a block with a zero hash is accepted: %s", p.Describe())
	c.Ob(p.Holds("ComputeHash(A1) == A1.Hash"), "hash-recomputed", entry, p.where(), "a block is accepted without its hash matching the recomputed one: %s", p.Describe())
	// embedded sends
	okSub := !p.mayContract(b) || p.mustSend(b) || p.Holds("len(A1.SendBlockList) <= 0") ||
		p.forAll("A1.SendBlockList", func(it *Path, l seqLoop) bool {
			bd, ok := it.Bind("X[Y].Hash == ComputeSendHash(X[Y], A1, Y)")
			return ok && bd["X"] == l.seq && stripConv(bd["Y"]) == l.idx
		})
	c.Ob(okSub, "sub-send-hash", entry, p.where(), "a contract receive is accepted without each embedded send's hash being recomputed at its index: %s", p.Describe())
	// signature
	switch {
	case p.Holds("IsGenesisAccountBlock(_, A1.Hash)"):
		c.Ob(true, "signature", entry, p.where(), "")
	case p.Holds("VerifySig(A1.PublicKey, A1.Hash, A1.Signature).R0") || p.Holds("VerifySig(A1.PublicKey, A1.Hash, A1.Signature)"):
		c.Ob(p.Holds("VerifySig(A1.PublicKey, A1.Hash, A1.Signature).R1 == nil"), "signature", entry, p.where(), "signature error ignored: %s", p.Describe())
	default:
		ok := p.mustContract(b) && p.mustSend(b) && p.Holds("len(A1.Signature) <= 0") && p.Holds("len(A1.PublicKey) <= 0")
		c.Ob(ok, "signature", entry, p.where(), "a block is accepted without a verified signature and is neither genesis nor a bare contract send: %s", p.Describe())
	}
}

func runC01(c *Ctx) {
	for _, f := range []string{"verifier.VerifyNetAccountBlock", "verifier.VerifyRPCAccountBlock"} {
		fn := c.Func(verPkg, f)
		if fn == nil {
			continue
		}
		e := c.Opts([]string{verPkg}, "verifyReferred", "vmVerify", "ComputeHash", "ComputeSendHash")
		e.collapse = true
		outs := c.Paths(e, fn)
		idx := fn.Signature.Results().Len() - 1
		for _, p := range c.success(outs, idx) {
			authenticated(c, p, fnName(fn))
		}
	}
	c.Floor("hash-recomputed", 4)
	c.Floor("signature", 4)
}

// must: facts of the path entail "a rel b".
func (p *Path) must(a *Term, mask int, b *Term) bool { return p.F.implies(a, b, mask) }

func (p *Path) amountOK(t *Term) bool {
	if p.must(t, EQ, kNil()) {
		return true
	}
	return p.must(t, GE, kInt(0)) && p.must(mk("pcall", "big.Int.BitLen", nil, t), LE, kInt(256))
}

func glob(n string) *Term { return mk("global", n, nil) }

var sendClauses = []string{"amount in 0..2^256", "fee in 0..2^256", "an amount has a token", "no source block", "contract send unsigned"}

func (p *Path) sendClause(k string, b *Term) bool {
	am := fld(b, "Amount")
	switch k {
	case sendClauses[0]:
		return p.amountOK(am)
	case sendClauses[1]:
		return p.amountOK(fld(b, "Fee"))
	case sendClauses[2]:
		return p.must(fld(b, "TokenId"), NE, glob("types.ZERO_TOKENID")) || p.must(am, EQ, kNil()) || p.must(am, EQ, kInt(0))
	case sendClauses[3]:
		return p.must(fld(b, "FromBlockHash"), EQ, glob("types.ZERO_HASH"))
	}
	return !p.mayContract(b) || p.must(mk("len", "", nil, fld(b, "Signature")), LE, kInt(0)) && p.must(mk("len", "", nil, fld(b, "PublicKey")), LE, kInt(0))
}

func referredRules(c *Ctx, p *Path, entry string) {
	b := param(1, nil)
	ob := func(v bool, rule, msg string) {
		c.Ob(v, rule, entry, p.where(), "%s: %s", msg, p.Describe())
	}
	// sequence
	bd, okL := p.Bind("A1.Height == X.Height + 1 && A1.PrevHash == X.Hash")
	if okL {
		_, okL = matchT(pat("GetLatestAccountBlock(_, A1.AccountAddress)"), bd["X"], Bind{})
	}
	first := p.Holds("A1.Height == 1") && p.Holds("A1.PrevHash == types.ZERO_HASH") && p.Holds("GetLatestAccountBlock(_, A1.AccountAddress) == nil")
	ob(okL || first, "extends-latest", "the block is accepted without extending the account's latest block")
	contract, user := p.mayContract(b), !p.mustContract(b)
	if contract {
		ob(p.Holds("GetContractMeta(_, A1.AccountAddress) != nil"), "contract-exists", "a contract block is accepted without the contract's existence")
	}
	if user {
		ob(p.Holds("PubkeyToAddress(A1.PublicKey) == A1.AccountAddress"), "user-producer", "a user block is accepted without its public key owning the address")
		if p.maySend(b) {
			ob(p.Holds("A1.Height > 1"), "user-send-height", "a user's first block is accepted as a send")
		}
	}
	if p.mayReceive(b) {
		ob(p.Holds("A1.FromBlockHash != types.ZERO_HASH"), "receive-source", "a receive is accepted without naming a send")
		ob(p.Holds("GetAccountBlockByHash(_, A1.FromBlockHash) != nil"), "receive-source-exists", "a receive is accepted without its send existing")
		ob(p.Holds("!IsReceived(_, A1.FromBlockHash).R0") || p.Holds("!IsReceived(_, A1.FromBlockHash)"), "not-received-twice", "a receive is accepted although its send may already be received")
		ob(p.Holds("IsReceived(_, A1.FromBlockHash).R1 == nil"), "not-received-twice-err", "the already-received query's error is ignored")
		ob(p.Holds("GetAccountBlockByHash(_, A1.FromBlockHash).ToAddress == A1.AccountAddress"), "receive-addressee", "a receive is accepted by an account the send is not addressed to")
		if contract {
			ob(p.Holds("VerifyAccountProducer(_, A1).R0") || p.Holds("VerifyAccountProducer(_, A1)"), "contract-producer", "a contract receive is accepted without its producer being verified")
			seq := false
			for _, m := range []string{"A1.AccountAddress", "S.ToAddress"} {
				_ = m
			}
			for _, f := range p.F {
				if f.Mask == EQ && isTrueT(f.B) {
					if bd, ok := matchT(pat("IsFrontOnRoadOfCaller(_, X.Gid, Y.ToAddress, Y.AccountAddress, Y.Hash)"), f.A, Bind{}); ok {
						_, s1 := matchT(pat("GetAccountBlockByHash(_, A1.FromBlockHash)"), bd["Y"], Bind{})
						_, m1 := matchT(pat("GetContractMeta(_, A1.AccountAddress)"), bd["X"], Bind{})
						_, m2 := matchT(pat("GetContractMeta(_, GetAccountBlockByHash(_, A1.FromBlockHash).ToAddress)"), bd["X"], Bind{})
						if s1 && (m1 || m2) {
							seq = true
						}
					}
				}
			}
			ob(seq && p.Holds("IsFrontOnRoadOfCaller(___).R1 == nil"), "contract-sequence", "a contract receive is accepted out of the caller's order")
			noConf := p.Holds("GetContractMeta(_, A1.AccountAddress).SendConfirmedTimes <= 0")
			ob(noConf || p.Holds("GetConfirmedTimes(_, A1.FromBlockHash) >= GetContractMeta(_, A1.AccountAddress).SendConfirmedTimes"), "confirmed-times", "a contract receive is accepted before its send is confirmed often enough")
			ob(noConf || p.Holds("!IsSeedUpgrade(A2.Height)") || p.Holds("GetContractMeta(_, A1.AccountAddress).SeedConfirmedTimes <= 0") ||
				p.Holds("IsSeedConfirmedNTimes(_, A1.FromBlockHash, GetContractMeta(_, A1.AccountAddress).SeedConfirmedTimes)"), "seed-confirmed-times", "a contract receive is accepted before enough seeds confirm its send")
		}
	}
	if !p.mustSend(b) {
		ob(p.Holds("A1.TokenId == types.ZERO_TOKENID"), "receive-token", "a receive with a token is accepted")
		ob(p.must(fld(b, "Amount"), EQ, kNil()) || p.must(fld(b, "Amount"), EQ, kInt(0)), "receive-amount", "a receive with an amount is accepted")
		ob(p.must(fld(b, "Fee"), EQ, kNil()) || p.must(fld(b, "Fee"), EQ, kInt(0)), "receive-fee", "a receive with a fee is accepted")
		ob(p.Holds("A1.ToAddress == types.ZERO_ADDRESS"), "receive-destination", "a receive with a destination is accepted")
		if user {
			ob(p.Holds("len(A1.Data) <= 0"), "receive-data", "a user's receive with data is accepted")
			ob(p.Holds("len(A1.SendBlockList) <= 0"), "receive-sends", "a user's receive with sends is accepted")
		}
		for _, k := range sendClauses {
			ok := p.Holds("len(A1.SendBlockList) <= 0") || p.forAll("A1.SendBlockList", func(it *Path, l seqLoop) bool {
				return l.idx != nil && it.sendClause(k, mk("elem", "", nil, l.seq, l.idx))
			})
			ob(ok, "sub-send/"+k, "a contract receive is accepted without this check on each embedded send")
		}
	}
	if p.maySend(b) {
		for _, k := range sendClauses {
			ob(p.sendClause(k, b), "send/"+k, "a send is accepted without this check")
		}
	}
	// proof of work
	if p.must(mk("len", "", nil, fld(b, "Nonce")), EQ, kInt(0)) {
		ob(p.Holds("A1.Difficulty == nil"), "no-nonce-no-difficulty", "a difficulty without a nonce is accepted")
	} else {
		ob(p.must(mk("len", "", nil, fld(b, "Nonce")), EQ, kInt(8)), "nonce-length", "a nonce of other than 8 bytes is accepted")
		ob(!contract, "nonce-user-only", "a contract block with proof of work is accepted")
		ob(p.Holds("A1.Difficulty != nil"), "nonce-difficulty", "a nonce without difficulty is accepted")
		okp := false
		for _, f := range p.F {
			if f.Mask == EQ && isTrueT(f.B) {
				if bd, ok := matchT(pat("CheckPowNonce(A1.Difficulty, A1.Nonce, Hash256(X))"), f.A, Bind{}); ok {
					x := bd["X"]
					if x.Op == "list" && len(x.Args) == 2 {
						_, o1 := matchT(pat("A1.AccountAddress"), seqVal(x.Args[0]), Bind{})
						_, o2 := matchT(pat("A1.PrevHash"), seqVal(x.Args[1]), Bind{})
						okp = o1 && o2
					}
				}
			}
		}
		ob(okp, "nonce-checked", "a nonce is accepted without the proof-of-work check over address and previous hash")
	}
}

func runReferred(c *Ctx, f func(p *Path, entry string)) {
	for _, n := range []string{"verifier.VerifyPoolAccountBlock", "verifier.VerifyRPCAccountBlock"} {
		fn := c.Func(verPkg, n)
		if fn == nil {
			continue
		}
		e := c.Opts([]string{verPkg}, "ComputeHash", "ComputeSendHash", "IsSeedUpgrade", "PubkeyToAddress", "Hash256", "CheckPowNonce")
		e.collapse = true
		outs := c.Paths(e, fn)
		bi := fn.Signature.Results().Len() - 2
		for _, p := range c.success(outs, bi+1) {
			if p.F.possible(p.o.res[bi], kNil()) == EQ {
				continue
			}
			f(p, fnName(fn))
		}
	}
}

func runC02(c *Ctx) {
	runReferred(c, func(p *Path, entry string) { referredRules(c, p, entry) })
	c.Floor("extends-latest", 4)
	c.Floor("nonce-checked", 2)
	c.Floor("sub-send/no source block", 2)
	c.Floor("confirmed-times", 2)
}

func seqVal(t *Term) *Term { return t }

func runC03(c *Ctx) {
	for _, n := range []string{"verifier.VerifyPoolAccountBlock", "verifier.VerifyRPCAccountBlock"} {
		fn := c.Func(verPkg, n)
		if fn == nil {
			continue
		}
		entry := fnName(fn)
		e := c.Opts([]string{verPkg}, "ComputeHash", "ComputeSendHash", "IsSeedUpgrade", "PubkeyToAddress", "Hash256", "CheckPowNonce")
		e.collapse = true
		outs := c.Paths(e, fn)
		nr := fn.Signature.Results().Len()
		bi := nr - 2
		for _, p := range c.all(outs) {
			for _, ev := range calls(p.Evs, "GenerateWithBlock") {
				q := &Path{c: c, o: p.o, F: ev.Facts, Evs: ev.St.ev.slice(nil)}
				sub := &Ctx{P: c.P, count: map[string]int{}, seen: map[string]bool{}}
				referredRules(sub, q, entry)
				if n == "verifier.VerifyRPCAccountBlock" {
					authenticated(sub, q, entry)
				}
				for _, o := range sub.obs {
					c.Ob(o.OK, "before-execution/"+o.Rule, entry, c.P.pos(ev.Pos), "the virtual machine runs before this check succeeded: %s", o.Detail)
				}
			}
			if bi > 0 && p.F.possible(p.o.res[0], kNil())&EQ == 0 {
				// a pending task is returned
				c.Ob(p.F.possible(p.o.res[bi], kNil()) == EQ && len(calls(p.Evs, "GenerateWithBlock")) == 0, "pending-no-block", entry, p.where(), "a block is executed or returned together with a pending task: %s", p.Describe())
			}
		}
		for _, p := range c.all(outs) {
			blk := p.o.res[bi]
			if p.F.possible(blk, kNil()) == EQ {
				continue
			}
			errT := p.o.res[nr-1]
			if p.F.possible(errT, kNil())&EQ == 0 {
				c.Ob(false, "no-block-with-error", entry, p.where(), "a block is handed back together with an error: %s", p.Describe())
				continue
			}
			bd, ok := matchT(pat("GenerateWithBlock(NewGenerator(_, _, A1.AccountAddress, X1, X2), A1, X3).VMBlock"), blk, Bind{})
			if !c.Ob(ok, "re-executed", entry, p.where(), "the returned block (%v) is not the result of executing the verified block: %s", blk, p.Describe()) {
				continue
			}
			c.Ob(p.Holds("GenerateWithBlock(_, A1, _).R1 == nil"), "execution-error-checked", entry, p.where(), "the execution error is ignored: %s", p.Describe())
			c.Ob(p.must(mk("field", "Hash", nil, mk("field", "AccountBlock", nil, blk)), EQ, fld(param(1, nil), "Hash")), "result-hash-equal", entry, p.where(), "the block is accepted although its re-execution may have a different hash: %s", p.Describe())
			// executed against the previous block and the given snapshot
			c.Ob(p.o.st.load(bd["X1"]) == fld(param(2, nil), "Hash"), "execution-snapshot", entry, p.where(), "the block is executed against %v, not the given snapshot", p.o.st.load(bd["X1"]))
			c.Ob(p.o.st.load(bd["X2"]) == fld(param(1, nil), "PrevHash"), "execution-previous", entry, p.where(), "the block is executed on top of %v, not its previous block", p.o.st.load(bd["X2"]))
			if p.mayReceive(param(1, nil)) {
				_, ok := matchT(pat("GetAccountBlockByHash(_, A1.FromBlockHash)"), bd["X3"], Bind{})
				c.Ob(ok && p.F.possible(bd["X3"], kNil())&EQ == 0, "execution-source", entry, p.where(), "a receive is executed with source %v: %s", bd["X3"], p.Describe())
			}
		}
	}
	c.Floor("result-hash-equal", 4)
	c.Floor("before-execution/extends-latest", 4)
}

func runC04(c *Ctx) {
	fn := c.Func(verPkg, "verifier.VerifyNetSnapshotBlock")
	if fn != nil {
		e := c.Opts([]string{verPkg}, "ComputeHash", "IsVersion13Upgrade")
		e.collapse = true
		entry := fnName(fn)
		for _, p := range c.success(c.Paths(e, fn), 0) {
			ob := func(v bool, rule, msg string) { c.Ob(v, rule, entry, p.where(), "%s: %s", msg, p.Describe()) }
			ob(p.Holds("A1.Timestamp != nil"), "net-timestamp-present", "a snapshot block without timestamp is accepted")
			ob(p.Holds("*A1.Timestamp <= Now() + 3600000000000"), "net-timestamp-hour", "a snapshot block far in the future is accepted")
			ob(p.Holds("!IsVersion13Upgrade(A1.Height)") || p.Holds("*A1.Timestamp <= Now() + 20000000000"), "net-timestamp-20s", "a snapshot block more than 20s in the future is accepted")
			ob(p.Holds("A1.Hash != types.ZERO_HASH"), "net-hash-nonzero", "a zero hash is accepted")
			ob(p.Holds("ComputeHash(A1) == A1.Hash"), "net-hash-recomputed", "the hash is not compared with the recomputed one")
			ob(p.Holds("IsGenesisSnapshotBlock(_, A1.Hash)") || p.Holds("VerifySig(A1.PublicKey, A1.Hash, A1.Signature)") || p.Holds("VerifySig(A1.PublicKey, A1.Hash, A1.Signature).R0"), "net-signature", "the signature is not verified")
		}
		c.Floor("net-signature", 2)
	}
	fn = c.Func(verPkg, "verifier.VerifyReferred")
	if fn == nil {
		return
	}
	entry := fnName(fn)
	succ := c.Const(verPkg, "SUCCESS")
	e := c.Opts([]string{verPkg})
	outs := c.Paths(e, fn)
	for _, p := range c.all(outs) {
		stat := p.o.res[0]
		r := p.o.st.load(mkFA(stat, "result", nil2))
		if p.F.possible(r, succ)&EQ == 0 {
			c.Ob(true, "not-success", entry, p.where(), "")
			continue
		}
		ob := func(v bool, rule, msg string) { c.Ob(v, rule, entry, p.where(), "%s: %s", msg, p.Describe()) }
		ob(p.Holds("A1.Height == GetLatestSnapshotBlock(_).Height + 1"), "next-height", "a snapshot block that is not at the next height is accepted")
		ob(p.Holds("A1.PrevHash == GetLatestSnapshotBlock(_).Hash"), "prev-hash", "a snapshot block not linked to the head is accepted")
		ob(p.Holds("*A1.Timestamp > *GetLatestSnapshotBlock(_).Timestamp"), "timestamp-after-head", "a snapshot block not later than the head is accepted")
		ob(p.Holds("A1.Height == 1") || (p.Holds("VerifySnapshotProducer(_, A1).R0") || p.Holds("VerifySnapshotProducer(_, A1)")) && p.Holds("VerifySnapshotProducer(_, A1).R1 == nil"), "producer", "a snapshot block whose producer was not confirmed is accepted")
		ob(!p.mayEq(fld(param(1, nil), "Height"), kInt(1)) || p.Holds("IsGenesisSnapshotBlock(_, A1.Hash)") || p.Holds("A1.Height == GetLatestSnapshotBlock(_).Height + 1"), "genesis", "a forged genesis block is accepted")
		// content
		var gated []*Term // constants excluded by an exhaustive scan over a result map
		okc := p.forAll("A1.SnapshotContent", func(it *Path, l seqLoop) bool {
			if it.Holds("GetAccountBlockByHeight(_, rkey(A1.SnapshotContent), rval(A1.SnapshotContent).Height).Hash == rval(A1.SnapshotContent).Hash") &&
				it.Holds("GetAccountBlockByHeight(_, rkey(A1.SnapshotContent), rval(A1.SnapshotContent).Height) != nil") {
				return true
			}
			var last *Event
			for _, ev := range it.Evs {
				if ev.Kind == "mapset" {
					if _, ok := matchT(pat("rkey(A1.SnapshotContent)"), ev.Args[1], Bind{}); ok {
						last = ev
					}
				}
			}
			if last == nil || !isConst(last.Args[2]) || last.Args[2] == succ {
				return false
			}
			gated = append(gated, last.Args[0], last.Args[2])
			return true
		})
		for i := 0; i+1 < len(gated) && okc; i += 2 {
			m, v := gated[i], gated[i+1]
			found := false
			for _, ev := range p.Evs {
				if ev.Kind != "loop" {
					continue
				}
				for _, f := range p.F {
					if f.A.Op == "rok" && f.Mask == NE && f.A.Args[0].Args[0] == m && inLoopOf(ev, f.A) {
						all := true
						for _, it := range ev.Loop.Iters {
							if it.facts.possible(mk("rval", f.A.Sym, nil, m), v)&EQ != 0 {
								all = false
							}
						}
						if all {
							found = true
						}
					}
				}
			}
			okc = found
		}
		ob(okc, "content-matches-chain", "an account entry that is unknown or has a different hash is accepted")
	}
	c.Floor("content-matches-chain", 1)
}
