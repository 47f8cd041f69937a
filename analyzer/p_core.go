package main

import (
	"go/types"
	"strings"
)

const corePkg = "interfaces/core"

func init() {
	register(&Prop{
		ID:    "C12",
		Title: "A block's hash commits to everything the block says",
		Statement: "The hash of an account block is the 256-bit hash of its type, previous hash, height, account, then (for a send) receiver, amount and token or (for a receive) the hash of the received block, then the hash of non-empty data, the fee, the log hash if any, the nonce and the hashes of all generated sends in order; the hash of a generated send additionally commits to the previous hash and height of its host block and its index. " +
			"The hash of a snapshot block commits to its previous hash, height, second of its timestamp, seed, seed hash, all of its content in an order that does not depend on map order, the name of the upgrade active at its height, and its version once the leaf upgrade is active. " +
			"Seed hashes commit to seed, previous hash and time; log hashes to every topic and the data of every log and, after the seed upgrade, to the account and previous hash. A signature is accepted only if it verifies over the hash with the block's public key, and the producer is the address of that key.",
		Over:      []string{"inputs"},
		Quant:     "all account and snapshot blocks, logs and seeds",
		Why:       "A field that is left out, truncated or ambiguous lets two different blocks share a hash; tests compare a few fixed blocks.",
		Files:     []string{"interfaces/core/account_block.go", "interfaces/core/snapshot_block.go", "interfaces/core/vm_log_list.go"},
		Mech:      [][2]string{{"account block hash", "AccountBlock.ComputeHash, ComputeSendHash"}, {"snapshot block hash", "SnapshotBlock.ComputeHash"}, {"log hash", "VmLogList.Hash"}},
		Technique: "path-sensitive dataflow that reconstructs the hashed byte string piece by piece (including loops) and compares it with the required pieces",
		Note:      "Collision resistance of the hash function and correctness of the blake2b and ed25519 libraries are trusted.",
		Run:       runC12,
	})
	register(&Prop{
		ID:    "C13",
		Title: "Blocks and ledger records survive encoding and decoding",
		Statement: "Encoding an account block, snapshot block, log list, hash-height or contract meta record and decoding the result restores every field that is meaningful for the block's kind (the received hash for receives; receiver, amount and token for sends and genesis; the previous hash above height 1; every generated send in order; every snapshot content entry). " +
			"Decoding malformed addresses, hashes, token ids or snapshot content reports an error instead of returning a partly decoded block. Contract meta written before the seed upgrade decodes with the random degree equal to the response latency.",
		Over:      []string{"inputs"},
		Quant:     "all blocks and byte strings",
		Why:       "A field dropped for one kind of block only shows for that kind; tests round-trip a few samples.",
		Files:     []string{"interfaces/core/account_block.go", "interfaces/core/snapshot_block.go", "interfaces/core/vm_log_list.go", "interfaces/core/hash_height.go", "interfaces/core/contract_meta.go"},
		Mech:      [][2]string{{"protobuf mapping", "Proto and DeProto"}, {"byte layout", "ContractMeta.Serialize, Deserialize; scItemToBytes, bytesToScItem"}},
		Technique: "value analysis of encoder and decoder: the value of each field after decoding, composed with the encoder, is the original",
		Note:      "The generated protobuf code is trusted. A malformed hash or previous hash of an account block decodes to the zero hash (the block is then refused because its hash does not match).",
		Run:       runC13,
	})
	register(&Prop{
		ID:        "C14",
		Title:     "A copied block equals the original and shares nothing that execution changes",
		Statement: "The copy of an account block has the same value in every field, including every generated send exactly once and in order, and its amount, fee, difficulty, data, nonce, signature and log hash are separate from the original's, so that executing a block never changes the caller's block.",
		Over:      []string{"inputs"},
		Quant:     "all account blocks",
		Why:       "Sharing shows only when both blocks are used afterwards.",
		Files:     []string{"interfaces/core/account_block.go"},
		Mech:      [][2]string{{"copy", "AccountBlock.Copy"}},
		Technique: "value and aliasing analysis of AccountBlock.Copy over all fields of the struct type",
		Note:      "The public key may be shared (it is never written).",
		Run:       runC14,
	})
}

func coreEng(c *Ctx) *Engine {
	return c.Opts([]string{corePkg}, "IsSendBlock", "LeftPadBytes", "Hash256", "BytesToHash", "BytesToAddress", "BytesToTokenTypeId", "BytesToGid", "GetCurPoint", "hashSourceLength", "IsLeafUpgrade", "IsSeedUpgrade", "VerifySig", "PubkeyToAddress", "bytesList", "NewSnapshotContentBytesList")
}

// finalHash: the argument of the hash whose value is returned.
func finalHash(p *Path, res *Term) (*Term, bool) {
	if res.Op == "alloc" {
		res = p.o.st.load(res)
	}
	if res.Op == "bytesw" && res.Args[0].Op == "zero" {
		// copied into a hash value
		lo, hi := res.Args[1], res.Args[2]
		if b, ok := matchT(pat("Hash256(X)"), res.Args[3], Bind{}); ok && (isNilT(lo) || lo.String() == "0") && (hi.String() == "32" || hi.Op == "len" || isNilT(hi) || strings.Contains(hi.String(), "min")) {
			return b["X"], true
		}
	}
	b, ok := matchT(pat("BytesToHash(Hash256(X)).R0"), res, Bind{})
	if !ok {
		return nil, false
	}
	return b["X"], true
}

func acctPieces(p *Path) (spec []sp, why string) {
	spec = []sp{spB("A0.BlockType"), spS("A0.PrevHash"), spS("be64(A0.Height)"), spS("A0.AccountAddress")}
	switch {
	case p.Holds("IsSendBlock(A0)") || p.Holds("IsSendBlock(A0.BlockType)"):
		spec = append(spec, spS("A0.ToAddress"), spS("LeftPadBytes(Bytes(A0.Amount), 32)"), spS("A0.TokenId"))
	case p.Holds("!IsSendBlock(A0)") || p.Holds("!IsSendBlock(A0.BlockType)"):
		spec = append(spec, spS("A0.FromBlockHash"))
	default:
		return nil, "does not distinguish sends from receives"
	}
	switch {
	case p.Holds("len(A0.Data) > 0"):
		spec = append(spec, spS("Hash256(list(A0.Data))"))
	case p.Holds("len(A0.Data) <= 0"):
	default:
		return nil, "does not depend on whether there is data"
	}
	switch {
	case p.Holds("A0.Fee != nil"):
		spec = append(spec, spS("LeftPadBytes(Bytes(A0.Fee), 32)"))
	case p.Holds("A0.Fee == nil"):
		spec = append(spec, spS("LeftPadBytes(nil, 32)"))
	default:
		return nil, "does not depend on whether there is a fee"
	}
	switch {
	case p.Holds("A0.LogHash != nil"):
		spec = append(spec, spS("A0.LogHash"))
	case p.Holds("A0.LogHash == nil"):
	default:
		return nil, "does not depend on whether there is a log hash"
	}
	return append(spec, spS("LeftPadBytes(A0.Nonce, 8)"), spEach("A0.SendBlockList", spS("A0.SendBlockList[I].Hash"))), ""
}

func runC12(c *Ctx) {
	check := func(fn string, specOf func(p *Path) ([]sp, string)) {
		f := c.Func(corePkg, fn)
		if f == nil {
			return
		}
		for _, p := range c.all(c.Paths(coreEng(c), f)) {
			if p.o.panic || isNilT(p.o.res[0]) {
				continue
			}
			src, ok := finalHash(p, p.o.res[0])
			if !c.Ob(ok, "hash-value", fn, p.where(), "the result %v is not a hash of a byte string", p.o.res[0]) {
				continue
			}
			spec, why := specOf(p)
			if !c.Ob(spec != nil, "hash-cases", fn, p.where(), "the hashed bytes: the case %s: %s", why, p.Describe()) {
				continue
			}
			ss := p.segs(src)
			c.Ob(matchSegs(ss, spec, Bind{}), "hash-pieces", fn, p.where(), "the hashed bytes are %s, expected %s", segString(ss), specString(spec))
		}
	}
	check("AccountBlock.ComputeHash", acctPieces)
	check("AccountBlock.ComputeSendHash", func(p *Path) ([]sp, string) {
		spec, why := acctPieces(p)
		if spec == nil {
			return nil, why
		}
		return append(spec, spS("A1.PrevHash"), spS("be64(A1.Height)"), spB("A2")), ""
	})
	check("SnapshotBlock.ComputeHash", func(p *Path) ([]sp, string) {
		spec := []sp{spS("A0.PrevHash"), spS("be64(A0.Height)"), spS("be64(Unix(*A0.Timestamp))"), spS("be64(A0.Seed)")}
		switch {
		case p.Holds("A0.SeedHash != nil"):
			spec = append(spec, spS("A0.SeedHash"))
		case p.Holds("A0.SeedHash == nil"):
			spec = append(spec, spS("zeros(32)"))
		default:
			return nil, "does not depend on whether there is a seed hash"
		}
		spec = append(spec, spEach("bytesList(A0.SnapshotContent)", spS("bytesList(A0.SnapshotContent)[I]")))
		switch {
		case p.Holds("GetCurPoint(A0.Height) != nil"):
			spec = append(spec, spS("GetCurPoint(A0.Height).Name"))
		case p.Holds("GetCurPoint(A0.Height) == nil"):
		default:
			return nil, "does not depend on the upgrade"
		}
		switch {
		case p.Holds("IsLeafUpgrade(A0.Height)"):
			spec = append(spec, spS("be32(A0.Version)"))
		case p.Holds("!IsLeafUpgrade(A0.Height)"):
		default:
			return nil, "does not depend on the leaf upgrade"
		}
		return spec, ""
	})
	check("ComputeSeedHash", func(p *Path) ([]sp, string) {
		return []sp{spS("be64(A0)"), spS("A1"), spS("be64(Unix(*A2))")}, ""
	})
	check("VmLogList.Hash", func(p *Path) ([]sp, string) {
		spec := []sp{spEach("A0", spEach("A0[I].Topics", spS("A0[I].Topics[J]")), spS("A0[I].Data"))}
		switch {
		case p.Holds("IsSeedUpgrade(A1)"):
			return append(spec, spS("A2"), spS("A3")), ""
		case p.Holds("!IsSeedUpgrade(A1)"):
			return spec, ""
		}
		return nil, "does not depend on the seed upgrade"
	})
	c.Floor("hash-pieces", 40)
	if f := c.Func(corePkg, "VmLogList.Hash"); f != nil {
		for _, p := range c.all(c.Paths(coreEng(c), f)) {
			if !p.o.panic && isNilT(p.o.res[0]) {
				c.Ob(p.Holds("len(A0) <= 0"), "hash-value", "VmLogList.Hash", p.where(), "a log list without hash although it has logs: %s", p.Describe())
			}
		}
	}
	blockKinds(c)
	if f := c.Func("common", "LeftPadBytes"); f != nil {
		for _, p := range c.all(c.Paths(c.Opts([]string{"common"}), f)) {
			if p.o.panic {
				continue
			}
			r := p.o.res[0]
			ok := isT(r, "A0") && p.Holds("len(A0) >= A1")
			if !ok && r.Op == "mkslice" && isT(r.Args[0], "A1") {
				v := p.o.st.load(r)
				if x, y := p.o.st.mem[r]; y {
					v = x
				}
				ok = v != nil && v.Op == "bytesw" && isT(v.Args[1], "A1 - len(A0)") && isT(v.Args[3], "A0")
			}
			c.Ob(ok, "hash-value", "common.LeftPadBytes", p.where(), "padding yields %v: %s", r, p.Describe())
		}
	}
	// snapshot content in a fixed order
	if f := c.Func(corePkg, "SnapshotContent.bytesList"); f != nil {
		e := c.Opts([]string{corePkg})
		for _, p := range c.all(c.Paths(e, f)) {
			var sorted *Term
			for _, ev := range p.Evs {
				if ev.Kind == "call" && (strings.HasPrefix(ev.Name, "sort.") || strings.HasPrefix(ev.Name, "slices.Sort")) {
					sorted = ev.Args[0]
					for sorted.Op == "iface" || sorted.Op == "conv" {
						sorted = sorted.Args[0]
					}
				}
			}
			ok := sorted != nil && stripConv(p.o.res[0]) == sorted
			c.Ob(ok, "content-order", "SnapshotContent.bytesList", p.where(), "the snapshot content is hashed in map order")
			if !ok {
				continue
			}
			item := []sp{spEach("A0", sp{kind: "byte", pat: "_"})}
			c.Ob(matchSegs(p.segs(p.o.res[0]), item, Bind{}), "content-order", "SnapshotContent.bytesList", p.where(), "not every snapshot content entry is hashed once: %s", segString(p.segs(p.o.res[0])))
		}
		c.Floor("content-order", 2)
	}
	scItem(c)
	if f := c.Func(corePkg, "SnapshotContentBytesList.Less"); f != nil {
		for _, p := range c.all(c.Paths(c.Opts([]string{corePkg}), f)) {
			r := p.o.res[0]
			ok := r.Op == "cmp" && isT(r.Args[0], "A0[A1]") && isT(r.Args[1], "A0[A2]") && (r.Sym == itoa(LT|EQ) || r.Sym == itoa(LT)) || isT(r, "Compare(A0[A1], A0[A2]) <= 0") || isT(r, "Compare(A0[A1], A0[A2]) < 0") || isTrueT(r) && (p.Holds("Compare(A0[A1], A0[A2]) <= 0") || p.Holds("Compare(A0[A1], A0[A2]) < 0")) || isFalseT(r) && (p.Holds("Compare(A0[A1], A0[A2]) > 0") || p.Holds("Compare(A0[A1], A0[A2]) >= 0"))
			c.Ob(ok, "content-order", "SnapshotContentBytesList.Less", p.where(), "entries are not ordered by their bytes: %v", r)
		}
	}
	// signature and producer
	for _, t := range []string{"AccountBlock", "SnapshotBlock"} {
		if f := c.Func(corePkg, t+".VerifySignature"); f != nil {
			for _, p := range c.all(c.Paths(coreEng(c), f)) {
				if p.o.panic {
					continue
				}
				r := p.o.res[0]
				b, ok := matchT(pat("VerifySig(A0.PublicKey, X, A0.Signature).R0"), r, Bind{})
				if !ok && isTrueT(r) {
					b, ok = p.F.Find("VerifySig(A0.PublicKey, X, A0.Signature).R0", Bind{})
				}
				if isFalseT(r) {
					ok, b = true, nil
				}
				if ok && b != nil {
					ok = matchSegs(p.segs(b["X"]), []sp{spS("A0.Hash")}, Bind{})
				}
				c.Ob(ok, "signature", t+".VerifySignature", p.where(), "accepts %v", r)
			}
		}
		if f := c.Func(corePkg, t+".Producer"); f != nil {
			for _, p := range c.all(c.Paths(coreEng(c), f)) {
				if p.o.panic {
					continue
				}
				ok := isT(p.o.res[0], "PubkeyToAddress(A0.PublicKey)") || p.Holds("A0.producer != nil") && isT(p.o.res[0], "*A0.producer")
				c.Ob(ok, "signature", t+".Producer", p.where(), "the producer is %v", p.o.res[0])
			}
		}
	}
	c.Floor("signature", 6)
	if f := c.Func("crypto", "VerifySig"); f != nil {
		for _, p := range c.all(c.Paths(c.Opts([]string{"crypto"}, "Verify"), f)) {
			r := p.o.res[0]
			ok := isFalseT(r) || isT(r, "Verify(A0, A1, A2)") || isTrueT(r) && p.Holds("Verify(A0, A1, A2)")
			c.Ob(ok, "signature", "crypto.VerifySig", p.where(), "accepts %v", r)
		}
	}
	c.sigHashes("hash-value", "Hash256")
}

// blockKinds: which block types are sends and which are receives.
func blockKinds(c *Ctx) {
	for n, kinds := range map[string][]string{"IsSendBlock": {"1", "2", "3", "6"}, "IsReceiveBlock": {"4", "5", "7"}} {
		for _, fn := range []struct{ name, v string }{{n, "A0"}, {"AccountBlock." + n, "A0.BlockType"}} {
			f := c.Func(corePkg, fn.name)
			if f == nil {
				continue
			}
			for _, p := range c.all(c.Paths(c.Opts([]string{corePkg}), f)) {
				r := p.o.res[0]
				yes, no := false, true
				for _, k := range kinds {
					yes = yes || p.Holds(fn.v+" == "+k)
					no = no && p.Holds(fn.v+" != "+k)
				}
				ok := isTrueT(r) && yes || isFalseT(r) && no
				if !isTrueT(r) && !isFalseT(r) {
					// the last comparison is returned
					rest := 0
					for _, k := range kinds {
						if isT(r, fn.v+" == "+k) {
							rest++
						} else if !p.Holds(fn.v + " != " + k) {
							rest += 2
						}
					}
					ok = rest == 1
				}
				c.Ob(ok, "block-kind", fn.name, p.where(), "the kind of a block is %v: %s", r, p.Describe())
			}
		}
	}
	c.Floor("block-kind", 4)
}

func specString(spec []sp) string {
	var b []string
	for _, s := range spec {
		switch s.kind {
		case "byte":
			b = append(b, "byte("+s.pat+")")
		case "each":
			b = append(b, "each("+s.pat+"){"+specString(s.body)+"}")
		default:
			b = append(b, s.pat)
		}
	}
	return strings.Join(b, " ++ ")
}

// scItem: a content entry is address, hash, height.
func scItem(c *Ctx) {
	if f := c.Func(corePkg, "scItemToBytes"); f != nil {
		for _, p := range c.all(c.Paths(c.Opts([]string{corePkg}), f)) {
			if p.o.panic {
				continue
			}
			ss := p.segs(p.o.res[0])
			c.Ob(matchSegs(ss, []sp{spS("A0"), spS("A1.Hash"), spS("be64(A1.Height)")}, Bind{}), "content-item", "scItemToBytes", p.where(), "a snapshot content entry is %s", segString(ss))
		}
		c.Floor("content-item", 1)
	}
}

// rule for one field of an encoded structure
type encField struct {
	f, pb string
	enc   func(p *Path, v *Term) bool // encoder value
	dec   func(p *Path, v *Term) bool // decoder value
	when  func(p *Path, b string) int // 1 meaningful, 0 not, -1 unknown (then it must be encoded)
	fails string                      // pattern of the decoder's error, which must be nil on success
}

func always(p *Path, b string) int { return 1 }

func holds2(p *Path, pos, neg string) int {
	if p.Holds(pos) {
		return 1
	}
	if p.Holds(neg) {
		return 0
	}
	return -1
}

func runC13(c *Ctx) {
	same := func(pb string) (func(p *Path, v *Term) bool, func(p *Path, v *Term) bool) {
		return nil, nil
	}
	_ = same
	id := func(side, f string) func(p *Path, v *Term) bool {
		return func(p *Path, v *Term) bool { return isT(v, side+"."+f) }
	}
	byt := func(f string) func(p *Path, v *Term) bool {
		return func(p *Path, v *Term) bool { return matchSegs(p.segs(v), []sp{spS("A0." + f)}, Bind{}) }
	}
	dec := func(fn, f string) func(p *Path, v *Term) bool {
		return func(p *Path, v *Term) bool {
			if v.Op == "alloc" {
				v = p.o.st.load(v)
			}
			return isT(v, fn+"(A1."+f+").R0")
		}
	}
	bigE := func(f string) func(p *Path, v *Term) bool {
		return func(p *Path, v *Term) bool { return isT(v, "Bytes(A0."+f+")") }
	}
	bigD := func(f string) func(p *Path, v *Term) bool {
		return func(p *Path, v *Term) bool {
			b := p.o.st.big(v)
			if b.Op == "const" && b.Sym == "0" {
				return p.Holds("len(A1." + f + ") <= 0")
			}
			return isT(b, "bytes2big(A1."+f+")") || isT(b, "big(A1."+f+")") || isT(b, "frombytes(A1."+f+")") || strings.Contains(b.String(), "A1."+f) && b.Op != "field"
		}
	}
	send := func(p *Path, b string) int { return holds2(p, "IsSendBlock("+b+")", "!IsSendBlock("+b+")") }
	recv := func(p *Path, b string) int { return 1 - send(p, b) }
	nn := func(f string) func(p *Path, b string) int {
		return func(p *Path, b string) int {
			if b == "A0" {
				return holds2(p, "A0."+f+" != nil", "A0."+f+" == nil")
			}
			return holds2(p, "len(A1."+f+") > 0", "len(A1."+f+") <= 0")
		}
	}
	acct := []encField{
		{f: "BlockType", enc: id("A0", "BlockType"), dec: id("A1", "BlockType"), when: always},
		{f: "Hash", enc: byt("Hash"), dec: dec("BytesToHash", "Hash"), when: always},
		{f: "Height", enc: id("A0", "Height"), dec: id("A1", "Height"), when: always},
		{f: "PrevHash", enc: byt("PrevHash"), dec: dec("BytesToHash", "PrevHash"), when: func(p *Path, b string) int { return holds2(p, b+".Height > 1", b+".Height <= 1") }},
		{f: "AccountAddress", enc: byt("AccountAddress"), dec: dec("BytesToAddress", "AccountAddress"), when: always, fails: "BytesToAddress(A1.AccountAddress).R1"},
		{f: "PublicKey", enc: id("A0", "PublicKey"), dec: id("A1", "PublicKey"), when: always},
		{f: "ToAddress", enc: byt("ToAddress"), dec: dec("BytesToAddress", "ToAddress"), when: send, fails: "BytesToAddress(A1.ToAddress).R1"},
		{f: "FromBlockHash", enc: byt("FromBlockHash"), dec: dec("BytesToHash", "FromBlockHash"), when: recv, fails: "BytesToHash(A1.FromBlockHash).R1"},
		{f: "Amount", enc: bigE("Amount"), dec: bigD("Amount"), when: sendOrGenesis},
		{f: "TokenId", enc: byt("TokenId"), dec: dec("BytesToTokenTypeId", "TokenId"), when: sendOrGenesis, fails: "BytesToTokenTypeId(A1.TokenId).R1"},
		{f: "Data", enc: id("A0", "Data"), dec: id("A1", "Data"), when: always},
		{f: "Quota", enc: id("A0", "Quota"), dec: id("A1", "Quota"), when: always},
		{f: "QuotaUsed", enc: id("A0", "QuotaUsed"), dec: id("A1", "QuotaUsed"), when: always},
		{f: "Fee", enc: bigE("Fee"), dec: bigD("Fee"), when: func(p *Path, b string) int {
			if b == "A0" {
				return nn("Fee")(p, b)
			}
			return 1
		}},
		{f: "LogHash", enc: byt("LogHash"), dec: dec("BytesToHash", "LogHash"), when: nn("LogHash"), fails: "BytesToHash(A1.LogHash).R1"},
		{f: "Difficulty", enc: bigE("Difficulty"), dec: bigD("Difficulty"), when: nn("Difficulty")},
		{f: "Nonce", enc: id("A0", "Nonce"), dec: id("A1", "Nonce"), when: always},
		{f: "SendBlockList", enc: func(p *Path, v *Term) bool {
			return matchSegs(p.segs(v), []sp{spEach("A0.SendBlockList", spB("Proto(A0.SendBlockList[I])"))}, Bind{})
		}, dec: decSendList, when: always},
		{f: "Signature", enc: id("A0", "Signature"), dec: id("A1", "Signature"), when: always},
	}
	codec(c, "AccountBlock", acct, "producer")
	scDec := func(p *Path, v *Term) bool {
		for _, ev := range calls(p.Evs, "deProto") {
			if ev.Args[0] == v && isT(ev.Args[1], "A1.SnapshotContent") && p.F.possible(ev.Res, kNil()) == EQ {
				return true
			}
		}
		return false
	}
	snap := []encField{
		{f: "Hash", enc: byt("Hash"), dec: dec("BytesToHash", "Hash"), when: always, fails: "BytesToHash(A1.Hash).R1"},
		{f: "PrevHash", enc: byt("PrevHash"), dec: dec("BytesToHash", "PrevHash"), when: always, fails: "BytesToHash(A1.PrevHash).R1"},
		{f: "Height", enc: id("A0", "Height"), dec: id("A1", "Height"), when: always},
		{f: "PublicKey", enc: id("A0", "PublicKey"), dec: id("A1", "PublicKey"), when: always},
		{f: "Signature", enc: id("A0", "Signature"), dec: id("A1", "Signature"), when: always},
		{f: "Timestamp", enc: func(p *Path, v *Term) bool { return isT(v, "UnixNano(*A0.Timestamp)") }, dec: func(p *Path, v *Term) bool {
			if v.Op == "alloc" {
				v = p.o.st.load(v)
			}
			return isT(v, "Unix(0, A1.Timestamp)")
		}, when: always},
		{f: "Seed", enc: id("A0", "Seed"), dec: id("A1", "Seed"), when: always},
		{f: "SeedHash", enc: byt("SeedHash"), dec: dec("BytesToHash", "SeedHash"), when: nn("SeedHash"), fails: "BytesToHash(A1.SeedHash).R1"},
		{f: "SnapshotContent", enc: func(p *Path, v *Term) bool { return isT(v, "proto(A0.SnapshotContent)") }, dec: scDec, when: func(p *Path, b string) int {
			if b == "A0" {
				return 1
			}
			return nn("SnapshotContent")(p, b)
		}},
		{f: "Version", enc: id("A0", "Version"), dec: id("A1", "Version"), when: always},
	}
	codec(c, "SnapshotBlock", snap, "producer")
	codec(c, "HashHeight", []encField{
		{f: "Hash", enc: func(p *Path, v *Term) bool {
			return matchSegs(p.segs(v), []sp{spS("A0.Hash")}, Bind{}) || isT(v, "A0.Hash[:]")
		}, dec: dec("BytesToHash", "Hash"), when: always, fails: "BytesToHash(A1.Hash).R1"},
		{f: "Height", enc: id("A0", "Height"), dec: id("A1", "Height"), when: always},
	})
	c.Floor("encode", 30)
	c.Floor("decode", 30)
	// bytes <-> message
	for _, t := range []string{"AccountBlock", "SnapshotBlock", "HashHeight", "VmLogList"} {
		wrap(c, t)
	}
	c.Floor("wrap", 8)
	scItem(c)
	scContent(c)
	logList(c)
	metaCodec(c)
}

func sendOrGenesis(p *Path, b string) int {
	if p.Holds("IsSendBlock(" + b + ")") {
		return 1
	}
	g := holds2(p, b+".BlockType == 7", b+".BlockType != 7")
	if p.Holds("!IsSendBlock(" + b + ")") {
		return g
	}
	if g == 1 {
		return 1
	}
	return -1
}

// decSendList: the decoded list has one decoded block per element.
func decSendList(p *Path, v *Term) bool {
	ss := dropEmpty(p.segs(v))
	if len(ss) != 1 || ss[0].Loop == nil || !ss[0].Loop.Full || !isT(ss[0].Loop.Over, "A1.SendBlockList") {
		return false
	}
	l := ss[0].Loop
	for k, body := range l.Body {
		if len(body) != 1 || !body[0].Byte {
			return false
		}
		it := l.Its[k]
		ok := false
		for x := it.ev; x != nil; x = x.prev {
			ev := x.ev
			if ev.Kind == "call" && baseName(ev.Name) == "DeProto" && ev.Args[0] == body[0].T && ev.Args[1] == elemOf(l.Over, l.Idx, nil) && it.facts.possible(ev.Res, kNil()) == EQ {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return len(l.Body) > 0
}

// codec checks Proto and DeProto of a type field by field.
func codec(c *Ctx, typ string, fields []encField, skip ...string) {
	have := map[string]bool{}
	for _, s := range skip {
		have[s] = true
	}
	for _, f := range fields {
		have[f.f] = true
	}
	// every field of the struct is covered
	if pk := c.P.ByRel[corePkg]; pk != nil {
		if o := pk.Types.Scope().Lookup(typ); o != nil {
			if st, ok := o.Type().Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					n := st.Field(i).Name()
					c.Ob(have[n], "fields", typ, c.P.pos(st.Field(i).Pos()), "field %s of %s has no known encoding", n, typ)
				}
			}
		}
	}
	eng := func() *Engine {
		return c.Opts([]string{corePkg}, "IsSendBlock", "BytesToHash", "BytesToAddress", "BytesToTokenTypeId", "BytesToGid", "proto", "deProto")
	}
	if f := c.Func(corePkg, typ+".Proto"); f != nil {
		for _, p := range c.all(c.Paths(eng(), f)) {
			if p.o.panic {
				continue
			}
			for _, fd := range fields {
				v := p.o.st.load(mkFA(p.o.res[0], fd.f, nil2))
				w := fd.when(p, "A0")
				c.Ob(w == 0 || v != nil && fd.enc(p, v), "encode", typ+".Proto", p.where(), "field %s is encoded as %v: %s", fd.f, v, p.Describe())
			}
		}
	}
	if f := c.Func(corePkg, typ+".DeProto"); f != nil {
		for _, p := range c.success(c.Paths(eng(), f), 0) {
			for _, fd := range fields {
				v := p.o.st.load(mkFA(param(0, nil), fd.f, nil2))
				w := fd.when(p, "A0")
				if fd.f == "LogHash" || fd.f == "Difficulty" || fd.f == "SeedHash" || fd.f == "SnapshotContent" || fd.f == "Fee" {
					w = fd.when(p, "A1")
				} else if w != 1 {
					// the decoded value decides the case
					if x := whenDecoded(p, fd); x != -1 {
						w = x
					}
				}
				c.Ob(w == 0 || v != nil && fd.dec(p, v), "decode", typ+".DeProto", p.where(), "field %s decodes to %v: %s", fd.f, v, p.Describe())
				if fd.fails != "" && w != 0 {
					c.Ob(p.Holds(fd.fails+" == nil"), "decode-error", typ+".DeProto", p.where(), "a malformed %s is accepted: %s", fd.f, p.Describe())
				}
			}
		}
	}
}

// whenDecoded evaluates a field's condition on the encoded message.
func whenDecoded(p *Path, fd encField) int {
	switch fd.f {
	case "PrevHash":
		return holds2(p, "A1.Height > 1", "A1.Height <= 1")
	case "Amount", "TokenId":
		if g := holds2(p, "A1.BlockType == 7", "A1.BlockType != 7"); g == 1 || g == 0 && p.Holds("!IsSendBlock(A0)") {
			return g
		}
	}
	return -1
}

func wrap(c *Ctx, t string) {
	if f := c.Func(corePkg, t+".Serialize"); f != nil {
		e := c.Opts([]string{corePkg}, "Proto", "Marshal")
		for _, p := range c.all(c.Paths(e, f)) {
			if p.o.panic {
				continue
			}
			r, er := p.o.res[0], p.o.res[1]
			ok := isT(r, "Marshal(Proto(A0)).R0") && (isT(er, "Marshal(Proto(A0)).R1") || p.Holds("Marshal(Proto(A0)).R1 == nil")) || isT(er, "Marshal(Proto(A0)).R1") && p.Holds("Marshal(Proto(A0)).R1 != nil")
			c.Ob(ok, "wrap", t+".Serialize", p.where(), "serializes %v, %v", r, er)
		}
	}
	if f := c.Func(corePkg, t+".Deserialize"); f != nil {
		e := c.Opts([]string{corePkg}, "DeProto", "Unmarshal")
		for _, p := range c.all(c.Paths(e, f)) {
			if p.o.panic || p.F.possible(p.o.res[0], kNil())&EQ == 0 {
				continue
			}
			var un, de *Event
			for _, ev := range p.Evs {
				if ev.Kind != "call" {
					continue
				}
				switch baseName(ev.Name) {
				case "Unmarshal":
					un = ev
				case "DeProto":
					de = ev
				}
			}
			ok := un != nil && de != nil && un.Args[0].String() == "A1" && stripConv(un.Args[1]) == stripConv(de.Args[1]) && de.Args[0].String() == "A0" && p.F.possible(un.Res, kNil()) == EQ && (p.F.possible(de.Res, kNil()) == EQ || p.o.res[0] == de.Res)
			c.Ob(ok, "wrap", t+".Deserialize", p.where(), "success does not mean that the bytes were decoded: %s", p.Describe())
		}
	}
}

func scContent(c *Ctx) {
	if f := c.Func(corePkg, "bytesToScItem"); f != nil {
		e := c.Opts([]string{corePkg}, "BytesToAddress", "BytesToHash")
		for _, p := range c.success(c.Paths(e, f), 2) {
			st := p.o.st
			a := st.load(p.o.res[0])
			h, ht := st.load(mkFA(p.o.res[1], "Hash", nil2)), st.load(mkFA(p.o.res[1], "Height", nil2))
			c.Ob(isT(a, "BytesToAddress(A0[:21]).R0") && p.Holds("BytesToAddress(A0[:21]).R1 == nil"), "content-item", "bytesToScItem", p.where(), "the address is %v", a)
			c.Ob(isT(h, "BytesToHash(A0[21:53]).R0") && p.Holds("BytesToHash(A0[21:53]).R1 == nil"), "content-item", "bytesToScItem", p.where(), "the hash is %v", h)
			c.Ob(isT(ht, "rdbe64(A0[53:])") || isT(ht, "rdbe64(A0[53:61])"), "content-item", "bytesToScItem", p.where(), "the height is %v", ht)
		}
		c.Floor("content-item", 4)
	}
	if f := c.Func(corePkg, "SnapshotContent.deProto"); f != nil {
		e := c.Opts([]string{corePkg}, "bytesToScItem")
		for _, p := range c.success(c.Paths(e, f), 0) {
			c.Ob(p.Holds("len(A1) % 61 == 0"), "content-decode", "SnapshotContent.deProto", p.where(), "snapshot content with trailing bytes is accepted")
			ok := false
			for _, ev := range p.Evs {
				if ev.Kind != "loop" {
					continue
				}
				ok = true
				for _, it := range ev.Loop.Iters {
					evs := iterEvents(ev, it)
					good := false
					for _, x := range calls(evs, "bytesToScItem") {
						// the window advances by one entry and the entry is stored
						b, m := matchT(pat("A1[P:Q]"), x.Args[0], Bind{})
						if !m {
							continue
						}
						adv := false
						for _, ph := range ev.Loop.Phis {
							if ph.Iter == b["P"] && ph.Init.String() == "0" && p.F.possible(ph.Iter, mk("len", "", nil2, param(1, nil)))&LT == 0 {
								adv = len(ph.Next) > 0
								for _, n := range ph.Next {
									adv = adv && n == b["Q"]
								}
							}
						}
						stored := false
						for _, y := range evs {
							if y.Kind == "mapset" && y.Args[0].String() == "A0" && y.Args[2] == ext(x.Res, 1) && stripDeref(y.Args[1]) == ext(x.Res, 0) {
								stored = true
							}
						}
						good = good || adv && stored && it.facts.possible(ext(x.Res, 2), kNil()) == EQ
					}
					ok = ok && good
				}
			}
			c.Ob(ok, "content-decode", "SnapshotContent.deProto", p.where(), "not every snapshot content entry is decoded: %s", p.Describe())
		}
		c.Floor("content-decode", 2)
	}
	if f := c.Func(corePkg, "SnapshotContent.proto"); f != nil {
		e := c.Opts([]string{corePkg}, "scItemToBytes")
		for _, p := range c.all(c.Paths(e, f)) {
			if p.o.panic {
				continue
			}
			ss := dropEmpty(p.segs(p.o.res[0]))
			ok := len(ss) == 1 && ss[0].Loop != nil && ss[0].Loop.Full
			if ok {
				l := ss[0].Loop
				// visits either the map or the list of all of its keys
				keys := p.segs(l.Over)
				over := isT(l.Over, "A0") || matchSegs(keys, []sp{spEach("A0", sp{kind: "byte", pat: "_"})}, Bind{})
				ok = over && len(l.Body) > 0
				for _, b := range l.Body {
					ok = ok && len(b) == 1 && isT(b[0].T, "scItemToBytes(_, _)")
				}
			}
			c.Ob(ok, "content-encode", "SnapshotContent.proto", p.where(), "not every snapshot content entry is encoded: %s", segString(ss))
		}
		c.Floor("content-encode", 1)
	}
}

func logList(c *Ctx) {
	if f := c.Func(corePkg, "VmLogList.Proto"); f != nil {
		for _, p := range c.all(c.Paths(c.Opts([]string{corePkg}), f)) {
			if p.o.panic {
				continue
			}
			v := p.o.st.load(mkFA(p.o.res[0], "List", nil2))
			ok := listOf(p, v, "A0", func(st *State, q *Path, l *seqSegs, el *Term) bool {
				d := st.load(mkFA(el, "Data", nil2))
				t := st.load(mkFA(el, "Topics", nil2))
				I := Bind{"I": l.Idx}
				_, okD := matchT(pat("A0[I].Data"), d, I)
				ts := dropEmpty(q.segsIn(st, t, 0))
				return okD && len(ts) == 1 && ts[0].Loop != nil && ts[0].Loop.Full && isTB(ts[0].Loop.Over, "A0[I].Topics", I) && eachBody(ts[0].Loop, func(s Seg) bool {
					return s.Byte
				})
			})
			c.Ob(ok, "logs", "VmLogList.Proto", p.where(), "not every log, topic and data is encoded: %s", segString(p.segs(v)))
		}
	}
	if f := c.Func(corePkg, "VmLogList.DeProto"); f != nil {
		for _, p := range c.success(c.Paths(c.Opts([]string{corePkg}, "BytesToHash"), f), 0) {
			v := p.o.st.load(param(0, nil))
			ok := listOf(p, v, "A1.List", func(st *State, q *Path, l *seqSegs, el *Term) bool {
				d := st.load(mkFA(el, "Data", nil2))
				t := st.load(mkFA(el, "Topics", nil2))
				I := Bind{"I": l.Idx}
				ts := dropEmpty(q.segsIn(st, t, 0))
				return isTB(d, "A1.List[I].Data", I) && len(ts) == 1 && ts[0].Loop != nil && ts[0].Loop.Full && isTB(ts[0].Loop.Over, "A1.List[I].Topics", I) && eachBody(ts[0].Loop, func(s Seg) bool {
					return isTB(s.T, "BytesToHash(A1.List[I].Topics[J]).R0", Bind{"I": l.Idx, "J": ts[0].Loop.Idx})
				})
			})
			c.Ob(ok, "logs", "VmLogList.DeProto", p.where(), "not every log, topic and data is decoded: %s", segString(p.segs(v)))
		}
	}
	c.Floor("logs", 2)
}

func isTB(t *Term, ps string, b Bind) bool { _, ok := matchT(pat(ps), t, b); return ok }

func eachBody(l *seqSegs, f func(Seg) bool) bool {
	for _, b := range l.Body {
		if len(b) != 1 || !f(b[0]) {
			return false
		}
	}
	return len(l.Body) > 0
}

// listOf: v has exactly one element per element of the sequence, satisfying f.
func listOf(p *Path, v *Term, over string, f func(st *State, q *Path, l *seqSegs, el *Term) bool) bool {
	ss := dropEmpty(p.segs(v))
	if len(ss) != 1 || ss[0].Loop == nil || !ss[0].Loop.Full || !isT(stripDeref(ss[0].Loop.Over), over) {
		return false
	}
	l := ss[0].Loop
	for k, b := range l.Body {
		if len(b) != 1 || !b[0].Byte {
			return false
		}
		it := l.Its[k]
		q := &Path{c: p.c, o: Outcome{st: it}, F: it.facts, Evs: it.ev.slice(nil)}
		if !f(it, q, l, b[0].T) {
			return false
		}
	}
	return len(l.Body) > 0
}

func metaCodec(c *Ctx) {
	if f := c.Func(corePkg, "ContractMeta.Serialize"); f != nil {
		for _, p := range c.all(c.Paths(c.Opts([]string{corePkg}), f)) {
			if p.o.panic {
				continue
			}
			ss := p.segs(p.o.res[0])
			ok := matchSegs(ss, []sp{spS("A0.Gid"), spB("A0.SendConfirmedTimes"), spS("A0.CreateBlockHash"), spB("A0.QuotaRatio"), spB("A0.SeedConfirmedTimes")}, Bind{})
			c.Ob(ok, "meta", "ContractMeta.Serialize", p.where(), "a contract's meta data is written as %s", segString(ss))
		}
	}
	if f := c.Func(corePkg, "ContractMeta.Deserialize"); f != nil {
		e := c.Opts([]string{corePkg}, "BytesToGid", "BytesToHash")
		for _, p := range c.success(c.Paths(e, f), 0) {
			get := func(n string) *Term { return p.o.st.load(mkFA(param(0, nil), n, nil2)) }
			c.Ob(isT(get("Gid"), "BytesToGid(A1[:10]).R0") && p.Holds("BytesToGid(A1[:10]).R1 == nil"), "meta", "ContractMeta.Deserialize", p.where(), "the group is %v", get("Gid"))
			c.Ob(isT(get("SendConfirmedTimes"), "A1[10]"), "meta", "ContractMeta.Deserialize", p.where(), "the latency is %v", get("SendConfirmedTimes"))
			c.Ob(isT(get("CreateBlockHash"), "BytesToHash(A1[11:43]).R0") && p.Holds("BytesToHash(A1[11:43]).R1 == nil"), "meta", "ContractMeta.Deserialize", p.where(), "the create hash is %v", get("CreateBlockHash"))
			c.Ob(isT(get("QuotaRatio"), "A1[43]"), "meta", "ContractMeta.Deserialize", p.where(), "the multiplier is %v", get("QuotaRatio"))
			s := get("SeedConfirmedTimes")
			ok := isT(s, "A1[44]") && p.Holds("len(A1) > 44") || isT(s, "A1[10]") && p.Holds("len(A1) <= 44")
			c.Ob(ok, "meta", "ContractMeta.Deserialize", p.where(), "the random degree is %v: %s", s, p.Describe())
		}
	}
	c.Floor("meta", 6)
}

func runC14(c *Ctx) {
	f := c.Func(corePkg, "AccountBlock.Copy")
	if f == nil {
		return
	}
	pk := c.P.ByRel[corePkg]
	o := pk.Types.Scope().Lookup("AccountBlock")
	st, ok := o.Type().Underlying().(*types.Struct)
	if !c.Ob(ok, "anchor", "AccountBlock", "", "AccountBlock is not a struct") {
		return
	}
	for _, p := range c.all(c.Paths(c.Opts([]string{corePkg}), f)) {
		if p.o.panic {
			continue
		}
		r := p.o.res[0]
		c.Ob(r.Op == "alloc", "fresh", "AccountBlock.Copy", p.where(), "the copy is %v", r)
		for i := 0; i < st.NumFields(); i++ {
			fd := st.Field(i)
			n := fd.Name()
			v := p.o.st.load(mkFA(r, n, fd.Type()))
			orig := fld(param(0, nil), n)
			same := isT(v, "A0."+n)
			nilOrig := p.F.possible(orig, kNil()) == EQ
			emptyOrig := nilOrig || p.Holds("len(A0."+n+") <= 0")
			var okv bool
			switch {
			case n == "SendBlockList":
				okv = matchSegs(p.segs(v), []sp{spEach("A0.SendBlockList", spB("Copy(A0.SendBlockList[I])"))}, Bind{}) && v != orig || emptyOrig && (same || len(dropEmpty(p.segs(v))) == 0)
			case n == "PublicKey" || n == "producer":
				okv = same || matchSegs(p.segs(v), []sp{spS("A0." + n)}, Bind{}) || emptyOrig
			default:
				switch u := fd.Type().Underlying().(type) {
				case *types.Pointer:
					if nilOrig {
						okv = same || isNilT(v)
					} else if strings.HasSuffix(u.Elem().String(), "big.Int") {
						okv = v.Op == "alloc" && isT(p.o.st.big(v), "A0."+n)
					} else {
						okv = v.Op == "alloc" && isT(p.o.st.load(v), "*A0."+n)
					}
				case *types.Slice:
					okv = (v.Op == "mkslice" || v.Op == "append" || v.Op == "slice") && v != orig && v.root() != orig && matchSegs(p.segs(v), []sp{spS("A0." + n)}, Bind{}) || emptyOrig && (same || len(dropEmpty(p.segs(v))) == 0 || v.Op == "mkslice")
				default:
					okv = same
				}
			}
			c.Ob(okv, "field", "AccountBlock.Copy", p.where(), "field %s of the copy is %v (%s): %s", n, v, segString(p.segs(v)), p.Describe())
		}
	}
	c.Floor("field", 20)
}
