package main

const contractsPkg = "vm/contracts"
const cabiPkg = "vm/contracts/abi"

func init() {
	register(&Prop{
		ID:    "C19",
		Title: "Token supply and ownership change only by the asset contract's rules",
		Statement: "Every method of the asset contract accepts a call exactly under its published conditions and then changes exactly what it should. Issue creates a fresh token id, refuses an existing one and an exhausted symbol index, records name, symbol, supply, decimals, owner and limits as given, and mints exactly the total supply to the issuer. " +
			"Reissue is possible only for the owner of a reissuable token and never beyond its maximum supply; it raises the recorded supply by the amount and mints that amount to the receiver. Burn lowers the recorded supply by the burnt amount and removes that amount from the contract's balance, and an owner-only token can be burnt only by its owner. " +
			"Ownership transfer and disabling of reissue are possible only for the owner of a reissuable token and change nothing else of the token; the owner lists follow. The issue fee is charged, other methods are free, and methods that take no money refuse money. Token queries answer with the recorded data.",
		Over:      []string{"inputs", "histories"},
		Quant:     "all calls of all asset-contract methods in all contract states",
		Why:       "The rules relate arbitrary parameters to arbitrary recorded token state; tests run a few scripted sequences.",
		Files:     []string{"vm/contracts/contracts_asset.go", "vm/contracts/abi/abi_asset.go", "vm/util/contracts_utils.go"},
		Mech:      [][2]string{{"request checks", "Method*.DoSend, checkToken"}, {"state transitions", "Method*.DoReceive"}, {"token storage", "GetTokenByID, AppendTokenID, DeleteTokenID"}},
		Technique: "path-sensitive symbolic dataflow over each method: the exact acceptance condition, the exact set of storage writes, logs and balance changes, and every field of every generated send block are matched against a specification table",
		Note:      "The ABI codec and the storage layer are trusted to return what was packed and stored. Regular expressions are compared as constants.",
		Run:       runC19,
	})
}

func contractsEng(c *Ctx, more ...string) *Engine {
	return c.Opts([]string{contractsPkg, cabiPkg, "vm/util"}, append([]string{"GetTokenByID", "SetValue", "GetValue", "PackVariable", "PackMethod", "PackCallback", "UnpackMethod", "UnpackVariable", "PackEvent", "NewLog", "FirstToLower",
		"GetTokenInfoKey", "GetNextTokenIndexKey", "GetTokenIDListKey", "AppendTokenID", "DeleteTokenID", "CreateTokenTypeId", "SubBalance", "AddBalance", "MatchString", "IsLeafUpgrade", "IsEarthUpgrade", "IsStemUpgrade", "LeftPadBytes"}, more...)...)
}

const assetSpec = `

fn MethodIssue.GetFee
 ok A1.Amount <= 0
 ret 0 1000000000000000000000

fn MethodReIssue.GetFee
 ret 0 0
fn MethodBurn.GetFee
 ret 0 0
fn MethodTransferOwnership.GetFee
 ret 0 0
fn MethodDisableReIssue.GetFee
 ret 0 0
fn MethodGetTokenInfo.GetFee
 ret 0 0

fn MethodIssue.GetSendQuota
 ret 0 A2.IssueQuota
fn MethodReIssue.GetSendQuota
 ret 0 A2.ReIssueQuota
fn MethodBurn.GetSendQuota
 ret 0 A2.BurnQuota
fn MethodTransferOwnership.GetSendQuota
 ret 0 A2.TransferOwnershipQuota
fn MethodDisableReIssue.GetSendQuota
 ret 0 A2.DisableReIssueQuota
fn MethodGetTokenInfo.GetSendQuota
 ret 0 A2.GetTokenInfoQuota

fn MethodIssue.GetRefundData
 ret 0 empty
 ret 1 false
fn MethodReIssue.GetRefundData
 ret 0 empty
 ret 1 false
fn MethodBurn.GetRefundData
 ret 0 empty
 ret 1 false
fn MethodTransferOwnership.GetRefundData
 ret 0 empty
 ret 1 false
fn MethodDisableReIssue.GetRefundData
 ret 0 empty
 ret 1 false

fn MethodIssue.DoSend
 def P unp(ABIAsset, A0.MethodName, A2.Data)
 ok UnpackMethod(ABIAsset, _, A0.MethodName, A2.Data) == nil
 def H IsEarthUpgrade(LatestSnapshotBlock(A1).R0.Height)
 ok $P.TotalSupply <= 115792089237316195423570985008687907853269984665640564039457584007913129639935
 ok len($P.TokenName) > 0 ~ len($P.TokenName) != 0
 ok len($P.TokenName) <= 40
 ok len($P.TokenSymbol) > 0 ~ len($P.TokenSymbol) != 0
 ok len($P.TokenSymbol) <= 10
 ok $H || $P.TotalSupply > 0
 ok $H || $P.TotalSupply >= Exp(10, $P.Decimals, nil)
 ok !$H || $P.IsReIssuable || $P.TotalSupply > 0
 ok MatchString("^([a-zA-Z_]+[ ]?)*[a-zA-Z_]$", $P.TokenName).R0
 ok MatchString("^[A-Z0-9]+$", $P.TokenSymbol).R0
 ok $P.TokenSymbol != "VITE"
 ok $P.TokenSymbol != "VCP"
 ok $P.TokenSymbol != "VX"
 ok !$P.IsReIssuable || $P.MaxSupply >= $P.TotalSupply
 ok !$P.IsReIssuable || $P.MaxSupply <= 115792089237316195423570985008687907853269984665640564039457584007913129639935
 ok $P.IsReIssuable || $P.MaxSupply <= 0
 ok $P.IsReIssuable || !$P.IsOwnerBurnOnly
 data PackMethod(ABIAsset, A0.MethodName, list($P.IsReIssuable, $P.TokenName, $P.TokenSymbol, $P.TotalSupply, $P.Decimals, $P.MaxSupply, $P.IsOwnerBurnOnly)).R0

fn MethodReIssue.DoSend
 def P unp(ABIAsset, A0.MethodName, A2.Data)
 ok UnpackMethod(ABIAsset, _, A0.MethodName, A2.Data) == nil
 ok $P.Amount > 0
 ok A2.Amount <= 0
 data PackMethod(ABIAsset, A0.MethodName, list($P.TokenId, $P.Amount, $P.ReceiveAddress)).R0

fn MethodBurn.DoSend
 ok A2.Amount > 0
 data PackMethod(ABIAsset, A0.MethodName, _).R0

fn MethodTransferOwnership.DoSend
 def P unp(ABIAsset, A0.MethodName, A2.Data)
 ok UnpackMethod(ABIAsset, _, A0.MethodName, A2.Data) == nil
 ok A2.Amount <= 0
 ok $P.NewOwner != A2.AccountAddress
 data PackMethod(ABIAsset, A0.MethodName, list($P.TokenId, $P.NewOwner)).R0

fn MethodDisableReIssue.DoSend
 ok UnpackMethod(ABIAsset, _, A0.MethodName, A2.Data) == nil
 ok A2.Amount <= 0
 data PackMethod(ABIAsset, A0.MethodName, list(unp(ABIAsset, A0.MethodName, A2.Data))).R0

fn MethodGetTokenInfo.DoSend
 def P unp(ABIAsset, A0.MethodName, A2.Data)
 ok UnpackMethod(ABIAsset, _, A0.MethodName, A2.Data) == nil
 ok A2.Amount <= 0
 case A0.MethodName == "GetTokenInformation"
  data PackMethod(ABIAsset, A0.MethodName, list($P.TokenId)).R0
 case A0.MethodName != "GetTokenInformation"
  data PackMethod(ABIAsset, A0.MethodName, list($P.TokenId, $P.Bid)).R0

fn MethodBurn2.DoSend
 ok false

fn MethodIssue.DoReceive
 def P unp(ABIAsset, A0.MethodName, A3.Data)
 def ID CreateTokenTypeId(list(A3.AccountAddress, LeftPadBytes(Bytes(A2.Height), 8), A3.Hash))
 def NX GetValue(A1, GetNextTokenIndexKey($P.TokenSymbol))
 def LK GetTokenIDListKey(A3.AccountAddress)
 ok len(GetValue(A1, GetTokenInfoKey($ID))) <= 0
 ok len($NX) <= 0 || unp(ABIAsset, "tokenIndex", $NX) != 1000
 case len($NX) <= 0
  set GetTokenInfoKey($ID) = PackVariable(ABIAsset, "tokenInfo", list($P.TokenName, $P.TokenSymbol, $P.TotalSupply, $P.Decimals, A3.AccountAddress, $P.IsReIssuable, $P.MaxSupply, $P.IsOwnerBurnOnly, 0)).R0
  set $LK = AppendTokenID(GetValue(A1, $LK), $ID)
  set GetNextTokenIndexKey($P.TokenSymbol) = PackVariable(ABIAsset, "tokenIndex", list(1)).R0
  log ABIAsset, FirstToLower(A0.MethodName), list($ID)
  send A3.AccountAddress; BlockTypeSendReward; $P.TotalSupply; $ID; empty
 case len($NX) > 0
  def N unp(ABIAsset, "tokenIndex", $NX)
  set GetTokenInfoKey($ID) = PackVariable(ABIAsset, "tokenInfo", list($P.TokenName, $P.TokenSymbol, $P.TotalSupply, $P.Decimals, A3.AccountAddress, $P.IsReIssuable, $P.MaxSupply, $P.IsOwnerBurnOnly, $N)).R0
  set $LK = AppendTokenID(GetValue(A1, $LK), $ID)
  set GetNextTokenIndexKey($P.TokenSymbol) = PackVariable(ABIAsset, "tokenIndex", list($N + 1)).R0
  log ABIAsset, FirstToLower(A0.MethodName), list($ID)
  send A3.AccountAddress; BlockTypeSendReward; $P.TotalSupply; $ID; empty

fn MethodReIssue.DoReceive
 def P unp(ABIAsset, A0.MethodName, A3.Data)
 def T GetTokenByID(A1, $P.TokenId).R0
 ok $T != nil
 ok $T.IsReIssuable
 ok $T.Owner == A3.AccountAddress
 ok $T.MaxSupply - $T.TotalSupply >= $P.Amount ~ $T.TotalSupply + $P.Amount <= $T.MaxSupply ~ $T.MaxSupply - $P.Amount >= $T.TotalSupply
 set GetTokenInfoKey($P.TokenId) = PackVariable(ABIAsset, "tokenInfo", list($T.TokenName, $T.TokenSymbol, $T.TotalSupply + $P.Amount, $T.Decimals, $T.Owner, $T.IsReIssuable, $T.MaxSupply, $T.OwnerBurnOnly, $T.Index)).R0
 log ABIAsset, FirstToLower(A0.MethodName), list($P.TokenId)
 send $P.ReceiveAddress; BlockTypeSendReward; $P.Amount; $P.TokenId; empty

fn MethodBurn.DoReceive
 def T GetTokenByID(A1, A3.TokenId).R0
 ok $T != nil
 ok IsEarthUpgrade(LatestSnapshotBlock(A1).R0.Height) || $T.IsReIssuable
 ok !$T.OwnerBurnOnly || $T.Owner == A3.AccountAddress
 ok SubBalance(A1, &A3.TokenId, A3.Amount)
 set GetTokenInfoKey(A3.TokenId) = PackVariable(ABIAsset, "tokenInfo", list($T.TokenName, $T.TokenSymbol, $T.TotalSupply - A3.Amount, $T.Decimals, $T.Owner, $T.IsReIssuable, $T.MaxSupply, $T.OwnerBurnOnly, $T.Index)).R0
 call SubBalance(A1, &A3.TokenId, A3.Amount)
 log ABIAsset, FirstToLower(A0.MethodName), list(A3.TokenId, A3.AccountAddress, A3.Amount)

fn MethodTransferOwnership.DoReceive
 def P unp(ABIAsset, A0.MethodName, A3.Data)
 def T GetTokenByID(A1, $P.TokenId).R0
 def K1 GetTokenIDListKey(A3.AccountAddress)
 def K2 GetTokenIDListKey($P.NewOwner)
 ok $T != nil
 ok $T.IsReIssuable
 ok $T.Owner == A3.AccountAddress
 set GetTokenInfoKey($P.TokenId) = PackVariable(ABIAsset, "tokenInfo", list($T.TokenName, $T.TokenSymbol, $T.TotalSupply, $T.Decimals, $P.NewOwner, $T.IsReIssuable, $T.MaxSupply, $T.OwnerBurnOnly, $T.Index)).R0
 set $K1 = DeleteTokenID(GetValue(A1, $K1), $P.TokenId)
 set $K2 = AppendTokenID(GetValue(A1, $K2), $P.TokenId)
 log ABIAsset, FirstToLower(A0.MethodName), list($P.TokenId, $P.NewOwner)

fn MethodDisableReIssue.DoReceive
 def P unp(ABIAsset, A0.MethodName, A3.Data)
 def T GetTokenByID(A1, $P).R0
 ok $T != nil
 ok $T.IsReIssuable
 ok $T.Owner == A3.AccountAddress
 set GetTokenInfoKey($P) = PackVariable(ABIAsset, "tokenInfo", list($T.TokenName, $T.TokenSymbol, $T.TotalSupply, $T.Decimals, $T.Owner, false, 0, false, $T.Index)).R0
 log ABIAsset, FirstToLower(A0.MethodName), list($P)

fn MethodGetTokenInfo.DoReceive
 def P unp(ABIAsset, A0.MethodName, A3.Data)
 def T GetTokenByID(A1, $P.TokenId).R0
 case $T != nil && A0.MethodName == "GetTokenInformation"
  send A3.AccountAddress; BlockTypeSendCall; 0; ViteTokenId; PackCallback(ABIAsset, A0.MethodName, list(A3.Hash, $P.TokenId, true, $T.IsReIssuable, $T.TokenName, $T.TokenSymbol, $T.TotalSupply, $T.Decimals, $T.MaxSupply, $T.OwnerBurnOnly, $T.Index, $T.Owner)).R0
 case $T != nil && A0.MethodName != "GetTokenInformation"
  send A3.AccountAddress; BlockTypeSendCall; 0; ViteTokenId; PackCallback(ABIAsset, A0.MethodName, list($P.TokenId, $P.Bid, true, $T.Decimals, $T.TokenSymbol, $T.Index, $T.Owner)).R0
 case $T == nil && A0.MethodName == "GetTokenInformation"
  send A3.AccountAddress; BlockTypeSendCall; 0; ViteTokenId; PackCallback(ABIAsset, A0.MethodName, list(A3.Hash, $P.TokenId, false, false, "", "", 0, 0, 0, false, 0, _)).R0
 case $T == nil && A0.MethodName != "GetTokenInformation"
  send A3.AccountAddress; BlockTypeSendCall; 0; ViteTokenId; PackCallback(ABIAsset, A0.MethodName, list($P.TokenId, $P.Bid, false, 0, "", 0, _)).R0
`

func runC19(c *Ctx) {
	e := contractsEng(c)
	for _, s := range parseSpecs(assetSpec) {
		c.specFn(e, contractsPkg, s, "asset")
	}
	for _, s := range parseSpecs(assetAbiSpec) {
		e := c.Opts([]string{cabiPkg}, "GetTokenInfoKey", "UnpackVariable", "DataHash", "GetValue")
		c.specFn(e, cabiPkg, s, "token-record")
	}
	runTokenList(c)
}

const assetAbiSpec = `
fn GetTokenByID
 err 1
 def V GetValue(A0, GetTokenInfoKey(A1))
 ok *Address(A0) == AddressAsset
 ok $V.R1 == nil
 case len($V.R0) <= 0
  ret 0 nil
 case len($V.R0) > 0
  ret 0 unp(ABIAsset, "tokenInfo", $V.R0)
fn GetTokenInfoKey
 ret 0 bytes A0
fn GetTokenIDListKey
 ret 0 bytes A0
fn GetNextTokenIndexKey
 ret 0 bytes DataHash(A0)
fn AppendTokenID
 ret 0 bytes A0; A1
`

// runTokenList: removing an id takes out exactly one entry and keeps the others in order.
func runTokenList(c *Ctx) {
	f := c.Func(cabiPkg, "DeleteTokenID")
	if f == nil {
		return
	}
	n := 0
	for _, p := range c.all(c.Paths(c.Opts([]string{cabiPkg}), f)) {
		r := p.o.res[0]
		if isT(r, "A0") {
			// nothing removed: no entry equals the id
			ok := false
			for _, ev := range p.Evs {
				if ev.Kind != "loop" {
					continue
				}
				for _, ph := range ev.Loop.Phis {
					b := Bind{"X": ph.Iter}
					if !isZero(ph.Init) || !holdsB(p, "X >= len(A0) / 10", b) {
						continue
					}
					good := true
					for i, st := range ev.Loop.Iters {
						q := &Path{c: c, o: Outcome{st: st, pos: ev.Pos}, F: st.facts}
						good = good && isTB(ph.Next[i], "X + 1", b) && (holdsB(q, "A1 != A0[10 * X : 10 * (X + 1)]", b) || holdsB(q, "A1 != A0[10 * X : 10 * X + 10]", b))
					}
					ok = ok || good
				}
			}
			c.Ob(ok, "token-list", "DeleteTokenID", p.where(), "an id in the list is kept: %s", p.Describe())
			n++
			continue
		}
		ok := false
		for _, f := range p.F {
			if f.Mask != EQ {
				continue
			}
			for _, x := range []*Term{f.A, f.B} {
				for _, ps := range []string{"A0[10 * X : 10 * (X + 1)]", "A0[10 * X : 10 * X + 10]"} {
					b, m := matchT(pat(ps), x, Bind{})
					if !m {
						continue
					}
					for _, hi := range []string{"10 * (X + 1)", "10 * X + 10"} {
						if r.Op == "mkslice" && isT(r.Args[0], "len(A0) - 10") {
							var dst, src []*Term
							for _, ev := range p.Evs {
								if ev.Kind == "copy" {
									dst, src = append(dst, ev.Args[0]), append(src, ev.Args[1])
								}
							}
							ok = ok || len(dst) == 2 && dst[0].root() == r && dst[1].root() == r && isTB(dst[0], "_[:10 * X]", b) && isTB(src[0], "A0[:10 * X]", b) && isTB(dst[1], "_[10 * X:]", b) && isTB(src[1], "A0["+hi+":]", b)
						}
						ok = ok || matchSegs(p.segs(r), []sp{spS("A0[:10 * X]"), spS("A0[" + hi + ":]")}, b)
					}
				}
			}
		}
		c.Ob(ok, "token-list", "DeleteTokenID", p.where(), "not exactly the one entry is removed: result %v, %s", r, p.Describe())
		n++
	}
	c.Ob(n >= 2, "token-list", "DeleteTokenID", c.P.pos(f.Pos()), "no path analysed")
}
