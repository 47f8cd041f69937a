package main

func init() {
	register(&Prop{
		ID:    "C20",
		Title: "Staked coins are accounted exactly and returned only to their staker",
		Statement: "The staking contract accepts only the base coin and only amounts of at least the minimum stake, records for each stake its amount, beneficiary, delegate and expiration height, and raises the beneficiary's total by exactly the staked amount. " +
			"A stake can be cancelled only by the account that made it (or the delegate that made it on behalf), only after it expired, never for more than was staked, and never leaving a remainder below the minimum; cancelling lowers the record and the beneficiary's total by exactly the amount returned, removes records that reach zero, and sends exactly that amount of the base coin back to the caller. " +
			"A stake made with an id is cancelled as a whole, by that id, once. A new stake never overwrites the record of another one. Callers that asked for a callback get one that names their stake and whether it succeeded.",
		Over:      []string{"inputs", "histories"},
		Quant:     "all calls of all staking-contract methods in all contract states",
		Why:       "Losing or duplicating stake needs a particular sequence of stakes and cancellations with particular amounts.",
		Files:     []string{"vm/contracts/contracts_quota.go", "vm/contracts/abi/abi_quota.go", "vm/contracts/params.go"},
		Mech:      [][2]string{{"request checks", "MethodStake*.DoSend, MethodCancelStake*.DoSend"}, {"state transitions", "MethodStake*.DoReceive, MethodCancelStake*.DoReceive"}, {"record lookup", "getStakeInfo, getNextStakeInfoKey, UnpackStakeInfo"}},
		Technique: "path-sensitive symbolic dataflow over each method: the exact acceptance condition, the exact set of storage writes, and every field of every generated send block are matched against a specification table",
		Note:      "The ABI codec and the storage layer are trusted to return what was packed and stored.",
		Run:       runC20,
	})
}

const stakeSpec = `
def VITE ViteTokenId
def NOW SnapshotBlock(GlobalStatus(A4)).Height
def MIN 134000000000000000000

fn MethodStake.GetFee
 ret 0 0
fn MethodCancelStake.GetFee
 ret 0 0
fn MethodDelegateStake.GetFee
 ret 0 0
fn MethodCancelDelegateStake.GetFee
 ret 0 0
fn MethodStakeV3.GetFee
 ret 0 0
fn MethodCancelStakeV3.GetFee
 ret 0 0

fn MethodStake.GetSendQuota
 ret 0 A2.StakeQuota
fn MethodCancelStake.GetSendQuota
 ret 0 A2.CancelStakeQuota
fn MethodDelegateStake.GetSendQuota
 ret 0 A2.DelegateStakeQuota
fn MethodCancelDelegateStake.GetSendQuota
 ret 0 A2.CancelDelegateStakeQuota
fn MethodStakeV3.GetSendQuota
 case A0.MethodName == "StakeForQuotaWithCallback"
  ret 0 A2.DelegateStakeQuota
 case A0.MethodName != "StakeForQuotaWithCallback"
  ret 0 A2.StakeQuota
fn MethodCancelStakeV3.GetSendQuota
 case A0.MethodName == "CancelQuotaStakingWithCallback"
  ret 0 A2.CancelDelegateStakeQuota
 case A0.MethodName != "CancelQuotaStakingWithCallback"
  ret 0 A2.CancelStakeQuota

fn MethodStake.GetRefundData
 ret 0 empty
 ret 1 false
fn MethodCancelStake.GetRefundData
 ret 0 empty
 ret 1 false
fn MethodDelegateStake.GetRefundData
 def P unp(ABIQuota, A0.MethodName, A1.Data)
 ret 0 PackCallback(ABIQuota, A0.MethodName, list($P.StakeAddress, $P.Beneficiary, A1.Amount, $P.Bid, false)).R0
 ret 1 true
fn MethodCancelDelegateStake.GetRefundData
 def P unp(ABIQuota, A0.MethodName, A1.Data)
 ret 0 PackCallback(ABIQuota, A0.MethodName, list($P.StakeAddress, $P.Beneficiary, $P.Amount, $P.Bid, false)).R0
 ret 1 true
fn MethodStakeV3.GetRefundData
 case A0.MethodName == "StakeForQuotaWithCallback"
  ret 0 PackCallback(ABIQuota, A0.MethodName, list(A1.Hash, false)).R0
  ret 1 true
 case A0.MethodName != "StakeForQuotaWithCallback"
  ret 0 empty
  ret 1 false
fn MethodCancelStakeV3.GetRefundData
 case A0.MethodName == "CancelQuotaStakingWithCallback"
  ret 0 PackCallback(ABIQuota, A0.MethodName, list(unp(ABIQuota, A0.MethodName, A1.Data), false)).R0
  ret 1 true
 case A0.MethodName != "CancelQuotaStakingWithCallback"
  ret 0 empty
  ret 1 false

fn MethodStake.DoSend
 def P unp(ABIQuota, A0.MethodName, A2.Data)
 ok A2.TokenId == $VITE
 ok A2.Amount >= $MIN
 ok UnpackMethod(ABIQuota, _, A0.MethodName, A2.Data) == nil
 data PackMethod(ABIQuota, A0.MethodName, list($P)).R0

fn MethodCancelStake.DoSend
 def P unp(ABIQuota, A0.MethodName, A2.Data)
 ok A2.Amount <= 0
 ok UnpackMethod(ABIQuota, _, A0.MethodName, A2.Data) == nil
 ok $P.Amount >= $MIN
 data PackMethod(ABIQuota, A0.MethodName, list($P.Beneficiary, $P.Amount)).R0

fn MethodDelegateStake.DoSend
 def P unp(ABIQuota, A0.MethodName, A2.Data)
 ok A2.TokenId == $VITE
 ok A2.Amount >= $MIN
 ok UnpackMethod(ABIQuota, _, A0.MethodName, A2.Data) == nil
 ok $P.StakeHeight >= nodeConfig.params.StakeHeight
 ok $P.StakeHeight <= 31536000
 data PackMethod(ABIQuota, A0.MethodName, list($P.StakeAddress, $P.Beneficiary, $P.Bid, $P.StakeHeight)).R0

fn MethodCancelDelegateStake.DoSend
 def P unp(ABIQuota, A0.MethodName, A2.Data)
 ok A2.Amount <= 0
 ok UnpackMethod(ABIQuota, _, A0.MethodName, A2.Data) == nil
 ok $P.Amount >= $MIN
 data PackMethod(ABIQuota, A0.MethodName, list($P.StakeAddress, $P.Beneficiary, $P.Amount, $P.Bid)).R0

fn MethodStakeV3.DoSend
 def P unp(ABIQuota, A0.MethodName, A2.Data)
 ok A2.TokenId == $VITE
 ok A2.Amount >= $MIN
 ok UnpackMethod(ABIQuota, _, A0.MethodName, A2.Data) == nil
 ok A0.MethodName != "StakeForQuotaWithCallback" || $P.StakeHeight >= nodeConfig.params.StakeHeight
 ok A0.MethodName != "StakeForQuotaWithCallback" || $P.StakeHeight <= 31536000
 case A0.MethodName == "StakeForQuotaWithCallback"
  data PackMethod(ABIQuota, A0.MethodName, list($P.Beneficiary, $P.StakeHeight)).R0
 case A0.MethodName != "StakeForQuotaWithCallback"
  data PackMethod(ABIQuota, A0.MethodName, list($P.Beneficiary)).R0

fn MethodCancelStakeV3.DoSend
 ok A2.Amount <= 0
 ok UnpackMethod(ABIQuota, _, A0.MethodName, A2.Data) == nil
 data PackMethod(ABIQuota, A0.MethodName, list(unp(ABIQuota, A0.MethodName, A2.Data))).R0

fn MethodStake.DoReceive
 def P unp(ABIQuota, A0.MethodName, A3.Data)
 def S getStakeInfo(A1, A3.AccountAddress, $P, false, ZERO_ADDRESS, 0, A2.Height)
 def BK GetStakeBeneficialKey($P)
 def BV GetValue(A1, $BK)
 def B unp(ABIQuota, "stakeBeneficial", $BV).Amount
 def EXP $NOW + nodeConfig.params.StakeHeight
 case $S.R1 != nil && len($BV) > 0
  set $S.R0 = PackVariable(ABIQuota, "stakeInfo", list($S.R1.Amount + A3.Amount, $EXP, $P, false, ZERO_ADDRESS, 0)).R0
  set $BK = PackVariable(ABIQuota, "stakeBeneficial", list($B + A3.Amount)).R0
 case $S.R1 != nil && len($BV) <= 0
  set $S.R0 = PackVariable(ABIQuota, "stakeInfo", list($S.R1.Amount + A3.Amount, $EXP, $P, false, ZERO_ADDRESS, 0)).R0
  set $BK = PackVariable(ABIQuota, "stakeBeneficial", list(A3.Amount)).R0
 case $S.R1 == nil && len($BV) > 0
  set $S.R0 = PackVariable(ABIQuota, "stakeInfo", list(A3.Amount, $EXP, $P, false, ZERO_ADDRESS, 0)).R0
  set $BK = PackVariable(ABIQuota, "stakeBeneficial", list($B + A3.Amount)).R0
 case $S.R1 == nil && len($BV) <= 0
  set $S.R0 = PackVariable(ABIQuota, "stakeInfo", list(A3.Amount, $EXP, $P, false, ZERO_ADDRESS, 0)).R0
  set $BK = PackVariable(ABIQuota, "stakeBeneficial", list(A3.Amount)).R0

fn MethodDelegateStake.DoReceive
 def P unp(ABIQuota, A0.MethodName, A3.Data)
 def S getStakeInfo(A1, $P.StakeAddress, $P.Beneficiary, true, A3.AccountAddress, $P.Bid, A2.Height)
 def BK GetStakeBeneficialKey($P.Beneficiary)
 def BV GetValue(A1, $BK)
 def B unp(ABIQuota, "stakeBeneficial", $BV).Amount
 def EXP $NOW + $P.StakeHeight
 def CB PackCallback(ABIQuota, A0.MethodName, list($P.StakeAddress, $P.Beneficiary, A3.Amount, $P.Bid, true)).R0
 case $S.R1 != nil && len($BV) > 0 && $S.R1.ExpirationHeight >= $EXP
  set $S.R0 = PackVariable(ABIQuota, "stakeInfo", list($S.R1.Amount + A3.Amount, $S.R1.ExpirationHeight, $P.Beneficiary, true, A3.AccountAddress, $P.Bid)).R0
  set $BK = PackVariable(ABIQuota, "stakeBeneficial", list($B + A3.Amount)).R0
  send A3.AccountAddress; BlockTypeSendCall; 0; $VITE; $CB
 case $S.R1 != nil && len($BV) > 0 && $S.R1.ExpirationHeight <= $EXP
  set $S.R0 = PackVariable(ABIQuota, "stakeInfo", list($S.R1.Amount + A3.Amount, $EXP, $P.Beneficiary, true, A3.AccountAddress, $P.Bid)).R0
  set $BK = PackVariable(ABIQuota, "stakeBeneficial", list($B + A3.Amount)).R0
  send A3.AccountAddress; BlockTypeSendCall; 0; $VITE; $CB
 case $S.R1 != nil && len($BV) <= 0 && $S.R1.ExpirationHeight >= $EXP
  set $S.R0 = PackVariable(ABIQuota, "stakeInfo", list($S.R1.Amount + A3.Amount, $S.R1.ExpirationHeight, $P.Beneficiary, true, A3.AccountAddress, $P.Bid)).R0
  set $BK = PackVariable(ABIQuota, "stakeBeneficial", list(A3.Amount)).R0
  send A3.AccountAddress; BlockTypeSendCall; 0; $VITE; $CB
 case $S.R1 != nil && len($BV) <= 0 && $S.R1.ExpirationHeight <= $EXP
  set $S.R0 = PackVariable(ABIQuota, "stakeInfo", list($S.R1.Amount + A3.Amount, $EXP, $P.Beneficiary, true, A3.AccountAddress, $P.Bid)).R0
  set $BK = PackVariable(ABIQuota, "stakeBeneficial", list(A3.Amount)).R0
  send A3.AccountAddress; BlockTypeSendCall; 0; $VITE; $CB
 case $S.R1 == nil && len($BV) > 0
  set $S.R0 = PackVariable(ABIQuota, "stakeInfo", list(A3.Amount, $EXP, $P.Beneficiary, true, A3.AccountAddress, $P.Bid)).R0
  set $BK = PackVariable(ABIQuota, "stakeBeneficial", list($B + A3.Amount)).R0
  send A3.AccountAddress; BlockTypeSendCall; 0; $VITE; $CB
 case $S.R1 == nil && len($BV) <= 0
  set $S.R0 = PackVariable(ABIQuota, "stakeInfo", list(A3.Amount, $EXP, $P.Beneficiary, true, A3.AccountAddress, $P.Bid)).R0
  set $BK = PackVariable(ABIQuota, "stakeBeneficial", list(A3.Amount)).R0
  send A3.AccountAddress; BlockTypeSendCall; 0; $VITE; $CB

fn MethodStakeV3.DoReceive
 def P unp(ABIQuota, A0.MethodName, A3.Data)
 def K getNextStakeInfoKey(A1, A3.AccountAddress, A2.Height)
 def BK GetStakeBeneficialKey($P.Beneficiary)
 def BV GetValue(A1, $BK)
 def B unp(ABIQuota, "stakeBeneficial", $BV).Amount
 def CB PackCallback(ABIQuota, A0.MethodName, list(A3.Hash, true)).R0
 def E1 $NOW + $P.StakeHeight
 def E2 $NOW + nodeConfig.params.StakeHeight
 case A0.MethodName == "StakeForQuotaWithCallback" && len($BV) > 0
  set $K = PackVariable(ABIQuota, "stakeInfoV2", list(A3.Amount, $E1, $P.Beneficiary, A3.Hash)).R0
  set A3.Hash = $K
  set $BK = PackVariable(ABIQuota, "stakeBeneficial", list($B + A3.Amount)).R0
  send A3.AccountAddress; BlockTypeSendCall; 0; $VITE; $CB
 case A0.MethodName == "StakeForQuotaWithCallback" && len($BV) <= 0
  set $K = PackVariable(ABIQuota, "stakeInfoV2", list(A3.Amount, $E1, $P.Beneficiary, A3.Hash)).R0
  set A3.Hash = $K
  set $BK = PackVariable(ABIQuota, "stakeBeneficial", list(A3.Amount)).R0
  send A3.AccountAddress; BlockTypeSendCall; 0; $VITE; $CB
 case A0.MethodName != "StakeForQuotaWithCallback" && len($BV) > 0
  set $K = PackVariable(ABIQuota, "stakeInfoV2", list(A3.Amount, $E2, $P.Beneficiary, A3.Hash)).R0
  set A3.Hash = $K
  set $BK = PackVariable(ABIQuota, "stakeBeneficial", list($B + A3.Amount)).R0
 case A0.MethodName != "StakeForQuotaWithCallback" && len($BV) <= 0
  set $K = PackVariable(ABIQuota, "stakeInfoV2", list(A3.Amount, $E2, $P.Beneficiary, A3.Hash)).R0
  set A3.Hash = $K
  set $BK = PackVariable(ABIQuota, "stakeBeneficial", list(A3.Amount)).R0

fn MethodCancelStake.DoReceive
 def P unp(ABIQuota, A0.MethodName, A3.Data)
 def S getStakeInfo(A1, A3.AccountAddress, $P.Beneficiary, false, ZERO_ADDRESS, 0, A2.Height)
 def BK GetStakeBeneficialKey($P.Beneficiary)
 def BV GetValue(A1, $BK)
 def B unp(ABIQuota, "stakeBeneficial", $BV).Amount
 def REST $S.R1.Amount - $P.Amount
 ok $S.R1 != nil
 ok $S.R1.ExpirationHeight <= $NOW
 ok $S.R1.Amount >= $P.Amount
 ok $S.R1.Id == nil
 ok $S.R1.Amount == $P.Amount || $S.R1.Amount >= $P.Amount + $MIN ~ $REST >= $MIN
 ok UnpackVariable(ABIQuota, _, "stakeBeneficial", $BV) == nil
 ok $B >= $P.Amount
 case $S.R1.Amount == $P.Amount && $B == $P.Amount
  set $S.R0 = nil
  set $BK = nil
  send A3.AccountAddress; BlockTypeSendCall; $P.Amount; $VITE; empty
 case $S.R1.Amount != $P.Amount && $B == $P.Amount
  set $S.R0 = PackVariable(ABIQuota, "stakeInfo", list($REST, $S.R1.ExpirationHeight, $S.R1.Beneficiary, false, ZERO_ADDRESS, 0)).R0
  set $BK = nil
  send A3.AccountAddress; BlockTypeSendCall; $P.Amount; $VITE; empty
 case $S.R1.Amount == $P.Amount && $B != $P.Amount
  set $S.R0 = nil
  set $BK = PackVariable(ABIQuota, "stakeBeneficial", list($B - $P.Amount)).R0
  send A3.AccountAddress; BlockTypeSendCall; $P.Amount; $VITE; empty
 case $S.R1.Amount != $P.Amount && $B != $P.Amount
  set $S.R0 = PackVariable(ABIQuota, "stakeInfo", list($REST, $S.R1.ExpirationHeight, $S.R1.Beneficiary, false, ZERO_ADDRESS, 0)).R0
  set $BK = PackVariable(ABIQuota, "stakeBeneficial", list($B - $P.Amount)).R0
  send A3.AccountAddress; BlockTypeSendCall; $P.Amount; $VITE; empty

fn MethodCancelDelegateStake.DoReceive
 def P unp(ABIQuota, A0.MethodName, A3.Data)
 def S getStakeInfo(A1, $P.StakeAddress, $P.Beneficiary, true, A3.AccountAddress, $P.Bid, A2.Height)
 def BK GetStakeBeneficialKey($P.Beneficiary)
 def BV GetValue(A1, $BK)
 def B unp(ABIQuota, "stakeBeneficial", $BV).Amount
 def REST $S.R1.Amount - $P.Amount
 def CB PackCallback(ABIQuota, A0.MethodName, list($P.StakeAddress, $P.Beneficiary, $P.Amount, $P.Bid, true)).R0
 def NEW PackVariable(ABIQuota, "stakeInfo", list($REST, $S.R1.ExpirationHeight, $S.R1.Beneficiary, true, $S.R1.DelegateAddress, $P.Bid)).R0
 ok $S.R1 != nil
 ok $S.R1.ExpirationHeight <= $NOW
 ok $S.R1.Amount >= $P.Amount
 ok $S.R1.Id == nil
 ok $S.R1.Amount == $P.Amount || $S.R1.Amount >= $P.Amount + $MIN ~ $REST >= $MIN
 ok UnpackVariable(ABIQuota, _, "stakeBeneficial", $BV) == nil
 ok $B >= $P.Amount
 case $S.R1.Amount == $P.Amount && $B == $P.Amount
  set $S.R0 = nil
  set $BK = nil
  send A3.AccountAddress; BlockTypeSendCall; $P.Amount; $VITE; $CB
 case $S.R1.Amount != $P.Amount && $B == $P.Amount
  set $S.R0 = $NEW
  set $BK = nil
  send A3.AccountAddress; BlockTypeSendCall; $P.Amount; $VITE; $CB
 case $S.R1.Amount == $P.Amount && $B != $P.Amount
  set $S.R0 = nil
  set $BK = PackVariable(ABIQuota, "stakeBeneficial", list($B - $P.Amount)).R0
  send A3.AccountAddress; BlockTypeSendCall; $P.Amount; $VITE; $CB
 case $S.R1.Amount != $P.Amount && $B != $P.Amount
  set $S.R0 = $NEW
  set $BK = PackVariable(ABIQuota, "stakeBeneficial", list($B - $P.Amount)).R0
  send A3.AccountAddress; BlockTypeSendCall; $P.Amount; $VITE; $CB

fn MethodCancelStakeV3.DoReceive
 def ID unp(ABIQuota, A0.MethodName, A3.Data)
 def K GetValue(A1, $ID)
 def S GetStakeInfoByKey(A1, $K).R0
 def BK GetStakeBeneficialKey($S.Beneficiary)
 def BV GetValue(A1, $BK)
 def B unp(ABIQuota, "stakeBeneficial", $BV).Amount
 def CB PackCallback(ABIQuota, A0.MethodName, list($ID, true)).R0
 ok len($K) != 0
 ok $S != nil
 ok GetStakeAddrFromStakeInfoKey($K) == A3.AccountAddress
 ok $S.ExpirationHeight <= $NOW
 ok UnpackVariable(ABIQuota, _, "stakeBeneficial", $BV) == nil
 ok $B >= $S.Amount
 case A0.MethodName == "CancelQuotaStakingWithCallback" && $B == $S.Amount
  set $K = nil
  set $ID = nil
  set $BK = nil
  send A3.AccountAddress; BlockTypeSendCall; $S.Amount; $VITE; $CB
 case A0.MethodName == "CancelQuotaStakingWithCallback" && $B != $S.Amount
  set $K = nil
  set $ID = nil
  set $BK = PackVariable(ABIQuota, "stakeBeneficial", list($B - $S.Amount)).R0
  send A3.AccountAddress; BlockTypeSendCall; $S.Amount; $VITE; $CB
 case A0.MethodName != "CancelQuotaStakingWithCallback" && $B == $S.Amount
  set $K = nil
  set $ID = nil
  set $BK = nil
  send A3.AccountAddress; BlockTypeSendCall; $S.Amount; $VITE; empty
 case A0.MethodName != "CancelQuotaStakingWithCallback" && $B != $S.Amount
  set $K = nil
  set $ID = nil
  set $BK = PackVariable(ABIQuota, "stakeBeneficial", list($B - $S.Amount)).R0
  send A3.AccountAddress; BlockTypeSendCall; $S.Amount; $VITE; empty
`

func runC20(c *Ctx) {
	e := contractsEng(c, "getStakeInfo", "getNextStakeInfoKey", "GetStakeBeneficialKey", "GetStakeInfoByKey", "GetStakeAddrFromStakeInfoKey")
	for _, s := range parseSpecs(stakeSpec) {
		c.specFn(e, contractsPkg, s, "stake")
	}
	runStakeHelpers(c)
}

const stakeHelperSpec = `
fn UnpackStakeInfo
 err 1
 ok UnpackVariable(ABIQuota, _, _, A0) == nil
 case len(A0) == 192
  ret 0 unp(ABIQuota, "stakeInfo", A0)
 case len(A0) != 192
  ret 0 unp(ABIQuota, "stakeInfoV2", A0)

fn GetStakeInfoByKey
 err 1
 ok GetValue(A0, A1).R1 == nil
 ok len(GetValue(A0, A1).R0) == 0 ~ len(GetValue(A0, A1).R0) <= 0 || UnpackStakeInfo(GetValue(A0, A1).R0).R1 == nil
 case len(GetValue(A0, A1).R0) <= 0
  ret 0 nil
 case len(GetValue(A0, A1).R0) > 0
  ret 0 UnpackStakeInfo(GetValue(A0, A1).R0).R0

fn GetStakeBeneficialAmount
 err 1
 def V GetValue(A0, GetStakeBeneficialKey(A1))
 ok *Address(A0) == AddressQuota
 ok $V.R1 == nil
 case len($V.R0) <= 0
  ret 0 0
 case len($V.R0) > 0
  ret 0 unp(ABIQuota, "stakeBeneficial", $V.R0).Amount

fn IsStakeInfoKey
 ret 0 len(A0) == 29
`

const stakeKeySpec = `
fn GetStakeBeneficialKey
 ret 0 bytes A0
fn GetStakeInfoKeyPrefix
 ret 0 bytes A0
fn GetStakeInfoKey
 ret 0 bytes A0; LeftPadBytes(Bytes(A1), 8)
fn GetIndexFromStakeInfoKey
 ret 0 SetBytes(A0[21:])
fn GetStakeAddrFromStakeInfoKey
 ret 0 BytesToAddress(A0[:21]).R0
`

const storageIt = "NewStorageIterator(A0, GetStakeInfoKeyPrefix(A1)).R0"

func runStakeHelpers(c *Ctx) {
	e := contractsEng(c, "GetStakeBeneficialKey", "Address", "UnpackStakeInfo")
	for _, s := range parseSpecs(stakeHelperSpec) {
		e := e
		if s.fn == "UnpackStakeInfo" {
			e = contractsEng(c)
		}
		c.specFn(e, cabiPkg, s, "stake-record")
	}
	for _, s := range parseSpecs(stakeKeySpec) {
		c.specFn(c.Opts([]string{cabiPkg}, "LeftPadBytes", "BytesToAddress"), cabiPkg, s, "stake-key")
	}
	it := contractsEng(c, "NewStorageIterator", "GetStakeInfoKeyPrefix", "IsStakeInfoKey", "UnpackStakeInfo", "GetIndexFromStakeInfoKey", "GetStakeInfoKey", "Max")
	match := []string{"Beneficiary == A2", "IsDelegated == A3", "DelegateAddress == A4", "Bid == A5"}
	const V = "UnpackStakeInfo(Value(" + storageIt + ")).R0."
	// the free slot: above every used index and not below the block height
	slot := func(p *Path, name string, cur int, t *Term) {
		ok := false
		for _, ev := range p.Evs {
			if ev.Kind != "loop" {
				continue
			}
			for _, ph := range ev.Loop.Phis {
				if !isZero(ph.Init) || len(ph.Next) != len(ev.Loop.Iters) {
					continue
				}
				good := true
				for i, st := range ev.Loop.Iters {
					q := &Path{c: c, o: Outcome{st: st, pos: ev.Pos}, F: st.facts}
					if !q.Holds("IsStakeInfoKey(Key(" + storageIt + "))") {
						good = good && q.Holds("!IsStakeInfoKey(Key("+storageIt+"))") && ph.Next[i] == ph.Iter
						continue
					}
					n := ph.Next[i]
					b := Bind{"X": ph.Iter}
					good = good && (isTB(n, "Max(X, GetIndexFromStakeInfoKey(Key("+storageIt+")))", b) || isTB(n, "Max(GetIndexFromStakeInfoKey(Key("+storageIt+")), X)", b) ||
						n == ph.Iter && holdsB(q, "GetIndexFromStakeInfoKey(Key("+storageIt+")) <= X", b) ||
						isT(n, "GetIndexFromStakeInfoKey(Key("+storageIt+"))") && holdsB(q, "GetIndexFromStakeInfoKey(Key("+storageIt+")) >= X", b))
				}
				if !good {
					continue
				}
				b := Bind{"X": ph.Iter}
				rel := p.F.possible(ph.Iter, param(cur, nil))
				if rel&(EQ|GT) == 0 && isTB(t, "GetStakeInfoKey(A1, A"+itoa(cur)+")", b) || rel&LT == 0 && isTB(t, "GetStakeInfoKey(A1, X + 1)", b) {
					ok = true
				}
			}
		}
		c.Ob(ok && p.Holds("!Next("+storageIt+")") && p.Holds("Error("+storageIt+") == nil"), "stake-slot", name, p.where(), "the key %s of a new stake is not known to be above every index in use", trunc(t.String(), 200))
	}
	if f := c.Func(contractsPkg, "getStakeInfo"); f != nil {
		for _, p := range c.all(c.Paths(it, f)) {
			if p.F.possible(p.o.res[1], kNil())&LT|p.F.possible(p.o.res[1], kNil())&GT == 0 {
				slot(p, "getStakeInfo", 6, p.o.res[0])
				for _, ev := range p.Evs {
					if ev.Kind != "loop" {
						continue
					}
					for _, st := range ev.Loop.Iters {
						q := &Path{c: c, o: Outcome{st: st, pos: ev.Pos}, F: st.facts}
						ok := q.Holds("!IsStakeInfoKey(Key(" + storageIt + "))")
						for _, m := range match {
							ok = ok || condFails(q, V+m)
						}
						c.Ob(ok, "stake-find", "getStakeInfo", q.where(), "a record that matches is passed over: %s", q.Describe())
					}
				}
				continue
			}
			ok := isT(p.o.res[0], "Key("+storageIt+")") && isT(p.o.res[1], "UnpackStakeInfo(Value("+storageIt+")).R0") && p.Holds("IsStakeInfoKey(Key("+storageIt+"))")
			for _, m := range match {
				ok = ok && p.Holds(V+m)
			}
			c.Ob(ok, "stake-find", "getStakeInfo", p.where(), "returns a record that differs from the one asked for: %s", p.Describe())
		}
	}
	if f := c.Func(contractsPkg, "getNextStakeInfoKey"); f != nil {
		for _, p := range c.all(c.Paths(it, f)) {
			slot(p, "getNextStakeInfoKey", 2, p.o.res[0])
		}
	}
	c.Floor("stake-slot", 4)
	c.Floor("stake-find", 3)
}

func holdsB(p *Path, ps string, b Bind) bool { _, ok := p.F.Find(ps, b); return ok }
