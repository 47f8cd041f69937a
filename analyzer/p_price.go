package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props = append(props, &Prop{
		ID: "C31", Title: "Every instruction, request and response costs exactly its listed quota",
		Statement: "The quota price list in force is the one of the latest upgrade at the snapshot height and holds the published prices. Every instruction of every instruction set costs its listed price: " +
			"a fixed amount, plus the price of growing the memory, of each word copied or hashed, of each log topic and byte, of each exponent byte; a storage write costs or refunds by its original, current and new value; a generated request costs what the same request of a user would, times the called contract's quota multiplier, minus the included base amount. " +
			"A request or response block costs its base price plus its data's price per byte plus the price of the snapshot confirmations it asks for, calls to a contract times that contract's multiplier, and calls of built-in methods their listed price; calling a built-in method other than issuing a token costs no fee.",
		Over:      []string{"inputs", "histories"},
		Quant:     "all instructions, stacks, memories, storage states, blocks and heights",
		Why:       "A wrong price is invisible until a node with another price rejects the block; tests compare a few instructions at one height.",
		Files:     []string{"vm/gas_table.go", "vm/util/quota.go", "vm/jump_table.go", "vm/contracts/contracts_dex_fund.go"},
		Technique: "path-sensitive symbolic summaries of every price function and evaluation of the price tables and instruction sets, compared with the price list",
		Note:      "Decides the price of each of the instructions of all instruction sets from the tables the interpreter selects, not from function names. The published prices are part of the checker.",
		Run:       runC31,
	})
}

const priceInit = `
Add=3 Mul=5 Sub=3 Div=5 SDiv=5 Mod=5 SMod=5 AddMod=8 MulMod=8 Exp=10 ExpByte=50 SignExtend=5 Lt=3 Gt=3 Slt=3 Sgt=3 Eq=3 IsZero=3 And=3 Or=3 Xor=3
Not=3 Byte=3 Shl=3 Shr=3 Sar=3 Blake2b=30 Blake2bWord=6 Address=2 Balance=400 Caller=2 CallValue=2 CallDataLoad=3 CallDataSize=2 CallDataCopy=3
MemCopyWord=3 CodeSize=2 CodeCopy=3 ReturnDataSize=2 ReturnDataCopy=3 Timestamp=2 Height=2 TokenID=2 AccountHeight=2 PreviousHash=2 FromBlockHash=2
Seed=2 Random=2 Pop=2 Mload=3 Mstore=3 Mstore8=3 Sload=200 SstoreReset=5000 SstoreInit=20000 SstoreClean=100 SstoreNoop=200 SstoreMem=200 Jump=8
Jumpi=10 Pc=2 Msize=2 Jumpdest=1 Push=3 Dup=3 Swap=3 Log=375 LogTopic=375 LogData=8 CallMinus=10000 MemQuotaDivision!=512 Snapshot=200 Code=200 Mem=3
Tx=21000 TxData=68 CreateTxRequest=21000 CreateTxResponse=53000 Register=62200 UpdateBlockProducingAddress=62200 Revoke=83200 WithdrawReward=68200
Vote=62000 CancelVote=62000 Stake=82000 CancelStake=73000 DelegateStake=82000 CancelDelegateStake=73000 Issue=104525 ReIssue=69325 Burn=48837
TransferOwnership=58981 DisableReIssue=63125 GetTokenInfo=63200`

const priceVite = `
Add=2 Mul=2 Sub=2 Div=3 SDiv=5 Mod=3 SMod=4 AddMod=4 MulMod=5 Exp=10 ExpByte=50 SignExtend=2 Lt=2 Gt=2 Slt=2 Sgt=2 Eq=2 IsZero=1 And=2 Or=2 Xor=2
Not=2 Byte=2 Shl=2 Shr=2 Sar=3 Blake2b=20 Blake2bWord=1 Address=1 Balance=150 Caller=1 CallValue=1 CallDataLoad=2 CallDataSize=1 CallDataCopy=3
MemCopyWord=3 CodeSize=1 CodeCopy=3 ReturnDataSize=1 ReturnDataCopy=3 Timestamp=1 Height=1 TokenID=1 AccountHeight=1 PreviousHash=1 FromBlockHash=1
Seed=200 Random=250 Pop=1 Mload=2 Mstore=1 Mstore8=1 Sload=150 SstoreReset=15000 SstoreInit=15000 SstoreClean=0 SstoreNoop=200 SstoreMem=200 Jump=4
Jumpi=4 Pc=1 Msize=1 Jumpdest=1 Push=1 Dup=1 Swap=2 Log=375 LogTopic=375 LogData=12 CallMinus=13500 MemQuotaDivision!=1024 Snapshot=40 Code=160 Mem=1
Tx=21000 TxData=68 CreateTxRequest=31000 CreateTxResponse=31000 Register=168000 UpdateBlockProducingAddress=168000 Revoke=126000
WithdrawReward=147000 Vote=84000 CancelVote=52500 Stake=105000 CancelStake=105000 DelegateStake=115500 CancelDelegateStake=115500 Issue=189000
ReIssue=126000 Burn=115500 TransferOwnership=136500 DisableReIssue=115500 GetTokenInfo=31500 DexFundDeposit=10500 DexFundWithdraw=10500
DexFundOpenNewMarket=31500 DexFundPlaceOrder=25200 DexFundSettleOrders=21000 DexFundTriggerPeriodJob=8400 DexFundStakeForMining=31500
DexFundStakeForVip=31500 DexFundDelegateStakeCallback=12600 DexFundCancelDelegateStakeCallback=16800 DexFundGetTokenInfoCallback=10500
DexFundAdminConfig=16800 DexFundTradeAdminConfig=10500 DexFundMarketAdminConfig=10500 DexFundTransferTokenOwnership=8400 DexFundNotifyTime=10500
DexFundCreateNewInviter=18900 DexFundBindInviteCode=8400 DexFundEndorseVx=6300 DexFundSettleMakerMinedVx=25200`

// later lists, by the upgrade that starts them: changes to the list before
var priceLists = []struct{ upgrade, change string }{
	{"", "init"},
	{"IsDexUpgrade", "vite"},
	{"IsStemUpgrade", "DexFundStakeForSuperVIP=33600 DexFundConfigMarketAgents=8400 DexFundPlaceAgentOrder=25200"},
	{"IsEarthUpgrade", "UpdateRewardWithdrawAddress=168000 DexFundLockVxForDividend=31500 DexFundSwitchConfig=31500 DexFundStakeForPrincipalSuperVIP=10500 DexFundCancelStakeById=10500 DexFundDelegateStakeCallbackV2=31500 DexFundDelegateCancelStakeCallbackV2=33000"},
	{"IsDexRobotUpgrade", "DexFundCancelOrderBySendHash=15200"},
	{"IsDexStableMarketUpgrade", "DexFundCommonAdminConfig=10500"},
	{"IsVersion10Upgrade", "Code=16 TxData=28"},
	{"IsVersion11Upgrade", "DexFundTransfer=10500"},
	{"IsVersionXUpgrade", "DexFundAgentDeposit=10500 DexFundAssignedWithdraw=10500"},
}

func priceList(i int) map[string]string {
	m := map[string]string{}
	add := func(s string) {
		for _, kv := range strings.Fields(s) {
			k, v, _ := strings.Cut(kv, "=")
			if strings.HasSuffix(k, "!") {
				k = k[:len(k)-1]
			} else {
				k += "Quota"
			}
			m[k] = v
		}
	}
	for j := 0; j <= i; j++ {
		switch s := priceLists[j].change; s {
		case "init":
			add(priceInit)
		case "vite":
			m = map[string]string{}
			add(priceVite)
		default:
			add(s)
		}
	}
	return m
}

// the price of an instruction; T the price list, M the memory growth, Bn the stack entry n
const opPrices = `
ADD: $T.AddQuota
MUL: $T.MulQuota
SUB: $T.SubQuota
DIV: $T.DivQuota
SDIV: $T.SDivQuota
MOD: $T.ModQuota
SMOD: $T.SModQuota
ADDMOD: $T.AddModQuota
MULMOD: $T.MulModQuota
SIGNEXTEND: $T.SignExtendQuota
LT: $T.LtQuota
GT: $T.GtQuota
SLT: $T.SltQuota
SGT: $T.SgtQuota
EQ: $T.EqQuota
ISZERO: $T.IsZeroQuota
AND: $T.AndQuota
OR: $T.OrQuota
XOR: $T.XorQuota
NOT: $T.NotQuota
BYTE: $T.ByteQuota
SHL: $T.ShlQuota
SHR: $T.ShrQuota
SAR: $T.SarQuota
ADDRESS: $T.AddressQuota
BALANCE: $T.BalanceQuota
CALLER: $T.CallerQuota
CALLVALUE: $T.CallValueQuota
CALLDATALOAD: $T.CallDataLoadQuota
CALLDATASIZE: $T.CallDataSizeQuota
CODESIZE: $T.CodeSizeQuota
RETURNDATASIZE: $T.ReturnDataSizeQuota
TIMESTAMP: $T.TimestampQuota
HEIGHT: $T.HeightQuota
TOKENID: $T.TokenIDQuota
ACCOUNTHEIGHT: $T.AccountHeightQuota
PREVHASH: $T.PreviousHashQuota
FROMHASH: $T.FromBlockHashQuota
SEED: $T.SeedQuota
RANDOM: $T.RandomQuota
POP: $T.PopQuota
SLOAD: $T.SloadQuota
JUMP: $T.JumpQuota
JUMPI: $T.JumpiQuota
PC: $T.PcQuota
MSIZE: $T.MsizeQuota
JUMPDEST: $T.JumpdestQuota
STOP: 0
MLOAD: $M + $T.MloadQuota
MSTORE: $M + $T.MstoreQuota
MSTORE8: $M + $T.Mstore8Quota
EXP: ((BitLen($B1) + 7) / 8) * $T.ExpByteQuota + $T.ExpQuota
BLAKE2B: $M + $T.Blake2bQuota | ToWordSize($B1) * $T.Blake2bWordQuota
SHA3: $M + $T.Blake2bQuota | ToWordSize($B1) * $T.Blake2bWordQuota
CALLDATACOPY: $M + $T.CallDataCopyQuota | ToWordSize($B2) * $T.MemCopyWordQuota
CODECOPY: $M + $T.CodeCopyQuota | ToWordSize($B2) * $T.MemCopyWordQuota
RETURNDATACOPY: $M + $T.ReturnDataCopyQuota | ToWordSize($B2) * $T.MemCopyWordQuota
`

const priceHead = `
def T A0.gasTable
def M memoryGasCost(A0, A3, A4).R0
def B0 A2.data[len(A2.data)-1]
def B1 A2.data[len(A2.data)-2]
def B2 A2.data[len(A2.data)-3]
def B3 A2.data[len(A2.data)-4]
def B4 A2.data[len(A2.data)-5]
`

const priceStore = `
fn SSTORE
 err 2
 mayfail true
 def H BigToHash($B0).R0
 def CUR GetValue(A1.db, $H)
 def ORG GetOriginalValue(A1.db, $H).R0
 def NEW Bytes($B1)
 case $CUR == $NEW
 ret 0 $T.SstoreNoopQuota
 ret 1 true
 case $CUR != $NEW && $ORG == $CUR && len($ORG) == 0
 ret 0 $T.SstoreInitQuota
 ret 1 true
 case $CUR != $NEW && $ORG == $CUR && len($ORG) != 0 && $B1 == 0
 ret 0 $T.SstoreCleanQuota
 ret 1 true
 case $CUR != $NEW && $ORG == $CUR && len($ORG) != 0 && $B1 != 0
 ret 0 $T.SstoreResetQuota
 ret 1 true
 case $CUR != $NEW && $ORG != $CUR && $ORG == $NEW && len($ORG) == 0
 ret 0 $T.SstoreInitQuota - $T.SstoreMemQuota - $T.SstoreNoopQuota
 ret 1 false
 case $CUR != $NEW && $ORG != $CUR && $ORG == $NEW && len($ORG) != 0 && len($CUR) == 0
 ret 0 $T.SstoreNoopQuota + $T.SstoreMemQuota - $T.SstoreCleanQuota
 ret 1 true
 case $CUR != $NEW && $ORG != $CUR && $ORG == $NEW && len($ORG) != 0 && len($CUR) != 0
 ret 0 $T.SstoreResetQuota - $T.SstoreMemQuota - $T.SstoreNoopQuota
 ret 1 false
 case $CUR != $NEW && $ORG != $CUR && $ORG != $NEW && len($ORG) != 0 && len($CUR) == 0 && $B1 > 0
 ret 0 $T.SstoreResetQuota + $T.SstoreMemQuota - $T.SstoreCleanQuota
 ret 1 true
 case $CUR != $NEW && $ORG != $CUR && $ORG != $NEW && len($ORG) != 0 && len($CUR) != 0 && $B1 == 0
 ret 0 $T.SstoreResetQuota - $T.SstoreMemQuota - $T.SstoreCleanQuota
 ret 1 false
 case $CUR != $NEW && $ORG != $CUR && $ORG != $NEW && len($ORG) == 0
 ret 0 $T.SstoreMemQuota
 ret 1 true
 case $CUR != $NEW && $ORG != $CUR && $ORG != $NEW && len($CUR) == 0 && $B1 <= 0
 ret 0 $T.SstoreMemQuota
 ret 1 true
 case $CUR != $NEW && $ORG != $CUR && $ORG != $NEW && len($CUR) != 0 && $B1 != 0
 ret 0 $T.SstoreMemQuota
 ret 1 true
`

const priceCall = `
 err 2
 mayfail true
 def TO BigToAddress($B0).R0
 def REQ gasRequiredForSendBlock(MakeRequestBlock(A1.block.AccountAddress, $TO, 2, $B2, BigToTokenTypeId($B1).R0, get(A3, $B3, $B4)), $T, A0.latestSnapshotHeight)
 def COST MultipleCost($REQ.R0, getQuotaMultiplierForRS(A1.db, $TO, A1.sendBlock, A0.globalStatus).R0)
 ok memoryGasCost(A0, A3, A4).R2 == nil
 ok $REQ.R1 == nil
 ok getQuotaMultiplierForRS(A1.db, $TO, A1.sendBlock, A0.globalStatus).R1 == nil
 ok $COST.R1 == nil
 case $COST.R0 > $T.CallMinusQuota
 ret 0 $M + $COST.R0 - $T.CallMinusQuota
 ret 1 true
 case $COST.R0 <= $T.CallMinusQuota
 ret 0 $M
 ret 1 true
`

const priceFns = `
fn memoryGasCost
 err 2
 def W ToWordSize(A2)
 def FEE ($W * A0.gasTable.MemQuota + ($W * $W) / A0.gasTable.MemQuotaDivision)
 ok A2 == 0 || A2 <= 1099511627744
 case A2 == 0
 ret 0 0
 ret 1 true
 post A1.lastGasCost = A1.lastGasCost
 case A2 != 0 && $W * 32 <= len(A1.store)
 ret 0 0
 ret 1 true
 post A1.lastGasCost = A1.lastGasCost
 case A2 != 0 && $W * 32 > len(A1.store)
 ret 0 $FEE - A1.lastGasCost
 ret 1 true
 post A1.lastGasCost = $FEE
fn GasRequiredForBlock
 err 1
 def REQ gasRequiredForSendBlock(A1, A2, A3)
 def MUL getQuotaMultiplierForS(A0, A1.ToAddress)
 mayfail true
 case A1.BlockType == 4
 ret 0 gasReceive(A1, nil, A2).R0
 case A1.BlockType != 4 && A1.BlockType != 2 && $REQ.R1 == nil
 ret 0 $REQ.R0
 case A1.BlockType == 2 && $REQ.R1 == nil && $MUL.R1 == nil && MultipleCost($REQ.R0, $MUL.R0).R1 == nil
 ret 0 MultipleCost($REQ.R0, $MUL.R0).R0
fn gasRequiredForSendBlock
 err 1
 mayfail true
 def GM GetBuiltinContractMethod(A0.ToAddress, A0.Data, A2)
 case A0.BlockType == 1
 ret 0 BlockGasCost(A0.Data, A1.CreateTxRequestQuota, 0, A1).R0
 case A0.BlockType == 2 && IsBuiltinContractAddrInUse(A0.ToAddress) && $GM.R1 && $GM.R2 == nil
 ret 0 GetSendQuota($GM.R0, A0.Data, A1).R0
 case A0.BlockType == 2 && !IsBuiltinContractAddrInUse(A0.ToAddress)
 ret 0 BlockGasCost(A0.Data, A1.TxQuota, 0, A1).R0
fn gasReceiveCreate
 err 1
 mayfail true
 case A1 == nil
 ret 0 BlockGasCost(nil, A2.CreateTxResponseQuota, 0, A2).R0
 case A1 != nil
 ret 0 BlockGasCost(nil, A2.CreateTxResponseQuota, A1.SendConfirmedTimes, A2).R0
fn gasReceive
 err 1
 mayfail true
 case A1 == nil
 ret 0 BlockGasCost(nil, A2.TxQuota, 0, A2).R0
 case A1 != nil
 ret 0 BlockGasCost(nil, A2.TxQuota, A1.SendConfirmedTimes, A2).R0
fn getQuotaMultiplierForS
 err 1
 def META GetContractMetaInSnapshot(A0, A1, LatestSnapshotBlock(A0).R0).R0
 ok !IsContractAddr(A1) || $META != nil
 case !IsContractAddr(A1)
 ret 0 10
 case IsContractAddr(A1)
 ret 0 $META.QuotaRatio
fn getQuotaMultiplierForRS
 err 1
 mayfail true
 def GS SnapshotBlock(A3)
 def CS GetConfirmSnapshotHeader(A0, A2.Hash).R0
 case !IsContractAddr(A1)
 ret 0 10
 case IsContractAddr(A1) && !IsNil(A3) && $GS != nil && GetContractMetaInSnapshot(A0, A1, $GS).R0 != nil
 ret 0 GetContractMetaInSnapshot(A0, A1, $GS).R0.QuotaRatio
 case IsContractAddr(A1) && IsNil(A3) || $GS == nil && $CS != nil && GetContractMetaInSnapshot(A0, A1, $CS).R0 != nil
 ret 0 GetContractMetaInSnapshot(A0, A1, $CS).R0.QuotaRatio
 case IsContractAddr(A1) && IsNil(A3) || $GS == nil && $CS == nil && GetContractMetaInSnapshot(A0, A1, LatestSnapshotBlock(A0).R0).R0 != nil
 ret 0 GetContractMetaInSnapshot(A0, A1, LatestSnapshotBlock(A0).R0).R0.QuotaRatio
`

const priceUtil = `
fn DataQuotaCost
 err 1
 mayfail true
 case len(A0) == 0
 ret 0 0
 case len(A0) != 0
 ret 0 len(A0) * A1.TxDataQuota
fn BlockGasCost
 err 1
 mayfail DataQuotaCost(A0, A3).R1 != nil
 mayfail 18446744073709551615 - A1 < DataQuotaCost(A0, A3).R0
 mayfail 18446744073709551615 - A1 - DataQuotaCost(A0, A3).R0 < A2 * A3.SnapshotQuota
 case A2 == 0
 ret 0 A1 + DataQuotaCost(A0, A3).R0
 case A2 != 0
 ret 0 A1 + DataQuotaCost(A0, A3).R0 + A2 * A3.SnapshotQuota
fn RequestQuotaCost
 err 1
 mayfail DataQuotaCost(A0, A1).R1 != nil
 case DataQuotaCost(A0, A1).R0 <= 18446744073709551615 - A1.TxQuota
 ret 0 A1.TxQuota + DataQuotaCost(A0, A1).R0
 case DataQuotaCost(A0, A1).R0 > 18446744073709551615 - A1.TxQuota
fn MultipleCost
 err 1
 ok A1 >= 10
 ok A1 == 10 || A0 <= 18446744073709551615 / A1
 case A1 == 10
 ret 0 A0
 case A1 != 10
 ret 0 A0 * A1 / 10
`

const priceMethods = `
DexFundDeposit DexFundWithdraw DexFundOpenNewMarket DexFundPlaceOrder DexFundSettleOrders DexFundTriggerPeriodJob DexFundStakeForMining
DexFundStakeForVIP=DexFundStakeForVip DexFundStakeForSVIP=DexFundStakeForSuperVIP DexFundStakeForPrincipalSVIP=DexFundStakeForPrincipalSuperVIP
DexFundCancelStakeById DexFundDelegateStakeCallback DexFundCancelDelegateStakeCallback DexFundDelegateStakeCallbackV2
DexFundCancelDelegateStakeCallbackV2=DexFundDelegateCancelStakeCallbackV2 DexFundGetTokenInfoCallback DexFundDexAdminConfig=DexFundAdminConfig
DexFundTradeAdminConfig DexFundMarketAdminConfig DexFundTransferTokenOwnership DexFundNotifyTime DexFundCreateNewInviter DexFundBindInviteCode
DexFundEndorseVx DexFundSettleMakerMinedVx DexFundConfigMarketAgents DexFundPlaceAgentOrder DexFundLockVxForDividend DexFundSwitchConfig
DexCancelOrderBySendHash=DexFundCancelOrderBySendHash DexCommonAdminConfig=DexFundCommonAdminConfig DexTransfer=DexFundTransfer
DexAgentDeposit=DexFundAgentDeposit DexAssignedWithdraw=DexFundAssignedWithdraw
DexTradePlaceOrder=0 DexTradeCancelOrder=0 DexTradeSyncNewMarket=0 DexTradeClearExpiredOrders=0 DexTradeCancelOrderByTransactionHash=0 DexTradeInnerCancelOrderBySendHash=0
Issue=0 ReIssue=0 Burn=0 TransferOwnership=0 DisableReIssue=0 GetTokenInfo=0 Register=0 Revoke=0 WithdrawReward=0 UpdateBlockProducingAddress=0
UpdateRewardWithdrawAddress=0 Vote=0 CancelVote=0 Stake=0 CancelStake=0 DelegateStake=0 CancelDelegateStake=0 StakeV3=0 CancelStakeV3=0
`

func runC31(c *Ctx) {
	c31Lists(c)
	c31Ops(c)
	e := func() *Engine {
		return c.Opts([]string{vmPkg, "vm/util", "common/helper"}, "ToWordSize", "BlockGasCost", "DataQuotaCost", "MultipleCost", "memory.len", "GetBuiltinContractMethod", "GetSendQuota",
			"IsBuiltinContractAddrInUse", "IsContractAddr", "IsNil", "DealWithErr", "gasReceive", "gasRequiredForSendBlock", "getQuotaMultiplierForS")
	}
	for _, s := range parseSpecs(priceFns) {
		if s.fn == "memoryGasCost" {
			c.specFn(c.Opts([]string{vmPkg, "common/helper"}, "ToWordSize"), vmPkg, s, "price")
			continue
		}
		c.specFn(e(), vmPkg, s, "price")
	}
	for _, s := range parseSpecs(priceUtil) {
		c.specFn(c.Opts([]string{"vm/util", "common/helper"}, "DataQuotaCost"), "vm/util", s, "price")
	}
	for _, s := range parseSpecs("fn ToWordSize\n case A0 <= 18446744073709551584\n ret 0 (A0 + 31) / 32\n case A0 > 18446744073709551584\n ret 0 576460752303423488") {
		c.specFn(c.Opts([]string{"common/helper"}), "common/helper", s, "price")
	}
	var sb strings.Builder
	for _, m := range strings.Fields(priceMethods) {
		k, v, ok := strings.Cut(m, "=")
		if !ok {
			v = k
		}
		if v != "0" {
			v = "A1." + v + "Quota"
		}
		fmt.Fprintf(&sb, "fn Method%s.GetReceiveQuota\n ret 0 %s\n", k, v)
		if !strings.HasSuffix(k, "Issue") || k == "ReIssue" || k == "DisableReIssue" {
			fmt.Fprintf(&sb, "fn Method%s.GetFee\n err 1\n ret 0 0\n", k)
		}
		if strings.HasPrefix(k, "Dex") {
			fmt.Fprintf(&sb, "fn Method%s.GetSendQuota\n err 1\n mayfail true\n ret 0 RequestQuotaCost(A1, A2).R0\n", k)
		}
	}
	for _, s := range parseSpecs(sb.String()) {
		c.specFn(c.Opts([]string{"vm/contracts"}, "RequestQuotaCost"), "vm/contracts", s, "method-price")
	}
	c.Floor("method-price", 90)
	c.Floor("instruction-price", 300)
}

// c31Lists: the list selected at each height and its values.
func c31Lists(c *Ctx) {
	f := c.Func("vm/util", "QuotaTableByHeight")
	if f == nil {
		return
	}
	seen := map[int]bool{}
	for _, p := range c.all(c.Paths(c.Opts([]string{"vm/util"}), f)) {
		want := 0
		for i := len(priceLists) - 1; i > 0; i-- {
			q := priceLists[i].upgrade + "(A0)"
			if condFails(p, q) {
				continue
			}
			if c.Ob(condHolds(p, q), "price-list", "QuotaTableByHeight", p.where(), "the list returned does not depend on %s", q) {
				want = i
			}
			break
		}
		seen[want] = true
		r := stripConv(p.o.res[0])
		name := strings.TrimPrefix(r.String(), "&")
		name = name[strings.LastIndexByte(name, '.')+1:]
		vals, why := priceValues(c, name)
		if !c.Ob(vals != nil, "price-list", "QuotaTableByHeight", p.where(), "the price list %v cannot be evaluated: %s", r, why) {
			continue
		}
		exp := priceList(want)
		for k, v := range exp {
			g := vals[k]
			if g == "" {
				g = "0"
			}
			c.Ob(g == v, "listed-price", name+"."+k, p.where(), "%s costs %s in the list in force from %s; the published price is %s", k, g, priceLists[want].upgrade, v)
		}
		for k, v := range vals {
			c.Ob(exp[k] != "" || v == "0", "listed-price", name+"."+k, p.where(), "%s has the price %s in the list in force from %s, where it has none", k, v, priceLists[want].upgrade)
		}
	}
	c.Ob(len(seen) == len(priceLists), "price-list", "QuotaTableByHeight", c.where(f), "%d of %d price lists can be returned", len(seen), len(priceLists))
}

// priceValues: the constant fields of a price list variable.
func priceValues(c *Ctx, name string) (map[string]string, string) {
	x, pk := c.globalExpr("vm/util", name)
	if x == nil {
		return nil, "no variable " + name
	}
	for {
		if u, ok := x.(*ast.UnaryExpr); ok {
			x = u.X
			continue
		}
		if u, ok := x.(*ast.ParenExpr); ok {
			x = u.X
			continue
		}
		break
	}
	m := map[string]string{}
	if cl, ok := x.(*ast.CompositeLit); ok {
		for _, el := range cl.Elts {
			kv, ok := el.(*ast.KeyValueExpr)
			if !ok {
				return nil, "positional fields"
			}
			v := pk.TypesInfo.Types[kv.Value].Value
			if v == nil || v.Kind() != constant.Int {
				return nil, "a price that is not constant"
			}
			m[kv.Key.(*ast.Ident).Name] = v.ExactString()
		}
		return m, ""
	}
	iv, _ := c.globalInit("vm/util", name)
	call, ok := iv.(*ssa.Call)
	if !ok || call.Call.StaticCallee() == nil {
		return nil, "an initial value that is not understood"
	}
	outs := c.Paths(c.Opts([]string{"vm/util"}), call.Call.StaticCallee())
	if len(outs) != 1 || len(outs[0].res) != 1 {
		return nil, "more than one initial value"
	}
	for t := stripConv(outs[0].res[0]); ; t = t.Args[0] {
		if t.Op != "upd" {
			if t.Op != "zero" {
				return nil, "an unresolved list: " + trunc(t.String(), 100)
			}
			return m, ""
		}
		if _, old := m[t.Sym]; !old {
			m[t.Sym] = stripConv(t.Args[1]).String()
		}
	}
}

// c31Ops: the price of every instruction of every set.
func c31Ops(c *Ctx) {
	text := map[string]string{}
	for _, l := range strings.Split(strings.TrimSpace(opPrices), "\n") {
		k, v, _ := strings.Cut(l, ": ")
		if base, prod, two := strings.Cut(v, " | "); two {
			w, q, _ := strings.Cut(prod, " * ")
			text[k] = fmt.Sprintf(" err 2\n mayfail true\n case %s == 0 || %s == 0\n ret 0 %s\n ret 1 true\n case %s != 0 && %s != 0\n ret 0 %s + %s\n ret 1 true\n", w, q, base, w, q, base, prod)
		} else {
			text[k] = " err 2\n mayfail true\n ret 0 " + v + "\n ret 1 true\n"
		}
	}
	for i := 1; i <= 32; i++ {
		text[fmt.Sprintf("PUSH%d", i)] = " err 2\n ret 0 $T.PushQuota\n ret 1 true\n"
		if i <= 16 {
			text[fmt.Sprintf("DUP%d", i)] = " err 2\n ret 0 $T.DupQuota\n ret 1 true\n"
			text[fmt.Sprintf("SWAP%d", i)] = " err 2\n ret 0 $T.SwapQuota\n ret 1 true\n"
		}
	}
	for i := 0; i <= 4; i++ {
		b := []string{"$M + $T.LogQuota", "$M + $T.LogQuota + $T.LogTopicQuota"}[min(i, 1)]
		if i > 1 {
			b = fmt.Sprintf("$M + $T.LogQuota + %d * $T.LogTopicQuota", i)
		}
		w, q := "$B1", "$T.LogDataQuota"
		text[fmt.Sprintf("LOG%d", i)] = fmt.Sprintf(" err 2\n mayfail true\n case %s == 0 || %s == 0\n ret 0 %s\n ret 1 true\n case %s != 0 && %s != 0\n ret 0 %s + %s * %s\n ret 1 true\n", w, q, b, w, q, b, w, q)
	}
	text["RETURN"] = " err 2\n mayfail true\n ret 0 $M\n" // memoryGasCost itself always charges
	text["REVERT"] = text["RETURN"]
	text["CALL"] = priceCall
	text["CALL2"] = priceCall
	memo := map[string]bool{}
	for _, op := range vmTables(c) {
		tx, ok := text[op.name]
		if op.name == "SSTORE" {
			ok, tx = true, priceStore[strings.Index(priceStore, " err"):]
		}
		if !c.Ob(ok, "instruction-price", op.String(), "", "an instruction without a listed price") {
			continue
		}
		key := op.name + op.gas.String()
		if memo[key] {
			c.Ob(true, "instruction-price", op.String(), "", "")
			continue
		}
		memo[key] = true
		e := c.Opts([]string{vmPkg, "common/helper"}, "memoryGasCost", "ToWordSize", "GetValue", "GetOriginalValue", "BigToHash", "BigToAddress", "BigToTokenTypeId", "DealWithErr", "memory.get",
			"gasRequiredForSendBlock", "getQuotaMultiplierForRS", "MultipleCost", "MakeRequestBlock", "IsEarthUpgrade")
		outs, err := e.callTerm(op.st, op.gas)
		if !c.Ob(err == nil, "instruction-price", op.String(), "", "undecided: %v", err) {
			continue
		}
		c.paths += len(outs)
		for g := range e.inlined {
			c.fns[g] = true
		}
		for _, s := range parseSpecs(priceHead + "fn " + op.String() + "\n" + tx) {
			c.specOuts(funcByTerm[op.gas], outs, s, "instruction-price")
		}
	}
}
