package main

import "golang.org/x/tools/go/ssa"

func init() {
	register(&Prop{
		ID:    "C21",
		Title: "Producer registration, rewards and votes follow the governance rules",
		Statement: "A block producer name can be registered only with exactly the required stake of the base coin, only in an existing group, only when the name is free or was revoked by the same owner with all rewards paid, and only with a producing address that no other name ever used. " +
			"Only the account that staked can revoke it (after the lock height), change its producing address or change who may collect rewards; revoking returns exactly the staked amount to that account once and closes the registration. " +
			"Only the staker or the reward address can collect rewards; collecting advances the paid-until time, so that no period is ever paid twice, and mints exactly the computed reward to the chosen receiver. A panic while the reward is computed is reported as an error, never as a reward of nothing. The reward of a day is the documented formula of produced blocks, expected blocks, votes and stake. " +
			"An account's vote is stored under its own address, only for active producers, replaced by a later vote and removed on cancel. Records not named by a call stay untouched.",
		Over:      []string{"inputs", "histories"},
		Quant:     "all calls of all governance-contract methods in all contract states",
		Why:       "Double rewards, stolen stake or a hijacked producer name need a specific order of register, revoke, update and withdraw calls around upgrades and day boundaries.",
		Files:     []string{"vm/contracts/contracts_governance.go", "vm/contracts/abi/abi_gonvernance.go", "vm/contracts/params.go"},
		Mech:      [][2]string{{"request checks", "Method*.DoSend, checkRegisterAndVoteParam"}, {"state transitions", "MethodRegister/Revoke/WithdrawReward/Update*/Vote/CancelVote.DoReceive"}, {"reward", "calcReward, calcRewardByDayDetail, getSnapshotGroupStakeAmount"}, {"keys and records", "GetRegistrationInfoKey, GetVoteInfoKey, GetHisNameKey, UnpackRegistration"}},
		Technique: "path-sensitive symbolic dataflow over each method: the exact acceptance condition, the exact set of storage writes, and every field of every generated send block are matched against a specification table",
		Note:      "The ABI codec and the storage layer are trusted to return what was packed and stored; the consensus reader is trusted to return the day statistics (the time arithmetic of the cycle index is its own contract).",
		Run:       runC21,
	})
}

const govSpec = `
def VITE ViteTokenId
def G ABIGovernance
def SB SnapshotBlock(GlobalStatus(A4))
def NOW $SB.Height
def NEVER 18446744073709551615

fn MethodRegister.GetFee
 ret 0 0
fn MethodRevoke.GetFee
 ret 0 0
fn MethodWithdrawReward.GetFee
 ret 0 0
fn MethodUpdateBlockProducingAddress.GetFee
 ret 0 0
fn MethodUpdateRewardWithdrawAddress.GetFee
 ret 0 0
fn MethodVote.GetFee
 ret 0 0
fn MethodCancelVote.GetFee
 ret 0 0

fn MethodRegister.GetSendQuota
 ret 0 A2.RegisterQuota
fn MethodRevoke.GetSendQuota
 ret 0 A2.RevokeQuota
fn MethodWithdrawReward.GetSendQuota
 ret 0 A2.WithdrawRewardQuota
fn MethodUpdateBlockProducingAddress.GetSendQuota
 ret 0 A2.UpdateBlockProducingAddressQuota
fn MethodUpdateRewardWithdrawAddress.GetSendQuota
 ret 0 A2.UpdateRewardWithdrawAddressQuota
fn MethodVote.GetSendQuota
 ret 0 A2.VoteQuota
fn MethodCancelVote.GetSendQuota
 ret 0 A2.CancelVoteQuota

fn MethodRegister.GetRefundData
 ret 0 empty
 ret 1 false
fn MethodRevoke.GetRefundData
 ret 0 empty
 ret 1 false
fn MethodWithdrawReward.GetRefundData
 ret 0 empty
 ret 1 false
fn MethodUpdateBlockProducingAddress.GetRefundData
 ret 0 empty
 ret 1 false
fn MethodUpdateRewardWithdrawAddress.GetRefundData
 ret 0 empty
 ret 1 false
fn MethodVote.GetRefundData
 ret 0 empty
 ret 1 false
fn MethodCancelVote.GetRefundData
 ret 0 empty
 ret 1 false

fn MethodRegister.DoSend
 def P unp($G, A0.MethodName, A2.Data)
 alt GID A0.MethodName == "RegisterSBP" ? SNAPSHOT_GID : $P.Gid
 alt D A0.MethodName == "RegisterSBP" ? list($P.SbpName, $P.BlockProducingAddress, $P.RewardWithdrawAddress) : list($P.Gid, $P.SbpName, $P.BlockProducingAddress)
 ok UnpackMethod($G, _, A0.MethodName, A2.Data) == nil
 ok checkRegisterAndVoteParam($GID, $P.SbpName)
 data PackMethod($G, A0.MethodName, $D).R0

fn MethodRevoke.DoSend
 def P unp($G, A0.MethodName, A2.Data)
 alt GID A0.MethodName == "RevokeSBP" ? SNAPSHOT_GID : $P.Gid
 alt D A0.MethodName == "RevokeSBP" ? list($P.SbpName) : list($P.Gid, $P.SbpName)
 ok A2.Amount == 0
 ok UnpackMethod($G, _, A0.MethodName, A2.Data) == nil
 ok checkRegisterAndVoteParam($GID, $P.SbpName)
 data PackMethod($G, A0.MethodName, $D).R0

fn MethodWithdrawReward.DoSend
 def P unp($G, A0.MethodName, A2.Data)
 alt GID A0.MethodName == "WithdrawSBPReward" ? SNAPSHOT_GID : $P.Gid
 alt D A0.MethodName == "WithdrawSBPReward" ? list($P.SbpName, $P.ReceiveAddress) : list($P.Gid, $P.SbpName, $P.ReceiveAddress)
 ok A2.Amount == 0
 ok UnpackMethod($G, _, A0.MethodName, A2.Data) == nil
 ok IsSnapshotGid($GID)
 data PackMethod($G, A0.MethodName, $D).R0

fn MethodUpdateBlockProducingAddress.DoSend
 def P unp($G, A0.MethodName, A2.Data)
 alt GID A0.MethodName == "UpdateSBPBlockProducingAddress" ? SNAPSHOT_GID : $P.Gid
 alt D A0.MethodName == "UpdateSBPBlockProducingAddress" ? list($P.SbpName, $P.BlockProducingAddress) : list($P.Gid, $P.SbpName, $P.BlockProducingAddress)
 ok A2.Amount == 0
 ok UnpackMethod($G, _, A0.MethodName, A2.Data) == nil
 ok checkRegisterAndVoteParam($GID, $P.SbpName)
 data PackMethod($G, A0.MethodName, $D).R0

fn MethodUpdateRewardWithdrawAddress.DoSend
 def P unp($G, A0.MethodName, A2.Data)
 ok A2.Amount == 0
 ok UnpackMethod($G, _, A0.MethodName, A2.Data) == nil
 ok checkRegisterAndVoteParam(SNAPSHOT_GID, $P.SbpName)
 data PackMethod($G, A0.MethodName, list($P.SbpName, $P.RewardWithdrawAddress)).R0

fn MethodVote.DoSend
 def P unp($G, A0.MethodName, A2.Data)
 alt GID A0.MethodName == "VoteForSBP" ? SNAPSHOT_GID : $P.Gid
 alt D A0.MethodName == "VoteForSBP" ? list($P.SbpName) : list($P.Gid, $P.SbpName)
 ok A2.Amount == 0
 ok !IsContractAddr(A2.AccountAddress) || IsStemUpgrade(LatestSnapshotBlock(A1).R0.Height)
 ok UnpackMethod($G, _, A0.MethodName, A2.Data) == nil
 ok checkRegisterAndVoteParam($GID, $P.SbpName)
 data PackMethod($G, A0.MethodName, $D).R0

fn MethodCancelVote.DoSend
 def P unp($G, A0.MethodName, A2.Data)
 alt D A0.MethodName == "CancelSBPVoting" ? nil : list($P)
 ok A2.Amount == 0
 ok !IsContractAddr(A2.AccountAddress) || IsStemUpgrade(LatestSnapshotBlock(A1).R0.Height)
 ok A0.MethodName == "CancelSBPVoting" || UnpackMethod($G, _, A0.MethodName, A2.Data) == nil
 ok A0.MethodName == "CancelSBPVoting" || !IsDelegateGid($P)
 data PackMethod($G, A0.MethodName, $D).R0

fn MethodRegister.DoReceive
 def P unp($G, A0.MethodName, A3.Data)
 alt GID A0.MethodName == "RegisterSBP" ? SNAPSHOT_GID : $P.Gid
 alt RWA A0.MethodName == "RegisterSBP" ? $P.RewardWithdrawAddress : A3.AccountAddress
 alt AMT IsLeafUpgrade(LatestSnapshotBlock(A1).R0.Height) ? 1000000000000000000000000 : 500000000000000000000000
 alt RT IsSnapshotGid($GID) ? Unix(*$SB.Timestamp) : 0
 def OLD GetRegistration(A1, $GID, $P.SbpName).R0
 def HK GetHisNameKey($P.BlockProducingAddress, $GID)
 def HV GetValue(A1, $HK)
 def GR GetConsensusGroup(A1, $GID).R0
 def EXP $NOW + GetRegisterStakeParamOfConsensusGroup($GR.RegisterConditionParam).R0.StakeHeight
 def E IsEarthUpgrade(LatestSnapshotBlock(A1).R0.Height)
 alt HIS $OLD != nil ? $OLD.HisAddrList : nil
 alt OWA $OLD != nil ? &$OLD.RewardWithdrawAddress : nil
 alt HIS2 len($HV) == 0 ? append($HIS, $P.BlockProducingAddress) : $HIS
 alt REC IsEarthUpgrade(LatestSnapshotBlock(A1).R0.Height) ? PackVariable($G, "registrationInfoV2", list($P.SbpName, $P.BlockProducingAddress, $RWA, A3.AccountAddress, A3.Amount, $EXP, $RT, 0, $HIS2)).R0 : PackVariable($G, "registrationInfo", list($P.SbpName, $P.BlockProducingAddress, A3.AccountAddress, A3.Amount, $EXP, $RT, 0, $HIS2)).R0
 ok A3.Amount == $AMT
 ok A3.TokenId == $VITE
 ok $OLD == nil || !IsActive($OLD)
 ok $OLD == nil || $OLD.StakeAddress == A3.AccountAddress
 ok $OLD == nil || checkRewardDrained(ConsensusReader(A4), A1, $OLD, $SB).R0
 ok len($HV) == 0 || UnpackVariable($G, _, "registeredHisName", $HV) == nil
 ok len($HV) == 0 || unp($G, "registeredHisName", $HV) == $P.SbpName
 ok $GR != nil
 case len($HV) == 0 && $E
  set $HK = PackVariable($G, "registeredHisName", list($P.SbpName)).R0
  set GetRegistrationInfoKey($P.SbpName, $GID) = $REC
  call saveWithdrawRewardAddress(A1, $OWA, $RWA, A3.AccountAddress, $P.SbpName)
 case len($HV) == 0 && !$E
  set $HK = PackVariable($G, "registeredHisName", list($P.SbpName)).R0
  set GetRegistrationInfoKey($P.SbpName, $GID) = $REC
 case len($HV) != 0 && $E
  set GetRegistrationInfoKey($P.SbpName, $GID) = $REC
  call saveWithdrawRewardAddress(A1, $OWA, $RWA, A3.AccountAddress, $P.SbpName)
 case len($HV) != 0 && !$E
  set GetRegistrationInfoKey($P.SbpName, $GID) = $REC

fn MethodRevoke.DoReceive
 def P unp($G, A0.MethodName, A3.Data)
 alt GID A0.MethodName == "RevokeSBP" ? SNAPSHOT_GID : $P.Gid
 def OLD GetRegistration(A1, $GID, $P.SbpName).R0
 alt RT checkRewardDrained(ConsensusReader(A4), A1, $OLD, $SB).R0 ? -1 : $OLD.RewardTime
 alt REC IsEarthUpgrade($NOW) ? PackVariable($G, "registrationInfoV2", list($OLD.Name, $OLD.BlockProducingAddress, $OLD.RewardWithdrawAddress, $OLD.StakeAddress, 0, 0, $RT, Unix(*$SB.Timestamp), $OLD.HisAddrList)).R0 : PackVariable($G, "registrationInfo", list($OLD.Name, $OLD.BlockProducingAddress, $OLD.StakeAddress, 0, 0, $RT, Unix(*$SB.Timestamp), $OLD.HisAddrList)).R0
 ok $OLD != nil
 ok IsActive($OLD)
 ok $OLD.StakeAddress == A3.AccountAddress
 ok $OLD.ExpirationHeight <= $NOW
 case $OLD.Amount > 0
  set GetRegistrationInfoKey($P.SbpName, $GID) = $REC
  send A3.AccountAddress; BlockTypeSendCall; $OLD.Amount; $VITE; empty
 case $OLD.Amount <= 0
  set GetRegistrationInfoKey($P.SbpName, $GID) = $REC

fn MethodWithdrawReward.DoReceive
 def P unp($G, A0.MethodName, A3.Data)
 alt GID A0.MethodName == "WithdrawSBPReward" ? SNAPSHOT_GID : $P.Gid
 def OLD GetRegistration(A1, $GID, $P.SbpName).R0
 def CALC CalcReward(ConsensusReader(A4), A1, $OLD, $SB)
 alt END $CALC.R3 ? -1 : $CALC.R1
 alt REC IsEarthUpgrade(LatestSnapshotBlock(A1).R0.Height) ? PackVariable($G, "registrationInfoV2", list($OLD.Name, $OLD.BlockProducingAddress, $OLD.RewardWithdrawAddress, $OLD.StakeAddress, $OLD.Amount, $OLD.ExpirationHeight, $END, $OLD.RevokeTime, $OLD.HisAddrList)).R0 : PackVariable($G, "registrationInfo", list($OLD.Name, $OLD.BlockProducingAddress, $OLD.StakeAddress, $OLD.Amount, $OLD.ExpirationHeight, $END, $OLD.RevokeTime, $OLD.HisAddrList)).R0
 alt RI IsLeafUpgrade(LatestSnapshotBlock(A1).R0.Height) ? "ReIssue" : "Issue"
 ok $OLD != nil
 ok $OLD.RewardTime != -1
 ok A3.AccountAddress == $OLD.StakeAddress || A3.AccountAddress == $OLD.RewardWithdrawAddress
 case $END == $OLD.RewardTime
 case $END != $OLD.RewardTime && $CALC.R2 == nil
  set GetRegistrationInfoKey($P.SbpName, $GID) = $REC
 case $END != $OLD.RewardTime && $CALC.R2.TotalReward <= 0
  set GetRegistrationInfoKey($P.SbpName, $GID) = $REC
 case $END != $OLD.RewardTime && $CALC.R2 != nil && $CALC.R2.TotalReward > 0
  set GetRegistrationInfoKey($P.SbpName, $GID) = $REC
  send AddressAsset; BlockTypeSendCall; 0; $VITE; PackMethod(ABIAsset, $RI, list($VITE, $CALC.R2.TotalReward, $P.ReceiveAddress)).R0

fn MethodUpdateBlockProducingAddress.DoReceive
 def P unp($G, A0.MethodName, A3.Data)
 alt GID A0.MethodName == "UpdateSBPBlockProducingAddress" ? SNAPSHOT_GID : $P.Gid
 def OLD GetRegistration(A1, $GID, $P.SbpName).R0
 def HK GetHisNameKey($P.BlockProducingAddress, $GID)
 def HV GetValue(A1, $HK)
 alt HIS len($HV) == 0 ? append($OLD.HisAddrList, $P.BlockProducingAddress) : $OLD.HisAddrList
 alt REC IsEarthUpgrade(LatestSnapshotBlock(A1).R0.Height) ? PackVariable($G, "registrationInfoV2", list($OLD.Name, $P.BlockProducingAddress, $OLD.RewardWithdrawAddress, $OLD.StakeAddress, $OLD.Amount, $OLD.ExpirationHeight, $OLD.RewardTime, $OLD.RevokeTime, $HIS)).R0 : PackVariable($G, "registrationInfo", list($OLD.Name, $P.BlockProducingAddress, $OLD.StakeAddress, $OLD.Amount, $OLD.ExpirationHeight, $OLD.RewardTime, $OLD.RevokeTime, $HIS)).R0
 ok $OLD != nil
 ok IsActive($OLD)
 ok $OLD.StakeAddress == A3.AccountAddress
 ok $OLD.BlockProducingAddress != $P.BlockProducingAddress
 ok len($HV) == 0 || UnpackVariable($G, _, "registeredHisName", $HV) == nil
 ok len($HV) == 0 || unp($G, "registeredHisName", $HV) == $P.SbpName
 case len($HV) == 0
  set $HK = PackVariable($G, "registeredHisName", list($P.SbpName)).R0
  set GetRegistrationInfoKey($P.SbpName, $GID) = $REC
 case len($HV) != 0
  set GetRegistrationInfoKey($P.SbpName, $GID) = $REC

fn MethodUpdateRewardWithdrawAddress.DoReceive
 def P unp($G, A0.MethodName, A3.Data)
 def OLD GetRegistration(A1, SNAPSHOT_GID, $P.SbpName).R0
 ok $OLD != nil
 ok IsActive($OLD)
 ok $OLD.StakeAddress == A3.AccountAddress
 ok $OLD.RewardWithdrawAddress != $P.RewardWithdrawAddress
 call saveWithdrawRewardAddress(A1, &$OLD.RewardWithdrawAddress, $P.RewardWithdrawAddress, $OLD.StakeAddress, $OLD.Name)
 set GetRegistrationInfoKey($P.SbpName, SNAPSHOT_GID) = PackVariable($G, "registrationInfoV2", list($OLD.Name, $OLD.BlockProducingAddress, $P.RewardWithdrawAddress, $OLD.StakeAddress, $OLD.Amount, $OLD.ExpirationHeight, $OLD.RewardTime, $OLD.RevokeTime, $OLD.HisAddrList)).R0

fn MethodVote.DoReceive
 def P unp($G, A0.MethodName, A3.Data)
 alt GID A0.MethodName == "VoteForSBP" ? SNAPSHOT_GID : $P.Gid
 ok GetConsensusGroup(A1, $GID).R0 != nil
 ok IsActiveRegistration(A1, $P.SbpName, $GID).R0
 set GetVoteInfoKey(A3.AccountAddress, $GID) = PackVariable($G, "voteInfo", list($P.SbpName)).R0

fn MethodCancelVote.DoReceive
 alt GID A0.MethodName == "CancelSBPVoting" ? SNAPSHOT_GID : unp($G, A0.MethodName, A3.Data)
 set GetVoteInfoKey(A3.AccountAddress, $GID) = nil
`

const govHelperSpec = `
def G ABIGovernance

fn checkRegisterAndVoteParam
 case IsDelegateGid(A0)
  ret 0 false
 case !IsDelegateGid(A0) && len(A1) == 0
  ret 0 false
 case !IsDelegateGid(A0) && len(A1) > 40
  ret 0 false
 case !MatchString("^([0-9a-zA-Z_.]+[ ]?)*[0-9a-zA-Z_.]$", A1).R0
  ret 0 false
 case !IsDelegateGid(A0) && len(A1) != 0 && len(A1) <= 40 && MatchString("^([0-9a-zA-Z_.]+[ ]?)*[0-9a-zA-Z_.]$", A1).R0
  ret 0 true

fn saveWithdrawRewardAddress
 effects
 case A1 == nil && A2 == A3
 case A1 == nil && A2 != A3
  call addWithdrawRewardAddress(A0, A2, A4)
 case A1 != nil && A2 == *A1
 case A1 != nil && A2 != *A1 && A3 == *A1
  call addWithdrawRewardAddress(A0, A2, A4)
 case A1 != nil && A2 != *A1 && A3 != *A1 && A2 == A3
  call deleteWithdrawRewardAddress(A0, *A1, A4)
 case A1 != nil && A2 != *A1 && A3 != *A1 && A2 != A3
  call deleteWithdrawRewardAddress(A0, *A1, A4)
  call addWithdrawRewardAddress(A0, A2, A4)

fn addWithdrawRewardAddress
 effects
 def V GetValue(A0, A1)
 case len($V) == 0
  set A1 = A2
 case len($V) > 0
  set A1 = $V + "," + A2

fn deleteWithdrawRewardAddress
 effects
 def V GetValue(A0, A1)
 case A2 == $V
  set A1 = nil
 case A2 != $V && HasPrefix($V, A2 + ",")
  set A1 = $V[len(A2)+1:]
 case A2 != $V && !HasPrefix($V, A2 + ",") && HasSuffix($V, "," + A2)
  set A1 = $V[:len($V)-len(A2)-1]
 case A2 != $V && !HasPrefix($V, A2 + ",") && !HasSuffix($V, "," + A2) && Index($V, "," + A2 + ",") > 0
  set A1 = $V[:Index($V, "," + A2 + ",")] + $V[Index($V, "," + A2 + ",")+len(A2)+1:]
 case A2 != $V && !HasPrefix($V, A2 + ",") && !HasSuffix($V, "," + A2) && Index($V, "," + A2 + ",") <= 0

fn RewardDrained
 case !A1
  ret 0 false
 case A1 && A0 == nil
  ret 0 true
 case A1 && A0 != nil
  ret 0 A0.TotalReward == 0

fn getRewardTimeLimit
 ret 0 Unix(*A0.Timestamp) - 3600

fn checkRewardDrained
 err 1
 def C CalcReward(A0, A1, A2, A3)
 ok $C.R4 == nil
 ret 0 RewardDrained($C.R2, $C.R3)

fn CalcReward
 skip panic
 err 4
 def C calcReward(A2, Unix(*GetGenesisSnapshotBlock(A1).Timestamp), A1, A3, A0)
 ok $C.R4 == nil
 ret 0 $C.R0
 ret 1 $C.R1
 ret 2 $C.R2
 ret 3 $C.R3

fn calcReward
 err 4
 def S GetIndexByStartTime(A4, A0.RewardTime, A1)
 def L getRewardTimeLimit(A3)
 def R GetIndexByEndTime(A4, A0.RevokeTime, A1)
 alt E !IsActive(A0) && $R.R1 <= $L ? $R : GetIndexByEndTime(A4, $L, A1)
 alt DR !IsActive(A0) && $R.R1 <= $L ? true : false
 def D GetConsensusDetailByDay(A4, $S.R0, $E.R0)
 def DAY calcRewardByDayDetail($D.R0[I], A0.Name, getSnapshotGroupStakeAmount(A2, A4, A1, $D.R0[I].Index, _).R0)
 ok $S.R2 || $E.R2 || $S.R0 > $E.R0 || $D.R1 == nil
 skip getSnapshotGroupStakeAmount(A2, A4, A1, _, _).R2 != nil
 case $S.R2
  ret 0 0
  ret 1 0
  ret 2 nil
  ret 3 true
 case !$S.R2 && $E.R2
  ret 0 $S.R1
  ret 1 $E.R1
  ret 2.TotalReward 0
  ret 2.VoteReward 0
  ret 2.BlockReward 0
  ret 3 $DR
 case !$S.R2 && $S.R0 > $E.R0
  ret 0 $S.R1
  ret 1 $E.R1
  ret 2.TotalReward 0
  ret 2.VoteReward 0
  ret 2.BlockReward 0
  ret 3 $DR
 case !$S.R2 && !$E.R2 && $S.R0 <= $E.R0
  ret 0 $S.R1
  ret 1 $E.R1
  ret 2.TotalReward sum $D.R0; $DAY.TotalReward
  ret 2.VoteReward sum $D.R0; $DAY.VoteReward
  ret 2.BlockReward sum $D.R0; $DAY.BlockReward
  ret 3 $DR

fn getSnapshotGroupStakeAmount
 err 2
 def SB LatestSnapshotBlock(A0)
 def FSB GetSnapshotBlockByHeight(A0, GetLeafUpgradePoint().Height)
 alt F A4 == 0 ? GetIndexByTime(A1, Unix(*$FSB.R0.Timestamp), A2) : A4
 ok $SB.R1 == nil
 ok !IsLeafUpgrade($SB.R0.Height) || A4 != 0 || $FSB.R1 == nil
 case !IsLeafUpgrade($SB.R0.Height)
  ret 0 500000000000000000000000
  ret 1 0
 case IsLeafUpgrade($SB.R0.Height) && A3 <= $F
  ret 0 500000000000000000000000
  ret 1 $F
 case IsLeafUpgrade($SB.R0.Height) && A3 > $F
  ret 0 1000000000000000000000000
  ret 1 $F

fn calcRewardByDayDetail
 def D mapget(A0.Stats, A1)
 def V Quo(Quo(Quo((A2 + $D.VoteCnt.Int) * A0.BlockTotal * 50 * 951293759512937595 * $D.BlockNum, A2 * len(A0.Stats) + A0.VoteSum.Int), $D.ExceptedBlockNum), 100)
 def B Quo(951293759512937595 * 50 * $D.BlockNum, 100)
 case !mapok(A0.Stats, A1)
  ret 0.TotalReward 0
  ret 0.VoteReward 0
  ret 0.BlockReward 0
  ret 0.BlockNum 0
  ret 0.ExpectedBlockNum 0
 case mapok(A0.Stats, A1) && $D.ExceptedBlockNum == 0
  ret 0.TotalReward 0
  ret 0.VoteReward 0
  ret 0.BlockReward 0
  ret 0.BlockNum 0
  ret 0.ExpectedBlockNum 0
 case mapok(A0.Stats, A1) && $D.ExceptedBlockNum != 0
  ret 0.VoteReward $V
  ret 0.BlockReward $B
  ret 0.TotalReward $V + $B
  ret 0.BlockNum $D.BlockNum
  ret 0.ExpectedBlockNum $D.ExceptedBlockNum

fn CalcRewardByIndex
 skip panic
 err 1
 def SB LatestSnapshotBlock(A0)
 def A getSnapshotGroupStakeAmount(A0, A1, Unix(*GetGenesisSnapshotBlock(A0).Timestamp), A2, 0)
 ok $SB.R1 == nil
 ok GetEndTimeByIndex(A1, A2) <= getRewardTimeLimit($SB.R0)
 ok $A.R2 == nil
 ok calcRewardByDay(A1, A2, $A.R0).R1 == nil
 ret 0 calcRewardByDay(A1, A2, $A.R0).R0

fn CalcRewardByCycle
 skip panic
 err 2
 def GT Unix(*GetGenesisSnapshotBlock(A0).Timestamp)
 def I1 GetIndexByTime(A1, A2, $GT)
 def SB LatestSnapshotBlock(A0)
 def A getSnapshotGroupStakeAmount(A0, A1, $GT, $I1, 0)
 ok A2 >= $GT
 ok $SB.R1 == nil
 ok GetEndTimeByIndex(A1, $I1) <= getRewardTimeLimit($SB.R0)
 ok $A.R2 == nil
 ok calcRewardByDay(A1, $I1, $A.R0).R1 == nil
 ret 0 calcRewardByDay(A1, $I1, $A.R0).R0
 ret 1 $I1
`

const govKeySpec = `
fn GetConsensusGroupInfoKey
 ret 0 bytes 1; A0
fn GetRegistrationInfoKey
 ret 0 bytes A1; DataHash(A0)[:20]
fn GetHisNameKey
 ret 0 bytes A0; A1
fn GetVoteInfoKey
 ret 0 bytes 0; A1; A0
fn getVoteInfoKeyPerfixByGid
 ret 0 bytes 0; A0
fn isVoteInfoKey
 ret 0 len(A0) == 32
fn isRegistrationInfoKey
 ret 0 len(A0) == 30
fn isConsensusGroupInfoKey
 ret 0 len(A0) == 11
fn getAddrFromVoteInfoKey
 ret 0 BytesToAddress(A0[11:]).R0
fn getGidFromConsensusGroupInfoKey
 ret 0 BytesToGid(A0[1:]).R0
`

const govRecordSpec = `
def G ABIGovernance
def MINE *Address(A0) == AddressGovernance

fn GetConsensusGroup
 err 1
 def V GetValue(A0, GetConsensusGroupInfoKey(A1))
 ok $MINE
 ok $V.R1 == nil
 ok len($V.R0) <= 0 ~ len($V.R0) == 0 || parseConsensusGroup($V.R0, A1).R1 == nil
 case len($V.R0) <= 0
  ret 0 nil
 case len($V.R0) > 0
  ret 0 parseConsensusGroup($V.R0, A1).R0

fn IsActiveRegistration
 err 1
 def V GetValue(A0, GetRegistrationInfoKey(A1, A2))
 ok $MINE
 ok $V.R1 == nil
 case len($V.R0) <= 0
  ret 0 false
 case len($V.R0) > 0 && UnpackRegistration($V.R0).R1 != nil
  ret 0 false
 case len($V.R0) > 0 && UnpackRegistration($V.R0).R1 == nil
  ret 0 IsActive(UnpackRegistration($V.R0).R0)

fn GetRegistration
 err 1
 def V GetValue(A0, GetRegistrationInfoKey(A2, A1))
 ok $MINE
 ok $V.R1 == nil
 ok len($V.R0) <= 0 ~ len($V.R0) == 0 || UnpackRegistration($V.R0).R1 == nil
 case len($V.R0) <= 0
  ret 0 nil
 case len($V.R0) > 0
  ret 0 UnpackRegistration($V.R0).R0

fn GetVote
 err 1
 def V GetValue(A0, GetVoteInfoKey(A2, A1))
 ok $MINE
 ok $V.R1 == nil
 case len($V.R0) <= 0
  ret 0 nil
 case len($V.R0) > 0
  ret 0.VoteAddr A2
  ret 0.SbpName unp($G, "voteInfo", $V.R0)

fn parseConsensusGroup
 err 1
 def U unp($G, "consensusGroupInfo", A0)
 ok UnpackVariable($G, _, "consensusGroupInfo", A0) == nil
 ret 0.Gid A1
 ret 0.NodeCount $U.NodeCount
 ret 0.Interval $U.Interval
 ret 0.PerCount $U.PerCount
 ret 0.RandCount $U.RandCount
 ret 0.RandRank $U.RandRank
 ret 0.Repeat $U.Repeat
 ret 0.CheckLevel $U.CheckLevel
 ret 0.CountingTokenId $U.CountingTokenId
 ret 0.RegisterConditionParam $U.RegisterConditionParam
 ret 0.ExpirationHeight $U.ExpirationHeight

fn UnpackRegistration
 def U1 unp($G, "registrationInfo", A0)
 def U2 unp($G, "registrationInfoV2", A0)
 case registerInfoValuePrefix == A0[:32] && UnpackVariable($G, _, "registrationInfo", A0) == nil
  ret 0.Name $U1.Name
  ret 0.BlockProducingAddress $U1.BlockProducingAddress
  ret 0.StakeAddress $U1.StakeAddress
  ret 0.RewardWithdrawAddress $U1.StakeAddress
  ret 0.Amount $U1.Amount
  ret 0.ExpirationHeight $U1.ExpirationHeight
  ret 0.RewardTime $U1.RewardTime
  ret 0.RevokeTime $U1.RevokeTime
  ret 0.HisAddrList $U1.HisAddrList
  ret 1 nil
 case registerInfoValuePrefix != A0[:32] && UnpackVariable($G, _, "registrationInfoV2", A0) == nil
  ret 0.Name $U2.Name
  ret 0.BlockProducingAddress $U2.BlockProducingAddress
  ret 0.StakeAddress $U2.StakeAddress
  ret 0.RewardWithdrawAddress $U2.RewardWithdrawAddress
  ret 0.Amount $U2.Amount
  ret 0.ExpirationHeight $U2.ExpirationHeight
  ret 0.RewardTime $U2.RewardTime
  ret 0.RevokeTime $U2.RevokeTime
  ret 0.HisAddrList $U2.HisAddrList
  ret 1 nil
 case registerInfoValuePrefix == A0[:32] && UnpackVariable($G, _, "registrationInfo", A0) != nil
  ret 0 nil
 case registerInfoValuePrefix != A0[:32] && UnpackVariable($G, _, "registrationInfoV2", A0) != nil
  ret 0 nil

fn getRegistrationList
 err 1
 alt PRE A1 == DELEGATE_GID ? SNAPSHOT_GID : A1
 def IT NewStorageIterator(A0, $PRE)
 def R UnpackRegistration(Value($IT.R0))
 ok $MINE
 ok $IT.R1 == nil
 ok Error($IT.R0) == nil
 ret 0 collect $IT.R0; len(Value($IT.R0)) > 0 && isRegistrationInfoKey(Key($IT.R0)) && $R.R1 == nil && !A2 || IsActive($R.R0); $R.R0

fn GetRegistrationList
 err 1
 alt PRE A1 == DELEGATE_GID ? SNAPSHOT_GID : A1
 def IT NewStorageIterator(A0, $PRE)
 def R UnpackRegistration(Value($IT.R0))
 ok $MINE
 ok $IT.R1 == nil
 ok Error($IT.R0) == nil
 ret 0 collect $IT.R0; len(Value($IT.R0)) > 0 && isRegistrationInfoKey(Key($IT.R0)) && $R.R1 == nil && $R.R0.StakeAddress == A2; $R.R0

fn GetVoteList
 err 1
 alt PRE A1 == DELEGATE_GID ? SNAPSHOT_GID : A1
 def IT NewStorageIterator(A0, getVoteInfoKeyPerfixByGid($PRE))
 ok $MINE
 ok $IT.R1 == nil
 ok Error($IT.R0) == nil
 ret 0 collect $IT.R0; len(Value($IT.R0)) > 0 && isVoteInfoKey(Key($IT.R0)) && UnpackVariable($G, _, "voteInfo", Value($IT.R0)) == nil; obj VoteAddr = getAddrFromVoteInfoKey(Key($IT.R0)); SbpName = unp($G, "voteInfo", Value($IT.R0))

fn GetAllRegistrationList
 err 1
 ok getRegistrationList(A0, A1, false).R1 == nil
 ret 0 getRegistrationList(A0, A1, false).R0

fn GetCandidateList
 err 1
 ok getRegistrationList(A0, A1, true).R1 == nil
 ret 0 getRegistrationList(A0, A1, true).R0
`

func runC21(c *Ctx) {
	e := contractsEng(c, "GetRegistration", "GetConsensusGroup", "IsActiveRegistration", "CalcReward", "checkRewardDrained", "GetHisNameKey", "GetRegistrationInfoKey", "GetVoteInfoKey",
		"GetRegisterStakeParamOfConsensusGroup", "saveWithdrawRewardAddress", "IsContractAddr", "checkRegisterAndVoteParam", "IsSnapshotGid", "IsDelegateGid", "IsActive", "IsLeafUpgrade", "IsEarthUpgrade", "IsStemUpgrade")
	for _, s := range parseSpecs(govSpec) {
		c.specFn(e, contractsPkg, s, "governance")
	}
	h := contractsEng(c, "GetRegistration", "CalcReward", "calcReward", "RewardDrained", "addWithdrawRewardAddress", "deleteWithdrawRewardAddress", "getRewardTimeLimit", "calcRewardByDayDetail", "calcRewardByDay",
		"getSnapshotGroupStakeAmount", "IsDelegateGid", "IsActive", "IsLeafUpgrade", "GetLeafUpgradePoint")
	for _, s := range parseSpecs(govHelperSpec) {
		c.specFn(h, contractsPkg, s, "governance")
	}
	c.panicErr(h, c.Func(contractsPkg, "CalcReward"), 4, "panic")
	c.panicErr(h, c.Func(contractsPkg, "CalcRewardByCycle"), 2, "panic")
	c.panicErr(h, c.Func(contractsPkg, "CalcRewardByIndex"), 1, "panic")
	ke := c.Opts([]string{cabiPkg}, "DataHash", "BytesToAddress", "BytesToGid")
	for _, s := range parseSpecs(govKeySpec) {
		c.specFn(ke, cabiPkg, s, "governance-key")
	}
	re := contractsEng(c, "Address", "parseConsensusGroup", "UnpackRegistration", "IsActive", "GetConsensusGroupInfoKey", "GetRegistrationInfoKey", "GetVoteInfoKey", "isRegistrationInfoKey", "isVoteInfoKey", "getVoteInfoKeyPerfixByGid", "getAddrFromVoteInfoKey")
	for _, s := range parseSpecs(govRecordSpec) {
		re := re
		switch s.fn {
		case "UnpackRegistration", "parseConsensusGroup":
			re = contractsEng(c)
		case "GetAllRegistrationList", "GetCandidateList":
			re = contractsEng(c, "getRegistrationList")
		}
		c.specFn(re, cabiPkg, s, "governance-record")
	}
	c.joinBytes("governance-key")
	for _, s := range parseSpecs(`
fn IsSnapshotGid
 ret 0 A0 == SNAPSHOT_GID
fn IsDelegateGid
 ret 0 A0 == DELEGATE_GID
`) {
		c.specFn(c.Opts([]string{"vm/util"}), "vm/util", s, "governance-record")
	}
	for _, s := range parseSpecs(`
fn Registration.IsActive
 ret 0 A0.RevokeTime == 0
fn ConsensusGroupInfo.IsActive
 ret 0 A0.ExpirationHeight > 0
`) {
		c.specFn(c.Opts([]string{"common/types"}), "common/types", s, "governance-record")
	}
}

// joinBytes: helper.JoinBytes concatenates its arguments in order.
func (c *Ctx) joinBytes(rule string) {
	f := c.Func("common/helper", "JoinBytes")
	if f == nil {
		return
	}
	for _, p := range c.all(c.Paths(c.Opts([]string{"common/helper"}), f)) {
		c.Ob(isBytes(p, p.o.res[0], spEach("A0", spS("A0[I]"))), rule, "JoinBytes", p.where(), "is not the concatenation of its arguments")
	}
}

// panicErr: a panic inside f is turned into an error result.
func (c *Ctx) panicErr(e *Engine, f *ssa.Function, errIdx int, rule string) {
	if f == nil {
		return
	}
	n := 0
	for _, p := range c.all(c.Paths(e, f)) {
		if !recovered(p) {
			continue
		}
		n++
		r := p.o.res[errIdx]
		c.Ob(p.F.decide(mkCmp(r, kNil(), EQ)) == 0, rule, f.Name()+" reports a panic as an error", p.where(), "after a recovered panic the error result may be nil: %v", trunc(r.String(), 160))
	}
	c.Ob(n > 0, rule, f.Name()+" recovers from a panic", c.where(f), "no recovering path")
}
