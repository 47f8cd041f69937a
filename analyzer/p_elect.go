package main

import (
	"go/constant"
	"go/token"
)

func init() {
	register(&Prop{
		ID:    "C23",
		Title: "Producer elections are the same documented function of the ledger on every node",
		Statement: "The block producers of a round, and their time slots, are a function of the ledger alone. Candidates are the registered producers of the group at the proof block, each weighted by the sum of the confirmed balances (in the group's counting token, at the proof block) of exactly the accounts that vote for its name; they are ranked by weight, then name. " +
			"The first NodeCount candidates are the top group, those up to rank RandRank the reserve. Up to two top producers with a known success rate below 80% change places with reserve producers above 80%, worst with best; then a third at most (and at most RandCount) of the seats are drawn at random from the reserve with the seed made of the published seeds (or the weights), the proof block's height and the group id; the order of the producers is shuffled with the same seed. " +
			"The proof block of round i of the snapshot group is the last block before the end of round i-2, that of a contract group the last block 75 seconds before the round. A producer's slots follow each other without gap in rounds of Interval x NodeCount x PerCount x Repeat seconds counted from genesis. " +
			"A snapshot block is accepted only from a producer elected for the slot that starts exactly at the block's timestamp; a contract's receive block only from a producer elected for the contract's group in the round of the latest snapshot block.",
		Over:      []string{"inputs", "histories"},
		Quant:     "all candidate sets, votes, balances, success rates, seeds and times",
		Why:       "Nodes that elect differently fork; the difference may only appear for ties, few candidates, low success rates or at round borders, and needs several nodes to be seen at all.",
		Files:     []string{"ledger/consensus/core/vote_algo.go", "ledger/consensus/core/consensus.go", "ledger/consensus/core/state_reader.go", "ledger/consensus/core/group.go", "ledger/consensus/core/time_index.go", "ledger/consensus/consensus_snapshot.go", "ledger/consensus/consensus_contract_dpos.go", "ledger/consensus/chain_rw.go", "ledger/consensus/result.go"},
		Mech:      [][2]string{{"election algorithm", "ledger/consensus/core/vote_algo.go algo"}, {"vote weights", "ledger/consensus/core/state_reader.go CalVotes"}, {"slots", "ledger/consensus/core/group.go GroupInfo.GenPlanByAddress"}, {"producer check", "ledger/consensus/consensus_snapshot.go snapshotCs.verifyProducer"}},
		Technique: "functional specification of every election step decided by path-sensitive dataflow (lists built in loops and sums are put in closed form; sorts and random draws are tracked as effects with their exact arguments)",
		Note:      "sort.Sort and math/rand are trusted, as is the chain interface the votes are read through. Integer overflow of rates and seeds is not modelled.",
		Run:       runC23,
	})
}

const coreAlgoSpec = `
def NC A0.info.ConsensusGroupInfo.NodeCount
def RR A0.info.ConsensusGroupInfo.RandRank
fn ByBalance.Less
 case A0[A1].Balance == A0[A2].Balance
  ret 0 A0[A1].Name < A0[A2].Name
 case A0[A1].Balance != A0[A2].Balance
  ret 0 A0[A1].Balance > A0[A2].Balance

fn BySuccessRate.Less
 case A0[A1].Rate != A0[A2].Rate
  ret 0 A0[A1].Rate > A0[A2].Rate
 case A0[A1].Rate == A0[A2].Rate && A0[A1].Vote.Balance == A0[A2].Vote.Balance
  ret 0 A0[A1].Vote.Name < A0[A2].Vote.Name
 case A0[A1].Rate == A0[A2].Rate && A0[A1].Vote.Balance != A0[A2].Vote.Balance
  ret 0 A0[A1].Vote.Balance > A0[A2].Vote.Balance

fn algo.findSeed
 case A3.seeds == 0
  ret 0 A2 + A0.info.seed + SUM(A1, I, A1[I].Balance)
 case A3.seeds != 0
  ret 0 A2 + A0.info.seed + A3.seeds

fn algo.ShuffleVotes
 def P Perm(New(NewSource(findSeed(A0, A1, A2.Height, A3))), len(A1))
 ret 0 list times len(A1) : A1[$P[I]]

fn algo.FilterSimple
 watch Sort
 case len(A1) <= $NC
  ret 0 A1
  ret 1 empty
 case len(A1) > $NC && len(A1) <= $RR
  call Sort(as(ByBalance, A1))
  ret 0 A1[0:$NC]
  ret 1 A1[$NC:]
 case len(A1) > $NC && len(A1) > $RR
  call Sort(as(ByBalance, A1))
  ret 0 A1[0:$NC]
  ret 1 A1[$NC:$RR]

fn algo.calRandCnt
 case A1 / 3 > A2
  ret 0 A2
 case A1 / 3 <= A2
  ret 0 A1 / 3

fn algo.FilterVotes
 watch Sort
 def S FilterSimple(A0, A1.votes)
 def F filterRandV2(A0, $S.R0, $S.R1, A1.hashH, A1.seeds, A1.successRate)
 def SR filterBySuccessRate(A0, $S.R0, $S.R1, A1.hashH, A1.successRate)
 def G filterRandV2(A0, $SR.R0, $SR.R1, A1.hashH, A1.seeds, A1.successRate)
 touch &A1.sbps
 case len($S.R1) == 0
  call Sort(as(ByBalance, $S.R0))
  ret 0 $S.R0
 case len($S.R1) != 0 && A1.successRate == nil
  call Sort(as(ByBalance, $F))
  ret 0 $F
 case len($S.R1) != 0 && A1.successRate != nil
  call Sort(as(ByBalance, $G))
  ret 0 $G

fn algo.filterRandV2
 watch Sort
 touch &A2[_].Type
 def SEED findSeed(A0, mergeGroup(A1, A2), A3.Height, A4)
 def RC calRandCnt(A0, $NC, A0.info.ConsensusGroupInfo.RandCount)
 def P1 Perm(New(NewSource($SEED)), $NC)
 def P2 Perm(New(NewSource($SEED + 1)), len(A1) + len(A2) - $NC)
 def P3 Perm(New(NewSource($SEED)), len(A1) + len(A2))
 case len(A2) == 0
  ret 0 A1
 case len(A2) != 0 && ($NC - $RC) * (len(A1) + len(A2) - $NC) > $RC * $NC
  call Sort(as(ByBalance, A1))
  call Sort(as(ByBalance, A2))
  ret 0 list times $NC - $RC : A1[$P1[I]] ;; times $RC : A2[$P2[I]]
 case len(A2) != 0 && ($NC - $RC) * (len(A1) + len(A2) - $NC) <= $RC * $NC
  call Sort(as(ByBalance, A1))
  call Sort(as(ByBalance, A2))
  ret 0 list times $NC : $P3[I] >= $NC ? A2[$P3[I] - $NC] | $P3[I] < $NC ? A1[$P3[I]]

fn mergeGroup
 ret 0 list each A0 : A0[I] ;; each A1 : A1[I]

fn NewVoteAlgoContext
 case A2 != nil
  ret 0.votes A0
  ret 0.hashH A1
  ret 0.seeds A3
  ret 0.successRate A2
 case A2 == nil
  ret 0.votes A0
  ret 0.hashH A1
  ret 0.seeds A3

fn ConvertVoteToAddress
 ret 0 list each A0 : A0[I].Addr

fn CalVotes
 err 1
 def R GetRegisterList(A2, A1, A0.Gid)
 def V GetVoteList(A2, A1, A0.Gid)
 ok $R.R1 == nil
 ok $V.R1 == nil
 skip voteCompleting(___) != nil
 watch voteCompleting
 call each $R.R0 : voteCompleting(A1, NEW, $V.R0, A0.CountingTokenId, A2)
 ret 0 list each $R.R0 : obj Name = $R.R0[I].Name; Addr = $R.R0[I].BlockProducingAddress; Balance = 0

fn voteCompleting
 err 0
 def L list each A2 : A2[I].SbpName == A1.Name ? A2[I].VoteAddr
 def B GetConfirmedBalanceList(A4, _, A3, A0)
 ok len(_) <= 0 || $B.R1 == nil
 watch GetConfirmedBalanceList
 case len(ITER) <= 0
  post A1.Balance = A1.Balance
 case len(ITER) > 0
  call GetConfirmedBalanceList(A4, X, A3, A0) where X $L
  post A1.Balance = A1.Balance + SUM($B.R0, Z, rval($B.R0))

fn timeIndex.Index2Time
 ret 0 A0.GenesisTime + A0.Interval * A1
 ret 1 A0.GenesisTime + A0.Interval * (A1 + 1)
fn timeIndex.Time2Index
 ret 0 Seconds(Sub(A1, A0.GenesisTime)) / Seconds(A0.Interval)
fn planInterval
 ret 0 A0.ConsensusGroupInfo.Interval * A0.ConsensusGroupInfo.NodeCount * A0.ConsensusGroupInfo.PerCount * A0.ConsensusGroupInfo.Repeat
fn NewGroupInfo
 def PI A1.Interval * A1.NodeCount * A1.PerCount * A1.Repeat
 ret 0.ConsensusGroupInfo A1
 ret 0.GenesisTime A0
 ret 0.seed SetBytes(A1.Gid)
 ret 0.PlanInterval $PI
 ret 0.TimeIndex obj GenesisTime = A0; Interval = 1000000000 * int64($PI)
fn NewAlgo
 ret 0.info A0
fn NewSeedInfo
 ret 0.seeds A0
`

const electSpec = `
def G A0.GroupInfo
def T A0.GroupInfo.TimeIndex
fn snapshotCs.genSnapshotProofTimeIndx
 case A1 < 2
  ret 0 $G.GenesisTime + 1000000000
  ret 1 0
 case A1 >= 2
  ret 0 Index2Time($T, A1 - 2).R1
  ret 1 A1 - 2
fn snapshotCs.GenProofTime
 ret 0 genSnapshotProofTimeIndx(A0, A1).R0
fn contractDposCs.GenProofTime
 case Index2Time($T, A1).R0 - 75000000000 < $G.GenesisTime
  ret 0 $G.GenesisTime + 1000000000
 case Index2Time($T, A1).R0 - 75000000000 >= $G.GenesisTime
  ret 0 Index2Time($T, A1).R0 - 75000000000

fn chainRw.GetSnapshotBeforeTime
 err 1
 def B GetSnapshotHeaderBeforeTime(A0.rw, _)
 ok $B.R1 == nil
 ok $B.R0 != nil
 watch GetSnapshotHeaderBeforeTime
 call GetSnapshotHeaderBeforeTime(A0.rw, X) where X A1
 ret 0 $B.R0
fn chainRw.GetSeedsBeforeHashH
 ret 0 GetRandomSeed(A0.rw, A1, 25)
fn chainRw.CalVotes
 def V CalVotes(A1.ConsensusGroupInfo, A2.Hash, A0.rw)
 ret 0 $V.R0
 ret 1 $V.R1

fn snapshotCs.ElectionTime
 def E ElectionIndex(A0, Time2Index($T, A1))
 ret 0 $E.R0
 ret 1 $E.R1
fn snapshotCs.ElectionIndex
 err 1
 def P GetSnapshotBeforeTime(A0.rw, genSnapshotProofTimeIndx(A0, A1).R0)
 def V calVotes(A0, $P.R0, A1)
 ok $P.R1 == nil
 ok $V.R1 == nil
 ret 0 genElectionResult(&$G, A1, $V.R0)
fn snapshotCs.calVotes
 err 1
 def C getSnapshotVoteCache(A0.rw, A1.Hash)
 def V CalVotes(A0.rw, &$G, _)
 def S NewSeedInfo(GetSeedsBeforeHashH(A0.rw, A1.Hash))
 def PI genSnapshotProofTimeIndx(A0, Time2Index($T, *A1.Timestamp)).R1
 def SR GetSuccessRateByHour(A0.rw, $PI)
 def HH obj Hash = A1.Hash; Height = A1.Height
 def N1 ConvertVoteToAddress(ShuffleVotes(A0.algo, FilterVotes(A0.algo, NewVoteAlgoContext($V.R0, X, $SR.R0, $S)), Y, $S))
 def N0 ConvertVoteToAddress(ShuffleVotes(A0.algo, FilterVotes(A0.algo, NewVoteAlgoContext($V.R0, X, nil, $S)), Y, $S))
 ok $C.R1 || $V.R1 == nil
 ok $C.R1 || $PI <= 0 || $SR.R1 == nil
 watch updateSnapshotVoteCache CalVotes
 case $C.R1
  ret 0 $C.R0
 case !$C.R1 && $PI > 0
  call CalVotes(A0.rw, &$G, Z) where Z $HH
  call updateSnapshotVoteCache(A0.rw, A1.Hash, $N1)
  ret 0 $N1 where X $HH where Y $HH
 case !$C.R1 && $PI <= 0
  call CalVotes(A0.rw, &$G, Z) where Z $HH
  call updateSnapshotVoteCache(A0.rw, A1.Hash, $N0)
  ret 0 $N0 where X $HH where Y $HH
fn snapshotCs.loadVotes
 err 1
 def SG SNAPSHOT_GID
 def C getVoteLRUCache(A0.rw, $SG, A1.Hash)
 def V CalVotes(A0.rw, &$G, _)
 def S NewSeedInfo(GetSeedsBeforeHashH(A0.rw, A1.Hash))
 def PI genSnapshotProofTimeIndx(A0, Time2Index($T, *A1.Timestamp)).R1
 def SR GetSuccessRateByHour(A0.rw, $PI)
 def HH obj Hash = A1.Hash; Height = A1.Height
 def N1 ConvertVoteToAddress(ShuffleVotes(A0.algo, FilterVotes(A0.algo, NewVoteAlgoContext($V.R0, X, $SR.R0, $S)), Y, $S))
 def N0 ConvertVoteToAddress(ShuffleVotes(A0.algo, FilterVotes(A0.algo, NewVoteAlgoContext($V.R0, X, nil, $S)), Y, $S))
 ok $C.R1 || $V.R1 == nil
 ok $C.R1 || $PI <= 0 || $SR.R1 == nil
 watch updateVoteLRUCache CalVotes
 case $C.R1
  ret 0 $C.R0
 case !$C.R1 && $PI > 0
  call CalVotes(A0.rw, &$G, Z) where Z $HH
  call updateVoteLRUCache(A0.rw, $SG, A1.Hash, $N1)
  ret 0 $N1 where X $HH where Y $HH
 case !$C.R1 && $PI <= 0
  call CalVotes(A0.rw, &$G, Z) where Z $HH
  call updateVoteLRUCache(A0.rw, $SG, A1.Hash, $N0)
  ret 0 $N0 where X $HH where Y $HH
fn contractDposCs.calVotes
 err 1
 def C getVoteLRUCache(A0.rw, $G.ConsensusGroupInfo.Gid, A1.Hash)
 def V CalVotes(A0.rw, &$G, _)
 def S NewSeedInfo(GetSeedsBeforeHashH(A0.rw, A1.Hash))
 def HH obj Hash = A1.Hash; Height = A1.Height
 def N0 ConvertVoteToAddress(ShuffleVotes(A0.algo, FilterVotes(A0.algo, NewVoteAlgoContext($V.R0, X, nil, $S)), Y, $S))
 ok $C.R1 || $V.R1 == nil
 watch updateVoteLRUCache CalVotes
 case $C.R1
  ret 0 $C.R0
 case !$C.R1
  call CalVotes(A0.rw, &$G, Z) where Z $HH
  call updateVoteLRUCache(A0.rw, $G.ConsensusGroupInfo.Gid, A1.Hash, $N0)
  ret 0 $N0 where X $HH where Y $HH
fn contractDposCs.electionTime
 def E ElectionIndex(A0, Time2Index($T, A1))
 ret 0 $E.R0
 ret 1 $E.R1
fn contractDposCs.ElectionIndex
 err 1
 def V electionAddrsIndex(A0, A1)
 ok $V.R2 == nil
 ret 0 genElectionResult(&$G, A1, $V.R0)
fn contractDposCs.electionAddrsIndex
 err 2
 def P GetSnapshotBeforeTime(A0.rw, GenProofTime(A0, A1))
 def V calVotes(A0, $P.R0)
 ok $P.R1 == nil
 ok $V.R1 == nil
 ret 0 $V.R0
 ret 1 $P.R0
fn genElectionResult
 ret 0.STime Index2Time(A0.TimeIndex, A1).R0
 ret 0.ETime Index2Time(A0.TimeIndex, A1).R1
 ret 0.Plans GenPlanByAddress(*A0, A1, A2)
 ret 0.Index A1

fn snapshotCs.verifyProducer
 case A3 == nil
  ret 0 false
 case A3 != nil
  ret 0 any A3.Plans : A3.Plans[I].Member == A2 && A3.Plans[I].STime == A1
fn contractDposCs.verifyProducer
 case A2 == nil
  ret 0 false
 case A2 != nil
  ret 0 any A2.Plans : A2.Plans[I].Member == A1 && $G.ConsensusGroupInfo.CheckLevel == 1
fn snapshotCs.VerifySnapshotProducer
 err 1
 def E ElectionTime(A0, *A1.Timestamp)
 ok $E.R1 == nil
 ret 0 verifyProducer(A0, *A1.Timestamp, Producer(A1), $E.R0)
fn snapshotCs.VerifyProducer
 err 1
 def E ElectionTime(A0, A2)
 ok $E.R1 == nil
 ret 0 verifyProducer(A0, A2, A1, $E.R0)
fn contractDposCs.VerifyProducer
 err 1
 def E electionTime(A0, A2)
 ok $E.R1 == nil
 ret 0 verifyProducer(A0, A1, $E.R0)
fn contractDposCs.VerifyAccountProducerLevel1
 err 1
 def E electionAddrsIndex(A0, Time2Index($T, *GetLatestSnapshotBlock(A0.rw.rw).Timestamp))
 ok $E.R2 == nil
 ret 0 any $E.R0 : $E.R0[I] == Producer(A1)
fn contractDposCs.VerifyAccountProducer
 def V VerifyAccountProducerLevel1(A0, A1)
 def E electionTime(A0, *GetLatestSnapshotBlock(A0.rw.rw).Timestamp)
 case $G.ConsensusGroupInfo.CheckLevel == 1
  ret 0 $V.R0
  ret 1 $V.R1
 case $G.ConsensusGroupInfo.CheckLevel != 1 && $E.R1 == nil
  ret 0 verifyProducer(A0, Producer(A1), $E.R0)
  ret 1 nil
 case $G.ConsensusGroupInfo.CheckLevel != 1 && $E.R1 != nil
  ret 0 false
  ret 1 $E.R1
fn contractDposCs.verifyAccountsProducer
 err 1
 def E electionAddrsIndex(A0, Time2Index($T, *GetLatestSnapshotBlock(A0.rw.rw).Timestamp))
 ok $E.R2 == nil
 ret 0 list each A1 : !mapget(X, Producer(A1[I])) ? A1[I] given X map each $E.R0 : $E.R0[I] => true
`

const csCorePkg = "ledger/consensus/core"

func runC23(c *Ctx) {
	e := c.Opts([]string{csCorePkg, "common/types"}, "algo.findSeed", "algo.FilterSimple", "algo.calRandCnt", "algo.filterRandV2", "algo.filterBySuccessRate", "mergeGroup", "voteCompleting")
	for _, s := range parseSpecs(coreAlgoSpec) {
		c.specFn(e, csCorePkg, s, "election")
	}
	for _, s := range parseSpecs(succRateSpec) {
		c.specFn(e, csCorePkg, s, "election")
	}
	c.electCustom(e)
	e = c.Opts([]string{"ledger/consensus"}, "snapshotCs.genSnapshotProofTimeIndx", "contractDposCs.GenProofTime", "snapshotCs.ElectionTime", "snapshotCs.ElectionIndex", "snapshotCs.calVotes", "contractDposCs.electionTime", "contractDposCs.ElectionIndex", "contractDposCs.electionAddrsIndex", "contractDposCs.calVotes", "genElectionResult", "snapshotCs.verifyProducer", "contractDposCs.verifyProducer", "contractDposCs.VerifyAccountProducerLevel1", "chainRw.GetSnapshotBeforeTime", "chainRw.GetSeedsBeforeHashH", "chainRw.CalVotes", "chainRw.getVoteLRUCache", "chainRw.updateVoteLRUCache", "chainRw.getSnapshotVoteCache", "chainRw.updateSnapshotVoteCache", "chainRw.GetSuccessRateByHour", "NewVoteAlgoContext", "NewSeedInfo")
	for _, s := range parseSpecs(electSpec) {
		c.specFn(e, "ledger/consensus", s, "election")
	}
	e = c.Opts([]string{"ledger/consensus"}, "chainRw.getVoteLRUCache", "chainRw.genLruKey", "newContractDposCs", "contractsCs.getForGid", "contractsCs.reloadGid", "contractsCs.getOrLoadGid", "chainRw.GetMemberInfo", "NewAlgo", "NewGroupInfo")
	for _, s := range parseSpecs(electCacheSpec) {
		c.specFn(e, "ledger/consensus", s, "election")
	}
}

const succRateSpec = `
fn algo.filterBySuccessRate
 watch Sort
 touch &_[_].Type
 touch &_.Vote.Type
 touch &_[_]
 def Z0 Z[len(Z) + I - 2]
 def ZR Z[len(Z) + I - 2].Rate
 case len(A2) == 0
  ret 0 A1
  ret 1 A2
 case len(A2) != 0 && len(A4) < 2
  ret 0 A1
  ret 1 A2
 case len(A2) != 0 && len(A4) >= 2
  call Sort(as(BySuccessRate, X)) where X list each A1 : mapok(A4, A1[I].Addr) ? obj Vote = A1[I]; Rate = mapget(A4, A1[I].Addr) | !mapok(A4, A1[I].Addr) ? obj Vote = A1[I]; Rate = -1
  call Sort(as(BySuccessRate, X)) where X list each A2 : mapok(A4, A2[I].Addr) ? obj Vote = A2[I]; Rate = mapget(A4, A2[I].Addr) | !mapok(A4, A2[I].Addr) ? obj Vote = A2[I]; Rate = -1
  ret 0 list each X : X[I].Vote ;; each Y : looped(Y, _)[I].Vote where X list times len(Z) - 2 : Z[I] ;; times 2 : $ZR < 0 ? $Z0 | $ZR >= 800000 ? $Z0 where Y list times 2 : $ZR >= 0 && $ZR < 800000 ? $Z0 where Z list each A1 : mapok(A4, A1[I].Addr) ? obj Vote = A1[I]; Rate = mapget(A4, A1[I].Addr) | !mapok(A4, A1[I].Addr) ? obj Vote = A1[I]; Rate = -1
  ret 1 list each X : X[I].Vote ;; each Y : looped(Y, _)[I].Vote where X list each Z : Z[I].Rate <= 800000 ? Z[I] | len(Y) >= 2 ? Z[I] where Y list each Z : Z[I].Rate > 800000 && len(Y) < 2 ? Z[I] where Z list each A2 : mapok(A4, A2[I].Addr) ? obj Vote = A2[I]; Rate = mapget(A4, A2[I].Addr) | !mapok(A4, A2[I].Addr) ? obj Vote = A2[I]; Rate = -1
`

const electCacheSpec = `
fn chainRw.getSnapshotVoteCache
 def D GetElectionResultByHash(A0.dbCache, A1)
 def L getVoteLRUCache(A0, SNAPSHOT_GID, A1)
 watch StoreElectionResultByHash
 case $D.R1 != nil
  ret 1 false
 case $D.R1 == nil && $D.R0 != nil
  ret 0 $D.R0
  ret 1 true
 case $D.R1 == nil && $D.R0 == nil && $L.R0 != nil
  call StoreElectionResultByHash(A0.dbCache, A1, $L.R0)
  ret 0 $L.R0
  ret 1 true
 case $D.R1 == nil && $D.R0 == nil && $L.R0 == nil
  ret 1 false
fn chainRw.updateSnapshotVoteCache
 watch StoreElectionResultByHash
 call StoreElectionResultByHash(A0.dbCache, A1, A2)
fn chainRw.getVoteLRUCache
 def V Get(A0.lruCache, genLruKey(_, A1, A2))
 case A0.lruCache == nil
  ret 1 false
 case A0.lruCache != nil && $V.R1
  ret 0 $V.R0
  ret 1 true
 case A0.lruCache != nil && !$V.R1
  ret 1 false
fn chainRw.updateVoteLRUCache
 watch Add
 case A0.lruCache == nil
 case A0.lruCache != nil
  call Add(A0.lruCache, genLruKey(_, A1, A2), A3)
fn chainRw.GetMemberInfo
 err 1
 def L GetConsensusGroupList(A0.rw, GetLatestSnapshotBlock(A0.rw).Hash)
 ok $L.R1 == nil
 mayfail len($L.R0) <= ITER
 ret 0 pick $L.R0 : $L.R0[I].Gid == A1 ? NewGroupInfo(A0.genesisTime, *$L.R0[I])
fn chainRw.genLruKey
 ret 0 bytes A1; A2
fn contractsCs.reloadGid
 err 1
 touch &A0.contracts
 def M GetMemberInfo(A0.rw, A1)
 ok $M.R1 == nil
 ok $M.R0 != nil
 watch newContractDposCs
 call newContractDposCs($M.R0, A0.rw, A0.log)
 ret 0 newContractDposCs($M.R0, A0.rw, A0.log)
fn contractsCs.getForGid
 case mapok(A0.contracts, A1)
  ret 0 mapget(A0.contracts, A1)
 case !mapok(A0.contracts, A1)
  ret 0 nil
fn contractsCs.getOrLoadGid
 def F getForGid(A0, A1)
 def R reloadGid(A0, A1)
 case $F != nil
  ret 0 $F
  ret 1 nil
 case $F == nil && $R.R1 == nil
  ret 0 $R.R0
  ret 1 nil
 case $F == nil && $R.R1 != nil
  ret 1 $R.R1
fn newContractDposCs
 ret 0.rw A1
 ret 0.GroupInfo *A0
 ret 0.algo NewAlgo(A0)
fn dposReader.getDposConsensus
 case A1 == SNAPSHOT_GID
  ret 0 A0.snapshot
 case A1 != SNAPSHOT_GID
  ret 0 getOrLoadGid(A0.contracts, A1).R0
  ret 1 getOrLoadGid(A0.contracts, A1).R1
`

func (c *Ctx) electCustom(e *Engine) {
	// elements are read only after the list was sorted
	for _, fn := range []string{"algo.filterRandV2", "algo.filterBySuccessRate"} {
		f := c.Func(csCorePkg, fn)
		for _, p := range c.all(c.Paths(e, f)) {
			for i, ev := range p.Evs {
				if ev.Kind != "call" || baseName(ev.Name) != "Sort" {
					continue
				}
				l := ev.Args[0]
				for l.Op == "iface" || l.Op == "conv" {
					l = l.Args[0]
				}
				bad := ""
				for _, b := range p.Evs[:i] {
					if b.Kind != "loop" {
						continue
					}
					for _, ph := range b.Loop.Phis {
						for _, n := range ph.Next {
							if readsElem(n, l) {
								bad = n.String()
							}
						}
					}
				}
				c.Ob(bad == "", "sorted-before-use", fn, p.where(), "%s is sorted only after its elements were selected by position: %s", l, trunc(bad, 200))
			}
		}
	}
	c.electExchange(e)
	c.electPlan(e)
}

func readsElem(t, l *Term) bool {
	if t == nil {
		return false
	}
	if t.Op == "elem" && len(t.Args) > 0 && t.Args[0] == l {
		return true
	}
	for _, a := range t.Args {
		if readsElem(a, l) {
			return true
		}
	}
	return false
}

// electExchange: the k-th worst of the demoted changes places with the k-th
// best of the promoted, for k = 1, 2, as long as there is a k-th of both.
func (c *Ctx) electExchange(e *Engine) {
	fn := "algo.filterBySuccessRate"
	f := c.Func(csCorePkg, fn)
	n := 0
	for _, p := range c.all(c.Paths(e, f)) {
		if !p.Holds("len(A4) >= 2") || p.Holds("len(A2) == 0") {
			continue
		}
		r := p.o.res
		ok := false
		why := "no exchange of demoted and promoted producers"
		for _, ev := range p.Evs {
			if ev.Kind != "loop" || len(ev.Loop.Phis) != 1 || len(r) != 2 {
				continue
			}
			ph := ev.Loop.Phis[0]
			for _, st := range ev.Loop.Iters {
				q := p.iterPath(ev, st, nil)
				var els []*Event
				for _, x := range q.Evs {
					if x.Kind == "store" && x.Args[0].Op == "ia" {
						els = append(els, x)
					}
				}
				if len(els) != 2 {
					continue
				}
				why = "the exchange is not that of the k-th worst demoted with the k-th best promoted"
				for _, o := range [][2]int{{0, 1}, {1, 0}} {
					d, u := els[o[0]], els[o[1]]
					dl, di, ul, ui := d.Args[0].Args[0], d.Args[0].Args[1], u.Args[0].Args[0], u.Args[0].Args[1]
					// k = position in the promoted list, from 1
					k := mkBin(token.ADD, ui, kInt(1), nil2)
					first := fromLin(linPlus(toLin(ph.Init), linPlus(toLin(k), toLin(ph.Iter), constant.MakeInt64(-1)), constant.MakeInt64(1)), nil)
					lenD, lenU := mk("len", "", nil2, dl), mk("len", "", nil2, ul)
					if di != mkBin(token.SUB, lenD, k, nil2) || !isOne(first) || !stepOne(ph) {
						continue
					}
					if !isLoopedElem(d.Args[1], ul, ui) || !isLoopedElem(u.Args[1], dl, di) {
						continue
					}
					within := func(n *Term) bool {
						return st.facts.possible(k, n)&GT == 0 || st.facts.possible(ui, n)&(EQ|GT) == 0
					}
					past := func(n *Term) bool { return p.F.possible(k, n) == GT || p.F.possible(ui, n)&LT == 0 }
					if !within(kInt(2)) || !within(lenD) || !within(lenU) {
						why = "the exchange is not guarded by the number of producers on both sides"
						continue
					}
					if !past(kInt(2)) && !past(lenD) && !past(lenU) {
						why = "the exchange stops although both sides have another producer"
						continue
					}
					ok = true
				}
			}
		}
		n++
		c.Ob(ok, "exchange", fn, p.where(), "%s", why)
	}
	c.Floor("exchange", 1)
}

// isLoopedElem: the current element of list l at i (inside a loop that changes it).
func isLoopedElem(v, l, i *Term) bool {
	v = stripConv(v)
	if v.Op != "elem" || v.Args[1] != i {
		return false
	}
	b := v.Args[0]
	return b == l || b.Op == "looped" && b.Args[0] == l
}

// electPlan: slots follow each other without gap, member by member, PerCount
// slots each, Repeat times, seats without a member are left out.
func (c *Ctx) electPlan(e *Engine) {
	fn := "GroupInfo.GenPlanByAddress"
	f := c.Func(csCorePkg, fn)
	slot := "1000000000 * A0.ConsensusGroupInfo.Interval"
	for _, p := range c.all(c.Paths(e, f)) {
		if p.Holds("len(A2) > A0.ConsensusGroupInfo.NodeCount") {
			c.Ob(isNilT(p.o.res[0]), "slots", fn, p.where(), "a plan for more members than seats")
			continue
		}
		c.Ob(p.Holds("len(A2) <= A0.ConsensusGroupInfo.NodeCount"), "slots", fn, p.where(), "the number of members is not compared with the seats")
		why := c.planPath(p, slot)
		c.Ob(why == "", "slots", fn, p.where(), "%s", why)
	}
	c.Floor("slots", 3)
}

func (c *Ctx) planPath(p *Path, slot string) string {
	if !p.isV(p.o.res[0], "list times A0.ConsensusGroupInfo.Repeat : each A2 : times A0.ConsensusGroupInfo.PerCount : obj Member = A2[J]") {
		return "the plan is not Repeat times PerCount slots of each member in order: " + p.showV(p.o.res[0])
	}
	l1 := p.segs(p.o.res[0])[0].Loop
	var acc1 *Term
	for k1, st1 := range l1.Its {
		q1 := p.iterPath(l1.Ev, st1, l1.Idx)
		l2 := dropEmpty(l1.Body[k1])[0].Loop
		for k2, st2 := range l2.Its {
			q2 := q1.iterPath(l2.Ev, st2, l2.Idx)
			l3 := dropEmpty(l2.Body[k2])[0].Loop
			for k3, st3 := range l3.Its {
				q3 := q2.iterPath(l3.Ev, st3, l3.Idx)
				el := dropEmpty(l3.Body[k3])[0].T
				s, t := stripConv(st3.load(mkFA(el, "STime", nil2))), st3.load(mkFA(el, "ETime", nil2))
				b := Bind{"Z": s}
				if _, ok := matchT(pat("Z + "+slot), t, b); !ok {
					return "a slot does not last Interval seconds: " + t.String()
				}
				// accumulators: the slot's start is carried from slot to slot,
				// member to member, repetition to repetition
				p3 := phiOf(l3.Ev, s)
				if p3 == nil || !q3.isV(p3.Next[k3], "Z + "+slot) && !isTB(p3.Next[k3], "Z + "+slot, b) {
					return "the next slot does not start where the last one ended"
				}
				p2 := phiOf(l2.Ev, p3.Init)
				if p2 == nil || p2.Next[k2] != s {
					return "the next member's first slot does not start where the last member's ended"
				}
				p1 := phiOf(l1.Ev, p2.Init)
				if p1 == nil || !isT(p1.Init, "Index2Time(A0.TimeIndex, A1).R0") {
					return "the first slot does not start at the round's start"
				}
				acc1 = p2.Iter
				b = Bind{"Z": acc1}
				n := q1.norm()
				switch {
				case n.Holds("len(A2) < A0.ConsensusGroupInfo.NodeCount"):
					if !isTB(p1.Next[k1], "Z + 1000000000 * (A0.ConsensusGroupInfo.Interval * A0.ConsensusGroupInfo.PerCount * (A0.ConsensusGroupInfo.NodeCount - len(A2)))", b) {
						return "empty seats are not left out: " + p1.Next[k1].String()
					}
				default:
					if p1.Next[k1] != acc1 || !n.Holds("len(A2) >= A0.ConsensusGroupInfo.NodeCount") {
						return "a repetition does not start where the last one ended: " + p1.Next[k1].String()
					}
				}
			}
		}
	}
	if acc1 == nil {
		return "no slots"
	}
	return ""
}

func phiOf(ev *Event, t *Term) *PhiInfo {
	for i := range ev.Loop.Phis {
		if ev.Loop.Phis[i].Iter == t {
			return &ev.Loop.Phis[i]
		}
	}
	return nil
}
