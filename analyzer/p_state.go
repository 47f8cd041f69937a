package main

import (
	"go/token"
	"strings"
)

func init() {
	register(&Prop{
		ID:    "C26",
		Title: "The state store holds exactly what the ledger's blocks wrote, at every snapshot",
		Statement: "Inserting an account block writes to the state store exactly its transaction's storage changes (an empty value deletes the key), balances, code, contracts (with the block that created them and their group's list), event logs and call depths, under the documented key of each, and keeps the same as the block's redo log; writing a block again from its redo log gives the same store. " +
			"Confirming a snapshot block takes from the current redo logs those of the confirmed blocks, and writes the last value of every storage key and balance they changed as the history entry at that height; a value at a snapshot is the newest history entry at or below its height, a current value the current entry, and the caches answer what the store would. " +
			"Rolling snapshot or account blocks back undoes exactly their writes: every key and balance they changed gets back the value at the last remaining snapshot, or after the last remaining unconfirmed block, or goes if there was none; history entries above, and the code, contracts, logs and call depths of the removed blocks, are deleted from store and cache.",
		Over:      []string{"inputs", "histories"},
		Quant:     "all blocks, snapshot blocks, rollbacks and queries",
		Why:       "A wrong state entry only shows after a rollback, at an old snapshot, or after a cache entry is gone, and then as a balance or contract state that differs between nodes.",
		Files:     []string{"ledger/chain/state/write.go", "ledger/chain/state/delete.go", "ledger/chain/state/state_db.go", "ledger/chain/state/storage_database.go", "ledger/chain/state/redo.go", "ledger/chain/state/redo_cache.go", "ledger/chain/state/cache.go", "ledger/chain/utils/generate_key.go", "ledger/chain/utils/keys_state_db.go"},
		Mech:      [][2]string{{"insertion", "ledger/chain/state/write.go StateDB.Write"}, {"replay", "ledger/chain/state/write.go StateDB.WriteByRedo"}, {"snapshot", "ledger/chain/state/write.go StateDB.InsertSnapshotBlock"}, {"redo logs", "ledger/chain/state/redo.go Redo.InsertSnapshotBlock"}, {"rollback", "ledger/chain/state/delete.go StateDB.RollbackSnapshotBlocks"}, {"history", "ledger/chain/state/delete.go StateDB.recoverBalanceToSnapshot"}},
		Technique: "functional specification of every state write, rollback and lookup decided by path-sensitive dataflow; keys and values are compared as byte strings (through fixed key templates refilled in loops), loop bodies element by element",
		Note:      "The store below (C18), go-cache, RLP-like serialisation of contract meta and redo logs, and the round cache (a derived read cache of elections) are trusted, as is the order in which the chain calls the state database.",
		Run:       runC26,
	})
}

const statePkg = "ledger/chain/state"

const stateKeySpec = `
fn CreateStorageValueKey
 skip panic
 ret 0 bytes 1; A0; RightPadBytes(A1, 32); len(A1)
fn CreateHistoryStorageValueKey
 skip panic
 ret 0 bytes 2; A0; RightPadBytes(A1, 32); len(A1); be64(A2)
fn CreateBalanceKeyPrefix
 ret 0 bytes 3; A0
fn CreateBalanceKey
 ret 0 bytes 3; A0; A1
fn CreateHistoryBalanceKey
 ret 0 bytes 4; A0; A1; be64(A2)
fn StorageHistoryKey.Construct
 case len(A1) == 63
 ret 0 ptr bytes A1
 case len(A1) != 63
 ret 0 nil
fn BalanceHistoryKey.Construct
 case len(A1) == 40
 ret 0 ptr bytes A1
 case len(A1) != 40
 ret 0 nil
fn CreateCodeKey
 ret 0 bytes 5; A0
fn CreateContractMetaKey
 ret 0 bytes 7; A0
fn CreateGidContractKey
 ret 0 bytes 9; A0; A1
fn CreateGidContractPrefixKey
 ret 0 bytes 9; A0
fn CreateVmLogListKey
 ret 0 bytes 10; A0
fn CreateCallDepthKey
 ret 0 bytes 11; A0
fn CreateRedoSnapshot
 ret 0 bytes 1; be64(A0)
fn CreateStorageValueKeyPrefix
 ret 0 bytes 1; A0; A1
fn CreateHistoryStorageValueKeyPrefix
 ret 0 bytes 2; A0; A1
`

const stateWriteSpec = `
fn StateDB.Write
 err 0
 watch Put Delete Set AddLog WriteAccountBlock WriteDirectly WriteSnapshot WriteAccountBlockByHash
 def B NewBatch(A0.store)
 def AB A1.AccountBlock
 def ST GetUnsavedStorage(A1.VmDb)
 def BM GetUnsavedBalanceMap(A1.VmDb)
 def CM GetUnsavedContractMeta(A1.VmDb)
 def CODE GetUnsavedContractCode(A1.VmDb)
 def LG Serialize(GetLogList(A1.VmDb))
 def SB $AB.SendBlockList
 def D GetCallDepth(A1.VmDb, &$AB.FromBlockHash)
 def REC $AB.BlockType == 4 || $AB.BlockType == 5 || $AB.BlockType == 7
 def META Serialize(rval(_)).R0
 ok CanWrite(A1.VmDb)
 mayfail $LG.R1 != nil
 mayfail $D.R1 != nil
 put each $ST : len($ST[I][1]) > 0 ? $B | 1; $AB.AccountAddress; RightPadBytes($ST[I][0], 32); len($ST[I][0]) | =$ST[I][1]
 del each $ST : len($ST[I][1]) == 0 ? $B | 1; $AB.AccountAddress; RightPadBytes($ST[I][0], 32); len($ST[I][0])
 sput c | range $BM : $B | 3; $AB.AccountAddress; rkey(_) | Bytes(rval(_))
 put if $CODE != nil ? $B | 5; $AB.AccountAddress | =$CODE
 sput b | range $CM : $B | 7; rkey(_) | $META
 put range $CM : $B | 9; rval(_).Gid; rkey(_) | empty
 put if $AB.LogHash != nil && canWriteVmLog(A0, $AB.AccountAddress) ? $B | 10; $AB.LogHash | =$LG.R0
 put if $REC ? each $SB : $B | 11; $SB[I].Hash | be16($D.R0 + 1)
 def LOGS $AB.LogHash != nil && canWriteVmLog(A0, $AB.AccountAddress)
 def RM cond len($CM) > 0 ?? map range $CM : rkey(_) => $META :: nil
 def RL cond $LOGS ?? map one *$AB.LogHash => $LG.R0 :: nil
 def RD cond $REC && len($SB) > 0 ?? map each $SB : $SB[I].Hash => $D.R0 + 1 :: nil
 call AddLog(A0.redo, $AB.AccountAddress, X) where X obj Height = $AB.Height; Storage = $ST; BalanceMap = map range $BM : rkey(_) => rval(_); Code = cond $CODE != nil ?? $CODE :: nil; ContractMeta = $RM; VmLogList = $RL; CallDepth = $RD
 call last WriteAccountBlock(A0.store, $B, $AB)

fn StateDB.WriteByRedo
 skip panic
 watch Put Delete Set AddLog WriteAccountBlock WriteDirectly WriteSnapshot WriteAccountBlockByHash
 def B NewBatch(A0.store)
 def ST A3.Storage
 put each $ST : len($ST[I][1]) > 0 ? $B | 1; A2; RightPadBytes($ST[I][0], 32); len($ST[I][0]) | =$ST[I][1]
 del each $ST : len($ST[I][1]) == 0 ? $B | 1; A2; RightPadBytes($ST[I][0], 32); len($ST[I][0])
 sput c | range A3.BalanceMap : $B | 3; A2; rkey(_) | Bytes(rval(_))
 put if len(A3.Code) > 0 ? $B | 5; A2 | =A3.Code
 sput b | range A3.ContractMeta : $B | 7; rkey(_) | rval(_)
 put range A3.ContractMeta : $B | 9; rval(_)[:10]; rkey(_) | empty
 put range A3.VmLogList : $B | 10; rkey(_) | =rval(_)
 put range A3.CallDepth : $B | 11; rkey(_) | be16(rval(_))
 call last WriteAccountBlockByHash(A0.store, $B, A1)

fn StateDB.InsertSnapshotBlock
 err 0
 skip panic
 watch writeHistoryKey Put Delete Set InsertSnapshotBlock WriteAccountBlock WriteDirectly WriteSnapshot WriteAccountBlockByHash
 def B NewBatch(A0.store)
 def Q QueryLog(A0.redo, A1.Height)
 def P parseRedoLog($Q.R0)
 ok $Q.R2 == nil
 ok len($Q.R0) == 0 || $P.R2 == nil
 call InsertSnapshotBlock(A0.redo, A1, A2)
 call InsertSnapshotBlock(A0.roundCache, A1, $Q.R0)
 call WriteSnapshot(A0.store, $B, A2)
 call if len($Q.R0) > 0 ? range $P.R0 : range rval($P.R0) : writeHistoryKey(A0, $B, X, rval(rval(_))) where X bytes 2; rkey($P.R0); RightPadBytes(rkey(rval(_)), 32); len(rkey(rval(_))); be64(A1.Height)
 put if len($Q.R0) > 0 ? range $P.R1 : range rval($P.R1) : $B | 4; rkey($P.R1); rkey(rval(_)); be64(A1.Height) | Bytes(rval(rval(_)))
`

const stateHistSpec = `
fn StateDB.enableCache
 post A0.useCache = true
fn StateDB.disableCache
 post A0.useCache = false
fn StateDB.writeHistoryKey
 skip panic
 watch Put Set
 call Put(A1, A2, A3)
 call if shouldCacheContractData(A0, _) ? Set(A0.cache.cache, X, Y, _) where X bytes "a"; A2[1:22]; A2[22:A2[54] + 22] where Y bytes A3
fn StateDB.deleteHistoryKey
 skip panic
 watch Delete Set
 call Delete(A1, A2)
 call if shouldCacheContractData(A0, _) ? Delete(A0.cache.cache, X) where X bytes "a"; A2[1:22]; A2[22:A2[54] + 22]
fn StateDB.shouldCacheContractData
 ret 0 iff A1 == AddressQuota || A1 == AddressGovernance || A1 == AddressAsset
fn StateDB.canWriteVmLog
 case A0.vmLogAll
  ret 0 true
 case !A0.vmLogAll
  ret 0 mapok(A0.vmLogWhiteListSet, A1)
fn StateDB.getValue
 err 1
 def C Get(A0.cache.cache, X)
 def S Get(A0.store, A1)
 watch Get
 call if A0.useCache ? Get(A0.cache.cache, X) where X bytes A2; A1
 call if !A0.useCache || !$C.R1 ? Get(A0.store, A1)
 ok A0.useCache || $S.R1 == nil
 ok $C.R1 || $S.R1 == nil
 case A0.useCache && $C.R1
  ret 0 $C.R0
 case !A0.useCache || !$C.R1
  ret 0 $S.R0
fn StateDB.getValueInCache
 err 1
 def C Get(A0.cache.cache, X)
 def V getValue(A0, A1, A2)
 only Get(A0.cache.cache, X) where X bytes A2; A1
 ok A0.useCache || $V.R1 == nil
 case !A0.useCache
  ret 0 $V.R0
 case A0.useCache && $C.R1
  ret 0 $C.R0
 case A0.useCache && !$C.R1
  ret 0 nil
`

const stateReadSpec = `
fn StateDB.GetStorageValue
 err 1
 skip panic
 def G Get(A0.store, _)
 only Get(A0.store, X) where X bytes 1; A1; RightPadBytes(A2, 32); len(A2)
 ok $G.R1 == nil
 ret 0 $G.R0
fn StateDB.GetBalance
 err 1
 def G getValue(A0, _, "c")
 only getValue(A0, X, "c") where X bytes 3; A1; A2
 ok $G.R1 == nil
 ret 0 SetBytes($G.R0)
fn StateDB.GetBalanceMap
 err 1
 def IT NewIterator(A0.store, _)
 def T BytesToTokenTypeId(Key(_)[22:32])
 only BytesPrefix(X) where X bytes 3; A1
 mayfail $T.R1 != nil
 ok Error($IT) == nil || Error($IT) == ErrNotFound
 watch mapset mapdel
 call scan $IT : mapset(X, $T.R0, Y) where Y SetBytes(Value(_))
fn StateDB.GetCode
 err 1
 def G Get(A0.store, _)
 only Get(A0.store, X) where X bytes 5; A1
 ok $G.R1 == nil
 ret 0 $G.R0
fn StateDB.GetContractMeta
 err 1
 def G getValueInCache(A0, _, "b")
 def D Deserialize(_, $G.R0)
 only getValueInCache(A0, X, "b") where X bytes 7; A1
 ok $G.R1 == nil
 ok len($G.R0) == 0 || $D == nil
 case len($G.R0) == 0
  ret 0 nil
 case len($G.R0) != 0
  ret 0 NEW
fn StateDB.HasContractMeta
 err 1
 def G getValueInCache(A0, _, "b")
 only getValueInCache(A0, X, "b") where X bytes 7; A1
 ok $G.R1 == nil
 ret 0 iff len($G.R0) > 0
fn StateDB.GetContractList
 err 1
 def IT NewIterator(A0.store, _)
 def T BytesToAddress(Key(_)[len(Key(_))-21:])
 only BytesPrefix(X) where X bytes 9; A1
 mayfail $T.R1 != nil
 ok Error($IT) == nil || Error($IT) == ErrNotFound
fn StateDB.GetVmLogList
 err 1
 def G Get(A0.store, _)
 only Get(A0.store, X) where X bytes 10; A1
 ok $G.R1 == nil
 ok len($G.R0) == 0 || Deserialize(_, $G.R0) == nil
 case len($G.R0) == 0
  ret 0 nil
 case len($G.R0) != 0
fn StateDB.GetCallDepth
 err 1
 def G Get(A0.store, _)
 only Get(A0.store, X) where X bytes 11; A1
 ok $G.R1 == nil
 case len($G.R0) == 0
  ret 0 0
 case len($G.R0) != 0
  ret 0 rdbe16($G.R0)
fn StateDB.GetSnapshotValue
 err 1
 skip panic
 def TOP GetLatestSnapshotBlock(A0.chain).Height
 def IT NewIterator(A0.store, _)
 def G getValueInCache(A0, _, "a")
 def CACHED A0.useCache && shouldCacheContractData(A0, A2) && A1 == $TOP
 watch getValueInCache NewIterator
 call if $CACHED ? getValueInCache(A0, X, "a") where X bytes A2; A3
 call if !A0.useCache || !shouldCacheContractData(A0, A2) || A1 != $TOP ? NewIterator(A0.store, X) where X rng 2; A2; RightPadBytes(A3, 32); len(A3); be64(0) .. 2; A2; RightPadBytes(A3, 32); len(A3); be64(A1 + 1)
 ok !A0.useCache || !shouldCacheContractData(A0, A2) || A1 != $TOP || $G.R1 == nil
 ok A0.useCache || Last($IT) || Error($IT) == nil || Error($IT) == ErrNotFound
 ok shouldCacheContractData(A0, A2) || Last($IT) || Error($IT) == nil || Error($IT) == ErrNotFound
 ok A1 == $TOP || Last($IT) || Error($IT) == nil || Error($IT) == ErrNotFound
 case $CACHED
  ret 0 $G.R0
 case !A0.useCache || !shouldCacheContractData(A0, A2) || A1 != $TOP && Last($IT)
  ret 0 Value($IT)
 case !A0.useCache || !shouldCacheContractData(A0, A2) || A1 != $TOP && !Last($IT)
  ret 0 nil
fn StateDB.initContractMetaCache
 err 0
 watch Set Delete
 def IT NewIterator(A0.store, _)
 only BytesPrefix(X) where X bytes 7
 ok Error($IT) == nil
 call scan $IT : Set(A0.cache.cache, X, Y, _) where X bytes "b"; Key(_) where Y bytes Value(_)
fn StateDB.initSnapshotValueCache
 err 0
 watch Set Delete
 def IT NewStorageIterator(A0, BuiltinContracts[I], nil)
 mayfail Error(_) != nil
 call each BuiltinContracts : scan $IT : Set(A0.cache.cache, X, Y, _) where X bytes "a"; BuiltinContracts[I]; Key(_) where Y bytes Value(_)
fn StorageDatabase.GetValue
 err 1
 def G GetSnapshotValue(A0.stateDb, A0.snapshotHeight, A0.addr, A1)
 ok $G.R1 == nil
 ret 0 $G.R0
fn NewStorageDatabase
 ret 0.stateDb A0
 ret 0.snapshotHeight A1.Height
 ret 0.snapshotHash A1.Hash
 ret 0.addr A2
fn StateDB.GetSnapshotBalanceList
 err 0
 watch mapset mapdel getSnapshotBalanceList
 def C GetSnapshotViteBalanceList(A0.roundCache, A2, A3)
 def USE A0.consensusCacheLevel == 1 && A4 == ViteTokenId
 mayfail $C.R2 != nil
 mayfail getSnapshotBalanceList(___) != nil
 call if $USE && $C.R0 != nil && len($C.R1) > 0 ? getSnapshotBalanceList(A0, $C.R0, A2, $C.R1, A4)
 call if $USE && $C.R0 != nil ? range $C.R0 : mapset(A1, rkey(_), rval(_))
 call if A0.consensusCacheLevel != 1 || A4 != ViteTokenId || $C.R0 == nil ? getSnapshotBalanceList(A0, A1, A2, A3, A4)
fn StateDB.getSnapshotBalanceList
 err 0
 watch mapset mapdel
 def H GetSnapshotHeightByHash(A0.chain, A2)
 def IT NewIterator(A0.store, _)
 only BytesPrefix(X) where X bytes 4
 only Seek($IT, X) where X bytes 4; A3[I]; A4; be64($H.R0 + 1)
 ok $H.R1 == nil
 case $H.R0 == 0
 case $H.R0 > 0
  call each A3 : Prev($IT) && len(Key($IT)) == 40 && A3[I] == Key($IT)[1:22] && A4 == Key($IT)[22:32] ? mapset(A1, A3[I], Y) where Y SetBytes(Value($IT))
`

const stateRedoSpec = `
fn RedoCache.Init
 watch mapset mapdel
 post A0.currentHeight = A1
 post A0.snapshotLogMap = NEW
 call mapset(_, A1, NEW)
fn RedoCache.Current
 ret 0 mapget(A0.snapshotLogMap, A0.currentHeight)
fn RedoCache.Get
 ret 0 mapget(A0.snapshotLogMap, A1)
 ret 1 mapok(A0.snapshotLogMap, A1)
fn RedoCache.Delete
 watch mapset mapdel
 call mapdel(A0.snapshotLogMap, A1)
 post A0.currentHeight = cond A0.currentHeight >= A1 ?? A0.currentHeight - 1 :: A0.currentHeight
fn RedoCache.Set
 watch mapset mapdel
 call mapset(A0.snapshotLogMap, A1, A2)
fn RedoCache.SetCurrent
 watch mapset mapdel
 post A0.currentHeight = A1
 call mapset(A0.snapshotLogMap, A1, A2)
 call if len(A0.snapshotLogMap) > A0.retainHeightGap && A1 > A0.retainHeightGap ? range A0.snapshotLogMap : rkey(_) <= A1 - A0.retainHeightGap ? mapdel(A0.snapshotLogMap, rkey(_))
fn RedoCache.AddLog
 watch mapset mapdel
 def C mapget(A0.snapshotLogMap, A0.currentHeight)
 call mapset($C, A1, X) where X list all mapget($C, A1) ;; A2
fn Redo.HasRedo
 err 1
 def C Get(A0.cache, A1)
 watch Has
 def H Has(A0.store, Bytes(CreateRedoSnapshot(A1)))
 def H1 Has(A0.store, Bytes(CreateRedoSnapshot(A1 - 1)))
 ok $C.R1 || $H.R1 == nil
 ok $C.R1 || $H.R0 || $H1.R1 == nil
 call if !$C.R1 ? $H
 call if !$C.R1 && !$H.R0 ? $H1
 case $C.R1
  ret 0 true
 case !$C.R1 && $H.R0
  ret 0 true
 case !$C.R1 && !$H.R0
  ret 0 $H1.R0
fn Redo.QueryLog
 err 2
 def C Get(A0.cache, A1)
 def G GetOriginal(A0.store, Bytes(CreateRedoSnapshot(A1)))
 def H1 Has(A0.store, Bytes(CreateRedoSnapshot(A1 - 1)))
 ok $C.R1 || $G.R1 == nil || $G.R1 == ErrNotFound
 ok $C.R1 || $G.R1 == nil || $H1.R1 == nil
 ok $C.R1 || $G.R1 != nil || Deserialize(_, $G.R0) == nil
 case $C.R1
  ret 0 $C.R0
  ret 1 true
 case !$C.R1 && $G.R1 == nil
  ret 0 out(Deserialize(_, $G.R0), _)
  ret 1 true
 case !$C.R1 && $G.R1 != nil
  ret 0 NEW
  ret 1 $H1.R0
fn Redo.SetCurrentSnapshot
 watch SetCurrent
 call SetCurrent(A0.cache, A1, A2)
fn Redo.AddLog
 watch AddLog
 call AddLog(A0.cache, A1, A2)
fn Redo.Rollback
 watch Delete Put RollbackSnapshot WriteDirectly
 def B NewBatch(A0.store)
 call each A1 : A1[I] != nil && A1[I].SnapshotBlock != nil ? Delete(A0.cache, A1[I].SnapshotBlock.Height)
 call each A1 : A1[I] != nil && A1[I].SnapshotBlock != nil ? Delete($B, Bytes(CreateRedoSnapshot(A1[I].SnapshotBlock.Height)))
 call last RollbackSnapshot(A0.store, $B)
`

const stateBackSpec = `
fn StateDB.rollbackByRedo
 err 0
 skip panic
 watch Put Delete Set deleteHistoryKey mapset mapdel
 def L rval(A3)[I]
 def T A3 : each rval(A3)
 call if A2 != nil ? range $T : each $L.Storage : deleteHistoryKey(A0, A1, X) where X bytes 2; rkey(A3); RightPadBytes($L.Storage[J][0], 32); len($L.Storage[J][0]); be64(A2.Height)
 del if A2 == nil ? range $T : each $L.Storage : A1 | 1; rkey(A3); RightPadBytes($L.Storage[J][0], 32); len($L.Storage[J][0])
 del if A2 != nil ? range $T : range $L.BalanceMap : A1 | 4; rkey(A3); rkey($L.BalanceMap); be64(A2.Height)
 sdel c | if A2 == nil ? range $T : range $L.BalanceMap : A1 | 3; rkey(A3); rkey($L.BalanceMap)
 sdel b | range $T : range $L.ContractMeta : A1 | 7; rkey($L.ContractMeta)
 del range $T : range $L.ContractMeta : len(rval($L.ContractMeta)) >= 10 ? A1 | 9; rval($L.ContractMeta)[:10]; rkey($L.ContractMeta)
 del range $T : len($L.Code) > 0 ? A1 | 5; rkey(A3)
 del range $T : range $L.VmLogList : A1 | 10; rkey($L.VmLogList)
 del range $T : range $L.CallDepth : A1 | 11; rkey($L.CallDepth)
 call range $T : each $L.Storage : mapset(_, $L.Storage[J][0], _)
 call range $T : range $L.BalanceMap : mapset(_, rkey($L.BalanceMap), _)
 call range A3 : len(_) > 0 ? mapset(A4, rkey(A3), _)
 call range A3 : len(_) > 0 ? mapset(A5, rkey(A3), _)
`

const stateBack2Spec = `
fn StateDB.recoverLatestIndexToSnapshot
 err 0
 skip panic
 watch Put Delete Set
 def V GetSnapshotValue(A0, A2.Height, rkey(A3), rkey(rval(A3)))
 def IT NewIterator(A0.store, _)
 mayfail $V.R1 != nil
 only BytesPrefix(X) where X bytes 4
 only Seek($IT, X) where X bytes 4; rkey(A4); rkey(rval(A4)); be64(A2.Height + 1)
 put range A3 : range rval(A3) : len($V.R0) > 0 ? A1 | 1; rkey(A3); RightPadBytes(rkey(rval(A3)), 32); len(rkey(rval(A3))) | =$V.R0
 del range A3 : range rval(A3) : len($V.R0) == 0 ? A1 | 1; rkey(A3); RightPadBytes(rkey(rval(A3)), 32); len(rkey(rval(A3)))
 sput c | range A4 : range rval(A4) : Prev($IT) && HasPrefix(Key($IT), _) ? A1 | 3; rkey(A4); rkey(rval(A4)) | Value($IT)
 sdel c | range A4 : range rval(A4) : !Prev($IT) || !HasPrefix(Key($IT), _) ? A1 | 3; rkey(A4); rkey(rval(A4))
fn StateDB.recoverLatestIndexByRedo
 skip panic
 watch Put Delete Set mapset mapdel
 def L mapget(A3, rkey(A2))
 def S $L[I].Storage
 def BM $L[I].BalanceMap
 put range A2 : each $L : each $S : len($S[J][1]) > 0 ? A1 | 1; rkey(A2); RightPadBytes($S[J][0], 32); len($S[J][0]) | =$S[J][1]
 del range A2 : each $L : each $S : len($S[J][1]) == 0 ? A1 | 1; rkey(A2); RightPadBytes($S[J][0], 32); len($S[J][0])
 call range A2 : each $L : each $S : mapok(A4, rkey(A2)) ? mapdel(mapget(A4, rkey(A2)), $S[J][0])
 sput c | range A2 : each $L : range $BM : A1 | 3; rkey(A2); rkey($BM) | Bytes(rval($BM))
 call range A2 : each $L : range $BM : mapok(A5, rkey(A2)) ? mapdel(mapget(A5, rkey(A2)), rkey($BM))
fn StateDB.rollbackAccountBlock
 watch Put Delete Set
 def S A2.SendBlockList
 del if A2.Height <= 1 ? A1 | 5; A2.AccountAddress
 sdel b | if A2.BlockType == 1 ? A1 | 7; A2.ToAddress
 del if A2.BlockType == 1 && len(A2.Data) >= 10 ? A1 | 9; A2.Data[:10]; A2.ToAddress
 del each $S : $S[I].BlockType == 1 && len($S[I].Data) >= 10 ? A1 | 9; $S[I].Data[:10]; $S[I].ToAddress
 del if A2.LogHash != nil ? A1 | 10; A2.LogHash
 del each $S : A1 | 11; $S[I].Hash
 sdel b | each $S : $S[I].BlockType == 1 ? A1 | 7; $S[I].ToAddress

fn StateDB.RollbackAccountBlocks
 err 0
 watch NewBatch rollbackByRedo recoverLatestIndexByRedo recoverLatestIndexToSnapshot SetCurrentSnapshot RollbackAccountBlocks RollbackSnapshot WriteDirectly deleteRedoLog Put Delete Set
 ordered
 def TOP GetLatestSnapshotBlock(A0.chain)
 def B NewBatch(A0.store)
 def Q QueryLog(A0.redo, $TOP.Height + 1)
 ok $Q.R2 == nil
 ok $Q.R1
 ok rollbackByRedo(A0, $B, nil, ___) == nil
 ok recoverLatestIndexToSnapshot(A0, $B, ___) == nil
 call $B
 call each A1 : !mapok(_, A1[I].AccountAddress) ? deleteRedoLog($Q.R0, A1[I].AccountAddress, A1[I].Height)
 call rollbackByRedo(A0, $B, nil, X, Y, Z) where X map each A1 : !mapok(_, A1[I].AccountAddress) ? A1[I].AccountAddress => deleteRedoLog(___) where Y NEW where Z NEW
 call recoverLatestIndexByRedo(A0, $B, X, $Q.R0, Y, Z) where X map each A1 : !mapok(_, A1[I].AccountAddress) ? A1[I].AccountAddress => _ where Y NEW where Z NEW
 call recoverLatestIndexToSnapshot(A0, $B, X, Y, Z) where X obj Height = $TOP.Height; Hash = $TOP.Hash where Y NEW where Z NEW
 call SetCurrentSnapshot(A0.redo, $TOP.Height + 1, $Q.R0)
 call RollbackAccountBlocks(A0.store, $B, A1)

fn StateDB.RollbackSnapshotBlocks
 err 0
 watch NewBatch rollbackByRedo rollbackAccountBlock recoverLatestIndexToSnapshot recoverToSnapshot SetCurrentSnapshot RollbackAccountBlocks RollbackSnapshot Rollback WriteDirectly initSnapshotValueCache WriteByRedo rollbackRoundCache Put Delete Set disableCache enableCache mapset
 def TOP GetLatestSnapshotBlock(A0.chain)
 def B NewBatch(A0.store)
 def Q QueryLog(A0.redo, $TOP.Height + 1)
 skip panic
 ok rollbackRoundCache(A0, A1) == nil
 ok $Q.R2 == nil
 mayfail rollbackByRedo(___) != nil
 mayfail recoverLatestIndexToSnapshot(___) != nil
 mayfail recoverToSnapshot(___) != nil
 mayfail initSnapshotValueCache(___) != nil
 mayfail QueryLog(A0.redo, _).R2 != nil
 call disableCache(A0)
 call rollbackRoundCache(A0, A1)
 call $B
 call if $Q.R1 ? each A1 : rollbackByRedo(A0, $B, A1[I].SnapshotBlock, _, _, _)
 call if $Q.R1 ? recoverLatestIndexToSnapshot(A0, $B, X, Y, Z) where X obj Height = $TOP.Height; Hash = $TOP.Hash where Y NEW where Z NEW
 call if !$Q.R1 ? each A1 : each A1[I].AccountBlocks : rollbackAccountBlock(A0, $B, A1[I].AccountBlocks[J])
 call if !$Q.R1 ? recoverToSnapshot(A0, $B, $TOP.Height, _, X) where X NEW
 call if !$Q.R1 ? each A1 : each A1[I].AccountBlocks : mapset(_, A1[I].AccountBlocks[J].AccountAddress, _)
 call RollbackSnapshot(A0.store, $B)
 call Rollback(A0.redo, A1)
 call SetCurrentSnapshot(A0.redo, $TOP.Height + 1, $Q.R0)
 call initSnapshotValueCache(A0)
 call each A2 : WriteByRedo(A0, A2[I].Hash, A2[I].AccountAddress, mapget($Q.R0, A2[I].AccountAddress)[A2[I].Height - mapget($Q.R0, A2[I].AccountAddress)[0].Height])
 call last enableCache(A0)

fn StateDB.rollbackRoundCache
 err 0
 ok DeleteSnapshotBlocks(A0.roundCache, X) == nil
 watch DeleteSnapshotBlocks
 call DeleteSnapshotBlocks(A0.roundCache, X) where X list each A1 : A1[I].SnapshotBlock != nil ? A1[I].SnapshotBlock

fn StateDB.recoverToSnapshot
 err 0
 def P parseRedoLog(A3)
 def R rkey(A4)
 watch recoverStorageToSnapshot recoverBalanceToSnapshot
 ok $P.R2 == nil
 mayfail recoverStorageToSnapshot(___) != nil
 mayfail recoverBalanceToSnapshot(___) != nil
 call range A4 : recoverStorageToSnapshot(A0, A1, A2, $R, mapget($P.R0, $R))
 call range A4 : recoverBalanceToSnapshot(A0, A1, A2, $R, mapget($P.R1, $R))
`

const stateRedo2Spec = `
fn Redo.InsertSnapshotBlock
 skip panic
 watch Put Delete WriteDirectly Set SetCurrentSnapshot
 ordered
 def B NewBatch(A0.store)
 call Put($B, X, Serialize(_).R0) where X bytes 1; be64(A1.Height)
 call if A1.Height > A0.retainHeight ? Delete($B, X) where X bytes 1; be64(A1.Height - A0.retainHeight)
 call WriteDirectly(A0.store, $B)
 call Set(A0.cache, A1.Height, NEW)
 call SetCurrentSnapshot(A0, A1.Height + 1, Current(A0.cache))
fn parseRedoLog
 err 2
 watch mapset mapdel
 def L rval(A0)[I]
 call range A0 : each rval(A0) : each $L.Storage : mapset(_, $L.Storage[J][0], $L.Storage[J][1])
 call range A0 : each rval(A0) : range $L.BalanceMap : mapset(_, rkey(_), rval(_))
 call range A0 : mapset(X, rkey(A0), Y) where X NEW where Y NEW
 call range A0 : mapset(X, rkey(A0), Y) where X NEW where Y NEW
 ret 0 NEW
 ret 1 NEW
`

// cutAt: k is where seq is cut: in holds for the last element before it (or
// there is none) and out for every element from it on, found from the back;
// or in for every element before it and out for the element there.
func (p *Path) cutAt(k *Term, seq, in, out string) bool {
	holds := func(q *Path, s string, i *Term) bool {
		r := *q
		r.B = q.B.copy()
		r.B["I"] = i
		return r.norm().Path.Holds(s)
	}
	for _, ev := range p.Evs {
		if ev.Kind != "loop" {
			continue
		}
		for _, ph := range ev.Loop.Phis {
			i := ph.Iter
			step := int64(0)
			for j, n := range ph.Next {
				d := int64(0)
				switch n {
				case mkBin(token.ADD, i, kInt(1), i.Typ):
					d = 1
				case mkBin(token.SUB, i, kInt(1), i.Typ):
					d = -1
				}
				if j > 0 && d != step {
					d = 0
				}
				step = d
			}
			fits := func(body, exit string) bool {
				for _, st := range ev.Loop.Iters {
					if !holds(p.iterPath(ev, st, nil), body, i) {
						return false
					}
				}
				return holds(p, exit, i)
			}
			switch {
			case step == -1 && isTB(ph.Init, "len("+seq+") - 1", p.B) && k == mkBin(token.ADD, i, kInt(1), i.Typ):
				if fits(out, in) {
					return true
				}
			case step == 1 && isZero(ph.Init) && k == i:
				if fits(in, out) {
					return true
				}
			}
		}
	}
	return false
}

// cuts of a slice: L[:k] and L[k:].
func cutOf(t *Term, seq string) (lo, hi *Term, ok bool) {
	t = stripConv(t)
	if t.Op != "slice" && t.Op != "sub" || !isT(t.Args[0], seq) {
		return nil, nil, false
	}
	return t.Args[1], t.Args[2], true
}

func (c *Ctx) stateCustom(e, back, we *Engine) {
	if f := c.Func(statePkg, "StateDB.Write"); f != nil {
		n := 0
		for _, p := range c.success(c.Paths(we, f), 0) {
			c.eachIter(p, func(q *Path) {
				set := map[*Term]bool{}
				for _, ev := range q.Evs {
					switch {
					case ev.Kind == "store" && ev.Args[0].Op == "fa" && ev.Args[0].Sym == "CreateBlockHash":
						set[ev.Args[0].Args[0]] = isT(ev.Args[1], "A1.AccountBlock.Hash")
					case ev.Kind == "call" && baseName(ev.Name) == "Serialize" && strings.Contains(ev.Args[0].String(), "GetUnsavedContractMeta"):
						n++
						c.Ob(set[ev.Args[0]], "state-write", "StateDB.Write", c.P.pos(ev.Pos), "the contract is stored without the block that created it")
					}
				}
			})
		}
		c.Ob(n > 0, "state-write", "StateDB.Write", c.where(f), "no contract is stored")
	}
	if f := c.Func(statePkg, "StateDB.InsertSnapshotBlock"); f != nil {
		for _, p := range c.success(c.Paths(we, f), 0) {
			ins := false
			for _, ev := range calls(p.Evs, "QueryLog", "InsertSnapshotBlock") {
				if baseName(ev.Name) == "QueryLog" {
					c.Ob(ins, "state-write", "StateDB.InsertSnapshotBlock", c.P.pos(ev.Pos), "the snapshot's log is read before the confirmed blocks' logs are moved to it")
				} else if isT(ev.Args[0], "A0.redo") {
					ins = true
				}
			}
		}
	}
	const rule = "state-redo"
	fn := "deleteRedoLog"
	if f := c.Func(statePkg, fn); f != nil {
		const l = "mapget(A0, A1)"
		cut := 0
		for _, p := range c.all(c.Paths(e, f)) {
			var eff []*Event
			walkEvents(p.Evs, func(ev *Event) {
				if ev.Kind == "mapset" || ev.Kind == "mapdel" {
					eff = append(eff, ev)
				}
			})
			r := p.o.res[0]
			n := p.norm().Path
			ok := false
			lo, hi, sl := cutOf(r, l)
			switch {
			case len(eff) == 0:
				ok = isNilT(r) && (n.Holds("!mapok(A0, A1)") || n.Holds("len(A0) == 0") || n.Holds("len(mapget(A0, A1)) == 0") || n.Holds("A2 > mapget(A0, A1)[len(mapget(A0, A1))-1].Height"))
			case len(eff) != 1 || !isT(eff[0].Args[0], "A0") || !isT(eff[0].Args[1], "A1"):
			case eff[0].Kind == "mapdel":
				ok = isT(r, l) && n.Holds("A2 <= mapget(A0, A1)[0].Height")
			case sl && isNilT(hi):
				a, b, sl2 := cutOf(eff[0].Args[2], l)
				ok = sl2 && (isNilT(a) || isZero(a)) && b == lo && p.cutAt(lo, l, "mapget(A0, A1)[I].Height < A2", "mapget(A0, A1)[I].Height >= A2")
				cut++
			case isNilT(r) && isT(eff[0].Args[2], l) && n.Holds("A2 > mapget(A0, A1)[0].Height") && p.ranOut(l, "mapget(A0, A1)[I].Height >= A2"):
				ok = true // the loop cannot have passed the first log
			}
			c.Ob(ok, rule, fn, p.where(), "the log is cut wrongly: %s", p.Describe())
		}
		c.Ob(cut > 0, rule, fn, c.where(f), "no log is cut")
	}
	fn = "Redo.InsertSnapshotBlock"
	if f := c.Func(statePkg, fn); f != nil {
		cut := 0
		for _, p := range c.all(c.Paths(e, f)) {
			if recovered(p) || p.o.panic {
				continue
			}
			var set, ser *Event
			for _, ev := range calls(p.Evs, "Set", "Serialize") {
				if baseName(ev.Name) == "Set" {
					set = ev
				} else {
					ser = ev
				}
			}
			if set == nil || len(set.Args) != 3 {
				continue
			}
			cur := stripConv(set.Args[2])
			c.Ob(ser != nil && (stripConv(ser.Args[0]) == cur || p.o.st.load(ser.Args[0]) == cur), rule, fn, p.where(), "the stored log is not the cached one")
			loops := 0
			for _, ev := range p.Evs {
				if ev.Kind != "loop" {
					continue
				}
				var idx *Term
				for _, ph := range ev.Loop.Phis {
					if isT(ph.Init, "len(A2) - 1") {
						idx = ph.Iter
						for _, n := range ph.Next {
							if n != mkBin(token.SUB, idx, kInt(1), idx.Typ) {
								idx = nil
								break
							}
						}
					}
				}
				c.Ob(idx != nil, rule, fn, c.P.pos(ev.Pos), "the confirmed blocks are not visited from the last to the first")
				if idx == nil {
					continue
				}
				loops++
				for _, st := range ev.Loop.Iters {
					q := p.iterPath(ev, st, idx)
					n := q.norm().Path
					const l = "mapget(Current(A0.cache), A2[I].AccountAddress)"
					in, out := strings.ReplaceAll(l, "[I]", "[J]")+"[I].Height <= A2[J].Height", strings.ReplaceAll(l, "[I]", "[J]")+"[I].Height > A2[J].Height"
					var eff []*Event
					walkEvents(q.Evs, func(ev *Event) {
						if ev.Kind == "mapset" || ev.Kind == "mapdel" {
							eff = append(eff, ev)
						}
					})
					done := false
					for _, f := range n.F {
						if f.A.Op == "mapok" && f.A.Args[0] == cur && isTB(f.A.Args[1], "A2[I].AccountAddress", q.B) && f.Mask == EQ && isTrueT(f.B) {
							done = true
						}
					}
					if done || len(eff) == 0 && q.with("J", idx).ranOut(strings.ReplaceAll(l, "[I]", "[J]"), out) {
						c.Ob(len(eff) == 0, rule, fn, c.P.pos(ev.Pos), "an account's logs are cut again")
						continue
					}
					ok := len(eff) == 2
					if ok {
						k := (*Term)(nil)
						a, b := eff[0], eff[1]
						if a.Args[0] != cur {
							a, b = b, a
						}
						ok = a.Kind == "mapset" && a.Args[0] == cur && isTB(a.Args[1], "A2[I].AccountAddress", q.B) && isTB(b.Args[1], "A2[I].AccountAddress", q.B) && isT(b.Args[0], "Current(A0.cache)")
						if ok {
							s := stripConv(a.Args[2])
							ok = (s.Op == "slice" || s.Op == "sub") && isTB(s.Args[0], l, q.B) && (isNilT(s.Args[1]) || isZero(s.Args[1]))
							if ok {
								k = s.Args[2]
							}
						}
						ok = ok && q.with("J", idx).cutAt(k, strings.ReplaceAll(l, "[I]", "[J]"), in, out)
						if ok && b.Kind == "mapset" {
							s := stripConv(b.Args[2])
							ok = (s.Op == "slice" || s.Op == "sub") && isTB(s.Args[0], l, q.B) && s.Args[1] == k && isNilT(s.Args[2])
						} else if ok {
							ok = n.F.possible(mk("len", "", nil2, stripConv(a.Args[2]).Args[0]), k)&GT == 0
						}
						cut++
					}
					c.Ob(ok, rule, fn, c.P.pos(ev.Pos), "the logs are not split at the confirmed height: %s", q.Describe())
				}
			}
			c.Ob(loops == 1 || n0(p, "len(Current(A0.cache)) == 0"), rule, fn, p.where(), "the confirmed blocks' logs are not split off")
		}
		c.Ob(cut > 0, rule, fn, c.where(f), "no log is split")
	}
}

// stateRollback: which redo log each deleted segment is undone with, what the
// redo logs of rolled-back unconfirmed blocks are looked up with, and how the
// store is searched for the values before them.
func (c *Ctx) stateRollback(e, eb *Engine) {
	const rule = "state-rollback"
	fn := "StateDB.RollbackSnapshotBlocks"
	if f := c.Func(statePkg, fn); f != nil {
		n := 0
		const top = "GetLatestSnapshotBlock(A0.chain).Height"
		for _, p := range c.all(c.Paths(e, f)) {
			for _, ev := range p.Evs {
				if ev.Kind != "loop" {
					continue
				}
				for _, st := range ev.Loop.Iters {
					for _, l := range p.loopsOver("A1") {
						if l.ev != ev {
							continue
						}
						q := p.iterPath(ev, st, l.idx)
						for _, call := range calls(q.Evs, "rollbackByRedo") {
							n++
							log := stripConv(call.Args[3])
							var h *Term
							if b, ok := matchT(pat("QueryLog(A0.redo, X).R0"), log, Bind{}); ok {
								h = b["X"]
							}
							ok := false
							switch {
							case h == nil:
							case isT(h, top+" + 1"):
								ok = q.F.possible(l.idx, kInt(0))&GT == 0
							default:
								ok = isTB(h, top+" + I + 1", q.B)
								for _, ph := range ev.Loop.Phis {
									if h == mkBin(token.ADD, ph.Iter, kInt(1), ph.Iter.Typ) && isT(ph.Init, top) {
										ok = true
										for _, nx := range ph.Next {
											ok = ok && nx == h
										}
									}
									if h == ph.Iter && isT(ph.Init, top+" + 1") {
										ok = true
										for _, nx := range ph.Next {
											ok = ok && nx == mkBin(token.ADD, h, kInt(1), h.Typ)
										}
									}
								}
							}
							c.Ob(ok, rule, fn, c.P.pos(call.Pos), "segment undone with %s", trunc(log.String(), 200))
						}
					}
				}
			}
		}
		c.Ob(n > 0, rule, fn, c.where(f), "no segment is undone by its redo log")
		// without a redo log: the unconfirmed log of the last segment, if that is unconfirmed
		n = 0
		const old = "QueryLog(A0.redo, " + top + " + len(A1)).R0"
		for _, p := range c.success(c.Paths(e, f), 0) {
			_, call := lastCall(p, "recoverToSnapshot")
			if call == nil {
				continue
			}
			n++
			log := stripConv(call.Args[3])
			ok := false
			var ph *PhiInfo
			var ev *Event
			for _, x := range p.Evs {
				if x.Kind == "loop" && phiOf(x, log) != nil {
					ev, ph = x, phiOf(x, log)
				}
			}
			if ph != nil {
				for _, l := range p.loopsOver("A1") {
					if l.ev != ev {
						continue
					}
					ok = isNilT(ph.Init)
					for i, st := range ev.Loop.Iters {
						q := p.iterPath(ev, st, l.idx)
						last := n0(q, "len(A1) == I + 1") && n0(q, "A1[I].SnapshotBlock == nil")
						if nx := ph.Next[i]; nx == ph.Iter {
							ok = ok && (n0(q, "len(A1) != I + 1") || n0(q, "A1[I].SnapshotBlock != nil"))
						} else {
							ok = ok && last && isT(nx, old)
						}
					}
				}
			} else if isNilT(log) {
				ok = n0(p, "len(A1) == 0") || n0(p, "A1[len(A1)-1].SnapshotBlock != nil")
			} else {
				ok = isT(log, old) && n0(p, "A1[len(A1)-1].SnapshotBlock == nil")
			}
			c.Ob(ok, rule, fn, c.P.pos(call.Pos), "the unconfirmed blocks' log is %s", trunc(log.String(), 200))
		}
		c.Ob(n > 0, rule, fn, c.where(f), "no rollback without redo log")
	}
	fn = "StateDB.rollbackByRedo"
	if f := c.Func(statePkg, fn); f != nil {
		n := 0
		for _, p := range c.success(c.Paths(e, f), 0) {
			c.eachIter(p, func(q *Path) {
				for _, ev := range q.Evs {
					if ev.Kind != "mapset" {
						continue
					}
					for _, a := range []string{"A4", "A5"} {
						if !isT(ev.Args[0], a) {
							continue
						}
						n++
						old := "mapget(" + a + ", rkey(A3))"
						was := func(t *Term) bool {
							t = stripConv(t)
							return isT(t, old) || (t.Op == "iterm" || t.Op == "mapok") && strings.HasPrefix(joinT(t.Args), "ma("+a+", rkey") || t.Op == "mapok" && isT(t.Args[0], a)
						}
						ok := was(ev.Args[2]) || n0(q, old+" == nil") || n0(q, "!mapok("+a+", rkey(A3))")
						for _, f := range q.F {
							if was(f.A) && f.Mask == EQ && isNilT(f.B) {
								ok = true
							}
						}
						c.Ob(ok, rule, fn, c.P.pos(ev.Pos), "what an earlier segment changed is forgotten: %s; %s", ev.Args[2], q.Describe())
					}
				}
			})
		}
		c.Ob(n > 1, rule, fn, c.where(f), "the changed keys are not kept")
	}
	fn = "StateDB.recoverLatestIndexToSnapshot"
	if f := c.Func(statePkg, fn); f != nil {
		n := 0
		for _, p := range c.all(c.Paths(e, f)) {
			c.eachIter(p, func(q *Path) {
				for _, f := range q.F {
					if f.A.Op == "pcall" && baseName(f.A.Sym) == "HasPrefix" {
						n++
						c.Ob(q.isV(f.A.Args[1], "bytes 4; rkey(A4); rkey(rval(A4))") && isT(f.A.Args[0], "Key(_)"), rule, fn, q.where(), "the entry before is compared with %s", trunc(f.A.Args[1].String(), 200))
					}
				}
			})
		}
		c.Ob(n > 0, rule, fn, c.where(f), "the entry before is not compared")
	}
	fn = "StateDB.recoverBalanceToSnapshot"
	if f := c.Func(statePkg, fn); f != nil {
		const tok = "Key(_)[22:32]"
		n := [4]int{}
		for _, p := range c.success(c.Paths(eb, f), 0) {
			c.Ob(p.Holds("Error(_) == nil"), rule, fn, p.where(), "an iteration error is ignored")
			undone := func(q *Path) {
				if len(calls(q.Evs, "Seek")) > 0 {
					del := false
					for _, ev := range q.Evs {
						if ev.Kind == "mapdel" && isT(ev.Args[0], "A4") && q.isV(ev.Args[1], "bytes "+tok) {
							del = true
						}
					}
					c.Ob(del || strings.Contains(joinEvs(q.Evs), "*nil"), rule, fn, q.where(), "a key with history is taken for one without: %s", q.Describe())
				}
				if len(calls(q.Evs, "Seek")) > 0 && !q.Holds("Prev(_)") {
					c.Ob(len(calls(q.Evs, "writeBalance", "deleteBalance")) > 0, rule, fn, q.where(), "a key with no entry before is not deleted, nor are the keys after it: %s", q.Describe())
				}
			}
			undone(p)
			c.eachIter(p, func(q *Path) {
				undone(q)
				for _, ev := range q.Evs {
					if ev.Kind != "call" {
						continue
					}
					ok := true
					if strings.Contains(joinT(ev.Args), "*nil") {
						continue // a key of the wrong length: the dereference panics
					}
					switch baseName(ev.Name) {
					case "Seek":
						n[0]++
						ok = q.isV(ev.Args[1], "bytes 4; A3; "+tok+"; be64(A2 + 1)")
					case "writeBalance":
						n[1]++
						ok = q.isV(ev.Args[2], "bytes 3; A3; "+tok) && isT(ev.Args[3], "Value(_)") && q.Holds("Prev(_)") && q.sameBytes("bytes "+tok, "bytes "+tok, "bytes 4; A3; "+tok)
					case "deleteBalance":
						if q.Holds("rok(_)") {
							n[2]++
							ok = q.isV(ev.Args[2], "bytes 3; A3; rkey(A4)")
						} else {
							ok = q.isV(ev.Args[2], "bytes 3; A3; "+tok)
						}
					case "Delete":
						n[3]++
						ok = isT(ev.Args[0], "A1") && isT(ev.Args[1], "Key(_)")
					}
					c.Ob(ok, rule, fn, c.P.pos(ev.Pos), "%s%s", baseName(ev.Name), trunc(joinT(ev.Args), 400))
				}
			})
		}
		c.Ob(n[0] > 0 && n[1] > 0 && n[2] > 0 && n[3] > 0, rule, fn, c.where(f), "the balances before, and those that did not exist, are not all restored: %v", n)
	}
	fn = "StateDB.recoverStorageToSnapshot"
	if f := c.Func(statePkg, fn); f != nil {
		n := [4]int{}
		for _, p := range c.success(c.Paths(e, f), 0) {
			c.Ob(p.Holds("Error(_) == nil"), rule, fn, p.where(), "an iteration error is ignored")
			undone := func(q *Path) {
				if len(calls(q.Evs, "Seek")) > 0 {
					del := false
					for _, ev := range q.Evs {
						if ev.Kind == "mapdel" && isT(ev.Args[0], "A4") {
							del = true
						}
					}
					c.Ob(del || strings.Contains(joinEvs(q.Evs), "*nil"), rule, fn, q.where(), "a key with history is taken for one without: %s", q.Describe())
				}
				if len(calls(q.Evs, "Seek")) > 0 && !q.Holds("Prev(_)") {
					c.Ob(len(calls(q.Evs, "Put", "Delete")) > 0, rule, fn, q.where(), "a key with no entry before is not deleted, nor are the keys after it: %s", q.Describe())
				}
			}
			undone(p)
			c.eachIter(p, func(q *Path) {
				undone(q)
				for _, ev := range q.Evs {
					if ev.Kind != "call" {
						continue
					}
					ok := true
					const key = "RightPadBytes(Y, 32); Z"
					switch baseName(ev.Name) {
					case "Seek":
						n[0]++
						ok = q.isV(ev.Args[1], "bytes 2; A3; RightPadBytes(_, 32); _; be64(A2 + 1)")
					case "Put":
						n[1]++
						ok = isT(ev.Args[0], "A1") && q.isV(ev.Args[1], "bytes 1; A3; RightPadBytes(_, 32); _") && isT(ev.Args[2], "Value(_)") && n0(q, "len(Value(_)) > 0") && q.Holds("Prev(_)") && q.sameBytes("bytes Key(_)[22:55]", "bytes RightPadBytes(_, 32); _", "bytes 2; A3; RightPadBytes(_, 32); _")
					case "Delete":
						if q.Holds("rok(_)") {
							n[2]++
							ok = isT(ev.Args[0], "A1") && q.isV(ev.Args[1], "bytes 1; A3; RightPadBytes(rkey(A4), 32); len(rkey(A4))")
						} else {
							ok = isT(ev.Args[0], "A1") && q.isV(ev.Args[1], "bytes 1; A3; RightPadBytes(_, 32); _")
						}
					case "deleteHistoryKey":
						n[3]++
					}
					c.Ob(ok, rule, fn, c.P.pos(ev.Pos), "%s%s", baseName(ev.Name), trunc(joinT(ev.Args), 400))
				}
			})
		}
		c.Ob(n[0] > 0 && n[1] > 0 && n[2] > 0 && n[3] > 0, rule, fn, c.where(f), "the values before, and those that did not exist, are not all restored: %v", n)
	}
}

// sameBytes: the path compared two byte strings described by a and b, or a
// prefix described by pre, and found them equal.
func (p *Path) sameBytes(a, b, pre string) bool {
	for _, f := range p.F {
		switch {
		case strings.Contains(f.String(), "*nil"):
			return true // a key of the wrong length: the dereference panics
		case f.Mask == EQ && f.A != f.B && (p.isV(f.A, a) && p.isV(f.B, b) || p.isV(f.A, b) && p.isV(f.B, a)):
			return true
		case f.Mask == EQ && isTrueT(f.B) && f.A.Op == "pcall" && baseName(f.A.Sym) == "HasPrefix" && isT(f.A.Args[0], "Key(_)") && p.isV(f.A.Args[1], pre):
			return true
		}
	}
	return false
}

func joinEvs(evs []*Event) string {
	var sb strings.Builder
	for _, ev := range evs {
		sb.WriteString(joinT(ev.Args))
	}
	return sb.String()
}

// eachIter calls f for every way through every loop body, nested ones too.
func (c *Ctx) eachIter(p *Path, f func(*Path)) {
	for _, ev := range p.Evs {
		if ev.Kind != "loop" {
			continue
		}
		for _, st := range ev.Loop.Iters {
			q := p.iterPath(ev, st, nil)
			f(q)
			c.eachIter(q, f)
		}
	}
}

func n0(p *Path, s string) bool { return p.norm().Path.Holds(s) }

func (p *Path) with(n string, t *Term) *Path {
	q := *p
	q.B = Bind{n: t}
	return &q
}

// ranOut: a loop went through all of seq, from the back, and every element
// satisfies the condition.
func (p *Path) ranOut(seq, cond string) bool {
	for _, ev := range p.Evs {
		if ev.Kind != "loop" {
			continue
		}
		for _, ph := range ev.Loop.Phis {
			i := ph.Iter
			if _, ok := matchT(pat("len("+seq+") - 1"), ph.Init, p.B.copy()); !ok || p.F.possible(i, kInt(0))&^LT != 0 {
				continue
			}
			ok := true
			for j, st := range ev.Loop.Iters {
				q := p.iterPath(ev, st, nil)
				q.B = q.B.copy()
				q.B["I"] = i
				ok = ok && ph.Next[j] == mkBin(token.SUB, i, kInt(1), i.Typ) && q.norm().Path.Holds(cond)
			}
			if ok {
				return true
			}
		}
	}
	return false
}

// stateSpecs expands "sput P | WHO | KEY | VALUE" (the store, and the cache
// under the prefix P) and "sdel P | WHO | KEY" before kvSpecs.
func stateSpecs(text string) string {
	var out []string
	for _, ln := range strings.Split(text, "\n") {
		kw, rest, _ := strings.Cut(strings.TrimSpace(ln), " ")
		if kw != "sput" && kw != "sdel" {
			out = append(out, ln)
			continue
		}
		f := strings.Split(rest, " | ")
		who := strings.TrimSpace(f[1])
		pre := ""
		if i := strings.LastIndex(who, " "); i >= 0 {
			pre = who[:i+1]
		}
		if kw == "sput" {
			out = append(out, " put "+strings.Join(f[1:], " | "))
			out = append(out, " call "+pre+"Set(A0.cache.cache, X, Y, _) where X bytes \""+f[0]+"\"; "+f[2]+" where Y bytes "+strings.TrimPrefix(f[3], "="))
		} else {
			out = append(out, " del "+strings.Join(f[1:], " | "))
			out = append(out, " call "+pre+"Delete(A0.cache.cache, X) where X bytes \""+f[0]+"\"; "+f[2])
		}
	}
	return kvSpecs(strings.Join(out, "\n"))
}

func runC26(c *Ctx) {
	u := "ledger/chain/utils"
	e := c.Opts([]string{u, "common/types"}, "RightPadBytes")
	for _, s := range parseSpecs(stateKeySpec) {
		c.specFn(e, u, s, "state-key")
	}
	e = c.Opts([]string{statePkg, u, "common/types", "interfaces/core"}, "RightPadBytes", "NewBatch", "AddLog", "WriteAccountBlock", "WriteAccountBlockByHash", "WriteSnapshot", "canWriteVmLog", "Serialize", "parseRedoLog", "QueryLog", "Redo.InsertSnapshotBlock", "RoundCache.InsertSnapshotBlock", "NewIterator", "Get", "shouldCacheContractData", "writeHistoryKey", "deleteHistoryKey")
	we := e
	for _, s := range parseSpecs(stateSpecs(stateWriteSpec)) {
		c.specFn(e, statePkg, s, "state-write")
	}
	e = c.Opts([]string{statePkg, u}, "shouldCacheContractData", "Get", "StateDB.getValue", "BytesToAddress", "NewIterator")
	for _, s := range parseSpecs(stateHistSpec) {
		c.specFn(e, statePkg, s, "state-cache")
	}
	e = c.Opts([]string{statePkg, u}, "RightPadBytes", "shouldCacheContractData", "Get", "StateDB.getValue", "BytesToAddress", "NewIterator", "getValueInCache", "GetSnapshotViteBalanceList", "getSnapshotBalanceList", "StateDB.GetSnapshotValue", "BytesToTokenTypeId", "Deserialize", "NewStorageIterator")
	for _, s := range parseSpecs(stateReadSpec) {
		c.specFn(e, statePkg, s, "state-read")
	}
	opaque := []string{"RightPadBytes", "NewBatch", "AddLog", "NewIterator", "Get", "deleteHistoryKey", "rollbackByRedo", "recoverLatestIndexToSnapshot", "recoverLatestIndexByRedo", "rollbackAccountBlock", "recoverToSnapshot", "WriteByRedo", "QueryLog", "Redo.Rollback", "SetCurrentSnapshot", "initSnapshotValueCache", "parseRedoLog", "deleteRedoLog", "disableCache", "enableCache", "DeleteSnapshotBlocks", "rollbackRoundCache", "recoverStorageToSnapshot", "recoverBalanceToSnapshot", "RollbackSnapshot", "Store.RollbackAccountBlocks", "shouldCacheContractData", "GetSnapshotValue"}
	e = c.Opts([]string{statePkg, u, "common/types"}, opaque...)
	for _, s := range parseSpecs(stateSpecs(stateBackSpec + stateBack2Spec)) {
		c.specFn(e, statePkg, s, "state-rollback")
	}
	c.stateRollback(e, c.Opts([]string{statePkg, u, "common/types"}, append(opaque, "writeBalance", "deleteBalance")...))
	e = c.Opts([]string{statePkg}, "RedoCache.Get", "RedoCache.Delete", "RedoCache.SetCurrent", "RedoCache.AddLog", "RedoCache.Set", "Has", "GetOriginal", "CreateRedoSnapshot", "Bytes", "Deserialize", "NewBatch", "Serialize", "RedoCache.Current", "SetCurrentSnapshot", "WriteDirectly")
	for _, s := range parseSpecs(stateRedoSpec) {
		c.specFn(e, statePkg, s, "state-redo")
	}
	e2 := c.Opts([]string{statePkg, u}, "RedoCache.Current", "RedoCache.Set", "NewBatch", "Serialize", "SetCurrentSnapshot", "WriteDirectly")
	for _, s := range parseSpecs(stateRedo2Spec) {
		c.specFn(e2, statePkg, s, "state-redo")
	}
	c.stateCustom(e2, e, we)
}
