package main

import (
	"go/ast"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Prop{
		ID:    "C25",
		Title: "The ledger index and its cache always answer for exactly the ledger's blocks",
		Statement: "Inserting an account block makes it (and the sends it carries) findable by hash, by account and height, and gives a new account the next free number, under both directions of the account table. A send is entered as unreceived and on the road to its recipient; a receive takes its send off the road and records which block received it. " +
			"Confirming a snapshot block indexes it by hash and height with its place in the files, gives every account in its content its confirmation height, and gives every confirmed account block its place in the files; the confirmation height of a block is that of the first snapshot block at or above it. " +
			"Rolling blocks back removes exactly those entries: a receive whose send stays puts the send back on the road as unreceived, a send that goes takes its receive and on-road entries along, and blocks that become unconfirmed are entered again. " +
			"The cache in front of the store is written, and deleted from, together with the store and under the same keys, and every key is the documented layout of one entry kind.",
		Over:      []string{"inputs", "histories"},
		Quant:     "all account blocks, snapshot blocks, rollbacks and queries",
		Why:       "A wrong index entry only shows after a rollback, a cache eviction or a restart, as a send received twice, a send that cannot be received, or a block that is not found.",
		Files:     []string{"ledger/chain/index/insert.go", "ledger/chain/index/delete.go", "ledger/chain/index/onroad.go", "ledger/chain/index/account.go", "ledger/chain/index/account_block.go", "ledger/chain/index/snapshot_block.go", "ledger/chain/index/cache.go", "ledger/chain/index/index_db.go", "ledger/chain/utils/generate_key.go", "ledger/chain/utils/keys_index_db.go", "ledger/chain/utils/conversion.go"},
		Mech:      [][2]string{{"insertion", "ledger/chain/index/insert.go IndexDB.insertAccountBlock"}, {"rollback", "ledger/chain/index/delete.go IndexDB.deleteAccountBlocks"}, {"keys", "ledger/chain/utils/generate_key.go CreateAccountBlockHeightKey"}, {"lookups", "ledger/chain/index/account_block.go IndexDB.GetConfirmHeightByHash"}},
		Technique: "functional specification of every index write, delete and lookup decided by path-sensitive dataflow; keys and values are compared as byte strings, loop bodies element by element",
		Note:      "The store below (C18), bigcache and the LRU caches are trusted, as is the order in which the chain calls the index.",
		Run:       runC25,
	})
}

const indexPkg = "ledger/chain/index"

// kvSpecs expands the lines "put WHO | KEY | VALUE", "cput …" (store and
// cache), "del WHO | KEY" and "cdel …" of a specification.
func kvSpecs(text string) string {
	var out []string
	for _, ln := range strings.Split(text, "\n") {
		kw, rest, _ := strings.Cut(strings.TrimSpace(ln), " ")
		switch kw {
		case "put", "cput", "del", "cdel":
		default:
			out = append(out, ln)
			continue
		}
		f := strings.Split(rest, " | ")
		pre, who := "", strings.TrimSpace(f[0])
		if i := strings.LastIndex(who, " "); i >= 0 {
			pre, who = who[:i+1], who[i+1:]
		}
		key := " where X bytes " + strings.TrimSpace(f[1])
		val := ""
		if len(f) > 2 {
			v := strings.TrimSpace(f[2])
			if strings.HasPrefix(v, "=") {
				v = v[1:]
			} else if v != "empty" {
				v = "bytes " + v
			}
			val = " where Y " + v
		}
		switch kw {
		case "put":
			out = append(out, " call "+pre+"Put("+who+", X, Y)"+key+val)
		case "cput":
			out = append(out, " call "+pre+"Put("+who+", X, Y)"+key+val)
			out = append(out, " call "+pre+"Set(A0.cache, X, Y)"+key+val)
		case "del":
			out = append(out, " call "+pre+"Delete("+who+", X)"+key)
		case "cdel":
			out = append(out, " call "+pre+"Delete("+who+", X)"+key)
			out = append(out, " call "+pre+"Delete(A0.cache, X)"+key)
		}
	}
	return strings.Join(out, "\n")
}

const indexKeySpec = `
fn CreateAccountBlockHashKey
 ret 0 bytes 1; A0
fn CreateAccountBlockHeightKey
 ret 0 bytes 2; A0; be64(A1)
fn CreateReceiveKey
 ret 0 bytes 3; A0
fn CreateConfirmHeightKey
 ret 0 bytes 4; A0; be64(A1)
fn CreateOnRoadKey
 ret 0 bytes 5; A0; A1
fn CreateSnapshotBlockHashKey
 ret 0 bytes 7; A0
fn CreateSnapshotBlockHeightKey
 ret 0 bytes 8; be64(A0)
fn CreateAccountAddressKey
 ret 0 bytes 9; A0
fn CreateAccountIdKey
 ret 0 bytes 10; be64(A0)
fn CreateOnRoadAddressHeightKey
 ret 0 bytes 1; A0; A1; be64(A2); A3
fn SerializeLocation
 ret 0 bytes be64(A0.FileId); be32(A0.Offset)
fn DeserializeLocation
 ret 0.FileId rdbe64(A0)
 ret 0.Offset rdbe32(A0[8:])
fn Uint64ToBytes
 ret 0 bytes be64(A0)
fn BytesToUint64
 ret 0 rdbe64(A0)
`

const indexWriteSpec = `
def REC A2.BlockType == 4 || A2.BlockType == 5 || A2.BlockType == 7
fn IndexDB.insertAccountBlock
 err 0
 watch Put Delete Set Add Remove createAccount
 def H HasAccount(A0, A2.AccountAddress)
 def S A2.SendBlockList
 ok $H.R1 == nil
 call if !$H.R0 ? createAccount(A0, A1, &A2.AccountAddress)
 cput A1 | 1; A2.Hash | A2.AccountAddress; be64(A2.Height)
 put A1 | 2; A2.AccountAddress; be64(A2.Height) | A2.Hash
 cput if $REC && A2.BlockType != 7 ? A1 | 3; A2.FromBlockHash | A2.Hash
 del if $REC && A2.BlockType != 7 ? A1 | 5; A2.AccountAddress; A2.FromBlockHash
 cput if A2.BlockType != 4 && A2.BlockType != 5 && A2.BlockType != 7 ? A1 | 3; A2.Hash | =unreceivedFlag
 put if A2.BlockType != 4 && A2.BlockType != 5 && A2.BlockType != 7 ? A1 | 5; A2.ToAddress; A2.Hash | empty
 call if A2.BlockType == 1 ? Add(A0.sendCreateBlockHashCache, A2.Hash, 0)
 cput each $S : A1 | 3; $S[I].Hash | =unreceivedFlag
 cput each $S : A1 | 1; $S[I].Hash | A2.AccountAddress; be64(A2.Height)
 put each $S : A1 | 5; $S[I].ToAddress; $S[I].Hash | empty
 call each $S : $S[I].BlockType == 1 ? Add(A0.sendCreateBlockHashCache, $S[I].Hash, 0)

fn IndexDB.createAccount
 watch Put Delete AddUint64
 def N AddUint64(&A0.latestAccountId, 1)
 call $N
 put A1 | 9; A2 | be64($N)
 put A1 | 10; be64($N) | A2
 ret 0 $N

fn IndexDB.InsertAccountBlock
 err 0
 watch NewBatch insertAccountBlock WriteAccountBlock WriteDirectly
 def B NewBatch(A0.store)
 ordered
 ok insertAccountBlock(A0, $B, A1) == nil
 call $B
 call insertAccountBlock(A0, $B, A1)
 call WriteAccountBlock(A0.store, $B, A1)

fn IndexDB.InsertSnapshotBlock
 watch Put Delete Set Add Remove NewBatch WriteSnapshot WriteDirectly
 def B NewBatch(A0.store)
 def L mapget(A4, A2[I].Hash)
 call $B
 cput $B | 7; A1.Hash | be64(A1.Height)
 cput $B | 8; be64(A1.Height) | A1.Hash; be64(A3.FileId); be32(A3.Offset)
 put range A1.SnapshotContent : $B | 4; rkey(_); be64(rval(_).Height) | be64(A1.Height)
 cput each A2 : $B | 2; A2[I].AccountAddress; be64(A2[I].Height) | A2[I].Hash; be64($L.FileId); be32($L.Offset)
 call each A2 : A2[I].BlockType == 1 ? Add(A0.sendCreateBlockHashCache, A2[I].Hash, A1.Height)
 call last WriteSnapshot(A0.store, $B, A2)

fn IndexDB.RollbackAccountBlocks
 err 0
 watch NewBatch rollback RollbackAccountBlocks WriteDirectly RollbackSnapshot
 def B NewBatch(A0.store)
 ordered
 ok rollback(A0, $B, _) == nil
 call $B
 call rollback(A0, $B, X) where X list obj AccountBlocks = A1; SnapshotBlock = nil
 call RollbackAccountBlocks(A0.store, $B, A1)

fn IndexDB.RollbackSnapshotBlocks
 err 0
 watch NewBatch rollback RollbackAccountBlocks WriteDirectly RollbackSnapshot InsertAccountBlock
 def B NewBatch(A0.store)
 ordered
 ok rollback(A0, $B, A1) == nil
 mayfail InsertAccountBlock(A0, A2[_]) != nil
 call $B
 call rollback(A0, $B, A1)
 call RollbackSnapshot(A0.store, $B)
 call each A2 : InsertAccountBlock(A0, A2[I])

fn IndexDB.DeleteOnRoad
 watch NewBatch WriteDirectly Put Delete
 def B NewBatch(A0.store)
 call $B
 del $B | 5; A1; A2
 call last WriteDirectly(A0.store, $B)

fn IndexDB.rollback
 err 0
 watch deleteAccountBlocks deleteSnapshotBlock Put Delete Set mapset mapdel
 mayfail deleteAccountBlocks(A0, A1, A2[_].AccountBlocks, _) != nil
 call each A2 : deleteAccountBlocks(A0, A1, A2[I].AccountBlocks, _)
 call each A2 : deleteSnapshotBlock(A0, A1, A2[I].SnapshotBlock)
 del range _ : A1 | 5; rval(_).ToAddress; rkey(_)
 cdel range _ : A1 | 3; rkey(_)

fn IndexDB.deleteSnapshotBlock
 watch Put Delete Set Add Remove
 case A2 == nil
 case A2 != nil
  cdel A1 | 7; A2.Hash
  cdel A1 | 8; be64(A2.Height)
  del range A2.SnapshotContent : A1 | 4; rkey(_); be64(rval(_).Height)

fn IndexDB.deleteAccountBlocks
 err 0
 watch Put Delete Set Add Remove mapset mapdel
 def R A2[I].BlockType == 4 || A2[I].BlockType == 5 || A2[I].BlockType == 7
 def S A2[I].BlockType != 4 && A2[I].BlockType != 5 && A2[I].BlockType != 7
 def M mapok(A3, A2[I].FromBlockHash)
 def C A2[I].SendBlockList
 cdel each A2 : A1 | 1; A2[I].Hash
 cdel each A2 : A1 | 2; A2[I].AccountAddress; be64(A2[I].Height)
 call each A2 : $R && $M ? mapdel(A3, A2[I].FromBlockHash)
 cdel each A2 : $R && $M ? A1 | 3; A2[I].FromBlockHash
 put each A2 : $R && !$M ? A1 | 5; A2[I].AccountAddress; A2[I].FromBlockHash | empty
 cput each A2 : $R && !$M ? A1 | 3; A2[I].FromBlockHash | =unreceivedFlag
 cdel each A2 : $R ? each $C : A1 | 1; $C[J].Hash
 call each A2 : $R ? each $C : mapset(A3, $C[J].Hash, $C[J])
 call each A2 : $R ? each $C : $C[J].BlockType == 1 ? Remove(A0.sendCreateBlockHashCache, $C[J].Hash)
 call each A2 : $S ? mapset(A3, A2[I].Hash, A2[I])
 call each A2 : A2[I].BlockType == 1 ? Remove(A0.sendCreateBlockHashCache, A2[I].Hash)
`

const indexReadSpec = `
def V getValue(A0, X)
fn IndexDB.getValue
 err 1
 def C Get(A0.cache, A1)
 def S Get(A0.store, A1)
 ok $C.R1 == nil || $C.R1 == ErrEntryNotFound
 ok $C.R1 == nil || $S.R1 == nil
 case $C.R1 == nil
  ret 0 $C.R0
 case $C.R1 != nil
  ret 0 $S.R0

fn IndexDB.GetConfirmHeightByHash
 err 1
 def C Get(A0.sendCreateBlockHashCache, *A1)
 def H GetAddrHeightByHash(A0, A1)
 def IT NewIterator(A0.store, _)
 only NewIterator(A0.store, X) where X rng 4; $H.R0; be64($H.R1) .. 4; $H.R0; be64(18446744073709551615)
 ok $C.R1 || $H.R2 == nil
 ok $C.R1 || $H.R0 == nil || Next($IT) || Error($IT) == nil || Error($IT) == ErrNotFound
 case $C.R1
  ret 0 $C.R0
 case !$C.R1 && $H.R0 == nil
  ret 0 0
 case !$C.R1 && $H.R0 != nil && Next($IT)
  ret 0 rdbe64(Value($IT))
 case !$C.R1 && $H.R0 != nil && !Next($IT)
  ret 0 0

fn IndexDB.queryLatestAccountId
 err 1
 def IT NewIterator(A0.store, _)
 only NewIterator(A0.store, X) where X rng 10; be64(1) .. 10; be64(18446744073709551615)
 ok Error($IT) == nil
 case Last($IT)
  ret 0 rdbe64(Key($IT)[1:])
 case !Last($IT)
  ret 0 0

fn IndexDB.GetLatestAccountBlock
 err 2
 def IT NewIterator(A0.store, _)
 only NewIterator(A0.store, X) where X rng 2; A1; be64(1) .. 2; A1; be64(18446744073709551615)
 ok Last($IT) || Error($IT) == nil || Error($IT) == ErrNotFound
 case !Last($IT)
  ret 0 0
  ret 1 nil
 case Last($IT) && len(Value($IT)) > 32
  ret 0 rdbe64(Key($IT)[22:])
  ret 1 DeserializeLocation(Value($IT)[32:])
 case Last($IT) && len(Value($IT)) <= 32
  ret 0 rdbe64(Key($IT)[22:])
  ret 1 nil

fn IndexDB.GetLatestSnapshotBlockLocation
 err 1
 def IT NewIterator(A0.store, _)
 only NewIterator(A0.store, X) where X rng 8; be64(1) .. 8; be64(18446744073709551615)
 ok Error($IT) == nil || Error($IT) == ErrNotFound
 case !Last($IT)
  ret 0 nil
 case Last($IT)
  ret 0 DeserializeLocation(Value($IT)[32:])

fn IndexDB.InitAccountId
 def Q queryLatestAccountId(A0)
 skip panic
 case $Q.R1 == nil
  post A0.latestAccountId = $Q.R0

fn IndexDB.LoadRange
 err 0
 watch dyn
 def IT NewIterator(A0.store, _)
 def G GetAddrHeightByHash(A0, _)
 def HB BytesToHash(Key(_)[len(Key(_))-32:])
 only GetAddrHeightByHash(A0, X) where X $HB.R0
 only BytesPrefix(X) where X bytes 5; A1[_]
 mayfail Error($IT) != nil
 mayfail $HB.R1 != nil
 mayfail $G.R2 != nil
 mayfail dyn(A2, ___) != nil
 call each A1 : scan $IT : $G.R0 != nil ? dyn(A2, *$G.R0, A1[I], X) where X obj Height = $G.R1; Hash = $HB.R0

fn IndexDB.HasAccount
 err 1
 watch Add Remove
 only Has(A0.store, X) where X bytes 9; A1
 def C Get(A0.accountCache, A1)
 def H Has(A0.store, _)
 ok $C.R1 || $H.R1 == nil
 case $C.R1
  ret 0 true
 case !$C.R1 && $H.R0
  ret 0 $H.R0
  call Add(A0.accountCache, A1, nil)
 case !$C.R1 && !$H.R0
  ret 0 $H.R0

fn IndexDB.GetAccountId
 err 1
 only Get(A0.store, X) where X bytes 9; A1
 def G Get(A0.store, _)
 ok $G.R1 == nil
 case len($G.R0) == 0
  ret 0 0
 case len($G.R0) != 0
  ret 0 rdbe64($G.R0)

fn IndexDB.GetAccountAddress
 err 1
 only Get(A0.store, X) where X bytes 10; be64(A1)
 def G Get(A0.store, _)
 ok $G.R1 == nil
 ok len($G.R0) == 0 || BytesToAddress($G.R0).R1 == nil
 case len($G.R0) == 0
  ret 0 nil
 case len($G.R0) != 0
  ret 0 BytesToAddress($G.R0).R0

fn IndexDB.IsAccountBlockExisted
 err 1
 only Has(A0.store, X) where X bytes 1; A1
 def H Has(A0.store, _)
 ok $H.R1 == nil
 ret 0 $H.R0
fn IndexDB.IsSnapshotBlockExisted
 err 1
 only Has(A0.store, X) where X bytes 7; A1
 def H Has(A0.store, _)
 ok $H.R1 == nil
 ret 0 $H.R0

fn IndexDB.GetAccountBlockLocationByHash
 err 1
 def H GetAddrHeightByHash(A0, A1)
 def L GetAccountBlockLocation(A0, $H.R0, $H.R1)
 ok $H.R2 == nil
 ok $H.R0 == nil || $L.R1 == nil
 case $H.R0 == nil
  ret 0 nil
 case $H.R0 != nil
  ret 0 $L.R0

fn IndexDB.GetAccountBlockLocation
 err 1
 only getValue(A0, X) where X bytes 2; A1; be64(A2)
 def G getValue(A0, _)
 ok $G.R1 == nil
 case len($G.R0) <= 32
  ret 0 nil
 case len($G.R0) > 32
  ret 0 DeserializeLocation($G.R0[32:])

fn IndexDB.GetAccountBlockLocationByHeight
 err 2
 only getValue(A0, X) where X bytes 2; A1; be64(A2)
 def G getValue(A0, _)
 ok $G.R1 == nil
 ok len($G.R0) <= 32 || BytesToHash($G.R0[:32]).R1 == nil
 case len($G.R0) <= 32
  ret 0 nil
  ret 1 nil
 case len($G.R0) > 32
  ret 0 BytesToHash($G.R0[:32]).R0
  ret 1 DeserializeLocation($G.R0[32:])

fn IndexDB.GetAccountBlockLocationListByHeight
 err 2
 watch GetAccountBlockLocationListByRange
 def N A2 - A3 + 1
 ok GetAccountBlockLocationListByRange(___).R2 == nil
 case A2 > A3
  call GetAccountBlockLocationListByRange(A0, A1, $N, A2)
  ret 0 GetAccountBlockLocationListByRange(A0, A1, $N, A2).R0
  ret 1 GetAccountBlockLocationListByRange(A0, A1, $N, A2).R1
 case A2 <= A3
  call GetAccountBlockLocationListByRange(A0, A1, 1, A2)
  ret 0 GetAccountBlockLocationListByRange(A0, A1, 1, A2).R0
  ret 1 GetAccountBlockLocationListByRange(A0, A1, 1, A2).R1

fn IndexDB.GetAccountBlockLocationList
 err 3
 def H GetAddrHeightByHash(A0, A1)
 def L GetAccountBlockLocationListByHeight(A0, *$H.R0, $H.R1, A2)
 ok A2 == 0 || $H.R2 == nil
 ok A2 == 0 || $H.R0 == nil || $L.R2 == nil
 case A2 == 0
  ret 0 nil
  ret 1 nil
 case A2 != 0 && $H.R0 == nil
  ret 0 nil
  ret 1 nil
 case A2 != 0 && $H.R0 != nil
  ret 0 $H.R0
  ret 1 $L.R0
  ret 2 $L.R1

fn IndexDB.GetReceivedBySend
 err 1
 only getValue(A0, X) where X bytes 3; A1
 def G getValue(A0, _)
 ok $G.R1 == nil
 ok len($G.R0) != 32 || BytesToHash($G.R0).R1 == nil
 case len($G.R0) != 32
  ret 0 nil
 case len($G.R0) == 32
  ret 0 BytesToHash($G.R0).R0

fn IndexDB.IsReceived
 err 1
 only getValue(A0, X) where X bytes 3; A1
 def G getValue(A0, _)
 ok $G.R1 == nil
 ret 0 len($G.R0) == 32

fn IndexDB.GetAddrHeightByHash
 err 2
 only getValue(A0, X) where X bytes 1; A1
 def G getValue(A0, _)
 ok $G.R1 == nil
 ok len($G.R0) == 0 || BytesToAddress($G.R0[:21]).R1 == nil
 case len($G.R0) == 0
  ret 0 nil
  ret 1 0
 case len($G.R0) != 0
  ret 0 BytesToAddress($G.R0[:21]).R0
  ret 1 rdbe64($G.R0[21:])

fn IndexDB.GetSnapshotBlockHeight
 err 1
 only getValue(A0, X) where X bytes 7; A1
 def G getValue(A0, _)
 ok $G.R1 == nil
 case len($G.R0) == 0
  ret 0 0
 case len($G.R0) != 0
  ret 0 rdbe64($G.R0)

fn IndexDB.GetSnapshotBlockLocationByHash
 err 1
 only getValue(A0, X) where X bytes 7; A1
 def G getValue(A0, _)
 def L GetSnapshotBlockLocation(A0, rdbe64($G.R0))
 ok $G.R1 == nil || $G.R1 == ErrNotFound
 ok $G.R1 != nil || len($G.R0) == 0 || $L.R1 == nil
 case $G.R1 == ErrNotFound && $G.R1 != nil
  ret 0 nil
 case $G.R1 == nil && len($G.R0) == 0
  ret 0 nil
 case $G.R1 == nil && len($G.R0) != 0
  ret 0 $L.R0

fn IndexDB.GetSnapshotBlockLocation
 err 1
 only getValue(A0, X) where X bytes 8; be64(A1)
 def G getValue(A0, _)
 ok $G.R1 == nil
 case len($G.R0) == 0
  ret 0 nil
 case len($G.R0) != 0
  ret 0 DeserializeLocation($G.R0[32:])

fn IndexDB.GetSnapshotBlockByHeight
 err 2
 only getValue(A0, X) where X bytes 8; be64(A1)
 def G getValue(A0, _)
 ok $G.R1 == nil
 ok len($G.R0) == 0 || BytesToHash($G.R0[:32]).R1 == nil
 case len($G.R0) == 0
  ret 0 nil
  ret 1 nil
 case len($G.R0) != 0
  ret 0 BytesToHash($G.R0[:32]).R0
  ret 1 DeserializeLocation($G.R0[32:])

fn IndexDB.GetSnapshotBlockLocationList
 err 2
 only getValue(A0, X) where X bytes 7; A1
 def G getValue(A0, _)
 def L GetSnapshotBlockLocationListByHeight(A0, rdbe64($G.R0), A2, A3)
 ok A3 == 0 || $G.R1 == nil
 ok A3 == 0 || len($G.R0) == 0 || $L.R2 == nil
 case A3 == 0
  ret 0 nil
 case A3 != 0 && len($G.R0) == 0
  ret 0 nil
 case A3 != 0 && len($G.R0) != 0
  ret 0 $L.R0
  ret 1 $L.R1

fn IndexDB.GetSnapshotBlockLocationListByHeight
 err 2
 watch getSnapshotBlockLocations
 ok A3 == 0 || getSnapshotBlockLocations(___).R2 == nil
 case A3 == 0
  ret 0 nil
 case A3 != 0 && A2
  call getSnapshotBlockLocations(A0, A1, A1 + A3 - 1)
  ret 0 getSnapshotBlockLocations(___).R0
  ret 1 getSnapshotBlockLocations(___).R1
 case A3 != 0 && !A2 && A1 <= A3
  call getSnapshotBlockLocations(A0, 1, A1)
  ret 0 getSnapshotBlockLocations(___).R0
  ret 1 getSnapshotBlockLocations(___).R1
 case A3 != 0 && !A2 && A1 > A3
  call getSnapshotBlockLocations(A0, A1 - A3 + 1, A1)
  ret 0 getSnapshotBlockLocations(___).R0
  ret 1 getSnapshotBlockLocations(___).R1
`

func runC25(c *Ctx) {
	u := "ledger/chain/utils"
	e := c.Opts([]string{u, "common/types", "ledger/chain/file_manager"})
	for _, s := range parseSpecs(indexKeySpec) {
		c.specFn(e, u, s, "index-key")
	}
	e = c.Opts([]string{indexPkg, u, "common/types", "ledger/chain/file_manager", "interfaces/core"}, "HasAccount", "createAccount", "InsertAccountBlock", "insertAccountBlock", "NewBatch", "IndexDB.rollback", "deleteAccountBlocks", "deleteSnapshotBlock", "NewIterator", "WriteSnapshot", "WriteDirectly", "WriteAccountBlock", "Store.RollbackAccountBlocks", "RollbackSnapshot")
	for _, s := range parseSpecs(kvSpecs(indexWriteSpec)) {
		c.specFn(e, indexPkg, s, "index-write")
	}
	e = c.Opts([]string{indexPkg, u}, "HasAccount", "NewIterator", "Get", "Has", "GetAddrHeightByHash", "GetAccountBlockLocation", "GetAccountBlockLocationListByRange", "GetAccountBlockLocationListByHeight", "GetSnapshotBlockLocation", "getSnapshotBlockLocations", "GetSnapshotBlockLocationListByHeight", "getSnapshotBlockLocationsByCache", "DeserializeLocation", "IndexDB.getValue", "BytesToHash", "BytesToAddress", "queryLatestAccountId")
	for _, s := range parseSpecs(indexReadSpec) {
		c.specFn(e, indexPkg, s, "index-read")
	}
	c.indexCustom(e)
}

func (c *Ctx) indexCustom(e *Engine) {
	const rule = "index-list"
	fn := "IndexDB.GetAccountBlockLocationListByRange"
	if f := c.Func(indexPkg, fn); f != nil {
		n := 0
		it := "NewIterator(A0.store, X) where X rng 2; A1; be64(A2) .. 2; A1; be64(A3 + 1)"
		for _, p := range c.success(c.Paths(e, f), 2) {
			r := p.o.res
			if p.Holds("A3 < A2") {
				c.Ob(len(p.segs(r[0])) == 0, rule, fn, p.where(), "an empty range has blocks")
				continue
			}
			n++
			c.Ob(p.Holds("A2 <= A3"), rule, fn, p.where(), "%s", p.Describe())
			w := p.scanList(r[0], "empty", it, true, [][2]string{{"len(Value(_)) > 32", "DeserializeLocation(Value(_)[32:])"}, {"", "nil"}})
			c.Ob(w == "", rule, fn, p.where(), "%s", w)
			lo, hi := pairOf(r[1])
			c.Ob(lo != nil && p.extremum(lo, "<", "A3", "rdbe64(Key(_)[22:])") && p.extremum(hi, ">", "A2", "rdbe64(Key(_)[22:])"), rule, fn, p.where(), "the heights are %s", trunc(r[1].String(), 300))
			c.Ob(p.Holds("Error(_) == nil") || p.Holds("Error(_) == ErrNotFound"), rule, fn, p.where(), "an iteration error is ignored")
		}
		c.Ob(n > 0, rule, fn, c.where(f), "no list is returned")
	}
	fn = "IndexDB.getSnapshotBlockLocations"
	if f := c.Func(indexPkg, fn); f != nil {
		n := 0
		cache := "getSnapshotBlockLocationsByCache(A0, A2, A1)"
		for _, p := range c.success(c.Paths(e, f), 2) {
			r := p.o.res
			c.Ob(p.Holds(cache+".R2 == nil"), rule, fn, p.where(), "a cache error is ignored")
			end, lim := "A2", "A2 + 1"
			if p.Holds(cache + ".R1[1] <= A2") {
				end, lim = cache+".R1[1] - 1", cache+".R1[1]"
			} else {
				c.Ob(p.Holds(cache+".R1[1] > A2"), rule, fn, p.where(), "not decided whether the cache has blocks")
			}
			scanned := false
			for _, ev := range p.Evs {
				x, _ := p.scanOf(ev)
				scanned = scanned || x != nil
			}
			hi, lo := pairOf(r[1])
			if !scanned {
				n |= 1
				c.Ob(p.Holds(end+" < A1"), rule, fn, p.where(), "blocks below the cached ones are left out: %s", p.Describe())
				c.Ob(p.isV(r[0], cache+".R0") && hi != nil && p.isV(lo, cache+".R1[1]") && p.isV(hi, cache+".R1[0]"), rule, fn, p.where(), "the result is %s", trunc(joinT(r), 400))
				continue
			}
			n |= 2
			w := p.scanList(r[0], cache+".R0", "NewIterator(A0.store, X) where X rng 8; be64(A1) .. 8; be64("+lim+")", true, [][2]string{{"", "DeserializeLocation(Value(_)[32:])"}})
			c.Ob(w == "", rule, fn, p.where(), "%s", w)
			c.Ob(hi != nil && p.extremum(lo, "<", cache+".R1[1]", "rdbe64(Key(_)[1:])") && p.extremum(hi, ">", cache+".R1[0]", "rdbe64(Key(_)[1:])"), rule, fn, p.where(), "the heights are %s", trunc(r[1].String(), 300))
			c.Ob(p.Holds("Error(_) == nil") || p.Holds("Error(_) == ErrNotFound"), rule, fn, p.where(), "an iteration error is ignored")
		}
		c.Ob(n == 3, rule, fn, c.where(f), "the list does not come from cache and store")
	}
	fn = "IndexDB.getSnapshotBlockLocationsByCache"
	if f := c.Func(indexPkg, fn); f != nil {
		n := 0
		for _, p := range c.success(c.Paths(e, f), 2) {
			r := p.o.res
			list := stripConv(r[0])
			hi, lo := pairOf(r[1])
			good := false
			for _, ev := range p.Evs {
				if ev.Kind != "loop" || phiOf(ev, list) == nil {
					continue
				}
				for _, h := range ev.Loop.Phis {
					// h = end, end-1, …, start
					if !isT(h.Init, "A1") {
						continue
					}
					ok := len(p.segs(phiOf(ev, list).Init)) == 0
					for i, st := range ev.Loop.Iters {
						q := p.iterPath(ev, st, h.Iter)
						val := "Get(A0.cache, _).R0"
						key := false
						walkEvents(q.Evs, func(x *Event) {
							if x.Kind == "call" && baseName(x.Name) == "Get" {
								key = q.callIs(x, "Get(A0.cache, X) where X bytes 8; be64(I)")
								ok = ok && key
							}
						})
						nx := stripConv(phiOf(ev, list).Next[i])
						ok = ok && key && isTB(h.Next[i], "I - 1", q.B) && q.Holds("Get(A0.cache, _).R1 == nil") && q.F.possible(h.Iter, param(2, nil))&LT == 0
						ok = ok && nx.Op == "append" && len(nx.Args) == 2 && nx.Args[0] == list && q.isV(nx.Args[1], "DeserializeLocation("+val+"[32:])")
					}
					// left because the range is done or the cache has no more
					done := p.F.possible(h.Iter, param(2, nil)) == LT || p.Holds("Get(A0.cache, _).R1 == ErrEntryNotFound")
					ok = ok && done && len(ev.Loop.Iters) > 0
					lim := true
					for k, t := range []*Term{lo, hi} {
						ph := phiOf(ev, t)
						if ph == nil {
							lim = false
							continue
						}
						lim = lim && isT(ph.Init, []string{"A1 + 1", "A2 - 1"}[k])
						for i, st := range ev.Loop.Iters {
							m := st.facts.possible(h.Iter, ph.Iter)
							nx := stripConv(ph.Next[i])
							lim = lim && (nx == h.Iter && m&[]int{GT, LT}[k] == 0 || nx == ph.Iter && m&[]int{LT, GT}[k] == 0)
						}
					}
					good = good || ok && lim
				}
			}
			n++
			c.Ob(good, rule, fn, p.where(), "the list is not that of the cached heights from the top down: %s", trunc(joinT(r), 300))
		}
		c.Ob(n > 0, rule, fn, c.where(f), "no list is returned")
	}
	fn = "IndexDB.GetRangeSnapshotBlockLocations"
	if f := c.Func(indexPkg, fn); f != nil {
		n := 0
		for _, p := range c.success(c.Paths(e, f), 2) {
			var vals []*Term
			ok := true
			walkEvents(p.Evs, func(x *Event) {
				switch {
				case x.Kind != "call":
				case baseName(x.Name) == "getValue":
					vals = append(vals, x.Res)
					ok = ok && (p.callIs(x, "getValue(A0, X) where X bytes 7; A1") || p.callIs(x, "getValue(A0, X) where X bytes 7; A2"))
				case baseName(x.Name) == "getSnapshotBlockLocations":
					n++
					ok = ok && len(x.Args) == 3
					for k := 1; ok && k <= 2; k++ {
						h := stripConv(x.Args[k])
						ok = h.Op == "rdbe64"
						if ok {
							g := stripConv(h.Args[0])
							ok = p.F.possible(mk("len", "", nil, g), kInt(0)) == GT && g.Op == "ext" && g.Sym == "0" && g.Args[0].Op == "call" && p.isV(g.Args[0], "getValue(A0, X) where X bytes 7; A"+itoa(k))
						}
					}
				}
			})
			c.Ob(ok, rule, fn, p.where(), "the range is not that of the two blocks: %s", p.Describe())
			if len(calls(p.Evs, "getSnapshotBlockLocations")) == 0 {
				c.Ob(p.Holds("len(getValue(A0, _).R0) == 0"), rule, fn, p.where(), "known blocks have no range: %s", p.Describe())
			} else {
				c.Ob(p.isV(p.o.res[0], "getSnapshotBlockLocations(___).R0"), rule, fn, p.where(), "the result is %v", p.o.res[0])
			}
		}
		c.Ob(n > 0, rule, fn, c.where(f), "no range is looked up")
	}
	// on-road blocks
	key := "Key(_)"
	hash := "BytesToHash(" + key + "[len(" + key + ")-32:]).R0"
	fn = "IndexDB.LoadAllHash"
	if f := c.Func(indexPkg, fn); f != nil {
		n := 0
		for _, p := range c.success(c.Paths(e, f), 1) {
			m := stripConv(p.o.res[0])
			for _, ev := range p.Evs {
				it, _ := p.scanOf(ev)
				if it == nil {
					continue
				}
				n++
				c.Ob(p.isV(it, "NewIterator(A0.store, BytesPrefix(X)) where X bytes 5"), rule, fn, p.where(), "the entries are those of %v", it)
				for _, st := range ev.Loop.Iters {
					q := p.iterPath(ev, st, nil)
					var last *Event
					ok := true
					for _, x := range q.Evs {
						if x.Kind != "mapset" {
							continue
						}
						ok = ok && x.Args[0] == m && (q.isV(x.Args[1], "BytesToAddress("+key+"[1:len("+key+")-32]).R0") || q.isV(x.Args[1], "BytesToAddress("+key+"[1:22]).R0"))
						if last == nil && len(q.segs(x.Args[2])) == 0 {
							// a new account's empty list
							ok = ok && q.Holds("!mapok(_, _)")
							continue
						}
						ok = ok && last == nil
						last = x
					}
					if ok && last != nil {
						v := stripConv(last.Args[2])
						ok = v.Op == "append" && len(v.Args) == 2 && q.isV(v.Args[1], hash)
						if ok {
							was := stripConv(v.Args[0])
							ok = was.Op == "iterm" && was.Args[0].Op == "ma" && was.Args[0].Args[0] == m && was.Args[0].Args[1] == last.Args[1] || q.Holds("!mapok(_, _)") && len(q.segs(was)) == 0
						}
					}
					c.Ob(ok && last != nil, rule, fn, c.P.pos(ev.Pos), "an on-road entry is not listed under its address: %s", q.Describe())
				}
			}
			c.Ob(p.Holds("Error(_) == nil"), rule, fn, p.where(), "an iteration error is ignored")
		}
		c.Ob(n > 0, rule, fn, c.where(f), "the on-road entries are not visited")
	}
	fn = "IndexDB.GetOnRoadHashList"
	if f := c.Func(indexPkg, fn); f != nil {
		done, stop := 0, 0
		for _, p := range c.success(c.Paths(e, f), 1) {
			list := stripConv(p.o.res[0])
			good := false
			for _, ev := range p.Evs {
				if ev.Kind != "loop" {
					continue
				}
				ph := phiOf(ev, list)
				if ph == nil {
					continue
				}
				for _, ix := range ev.Loop.Phis {
					if !isZero(ix.Init) || ix.Iter == ph.Iter {
						continue
					}
					ok := len(p.segs(ph.Init)) == 0 && len(ev.Loop.Iters) > 0
					from, to := pat("A2 * A3"), pat("A3 * (A2 + 1)")
					cmp := func(fs Facts, pt ast.Expr) int {
						for _, f := range fs {
							a, b, m := f.A, f.B, f.Mask
							if b == ix.Iter {
								a, b, m = b, a, flip(m)
							}
							if a == ix.Iter {
								if _, ok := matchT(pt, b, Bind{}); ok {
									return m
								}
							}
						}
						return LT | EQ | GT
					}
					for i, st := range ev.Loop.Iters {
						q := p.iterPath(ev, st, ix.Iter)
						nx := stripConv(ph.Next[i])
						ok = ok && isTB(ix.Next[i], "I + 1", q.B) && q.Holds("Next(_)")
						if nx == list {
							ok = ok && cmp(st.facts, from) == LT
						} else {
							ok = ok && cmp(st.facts, from)&LT == 0 && cmp(st.facts, to) == LT && nx.Op == "append" && len(nx.Args) == 2 && nx.Args[0] == list && q.isV(nx.Args[1], hash)
						}
					}
					end := p.Holds("!Next(_)")
					full := cmp(p.F, to)&LT == 0
					if end {
						done++
					}
					if full {
						stop++
					}
					good = good || ok && (end || full)
				}
			}
			for _, ev := range calls(p.Evs, "NewIterator") {
				good = good && p.callIs(ev, "NewIterator(A0.store, BytesPrefix(X)) where X bytes 5; A1")
			}
			c.Ob(good && p.Holds("Error(_) == nil"), rule, fn, p.where(), "the page is not entries [page*size, (page+1)*size) of the address: %s", p.Describe())
		}
		c.Ob(done > 0 && stop > 0, rule, fn, c.where(f), "the page is not bounded")
	}
	fn = "IndexDB.IterateAccounts"
	if f := c.Func(indexPkg, fn); f != nil {
		n := 0
		for _, p := range c.all(c.Paths(e, f)) {
			walkEvents(p.Evs, func(x *Event) {
				if x.Kind == "call" && x.Name == "dyn" {
					n++
					b := "BytesToAddress(Value(NewIterator(_, _)))"
					c.Ob(p.callIs(x, "dyn(A1, "+b+".R0, rdbe64(Key(NewIterator(_, _))[1:]), "+b+".R1)"), rule, fn, c.P.pos(x.Pos), "an account is reported as %s", trunc(joinT(x.Args), 300))
				}
				if x.Kind == "call" && baseName(x.Name) == "NewIterator" {
					c.Ob(p.callIs(x, "NewIterator(A0.store, BytesPrefix(X)) where X bytes 10"), rule, fn, c.P.pos(x.Pos), "the accounts are read from %s", trunc(joinT(x.Args), 300))
				}
			})
			// left when done, when the caller has enough or on an error
			c.Ob(p.Holds("!Next(_)") || p.Holds("!dyn(A1, ___)") || p.Holds("BytesToAddress(_).R1 != nil"), rule, fn, p.where(), "accounts are left out: %s", p.Describe())
		}
		c.Ob(n > 0, rule, fn, c.where(f), "no account is reported")
	}
	// a placeholder is never taken for a receiving block
	g, where := c.globalInit(indexPkg, "unreceivedFlag")
	size := int64(-1)
	if sl, ok := g.(*ssa.Slice); ok {
		if n, ok := arrayLen(pointee(sl.X.Type())); ok {
			size = n
		}
	}
	c.Ob(size > 0 && size != 32, rule, "unreceivedFlag", where, "the unreceived placeholder has %d bytes", size)
	// rollback: sends without receive are collected over all deleted segments
	fn = "IndexDB.rollback"
	w := c.Opts([]string{indexPkg}, "deleteAccountBlocks", "deleteSnapshotBlock", "deleteOnRoad", "deleteReceiveInfo")
	if f := c.Func(indexPkg, fn); f != nil {
		for _, p := range c.success(c.Paths(w, f), 0) {
			var m *Term
			ok := true
			seen := 0
			walkEvents(p.Evs, func(x *Event) {
				if x.Kind == "call" && baseName(x.Name) == "deleteAccountBlocks" {
					seen++
					ok = ok && len(x.Args) == 4 && (m == nil || m == x.Args[3])
					if len(x.Args) == 4 {
						m = x.Args[3]
					}
				}
			})
			late := false
			for _, ev := range p.Evs {
				if r := p.ranged(ev); r != nil {
					ok = ok && r == m
					late = true
				} else if late {
					walkEvents([]*Event{ev}, func(x *Event) {
						ok = ok && !(x.Kind == "call" && baseName(x.Name) == "deleteAccountBlocks")
					})
				}
			}
			c.Ob(ok && late && seen > 0 && m != nil && strings.HasPrefix(m.Op, "mkmap"), rule, fn, p.where(), "the open sends of a rollback are not collected in one map")
		}
	}
	// the next account number is read again after recovery
	if f := c.Func(indexPkg, "NewIndexDB"); f != nil {
		n := c.Opts([]string{indexPkg}, "InitAccountId", "newCache", "NewStore")
		for _, p := range c.success(c.Paths(n, f), 1) {
			reg := false
			for _, ev := range calls(p.Evs, "RegisterAfterRecover") {
				reg = reg || len(ev.Args) == 2 && strings.Contains(ev.Args[1].String(), "InitAccountId")
			}
			c.Ob(reg && len(calls(p.Evs, "InitAccountId")) > 0 && p.Holds("newCache(_) == nil"), rule, "NewIndexDB", p.where(), "the account number is not initialised")
		}
	}
	c.Floor(rule, 12)
}

// pairOf: the two elements of an array value.
func pairOf(t *Term) (a, b *Term) {
	t = stripConv(t)
	if t.Op == "updi" && t.Args[0].Op == "updi" {
		if isZero(t.Args[0].Args[1]) && !isZero(t.Args[1]) {
			return t.Args[0].Args[2], t.Args[2]
		}
		if isZero(t.Args[1]) && !isZero(t.Args[0].Args[1]) {
			return t.Args[2], t.Args[0].Args[2]
		}
	}
	return nil, nil
}
