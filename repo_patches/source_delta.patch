From 1367291ef947b5bcacabe2989af815348e55fc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:00 +0000
Subject: [PATCH 01/26] fix: AccountBlock.Copy must not duplicate the send
 block list

Copy started from a shallow copy and appended the copied send blocks to the
original list, so the copy had every send block twice (the original pointers
first).
---
 interfaces/core/account_block.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/interfaces/core/account_block.go b/interfaces/core/account_block.go
index 93b08a9..b521284 100644
--- a/interfaces/core/account_block.go
+++ b/interfaces/core/account_block.go
@@ -97,8 +97,11 @@ func (ab *AccountBlock) Copy() *AccountBlock {
 		copy(newAb.Signature, ab.Signature)
 	}
 
-	for _, sendBlock := range ab.SendBlockList {
-		newAb.SendBlockList = append(newAb.SendBlockList, sendBlock.Copy())
+	if ab.SendBlockList != nil {
+		newAb.SendBlockList = make([]*AccountBlock, 0, len(ab.SendBlockList))
+		for _, sendBlock := range ab.SendBlockList {
+			newAb.SendBlockList = append(newAb.SendBlockList, sendBlock.Copy())
+		}
 	}
 	return &newAb
 }
-- 
2.43.0


From 134911f99b0160da7aa9432dfe093af090227c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:00 +0000
Subject: [PATCH 02/26] fix: AccountBlock.Deserialize must report malformed
 fields

The error of DeProto was dropped, so a stored or received block with a
malformed address, hash or token id was returned half decoded.
---
 interfaces/core/account_block.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/interfaces/core/account_block.go b/interfaces/core/account_block.go
index b521284..17114a9 100644
--- a/interfaces/core/account_block.go
+++ b/interfaces/core/account_block.go
@@ -414,8 +414,7 @@ func (ab *AccountBlock) Deserialize(buf []byte) error {
 	if err := proto.Unmarshal(buf, pb); err != nil {
 		return err
 	}
-	ab.DeProto(pb)
-	return nil
+	return ab.DeProto(pb)
 }
 
 func (ab *AccountBlock) IsSendBlock() bool {
-- 
2.43.0


From 9a3cefc17dab2f6bc1ff49012ef42e59965c2642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:41 +0000
Subject: [PATCH 03/26] fix: cancel the prepared flush when the redo log cannot
 be written

flush returned after a failed writeRedoLog without CancelPrepare: the stores
kept their flushing batch and the next flush panicked in Store.Prepare.
---
 ledger/chain/flusher/flusher.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ledger/chain/flusher/flusher.go b/ledger/chain/flusher/flusher.go
index a57d547..a51d4aa 100644
--- a/ledger/chain/flusher/flusher.go
+++ b/ledger/chain/flusher/flusher.go
@@ -217,6 +217,8 @@ func (flusher *Flusher) flush() {
 	// write redo log
 	//flusher.log.Info("start write redo log")
 	if err := flusher.writeRedoLog(); err != nil {
+		// nothing has been committed, take back what was prepared
+		flusher.cancelPrepare()
 		return
 	}
 	//flusher.log.Info("finish writing redo log")
@@ -456,6 +458,16 @@ func (flusher *Flusher) syncRedoLog() bool {
 	return false
 }
 
+// cancel prepare, lock write
+func (flusher *Flusher) cancelPrepare() {
+	flusher.mu.Lock()
+	defer flusher.mu.Unlock()
+
+	for _, store := range flusher.storeList {
+		store.CancelPrepare()
+	}
+}
+
 func (flusher *Flusher) commit() error {
 	var commitErr error
 	flusher.commitWg.Add(len(flusher.storeList))
-- 
2.43.0


From cdc75ba24ec2dde727382ac85e4fbf010499b54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:55 +0000
Subject: [PATCH 04/26] fix: OffChainReader reports a recovered panic as an
 error

The deferred function shadowed the named result, so a panic was returned as (nil, nil).
---
 vm/vm.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vm/vm.go b/vm/vm.go
index 999e8d0..5a9c5b1 100644
--- a/vm/vm.go
+++ b/vm/vm.go
@@ -889,10 +889,10 @@ func checkDepth(db interfaces.VmDb, sendBlock *ledger.AccountBlock) bool {
 // OffChainReader read contract storage without tx
 func (vm *VM) OffChainReader(db interfaces.VmDb, code []byte, data []byte) (result []byte, err error) {
 	defer func() {
-		if err := recover(); err != nil {
+		if panicErr := recover(); panicErr != nil {
 			debug.PrintStack()
 			nodeConfig.log.Error("offchain reader panic",
-				"err", err,
+				"err", panicErr,
 				"addr", db.Address(),
 				"code", hex.EncodeToString(code),
 				"data", hex.EncodeToString(data))
-- 
2.43.0


From c9406761f0d43172551263722efa1cc74c864879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:55 +0000
Subject: [PATCH 05/26] fix: CalcReward reports a recovered panic as
 ErrChainForked

The deferred function shadowed the named result, so a panic was returned as
a zero reward without error.
---
 vm/contracts/contracts_governance.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vm/contracts/contracts_governance.go b/vm/contracts/contracts_governance.go
index 381aca8..b242412 100644
--- a/vm/contracts/contracts_governance.go
+++ b/vm/contracts/contracts_governance.go
@@ -455,7 +455,7 @@ func (r *Reward) add(a *Reward) {
 // CalcReward calculates available reward of a sbp
 func CalcReward(reader util.ConsensusReader, db interfaces.VmDb, old *types.Registration, current *ledger.SnapshotBlock) (startTime int64, endTime int64, reward *Reward, drained bool, err error) {
 	defer func() {
-		if err := recover(); err != nil {
+		if panicErr := recover(); panicErr != nil {
 			debug.PrintStack()
 			err = util.ErrChainForked
 		}
-- 
2.43.0


From 9495d512c5870794ff9f90fbf41a54725520928c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:51 +0000
Subject: [PATCH 06/26] fix: Content.Rate computes produced*1000000 in 64 bits
 (wrapped above 4294 blocks)

---
 ledger/consensus/cdb/point.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ledger/consensus/cdb/point.go b/ledger/consensus/cdb/point.go
index c94ae71..bde697a 100644
--- a/ledger/consensus/cdb/point.go
+++ b/ledger/consensus/cdb/point.go
@@ -37,7 +37,7 @@ func (self *Content) Rate() int32 {
 	if self.FactualNum == 0 {
 		return 0
 	}
-	result := big.NewInt(0).Div(big.NewInt(int64(self.FactualNum*1000000)), big.NewInt(int64(self.ExpectedNum)))
+	result := big.NewInt(0).Div(big.NewInt(int64(self.FactualNum)*1000000), big.NewInt(int64(self.ExpectedNum)))
 	return int32(result.Int64())
 }
 func (self *Content) AddNum(ExpectedNum uint32, FactualNum uint32) {
-- 
2.43.0


From 46134f241d91bbc3985d741c2394ceec4b6bf3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:09 +0000
Subject: [PATCH 07/26] fix: WriteByRedo indexes a contract under its gid
 first, as Write does

The key was prefix+address+gid, which no reader of the gid index looks up.
---
 ledger/chain/state/write.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ledger/chain/state/write.go b/ledger/chain/state/write.go
index 036b0ad..d3bfda4 100644
--- a/ledger/chain/state/write.go
+++ b/ledger/chain/state/write.go
@@ -160,8 +160,8 @@ func (sDB *StateDB) WriteByRedo(blockHash types.Hash, addr types.Address, redoLo
 
 		gidContractKey := make([]byte, 0, 1+types.AddressSize+types.GidSize)
 		gidContractKey = append(gidContractKey, chain_utils.GidContractKeyPrefix)
-		gidContractKey = append(gidContractKey, addr.Bytes()...)
 		gidContractKey = append(gidContractKey, metaBytes[:types.GidSize]...)
+		gidContractKey = append(gidContractKey, addr.Bytes()...)
 
 		sDB.writeContractMeta(batch, contractKey.Bytes(), metaBytes)
 
-- 
2.43.0


From b6492bdc329f8173df1fac4ab111d3bc8f496d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:00 +0000
Subject: [PATCH 08/26] fix: rolling a contract creation back removes it from
 its group's contract list

The gid index entry stayed, so GetContractList kept returning contracts that
no longer exist.
---
 ledger/chain/state/delete.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/ledger/chain/state/delete.go b/ledger/chain/state/delete.go
index 2445ad5..ea814a1 100644
--- a/ledger/chain/state/delete.go
+++ b/ledger/chain/state/delete.go
@@ -268,8 +268,9 @@ func (sDB *StateDB) rollbackByRedo(batch *leveldb.Batch, snapshotBlock *ledger.S
 			}
 
 			// delete contract meta
-			for contractAddr := range redoLog.ContractMeta {
+			for contractAddr, metaBytes := range redoLog.ContractMeta {
 				sDB.deleteContractMeta(batch, chain_utils.CreateContractMetaKey(contractAddr).Bytes())
+				deleteGidContract(batch, metaBytes, contractAddr)
 			}
 
 			// delete code
@@ -409,6 +410,7 @@ func (sDB *StateDB) rollbackAccountBlock(batch *leveldb.Batch, accountBlock *led
 	// delete contract meta
 	if accountBlock.BlockType == ledger.BlockTypeSendCreate {
 		sDB.deleteContractMeta(batch, chain_utils.CreateContractMetaKey(accountBlock.ToAddress).Bytes())
+		deleteGidContract(batch, accountBlock.Data, accountBlock.ToAddress)
 	}
 
 	// delete log hash
@@ -422,6 +424,7 @@ func (sDB *StateDB) rollbackAccountBlock(batch *leveldb.Batch, accountBlock *led
 
 		if sendBlock.BlockType == ledger.BlockTypeSendCreate {
 			sDB.deleteContractMeta(batch, chain_utils.CreateContractMetaKey(sendBlock.ToAddress).Bytes())
+			deleteGidContract(batch, sendBlock.Data, sendBlock.ToAddress)
 		}
 	}
 
@@ -635,6 +638,17 @@ func (sDB *StateDB) deleteContractMeta(batch interfaces.Batch, key []byte) {
 	sDB.cache.Delete(contractAddrPrefix + string(key))
 }
 
+// deleteGidContract removes a contract from the list of its consensus group;
+// both the contract meta and the data of the create block start with the gid.
+func deleteGidContract(batch interfaces.Batch, data []byte, addr types.Address) {
+	if len(data) < types.GidSize {
+		return
+	}
+	var gid types.Gid
+	copy(gid[:], data)
+	batch.Delete(chain_utils.CreateGidContractKey(gid, &addr).Bytes())
+}
+
 func (sDB *StateDB) deleteBalance(batch interfaces.Batch, key []byte) {
 	batch.Delete(key)
 
-- 
2.43.0


From 9a3e3efae32681f3e5fb16919e5aa3a468c659fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:39 +0000
Subject: [PATCH 09/26] fix: restore storage of an account whose first key is
 newer than the snapshot rolled back to

---
 ledger/chain/state/delete.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ledger/chain/state/delete.go b/ledger/chain/state/delete.go
index ea814a1..2a84980 100644
--- a/ledger/chain/state/delete.go
+++ b/ledger/chain/state/delete.go
@@ -483,11 +483,12 @@ func (sDB *StateDB) recoverStorageToSnapshot(batch *leveldb.Batch, height uint64
 
 		prevOk := iter.Prev()
 		prevKey := chain_utils.StorageHistoryKey{}.Construct(iter.Key())
-		if prevKey == nil {
+		// the first key of the address may have no entry before
+		if prevOk && prevKey == nil {
 			sDB.log.Error("prevKey is nil.")
 			break
 		}
-		if prevKey.ExtraAddress() != addr {
+		if prevOk && prevKey.ExtraAddress() != addr {
 			sDB.log.Error("address is different.")
 			break
 		}
-- 
2.43.0


From c2e606311770657ea73fbd6e63fb378a3c211a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:23 +0000
Subject: [PATCH 10/26] fix: a locked entropy store gives out no private key

---
 wallet/entropystore/manager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wallet/entropystore/manager.go b/wallet/entropystore/manager.go
index d9fdbb6..22093d8 100644
--- a/wallet/entropystore/manager.go
+++ b/wallet/entropystore/manager.go
@@ -153,6 +153,9 @@ func (km *Manager) SignData(a types.Address, data []byte) (signedData, pubkey []
 }
 
 func (km *Manager) GetPrivateKey(a types.Address) (ed25519.PrivateKey, error) {
+	if !km.IsUnlocked() {
+		return nil, walleterrors.ErrLocked
+	}
 	key, _, e := FindAddrFromSeed(km.unlockedSeed, a, km.maxSearchIndex)
 	if e != nil {
 		return nil, walleterrors.ErrAddressNotFound
-- 
2.43.0


From c6dadeafe943b7f3f09306c0d3e48d3a46f39e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:23 +0000
Subject: [PATCH 11/26] fix: locking an entropy store drops the entropy too

---
 wallet/entropystore/manager.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wallet/entropystore/manager.go b/wallet/entropystore/manager.go
index 22093d8..16e30c0 100644
--- a/wallet/entropystore/manager.go
+++ b/wallet/entropystore/manager.go
@@ -117,6 +117,7 @@ func (km *Manager) Unlock(passphrase string) error {
 func (km *Manager) Lock() {
 
 	km.unlockedSeed = nil
+	km.unlockedEntropy = nil
 	if km.unlockChangedLis != nil {
 		km.unlockChangedLis(UnlockEvent{
 			EntropyStoreFile: km.GetEntropyStoreFile(),
-- 
2.43.0


From f86aac26a748f9b9e683653fc5bf4cb0c4246f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:23 +0000
Subject: [PATCH 12/26] fix: StoreNewEntropy reports a failed address
 derivation

---
 wallet/entropystore/manager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wallet/entropystore/manager.go b/wallet/entropystore/manager.go
index 16e30c0..6c13d0b 100644
--- a/wallet/entropystore/manager.go
+++ b/wallet/entropystore/manager.go
@@ -235,6 +235,9 @@ func StoreNewEntropy(storeDir string, mnemonic string, pwd string, maxSearchInde
 	}
 
 	primaryAddress, e := MnemonicToPrimaryAddr(mnemonic)
+	if e != nil {
+		return nil, e
+	}
 
 	filename := FullKeyFileName(storeDir, *primaryAddress)
 	ss := CryptoStore{filename}
-- 
2.43.0


From 8ba9d915ca0cf1ddb0a615a51fba4cd6d39ca017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:23 +0000
Subject: [PATCH 13/26] fix: RemoveEntropyStore removes a store given by a
 relative name

---
 wallet/manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wallet/manager.go b/wallet/manager.go
index fc78e87..5a44285 100644
--- a/wallet/manager.go
+++ b/wallet/manager.go
@@ -272,7 +272,7 @@ func (m *Manager) RemoveEntropyStore(entropyStore string) {
 	manager, ok := m.entropyStoreManager[absPath]
 	if ok {
 		manager.Lock()
-		delete(m.entropyStoreManager, entropyStore)
+		delete(m.entropyStoreManager, absPath)
 	}
 }
 
-- 
2.43.0


From da756e800573ee7d1e47f524859182251c8ab8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:23 +0000
Subject: [PATCH 14/26] fix: NewMnemonicAndEntropyStore reports why no mnemonic
 was made

---
 wallet/manager.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wallet/manager.go b/wallet/manager.go
index 5a44285..76addb8 100644
--- a/wallet/manager.go
+++ b/wallet/manager.go
@@ -295,11 +295,11 @@ func (m *Manager) RecoverEntropyStoreFromMnemonic(mnemonic string, passphrase st
 func (m *Manager) NewMnemonicAndEntropyStore(passphrase string) (mnemonic string, em *entropystore.Manager, err error) {
 	entropy, err := bip39.NewEntropy(256)
 	if err != nil {
-		return "", nil, nil
+		return "", nil, err
 	}
 	mnemonic, err = bip39.NewMnemonic(entropy)
 	if err != nil {
-		return "", nil, nil
+		return "", nil, err
 	}
 
 	em, e := m.RecoverEntropyStoreFromMnemonic(mnemonic, passphrase)
-- 
2.43.0


From b1b3bfe49ebb5c2bd75b986aeb8c3144fcd801d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:23 +0000
Subject: [PATCH 15/26] fix: AccountSearch reports every failed search

---
 wallet/manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wallet/manager.go b/wallet/manager.go
index 76addb8..235b83f 100644
--- a/wallet/manager.go
+++ b/wallet/manager.go
@@ -151,7 +151,7 @@ func (m Manager) AccountSearch(entryPath *string, target types.Address, passphra
 		return nil, err
 	}
 	key, _, err := manager.FindAddr(target)
-	if err == walleterrors.ErrAddressNotFound {
+	if err != nil {
 		return nil, err
 	}
 	return newAccount(target, key)
-- 
2.43.0


From bfead663597208ffeeb726fbfdd3053002826450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:52 +0000
Subject: [PATCH 16/26] fix: fdManager.DeleteTo stops at the files that are not
 cached

Rolling the block files back over more files than are cached (for example
right after reopening them) dereferenced the back of an empty list.
---
 ledger/chain/file_manager/fd_manager.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ledger/chain/file_manager/fd_manager.go b/ledger/chain/file_manager/fd_manager.go
index 72bca48..da44af3 100644
--- a/ledger/chain/file_manager/fd_manager.go
+++ b/ledger/chain/file_manager/fd_manager.go
@@ -158,7 +158,13 @@ func (fdSet *fdManager) DeleteTo(location *Location) error {
 			fdSet.writeFd = nil
 		}
 
-		cacheItem := fdSet.fileCache.Back().Value.(*fileCacheItem)
+		back := fdSet.fileCache.Back()
+		if back == nil {
+			// the remaining files are not cached
+			break
+		}
+
+		cacheItem := back.Value.(*fileCacheItem)
 		if cacheItem != nil {
 
 			delete(fdSet.fileFdCache, cacheItem.FileId)
@@ -170,7 +176,7 @@ func (fdSet *fdManager) DeleteTo(location *Location) error {
 			cacheItem.BufferLen = 0
 			cacheItem.Mu.Unlock()
 
-			fdSet.fileCache.Remove(fdSet.fileCache.Back())
+			fdSet.fileCache.Remove(back)
 		}
 	}
 
-- 
2.43.0


From 5740acb35b3ff7ac118f0181cd95ba0e7a25feca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:52 +0000
Subject: [PATCH 17/26] fix: fdManager.GetFd reports a missing file as nil

A location in a file that does not exist gave a descriptor around a nil
*os.File, and reading it panicked instead of failing.
---
 ledger/chain/file_manager/fd_manager.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ledger/chain/file_manager/fd_manager.go b/ledger/chain/file_manager/fd_manager.go
index da44af3..df5c67e 100644
--- a/ledger/chain/file_manager/fd_manager.go
+++ b/ledger/chain/file_manager/fd_manager.go
@@ -113,6 +113,11 @@ func (fdSet *fdManager) GetFd(fileId uint64) (*fileDescription, error) {
 		return nil, err
 	}
 
+	if fd == nil {
+		// the file doesn't exist
+		return nil, nil
+	}
+
 	return NewFdByFile(fd), nil
 }
 func (fdSet *fdManager) GetTmpFlushFd(fileId uint64) (*fileDescription, error) {
-- 
2.43.0


From bec4b086d345f272178040aec0a65f84f3f3a8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:52 +0000
Subject: [PATCH 18/26] fix: FileManager.Flush writes files that are no longer
 cached

A file that left the cache between Prepare and Commit was opened for reading
only and the commit failed with 'cacheItem is nil'.
---
 ledger/chain/file_manager/file_manager.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ledger/chain/file_manager/file_manager.go b/ledger/chain/file_manager/file_manager.go
index e55c8c7..5d420a1 100644
--- a/ledger/chain/file_manager/file_manager.go
+++ b/ledger/chain/file_manager/file_manager.go
@@ -102,6 +102,11 @@ func (fm *FileManager) Flush(startLocation *Location, targetLocation *Location,
 		if err != nil {
 			return fmt.Errorf("fm.fdSet.GetFd failed, fileId is %d. Error: %s. ", flushLocation.FileId, err.Error())
 		}
+		if fd != nil && fd.cacheItem == nil {
+			// the file is no longer cached
+			fd.Close()
+			fd = nil
+		}
 		if fd == nil {
 			fd, err = fm.fdSet.GetTmpFlushFd(flushLocation.FileId)
 			if err != nil {
-- 
2.43.0


From 1bcaa8ca92e932ab3874eedb62846167b43f2b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:15 +0000
Subject: [PATCH 19/26] fix: pool info takes the locks in the order of the
 pool's loops (deadlock with loopDelUselessChain)

---
 ledger/pool/bc_pool.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ledger/pool/bc_pool.go b/ledger/pool/bc_pool.go
index cc10122..2affa94 100644
--- a/ledger/pool/bc_pool.go
+++ b/ledger/pool/bc_pool.go
@@ -551,15 +551,15 @@ func (bcp *BCPool) delSnippet(c *snippetChain) {
 	bcp.blockpool.delFromCompound(c.heightBlocks)
 }
 func (bcp *BCPool) info() map[string]interface{} {
-	bcp.blockpool.pendingMu.Lock()
-	defer bcp.blockpool.pendingMu.Unlock()
-
 	bcp.chainHeadMu.Lock()
 	defer bcp.chainHeadMu.Unlock()
 
 	bcp.chainTailMu.Lock()
 	defer bcp.chainTailMu.Unlock()
 
+	bcp.blockpool.pendingMu.Lock()
+	defer bcp.blockpool.pendingMu.Unlock()
+
 	result := make(map[string]interface{})
 	bp := bcp.blockpool
 	cp := bcp.chainpool
-- 
2.43.0


From f698382397310a5f6ed21b2788867e2856be6e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:15 +0000
Subject: [PATCH 20/26] fix: switching the main branch removes pruned branches
 under the branch lock

---
 ledger/pool/tree/tree_impl.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ledger/pool/tree/tree_impl.go b/ledger/pool/tree/tree_impl.go
index b858659..fb555c5 100644
--- a/ledger/pool/tree/tree_impl.go
+++ b/ledger/pool/tree/tree_impl.go
@@ -188,8 +188,10 @@ func (self *tree) SwitchMainTo(b Branch) error {
 	}
 	target := b.(*branch)
 
-	// first prune
+	// first prune, which may remove branches
+	self.branchMu.Lock()
 	target.prune(self)
+	self.branchMu.Unlock()
 
 	// second modify
 	err := target.exchangeAllRoot(self)
-- 
2.43.0


From 67496e7bf2d901e20db34686221e4eb9895690a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:58 +0000
Subject: [PATCH 21/26] fix: the slice pool hands out a slice only under its
 exclusive lock

---
 ledger/chain/state/round_cache.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/ledger/chain/state/round_cache.go b/ledger/chain/state/round_cache.go
index 0442517..9196220 100644
--- a/ledger/chain/state/round_cache.go
+++ b/ledger/chain/state/round_cache.go
@@ -42,12 +42,15 @@ func NewMemPool(byteSliceLimit int, intSliceLimit int) *MemPool {
 }
 
 func (mp *MemPool) GetByteSlice(n int) []byte {
+	mp.mu.Lock()
+	var byteSlice []byte
 	if len(mp.byteSliceList) > 0 {
-		mp.mu.RLock()
-		byteSlice := mp.byteSliceList[0]
+		byteSlice = mp.byteSliceList[0]
 		mp.byteSliceList = mp.byteSliceList[1:]
-		mp.mu.RUnlock()
+	}
+	mp.mu.Unlock()
 
+	if byteSlice != nil {
 		if len(byteSlice) < n {
 			byteSlice = append(byteSlice, make([]byte, n-len(byteSlice))...)
 		}
@@ -58,12 +61,15 @@ func (mp *MemPool) GetByteSlice(n int) []byte {
 }
 
 func (mp *MemPool) GetIntSlice(n int) []int {
+	mp.mu.Lock()
+	var intSlice []int
 	if len(mp.intSliceList) > 0 {
-		mp.mu.RLock()
-		intSlice := mp.intSliceList[0]
+		intSlice = mp.intSliceList[0]
 		mp.intSliceList = mp.intSliceList[1:]
-		mp.mu.RUnlock()
+	}
+	mp.mu.Unlock()
 
+	if intSlice != nil {
 		if len(intSlice) < n {
 			intSlice = append(intSlice, make([]int, n-len(intSlice))...)
 		}
-- 
2.43.0


From 500c35d049c1191496ea6c0400e06866edaf87f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:58 +0000
Subject: [PATCH 22/26] fix: looking up a free pool block for the debug API
 takes the pending lock

---
 ledger/pool/bc_pool.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ledger/pool/bc_pool.go b/ledger/pool/bc_pool.go
index 2affa94..a466168 100644
--- a/ledger/pool/bc_pool.go
+++ b/ledger/pool/bc_pool.go
@@ -248,6 +248,8 @@ func (bcp *BCPool) printf(blocks []commonBlock) string {
 }
 
 func (bp *blockPool) sprint(hash types.Hash) (commonBlock, *string) {
+	bp.pendingMu.Lock()
+	defer bp.pendingMu.Unlock()
 	b1, free := bp.freeBlocks[hash]
 	if free {
 		return b1, nil
-- 
2.43.0


From 1659780dd2fe29ad153385a8a8ae4aeb76ce474d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:29 +0000
Subject: [PATCH 23/26] fix: a handshake with a key of another length must be
 refused, not panic

---
 net/handshaker.go | 3 ++-
 net/sync_conn.go  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/net/handshaker.go b/net/handshaker.go
index aab1a03..1b04e21 100644
--- a/net/handshaker.go
+++ b/net/handshaker.go
@@ -214,7 +214,8 @@ func (h *handshaker) verifyHandshake(their *HandshakeMsg, secret []byte) (err er
 	hash := crypto.Hash256(t)
 	token := xor(hash, secret)
 	if len(their.Key) != 0 {
-		if false == ed25519.Verify(their.Key, token, their.Token) {
+		// the key is chosen by the peer, it may have any length
+		if valid, e := crypto.VerifySig(their.Key, token, their.Token); e != nil || !valid {
 			err = PeerInvalidSignature
 			return
 		}
diff --git a/net/sync_conn.go b/net/sync_conn.go
index cac0284..183f9d8 100644
--- a/net/sync_conn.go
+++ b/net/sync_conn.go
@@ -271,7 +271,8 @@ func (d *defaultSyncConnectionFactory) receive(conn net2.Conn) (*syncConn, error
 	hash := crypto.Hash256(t)
 	token := xor(hash, secret)
 	if len(hk.key) != 0 {
-		if false == ed25519.Verify(hk.key, token, hk.token) {
+		// the key is chosen by the peer, it may have any length
+		if valid, e := crypto.VerifySig(hk.key, token, hk.token); e != nil || !valid {
 			_ = c.c.WriteMsg(Msg{
 				Code:    CodeDisconnect,
 				Payload: []byte{byte(PeerInvalidSignature)},
-- 
2.43.0


From e1701083b3e6d85c94b30103bf372fea7c35c248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:45 +0000
Subject: [PATCH 24/26] fix: the peer we dialed must answer with the id it
 proved

---
 net/handshaker.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/net/handshaker.go b/net/handshaker.go
index 1b04e21..439bd3e 100644
--- a/net/handshaker.go
+++ b/net/handshaker.go
@@ -354,6 +354,12 @@ func (h *handshaker) InitiateHandshake(conn _net.Conn, id vnode.NodeID) (c Codec
 		return
 	}
 
+	// the token only proves the id we dialed
+	if their.ID != id {
+		err = PeerInvalidToken
+		return
+	}
+
 	err = h.doHandshake(c, PeerFlagOutbound, their)
 	if err != nil {
 		return
-- 
2.43.0


From c38943a12f7d953a89289a654bb5f4de38892117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:57 +0000
Subject: [PATCH 25/26] fix: vm/abi: refuse an event with fewer topics than
 indexed arguments instead of panicking

---
 vm/abi/error.go | 1 +
 vm/abi/event.go | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/vm/abi/error.go b/vm/abi/error.go
index 7bda8a2..4bfba05 100644
--- a/vm/abi/error.go
+++ b/vm/abi/error.go
@@ -22,6 +22,7 @@ var (
 	errPackFailed                  = errors.New("abi: pack element failed")
 	errPureUnderscoredOutput       = errors.New("abi: purely underscored output cannot unpack to struct")
 	errInvalidlFixedBytesType      = errors.New("abi: invalid type in call to make fixed byte array")
+	errInsufficientTopics          = errors.New("abi: insufficient topics of event")
 	errInvalidlArrayType           = errors.New("abi: invalid type in array/slice unpacking stage")
 )
 
diff --git a/vm/abi/event.go b/vm/abi/event.go
index a9a808d..b642dba 100644
--- a/vm/abi/event.go
+++ b/vm/abi/event.go
@@ -89,6 +89,9 @@ func (e Event) DirectUnPack(topics []types.Hash, data []byte) ([]interface{}, er
 	args := make([]interface{}, 0)
 	for _, arg := range e.Inputs {
 		if arg.Indexed {
+			if index >= len(topics) {
+				return nil, errInsufficientTopics
+			}
 			if arg.Type.T == ArrayTy || arg.Type.T == StringTy || arg.Type.T == SliceTy || arg.Type.T == BytesTy {
 				args = append(args, topics[index])
 			} else {
-- 
2.43.0


From 95a7ecde73133dca28430a38439935c032f74794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:24 +0000
Subject: [PATCH 26/26] fix: ledger/onroad/pool: keep a caller listed for the
 contracts it still has sends pending to

---
 ledger/onroad/pool/storage.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/ledger/onroad/pool/storage.go b/ledger/onroad/pool/storage.go
index 553b189..0a70fa6 100644
--- a/ledger/onroad/pool/storage.go
+++ b/ledger/onroad/pool/storage.go
@@ -36,6 +36,12 @@ type OnRoadDB interface {
 	DeleteOnroad(tx OnroadTx) error
 }
 
+// onroadCaller is a caller with onroad txs to a contract.
+type onroadCaller struct {
+	contract types.Address
+	caller   types.Address
+}
+
 type onroadStorage struct {
 	db *leveldb.DB
 
@@ -50,12 +56,12 @@ func newOnroadStorage(db *leveldb.DB) *onroadStorage {
 	}
 }
 
-func (storage *onroadStorage) addCaller(caller types.Address) error {
-	storage.callers.Store(caller, 0)
+func (storage *onroadStorage) addCaller(contract, caller types.Address) error {
+	storage.callers.Store(onroadCaller{contract, caller}, 0)
 	return nil
 }
-func (storage *onroadStorage) removeCaller(caller types.Address) {
-	storage.callers.Delete(caller)
+func (storage *onroadStorage) removeCaller(contract, caller types.Address) {
+	storage.callers.Delete(onroadCaller{contract, caller})
 }
 
 func (storage *onroadStorage) insertOnRoadTx(tx OnroadTx) error {
@@ -64,7 +70,7 @@ func (storage *onroadStorage) insertOnRoadTx(tx OnroadTx) error {
 
 	// fmt.Println("add on road tx", tx.String())
 
-	storage.addCaller(tx.FromAddr)
+	storage.addCaller(tx.ToAddr, tx.FromAddr)
 	// batch.Put(tx.toOnroadHeightKey().Bytes(), tx.toOnroadHeightValue())
 	return storage.db.Put(tx.toOnroadHeightKey().Bytes(), tx.toOnroadHeightValue(), nil)
 }
@@ -85,7 +91,7 @@ func (storage *onroadStorage) deleteOnRoadTx(tx OnroadTx) error {
 		return err
 	}
 	if len(txs) == 0 {
-		storage.removeCaller(tx.FromAddr)
+		storage.removeCaller(tx.ToAddr, tx.FromAddr)
 	}
 	return nil
 }
@@ -112,7 +118,11 @@ func (storage *onroadStorage) GetAllFirstOnroadTx(addr types.Address) (map[types
 	var resultErr error
 
 	storage.callers.Range(func(key interface{}, val interface{}) bool {
-		caller := key.(types.Address)
+		pair := key.(onroadCaller)
+		if pair.contract != addr {
+			return true
+		}
+		caller := pair.caller
 		txs, err := storage.getFirstOnroadTx(addr, caller)
 		if err != nil {
 			resultErr = err
-- 
2.43.0

