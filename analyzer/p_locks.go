package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props = append(props, &Prop{
		ID: "C33", Title: "State shared between threads is only touched while its lock is held",
		Statement: "Every component that shares state between threads guards it by one mutex: the chain cache (latest blocks, unconfirmed blocks, quota window), the unconfirmed batches and pending redo logs of the stores, the sync cache, on-road lists, event listeners, the branch tree, consensus groups, the interpreter's integer pools and contract ABIs, bloom filters, queues, discovery tables and pending requests, black lists, peers, download tasks, fetch records, subscriptions, and the embedded database. " +
			"On every path from every entry point (thread start, callback, or API call) to a read of such a field the mutex is held at least for reading, and to a write it is held exclusively.",
		Over:      []string{"schedules", "histories"},
		Quant:     "all functions, all call paths from all thread starts, all interleavings",
		Why:       "A missing lock shows only when two threads meet within nanoseconds; the tests are nearly all single-threaded.",
		Files:     []string{"ledger/chain/cache/cache.go", "ledger/chain/cache/account_block.go", "ledger/chain/cache/snapshot_block.go", "ledger/chain/db/unconfirmed_batch.go", "ledger/chain/sync_cache/sync_cache.go", "ledger/consensus/consensus_contract.go", "ledger/pool/tree/branch.go", "ledger/onroad/pool/contract_pool.go", "net/discovery/table.go", "net/discovery/pool.go", "net/netool/blacklist.go", "vm/util/intpool.go", "tools/queue/queue.go", "common/bloom/bloom.go"},
		Technique: "interprocedural must-hold lock-set dataflow analysis over the SSA form of the whole repository, compared with the guard of each shared field",
		Note:      "Locks and fields are told apart by struct type and field, not by object. Objects that the running function made itself are exempt, as are the named start-up functions that run before the component is shared. The guard table is part of the checker.",
		Run:       runC33,
	})
	props = append(props, &Prop{
		ID: "C34", Title: "Locks are released on every path, taken in one order and never twice",
		Statement: "A function that takes a mutex releases it on every path on which it returns, error paths included, unless handing the held lock over is its purpose (and then its callers do); no mutex is released that is not held. " +
			"No function takes a mutex that it, or a caller on the same object, already holds, and all threads take the mutexes of the node in one common order, so that no set of threads can wait for each other forever.",
		Over:      []string{"schedules", "faults"},
		Quant:     "all functions, all paths, all call chains, all interleavings",
		Why:       "A forgotten unlock sits on an error path and a reversed order needs two threads at the right moment; both then hang the node for good.",
		Files:     []string{"ledger/pool/lock/chain_lock.go", "ledger/pool/bc_pool.go", "ledger/chain/flusher/flusher.go", "ledger/chain/cache/cache.go", "ledger/chain/file_manager/fd_manager.go", "ledger/pool/tree/tree_impl.go", "net/discovery/table.go", "wallet/manager.go", "vm/util/intpool.go"},
		Technique: "interprocedural lock-set dataflow (may-hold at returns, must-hold at releases) and acyclicity of the lock-order graph over the SSA form of the whole repository",
		Note:      "The embedded database (common/db/xleveldb) is a leaf of the order: its own locks are not ordered here. Panics are not paths. Locks are told apart by struct type and field; for taking a lock twice the object must be the same value.",
		Run:       runC34,
	})
}

// lockStartup run before their component is shared between threads.
var lockStartup = []string{
	"ledger/chain/cache.Cache.Init",
	"ledger/chain/cache.quotaList.init",
	"ledger/chain/flusher.Flusher.Recover",
}

// lockGuards: mutex: the fields it guards (same package unless spelled out).
const lockGuards = `
ledger/pool/tree.branchBase.heightMu: branchBase.tailHash~ branchBase.tailHeight~ branchBase.headHash~ branchBase.headHeight~
ledger/onroad.ContractWorker.statusMutex: ContractWorker.status!ContractWorker.Start,ContractWorker.Stop
ledger/chain/state.MemPool.mu: MemPool.byteSliceList MemPool.intSliceList
ledger/chain/flusher.Flusher.flushingMu: Flusher.idMap!Flusher.loadRedo Flusher.storeList~
ledger/chain/file_manager.fileCacheItem.Mu: fileCacheItem.Buffer!NewFdByBuffer,fdManager.resetWriteFd,fdManager.LatestLocation fileCacheItem.BufferLen!fdManager.LatestLocation,fdManager.DeleteTo fileCacheItem.FileWriter!fdManager.resetWriteFd,fdManager.reset,fdManager.DeleteTo
ledger/chain/db.Store.memDbMu: Store.memDb!Store.Close,Store.GetStatus,Store.putMemDb
common/bloom.Filter.rw: Buckets.count Buckets.data Filter.buckets
common/db/xleveldb.DB.memMu: DB.frozenJournalFd DB.frozenMem
common/db/xleveldb.DB.snapsMu: snapshotElement.e snapshotElement.ref
common/db/xleveldb.Snapshot.mu: Snapshot.released
common/db/xleveldb.Transaction.lk: Transaction.closed Transaction.ikScratch Transaction.mem Transaction.seq Transaction.stats Transaction.tables
common/db/xleveldb.cStats.lk: cStat.duration cStat.read cStat.write cStats.stats
common/db/xleveldb.session.vmu: session.fileRef session.stVersion version.ref version.released
common/db/xleveldb/cache.Cache.mu: Cache.closed
common/db/xleveldb/cache.lru.mu: Node.CacheData lru.capacity lruNode.ban
common/db/xleveldb/cache.mBucket.mu: mBucket.frozen
common/db/xleveldb/storage.fileStorage.mu: fileStorage.open fileStorage.slock fileWrap.closed
common/db/xleveldb/storage.memStorage.mu: memFile.open memStorage.files memStorage.meta memStorage.slock
common/db/xleveldb/table.Reader.mu: Reader.cache Reader.filterBlock Reader.indexBlock
common/db/xleveldb/util.BufferPool.mu: BufferPool.closed
ledger/chain.eventManager.mu: eventManager.listenerList
ledger/chain/cache.Cache.mu: Cache.hd Cache.unconfirmedPool UnconfirmedPool.insertedList UnconfirmedPool.insertedMap hotData.latestAccountBlocks hotData.latestSnapshotBlock quotaInfo.BlockCount quotaInfo.QuotaTotal quotaInfo.QuotaUsedTotal quotaList.backElement quotaList.globalUsed quotaList.usedStart Cache.quotaList quotaList.list Cache.ds!Cache.GetStatus dataSet.store!dataSet.GetStatus
ledger/chain/db.UnconfirmedBatchs.mu: UnconfirmedBatchs.batchList UnconfirmedBatchs.batchMap
ledger/chain/file_manager.fdManager.changeFdMu: fdManager.dirFd fdManager.writeFd!fdManager.resetWriteFd,fdManager.reset
ledger/chain/plugins.OnRoadInfo.mu: OnRoadInfo.unconfirmedCache
ledger/chain/state.RedoCache.mu: RedoCache.currentHeight RedoCache.snapshotLogMap
ledger/chain/state.RedoCacheData.mu: RedoCacheData.lastSnapshotBlock RedoCacheData.currentData~
ledger/chain/sync_cache.syncCache.mu: syncCache.caches
ledger/consensus.contractsCs.contractsMu: contractsCs.contracts
ledger/onroad.ContractWorker.blackListMutex: ContractWorker.blackList
ledger/onroad.ContractWorker.workingAddrListMutex: ContractWorker.workingAddrList
ledger/onroad.callerPendingMap.addrMutex: callerPendingMap.inferiorList callerPendingMap.pmap
ledger/onroad/pool.callerCache.mu: callerCache.storage
ledger/onroad/pool.onroadStorage.mu: onroadStorage.db
ledger/pool.blockPool.pendingMu: blockPool.compoundBlocks blockPool.freeBlocks!BCPool.loopGenSnippetChains
ledger/pool/tree.branch.childrenMu: branch.children
ledger/pool/tree.tree.branchMu: tree.branchList
monitor.ring.mu: ring.cap ring.datas ring.i
net.broadcaster.mu: broadcaster.statistic
net.cacheReader.mu: cacheReader.buffer cacheReader.downloadRecord cacheReader.running~ cacheReader.readHeight~
net.downloadConnPool.mu: downloadConnPool.blackList downloadConnPool.mi downloadConnPool.l~
net.executor.mu: executor.dialing executor.running executor.tasks!executor.loop
net.fetcher.mu: fetcher.recordsByHash fetcher.recordsById peerFetchResult.status peerFetchResult.t record.hash record.mark record.t
net.finder.rw: finder._subId finder.dialing finder.observers finder.sbps finder.targets finder._selfIsSBP~
net.memBlockStore.rw: memBlockStore.aIndex memBlockStore.ablocks memBlockStore.sIndex memBlockStore.sblocks
net.peerSet.prw: peerSet.m
net.queryHandler.lock: queryHandler.queue
net.skeleton.mu: hashHeightNode.nodes hashHeightPeers.ps skeleton.pending
net.syncer.mu: syncer.curSubId syncer.subs
net/discovery.Discovery.mu: Discovery.stage checkEndPointResult.node checkEndPointResult.status checkEndPointResult.time Discovery.refreshing~ checkEndPointResult.callbacks~ checkEndPointResult.err~
net/discovery.requestPoolImpl.mu: findNodeRequest.received requestPoolImpl.pending!requestPoolImpl.start
net/discovery.table.rw: listBucket.count listBucket.tail table.nodeMap table.recievers table.subId element.next~ element.Node~
net/netool.blackList.mu: blackList.records record.c record.t
rpc.Notifier.subMu: Notifier.active Notifier.inactive Subscription.namespace
rpc.Server.codecsMu: Server.codecs
rpcapi/api/filters.SubscribeApi.filterMapMu: SubscribeApi.filterMap filter.blocks filter.blocksWithHeight filter.logs filter.onroadMsgs filter.snapshotBlocks
tools/queue.blockQueue.mu: blockQueue.closed blockQueue.list
vm.vmConfig.contractABIMapRW: vmConfig.ContractABIMap
vm/util.intPoolPool.lock: intPoolPool.pools
`

func (c *Ctx) structOf(key string) (*types.Struct, string) {
	i := strings.LastIndex(key, ".")
	j := strings.LastIndex(key[:i], ".")
	sp := c.P.SPkg[key[:j]]
	if sp == nil {
		return nil, ""
	}
	o := sp.Pkg.Scope().Lookup(key[j+1 : i])
	if o == nil {
		return nil, ""
	}
	st, _ := o.Type().Underlying().(*types.Struct)
	return st, key[i+1:]
}

func (c *Ctx) hasField(key string) bool {
	st, f := c.structOf(key)
	if st == nil {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == f {
			return true
		}
	}
	return false
}

// mutexOf: the key of a guard, also when its field was renamed (the only mutex left).
func (c *Ctx) mutexOf(key string) string {
	if c.hasField(key) {
		return key
	}
	st, _ := c.structOf(key)
	if st == nil {
		return ""
	}
	var ms []string
	for i := 0; i < st.NumFields(); i++ {
		switch strings.TrimPrefix(st.Field(i).Type().String(), "*") {
		case "sync.Mutex", "sync.RWMutex":
			ms = append(ms, st.Field(i).Name())
		}
	}
	if len(ms) != 1 {
		return ""
	}
	return key[:strings.LastIndex(key, ".")+1] + ms[0]
}

func runC33(c *Ctx) {
	lp := newLockProg(c.P, lockStartup...)
	guard, writes := map[string]string{}, map[string]bool{}
	free := map[string]bool{} // functions that are known to look without the lock
	rows, fields, gone := 0, 0, 0
	for _, l := range strings.Split(strings.TrimSpace(lockGuards), "\n") {
		k, fs, _ := strings.Cut(l, ":")
		pkg := k[:strings.LastIndex(k[:strings.LastIndex(k, ".")], ".")]
		mu := c.mutexOf(k)
		rows++
		for _, f := range strings.Fields(fs) {
			f, ex, _ := strings.Cut(f, "!")
			f, wo := strings.CutSuffix(f, "~")
			for _, n := range strings.Split(ex, ",") {
				if n != "" {
					free[pkg+"."+f+" "+pkg+"."+n] = true
					if c.lockFn(lp, pkg+"."+n) == nil {
						free[pkg+"."+f] = true // the exception moved
					}
				}
			}
			if free[pkg+"."+f] {
				continue
			}
			if strings.Count(f, ".") == 1 {
				f = pkg + "." + f
			}
			fields++
			if mu == "" || !c.hasField(f) {
				gone++ // renamed or removed: nothing to compare
				continue
			}
			guard[f] = mu
			writes[f] = wo
		}
	}
	c.Ob(gone*5 <= fields, "guards", "guard table", "", "%d of %d guarded fields no longer exist", gone, fields)
	acc := lp.accesses(func(k string) bool { return guard[k] != "" })
	seen := map[string]int{}
	fns := map[*ssa.Function]bool{}
	for _, a := range acc {
		mu := guard[a.field]
		if writes[a.field] && !a.write {
			continue // some readers look without the lock
		}
		m := a.mode(mu)
		seen[a.field]++
		fns[a.lf.f] = true
		what := "read"
		ok := m > 0
		if a.write {
			what = "changed"
			ok = m == lkW
		}
		if !ok && lp.onlyIn(a.lf, 3, func(n string) bool { return free[a.field+" "+n] }) {
			continue
		}
		how := "without " + mu
		if !ok && m == lkR {
			how = "although " + mu + " is only held for reading"
		}
		c.Ob(ok, "guarded", lockFnName(a.lf.f), c.P.pos(a.ins.Pos()), "%s is %s %s%s", a.field, what, how, lp.unlockedVia(a.lf, mu))
	}
	for f := range fns {
		c.fns[f] = true
	}
	n := 0
	for range seen {
		n++
	}
	c.Ob(n*5 >= len(guard)*4, "guards", "guard table", "", "only %d of %d guarded fields are accessed", n, len(guard))
	c.Floor("guarded", 400)
}

func (c *Ctx) lockFn(lp *lockProg, name string) *lockFn {
	for _, lf := range lp.order {
		if lockFnName(lf.f) == name {
			return lf
		}
	}
	return nil
}

// onlyIn: the function, or everything that calls it, is one of these.
func (lp *lockProg) onlyIn(lf *lockFn, depth int, is func(string) bool) bool {
	if is(lockFnName(lf.f)) {
		return true
	}
	if depth == 0 || len(lf.sites) == 0 {
		return false
	}
	for _, s := range lf.sites {
		if s.in.f.Synthetic != "" && len(s.in.sites) == 0 {
			continue // a promoted method nobody calls
		}
		if s.in == lf || !lp.onlyIn(s.in, depth-1, is) {
			return false
		}
	}
	return true
}

// unlockedVia: a call chain on which the lock is not held.
func (lp *lockProg) unlockedVia(lf *lockFn, mu string) string {
	var chain []string
	for i := 0; i < 6; i++ {
		if lf.root || len(lf.sites) == 0 {
			chain = append(chain, lockFnName(lf.f)+" ("+map[bool]string{true: lf.why, false: "entry point"}[lf.why != ""]+")")
			break
		}
		chain = append(chain, lockFnName(lf.f))
		var next *lockFn
		for _, s := range lf.sites {
			if s.in.entry != nil && s.in.at[s.ins] != nil {
				if h := s.in.at[s.ins].over(s.in.entry); h["*"] == 0 && h[mu] == 0 {
					next = s.in
					break
				}
			}
		}
		if next == nil {
			break
		}
		lf = next
	}
	return "; called by " + strings.Join(chain, " <- ")
}

func runC34(c *Ctx) {
	lp := newLockProg(c.P, lockStartup...)
	skip := func(s string) bool { return strings.HasPrefix(s, "common/db/xleveldb") }
	// locks handed over between functions: taken in one, released in another
	type km struct {
		k string
		w bool
	}
	takes, frees := map[km]bool{}, map[km]bool{}
	leaks := map[*lockFn]map[*ssa.Return]map[string]ssa.Instruction{}
	opAt := func(ins ssa.Instruction) (string, string) {
		if ci, ok := ins.(ssa.CallInstruction); ok {
			return lockOp(ci.Common())
		}
		return "", ""
	}
	nfn := 0
	for _, lf := range lp.order {
		if skip(lockFnName(lf.f)) {
			continue
		}
		uses := false
		for _, b := range lf.f.Blocks {
			for _, ins := range b.Instrs {
				k, op := opAt(ins)
				if k == "" {
					continue
				}
				uses = true
				if (op == "Unlock" || op == "RUnlock") && lf.at[ins] != nil && lf.at[ins][k] <= 0 {
					if lf.f.Parent() == nil { // else the function around it took it
						frees[km{k, op == "Unlock"}] = true
					}
				}
			}
		}
		ls := lp.leaks(lf)
		any := false
		for _, m := range ls {
			for k, ins := range m {
				if k2, op := opAt(ins); k2 == k {
					takes[km{k, op == "Lock"}] = true
				}
				any = true
			}
		}
		if any {
			leaks[lf] = ls
		}
		if uses {
			nfn++
			c.fns[lf.f] = true
		}
	}
	for _, lf := range lp.order {
		if skip(lockFnName(lf.f)) {
			continue
		}
		for _, b := range lf.f.Blocks {
			for _, ins := range b.Instrs {
				k, op := opAt(ins)
				if k == "" || lf.at[ins] == nil {
					continue
				}
				switch op {
				case "Lock", "RLock":
					bad := ""
					for r, m := range leaks[lf] {
						if m[k] == ins && !frees[km{k, op == "Lock"}] && (lf.exit[k] <= 0 || lf.root || len(lf.sites) == 0) {
							bad = c.P.pos(r.Pos())
						}
					}
					c.Ob(bad == "", "released", lockFnName(lf.f), c.P.pos(ins.Pos()), "%s is taken here and may still be held at the return at %s", k, bad)
				case "Unlock", "RUnlock":
					if takes[km{k, op == "Unlock"}] {
						continue
					}
					h := lp.held(lf, ins)
					c.Ob(h == nil || h[k] > 0 || h["*"] != 0, "released", lockFnName(lf.f), c.P.pos(ins.Pos()), "%s is released here although it may not be held", k)
					if h != nil && h[k] > 0 && h["*"] == 0 && lf.at[ins][k] > 0 {
						c.Ob((h[k] == lkW) == (op == "Unlock"), "released", lockFnName(lf.f), c.P.pos(ins.Pos()), "%s is released by %s although it was taken the other way", k, op)
					}
				}
			}
		}
		// a callee always leaves a lock behind: its callers must release it
		for r, m := range leaks[lf] {
			for k, ins := range m {
				if k2, _ := opAt(ins); k2 == k {
					continue
				}
				mode := lkW
				if ci, ok := ins.(ssa.CallInstruction); ok {
					for _, t := range lp.targets(ci.Common()) {
						if t.exit[k] == lkR {
							mode = lkR
						}
					}
				}
				if frees[km{k, mode == lkW}] || lf.exit[k] > 0 && !lf.root && len(lf.sites) > 0 {
					continue
				}
				c.Ob(false, "released", lockFnName(lf.f), c.P.pos(ins.Pos()), "%s is taken by the call here and may still be held at the return at %s", k, c.P.pos(r.Pos()))
			}
		}
	}
	// order
	es := lp.lockOrder()
	var own []lockEdge
	nodes := map[string]bool{}
	for _, e := range es {
		nodes[e.from], nodes[e.to] = true, true
		if !skip(e.from) && !skip(e.to) {
			own = append(own, e)
		}
	}
	cyc := map[string]int{}
	for i, s := range lockCycles(own) {
		for _, k := range s {
			cyc[k] = i + 1
		}
	}
	last := ""
	for _, e := range own {
		id := e.from + " -> " + e.to
		if e.from == e.to || id == last {
			continue
		}
		last = id
		via := ""
		if e.via != "" {
			via = " by calling " + e.via
		}
		c.Ob(cyc[e.from] == 0 || cyc[e.from] != cyc[e.to], "order", lockFnName(e.in.f), c.P.pos(e.ins.Pos()), "%s is taken%s while %s is held; elsewhere the order is the reverse", e.to, via, e.from)
	}
	// twice
	lp.twice(c, skip)
	c.Floor("released", 300)
	c.Floor("order", 20)
	c.Ob(nfn >= 100, "released", "repository", "", "only %d functions use locks", nfn)
}

// twice: no lock is taken on an object on which the function already holds it.
func (lp *lockProg) twice(c *Ctx, skip func(string) bool) {
	// what a function locks on its first parameter
	self := map[*lockFn]map[string]string{}
	for _, lf := range lp.order {
		self[lf] = map[string]string{}
	}
	recv := func(v ssa.Value) (ssa.Value, bool) {
		if fa, ok := v.(*ssa.FieldAddr); ok {
			return fa.X, true
		}
		return nil, false
	}
	for n := 0; n < 8; n++ {
		for _, lf := range lp.order {
			if len(lf.f.Params) == 0 {
				continue
			}
			for _, b := range lf.f.Blocks {
				for _, ins := range b.Instrs {
					call, ok := ins.(*ssa.Call)
					if !ok {
						continue
					}
					if k, op := lockOp(&call.Call); op != "" {
						if (op == "Lock" || op == "RLock") && k != "" && !call.Call.IsInvoke() {
							if x, ok := recv(call.Call.Args[0]); ok && x == ssa.Value(lf.f.Params[0]) {
								self[lf][k] = op
							}
						}
						continue
					}
					if g := lp.fns[call.Call.StaticCallee()]; call.Call.StaticCallee() != nil && g != nil && len(call.Call.Args) > 0 && call.Call.Args[0] == ssa.Value(lf.f.Params[0]) {
						for k, op := range self[g] {
							if self[lf][k] != "Lock" {
								self[lf][k] = op
							}
						}
					}
				}
			}
		}
	}
	for _, lf := range lp.order {
		if skip(lockFnName(lf.f)) {
			continue
		}
		// the objects on which the function itself takes locks
		objs := map[string]map[ssa.Value]bool{}
		for _, b := range lf.f.Blocks {
			for _, ins := range b.Instrs {
				if call, ok := ins.(*ssa.Call); ok && !call.Call.IsInvoke() {
					if k, op := lockOp(&call.Call); k != "" && (op == "Lock" || op == "RLock") {
						if x, ok := recv(call.Call.Args[0]); ok {
							if objs[k] == nil {
								objs[k] = map[ssa.Value]bool{}
							}
							objs[k][x] = true
						}
					}
				}
			}
		}
		if len(objs) == 0 {
			continue
		}
		var ks []string
		for k := range objs {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, b := range lf.f.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(*ssa.Call)
				if !ok || lf.at[ins] == nil {
					continue
				}
				for _, k := range ks {
					m := lf.at[ins][k]
					if m <= 0 || len(objs[k]) != 1 {
						continue
					}
					if k2, op := lockOp(&call.Call); op != "" {
						if k2 == k && (op == "Lock" || op == "RLock") && !call.Call.IsInvoke() {
							if x, ok := recv(call.Call.Args[0]); ok && objs[k][x] {
								c.Ob(false, "twice", lockFnName(lf.f), c.P.pos(ins.Pos()), "%s is taken although it is already held", k)
							}
						}
						continue
					}
					g := lp.fns[call.Call.StaticCallee()]
					if call.Call.StaticCallee() == nil || g == nil || len(call.Call.Args) == 0 || !objs[k][call.Call.Args[0]] {
						continue
					}
					op := self[g][k]
					c.Ob(op == "", "twice", lockFnName(lf.f), c.P.pos(ins.Pos()), "%s is held and %s takes it again", k, lockFnName(g.f))
				}
			}
		}
	}
}
