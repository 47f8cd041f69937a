package main

import (
	"go/constant"
	"strings"
)

const vmdbPkg = "vm_db"

func init() {
	register(&Prop{
		ID:    "C16",
		Title: "Execution state reads its own writes and forgets them on reset",
		Statement: "While a block executes, a balance, storage value, contract meta or contract code that was set is what the next read returns, anything not set is read from the ledger for the executing account, and a storage key set to an empty value reads as empty and disappears from iteration even if the ledger has it. Storage iteration merges pending over ledger values in key order, each key once, with the pending value winning. " +
			"A balance handed out is a copy. Reset discards every pending balance, storage write, deletion, log, code and meta, including what was cached for hashing. The receipt hash covers every pending key and value, logs are kept in the order they were added, and the log hash uses the height of the snapshot block, the account and the previous block of this execution. Storage keys longer than 32 bytes are refused. A missing snapshot or previous block is an error, never a nil block that is used.",
		Over:      []string{"inputs", "histories"},
		Quant:     "all sequences of reads and writes during one execution",
		Why:       "A stale cache or an incomplete reset shows only after particular sequences of writes, resets and reads.",
		Files:     []string{"vm_db/unsaved.go", "vm_db/storage.go", "vm_db/balance.go", "vm_db/meta_code.go", "vm_db/state.go", "vm_db/context.go", "vm_db/vm_log.go", "vm_db/storage_iterator.go", "common/db/merged_iterator.go"},
		Mech:      [][2]string{{"pending state", "Unsaved"}, {"reads through to the ledger", "vmDb.GetBalance, GetValue, GetContractMeta, GetContractCode"}, {"merged iteration", "MergedIterator.step"}},
		Technique: "path-sensitive effect analysis: for every setter the exact write, for every getter the condition under which the pending or the ledger value is returned, for reset the set of fields overwritten",
		Note:      "The in-memory ordered table (memdb) and the ledger queries are trusted here. Slices handed out for values and code may alias pending state.",
		Run:       runC16,
	})
}

func vmdbEng(c *Ctx, more ...string) *Engine {
	return c.Opts([]string{vmdbPkg}, append([]string{"DB.Get", "DB.Put", "DB.Delete", "DB.NewIterator", "DB.Reset", "New2", "New", "BytesPrefix", "Hash256", "BytesToHash", "NewMergedIterator", "VmLogList.Hash"}, more...)...)
}

// fresh maps are empty
func feasibleMaps(p *Path) bool {
	for _, f := range p.F {
		if f.A.Op == "mapok" && isTrueT(f.B) && f.Mask == EQ && f.A.Args[0].Op == "mkmap" {
			set := false
			for _, ev := range p.Evs {
				set = set || ev.Kind == "mapset" && ev.Args[0] == f.A.Args[0]
			}
			if !set {
				return false
			}
		}
	}
	return true
}

func runC16(c *Ctx) {
	// getters: pending value if present, else the ledger of the executing account
	type getter struct {
		fn      string
		ledger  string   // ledger call
		absent  []string // any of these: nothing pending
		pending func(p *Path, v *Term) bool
		extra   func(p *Path) bool // other acceptable outcome
	}
	gs := []getter{
		{"GetBalance", "GetBalance(A0.chain, *A0.address, *A1)", []string{"A0.uns == nil", "!mapok(_, *A1)"}, func(p *Path, v *Term) bool {
			return v.Op == "alloc" && isT(p.o.st.big(v), "mapget(A0.uns.balanceMap, *A1)") && p.Holds("mapok(A0.uns.balanceMap, *A1)")
		}, nil},
		{"GetValue", "GetValue(A0.chain, *A0.address, A1)", []string{"A0.uns == nil", "Get(_, A1).R1 != nil && !mapok(_, A1)"}, func(p *Path, v *Term) bool {
			return p.Holds("Get(_, A1).R1 == nil") && isT(v, "Get(_, A1).R0") || p.Holds("Get(A0.uns.storage, A1).R1 != nil") && p.Holds("mapok(A0.uns.deletedKeys, A1)") && (isNilT(v) || v.Op == "zero")
		}, nil},
		{"GetContractMeta", "GetContractMeta(A0.chain, *A0.address)", []string{"A0.uns == nil", "mapget(_, *A0.address) == nil", "!mapok(_, *A0.address)"}, func(p *Path, v *Term) bool {
			return isT(v, "mapget(A0.uns.contractMetaMap, *A0.address)") && (p.Holds("mapget(_, *A0.address) != nil") || p.Holds("mapok(_, *A0.address)"))
		}, func(p *Path) bool { return p.Holds("A0.address == nil") && p.F.possible(p.o.res[1], kNil())&EQ == 0 }},
		{"GetContractCode", "GetContractCode(A0.chain, *A0.address)", []string{"A0.uns == nil", "len(_.code) <= 0", "len(A0.uns.code) == 0"}, func(p *Path, v *Term) bool {
			return isT(v, "A0.uns.code") && (p.Holds("len(A0.uns.code) > 0") || p.Holds("len(A0.uns.code) != 0"))
		}, nil},
		{"GetOriginalValue", "GetValue(A0.chain, *A0.address, A1)", []string{""}, func(p *Path, v *Term) bool { return false }, nil},
	}
	for _, g := range gs {
		f := c.Func(vmdbPkg, "vmDb."+g.fn)
		if f == nil {
			continue
		}
		for _, p := range c.all(c.Paths(vmdbEng(c), f)) {
			if !feasibleMaps(p) {
				continue
			}
			v, er := p.o.res[0], p.o.res[1]
			ok := g.extra != nil && g.extra(p)
			if isT(v, g.ledger+".R0") && isT(er, g.ledger+".R1") {
				for _, a := range g.absent {
					ok = ok || a == "" || p.Holds(a)
				}
			} else if g.pending(p, v) && isNilT(er) {
				ok = true
			}
			c.Ob(ok, "read", "vmDb."+g.fn, p.where(), "returns %v, %v: %s", v, er, p.Describe())
		}
	}
	c.Floor("read", 12)
	// setters
	type setter struct {
		fn   string
		what string
		ok   func(p *Path) bool
	}
	has := func(p *Path, kind string, f func(ev *Event) bool) bool {
		for _, ev := range p.Evs {
			if ev.Kind == kind && f(ev) {
				return true
			}
		}
		return false
	}
	mapset := func(m, k, v string) func(p *Path) bool {
		return func(p *Path) bool {
			return has(p, "mapset", func(ev *Event) bool {
				return (isT(ev.Args[0], "A0.uns."+m) || ev.Args[0].Op == "mkmap") && isT(ev.Args[1], k) && (v == "" || isT(ev.Args[2], v))
			})
		}
	}
	ss := []setter{
		{"SetBalance", "the balance is recorded for the token", mapset("balanceMap", "*A1", "A2")},
		{"SetContractMeta", "the meta is recorded for the contract", mapset("contractMetaMap", "A1", "A2")},
		{"SetContractCode", "the code is recorded", func(p *Path) bool {
			return has(p, "store", func(ev *Event) bool { return ev.Name == "code" && isT(ev.Args[1], "A1") })
		}},
		{"AddLog", "the log is appended", func(p *Path) bool {
			return has(p, "store", func(ev *Event) bool {
				t := ev.Args[1]
				return ev.Name == "logList" && t.Op == "append" && len(t.Args) == 2 && isT(t.Args[1], "A1") && (isT(t.Args[0], "A0.uns.logList") || !t.Args[0].mentions(func(x *Term) bool { return x.Op == "param" }))
			})
		}},
	}
	for _, s := range ss {
		f := c.Func(vmdbPkg, "vmDb."+s.fn)
		if f == nil {
			continue
		}
		for _, p := range c.all(c.Paths(vmdbEng(c), f)) {
			// writes into a pending state made by this call are not events
			ok := s.ok(p)
			if !ok && p.Holds("A0.uns == nil") {
				ok = freshSet(p, s.fn)
			}
			c.Ob(ok, "write", "vmDb."+s.fn, p.where(), "not true that %s: %s", s.what, p.Describe())
		}
	}
	// storage writes
	if f := c.Func(vmdbPkg, "vmDb.SetValue"); f != nil {
		outs := c.Paths(vmdbEng(c), f)
		for _, p := range c.success(outs, 0) {
			put := calls(p.Evs, "Put")
			good := len(put) == 1 && isT(put[0].Args[1], "A1") && isT(put[0].Args[2], "A2") && (isT(put[0].Args[0], "A0.uns.storage") || p.Holds("A0.uns == nil"))
			c.Ob(good && p.Holds("len(A1) <= 32"), "write", "vmDb.SetValue", p.where(), "the value is not stored, or a key longer than 32 bytes is: %s", p.Describe())
			if p.Holds("A0.uns == nil") {
				continue
			}
			dirty := isTrueT(p.o.st.load(mkFA(fld(param(0, f.Params[0].Type()), "uns"), "storageDirty", nil2)))
			c.Ob(dirty, "cache", "vmDb.SetValue", p.where(), "the cached list of pending storage stays valid after a write")
			del := has(p, "mapset", func(ev *Event) bool { return isT(ev.Args[0], "A0.uns.deletedKeys") && isT(ev.Args[1], "A1") })
			undel := p.Holds("!mapok(A0.uns.deletedKeys, A1)") || has(p, "mapdel", func(ev *Event) bool { return isT(ev.Args[0], "A0.uns.deletedKeys") && isT(ev.Args[1], "A1") })
			c.Ob(p.Holds("len(A2) <= 0") && del || p.Holds("len(A2) > 0") && undel && !del || p.Holds("len(A2) != 0") && undel && !del, "deleted", "vmDb.SetValue", p.where(), "the set of deleted keys does not match the value written: %s", p.Describe())
		}
		for _, p := range c.failure(outs, 0) {
			c.Ob(p.Holds("len(A1) > 32") && len(calls(p.Evs, "Put")) == 0, "write", "vmDb.SetValue", p.where(), "an allowed key is refused or a refused key is written: %s", p.Describe())
		}
	}
	c.Floor("write", 6)
	c.Floor("cache", 1)
	c.Floor("deleted", 2)
	if f := c.Func(vmdbPkg, "Unsaved.IsDelete"); f != nil {
		y, n := c.yesno(c.Paths(vmdbEng(c), f), 0)
		c.iff("deleted", "Unsaved.IsDelete", y, n, "mapok(A0.deletedKeys, A1)")
	}
	resetRules(c)
	storageList(c)
	contextRules(c)
	mergedIter(c)
}

// freshSet: the pending state made by the call contains the written value.
func freshSet(p *Path, fn string) bool {
	un := p.o.st.load(mkFA(param(0, nil), "uns", nil2))
	if un.Op != "alloc" {
		return false
	}
	switch fn {
	case "SetContractCode":
		return isT(p.o.st.load(mkFA(un, "code", nil2)), "A1")
	case "AddLog":
		t := p.o.st.load(mkFA(un, "logList", nil2))
		return t.Op == "append" && isT(t.Args[len(t.Args)-1], "A1")
	}
	return false
}

func resetRules(c *Ctx) {
	for _, fn := range []string{"Unsaved.Reset", "vmDb.Reset"} {
		f := c.Func(vmdbPkg, fn)
		if f == nil {
			continue
		}
		for _, p := range c.all(c.Paths(vmdbEng(c), f)) {
			st := p.o.st
			base := param(0, f.Params[0].Type())
			if fn == "vmDb.Reset" {
				base = fld(base, "uns")
				if p.Holds("A0.uns == nil") {
					continue // a new pending state
				}
				if un := st.load(mkFA(param(0, f.Params[0].Type()), "uns", nil2)); un.Op == "alloc" || isNilT(un) {
					c.Ob(true, "reset", fn, p.where(), "")
					continue
				}
			}
			get := func(n string) *Term { return st.load(mkFA(base, n, nil2)) }
			for _, m := range []string{"contractMetaMap", "deletedKeys", "balanceMap"} {
				ok := get(m).Op == "mkmap" || cleared(p, get(m))
				c.Ob(ok, "reset", fn+"/"+m, p.where(), "%s keeps what was pending: %v", m, get(m))
			}
			c.Ob(isNilT(get("code")) || emptyVal(st, get("code")), "reset", fn+"/code", p.where(), "the pending code stays")
			c.Ob(emptyVal(st, get("logList")), "reset", fn+"/logList", p.where(), "the pending logs stay: %v", get("logList"))
			s := get("storage")
			ok := isT(s, "New2(___)") || isT(s, "New(___)")
			for _, ev := range calls(p.Evs, "DB.Reset", "Reset") {
				ok = ok || ev.Args[0] == s && s == fld(base, "storage")
			}
			c.Ob(ok, "reset", fn+"/storage", p.where(), "pending storage writes stay")
			c.Ob(isTrueT(get("storageDirty")) || isFalseT(get("storageDirty")) && emptyVal(st, get("storageCache")), "reset", fn+"/storageCache", p.where(), "the list of pending storage used for hashing stays: dirty=%v cache=%v", get("storageDirty"), get("storageCache"))
		}
	}
	c.Floor("reset", 14)
}

// cleared: every key of the map is removed (clear or a full delete loop).
func cleared(p *Path, m *Term) bool {
	for _, ev := range p.Evs {
		if ev.Kind == "mapclear" && ev.Args[0] == m {
			return true
		}
	}
	return false
}

func emptyVal(st *State, t *Term) bool {
	if isNilT(t) || t.Op == "zero" {
		return true
	}
	l := st.lenOf(t, "len", nil)
	return isZero(l)
}

func storageList(c *Ctx) {
	if f := c.Func(vmdbPkg, "Unsaved.GetStorage"); f != nil {
		for _, p := range c.all(c.Paths(vmdbEng(c, "Next", "Key", "Value", "Release"), f)) {
			r := p.o.res[0]
			if isT(r, "A0.storageCache") && p.Holds("!A0.storageDirty") {
				c.Ob(true, "storage-list", "Unsaved.GetStorage", p.where(), "")
				continue
			}
			// rebuilt: every entry of the table, then clean
			ss := p.segs(r)
			good := len(ss) == 1 && ss[0].Loop != nil
			end := p.Holds("!Next(NewIterator(A0.storage, nil))")
			if good {
				body := 0
				for _, ev := range p.Evs {
					if ev.Kind != "loop" {
						continue
					}
					for _, it := range ev.Loop.Iters {
						body++
						n := 0
						for _, e2 := range iterEvents(ev, it) {
							if e2.Kind == "append" && len(e2.Args) >= 2 {
								v := e2.Args[1]
								k0, v0 := idxVal(v, 0), idxVal(v, 1)
								if k0 != nil && v0 != nil && isT(k0, "Key(NewIterator(A0.storage, nil))") && isT(v0, "Value(NewIterator(A0.storage, nil))") {
									n++
								}
							}
						}
						good = good && n == 1
					}
				}
				good = good && body > 0
			}
			dirty := p.o.st.load(mkFA(param(0, f.Params[0].Type()), "storageDirty", nil2))
			c.Ob(good && end && isFalseT(dirty), "storage-list", "Unsaved.GetStorage", p.where(), "the list of pending storage is %s (dirty afterwards: %v): %s", segString(ss), dirty, p.Describe())
		}
		c.Floor("storage-list", 2)
	}
	if f := c.Func(vmdbPkg, "Unsaved.ReleaseRuntime"); f != nil {
		for _, p := range c.all(c.Paths(vmdbEng(c, "GetStorage"), f)) {
			ev := calls(p.Evs, "GetStorage")
			rel := -1
			for i, e := range p.Evs {
				if e.Kind == "store" && e.Name == "storage" {
					rel = i
				}
			}
			ok := rel < 0
			for i, e := range p.Evs {
				ok = ok || len(ev) > 0 && e == ev[0] && i < rel
			}
			c.Ob(ok, "storage-list", "Unsaved.ReleaseRuntime", p.where(), "the pending storage is dropped before it is listed")
		}
	}
	if f := c.Func(vmdbPkg, "vmDb.GetReceiptHash"); f != nil {
		for _, p := range c.all(c.Paths(vmdbEng(c, "GetStorage"), f)) {
			v := p.o.res[0]
			if v.Op == "alloc" {
				v = p.o.st.load(v)
			}
			if v.Op == "zero" {
				c.Ob(p.Holds("len(GetStorage(_)) <= 0"), "receipt-hash", "vmDb.GetReceiptHash", p.where(), "the receipt hash is empty although storage was written: %s", p.Describe())
				continue
			}
			b, ok := matchT(pat("BytesToHash(Hash256(X)).R0"), v, Bind{})
			var ss []Seg
			if ok {
				ss = p.segs(b["X"])
				if b["X"].Op == "list" {
					ss = nil
					for _, a := range b["X"].Args {
						ss = append(ss, p.segs(a)...)
					}
				}
				ok = matchSegs(ss, []sp{spEach("GetStorage(_)", spS("GetStorage(_)[I][0]"), spS("GetStorage(_)[I][1]"))}, Bind{})
			}
			c.Ob(ok, "receipt-hash", "vmDb.GetReceiptHash", p.where(), "the receipt hash covers %s", segString(ss))
		}
		c.Floor("receipt-hash", 2)
	}
	if f := c.Func(vmdbPkg, "vmDb.NewStorageIterator"); f != nil {
		for _, p := range c.success(c.Paths(vmdbEng(c), f), 1) {
			b, ok := matchT(pat("NewMergedIterator(list(NewIterator(X, BytesPrefix(A1)), GetStorageIterator(A0.chain, *A0.address, A1).R0), Y)"), p.o.res[0], Bind{})
			if ok {
				ok = p.Holds("GetStorageIterator(A0.chain, *A0.address, A1).R1 == nil") && strings.Contains(b["Y"].String(), "IsDelete") && (isT(b["X"], "A0.uns.storage") || p.Holds("A0.uns == nil"))
			}
			c.Ob(ok, "iterator", "vmDb.NewStorageIterator", p.where(), "the iterator is %v", p.o.res[0])
		}
		c.Floor("iterator", 1)
	}
}

// idxVal: element i of an array value.
func idxVal(t *Term, i int64) *Term {
	for t != nil && t.Op == "updi" {
		if n, ok := i64(t.Args[1]); ok && n == i {
			return t.Args[2]
		}
		t = t.Args[0]
	}
	return nil
}

func contextRules(c *Ctx) {
	for _, x := range []struct{ fn, get, hash, cache string }{
		{"LatestSnapshotBlock", "GetSnapshotHeaderByHash(A0.chain, *A0.latestSnapshotBlockHash)", "latestSnapshotBlockHash", "latestSnapshotBlock"},
		{"PrevAccountBlock", "GetAccountBlockByHash(A0.chain, *A0.prevAccountBlockHash)", "prevAccountBlockHash", "prevAccountBlock"},
	} {
		f := c.Func(vmdbPkg, "vmDb."+x.fn)
		if f == nil {
			continue
		}
		for _, p := range c.success(c.Paths(vmdbEng(c, "IsZero"), f), 1) {
			r := p.o.res[0]
			ok := false
			switch {
			case isT(r, "A0."+x.cache):
				ok = p.Holds("A0." + x.cache + " != nil")
			case isT(r, x.get+".R0"):
				ok = p.Holds(x.get+".R1 == nil") && p.Holds(x.get+".R0 != nil") && p.Holds("A0."+x.hash+" != nil")
			case isNilT(r):
				ok = x.fn == "PrevAccountBlock" && p.Holds("IsZero(*A0.prevAccountBlockHash)")
			}
			c.Ob(ok, "context", "vmDb."+x.fn, p.where(), "returns %v without error: %s", r, p.Describe())
		}
	}
	if f := c.Func(vmdbPkg, "vmDb.PrevAccountBlockHash"); f != nil {
		for _, p := range c.all(c.Paths(vmdbEng(c), f)) {
			r := p.o.res[0]
			c.Ob(r.Op == "zero" && p.Holds("A0.prevAccountBlockHash == nil") || isT(r, "*A0.prevAccountBlockHash") && p.Holds("A0.prevAccountBlockHash != nil"), "context", "vmDb.PrevAccountBlockHash", p.where(), "returns %v", r)
		}
	}
	if f := c.Func(vmdbPkg, "vmDb.GetCallDepth"); f != nil {
		for _, p := range c.success(c.Paths(vmdbEng(c), f), 1) {
			r := p.o.res[0]
			ok := isT(r, "*A0.callDepth") && p.Holds("A0.callDepth != nil") || isT(r, "GetCallDepth(A0.chain, *A1).R0") && p.Holds("GetCallDepth(A0.chain, *A1).R1 == nil")
			c.Ob(ok, "context", "vmDb.GetCallDepth", p.where(), "returns %v: %s", r, p.Describe())
		}
	}
	if f := c.Func(vmdbPkg, "NewVmDb"); f != nil {
		outs := c.Paths(vmdbEng(c), f)
		for _, p := range c.success(outs, 1) {
			for i, n := range []string{"chain", "address", "latestSnapshotBlockHash", "prevAccountBlockHash"} {
				v := p.o.st.load(mkFA(p.o.res[0], n, nil2))
				c.Ob(isT(v, "A"+itoa(i)) && (i == 0 || p.Holds("A"+itoa(i)+" != nil")), "context", "NewVmDb/"+n, p.where(), "%s is %v, possibly nil: %s", n, v, p.Describe())
			}
		}
	}
	c.Floor("context", 10)
	if f := c.Func(vmdbPkg, "vmDb.GetLogListHash"); f != nil {
		for _, p := range c.all(c.Paths(vmdbEng(c, "LatestSnapshotBlock", "PrevAccountBlockHash"), f)) {
			b, ok := matchT(pat("Hash(X, Y, *A0.address, PrevAccountBlockHash(A0))"), p.o.res[0], Bind{})
			if ok {
				h := b["Y"]
				ok = isZero(h) && p.Holds("A0.isGenesis") || isT(h, "LatestSnapshotBlock(A0).R0.Height") && p.Holds("!A0.isGenesis")
				ok = ok && (isT(b["X"], "A0.uns.logList") || p.Holds("A0.uns == nil"))
			}
			c.Ob(ok, "log-hash", "vmDb.GetLogListHash", p.where(), "the log hash is %v: %s", p.o.res[0], p.Describe())
		}
		c.Floor("log-hash", 2)
	}
	if f := c.Func(vmdbPkg, "vmDb.GetStakeBeneficialAmount"); f != nil {
		for _, p := range c.success(c.Paths(vmdbEng(c), f), 1) {
			c.Ob(p.Holds("A0.latestSnapshotBlockHash != nil") && isT(p.o.res[0], "GetStakeBeneficialAmount(A0.chain, *A1).R0"), "context", "vmDb.GetStakeBeneficialAmount", p.where(), "returns %v", p.o.res[0])
		}
	}
}

// mergedIter: of all sources the smallest (largest) next key wins, the first
// source wins ties, deleted keys and the key just returned are skipped.
func mergedIter(c *Ctx) {
	const rel = "common/db"
	f := c.Func(rel, "MergedIterator.step")
	if f == nil {
		return
	}
	outs := c.Paths(c.Opts([]string{rel}), f)
	for _, p := range c.withRes(outs, 0, kBool(false)) {
		if p.Holds("A0.err != nil") {
			continue
		}
		none := false
		for _, e := range p.Evs {
			if e.Kind == "store" && e.Name == "err" && !isNilT(e.Args[1]) {
				none = true
			}
			if e.Kind == "loop" {
				for _, ph := range e.Loop.Phis {
					if n, ok := numVal(ph.Init); ok && constant.Sign(n) < 0 && p.F.possible(ph.Iter, kInt(0))&(EQ|GT) == 0 {
						none = true
					}
				}
				for _, it := range e.Loop.Iters {
					for _, x := range iterEvents(e, it) {
						none = none || x.Kind == "store" && x.Name == "err"
					}
				}
			}
		}
		c.Ob(none, "merge", "MergedIterator.step", p.where(), "the end is reported although a source may have a next key: %s", p.Describe())
	}
	for _, p := range c.withRes(outs, 0, kBool(true)) {
		self := param(0, f.Params[0].Type())
		win := p.o.st.load(mkFA(self, "index", nil2))
		key := p.o.st.load(mkFA(self, "prevKey", nil2))
		var ev *Event
		var W, K, I *PhiInfo
		for _, e := range p.Evs {
			if e.Kind != "loop" {
				continue
			}
			var w, k, ix *PhiInfo
			for j := range e.Loop.Phis {
				ph := &e.Loop.Phis[j]
				if ph.Iter == win {
					w = ph
				} else if ph.Iter == key {
					k = ph
				} else if stepOne(*ph) {
					ix = ph
				}
			}
			if w != nil && k != nil && ix != nil {
				ev, W, K, I = e, w, k, ix
			}
		}
		if ev == nil {
			c.Ob(false, "merge", "MergedIterator.step", p.where(), "the chosen source %v and key %v are not the result of a search over all sources", win, key)
			continue
		}
		c.Ob(p.F.possible(mk("len", "", nil, fld(self, "iters")), I.Iter)&GT == 0 && isZero(I.Init), "merge", "MergedIterator.step", p.where(), "not every source is considered: %s", p.Describe())
		forgot := false // the key just returned is forgotten when the direction changes
		for _, e := range p.Evs {
			if e == ev {
				break
			}
			forgot = forgot || e.Kind == "store" && e.Name == "prevKey" && isNilT(e.Args[1])
		}
		for j, it := range ev.Loop.Iters {
			q := &Path{c: c, o: p.o, F: it.facts, Evs: iterEvents(ev, it)}
			fwd := p.Holds("A1") || q.Holds("A1")
			bwd := p.Holds("!A1") || q.Holds("!A1")
			find := func(s string) bool { _, ok := q.F.Find(s, Bind{"Q": K.Iter, "X": I.Iter}.copy()); return ok }
			if W.Next[j] == I.Iter {
				fresh := K.Next[j] != K.Iter && (find("_ != A0.prevKey") || forgot && find("_ != nil"))
				if n := stripConv(K.Next[j]); n.Op == "mkslice" {
					key, ok := it.bytesVal(n), false
					key.mentions(func(t *Term) bool {
						ok = ok || t.Op == "bytesw" && isZero(t.Args[1]) && isTB(t.Args[3], "Key(A0.iters[X])", Bind{"X": I.Iter})
						return false
					})
					c.Ob(ok, "merge", "MergedIterator.step", p.where(), "the key of a source is not copied from the source: %s", trunc(key.String(), 200))
				}
				live := find("A0.isDelete == nil") || find("!dyn(A0.isDelete, _)")
				best := find("len(Q) <= 0") || fwd && find("Compare(A0.cmp, _, Q) < 0") || bwd && find("Compare(A0.cmp, _, Q) > 0")
				c.Ob(fresh && live && best, "merge", "MergedIterator.step", p.where(), "a source is chosen whose key may be deleted (%v), already returned (%v) or not the next in order (%v): %s", !live, !fresh, !best, q.Describe())
			} else {
				done := find("A0.iterStatus[X] == 2") && fwd || find("A0.iterStatus[X] == 0") && bwd || fwd && find("!Next(A0.iters[X])") || bwd && find("!Prev(A0.iters[X])") || find("_[X] == 2") && fwd || find("_[X] == 0") && bwd
				worse := find("len(Q) > 0") && (fwd && find("Compare(A0.cmp, _, Q) >= 0") || bwd && find("Compare(A0.cmp, _, Q) <= 0"))
				c.Ob(W.Next[j] == W.Iter && K.Next[j] == K.Iter && (done || worse), "merge", "MergedIterator.step", p.where(), "a source with a better key is passed over: %s", q.Describe())
			}
		}
	}
	c.Floor("merge", 20)
	if f := c.Func(rel, "MergedIterator.Value"); f != nil {
		for _, p := range c.all(c.Paths(c.Opts([]string{rel}), f)) {
			r := p.o.res[0]
			c.Ob(isNilT(r) || isT(r, "Value(A0.iters[A0.index])") && p.Holds("A0.err == nil"), "merge", "MergedIterator.Value", p.where(), "the value is %v", r)
		}
	}
	if f := c.Func(rel, "MergedIterator.Key"); f != nil {
		for _, p := range c.all(c.Paths(c.Opts([]string{rel}), f)) {
			r := p.o.res[0]
			c.Ob(isNilT(r) && (p.Holds("A0.err != nil") || p.Holds("A0.index < 0")) || isT(r, "A0.keys[A0.index]"), "merge", "MergedIterator.Key", p.where(), "the key is %v", r)
		}
	}
	for n, d := range map[string]string{"Next": "true", "Prev": "false"} {
		if f := c.Func(rel, "MergedIterator."+n); f != nil {
			for _, p := range c.all(c.Paths(c.Opts([]string{rel}, "step"), f)) {
				c.Ob(isT(p.o.res[0], "step(A0, "+d+")"), "merge", "MergedIterator."+n, p.where(), "%v", p.o.res[0])
			}
		}
	}
}
