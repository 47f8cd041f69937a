package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Prop{
		ID:    "C38",
		Title: "A contract's pending sends are offered in order, each until it is received",
		Statement: "A send to a contract is pending from when it is inserted until its receive is inserted, and rolling back blocks undoes exactly this; each pending send is stored under its contract, caller, height and hash with its position. " +
			"For each caller the front is the pending send with the lowest height and, among those of one height, with the lowest position; a receive is accepted only for the front. " +
			"Every caller that has a pending send to a contract is offered to that contract, whatever the caller's sends to other contracts.",
		Over:  []string{"histories", "inputs"},
		Quant: "all sequences of inserted and rolled back blocks, all callers and contracts",
		Why:   "A lost or reordered pending send leaves money unreceived or makes nodes disagree on the next receive, and it only shows in particular histories of sends, receives and roll backs across contracts.",
		Files: []string{"ledger/onroad/pool/contract_pool.go", "ledger/onroad/pool/storage.go", "ledger/onroad/pool/types.go"},
		Mech: [][2]string{{"pending sends", "ledger/onroad/pool/storage.go onroadStorage.insertOnRoadTx, deleteOnRoadTx"}, {"front", "ledger/onroad/pool/contract_pool.go callerCache.lazyUpdateFrontTx"},
			{"blocks to pending sends", "ledger/onroad/pool/types.go LedgerBlockToOnRoad"}, {"insert and roll back", "ledger/onroad/pool/contract_pool.go InsertAccountBlocks, DeleteAccountBlocks"}},
		Technique: "functional specification decided by path-sensitive dataflow (results, database and table effects, loop-carried minima)",
		Note:      "Iteration of goleveldb in key order and sync.Map are trusted. That callers of the pool report every block once is C17/C18's subject, not this one's.",
		Run:       runC38,
	})
}

const onroadPkg = "ledger/onroad/pool"

const onroadSpec = `
fn onroadStorage.insertOnRoadTx
 watch Put Store Delete
 err 0
 mayfail Put(_, _, _, _) != nil
 call Store(&A0.callers, X, _) where X obj contract = A1.ToAddr; caller = A1.FromAddr
 call Put(A0.db, X, toOnroadHeightValue(A1), nil) where X bytes toOnroadHeightKey(A1)

fn onroadStorage.deleteOnRoadTx
 watch Put Store Delete
 err 0
 mayfail Delete(_, _, nil) != nil
 mayfail getFirstOnroadTx(A0, A1.ToAddr, A1.FromAddr).R1 != nil
 call Delete(A0.db, X, nil) where X bytes toOnroadHeightKey(A1)
 call if len(getFirstOnroadTx(A0, A1.ToAddr, A1.FromAddr).R0) == 0 ? Delete(&A0.callers, X) where X obj contract = A1.ToAddr; caller = A1.FromAddr

fn onroadStorage.updateFromIndex
 watch Has Put Store Delete
 err 1
 mayfail Has(_, _, _).R1 != nil
 mayfail Put(_, _, _, _) != nil
 case !Has(A0.db, _, _).R0
  ret 0 false
  call Has(A0.db, X, nil) where X bytes 1; A1.ToAddr; A1.FromAddr; be64(A1.FromHeight); A1.FromHash
 case Has(A0.db, _, _).R0
  ret 0 true
  call Has(A0.db, X, nil) where X bytes 1; A1.ToAddr; A1.FromAddr; be64(A1.FromHeight); A1.FromHash
  call Put(A0.db, Y, toOnroadHeightValue(A1), nil) where Y bytes 1; A1.ToAddr; A1.FromAddr; be64(A1.FromHeight); A1.FromHash

fn OnroadTx.toOnroadHeightKey
 plain
 ret 0 bytes 1; A0.ToAddr; A0.FromAddr; be64(A0.FromHeight); A0.FromHash

fn OnroadTx.toOnroadHeightValue
 plain
 skip A0.FromIndex == nil
 case A0.FromIndex != nil
  ret 0 bytes be32(*A0.FromIndex)

fn newOnroadTxFromBytes
 err 1
 mayfail BytesToAddress(sub(A0, 1, 22)).R1 != nil
 mayfail BytesToAddress(sub(A0, 22, 43)).R1 != nil
 mayfail BytesToHash(sub(A0, 51, 83)).R1 != nil
 case len(A1) == 4
  ret 0 obj ToAddr = BytesToAddress(sub(A0, 1, 22)).R0; FromAddr = BytesToAddress(sub(A0, 22, 43)).R0; FromHeight = rdbe64(sub(A0, 43, nil)); FromHash = BytesToHash(sub(A0, 51, 83)).R0; FromIndex = ptr rdbe32(A1)
 case len(A1) != 4
  ret 0 obj ToAddr = BytesToAddress(sub(A0, 1, 22)).R0; FromAddr = BytesToAddress(sub(A0, 22, 43)).R0; FromHeight = rdbe64(sub(A0, 43, nil)); FromHash = BytesToHash(sub(A0, 51, 83)).R0

fn newOnroadTxFromOrHashHeight
 plain
 ret 0 obj ToAddr = A1; FromAddr = A0; FromHeight = A2.Height; FromHash = A2.Hash; FromIndex = A2.SubIndex

fn newOrHashHeightFromOnroadTx
 plain
 ret 0 obj Height = A0.FromHeight; Hash = A0.FromHash; SubIndex = A0.FromIndex

fn callerCache.addTx
 watch insertOnRoadTx deleteOnRoadTx
 err 0
 mayfail insertOnRoadTx(_, _) != nil
 call insertOnRoadTx(A0.storage, X) where X obj ToAddr = A0.address; FromAddr = *A1; FromHeight = A2.Height; FromHash = A2.Hash; FromIndex = A2.SubIndex

fn callerCache.rmTx
 watch insertOnRoadTx deleteOnRoadTx
 err 0
 mayfail deleteOnRoadTx(_, _) != nil
 call deleteOnRoadTx(A0.storage, X) where X obj ToAddr = A0.address; FromAddr = *A1; FromHeight = A3.Height; FromHash = A3.Hash; FromIndex = A3.SubIndex

fn orHeightValue.dirtyTxs
 plain
 ret 0 list each A0 : A0[I].FromIndex == nil ? A0[I]

fn PendingOnRoadList.Less
 plain
 def P A0[A1].hashHeight
 def Q A0[A2].hashHeight
 case $P.Height != $Q.Height
  ret 0 iff $P.Height < $Q.Height
 case $P.Height == $Q.Height && $P.SubIndex == nil
  ret 0 false
 case $P.Height == $Q.Height && $Q.SubIndex == nil
  ret 0 false
 case $P.Height == $Q.Height && $P.SubIndex != nil && $Q.SubIndex != nil
  ret 0 iff *$P.SubIndex < *$Q.SubIndex

fn contractOnRoadPool.insertOnRoad
 watch addTx rmTx Store LoadOrStore Delete
 err 0
 mayfail addTx(_, _, _, _) != nil
 case Load(&A0.cache, A1).R1 && Load(&A0.cache, A1).R0 != nil
  call addTx(Load(&A0.cache, A1).R0, X, A3, A4) where X ptr A2
 case !Load(&A0.cache, A1).R1
  call LoadOrStore(&A0.cache, A1, Y) where Y obj address = A1; storage = A0.storage
  call addTx(LoadOrStore(&A0.cache, A1, _).R0, X, A3, A4) where X ptr A2
 case Load(&A0.cache, A1).R0 == nil
  call LoadOrStore(&A0.cache, A1, Y) where Y obj address = A1; storage = A0.storage
  call addTx(LoadOrStore(&A0.cache, A1, _).R0, X, A3, A4) where X ptr A2

fn contractOnRoadPool.deleteOnRoad
 watch addTx rmTx Store LoadOrStore Delete
 err 0
 mayfail !Load(&A0.cache, A1).R1
 mayfail Load(&A0.cache, A1).R0 == nil
 mayfail rmTx(_, _, _, _, _) != nil
 call rmTx(Load(&A0.cache, A1).R0, X, _, A3, A4) where X ptr A2

fn callerCache.initAdd
 watch addTx rmTx
 err 0
 mayfail addTx(_, _, _, _) != nil
 case IsContractAddr(A1)
  call addTx(A0, X, Y, _) where X ptr A1 where Y obj Height = A3.Height; Hash = A3.Hash; SubIndex = ZERO
 case !IsContractAddr(A1)
  call addTx(A0, X, Y, _) where X ptr A1 where Y obj Height = A3.Height; Hash = A3.Hash; SubIndex = ptr 0

fn callerCache.getAndLazyUpdateFrontTxByCaller
 err 1
 def V getFrontTxByCaller(A0, A2)
 mayfail $V.R1 != nil
 mayfail lazyUpdateFrontTx(A0, A1, $V.R0).R1 != nil
 case $V.R0 == nil
  ret 0 nil
 case $V.R0 != nil
  ret 0 lazyUpdateFrontTx(A0, A1, $V.R0).R0

fn callerCache.getFrontTxByCaller
 err 1
 mayfail GetFirstOnroadTx(A0.storage, A0.address, *A1).R1 != nil
 mayfail newOrHeightValueFromOnroadTxs(_).R1 != nil
 ret 0 ptr newOrHeightValueFromOnroadTxs(GetFirstOnroadTx(A0.storage, A0.address, *A1).R0).R0

fn newOrHeightValueFromOnroadTxs
 err 1
 ret 0 list each A0 : &A0[I]

fn callerCache.getAndLazyUpdateFrontTxOfAllCallers
 err 1
 mayfail getFrontTxOfAllCallers(A0).R1 != nil
 def T getFrontTxOfAllCallers(A0).R0
 ret 0 list each $T : lazyUpdateFrontTx(A0, A1, $T[I]).R1 == nil ? lazyUpdateFrontTx(A0, A1, $T[I]).R0

fn contractOnRoadPool.IsFrontOnRoadOfCaller
 err 1
 def F getAndLazyUpdateFrontTxByCaller(_, A0.chain, X)
 mayfail !Load(&A0.cache, A1).R1
 mayfail Load(&A0.cache, A1).R0 == nil
 mayfail $F.R1 != nil
 mayfail $F.R0 == nil
 mayfail $F.R0.Hash != A3
 ok $F.R0 != nil
 ok $F.R0.Hash == A3
 ret 0 true
`

func runC38(c *Ctx) {
	op := c.Opts([]string{onroadPkg, "common/types", "ledger/chain/utils"}, "toOnroadHeightKey", "toOnroadHeightValue", "getFirstOnroadTx", "insertOnRoadTx", "deleteOnRoadTx", "getAndLazyUpdateFrontTxByCaller", "BytesToAddress", "BytesToHash", "addTx", "rmTx", "IsContractAddr", "getFrontTxByCaller", "lazyUpdateFrontTx", "GetFirstOnroadTx", "newOrHeightValueFromOnroadTxs", "getFrontTxOfAllCallers")
	for _, s := range parseSpecs(onroadSpec) {
		e := op
		switch s.fn {
		case "OnroadTx.toOnroadHeightKey", "OnroadTx.toOnroadHeightValue":
			e = c.Opts([]string{onroadPkg, "common/types", "ledger/chain/utils"})
		case "onroadStorage.updateFromIndex":
			e = c.Opts([]string{onroadPkg, "common/types", "ledger/chain/utils"}, "toOnroadHeightValue")
		case "contractOnRoadPool.IsFrontOnRoadOfCaller":
			e = c.Opts([]string{onroadPkg}, "getAndLazyUpdateFrontTxByCaller")
		}
		c.specFn(e, onroadPkg, s, "pending-sends")
	}
	c.onroadValue()
	c.onroadFirst()
	c.onroadMin()
	c.onroadFront()
	c.onroadCallers()
	c.onroadBlocks()
	c.onroadOf()
	c.onroadFronts()
	c.onroadOffered()
	c.onroadGroup()
	c.onroadLoad()
}

// onroadFronts: the fronts of all callers with pending sends.
func (c *Ctx) onroadFronts() {
	const fn = "callerCache.getFrontTxOfAllCallers"
	x := c.pathsOf(onroadPkg, fn, "GetAllFirstOnroadTx newOrHeightValueFromOnroadTxs")
	const G = "GetAllFirstOnroadTx(A0.storage, A0.address)"
	for _, p := range x.all() {
		w := func(ok bool, f string, a ...any) { c.Ob(ok, "all-callers", fn, p.where(), f, a...) }
		if !isNilT(p.o.res[1]) {
			w(p.Holds(G+".R1 != nil") || p.Holds("newOrHeightValueFromOnroadTxs(_).R1 != nil"), "refuses without an error")
			continue
		}
		w(p.Holds(G+".R1 == nil"), "goes on without the pending sends")
		ok := false
		for _, l := range p.loopsOver(G + ".R0") {
			for _, ph := range l.ev.Loop.Phis {
				if ph.Iter != p.o.res[0] || !l.full {
					continue
				}
				ok = isNilT(ph.Init) || p.isV(ph.Init, "list")
				for k, st := range l.ev.Loop.Iters {
					q := p.iterPath(l.ev, st, nil)
					q.bind("X1", ph.Iter)
					b, m := matchT(pat("append(X1, X2)"), ph.Next[k], q.B.copy())
					w(m && isT(st.load(b["X2"]), "newOrHeightValueFromOnroadTxs(rval("+G+".R0)).R0"), "a caller is not offered: %v", ph.Next[k])
				}
			}
		}
		w(ok, "the result is not what was collected from all callers")
	}
	c.Floor("all-callers", 5)
}

// onroadOffered: the blocks of the fronts.
func (c *Ctx) onroadOffered() {
	const fn = "contractOnRoadPool.GetFrontOnRoadBlocksByAddr"
	x := c.pathsOf(onroadPkg, fn, "getAndLazyUpdateFrontTxOfAllCallers")
	const L = "getAndLazyUpdateFrontTxOfAllCallers(Load(&A0.cache, A1).R0, A0.chain)"
	for _, p := range x.all() {
		w := func(ok bool, f string, a ...any) { c.Ob(ok, "blocks-offered", fn, p.where(), f, a...) }
		if !isNilT(p.o.res[1]) {
			w(p.Holds(L+".R1 != nil") || p.Holds("GetAccountBlockByHash(_, _).R1 != nil"), "refuses without an error")
			continue
		}
		if p.Holds("!Load(&A0.cache, A1).R1") || p.Holds("Load(&A0.cache, A1).R0 == nil") {
			continue
		}
		ok := false
		for _, l := range p.loopsOver(L + ".R0") {
			for _, ph := range l.ev.Loop.Phis {
				if ph.Iter != p.o.res[0] || !l.full {
					continue
				}
				ok = isNilT(ph.Init) || p.isV(ph.Init, "list")
				for k, st := range l.ev.Loop.Iters {
					q := p.iterPath(l.ev, st, nil)
					q.bind("X1", ph.Iter)
					q.bind("X2", l.idx)
					const C, B = L + ".R0[X2].cachedBlock", "GetAccountBlockByHash(A0.chain, " + L + ".R0[X2].Hash)"
					switch {
					case ph.Next[k] == ph.Iter:
						w(q.Holds(C+" == nil") && q.Holds(B+".R1 == nil") && q.Holds(B+".R0 == nil"), "the front of a caller is not offered")
					case isT2(q, ph.Next[k], "append(X1, "+C+")"):
						w(q.Holds(C+" != nil"), "offers a block that is not there")
					default:
						w(isT2(q, ph.Next[k], "append(X1, "+B+".R0)") && q.Holds(B+".R1 == nil"), "offers %v", ph.Next[k])
					}
				}
			}
		}
		w(ok, "not the fronts of all callers are offered")
	}
	c.Floor("blocks-offered", 6)
}

// onroadGroup: every block is listed under its caller.
func (c *Ctx) onroadGroup() {
	const fn = "contractOnRoadPool.ledgerBlockListToOnRoad"
	x := c.pathsOf(onroadPkg, fn, "LedgerBlockToOnRoad IsSendBlock")
	for _, p := range x.all() {
		w := func(ok bool, f string, a ...any) { c.Ob(ok, "by-caller", fn, p.where(), f, a...) }
		if !isNilT(p.o.res[1]) {
			w(p.Holds("LedgerBlockToOnRoad(_, _).R1 != nil"), "refuses without an error")
			continue
		}
		ls := p.loopsOver("A2")
		w(len(ls) == 1 && ls[0].full, "not every block is listed")
		for _, l := range ls {
			for _, st := range l.ev.Loop.Iters {
				q := p.iterPath(l.ev, st, nil)
				q.bind("X1", l.idx)
				var last *Event
				for _, ev := range q.Evs {
					if ev.Kind == "mapset" {
						last = ev
					}
				}
				if q.Holds("A2[X1] == nil") {
					w(last == nil, "lists a missing block")
					continue
				}
				const O = "LedgerBlockToOnRoad(A0.chain, A2[X1])"
				if !w2(w, last != nil && q.Holds(O+".R1 == nil"), "a block is not listed") {
					continue
				}
				q.bind("X2", p.o.res[0])
				w(isT2(q, last.Args[0], "X2") && isT2(q, last.Args[1], O+".R0.caller"), "a block is listed under %v", last.Args[1])
				if isT2(q, last.Args[2], "append(mapget(X2, "+O+".R0.caller), "+O+".R0)") {
					continue
				}
				b, m := matchT(pat("append(X3, "+O+".R0)"), last.Args[2], q.B.copy())
				w(m && (isNilT(b["X3"]) || q.isV(b["X3"], "list")) && q.Holds("!mapok(X2, "+O+".R0.caller)"), "a block does not join those of its caller: %v", last.Args[2])
			}
		}
	}
	c.Floor("by-caller", 3)
}

// onroadLoad: what is pending in the chain is loaded.
func (c *Ctx) onroadLoad() {
	const fn, rule = "contractOnRoadPool.loadOnRoad", "load"
	f := c.Func(onroadPkg, fn)
	if f == nil {
		return
	}
	loaded := false
	for _, o := range c.Paths(c.Opts([]string{onroadPkg}, "initAdd"), f) {
		cs := calls(o.st.Events(), "LoadOnRoadRange")
		if len(cs) == 0 {
			continue
		}
		g := funcByTerm[cs[0].Args[2]]
		if g == nil || !isT(cs[0].Args[1], "A0.gid") {
			continue
		}
		loaded = true
		for _, o := range c.Paths(c.Opts([]string{onroadPkg}, "initAdd"), g) {
			p := &Path{c: c, o: o, F: o.st.facts, Evs: o.st.Events(), fn: g}
			ia := calls(p.Evs, "initAdd")
			if len(ia) == 0 {
				c.Ob(!isNilT(o.res[0]), rule, fn, p.where(), "a pending send is not loaded")
				continue
			}
			a := ia[0].Args
			c.Ob(len(ia) == 1 && isT(a[1], "A0") && isT(a[2], "A1") && isT(a[3], "A2"), rule, fn, p.where(), "loads %v", a)
			c.Ob(isT(a[0], "Load(_, A1).R0") || isT(a[0], "LoadOrStore(_, A1, _).R0"), rule, fn, p.where(), "loads into %v", a[0])
			c.Ob(isT(o.res[0], "initAdd(_, _, _, _)"), rule, fn, p.where(), "an error is lost")
		}
	}
	c.Ob(loaded, rule, fn, c.where(f), "the pending sends of the chain are not loaded")
	c.Floor(rule, 5)
}

// onroadValue: a send whose position is not known is stored without one.
func (c *Ctx) onroadValue() {
	x := c.pathsOf(onroadPkg, "OnroadTx.toOnroadHeightValue", "")
	for _, p := range x.all() {
		if p.Holds("A0.FromIndex == nil") {
			v := p.o.st.bytesVal(p.o.res[0])
			c.Ob(isNilT(v) || strings.HasPrefix(v.String(), "zero([0]"), "pending-sends", "OnroadTx.toOnroadHeightValue", p.where(), "a send without a position is stored with %v", v)
		}
	}
	x = c.pathsOf(onroadPkg, "newOnroadTxFromBytes", "BytesToAddress BytesToHash")
	for _, p := range x.success(1) {
		if p.Holds("len(A1) != 4") {
			v := p.o.st.load(mkFA(p.o.res[0], "FromIndex", nil2))
			c.Ob(isNilT(v) || isZero(v), "pending-sends", "newOnroadTxFromBytes", p.where(), "a send stored without a position is read with %v", v)
		}
	}
}

// onroadFirst: all pending sends of the lowest height.
func (c *Ctx) onroadFirst() {
	const fn = "onroadStorage.getFirstOnroadTx"
	x := c.pathsOf(onroadPkg, fn, "newOnroadTxFromBytes")
	for _, p := range x.all() {
		w := func(ok bool, f string, a ...any) { c.Ob(ok, "first-height", fn, p.where(), f, a...) }
		its := calls(p.Evs, "NewIterator")
		if len(its) != 1 || !isT(its[0].Args[0], "A0.db") {
			w(false, "does not go through the pending sends of the caller")
			continue
		}
		pre := its[0].Args[1]
		w(pre.Op == "call" && len(pre.Args) == 1 && p.isV(pre.Args[0], "bytes 1; A1; A2"), "goes through %v, not the pending sends of this caller to this contract", pre)
		p.bind("X1", its[0].Res)
		bad := p.Holds("newOnroadTxFromBytes(_, _).R1 != nil") || p.Holds("Error(X1) != nil")
		if bad || !isNilT(p.o.res[1]) {
			w(bad && !isNilT(p.o.res[1]), "refuses without, or goes on after, an error")
			continue
		}
		w(p.Holds("Error(X1) == nil"), "does not ask whether the iteration failed")
		var ev *Event
		var ph *PhiInfo
		for _, e := range p.Evs {
			if e.Kind != "loop" {
				continue
			}
			for i := range e.Loop.Phis {
				if e.Loop.Phis[i].Iter == p.o.res[0] {
					ev, ph = e, &e.Loop.Phis[i]
				}
			}
		}
		if ev == nil {
			w(false, "the result %v is not what the iteration collected", p.o.res[0])
			continue
		}
		p.bind("X2", ph.Iter)
		w(isNilT(ph.Init) || p.isV(ph.Init, "list"), "the result starts as %v", ph.Init)
		// the height of the sends collected so far
		var hs []*PhiInfo
		for i := range ev.Loop.Phis {
			if h := &ev.Loop.Phis[i]; h != ph && isZero(h.Init) {
				hs = append(hs, h)
			}
		}
		same := func(q *Path, tx *Term, eq bool) bool {
			q.bind("X3", tx)
			op := map[bool]string{true: " == ", false: " != "}[eq]
			for _, h := range hs {
				q.bind("X4", h.Iter)
				if q.Holds("X4" + op + "X3.FromHeight") {
					return true
				}
			}
			return q.Holds("X2[0].FromHeight" + op + "X3.FromHeight")
		}
		for k, st := range ev.Loop.Iters {
			q := p.iterPath(ev, st, nil)
			rd := calls(q.Evs, "newOnroadTxFromBytes")
			if len(rd) != 1 {
				w(false, "an entry is not read once")
				continue
			}
			tx := mk("ext", "0", nil, rd[0].Res)
			w(isT(rd[0].Args[0], "Key(_)") && isT(rd[0].Args[1], "Value(_)"), "reads %v, %v as an entry", rd[0].Args[0], rd[0].Args[1])
			q.bind("X1", its[0].Res)
			q.bind("X2", ph.Iter)
			q.bind("X3", tx)
			w(q.Holds("Next(X1)"), "goes on without a next entry")
			w(isT2(q, ph.Next[k], "append(X2, *X3)"), "an entry of the lowest height is not collected: %v", ph.Next[k])
			first := q.Holds("len(X2) == 0")
			for _, h := range hs {
				q.bind("X4", h.Iter)
				if q.Holds("X4 == 0") {
					first = true
					w(isT2(q, h.Next[k], "X3.FromHeight"), "the lowest height becomes %v", h.Next[k])
				} else {
					w(h.Next[k] == h.Iter || q.Holds("X4 == X3.FromHeight"), "the lowest height changes to %v", h.Next[k])
				}
			}
			w(first || same(q, tx, true), "collects entries of another height than the lowest")
		}
		if !p.Holds("!Next(X1)") {
			rd := calls(p.Evs, "newOnroadTxFromBytes")
			w(len(rd) > 0 && same(p, mk("ext", "0", nil, rd[len(rd)-1].Res), false), "stops before the entries of the lowest height are exhausted")
		}
	}
	c.Floor("first-height", 10)
}

// onroadMin: the send with the lowest position.
func (c *Ctx) onroadMin() {
	const fn = "orHeightValue.minTx"
	x := c.pathsOf(onroadPkg, fn, "")
	for _, p := range x.all() {
		w := func(ok bool, f string, a ...any) { c.Ob(ok, "lowest-position", fn, p.where(), f, a...) }
		if !isNilT(p.o.res[1]) {
			w(p.Holds("len(A0) == 0") || p.Holds("A0[_].FromIndex == nil"), "refuses although every position is known")
			continue
		}
		ok := false
		for _, ev := range p.Evs {
			if ev.Kind != "loop" {
				continue
			}
			over, idx, full := p.loopSubject(ev)
			if over == nil || !full || !isT(over, "A0") {
				continue
			}
			for _, ph := range ev.Loop.Phis {
				if ph.Iter != p.o.res[0] {
					continue
				}
				ok = isNilT(ph.Init) || isT(ph.Init, "A0[0]")
				for k, st := range ev.Loop.Iters {
					q := p.iterPath(ev, st, idx)
					q.bind("X5", ph.Iter)
					q.bind("X6", idx)
					w(q.Holds("A0[X6].FromIndex != nil"), "compares a send whose position is not known")
					if isT2(q, ph.Next[k], "A0[X6]") {
						w(q.Holds("X5 == nil") || q.Holds("*A0[X6].FromIndex <= *X5.FromIndex"), "prefers a send with a higher position")
					} else {
						w(ph.Next[k] == ph.Iter && q.Holds("*A0[X6].FromIndex >= *X5.FromIndex"), "passes over a send with a lower position")
					}
				}
			}
		}
		w(ok, "the result is not the lowest of all sends of the height")
	}
	c.Floor("lowest-position", 5)
}

// onroadFront: the front is the lowest once all positions are known.
func (c *Ctx) onroadFront() {
	const fn = "callerCache.lazyUpdateFrontTx"
	x := c.pathsOf(onroadPkg, fn, "dirtyTxs minTx updateFromIndex newOrHashHeightFromOnroadTx IsContractAddr")
	for _, p := range x.all() {
		w := func(ok bool, f string, a ...any) { c.Ob(ok, "front", fn, p.where(), f, a...) }
		ds := calls(p.Evs, "dirtyTxs")
		if len(ds) == 0 {
			w(false, "does not ask for sends without a position")
			continue
		}
		mins := calls(p.Evs, "minTx")
		last := ds[len(ds)-1]
		p.bind("X7", ds[0].Res)
		p.bind("X8", last.Res)
		w(isT(ds[0].Args[0], "*A2") && isT(last.Args[0], "*A2"), "asks for the positions of %v", last.Args[0])
		if len(mins) > 0 {
			p.bind("X5", mins[0].Res)
			w(isT(mins[0].Args[0], "*A2"), "takes the lowest of %v", mins[0].Args[0])
			w(p.Holds("len(X8) <= 0"), "takes the lowest although not every position is known")
		}
		if isNilT(p.o.res[1]) {
			w(len(mins) > 0 && p.Holds("X5.R1 == nil"), "a front is given without determining the lowest")
			w(p.Holds("X5.R0 == nil") && isNilT(p.o.res[0]) || isT2(p, p.o.res[0], "newOrHashHeightFromOnroadTx(X5.R0)"), "the front is %v", p.o.res[0])
		} else {
			w(p.Holds("len(X8) > 0") || len(mins) > 0 && p.Holds("X5.R1 != nil") || p.Holds("GetCompleteBlockByHash(_, _).R1 != nil") || p.Holds("updateFromIndex(_, _).R1 != nil") || p.Holds("!updateFromIndex(_, _).R0") || p.Holds("!IsContractAddr(_)"), "refuses although every position is known")
		}
		if p.Holds("len(X7) <= 0") {
			continue
		}
		for _, cb := range calls(p.Evs, "GetCompleteBlockByHash") {
			w(isT2(p, cb.Args[1], "X7[_].FromHash"), "positions come from the block of %v", cb.Args[1])
			p.bind("X9", mk("ext", "0", nil, cb.Res))
		}
		c.eachIter(p, func(q *Path) {
			for _, ev := range q.Evs {
				if ev.Kind != "store" {
					continue
				}
				q.bind("Y1", q.o.st.load(ev.Args[1]))
				b, ok := matchT(pat("&X7[Y2].FromIndex"), ev.Args[0], q.B.copy())
				if !w2(w, ok, "stores %v", ev.Args[0]) {
					continue
				}
				q.bind("Y2", b["Y2"])
				w(q.Holds("X7[Y2].FromHash == X9.SendBlockList[Y1].Hash"), "the position %v is not that of the send", q.B["Y1"])
				w(q.Holds("updateFromIndex(A0.storage, _).R1 == nil") && q.Holds("updateFromIndex(A0.storage, _).R0"), "the position is not stored")
			}
		})
	}
	c.Floor("front", 8)
}

func (p *Path) bind(n string, t *Term) { *p = *p.also(n, t) }

func w2(w func(bool, string, ...any), ok bool, f string, a ...any) bool {
	w(ok, f, a...)
	return ok
}

// isT2: t matches the pattern under the path's bindings.
func isT2(p *Path, t *Term, form string) bool {
	_, ok := matchT(pat(form), t, p.B.copy())
	return ok
}

// onroadCallers: every caller with pending sends is offered.
func (c *Ctx) onroadCallers() {
	rule := "callers-offered"
	const fn = "onroadStorage.GetAllFirstOnroadTx"
	f := c.Func(onroadPkg, fn)
	if f == nil {
		return
	}
	ranged := false
	for _, o := range c.Paths(c.Opts([]string{onroadPkg}, "getFirstOnroadTx"), f) {
		for _, ev := range calls(o.st.Events(), "Range") {
			g := funcByTerm[ev.Args[1]]
			if g == nil || !isT(ev.Args[0], "&A0.callers") {
				continue
			}
			ranged = true
			c.onroadCaller(fn, g, ev.Args[1], o.st)
		}
	}
	c.Ob(ranged, rule, fn, c.where(f), "does not go through the callers")
	c.Floor(rule, 4)
}

func (c *Ctx) onroadCaller(fn string, g *ssa.Function, cl *Term, st *State) {
	const rule = "callers-offered"
	free := map[string]*Term{}
	for i, v := range g.FreeVars {
		free[v.Name()] = cl.Args[i]
	}
	// outer: the value of a captured variable where the callers are gone through
	outer := func(t *Term) *Term {
		if t.Op == "deref" && len(t.Args) == 1 && t.Args[0].Op == "free" {
			return st.load(free[t.Args[0].Sym])
		}
		return t
	}
	for _, o := range c.Paths(c.Opts([]string{onroadPkg}, "getFirstOnroadTx"), g) {
		p := &Path{c: c, o: o, F: o.st.facts, Evs: o.st.Events(), fn: g}
		w := func(ok bool, f string, a ...any) { c.Ob(ok, rule, fn, p.where(), f, a...) }
		cs := calls(p.Evs, "getFirstOnroadTx")
		if len(cs) == 0 {
			ok := false
			for _, f := range p.F {
				for _, k := range [][2]*Term{{f.A, f.B}, {f.B, f.A}} {
					ok = ok || f.Mask == LT|GT && isT(k[0], "_.contract") && isT(outer(k[1]), "A1")
				}
			}
			w(ok && isTrueT(o.res[0]), "a caller is passed over although its sends may be to the contract")
			continue
		}
		k := cs[0].Args
		w(isT(outer(k[0]), "A0"), "asks %v for the pending sends", k[0])
		w(isT(outer(k[1]), "A1") || isT(k[1], "_.contract"), "asks for the pending sends to %v", k[1])
		w(isT(k[2], "_.caller"), "asks for the pending sends of %v", k[2])
		p.bind("X1", cs[0].Res)
		if p.Holds("X1.R1 != nil") {
			n := 0
			for _, ev := range p.Evs {
				if ev.Kind == "store" && isT2(p, ev.Args[1], "X1.R1") {
					n++
				}
			}
			w(n == 1 && onroadRead(g, p), "an error is lost")
			continue
		}
		w(p.Holds("X1.R1 == nil"), "does not ask whether the pending sends were found")
		w(isTrueT(o.res[0]), "the remaining callers are passed over")
		n := 0
		for _, ev := range p.Evs {
			if ev.Kind == "mapset" {
				n++
				w(ev.Args[1] == k[2] && isT2(p, ev.Args[2], "X1.R0"), "offers %v for %v", ev.Args[2], ev.Args[1])
			}
		}
		w(n == 1 || p.Holds("len(X1.R0) == 0"), "a caller with pending sends is not offered")
	}
}

// onroadRead: the captured variable the error is stored in is read by the
// enclosing function.
func onroadRead(g *ssa.Function, p *Path) bool {
	mc := closureOf(g)
	if mc == nil {
		return false
	}
	for _, ev := range p.Evs {
		if ev.Kind != "store" || ev.Args[0].Op != "free" {
			continue
		}
		for i, v := range g.FreeVars {
			if v.Name() != ev.Args[0].Sym {
				continue
			}
			if rs := mc.Bindings[i].Referrers(); rs != nil {
				for _, r := range *rs {
					if u, ok := r.(*ssa.UnOp); ok && u.Parent() == mc.Parent() {
						return true
					}
				}
			}
		}
	}
	return false
}

// onroadBlocks: what inserting and rolling back blocks does.
func (c *Ctx) onroadBlocks() {
	for fn, ins := range map[string]bool{"contractOnRoadPool.InsertAccountBlocks": true, "contractOnRoadPool.DeleteAccountBlocks": false} {
		x := c.pathsOf(onroadPkg, fn, "ledgerBlockListToOnRoad insertOnRoad deleteOnRoad IsSendBlock")
		for _, p := range x.all() {
			w := func(ok bool, f string, a ...any) { c.Ob(ok, "blocks", fn, p.where(), f, a...) }
			if !isNilT(p.o.res[0]) {
				w(p.Holds("ledgerBlockListToOnRoad(A0, A1, A2).R1 != nil"), "refuses although the blocks are known")
				continue
			}
			w(p.Holds("ledgerBlockListToOnRoad(A0, A1, A2).R1 == nil"), "goes on although the sends are not known")
			lists := 0
			for _, l := range p.loopsOver("ledgerBlockListToOnRoad(A0, A1, A2).R0") {
				lists++
				w(l.full, "not every caller is processed")
				for _, st := range l.ev.Loop.Iters {
					c.onroadList(p.iterPath(l.ev, st, nil), ins, w)
				}
			}
			w(lists == 1, "goes %d times through the callers", lists)
		}
	}
	c.Floor("blocks", 20)
}

func (c *Ctx) onroadList(q *Path, ins bool, w func(bool, string, ...any)) {
	done := false
	for _, ev := range q.Evs {
		if ev.Kind != "loop" {
			continue
		}
		var over, idx *Term
		full := false
		for _, l := range append(q.loopsOver("rval(_)"), q.loopsOver("mapget(X, rkey(X))")...) {
			if l.ev == ev && l.idx != nil {
				over, idx, full = l.seq, l.idx, l.full
			}
		}
		if over == nil {
			w(false, "does not go through all blocks of a caller")
			continue
		}
		done = true
		w(full, "not every block of a caller is processed")
		for _, st := range ev.Loop.Iters {
			r := q.iterPath(ev, st, nil)
			r.bind("X1", over)
			r.bind("X2", idx)
			send := r.Holds("IsSendBlock(X1[X2].block)")
			w(send || r.Holds("!IsSendBlock(X1[X2].block)"), "does not ask whether a block is a send")
			i, d := calls(r.Evs, "insertOnRoad"), calls(r.Evs, "deleteOnRoad")
			if send != ins {
				i, d = d, i
			}
			w(len(i) == 1 && len(d) == 0, "a send or receive does not become what it must: %d inserted, %d deleted", len(i), len(d))
			for _, ev := range i {
				a := ev.Args
				w(isT2(r, a[1], "X1[X2].orAddr") && isT2(r, a[2], "X1[X2].caller") && isT2(r, a[3], "X1[X2].hashHeight"), "another send is changed: %v", a)
			}
		}
	}
	w(done, "the blocks of a caller are not processed")
}

// onroadOf: the pending send a block creates or receives.
func (c *Ctx) onroadOf() {
	const fn = "LedgerBlockToOnRoad"
	x := c.pathsOf(onroadPkg, fn, "IsSendBlock IsContractAddr")
	for _, p := range x.all() {
		w := func(ok bool, f string, a ...any) { c.Ob(ok, "pending-send-of-block", fn, p.where(), f, a...) }
		const G = "GetAccountBlockByHash(A0, A1.FromBlockHash)"
		if !isNilT(p.o.res[1]) {
			w(p.Holds(G+".R1 != nil") || p.Holds(G+".R0 == nil") || p.Holds("GetCompleteBlockByHash(A0, _).R1 != nil") || p.Holds("GetCompleteBlockByHash(A0, _).R0 == nil"), "refuses a known block")
			continue
		}
		S := "A1"
		if !p.Holds("IsSendBlock(A1)") {
			S = G + ".R0"
			w(p.Holds("!IsSendBlock(A1)") && p.Holds(S+" != nil") && p.Holds(G+".R1 == nil"), "goes on without the send")
		}
		r := p.o.res[0]
		ld := func(fs ...string) *Term {
			a := r
			for _, f := range fs {
				a = mkFA(a, f, nil2)
			}
			return p.o.st.load(a)
		}
		w(isT(ld("block"), "A1"), "the block is %v", ld("block"))
		w(isT(ld("caller"), S+".AccountAddress"), "the caller is %v", ld("caller"))
		w(isT(ld("orAddr"), S+".ToAddress"), "the contract is %v", ld("orAddr"))
		hh := func(f string) *Term { return ld("hashHeight", f) }
		w(isT(hh("Hash"), S+".Hash"), "the hash is %v", hh("Hash"))
		if p.Holds("!IsContractAddr(" + S + ".AccountAddress)") {
			w(isT(hh("Height"), S+".Height"), "the height is %v", hh("Height"))
			w(isZero(p.o.st.load(hh("SubIndex"))), "the position is %v", hh("SubIndex"))
			continue
		}
		w(p.Holds("IsContractAddr("+S+".AccountAddress)"), "does not ask whether the caller is a contract")
		C := "GetCompleteBlockByHash(A0, " + S + ".Hash)"
		w(p.Holds(C+".R1 == nil") && p.Holds(C+".R0 != nil"), "goes on without the complete block")
		w(isT(hh("Height"), C+".R0.Height"), "the height is %v", hh("Height"))
		if p.exhausted(C+".R0.SendBlockList", C+".R0.SendBlockList[I].Hash != "+S+".Hash") {
			continue
		}
		p.bind("X1", stripConv(p.o.st.load(hh("SubIndex"))))
		w(p.Holds(C+".R0.SendBlockList[X1].Hash == "+S+".Hash"), "the position is %v", p.B["X1"])
	}
	c.Floor("pending-send-of-block", 20)
}
