package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Prop{
		ID:    "C24",
		Title: "Producer statistics count exactly the blocks of the chain they are asked for",
		Statement: "The statistics of a round, an hour or a day are those of the chain that ends in the proof block they are asked for, whatever was computed, cached or rolled back before: a stored point is used only if it ends in that very block, otherwise it is computed anew from the chain and replaces the stored one. " +
			"A round's point counts one produced block per snapshot header of the round for its producer and one expected block per election slot for the slot's producer; an hour or a day is the sum of its rounds or hours, each asked for with the block before the next one as proof; a day adds the votes of the first RandRank candidates, by name, and their total. " +
			"A producer's success rate covers the last 48 rounds, is produced x 1000000 / expected, and -1 when nothing was expected of it. Hour, day and period statistics report exactly the non-empty points in range. A point or election result read from the database is the one that was stored under that key, and keys of different kinds, heights or hashes differ.",
		Over:      []string{"histories", "inputs", "crash points"},
		Quant:     "all chains, rollbacks, cache states and index ranges",
		Why:       "The rates decide elections and the day statistics decide rewards; a stale or misattributed point is wrong only after a rollback or for rounds without blocks, and forks the node.",
		Files:     []string{"ledger/consensus/consensus_point_array.go", "ledger/consensus/cdb/point.go", "ledger/consensus/cdb/consensus.go", "ledger/consensus/rollback_proof.go", "ledger/consensus/consensus_snapshot.go", "ledger/consensus/chain_rw.go"},
		Mech:      [][2]string{{"points by proof", "ledger/consensus/consensus_point_array.go linkedArray.GetByIndexWithProof"}, {"round point", "ledger/consensus/consensus_point_array.go periodLinkedArray.genPeriodPoint"}, {"merging", "ledger/consensus/cdb/point.go mergeMap"}, {"success rate", "ledger/consensus/chain_rw.go chainRw.GetSuccessRateByHour"}, {"persistence", "ledger/consensus/cdb/consensus.go ConsensusDB"}},
		Technique: "functional specification of every step decided by path-sensitive dataflow (walks along the proof chain and per-key tallies are recognised as loop summaries and compared field by field)",
		Note:      "leveldb, protobuf and the LRU cache are trusted, as is the chain interface. That a write error of the point store is only logged is intended: the point is computed again next time.",
		Run:       runC24,
	})
}

const pointSpec = `
fn linkedArray.GetByIndex
 err 1
 def H ProofHash(A0.proof, Index2Time(A0.TimeIndex, A1).R1)
 def G GetByIndexWithProof(A0, A1, $H.R0)
 ok $H.R1 == nil
 ok $G.R1 == nil
 ret 0 $G.R0
fn linkedArray.GetByIndexWithProof
 err 1
 def D getByIndexWithProofFromDb(A0, A1, A2)
 def K getByIndexWithProofFromKernel(A0, A1, A2)
 ok $D.R2 == nil
 ok $D.R0 != nil || $K.R1 == nil
 ok $D.R0 != nil || $K.R0 != nil
 watch StorePointByHeight DeletePointByHeight
 case $D.R0 != nil
  ret 0 $D.R0
 case $D.R0 == nil && $D.R1 && $K.R0.Hash == $K.R0.PrevHash
  call DeletePointByHeight(A0.db, A0.prefix, A1)
  ret 0 $K.R0
 case $D.R0 == nil && $D.R1 && $K.R0.Hash != $K.R0.PrevHash
  call StorePointByHeight(A0.db, A0.prefix, A1, $K.R0)
  ret 0 $K.R0
 case $D.R0 == nil && !$D.R1
  call StorePointByHeight(A0.db, A0.prefix, A1, $K.R0)
  ret 0 $K.R0
fn linkedArray.getByIndexWithProofFromDb
 err 2
 def D GetPointByHeight(A0.db, A0.prefix, A1)
 def T Index2Time(A0.TimeIndex, A1)
 def E ProofEmpty(A0.proof, $T.R0, $T.R1)
 ok $D.R1 == nil
 ok $D.R0 != nil || $E.R1 == nil
 case $D.R0 == nil && $E.R0
  ret 0 obj PrevHash = A2; Hash = A2
  ret 1 false
 case $D.R0 == nil && !$E.R0
  ret 0 nil
  ret 1 false
 case $D.R0 != nil && A2 == $D.R0.Hash
  ret 0 $D.R0
  ret 1 true
 case $D.R0 != nil && A2 != $D.R0.Hash
  ret 0 nil
  ret 1 true

fn newDayLinkedArray
 ret 0.rate 24
 ret 0.prefix 3
 ret 0.lowerArr A0
 ret 0.db A1
 ret 0.proof A2
 ret 0.extraDataFn A3
 ret 0.TimeIndex NewTimeIndex(A4, 86400000000000)
fn newHourLinkedArray
 ret 0.rate 3600000000000 / A3
 ret 0.prefix 2
 ret 0.lowerArr A0
 ret 0.db A1
 ret 0.proof A2
 ret 0.TimeIndex NewTimeIndex(A4, 3600000000000)

fn periodLinkedArray.GetByIndex
 err 1
 def H ProofHash(A0.proof, Index2Time(A0.TimeIndex, A1).R1)
 def G GetByIndexWithProof(A0, A1, $H.R0)
 ok $H.R1 == nil
 ok $G.R1 == nil
 ret 0 $G.R0
fn periodLinkedArray.GetByIndexWithProof
 err 1
 def D getByIndexWithProofFromDb(A0, A1, A2)
 def K getByIndexWithProofFromChain(A0, A1, A2)
 def GEN IsGenesisSnapshotBlock(A0.rw, A2)
 ok $GEN || $D.R1 == nil
 ok $GEN || $D.R0 != nil || $K.R1 == nil
 ok $GEN || $D.R0 != nil || $K.R0 != nil
 watch Add
 case $GEN
  ret 0 obj PrevHash = A2; Hash = A2
 case !$GEN && $D.R0 != nil
  ret 0 $D.R0
 case !$GEN && $D.R0 == nil
  call Add(A0.periods, A1, $K.R0)
  ret 0 $K.R0
fn periodLinkedArray.getByIndexWithProofFromDb
 err 1
 def V Get(A0.periods, A1)
 def T Index2Time(A0.TimeIndex, A1)
 def E ProofEmpty(A0.proof, $T.R0, $T.R1)
 ok $V.R1 || $E.R1 == nil
 ok $V.R0 != nil || $E.R1 == nil
 case !$V.R1 && $E.R0
  ret 0 obj PrevHash = A2; Hash = A2
 case $V.R1 && $V.R0 == nil && $E.R0
  ret 0 obj PrevHash = A2; Hash = A2
 case !$V.R1 && !$E.R0
  ret 0 nil
 case $V.R1 && $V.R0 == nil && !$E.R0
  ret 0 nil
 case $V.R1 && $V.R0 != nil && A2 == $V.R0.Hash
  ret 0 $V.R0
 case $V.R1 && $V.R0 != nil && A2 != $V.R0.Hash
  ret 0 nil
fn periodLinkedArray.getByIndexWithProofFromChain
 err 1
 def T Index2Time(A0.snapshot, A1)
 def B GetSnapshotBlockByHash(A0.rw, A2)
 def S GetSnapshotHeadersAfterOrEqualTime(A0.rw, _, _, nil)
 def E ElectionIndex(A0.snapshot, A1)
 def G genPeriodPoint(A0, A1, _, _, A2, $S.R0, $E.R0)
 ok $B.R1 == nil
 ok $B.R0 != nil
 ok *$B.R0.Timestamp < $T.R0 || $S.R1 == nil
 ok *$B.R0.Timestamp < $T.R0 || len($S.R0) == 0 || $E.R1 == nil
 ok *$B.R0.Timestamp < $T.R0 || len($S.R0) == 0 || $G.R1 == nil
 watch GetSnapshotHeadersAfterOrEqualTime
 case *$B.R0.Timestamp < $T.R0
  ret 0 obj PrevHash = A2; Hash = A2
 case *$B.R0.Timestamp >= $T.R0 && len($S.R0) == 0
  call GetSnapshotHeadersAfterOrEqualTime(A0.rw, X, Y, nil) where X obj Hash = $B.R0.Hash; Height = $B.R0.Height where Y $T.R0
  ret 0 obj PrevHash = A2; Hash = A2
 case *$B.R0.Timestamp >= $T.R0 && len($S.R0) != 0
  call GetSnapshotHeadersAfterOrEqualTime(A0.rw, X, Y, nil) where X obj Hash = $B.R0.Hash; Height = $B.R0.Height where Y $T.R0
  ret 0 $G.R0
fn periodLinkedArray.genPeriodPoint
 err 1
 ok A4 == A5[0].Hash
 ret 0.Hash A4
 ret 0.PrevHash A5[len(A5) - 1].PrevHash

fn rollbackProof.ProofEmpty
 err 1
 def B GetSnapshotHeaderBeforeTime(A0.rw, _)
 ok $B.R1 == nil
 ok $B.R0 != nil
 ok A2 > *$B.R0.Timestamp
 watch GetSnapshotHeaderBeforeTime
 call GetSnapshotHeaderBeforeTime(A0.rw, X) where X A2
 ret 0 *$B.R0.Timestamp < A1
fn rollbackProof.ProofHash
 err 1
 def B GetSnapshotHeaderBeforeTime(A0.rw, _)
 ok $B.R1 == nil
 ok $B.R0 != nil
 watch GetSnapshotHeaderBeforeTime
 call GetSnapshotHeaderBeforeTime(A0.rw, X) where X A1
 ret 0 $B.R0.Hash
fn rollbackProof.Proof
 err 1
 def B GetSnapshotHeaderBeforeTime(A0.rw, _)
 ok $B.R1 == nil
 ok $B.R0 != nil
 ok $B.R0.Hash == A1
 watch GetSnapshotHeaderBeforeTime
 call GetSnapshotHeaderBeforeTime(A0.rw, X) where X A2
 ret 0 $B.R0
fn snapshotCs.dayVoteStat
 err 1
 def V CalVotes(A0.GroupInfo.ConsensusGroupInfo, A3, A0.rw.rw)
 ok $V.R1 == nil
 watch Sort
 call Sort(as(ByBalance, $V.R0))
fn snapshotCs.HourStats
 err 1
 def S getBaseStats(GetGenesisSnapshotBlock(A0.rw.rw).Hash, A0.rw.hourPoints, A1, A2)
 ok $S.R1 == nil
 ret 0 list each $S.R0 : obj BaseStats = $S.R0[I]
fn snapshotCs.PeriodStats
 err 1
 def S getBaseStats(GetGenesisSnapshotBlock(A0.rw.rw).Hash, A0.rw.periodPoints, A1, A2)
 ok $S.R1 == nil
 ret 0 list each $S.R0 : obj BaseStats = $S.R0[I]
`

const pointWireSpec = `
fn chainRw.init
 skip panic
 watch newPeriodPointArray newHourLinkedArray newDayLinkedArray
 touch &A0._
 touch &A0.snapshot
 touch &A0.snapshotLoadCh
 def P newRollbackProof(A0.rw)
 call newPeriodPointArray(A0.rw, A1, $P, ___)
 call newHourLinkedArray(_, A0.dbCache, $P, A1.GroupInfo.PlanInterval * 1000000000, A0.genesisTime, ___)
 call newDayLinkedArray(_, A0.dbCache, $P, _, A0.genesisTime, ___)
 post A0.periodPoints = newPeriodPointArray(___)
 post A0.hourPoints = newHourLinkedArray(newPeriodPointArray(___), ___)
 post A0.dayPoints = newDayLinkedArray(newHourLinkedArray(___), ___)
fn newPeriodPointArray
 skip panic
 def G GetInfo(A1)
 ret 0.rw A0
 ret 0.snapshot A1
 ret 0.proof A2
 ret 0.TimeIndex NewTimeIndex($G.GenesisTime, $G.PlanInterval * 1000000000)
`

const cdbSpec = `
fn Content.Copy
 ret 0.ExpectedNum A0.ExpectedNum
 ret 0.FactualNum A0.FactualNum
fn Content.Merge
 post A0.ExpectedNum = A0.ExpectedNum + A1.ExpectedNum
 post A0.FactualNum = A0.FactualNum + A1.FactualNum
fn Content.AddNum
 post A0.ExpectedNum = A0.ExpectedNum + A1
 post A0.FactualNum = A0.FactualNum + A2
fn Content.Rate
 case A0.ExpectedNum == 0
  ret 0 -1
 case A0.ExpectedNum != 0 && A0.FactualNum == 0
  ret 0 0
 case A0.ExpectedNum != 0 && A0.FactualNum != 0
  ret 0 _
fn Point.IsEmpty
 ret 0 A0.Hash == A0.PrevHash
fn NewEmptyPoint
 ret 0.Hash A0
 ret 0.PrevHash A0
fn Point.LeftAppend
 err 0
 ok A1.Hash == A0.PrevHash
 post A0.PrevHash = A1.PrevHash
 post A0.Hash = A0.Hash
 post A0.Sbps = mergeMap(A0.Sbps, A1.Sbps)
fn Point.RightAppend
 err 0
 ok A1.PrevHash == A0.Hash
 post A0.Hash = A1.Hash
 post A0.PrevHash = A0.PrevHash
 post A0.Sbps = mergeMap(A0.Sbps, A1.Sbps)

fn CreatePointKey
 ret 0 bytes byte A0; be64(A1)
fn CreateElectionResultKey
 ret 0 bytes 0; A0
fn ConsensusDB.GetPointByHeight
 err 1
 def V Get(A0.db, CreatePointKey(A1, A2), nil)
 ok $V.R1 == nil || $V.R1 == ErrNotFound
 ok $V.R1 != nil || Unmarshal(NEW, $V.R0) == nil
 case $V.R1 == ErrNotFound
  ret 0 nil
 case $V.R1 == nil
  ret 0 NEW
fn ConsensusDB.DeletePointByHeight
 watch Delete
 call Delete(A0.db, CreatePointKey(A1, A2), nil)
 ret 0 Delete(A0.db, CreatePointKey(A1, A2), nil)
fn ConsensusDB.StorePointByHeight
 err 0
 def M Marshal(A3)
 ok $M.R1 == nil
 ok Put(___) == nil
 watch Put
 call Put(A0.db, CreatePointKey(A1, A2), $M.R0, nil)
fn ConsensusDB.GetElectionResultByHash
 err 1
 def V Get(A0.db, CreateElectionResultKey(A1), nil)
 def S SetBytes(_, $V.R0)
 ok $V.R1 == nil || $V.R1 == ErrNotFound
 ok $V.R1 != nil || $S.R1 == nil
 case $V.R1 == ErrNotFound
  ret 0 nil
 case $V.R1 == nil
  ret 0 $S.R0
fn ConsensusDB.DeleteElectionResultByHash
 watch Delete
 call Delete(A0.db, CreateElectionResultKey(A1), nil)
 ret 0 Delete(A0.db, CreateElectionResultKey(A1), nil)
fn ConsensusDB.StoreElectionResultByHash
 watch Put
 call Put(A0.db, CreateElectionResultKey(A1), Bytes(A2), nil)
 ret 0 Put(A0.db, CreateElectionResultKey(A1), Bytes(A2), nil)
`

const csDbPkg = "ledger/consensus/cdb"

func runC24(c *Ctx) {
	cs := "ledger/consensus"
	e := c.Opts([]string{cs, csDbPkg}, "linkedArray.GetByIndex", "periodLinkedArray.GetByIndex", "linkedArray.GetByIndexWithProof", "linkedArray.getByIndexWithProofFromDb", "linkedArray.getByIndexWithProofFromKernel", "periodLinkedArray.GetByIndexWithProof", "periodLinkedArray.getByIndexWithProofFromDb", "periodLinkedArray.getByIndexWithProofFromChain", "periodLinkedArray.genPeriodPoint", "mergeMap", "getBaseStats", "Content.Rate", "ConsensusDB.GetPointByHeight", "ConsensusDB.StorePointByHeight", "ConsensusDB.DeletePointByHeight", "NewTimeIndex", "SnapshotBlock.Producer")
	for _, s := range parseSpecs(pointSpec) {
		c.specFn(e, cs, s, "points")
	}
	d := c.Opts([]string{csDbPkg, "common/types"}, "CreatePointKey", "CreateElectionResultKey", "Point.Marshal", "Point.Unmarshal", "AddrArr.SetBytes", "AddrArr.Bytes", "mergeMap")
	for _, s := range parseSpecs(cdbSpec) {
		c.specFn(d, csDbPkg, s, "points")
	}
	w := c.Opts([]string{cs}, "newPeriodPointArray", "newHourLinkedArray", "newDayLinkedArray", "newRollbackProof", "NewTimeIndex")
	for _, s := range parseSpecs(pointWireSpec) {
		c.specFn(w, cs, s, "points")
	}
	c.pointCustom(e, d)
}

// tally: every iteration of the loop adds the given amounts to the entry of
// the key in map m (one that starts from 0).
func (p *Path) tally(ev *Event, m *Term, key string, fields []string, vals []string) string {
	var idx *Term
	if p.ranged(ev) == nil {
		for _, ph := range ev.Loop.Phis {
			if isIntType(ph.Iter.Typ) {
				idx = ph.Iter
			}
		}
	}
	fresh := true
	for _, o := range p.Evs {
		if o == ev {
			break
		}
		walkEvents([]*Event{o}, func(x *Event) {
			if x.Kind == "mapset" && x.Args[0] == m {
				fresh = false
			}
		})
	}
	if len(ev.Loop.Iters) == 0 {
		return "the loop has no iteration"
	}
	for _, st := range ev.Loop.Iters {
		q := p.iterPath(ev, st, idx)
		if s := q.tallyOnce(m, key, fields, vals, fresh); s != "" {
			return s
		}
	}
	return ""
}

func (q *Path) tallyOnce(m *Term, key string, fields, vals []string, fresh bool) string {
	present, known := false, false
	for _, f := range q.F {
		if f.A.Op == "mapok" && f.A.Args[0] == m && isTrueT(f.B) && (f.Mask == EQ || f.Mask == NE) {
			if _, ok := q.matchV(f.A.Args[1], key); ok {
				known, present = true, f.Mask == EQ
			}
		}
		if (f.A.Op == "mapget" && f.A.Args[0] == m || f.A.Op == "iterm" && f.A.Args[0].Op == "ma" && f.A.Args[0].Args[0] == m) && isNilT(f.B) && (f.Mask == EQ || f.Mask == NE) {
			known, present = true, f.Mask == NE
		}
	}
	if !known {
		if !fresh || !strings.HasPrefix(key, "rkey(") {
			return "an entry is written without looking whether there is one"
		}
	}
	adds := map[string]*Term{}
	sets := 0
	for _, ev := range q.Evs {
		switch ev.Kind {
		case "mapset":
			if ev.Args[0] != m {
				continue
			}
			sets++
			if present {
				return "an existing entry is replaced"
			}
			if _, ok := q.matchV(ev.Args[1], key); !ok {
				return "the entry is made for " + trunc(ev.Args[1].String(), 120) + ", not for " + key
			}
			o := stripConv(ev.Args[2])
			if o.Op != "alloc" {
				return "the entry shares its counters with " + trunc(o.String(), 120)
			}
			for i, f := range fields {
				v := q.o.st.load(mkFA(o, f, nil2))
				if vals[i] == "0" && isZero(v) {
					continue
				}
				if _, ok := q.matchV(v, vals[i]); !ok {
					return f + " of a new entry is " + trunc(v.String(), 120) + ", not " + vals[i]
				}
			}
		case "store":
			a := ev.Args[0]
			if a.Op != "fa" {
				continue
			}
			b := a.Args[0]
			if b.Op == "iterm" {
				b = b.Args[0]
			}
			if (b.Op == "mapget" || b.Op == "ma") && b.Args[0] == m {
				if _, ok := q.matchV(b.Args[1], key); !ok {
					return "added to the entry of " + trunc(b.Args[1].String(), 120) + ", not of " + key
				}
				var rest []*Term
				v := ev.Args[1]
				old := fieldOf(a.Args[0], a.Sym, nil2)
				d := linPlus(toLin(v), toLin(old), constant.MakeInt64(-1))
				t := fromLin(d, nil)
				subTerms(t, func(x *Term) {
					if x.Op == "iterm" && x.Args[0] == a {
						rest = append(rest, x)
					}
				})
				if len(rest) > 0 {
					t = fromLin(linPlus(toLin(v), toLin(rest[0]), constant.MakeInt64(-1)), nil)
				}
				adds[a.Sym] = t
			}
		}
	}
	if !present {
		if sets != 1 {
			return "no entry is made for a key that has none"
		}
		return ""
	}
	var names []string
	for f := range adds {
		names = append(names, f)
	}
	sort.Strings(names)
	for i, f := range fields {
		t := adds[f]
		if t == nil {
			t = kInt(0)
		}
		if vals[i] == "0" {
			if !isZero(t) {
				return f + " of an existing entry grows by " + trunc(t.String(), 120)
			}
			continue
		}
		if _, ok := q.matchV(t, vals[i]); !ok {
			return f + " of an existing entry grows by " + trunc(t.String(), 120) + ", not " + vals[i]
		}
	}
	for _, n := range names {
		known := false
		for _, f := range fields {
			known = known || f == n
		}
		if !known {
			return "field " + n + " changes"
		}
	}
	return ""
}

// walkBack: the loop asks arr for the points first, first-1, ... each with the
// block before the point asked for last as proof. Returns the index term of
// an iteration.
func (p *Path) walkBack(ev *Event, arr string, first string, link string) (idx *Term, pts []*Term, why string) {
	subst1 := func(t *Term, init bool, k int) *Term {
		m := map[*Term]*Term{}
		for _, ph := range ev.Loop.Phis {
			if init {
				m[ph.Iter] = ph.Init
			} else {
				m[ph.Iter] = ph.Next[k]
			}
		}
		return fromLin(toLin(subst(t, m, map[*Term]*Term{})), nil)
	}
	for k, st := range ev.Loop.Iters {
		q := p.iterPath(ev, st, nil)
		var get []*Event
		for _, x := range q.Evs {
			if x.Kind == "call" && (baseName(x.Name) == "GetByIndex" || baseName(x.Name) == "GetByIndexWithProof") {
				get = append(get, x)
			}
		}
		if len(get) != 1 {
			return nil, nil, "an iteration does not ask for exactly one point"
		}
		g := get[0]
		if !isTB(g.Args[0], arr, p.B) {
			return nil, nil, "points are read from " + g.Args[0].String()
		}
		if idx == nil {
			idx = g.Args[1]
			f := subst1(idx, true, 0)
			if !isTB(f, first, p.B) {
				return nil, nil, "the walk starts with point " + f.String() + ", not " + first
			}
		}
		if g.Args[1] != idx {
			return nil, nil, "points " + idx.String() + " and " + g.Args[1].String() + " are asked for in one iteration"
		}
		nx := subst1(idx, false, k)
		if toLinS(nx) != toLinS(mkBin(token.SUB, idx, kInt(1), idx.Typ)) {
			return nil, nil, "the walk goes on from point " + idx.String() + " to " + nx.String()
		}
		pt := mk("ext", "0", nil, g.Res)
		pts = append(pts, pt)
		b := p.B.copy()
		b["X"] = g.Res
		empty := holdsB(q, "X.R0.Hash == X.R0.PrevHash", b)
		// the link
		var l *PhiInfo
		with := baseName(g.Name) == "GetByIndexWithProof"
		all := append(append([]PhiInfo(nil), ev.Loop.Phis...), ev.Loop.Cells...)
		if with {
			w := g.Args[2]
			for i := range all {
				if all[i].Iter == w || w.Op == "deref" && w.Args[0] == all[i].Iter {
					l = &all[i]
				}
			}
			if l == nil {
				return nil, nil, "the proof hash " + trunc(w.String(), 120) + " does not follow the walk"
			}
		} else {
			for i := range all {
				if isNilT(all[i].Init) && holdsB(q, "X == nil", Bind{"X": all[i].Iter}) {
					l = &all[i]
				}
			}
			if l == nil {
				return nil, nil, "a point is asked for without proof although one was found before"
			}
		}
		if link == "nil" && !isNilT(l.Init) || link != "nil" && !isTB(l.Init, link, p.B) {
			return nil, nil, "the first proof hash is " + trunc(l.Init.String(), 120) + ", not " + link
		}
		n := l.Next[k]
		nd := n
		if n.Op == "fa" {
			nd = fieldOf(n.Args[0], n.Sym, nil2)
		}
		if !(isTB(nd, "X.R0.PrevHash", b) || empty && n == l.Iter) {
			return nil, nil, "after a point, the proof hash is " + trunc(n.String(), 160)
		}
	}
	if idx == nil {
		return nil, nil, "no walk over the points"
	}
	return idx, pts, ""
}

// lessInt: a <= b - d follows from one of the path's facts (linear, integers).
func (p *Path) lessInt(a, b *Term, d int64) bool {
	want := linPlus(toLin(a), toLin(b), constant.MakeInt64(-1))
	test := func(x, y *Term, strict bool) bool { // x <= y, x < y
		have := linPlus(toLin(x), toLin(y), constant.MakeInt64(-1))
		n, ok := i64(fromLin(linPlus(want, have, constant.MakeInt64(-1)), nil))
		if !ok {
			return false
		}
		// have <= -s, want = have + n, so want <= n - s
		if strict {
			n--
		}
		return n <= -d
	}
	if n, ok := i64(fromLin(want, nil)); ok {
		return n <= -d
	}
	for _, f := range p.F {
		switch f.Mask {
		case LT:
			if test(f.A, f.B, true) {
				return true
			}
		case GT:
			if test(f.B, f.A, true) {
				return true
			}
		case LT | EQ:
			if test(f.A, f.B, false) {
				return true
			}
		case GT | EQ:
			if test(f.B, f.A, false) {
				return true
			}
		case EQ:
			if test(f.A, f.B, false) || test(f.B, f.A, false) {
				return true
			}
		}
	}
	return false
}

func (p *Path) ltT(a, b *Term) bool { return p.lessInt(a, b, 1) }
func (p *Path) leT(a, b *Term) bool { return p.lessInt(a, b, 0) }

func subTerms(t *Term, f func(*Term)) {
	if t == nil {
		return
	}
	f(t)
	for _, a := range t.Args {
		subTerms(a, f)
	}
}

// ranged: the map a loop ranges over.
func (p *Path) ranged(ev *Event) *Term {
	if ev.Kind != "loop" {
		return nil
	}
	for _, f := range p.F {
		for _, t := range []*Term{f.A, f.B} {
			if t.Op == "rok" && len(t.Args) == 1 && t.Args[0].Op == "range" && inLoopOf(ev, t) && (f.Mask == NE && isTrueT(f.B) || f.Mask == EQ && isFalseT(f.B)) {
				return t.Args[0].Args[0]
			}
		}
	}
	return nil
}

func toLinS(t *Term) string { return fromLin(toLin(t), nil).String() }

func (c *Ctx) pointCustom(e, d *Engine) {
	cs := "ledger/consensus"
	ef := []string{"ExpectedNum", "FactualNum"}
	loops := func(p *Path) []*Event {
		var r []*Event
		for _, ev := range p.Evs {
			if ev.Kind == "loop" {
				r = append(r, ev)
			}
		}
		return r
	}

	// genPeriodPoint
	f := c.Func(cs, "periodLinkedArray.genPeriodPoint")
	for _, p := range c.success(c.Paths(e, f), 1) {
		m := p.o.st.load(mkFA(stripConv(p.o.res[0]), "Sbps", nil2))
		ls := loops(p)
		c.Ob(m.Op == "mkmap", "round-tally", "genPeriodPoint", p.where(), "the counters are not those of a fresh point: %s", m)
		why := [2]string{"the round's blocks are not counted", "the round's slots are not counted"}
		for _, l := range ls {
			for i, seq := range []string{"A5", "A6.Plans"} {
				for _, sl := range p.loopsOver(seq) {
					if sl.ev == l && sl.full {
						key := []string{"Producer(A5[I])", "A6.Plans[I].Member"}[i]
						why[i] = p.tally(l, m, key, ef, [][]string{{"0", "1"}, {"1", "0"}}[i])
					}
				}
			}
		}
		writers := 0
		for _, l := range ls {
			w := false
			walkEvents([]*Event{l}, func(x *Event) { w = w || x.Kind == "mapset" && x.Args[0] == m })
			if w {
				writers++
			}
		}
		c.Ob(why[0] == "", "round-tally", "genPeriodPoint", p.where(), "blocks: %s", why[0])
		c.Ob(why[1] == "", "round-tally", "genPeriodPoint", p.where(), "slots: %s", why[1])
		c.Ob(writers == 2, "round-tally", "genPeriodPoint", p.where(), "%d loops change the counters, expected two", writers)
	}

	// mergeMap
	f = c.Func(csDbPkg, "mergeMap")
	for _, p := range c.all(c.Paths(d, f)) {
		m := p.o.res[0]
		c.Ob(m.Op == "mkmap", "merge", "mergeMap", p.where(), "the result is not a fresh map: %s", m)
		ls := loops(p)
		c.Ob(len(ls) == 2, "merge", "mergeMap", p.where(), "%d loops", len(ls))
		seen := map[string]bool{}
		for _, l := range ls {
			rg := p.ranged(l)
			if rg == nil {
				continue
			}
			a := rg.String()
			why := p.tally(l, m, "rkey("+a+")", ef, []string{"rval(" + a + ").ExpectedNum", "rval(" + a + ").FactualNum"})
			c.Ob(why == "", "merge", "mergeMap over "+a, p.where(), "%s", why)
			seen[a] = true
		}
		c.Ob(seen["A0"] && seen["A1"], "merge", "mergeMap", p.where(), "both maps have to be merged, found %v", seen)
	}
	c.Floor("merge", 5)
	c.Floor("round-tally", 4)

	// getByIndexWithProofFromKernel
	f = c.Func(cs, "linkedArray.getByIndexWithProofFromKernel")
	for _, p := range c.success(c.Paths(e, f), 1) {
		ls := loops(p)
		if len(ls) != 1 {
			c.Ob(false, "sum-of-lower", "getByIndexWithProofFromKernel", p.where(), "%d loops", len(ls))
			continue
		}
		ev := ls[0]
		idx, pts, why := p.walkBack(ev, "A0.lowerArr", "A1 * A0.rate + A0.rate - 1", "A2")
		c.Ob(why == "", "sum-of-lower", "getByIndexWithProofFromKernel", p.where(), "%s", why)
		if why != "" {
			continue
		}
		start := mkBin(token.SUB, subst(idx, phiInits(ev), map[*Term]*Term{}), mkBin(token.SUB, fieldOf(param(0, nil), "rate", nil2), kInt(1), nil), nil)
		c.Ob(p.ltT(idx, start), "sum-of-lower", "getByIndexWithProofFromKernel", p.where(), "the walk may end before the first point of the range: %s", p.F)
		r := stripConv(p.o.res[0])
		c.Ob(r.Op == "alloc" && isT(p.o.st.load(mkFA(r, "Hash", nil2)), "A2"), "sum-of-lower", "getByIndexWithProofFromKernel", p.where(), "the point does not end in the proof block")
		var sb, pv *PhiInfo
		for i := range ev.Loop.Cells {
			a := ev.Loop.Cells[i].Addr
			if a.Op == "fa" && a.Args[0] == r {
				switch a.Sym {
				case "Sbps":
					sb = &ev.Loop.Cells[i]
				case "PrevHash":
					pv = &ev.Loop.Cells[i]
				}
			}
		}
		if sb == nil || pv == nil {
			c.Ob(false, "sum-of-lower", "getByIndexWithProofFromKernel", p.where(), "the lower points are not added up")
			continue
		}
		for k, st := range ev.Loop.Iters {
			q := p.iterPath(ev, st, nil)
			bb := Bind{"X": pts[k].Args[0], "Y": sb.Iter}
			if holdsB(q, "X.R0.Hash == X.R0.PrevHash", bb) {
				c.Ob(sb.Next[k] == sb.Iter && pv.Next[k] == pv.Iter || isTB(sb.Next[k], "mergeMap(Y, X.R0.Sbps)", bb), "sum-of-lower", "empty point", p.where(), "an empty lower point changes the sum")
				continue
			}
			c.Ob(holdsB(q, "X.R0.Hash != X.R0.PrevHash", bb) && isTB(sb.Next[k], "mergeMap(Y, X.R0.Sbps)", bb), "sum-of-lower", "lower point", p.where(), "the counters become %s", trunc(sb.Next[k].String(), 200))
			c.Ob(isTB(pv.Next[k], "X.R0.PrevHash", bb), "sum-of-lower", "lower point", p.where(), "the previous hash becomes %s", trunc(pv.Next[k].String(), 200))
			c.Ob(holdsB(q, "X.R0.Hash == Z", Bind{"X": bb["X"], "Z": pv.Iter}), "sum-of-lower", "lower point", p.where(), "a lower point is added that is not the predecessor of those before")
		}
		// votes
		ne := p.F.possible(p.o.st.load(mkFA(r, "Hash", nil2)), p.o.st.load(mkFA(r, "PrevHash", nil2)))&EQ == 0
		v := p.o.st.load(mkFA(r, "Votes", nil2))
		fn := p.Holds("A0.extraDataFn != nil")
		vc := "dyn(A0.extraDataFn, A0.prefix, A1, A2)"
		switch {
		case ne && fn:
			ok := p.Holds(vc+".R1 == nil") && (isT(v, vc+".R0") || isNilT(v) && p.Holds(vc+".R0 == nil"))
			c.Ob(ok, "votes", "getByIndexWithProofFromKernel", p.where(), "the votes of a non-empty point are %s", v)
		default:
			c.Ob(isNilT(v) && (!ne || p.Holds("A0.extraDataFn == nil")), "votes", "getByIndexWithProofFromKernel", p.where(), "votes %s although none are kept", v)
		}
	}
	c.Floor("sum-of-lower", 10)
	c.Floor("votes", 3)

	// Rate
	f = c.Func(csDbPkg, "Content.Rate")
	for _, p := range c.all(c.Paths(d, f)) {
		if !p.Holds("A0.ExpectedNum != 0") || !p.Holds("A0.FactualNum != 0") {
			continue
		}
		t := stripConv(p.o.res[0])
		for t.Op == "int64" || t.Op == "conv" || len(t.Args) == 1 && t.Op != "lin" {
			t = t.Args[0]
		}
		ok := len(t.Args) == 2 && (t.Op == "big" && (t.Sym == "Div" || t.Sym == "Quo") || t.Op == "bin" && t.Sym == "/") && isT(t.Args[0], "A0.FactualNum * 1000000") && isT(t.Args[1], "A0.ExpectedNum")
		c.Ob(ok, "rate-value", "Content.Rate", p.where(), "the rate is %s, not produced x 1000000 / expected", t)
	}
	c.Floor("rate-value", 1)
	narrow := ""
	seen := map[*ssa.Function]bool{}
	var scan func(g *ssa.Function)
	scan = func(g *ssa.Function) {
		if g == nil || seen[g] || !inRepo(g) {
			return
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.BinOp:
					if bt, ok := x.Type().Underlying().(*types.Basic); ok && x.Op == token.MUL && (bt.Kind() == types.Uint32 || bt.Kind() == types.Int32 || bt.Kind() == types.Uint16 || bt.Kind() == types.Int16) {
						narrow = c.P.pos(x.Pos())
					}
				case ssa.CallInstruction:
					scan(x.Common().StaticCallee())
				}
			}
		}
	}
	scan(f)
	c.Ob(narrow == "", "rate-width", "Content.Rate", c.where(f), "the product of blocks and 1000000 is computed in 32 bits at %s and wraps above 4294 blocks", narrow)

	c.pointStats(e)
	c.pointRate(e)
	c.pointMarshal(d)
	c.dayVotes(e)
}

func phiInits(ev *Event) map[*Term]*Term {
	m := map[*Term]*Term{}
	for _, ph := range ev.Loop.Phis {
		m[ph.Iter] = ph.Init
	}
	return m
}

// pointStats: getBaseStats and DayStats report the points found walking back.
func (c *Ctx) pointStats(e *Engine) {
	cs := "ledger/consensus"
	for _, x := range []struct{ fn, arr, lo, hi string }{
		{"getBaseStats", "A1", "A2", "A3"},
		{"snapshotCs.DayStats", "A0.rw.dayPoints", "A1", "A2"},
	} {
		f := c.Func(cs, x.fn)
		n := 0
		for _, p := range c.success(c.Paths(e, f), 1) {
			var ev *Event
			for _, l := range p.Evs {
				if l.Kind == "loop" {
					ev = l
					break
				}
			}
			if ev == nil {
				c.Ob(false, "stats", x.fn, p.where(), "no walk over the points")
				continue
			}
			idx, pts, why := p.walkBack(ev, x.arr, x.hi, "nil")
			c.Ob(why == "", "stats", x.fn, p.where(), "%s", why)
			if why != "" {
				continue
			}
			// ends at the first index (or, counting down from 0, on wrap-around), or at genesis
			lo, hi := param(int(x.lo[1]-'0'), nil), param(int(x.hi[1]-'0'), nil)
			end := p.ltT(idx, lo) || p.ltT(hi, idx)
			if !end && x.fn == "getBaseStats" {
				for _, ph := range ev.Loop.Phis {
					end = end || isNilT(ph.Init) && holdsB(p, "*X == A0", Bind{"X": ph.Iter})
				}
			}
			c.Ob(end, "stats", x.fn, p.where(), "the walk may end before the first point of the range")
			var m *Term
			for k, st := range ev.Loop.Iters {
				q := p.iterPath(ev, st, nil)
				bb := Bind{"X": pts[k].Args[0]}
				empty := holdsB(q, "X.R0.Hash == X.R0.PrevHash", bb)
				var ms []*Event
				for _, y := range q.Evs {
					if y.Kind == "mapset" {
						ms = append(ms, y)
					}
				}
				if empty {
					c.Ob(len(ms) == 0, "stats", x.fn, p.where(), "an empty point is reported")
					continue
				}
				ok := len(ms) == 1 && ms[0].Args[1] == idx && isTB(ms[0].Args[2], "X.R0", bb)
				c.Ob(ok, "stats", x.fn, p.where(), "a non-empty point is not remembered under its index")
				if ok {
					m = ms[0].Args[0]
				}
			}
			if m == nil {
				continue
			}
			n++
			r := p.o.res[0]
			if isNilT(r) {
				c.Ob(p.Holds2("len(M) == 0", Bind{"M": m}), "stats", x.fn, p.where(), "nothing is reported although there are points")
				continue
			}
			c.statsList(p, x.fn, x.lo, x.hi, m, r)
		}
		c.Ob(n >= 2, "stats", x.fn, c.where(f), "only %d paths", n)
	}
	c.Floor("stats", 20)
}

func (p *Path) Holds2(s string, b Bind) bool {
	s = strings.ReplaceAll(s, "M", "X")
	return holdsB(p, s, Bind{"X": b["M"]})
}

// statsList: r has one entry for every index of [lo, hi] that has a point.
func (c *Ctx) statsList(p *Path, fn, lo, hi string, m, r *Term) {
	var ev *Event
	var lp *PhiInfo
	for _, l := range p.Evs {
		if l.Kind != "loop" {
			continue
		}
		for i := range l.Loop.Phis {
			if l.Loop.Phis[i].Iter == r {
				ev, lp = l, &l.Loop.Phis[i]
			}
		}
	}
	if ev == nil {
		c.Ob(false, "stats", fn, p.where(), "the result is not collected from the points: %s", trunc(r.String(), 150))
		return
	}
	var ix *PhiInfo
	for i := range ev.Loop.Phis {
		if ph := &ev.Loop.Phis[i]; isIntType(ph.Iter.Typ) && isTB(ph.Init, lo, p.B) {
			ix = ph
		}
	}
	if ix == nil {
		c.Ob(false, "stats", fn, p.where(), "the result does not start with index %s", lo)
		return
	}
	c.Ob(p.ltT(param(int(hi[1]-'0'), nil), ix.Iter) && isNilT(lp.Init), "stats", fn, p.where(), "the result may end before index %s", hi)
	for k, st := range ev.Loop.Iters {
		q := p.iterPath(ev, st, nil)
		b := Bind{"X": m, "I": ix.Iter, "Y": lp.Iter}
		c.Ob(toLinS(ix.Next[k]) == toLinS(mkBin(token.ADD, ix.Iter, kInt(1), nil)), "stats", fn, p.where(), "indexes are skipped")
		pt := "mapget(X, I)"
		none := holdsB(q, pt+" == nil", b) || holdsB(q, pt+".Hash == "+pt+".PrevHash", b) || fn != "getBaseStats" && holdsB(q, pt+".Votes == nil", b)
		if none {
			c.Ob(lp.Next[k] == lp.Iter, "stats", fn, p.where(), "an index without point is reported")
			continue
		}
		nb, ok := matchT(pat("append(Y, Z)"), lp.Next[k], b)
		if !ok {
			nb, ok = matchT(pat("append(Y, list(Z))"), lp.Next[k], b)
		}
		c.Ob(ok, "stats", fn, p.where(), "an index with a point becomes %s", trunc(lp.Next[k].String(), 200))
		if !ok {
			continue
		}
		o := stripConv(nb["Z"])
		ld := func(f string) *Term { return st.load(mkFA(o, f, nil2)) }
		c.Ob(ld("Index") == ix.Iter, "stats", fn, p.where(), "the entry of index i has Index %s", ld("Index"))
		if fn == "getBaseStats" {
			mm := ld("Stats")
			q.B = b
			ok := mm.Op == "mkmap" && q.isV(mm, "map range "+pt+".Sbps : rkey("+pt+".Sbps) => obj Index = I; BlockNum = rval("+pt+".Sbps).FactualNum; ExceptedBlockNum = rval("+pt+".Sbps).ExpectedNum")
			c.Ob(ok, "stats", fn, p.where(), "the entry of index i does not list the point's producers with their counts")
			continue
		}
		c.dayEntry(p, q, b, o, st, fn)
	}
}

// dayEntry: the statistics of one day.
func (c *Ctx) dayEntry(p, q *Path, b Bind, o *Term, st *State, fn string) {
	pt := "mapget(X, I)"
	ld := func(f string) *Term { return st.load(mkFA(o, f, nil2)) }
	vs := stripConv(ld("VoteSum"))
	c.Ob(isTB(st.load(mkFA(vs, "Int", nil2)), pt+".Votes.Total", b) || isTB(st.big(st.load(mkFA(vs, "Int", nil2))), pt+".Votes.Total", b), "day", fn, p.where(), "VoteSum is not the day's total: %s", st.load(mkFA(vs, "Int", nil2)))
	m := ld("Stats")
	var lv, ls *Event
	for _, l := range q.Evs {
		r := q.ranged(l)
		if r == nil {
			continue
		}
		if isTB(r, pt+".Votes.Details", b) {
			lv = l
		}
		if isTB(r, pt+".Sbps", b) {
			ls = l
		}
	}
	if lv == nil || ls == nil {
		c.Ob(false, "day", fn, p.where(), "votes or blocks of the day are not reported")
		return
	}
	for _, it := range lv.Loop.Iters {
		w := q.iterPath(lv, it, nil)
		n := 0
		for _, x := range w.Evs {
			if x.Kind == "mapset" && x.Args[0] == m {
				n++
				y := stripConv(x.Args[2])
				vc := stripConv(it.load(mkFA(y, "VoteCnt", nil2)))
				ok := isTB(x.Args[1], "rkey("+pt+".Votes.Details)", b) && isTB(it.load(mkFA(y, "Name", nil2)), "rkey("+pt+".Votes.Details)", b) && it.load(mkFA(y, "Index", nil2)) == b["I"] && isTB(it.load(mkFA(vc, "Int", nil2)), "rval("+pt+".Votes.Details)", b)
				c.Ob(ok, "day", fn, p.where(), "a candidate's entry does not have its name, votes and index")
			}
		}
		c.Ob(n == 1, "day", fn, p.where(), "a candidate with votes gets %d entries", n)
	}
	// blocks: by registered name, only for candidates with votes; the sum over all
	for k, it := range ls.Loop.Iters {
		w := q.iterPath(ls, it, nil)
		var key *Term
		present := false
		for _, f := range w.F {
			if f.A.Op == "mapok" && f.A.Args[0] == m && isTrueT(f.B) {
				key, present = f.A.Args[1], f.Mask == EQ
			}
		}
		kb, ok := Bind(nil), false
		if key != nil {
			kb, ok = matchT(pat("mapget(Z, rkey("+pt+".Sbps))"), key, b)
		}
		c.Ob(ok, "day", fn, p.where(), "blocks are not counted for the registered name of the producer")
		if ok {
			c.regNames(p, kb["Z"], fn)
		}
		adds := map[string]*Term{}
		for _, x := range w.Evs {
			if x.Kind == "store" && x.Args[0].Op == "fa" && x.Args[0].Args[0] != o {
				bs := x.Args[0].Args[0]
				if bs.Op == "iterm" {
					bs = bs.Args[0]
				}
				if (bs.Op == "mapget" || bs.Op == "ma") && bs.Args[0] == m && bs.Args[1] == key {
					adds[x.Args[0].Sym] = x.Args[1]
				}
			}
			if x.Kind == "mapset" && x.Args[0] == m {
				c.Ob(false, "day", fn, p.where(), "blocks replace a candidate's entry")
			}
		}
		for i, f := range []string{"BlockNum", "ExceptedBlockNum"} {
			v := adds[f]
			src := []string{"FactualNum", "ExpectedNum"}[i]
			if present {
				c.Ob(v != nil && addsTo(v, "rval("+pt+".Sbps)."+src, f, b), "day", fn, p.where(), "%s of a candidate becomes %v", f, v)
			} else {
				c.Ob(v == nil, "day", fn, p.where(), "%s is counted for a producer without votes", f)
			}
		}
		for i := range ls.Loop.Cells {
			a := ls.Loop.Cells[i].Addr
			if a.Op == "fa" && a.Args[0] == o && a.Sym == "BlockTotal" {
				c.Ob(isZero(ls.Loop.Cells[i].Init) && addsTo(ls.Loop.Cells[i].Next[k], "rval("+pt+".Sbps).FactualNum", "BlockTotal", b), "day", fn, p.where(), "BlockTotal becomes %s", ls.Loop.Cells[i].Next[k])
			}
		}
	}
	bt := ld("BlockTotal")
	c.Ob(bt.Op == "iterm", "day", fn, p.where(), "BlockTotal is %s", bt)
}

// addsTo: v = (old value of the field) + what.
func addsTo(v *Term, what, field string, b Bind) bool {
	for _, o := range linParts(v) {
		x := o
		if x.Op == "iterm" {
			x = x.Args[0]
		}
		if (x.Op == "fa" || x.Op == "field") && x.Sym == field {
			d := fromLin(linPlus(toLin(v), toLin(o), constant.MakeInt64(-1)), nil)
			return isTB(d, what, b)
		}
	}
	return false
}

func linParts(v *Term) []*Term {
	var r []*Term
	subTerms(v, func(x *Term) {
		if x.Op == "iterm" || x.Op == "field" {
			r = append(r, x)
		}
	})
	return r
}

// regNames: m maps every address a registration ever produced with to its name.
func (c *Ctx) regNames(p *Path, m *Term, fn string) {
	regs := "GetAllRegisterList(A0.rw.rw, GetLatestSnapshotBlock(_).Hash, SNAPSHOT_GID).R0"
	ok := false
	for _, l := range p.loopsOver(regs) {
		if !l.full {
			continue
		}
		for _, st := range l.ev.Loop.Iters {
			q := p.iterPath(l.ev, st, l.idx)
			for _, l2 := range q.loopsOver(regs + "[I].HisAddrList") {
				if !l2.full {
					continue
				}
				for _, s2 := range l2.ev.Loop.Iters {
					w := q.iterPath(l2.ev, s2, l2.idx)
					for _, x := range w.Evs {
						if x.Kind == "mapset" && x.Args[0] == m && isTB(x.Args[1], regs+"[I].HisAddrList[J]", w.B) && isTB(x.Args[2], regs+"[I].Name", w.B) {
							ok = true
						}
					}
				}
			}
		}
	}
	c.Ob(ok, "day", fn+" names", p.where(), "the names do not come from all registrations and all their addresses")
}

// pointRate: the success rate sums up to 48 rounds.
func (c *Ctx) pointRate(e *Engine) {
	cs := "ledger/consensus"
	fn := "chainRw.GetSuccessRateByHour"
	f := c.Func(cs, fn)
	n := 0
	for _, p := range c.success(c.Paths(e, f), 1) {
		var ev *Event
		for _, l := range p.Evs {
			if l.Kind == "loop" && ev == nil {
				ev = l
			}
		}
		if ev == nil {
			c.Ob(false, "rate", fn, p.where(), "no walk over the rounds")
			continue
		}
		idx, pts, why := p.walkBack(ev, "A0.periodPoints", "A1", "nil")
		c.Ob(why == "", "rate", fn, p.where(), "%s", why)
		if why != "" {
			continue
		}
		n++
		// 48 rounds, or all there are
		a1 := param(1, nil)
		i := mkBin(token.SUB, a1, idx, nil)
		end := p.leT(kInt(48), i) || p.ltT(a1, i) || p.ltT(idx, kInt(0))
		for _, pt := range pts {
			end = end || holdsB(p, "X.R0 == nil", Bind{"X": pt.Args[0]})
		}
		c.Ob(end, "rate", fn, p.where(), "the walk may end before 48 rounds: %s", p.F)
		r := p.o.res[0]
		var hm *Term
		for k, st := range ev.Loop.Iters {
			q := p.iterPath(ev, st, nil)
			c.Ob(q.ltT(i, kInt(48)) && q.leT(i, a1), "rate", fn, p.where(), "more than 48 rounds, or rounds before the first, are counted")
			done := false
			for _, l := range q.Evs {
				rg := q.ranged(l)
				if rg == nil || !isTB(rg, "X.R0.Sbps", Bind{"X": pts[k].Args[0]}) {
					continue
				}
				walkEvents([]*Event{l}, func(x *Event) {
					if x.Kind == "mapset" {
						hm = x.Args[0]
					}
				})
				q.B = Bind{"X": pts[k].Args[0]}
				var it []*Path
				for _, s2 := range l.Loop.Iters {
					it = append(it, q.iterPath(l, s2, nil))
				}
				for _, w := range it {
					why := "nothing is counted"
					if hm != nil {
						why = w.tallyOnce(hm, "rkey(X.R0.Sbps)", []string{"ExpectedNum", "FactualNum"}, []string{"rval(X.R0.Sbps).ExpectedNum", "rval(X.R0.Sbps).FactualNum"}, false)
					}
					c.Ob(why == "", "rate", fn, p.where(), "%s", why)
					done = true
				}
			}
			c.Ob(done, "rate", fn, p.where(), "a round's counters are not added")
		}
		if hm == nil {
			continue
		}
		q := *p
		q.B = Bind{"X": hm}
		c.Ob(hm != r && hm.Op == "mkmap" && q.isV(r, "map range X : rkey(X) => Rate(rval(X))"), "rate", fn, p.where(), "the result is not the rate of every producer")
	}
	c.Ob(n > 0, "rate", fn, c.where(f), "no path")
	c.Floor("rate", 8)
}

// dayVotes: the first RandRank candidates by balance, and their total.
func (c *Ctx) dayVotes(e *Engine) {
	cs := "ledger/consensus"
	fn := "snapshotCs.dayVoteStat"
	f := c.Func(cs, fn)
	V := "CalVotes(A0.GroupInfo.ConsensusGroupInfo, A3, A0.rw.rw).R0"
	for _, p := range c.success(c.Paths(e, f), 1) {
		o := stripConv(p.o.res[0])
		m := p.o.st.load(mkFA(o, "Details", nil2))
		tot := p.o.st.big(p.o.st.load(mkFA(o, "Total", nil2)))
		var ev *Event
		for _, l := range p.Evs {
			walkEvents([]*Event{l}, func(x *Event) {
				if x.Kind == "mapset" && x.Args[0] == m {
					ev = l
				}
			})
		}
		if ev == nil || ev.Kind != "loop" {
			c.Ob(false, "day-votes", fn, p.where(), "no votes are collected")
			continue
		}
		var idx *PhiInfo
		for i := range ev.Loop.Phis {
			if isIntType(ev.Loop.Phis[i].Iter.Typ) {
				idx = &ev.Loop.Phis[i]
			}
		}
		if idx == nil {
			c.Ob(false, "day-votes", fn, p.where(), "no index")
			continue
		}
		I := idx.Iter
		b := Bind{"I": I}
		end := holdsB(p, "I >= len("+V+")", b) || holdsB(p, "I >= A0.GroupInfo.ConsensusGroupInfo.RandRank", b)
		c.Ob(end, "day-votes", fn, p.where(), "the votes may end before rank RandRank: %s", p.F)
		for k, st := range ev.Loop.Iters {
			q := p.iterPath(ev, st, nil)
			c.Ob(holdsB(q, "I < A0.GroupInfo.ConsensusGroupInfo.RandRank", b), "day-votes", fn, p.where(), "candidates from rank RandRank on are counted")
			n := 0
			for _, x := range q.Evs {
				if x.Kind == "mapset" && x.Args[0] == m {
					n++
					c.Ob(isTB(x.Args[1], V+"[I].Name", b) && isTB(x.Args[2], V+"[I].Balance", b), "day-votes", fn, p.where(), "a candidate's votes are stored as %s = %s", x.Args[1], x.Args[2])
				}
			}
			c.Ob(n == 1, "day-votes", fn, p.where(), "a candidate is stored %d times", n)
			ok := false
			for _, ce := range append(append([]PhiInfo(nil), ev.Loop.Cells...), ev.Loop.Phis...) {
				if ce.Iter == tot && isZero(ce.Init) {
					d := fromLin(linPlus(toLin(ce.Next[k]), toLin(ce.Iter), constant.MakeInt64(-1)), nil)
					ok = isTB(d, V+"[I].Balance", b)
				}
			}
			c.Ob(ok, "day-votes", fn, p.where(), "the total is not the sum of the stored votes: %s", tot)
		}
	}
	c.Floor("day-votes", 6)
}

// pointMarshal: points and address lists survive storing.
func (c *Ctx) pointMarshal(_ *Engine) {
	d := c.Opts([]string{csDbPkg}, "Address.Bytes", "Address.SetBytes", "Hash.Bytes", "Hash.SetBytes", "BytesToAddress")
	f := c.Func(csDbPkg, "Point.Marshal")
	n := 0
	for _, p := range c.success(c.Paths(d, f), 1) {
		_, g := lastCall(p, "Marshal")
		ok := g != nil && isTB(p.o.res[0], "X.R0", Bind{"X": g.Res})
		c.Ob(ok, "marshal", "Point.Marshal", p.where(), "the result is not the encoded point")
		if !ok {
			continue
		}
		n++
		pb := stripConv(g.Args[0])
		st := g.St
		ld := func(fl string) *Term { return st.load(mkFA(pb, fl, nil2)) }
		c.Ob(isT(ld("Hash"), "Bytes(A0.Hash)") && isT(ld("PrevHash"), "Bytes(A0.PrevHash)"), "marshal", "Point.Marshal", p.where(), "the hashes are stored as %s, %s", ld("Hash"), ld("PrevHash"))
		entries := func(list *Term, m, what string, first int64, fields ...string) {
			var ev *Event
			for _, l := range p.Evs {
				if rg := p.ranged(l); rg != nil && isT(rg, m) {
					ev = l
				}
			}
			if ev == nil {
				c.Ob(false, "marshal", "Point.Marshal "+what, p.where(), "the entries of %s are not stored", m)
				return
			}
			if list.Op == "mkslice" {
				ln := mkBin(token.ADD, mk("len", "", nil, p.ranged(ev)), kInt(first), nil)
				c.Ob(toLinS(list.Args[0]) == toLinS(ln), "marshal", "Point.Marshal "+what, p.where(), "%s places for the entries, expected %s", list.Args[0], ln)
			}
			for k, it := range ev.Loop.Iters {
				var o *Term
				at := ""
				for a, v := range it.mem {
					if a.Op == "ia" && a.Args[0] == list {
						for _, ph := range ev.Loop.Phis {
							if ph.Iter != a.Args[1] {
								continue
							}
							if i0, ok := i64(ph.Init); ok && i0 == first && toLinS(ph.Next[k]) == toLinS(mkBin(token.ADD, ph.Iter, kInt(1), nil)) {
								o = stripConv(v)
							}
						}
						at = a.String()
					}
				}
				for _, ph := range ev.Loop.Phis {
					if ph.Iter == list {
						if b, ok := matchT(pat("append(X, Y)"), ph.Next[k], Bind{"X": ph.Iter}); ok {
							o = stripConv(b["Y"])
						}
					}
				}
				if o == nil {
					c.Ob(false, "marshal", "Point.Marshal "+what, p.where(), "an entry of %s is not stored in the next place (%s)", m, at)
					continue
				}
				for i := 0; i < len(fields); i += 2 {
					v := it.load(mkFA(o, fields[i], nil2))
					c.Ob(isT(v, fields[i+1]), "marshal", "Point.Marshal "+what, p.where(), "%s of an entry is %s, not %s", fields[i], v, fields[i+1])
				}
			}
		}
		if p.Holds("len(A0.Sbps) > 0") || p.Holds("len(A0.Sbps) != 0") || !p.Holds("len(A0.Sbps) <= 0") && !p.Holds("len(A0.Sbps) == 0") {
			entries(ld("Contents"), "A0.Sbps", "producers", 0, "Address", "Bytes(rkey(A0.Sbps))", "ENum", "rval(A0.Sbps).ExpectedNum", "FNum", "rval(A0.Sbps).FactualNum")
		}
		if p.Holds("A0.Votes == nil") {
			c.Ob(isNilT(ld("Votes")) || ld("Votes").Op == "zero", "marshal", "Point.Marshal votes", p.where(), "votes are stored for a point without votes")
			continue
		}
		l := ld("Votes")
		t0 := stripConv(st.load(mk("ia", "", nil, l, kInt(0))))
		for a, v := range st.mem {
			if a.Op == "ia" && a.Args[0] == l && isZero(a.Args[1]) {
				t0 = stripConv(v)
			}
		}
		if l.Op == "iter" {
			for _, ev := range p.Evs {
				if ev.Kind == "loop" {
					for _, ph := range ev.Loop.Phis {
						if ph.Iter == l {
							if sg := p.segsIn(st, ph.Init, 0); len(sg) == 1 {
								t0 = stripConv(sg[0].T)
							}
						}
					}
				}
			}
		}
		v0 := st.load(mkFA(t0, "VoteCnt", nil2))
		c.Ob(isT(v0, "Bytes(A0.Votes.Total)"), "marshal", "Point.Marshal votes", p.where(), "the first vote entry holds %s, not the total", v0)
		entries(l, "A0.Votes.Details", "votes", 1, "Name", "rkey(A0.Votes.Details)", "VoteCnt", "Bytes(rval(A0.Votes.Details))")
	}
	c.Ob(n >= 4, "marshal", "Point.Marshal", c.where(f), "only %d paths", n)
	c.Floor("marshal", 20)

	f = c.Func(csDbPkg, "Point.Unmarshal")
	n = 0
	for _, p := range c.success(c.Paths(d, f), 0) {
		_, g := lastCall(p, "Unmarshal")
		if g == nil || len(g.Args) < 2 {
			c.Ob(false, "unmarshal", "Point.Unmarshal", p.where(), "nothing is decoded")
			continue
		}
		n++
		pb := "out(_, _)"
		for _, h := range []string{"Hash", "PrevHash"} {
			got := false
			for _, ev := range p.Evs {
				if ev.Kind == "call" && baseName(ev.Name) == "SetBytes" && isT(ev.Args[0], "&A0."+h) {
					got = isT(ev.Args[1], pb+"."+h)
					c.Ob(got && p.F.decide(mk("bin", "==", nil, ev.Res, kNil())) == 1 || got && holdsB(p, "X == nil", Bind{"X": ev.Res}), "unmarshal", h, p.where(), "%s is set from %s, or an error of it is ignored", h, ev.Args[1])
				}
			}
			c.Ob(got || p.Holds("len("+pb+"."+h+") <= 0") || p.Holds("len("+pb+"."+h+") == 0"), "unmarshal", h, p.where(), "%s is not restored", h)
		}
		m := p.o.st.load(mkFA(param(0, nil), "Sbps", nil2))
		ok := m.Op == "mkmap"
		why := "the producers are not restored into a fresh map"
		if ok {
			ok = false
			for _, l := range p.loopsOver(pb + ".Contents") {
				if !l.full {
					continue
				}
				ok = len(l.ev.Loop.Iters) > 0
				for _, st := range l.ev.Loop.Iters {
					q := p.iterPath(l.ev, st, l.idx)
					k := 0
					for _, x := range q.Evs {
						if x.Kind != "mapset" || x.Args[0] != m {
							continue
						}
						k++
						o := stripConv(x.Args[2])
						if !(isTB(st.load(mkFA(o, "ExpectedNum", nil2)), pb+".Contents[I].ENum", q.B) && isTB(st.load(mkFA(o, "FactualNum", nil2)), pb+".Contents[I].FNum", q.B)) {
							ok, why = false, "the counters are not restored"
						}
						// the key is the address read from the entry
						good := false
						subTerms(x.Args[1], func(y *Term) {
							good = good || (y.Op == "call" || y.Op == "out") && isTB(y, "SetBytes(_, "+pb+".Contents[I].Address)", q.B) || isTB(y, "BytesToAddress("+pb+".Contents[I].Address).R0", q.B)
						})
						if !good {
							ok, why = false, "the address is restored as "+trunc(x.Args[1].String(), 200)
						}
					}
					if k != 1 {
						ok, why = false, "an entry is restored "+itoa(k)+" times"
					}
				}
			}
		}
		c.Ob(ok, "unmarshal", "producers", p.where(), "%s", why)
		vt := p.o.st.load(mkFA(param(0, nil), "Votes", nil2))
		if p.Holds("len("+pb+".Votes) <= 0") || p.Holds("len("+pb+".Votes) == 0") {
			c.Ob(vt.Op != "alloc", "unmarshal", "votes", p.where(), "votes appear out of nothing")
			continue
		}
		vt = stripConv(vt)
		tot := p.o.st.big(p.o.st.load(mkFA(vt, "Total", nil2)))
		c.Ob(tot != nil && isT(tot, "SetBytes("+pb+".Votes[0].VoteCnt)"), "unmarshal", "votes", p.where(), "the total is restored as %v", tot)
		dm := p.o.st.load(mkFA(vt, "Details", nil2))
		ok, why = false, "the votes are not restored"
		skipped := ""
		for _, l := range p.Evs {
			if l.Kind != "loop" {
				continue
			}
			for _, st := range l.Loop.Iters {
				q := p.iterPath(l, st, nil)
				k, empty := 0, false
				for _, ph := range l.Loop.Phis {
					empty = empty || isIntType(ph.Iter.Typ) && q.F.possible(ph.Iter, kInt(0)) == EQ
				}
				for _, x := range q.Evs {
					if x.Kind != "mapset" || x.Args[0] != dm {
						continue
					}
					k++
					b, m := matchT(pat(pb+".Votes[Z].Name"), x.Args[1], Bind{})
					v := st.big(x.Args[2])
					if !m || v == nil || !isTB(v, "SetBytes("+pb+".Votes[Z].VoteCnt)", b) {
						why = "an entry is restored as " + trunc(x.Args[1].String(), 100)
						ok = false
						break
					}
					ok = false
					for _, ph := range l.Loop.Phis {
						off, isN := i64(fromLin(linPlus(toLin(b["Z"]), toLin(ph.Iter), constant.MakeInt64(-1)), nil))
						if !isN {
							continue
						}
						i0, _ := i64(ph.Init)
						if i0 == -1 {
							i0 = 0 // numbered from 0
						}
						off += i0
						ok = off == 1 || off == 0 && q.F.possible(b["Z"], kInt(0))&EQ == 0
						if !stepOne(ph) {
							ok = false
						}
						ln := b["Z"]
						subTerms(x.Args[1], func(y *Term) {
							if y.Op == "elem" && y.Args[1] == b["Z"] {
								ln = mk("len", "", nil, y.Args[0])
							}
						})
						ok = ok && p.leT(ln, b["Z"])
					}
					if !ok {
						why = "not exactly the entries after the first are restored"
					}
				}
				counted := false
				walkEvents([]*Event{l}, func(x *Event) { counted = counted || x.Kind == "mapset" && x.Args[0] == dm })
				if counted && k != 1 && (k != 0 || !empty) {
					skipped = "an entry is restored " + itoa(k) + " times"
				}
			}
		}
		if skipped != "" {
			ok, why = false, skipped
		}
		c.Ob(ok, "unmarshal", "votes", p.where(), "%s", why)
	}
	c.Ob(n >= 4, "unmarshal", "Point.Unmarshal", c.where(f), "only %d paths", n)
	c.Floor("unmarshal", 20)

	f = c.Func(csDbPkg, "AddrArr.Bytes")
	for _, p := range c.all(c.Paths(d, f)) {
		c.Ob(p.isV(p.o.res[0], "list each A0 : all Bytes(A0[I])"), "addresses", "AddrArr.Bytes", p.where(), "not the concatenation of the addresses: %s", trunc(p.o.res[0].String(), 150))
	}
	f = c.Func(csDbPkg, "AddrArr.SetBytes")
	for _, p := range c.success(c.Paths(d, f), 1) {
		c.Ob(p.isV(p.o.res[0], "list times len(A1) / 21 : BytesToAddress(A1[I*21:I*21+21]).R0"), "addresses", "AddrArr.SetBytes", p.where(), "not the addresses of the bytes: %s", trunc(p.o.res[0].String(), 150))
	}
	c.Floor("addresses", 2)
}
