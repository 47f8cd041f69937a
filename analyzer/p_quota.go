package main

import (
	"crypto/sha256"
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"math/big"
	"regexp"
	"sort"
	"strings"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Prop{
		ID:    "C36",
		Title: "Quota is the documented function of stake, proof of work and recent use",
		Statement: "The quota a block may spend is what its account's stake yields per snapshot over the last 75 snapshots, less what the account's blocks took in each of them (never below zero), plus what the block's proof of work yields, at most 1000000; a contract whose last block ran out of quota gets none until that block has 75 confirmations, and an account gets quota by proof of work at most once between two snapshots. " +
			"Stake and difficulty yield 280 per section of their table, scaled down by the congestion ratio, which depends only on the quota used on the whole ledger in the last 74 snapshots. " +
			"The counts behind this follow the ledger: a block inserted is added to its account's and the ledger's counts and one removed is taken off, a snapshot moves the blocks it confirms into the window's next place, and a roll back takes off the snapshots removed and reads what is then missing of the window from the ledger again.",
		Over:  []string{"inputs", "histories"},
		Quant: "all stakes, difficulties, quota histories and ledger sizes; all sequences of block insertions, snapshots and roll backs",
		Why:   "Tests check a few amounts around table borders and short chains; a wrong window border or a count that is not taken back only shows after many snapshots or a roll back, and makes nodes disagree on which blocks are valid.",
		Files: []string{"vm/quota/quota.go", "vm/quota/params.go", "ledger/chain/cache/quota_list.go", "ledger/chain/cache/unconfirmed_pool.go", "ledger/chain/cache/cache.go"},
		Mech: [][2]string{{"available quota", "vm/quota/quota.go calcQuotaTotal"}, {"congestion", "vm/quota/quota.go CalcQc"}, {"tables", "vm/quota/params.go stakeAmountListMainnet"},
			{"window of use", "ledger/chain/cache/quota_list.go quotaList.moveNext"}, {"roll back", "ledger/chain/cache/quota_list.go quotaList.Rollback"}},
		Technique: "functional specification decided by path-sensitive dataflow (results, writes, loop-carried sums) and checks over the literal tables",
		Note:      "The tables are fixed values of the network, known to the check by their digests. That the ledger's segments read on a rebuild are those on disk is the subject of C29; that the chain calls the cache once per block is not decided here.",
		Run:       runC36,
	})
}

const quotaPkg = "vm/quota"

const quotaSpec = `
fn CalcBlockQuotaUsed
 plain
 def Q calcPoWQuotaByQc(A0, A1.Difficulty, A2)
 ret 1 nil
 case !IsPoW(A1)
 ret 0 A1.QuotaUsed
 case IsPoW(A1) && A1.QuotaUsed > $Q
 ret 0 A1.QuotaUsed - $Q
 case IsPoW(A1) && A1.QuotaUsed <= $Q
 ret 0 0

fn GetSnapshotCurrentQuota
 plain
 def F dyn(quotaConfig.calcQuotaFunc, A0, A1, A2, 0, A3)
 case $F.R7 == nil
 ret 0 $F.R3
 ret 1 nil
 case $F.R7 != nil && $F.R7 == ErrInvalidUnconfirmedQuota
 ret 0 $F.R3
 ret 1 nil
 case $F.R7 != nil && $F.R7 != ErrInvalidUnconfirmedQuota
 ret 0 0
 ret 1 $F.R7

fn GetQuota
 plain
 def F dyn(quotaConfig.calcQuotaFunc, A0, A1, A2, 0, A3)
 ret 0 NewQuota($F.R1, $F.R0, $F.R4, $F.R3, $F.R5, $F.R6)
 ret 1 $F.R7

fn GetQuotaForBlock
 err 2
 def F dyn(quotaConfig.calcQuotaFunc, A0, A1, A2, A3, A4)
 ok $F.R7 == nil
 case $F.R0 <= 1000000
 ret 0 $F.R0
 ret 1 $F.R2
 case $F.R0 > 1000000 && $F.R2 <= 1000000
 ret 0 1000000
 ret 1 $F.R2
 case $F.R0 > 1000000 && $F.R2 > 1000000
 ret 0 1000000
 ret 1 1000000

fn CheckQuota
 plain
 case A1.blocked
 ret 0 false
 ret 1 A1.blockReleaseHeight
 case !A1.blocked && A1.current >= A1.avg
 ret 0 true
 ret 1 0
 case !A1.blocked && A1.current < A1.avg
 ret 0 false
 ret 1 1

fn calcQuotaV3
 plain
 def T calcQuotaTotal(A0, A1, A2, A3, A4)
 case A3 == nil
 ret 0 $T.R0
 ret 1 $T.R1
 ret 2 $T.R2
 ret 3 $T.R3
 ret 4 $T.R4
 ret 5 $T.R5
 ret 6 $T.R6
 ret 7 $T.R7
 case A3 != nil && A3 <= 0
 ret 0 $T.R0
 ret 1 $T.R1
 ret 2 $T.R2
 ret 3 $T.R3
 ret 4 $T.R4
 ret 5 $T.R5
 ret 6 $T.R6
 ret 7 $T.R7
 case A3 != nil && A3 > 0 && CanPoW(A0, A1)
 ret 0 $T.R0
 ret 1 $T.R1
 ret 2 $T.R2
 ret 3 $T.R3
 ret 4 $T.R4
 ret 5 $T.R5
 ret 6 $T.R6
 ret 7 $T.R7
 case A3 != nil && A3 > 0 && !CanPoW(A0, A1)
 ret 0 0
 ret 2 0
 ret 7 ErrCalcPoWTwice

fn isBlocked
 plain
 def B GetLatestAccountBlock(A0, A1)
 def T GetConfirmedTimes(A0, $B.R0.Hash)
 case A1[20] != 1
 ret 0 false
 ret 2 nil
 case A1[20] == 1 && $B.R1 != nil
 ret 2 $B.R1
 case A1[20] == 1 && $B.R1 == nil && $B.R0 == nil
 ret 0 false
 ret 2 nil
 case A1[20] == 1 && $B.R1 == nil && $B.R0 != nil && $B.R0.BlockType != 5
 ret 0 false
 ret 2 nil
 case A1[20] == 1 && $B.R1 == nil && $B.R0 != nil && $B.R0.BlockType == 5 && $T.R1 != nil
 ret 2 $T.R1
 case A1[20] == 1 && $B.R1 == nil && $B.R0 != nil && $B.R0.BlockType == 5 && $T.R1 == nil && $T.R0 < 75
 ret 0 true
 ret 1 75 - $T.R0
 ret 2 nil
 case A1[20] == 1 && $B.R1 == nil && $B.R0 != nil && $B.R0.BlockType == 5 && $T.R1 == nil && $T.R0 >= 75
 ret 0 false
 ret 2 nil

fn calcStakeQuota
 plain
 case A2 == nil
 ret 0 0
 case A2 != nil && A2 <= 0
 ret 0 0
 case A2 != nil && A2 > 0
 ret 0 calcQuotaByIndex(getIndexInBigIntList(calcStakeParam(A0, A1, A2), quotaConfig.stakeAmountList, 0, 3571))

fn calcPoWQuota
 plain
 case A2 == nil
 ret 0 0
 case A2 != nil && A2 <= 0
 ret 0 0
 case A2 != nil && A2 > 0
 ret 0 calcQuotaByIndex(getIndexInBigIntList(calcStakeParam(A0, A1, A2), quotaConfig.difficultyList, 0, 3571))

fn calcPoWQuotaByQc
 plain
 case A1 == nil
 ret 0 0
 case A1 != nil && A1 <= 0
 ret 0 0
 case A1 != nil && A1 > 0
 ret 0 calcQuotaByIndex(getIndexInBigIntList(calcStakeParamByQc(A0, A1, A2), quotaConfig.difficultyList, 0, 3571))

fn calcStakeParamByQc
 plain
 def Q CalcQc(A0, A2)
 ret 0 calcStakeParam($Q.R0, $Q.R2, A1)

fn calcStakeParam
 plain
 case !A1
 ret 0 A2
 case A1
 ret 0 Div(A2 * A0, 1000000000000000000)

fn calcQuotaByIndex
 plain
 case A0 >= 0 && A0 <= 3571
 ret 0 280 * A0
 case A0 < 0
 ret 0 0
 case A0 > 3571
 ret 0 0

fn getIndexByQuota
 err 1
 def I (A0 + 279) / 280
 ok $I <= 3571
 ret 0 $I
 mayfail true

fn getExactIndex
 plain
 case A2 == 0
 ret 0 A2
 case A2 != 0 && A1[A2] <= A0
 ret 0 A2
 case A2 != 0 && A1[A2] > A0
 ret 0 A2 - 1

fn CalcPoWDifficulty
 err 1
 def I getIndexByQuota(A1)
 def D calcStakeTargetParamByQc(A0, quotaConfig.difficultyList[$I.R0], A3)
 ok A1 <= 1000000
 ok A2.current >= A1 || $I.R1 == nil
 ok A2.current >= A1 || $D.R2 == nil
 case A2.current >= A1
 ret 0 0
 case A2.current < A1
 ret 0 $D.R0

fn CalcStakeAmountByQuota
 err 1
 ok A0 <= 999880
 case A0 == 0
 ret 0 0
 case A0 != 0
 ret 0 quotaConfig.stakeAmountList[(A0 + 279) / 280]

fn calcStakeTargetParamByQc
 plain
 def Q CalcQc(A0, A2)
 ret 1 $Q.R0
 case !$Q.R2
 ret 0 A1
 ret 2 nil
 case $Q.R2
 ret 0 calcStakeTargetParam($Q.R0, true, A1).R0
 ret 2 calcStakeTargetParam($Q.R0, true, A1).R1

fn CalcQc
 plain
 def G GetGlobalQuota(A0).QuotaUsedTotal
 def I ($G + 1553999) / 1554000
 case !IsDexUpgrade(A1)
 ret 2 false
 case IsDexUpgrade(A1) && $I < quotaConfig.qcIndexMin
 ret 0 qcDivision
 ret 1 $G
 ret 2 false
 case IsDexUpgrade(A1) && $I >= quotaConfig.qcIndexMin && $I < quotaConfig.qcIndexMax
 ret 0 mapget(quotaConfig.qcMap, $I)
 ret 1 $G
 ret 2 true
 case IsDexUpgrade(A1) && $I >= quotaConfig.qcIndexMin && $I >= quotaConfig.qcIndexMax
 ret 0 mapget(quotaConfig.qcMap, quotaConfig.qcIndexMax)
 ret 1 $G
 ret 2 true
`

func runC36(c *Ctx) {
	for _, s := range parseSpecs(quotaSpec) {
		c.specFn(c.Opts([]string{quotaPkg, "common/types"}, "IsPoW", "calcPoWQuotaByQc", "CanPoW", "calcQuotaTotal", "CalcQc", "calcQuotaByIndex", "getIndexInBigIntList", "calcStakeParam", "calcStakeParamByQc", "calcStakeTargetParam", "calcStakeTargetParamByQc", "getIndexByQuota", "NewQuota", "IsDexUpgrade"), quotaPkg, s, "quota")
	}
	c.quotaTotal()
	c.quotaSearch()
	c.quotaTables()
	c.quotaLists()
	c.quotaInit()
}

// quotaTotal: what is left of the stake's yield over the window.
func (c *Ctx) quotaTotal() {
	fn := "calcQuotaTotal"
	n := 0
	for _, p := range c.pathsOf(quotaPkg, fn, "CalcQc isBlocked calcStakeQuota calcPoWQuota").all() {
		w := func(ok bool, f string, a ...any) { c.Ob(ok, "quota-left", fn, p.where(), f, a...) }
		r := p.o.res
		if p.Holds("isBlocked(A0, A1).R2 != nil") {
			w(isT(r[7], "isBlocked(A0, A1).R2"), "swallows the error of the lookup of the last block")
			continue
		}
		if !p.Holds("isBlocked(A0, A1).R2 == nil") {
			w(false, "does not ask whether the account is blocked")
			continue
		}
		n++
		one := func(name, form string) *Term {
			evs := calls(p.Evs, name)
			if len(evs) == 0 || !isT(stripConv(evs[0].Res), form) {
				return nil
			}
			return evs[0].Res
		}
		const qc = "CalcQc(A0, A4).R0, CalcQc(A0, A4).R2, "
		s, pw, l := one("calcStakeQuota", "calcStakeQuota("+qc+"A2)"), one("calcPoWQuota", "calcPoWQuota("+qc+"A3)"), one("GetQuotaUsedList", "GetQuotaUsedList(A0, A1)")
		w(s != nil, "the stake's yield is not that of the stake amount under the current congestion")
		w(pw != nil, "the proof of work's yield is not that of the difficulty under the current congestion")
		w(l != nil, "the use is not that of the account")
		if s == nil || pw == nil || l == nil {
			continue
		}
		q := *p
		q.B = Bind{"S": s, "W": pw, "L": l, "T": kInt(0), "U": kInt(0), "B": kInt(0)}
		looped := false
		for _, ev := range p.Evs {
			if ev.Kind != "loop" {
				continue
			}
			var j, t, u, b *Term
			for _, ph := range ev.Loop.Phis {
				if i, ok := i64(ph.Init); !ok || i != 0 && i != -1 {
					continue
				}
				all := func(field string) bool {
					for _, x := range ph.Next {
						m, ok := matchT(pat("Y + GetQuotaUsedList(A0, A1)[J]."+field), x, Bind{"Y": ph.Iter})
						_ = m
						if !ok {
							return false
						}
					}
					return true
				}
				switch {
				case stepOne(ph):
					j = ph.Iter
				case all("QuotaUsedTotal"):
					u = ph.Iter
				case all("BlockCount"):
					b = ph.Iter
				default:
					t = ph.Iter
				}
			}
			if j == nil || t == nil || u == nil || b == nil {
				w(false, "the loop over the window does not sum what was used, the blocks and what is left")
				continue
			}
			looped = true
			q.B["T"], q.B["U"], q.B["B"], q.B["J"] = t, u, b, j
			w(q.rel("J + 1 >= len(L)"), "the window is left before its last snapshot but one")
			for k, st := range ev.Loop.Iters {
				it := p.iterPath(ev, st, nil)
				it.fn, it.B = p.fn, q.B
				w(it.rel("J + 1 < len(L)"), "the part of the window that is confirmed includes the unconfirmed blocks")
				for _, ph := range ev.Loop.Phis {
					x := ph.Next[k]
					switch ph.Iter {
					case u:
						w(it.eq(x, "U + L[J].QuotaUsedTotal"), "the quota used is summed to %s", x)
					case b:
						w(it.eq(x, "B + L[J].BlockCount"), "the blocks are counted to %s", x)
					case t:
						w(it.eq(x, "T + S - L[J].QuotaTotal") && it.rel("T + S >= L[J].QuotaTotal") || it.eq(x, "0") && it.rel("T + S <= L[J].QuotaTotal"), "what is left after a snapshot is %s, not the yield less what was taken, or nothing", x)
					}
				}
			}
		}
		w(looped || q.rel("len(L) <= 1"), "the confirmed part of the window is not looked at")
		avg, left := "0", "T"
		if q.rel("len(L) >= 1") {
			left = "T + S"
			q.B["Q"] = q.expr("L[len(L) - 1].QuotaTotal")
			q.B["U"], q.B["B"] = q.expr("U + L[len(L) - 1].QuotaUsedTotal"), q.expr("B + L[len(L) - 1].BlockCount")
		} else {
			w(q.rel("len(L) <= 0"), "it is not decided whether there is a window")
			q.B["Q"] = kInt(0)
		}
		if q.rel("B > 0") {
			avg = "U / B"
		} else {
			w(q.rel("B <= 0"), "it is not decided whether there are blocks to average over")
		}
		w(q.eq(r[1], "S"), "the stake's yield is given as %s", r[1])
		w(q.eq(r[3], left), "the quota of the snapshot is given as %s", r[3])
		w(avg == "0" && q.eq(r[4], "0") || avg != "0" && stripConv(r[4]) == q.expr(avg), "the average use is given as %s", r[4])
		bl := p.Holds("isBlocked(A0, A1).R0")
		w(isT(r[5], "isBlocked(A0, A1).R0") || bl && isTrueT(r[5]) || p.Holds("!isBlocked(A0, A1).R0") && isFalseT(r[5]), "blocked is given as %s", r[5])
		w(isT(r[6], "isBlocked(A0, A1).R1"), "the release height is given as %s", r[6])
		switch {
		case q.rel(left + " < Q"):
			w(q.eq(r[0], "0") && q.eq(r[2], "0") && isT(r[7], "ErrInvalidUnconfirmedQuota"), "more was taken than there is, and no error is returned")
		case q.rel(left + " >= Q"):
			w(isNilT(r[7]), "an error is returned although the quota is sufficient")
			if bl {
				w(q.eq(r[0], "0") && q.eq(r[2], "0"), "a blocked contract gets the quota %s", r[0])
			} else {
				w(p.Holds("!isBlocked(A0, A1).R0"), "it is not decided whether the account is blocked")
				w(q.eq(r[0], left+" - Q + W") && q.eq(r[2], "W"), "the quota is %s", r[0])
			}
		default:
			w(false, "it is not decided whether more was taken than there is: %s", p.Describe())
		}
	}
	c.Ob(n >= 6, "quota-left", fn, "", "no path computes the quota")

	fn = "calcStakeTargetParam"
	n = 0
	for _, p := range c.pathsOf(quotaPkg, fn, "calcStakeParam").success(1) {
		n++
		v := p.o.st.big(p.o.res[0])
		q := p.with("X", v)
		c.Ob(q.Holds("calcStakeParam(A0, A1, X) >= A2") && q.Holds("BitLen(X) <= 256"), "quota-target", fn, p.where(), "the value returned is not known to yield the target, or to fit: %s", p.Describe())
	}
	c.Ob(n >= 1, "quota-target", fn, "", "no path returns a value")

	fn = "CanPoW"
	n = 0
	for _, p := range c.pathsOf(quotaPkg, fn, "IsPoW").all() {
		const bs = "GetUnconfirmedBlocks(A0, A1)"
		r, ok := kBoolOf(p.o.res[0])
		n++
		switch {
		case !ok:
			c.Ob(false, "quota-pow", fn, p.where(), "the answer %s is not decided", p.o.res[0])
		case r:
			c.Ob(p.exhausted(bs, "!IsPoW("+bs+"[I])") || p.norm().Path.Holds("len("+bs+") == 0"), "quota-pow", fn, p.where(), "allows a proof of work without looking at all unconfirmed blocks")
		default:
			c.Ob(p.Holds("IsPoW("+bs+"[_])"), "quota-pow", fn, p.where(), "refuses a proof of work although no unconfirmed block has one")
		}
	}
	c.Ob(n >= 2, "quota-pow", fn, "", "no path answers")
}

// quotaSearch: the section of a value is found by bisection.
func (c *Ctx) quotaSearch() {
	fn := "getIndexInBigIntList"
	x := c.pathsOf(quotaPkg, fn, "getExactIndex")
	n := 0
	step := func(p *Path, l, r, l2, r2 *Term) {
		n++
		q := *p
		q.B = Bind{"L": l, "R": r}
		m := q.expr("(L + R + 1) / 2")
		q.B["M"] = m
		cmp := q.F.possible(q.expr("A1[M]"), q.expr("A0"))
		up := q.eq(l2, "M") && q.eq(r2, "R") && cmp&GT == 0
		down := q.eq(l2, "L") && q.eq(r2, "M - 1") && cmp&^GT == 0
		c.Ob(up || down, "quota-section", fn, p.where(), "the search goes on in [%s, %s]: %s", l2, r2, p.Describe())
	}
	end := func(p *Path, l, r *Term) {
		q := *p
		q.B = Bind{"L": l, "R": r}
		res := stripConv(p.o.res[0])
		m := q.expr("(L + R + 1) / 2")
		q.B["M"] = m
		n++
		c.Ob(q.same(l, r) && (isT(res, "getExactIndex(A0, A1, _)") && q.same(res.Args[2], l)) || q.eq(res, "(L + R + 1) / 2") && q.F.possible(q.expr("A1[M]"), q.expr("A0")) == EQ, "quota-section", fn, p.where(), "the search ends with %s: %s", res, p.Describe())
	}
	for _, p := range x.all() {
		l, r := param(2, x.f.Params[2].Type()), param(3, x.f.Params[3].Type())
		for _, ev := range p.Evs {
			if ev.Kind != "loop" || len(ev.Loop.Phis) < 1 {
				continue
			}
			var pl, pr *PhiInfo
			for i := range ev.Loop.Phis {
				ph := &ev.Loop.Phis[i]
				if ph.Init == l {
					pl = ph
				}
				if ph.Init == r {
					pr = ph
				}
			}
			if pl == nil || pr == nil {
				continue
			}
			for k, st := range ev.Loop.Iters {
				q := p.iterPath(ev, st, nil)
				q.fn = p.fn
				step(q, pl.Iter, pr.Iter, pl.Next[k], pr.Next[k])
			}
			l, r = pl.Iter, pr.Iter
		}
		if evs := calls(p.Evs, fn); len(evs) == 1 && stripConv(p.o.res[0]) == stripConv(evs[0].Res) {
			a := evs[0].Args
			c.Ob(isT(a[0], "A0") && isT(a[1], "A1"), "quota-section", fn, p.where(), "the search goes on for another value or in another list")
			step(p, l, r, a[2], a[3])
			continue
		}
		end(p, l, r)
	}
	c.Ob(n >= 3, "quota-section", fn, "", "no search")
}

// quotaTables: the tables hold the network's values.
func (c *Ctx) quotaTables() {
	for _, t := range []struct {
		name string
		n    int
		up   int
		sum  string
	}{
		{"stakeAmountListMainnet", 3572, 1, "20257f103084346e"},
		{"stakeAmountListTestnet", 3572, 1, "72d5ca15fd1697c4"},
		{"difficultyListMainnet", 3572, 1, "1c26a44f3752427a"},
		{"difficultyListTestnet", 3572, 1, "8a5ad6d452dba339"},
		{"qcMapMainnet", 450, -1, "135276a1ac6ee645"},
	} {
		x, pk := c.globalExpr(quotaPkg, t.name)
		cl, ok := x.(*ast.CompositeLit)
		if !c.Ob(ok, "quota-table", t.name, "", "the table is not a literal") {
			continue
		}
		where := c.P.pos(cl.Pos())
		h := sha256.New()
		var prev *big.Int
		bad := ""
		var rows []string
		for i, e := range cl.Elts {
			key := i
			if kv, ok := e.(*ast.KeyValueExpr); ok {
				k, ok := constant.Int64Val(constant.ToInt(pk.TypesInfo.Types[kv.Key].Value))
				if !ok {
					bad = "a key that is not constant"
					break
				}
				key, e = int(k), kv.Value
			}
			if call, ok := e.(*ast.CallExpr); ok && len(call.Args) == 1 {
				e = call.Args[0]
			}
			tv := pk.TypesInfo.Types[e].Value
			if tv == nil {
				bad = "a value that is not constant"
				break
			}
			v := tv.ExactString()
			if tv.Kind() == constant.String {
				v = constant.StringVal(tv)
			}
			rows = append(rows, fmt.Sprintf("%06d:%s", key, v))
		}
		sort.Strings(rows)
		for _, r := range rows {
			_, v, _ := strings.Cut(r, ":")
			n, ok := new(big.Int).SetString(v, 10)
			if !ok || prev != nil && prev.Cmp(n)*t.up > 0 {
				bad = "the values do not go one way at " + r
				break
			}
			prev = n
			fmt.Fprintln(h, r)
		}
		c.Ob(bad == "", "quota-table", t.name, where, "%s", bad)
		c.Ob(len(rows) == t.n, "quota-table", t.name, where, "the table has %d entries, not %d", len(rows), t.n)
		c.Ob(fmt.Sprintf("%x", h.Sum(nil)[:8]) == t.sum, "quota-table", t.name, where, "a value differs from the network's: digest %x", h.Sum(nil)[:8])
	}
}

const cachePkg = "ledger/chain/cache"

var quotaFields = []string{"BlockCount", "QuotaTotal", "QuotaUsedTotal"}

const quotaCacheSpec = `
fn quotaList.init
 err 0
 watch build moveNext
 ordered
 ok build(A0) == nil
 call build(A0)
 call moveNext(A0, NEW)
 post A0.status = 1

fn Cache.insertAccountBlock
 plain
 watch Add InsertAccountBlock
 call InsertAccountBlock(A0.ds, A1)
 call InsertAccountBlock(A0.hd, A1)
 call InsertAccountBlock(A0.unconfirmedPool, A1)
 call Add(A0.quotaList, A1.AccountAddress, A1.Quota, A1.QuotaUsed)

fn Cache.InsertAccountBlock
 plain
 watch insertAccountBlock
 call insertAccountBlock(A0, A1)

fn Cache.RollbackAccountBlocks
 err 0
 watch Sub DeleteBlocks DeleteAccountBlocks
 call DeleteBlocks(A0.unconfirmedPool, A1)
 call DeleteAccountBlocks(A0.hd, A1)
 call DeleteAccountBlocks(A0.ds, A1)
 call each A1 : Sub(A0.quotaList, A1[I].AccountAddress, A1[I].Quota, A1[I].QuotaUsed)

fn Cache.InsertSnapshotBlock
 plain
 watch DeleteBlocks NewNext
 call DeleteBlocks(A0.unconfirmedPool, A2)
 call NewNext(A0.quotaList, A2)

fn Cache.RollbackSnapshotBlocks
 err 0
 watch Rollback DeleteAllBlocks insertAccountBlock
 mayfail true
 ok Rollback(A0.quotaList, A1) == nil
 call Rollback(A0.quotaList, A1)
 call DeleteAllBlocks(A0.unconfirmedPool)
 call each A2 : insertAccountBlock(A0, A2[I])

fn UnconfirmedPool.InsertAccountBlock
 plain
 watch mapset
 post A0.insertedList = append(A0.insertedList, A1.Hash)
 call mapset(A0.insertedMap, A1.AccountAddress, append(mapget(A0.insertedMap, A1.AccountAddress), A1.Hash))

fn UnconfirmedPool.GetBlocks
 plain
 ret 0 list each A0.insertedList : GetAccountBlock(A0.ds, A0.insertedList[I])

fn UnconfirmedPool.GetBlocksByAddress
 plain
 ret 0 list each mapget(A0.insertedMap, *A1) : GetAccountBlock(A0.ds, mapget(A0.insertedMap, *A1)[I])

fn UnconfirmedPool.DeleteAllBlocks
 plain
 post A0.insertedList = nil
 post A0.insertedMap = NEW

fn Cache.ResetUnconfirmedQuotas
 plain
 watch ResetUnconfirmedQuotas
 call ResetUnconfirmedQuotas(A0.quotaList, A1)

fn Cache.GetQuotaUsedList
 plain
 ret 0 GetQuotaUsedList(A0.quotaList, A1)

fn Cache.GetGlobalQuota
 plain
 ret 0 GetGlobalQuota(A0.quotaList)
`

// quotaLists: the counts per snapshot and their sums.
func (c *Ctx) quotaLists() {
	for _, s := range parseSpecs(quotaCacheSpec) {
		c.specFn(c.Opts([]string{cachePkg}, "build", "moveNext", "insertAccountBlock", "InsertAccountBlock", "Add", "Sub", "DeleteBlocks", "DeleteAccountBlocks", "Rollback", "DeleteAllBlocks", "GetAccountBlock", "DeleteSnapshotBlock", "SetLatestSnapshotBlock", "IsLarge", "DelayDeleteAccountBlocks", "InsertSnapshotBlock", "NewNext", "ResetUnconfirmedQuotas", "GetQuotaUsedList", "GetGlobalQuota"), cachePkg, s, "quota-cache")
	}
	const rule = "quota-count"
	a0 := func(x *fnPaths, f string) *Term { return fieldOf(param(0, x.f.Params[0].Type()), f, nil2) }
	global := func(x *fnPaths, p *Path, f string) (*Term, *Term) {
		r := param(0, x.f.Params[0].Type())
		return fieldOf(p.o.st.load(mkFA(r, "globalUsed", nil2)), f, nil2), fieldOf(fieldOf(r, "globalUsed", nil2), f, nil2)
	}
	untouched := func(p *Path) bool {
		n := 0
		walkEvents(p.Evs, func(ev *Event) {
			if ev.Kind == "store" || ev.Kind == "mapset" || ev.Kind == "mapdel" || ev.Kind == "call" && (ev.Name != "" && strings.Contains(ev.Name, "list.")) {
				n++
			}
		})
		return n == 0
	}
	all := func(fn, opaque string, min int, f func(x *fnPaths, p *Path, w func(bool, string, ...any))) {
		fn = "quotaList." + fn
		x := c.pathsOf(cachePkg, fn, opaque)
		n := 0
		for _, p := range x.all() {
			n++
			f(x, p, func(ok bool, s string, a ...any) { c.Ob(ok, rule, fn, p.where(), s+": %s", append(a, p.Describe())...) })
		}
		c.Ob(n >= min, rule, fn, "", "only %d paths", n)
	}

	vals := []string{"1", "A2", "A3"}
	for _, sign := range []int64{1, -1} {
		fn := map[int64]string{1: "Add", -1: "Sub"}[sign]
		all(fn, "", 2, func(x *fnPaths, p *Path, w func(bool, string, ...any)) {
			s := ""
			if sign > 0 {
				s = p.tallyOnce(a0(x, "backElement"), "A1", quotaFields, vals, false)
			} else {
				s = p.untallyOnce(a0(x, "backElement"), "A1", vals)
			}
			w(s == "", "%s", s)
			for i, f := range quotaFields {
				now, was := global(x, p, f)
				d := linPlus(linForm{constant.MakeInt64(0), map[*Term]constant.Value{}}, linPlus(toLin(now), toLin(was), constant.MakeInt64(-1)), constant.MakeInt64(sign))
				_, ok := p.matchV(fromLin(d, nil), vals[i])
				w(ok, "the ledger's %s becomes %s", f, now)
			}
		})
	}
	all("GetGlobalQuota", "", 1, func(x *fnPaths, p *Path, w func(bool, string, ...any)) {
		for _, f := range quotaFields {
			_, was := global(x, p, f)
			v := p.unsum(fieldOf(p.o.res[0], f, nil2))
			w(linIs(v, was, 1, mapSum(a0(x, "backElement"), f), -1), "%s is %s, not that of the confirmed blocks of the window", f, v)
		}
	})
	all("GetQuotaUsedList", "", 1, func(x *fnPaths, p *Path, w func(bool, string, ...any)) {
		ok := false
		for _, ev := range p.Evs {
			if ev.Kind != "loop" {
				continue
			}
			e := elemWalk(p, ev, a0(x, "usedStart"), "Next")
			if e == nil {
				continue
			}
			for _, ph := range ev.Loop.Phis {
				if stripConv(p.o.res[0]) != ph.Iter || p.F.possible(mk("len", "", nil, ph.Init), kInt(0)) != EQ && ph.Init.Op != "mkslice" {
					continue
				}
				ok = true
				for k, st := range ev.Loop.Iters {
					q := p.iterPath(ev, st, nil)
					q.B = Bind{"X": e, "Y": ph.Iter}
					v := ph.Next[k]
					of := func(t *Term) bool {
						return (t.Op == "mapok" || t.Op == "mapget") && stripConv(t.Args[0]).Op == "assert" && stripConv(t.Args[0]).Args[0] == elemMap(e) && isT(t.Args[1], "A1")
					}
					has, no := false, false
					for _, f := range q.F {
						if of(f.A) {
							yes := f.A.Op == "mapok" && isTrueT(f.B) && f.Mask == EQ || f.A.Op == "mapget" && isNilT(f.B) && f.Mask == NE
							has, no = has || yes, no || !yes
						}
					}
					b, app := matchT(pat("append(Y, Z)"), v, q.B)
					if app {
						z := b["Z"]
						sub, zero := true, true
						for _, f := range quotaFields {
							x := fieldOf(z, f, nil2)
							sub = sub && x.Op == "field" && x.Sym == f && of(x.Args[0])
							zero = zero && isZero(x)
						}
						app = has && sub || no && zero
					}
					w(app && has != no, "the snapshot's use is listed as %s", v)
				}
			}
		}
		w(ok, "the list does not have an entry for each snapshot of the window")
	})
	all("calculateGlobalUsed", "", 1, func(x *fnPaths, p *Path, w func(bool, string, ...any)) {
		for _, f := range quotaFields {
			now, _ := global(x, p, f)
			ok := false
			for _, ev := range p.Evs {
				if ev.Kind != "loop" {
					continue
				}
				e := elemWalk(p, ev, a0(x, "usedStart"), "Next")
				for _, ph := range accs(ev) {
					if e == nil || ph.Iter != now || !isZero(ph.Init) {
						continue
					}
					ok = true
					for k, st := range ev.Loop.Iters {
						q := p.iterPath(ev, st, nil)
						v := q.unsum(ph.Next[k])
						ok = ok && linIs(v, ph.Iter, 1, mapSum(elemMap(e), f), 1)
					}
				}
			}
			w(ok, "%s of the ledger is not the sum over the window: %s", f, now)
		}
	})
	all("ResetUnconfirmedQuotas", "", 2, func(x *fnPaths, p *Path, w func(bool, string, ...any)) {
		if p.Holds("A0.status < 1") {
			w(untouched(p), "something is counted before the list is built")
			return
		}
		r := param(0, x.f.Params[0].Type())
		m := p.o.st.load(mkFA(r, "backElement", nil2))
		w(m.Op == "mkmap", "the counts of the unconfirmed blocks are not made anew")
		n := 0
		for _, l := range p.loopsOver("A1") {
			if s := p.tally(l.ev, m, "A1[I].AccountAddress", quotaFields, []string{"1", "A1[I].Quota", "A1[I].QuotaUsed"}); l.full {
				w(s == "", "%s", s)
				n++
			}
		}
		w(n == 1, "the unconfirmed blocks are not counted once each")
		for _, f := range quotaFields {
			now, was := global(x, p, f)
			v := p.unsum(now)
			w(linIs(v, was, 1, mapSum(a0(x, "backElement"), f), -1, mapSum(m, f), 1), "%s of the ledger becomes %s", f, v)
		}
		w(p.backReplaced(m), "the last entry of the list is not replaced by the new counts")
	})
	all("NewNext", "moveNext", 2, func(x *fnPaths, p *Path, w func(bool, string, ...any)) {
		if p.Holds("A0.status < 1") {
			w(untouched(p) && len(calls(p.Evs, "moveNext")) == 0, "something is counted before the list is built")
			return
		}
		mv := calls(p.Evs, "moveNext")
		w(len(mv) == 1 && isT(mv[0].Args[0], "A0") && isT(mv[0].Args[1], "A0.backElement"), "the list does not go on with the blocks that are still unconfirmed")
		var m *Term
		walkEvents(p.Evs, func(ev *Event) {
			if ev.Kind == "store" && isT(ev.Args[0], "&Back(A0.list).Value") {
				m = ev.Args[1]
			}
			if ev.Kind == "call" && isT(ev.Res, "PushBack(A0.list, _)") {
				m = ev.Args[1]
			}
		})
		if m != nil {
			m = stripConv(m)
		}
		w(m != nil && m.Op == "mkmap" && p.backReplaced(m), "the snapshot's counts do not take the last place of the list")
		if m == nil {
			return
		}
		n, u := 0, 0
		bv := []string{"1", "A1[I].Quota", "A1[I].QuotaUsed"}
		for _, l := range p.loopsOver("A1") {
			if !l.full {
				continue
			}
			touches := func(m *Term) bool {
				t := false
				for _, st := range l.ev.Loop.Iters {
					for _, ev := range iterEvents(l.ev, st) {
						t = t || (ev.Kind == "mapset" || ev.Kind == "mapdel") && ev.Args[0] == m
					}
				}
				return t
			}
			if touches(m) {
				s := p.tally(l.ev, m, "A1[I].AccountAddress", quotaFields, bv)
				w(s == "", "%s", s)
				n++
			}
			if touches(a0(x, "backElement")) {
				for _, st := range l.ev.Loop.Iters {
					s := p.iterPath(l.ev, st, l.idx).untallyOnce(a0(x, "backElement"), "A1[I].AccountAddress", bv)
					w(s == "", "%s", s)
				}
				u++
			}
		}
		w(n == 1 && u == 1, "the confirmed blocks are not moved to the snapshot's counts once each")
	})
	all("moveNext", "", 4, func(x *fnPaths, p *Path, w func(bool, string, ...any)) {
		var ops []string
		used := a0(x, "usedStart")
		for _, ev := range p.Evs {
			if ev.Kind != "call" {
				continue
			}
			switch {
			case isT(ev.Res, "PushBack(A0.list, _)"):
				ops = append(ops, "push")
				w(stripConv(ev.Args[1]) == param(1, x.f.Params[1].Type()), "something else is appended")
			case isT(ev.Res, "Back(A0.list)") && p.Holds("A0.usedStart == nil"):
				used = ev.Res
			case isT(ev.Res, "Remove(A0.list, Front(A0.list))"):
				ops = append(ops, "drop")
			case isT(ev.Res, "Next(_)") && ev.Args[0] == used:
				ops = append(ops, "next")
			case isT(ev.Res, "Len(A0.list)") || isT(ev.Res, "Front(A0.list)") || isT(ev.Res, "Back(A0.list)"):
			default:
				w(false, "unexpected call %s", ev.Name)
			}
		}
		r := param(0, x.f.Params[0].Type())
		w(p.o.st.load(mkFA(r, "backElement", nil2)) == param(1, x.f.Params[1].Type()), "the new counts are not those blocks are added to")
		w(used != a0(x, "usedStart") || p.Holds("A0.usedStart != nil"), "it is not decided whether the window has a start")
		now := p.o.st.load(mkFA(r, "usedStart", nil2))
		long, short := p.Holds("Len(A0.list) > A0.usedAccumulateHeight"), p.Holds("Len(A0.list) <= A0.usedAccumulateHeight")
		got := strings.Join(ops, " ")
		w(long || short, "it is not decided whether the window is full")
		for _, f := range quotaFields {
			g, was := global(x, p, f)
			v := p.unsum(g)
			if long {
				w(linIs(v, was, 1, mapSum(elemMap(used), f), -1), "%s of the ledger becomes %s when the window moves on", f, v)
			} else {
				w(linIs(v, was, 1), "%s of the ledger becomes %s although the window does not move", f, v)
			}
		}
		if !long {
			w(now == used && got == "push", "the start of the window becomes %s by %s", now, got)
			return
		}
		w(isT(now, "Next(_)") && now.Args[0] == used, "the start of the window becomes %s", now)
		over, fits := p.Holds("Len(A0.list) > A0.listMaxLength"), p.Holds("Len(A0.list) <= A0.listMaxLength")
		w(over && got == "push next drop" || fits && got == "push next", "the list is changed by %s", got)
	})
	all("resetUsedStart", "", 1, func(x *fnPaths, p *Path, w func(bool, string, ...any)) {
		now := p.o.st.load(mkFA(param(0, x.f.Params[0].Type()), "usedStart", nil2))
		ok := false
		for _, ev := range p.Evs {
			if ev.Kind != "loop" {
				continue
			}
			var e, j *PhiInfo
			for _, ph := range accs(ev) {
				ph := ph
				if isT(ph.Init, "Back(A0.list)") {
					e = &ph
				} else if i, ok := i64(ph.Init); ok && stepOne(ph) {
					j = &ph
					_ = i
				}
			}
			if e == nil || j == nil || e.Iter != now {
				continue
			}
			ok = true
			i, _ := i64(j.Init)
			q := *p
			q.B = Bind{"J": j.Iter, "K": kInt(i - 1), "X": e.Iter}
			w(q.rel("J - K >= A0.usedAccumulateHeight") || q.Holds("Prev(X) == nil"), "the window ends before it is full")
			for k, st := range ev.Loop.Iters {
				it := p.iterPath(ev, st, nil)
				it.fn, it.B = p.fn, q.B
				w(it.rel("J - K < A0.usedAccumulateHeight") && it.Holds("Prev(X) != nil") && isTB(e.Next[k], "Prev(X)", it.B), "the window grows beyond its length")
			}
		}
		w(ok, "the window is not walked back from the last entry")
	})
	c.quotaRollback(rule)
	c.quotaBuild(rule)
	c.unconfirmed()
	x := c.pathsOf(cachePkg, "newQuotaList", "")
	for _, p := range x.all() {
		o := stripConv(p.o.res[0])
		ld := func(f string) *Term { return stripConv(p.o.st.load(mkFA(o, f, nil2))) }
		is := func(f string, n int64) bool { v, ok := i64(ld(f)); return ok && v == n }
		c.Ob(is("usedAccumulateHeight", 75) && is("listMaxLength", 600), rule, "newQuotaList", p.where(), "the window is not of 75 snapshots, or the list not of 600")
		c.Ob(isT(ld("chain"), "A0") && ld("backElement").Op == "mkmap" && (isZero(ld("status"))), rule, "newQuotaList", p.where(), "the list does not start empty")
	}
}

func mapSum(m *Term, f string) *Term { return mk("mapsum", f, nil, m) }

// elemMap: the map held by a list element.
func elemMap(e *Term) *Term { return fieldOf(e, "Value", nil2) }

// linIs: t is the given sum of (term, coefficient) pairs.
func linIs(t *Term, parts ...any) bool {
	l := toLin(t)
	for i := 0; i < len(parts); i += 2 {
		l = linPlus(l, toLin(parts[i].(*Term)), constant.MakeInt64(int64(-parts[i+1].(int))))
	}
	return isZero(fromLin(l, nil))
}

// unsum: the value, with what loops over maps add to it written as sums over
// those maps.
func (p *Path) unsum(t *Term) *Term {
	subs := map[*Term]*Term{}
	for _, ev := range p.Evs {
		m := p.ranged(ev)
		if m == nil {
			continue
		}
		if m.Op == "assert" {
			m = m.Args[0]
		}
		for _, ph := range accs(ev) {
			for _, f := range quotaFields {
				for _, sign := range []int64{1, -1} {
					ok := len(ph.Next) > 0
					for k, st := range ev.Loop.Iters {
						d := linPlus(toLin(ph.Next[k]), toLin(ph.Iter), constant.MakeInt64(-1))
						v := fromLin(linForm{constant.MakeInt64(0), map[*Term]constant.Value{}}, nil)
						_ = v
						t := fromLin(linPlus(linForm{constant.MakeInt64(0), map[*Term]constant.Value{}}, d, constant.MakeInt64(sign)), nil)
						q := p.iterPath(ev, st, nil)
						hit := t.Op == "field" && t.Sym == f && t.Args[0].Op == "rval"
						if !hit && isZero(t) {
							for _, g := range q.F {
								hit = hit || g.A.Op == "rval" && isNilT(g.B) && g.Mask == EQ
							}
						}
						ok = ok && hit
					}
					if ok {
						subs[ph.Iter] = fromLin(linPlus(toLin(ph.Init), toLin(mapSum(m, f)), constant.MakeInt64(sign)), nil)
					}
				}
			}
		}
	}
	for i := 0; i < 8; i++ {
		l := toLin(t)
		again := false
		for a, k := range l.ks {
			if s := subs[a]; s != nil {
				l = linPlus(l, toLin(a), constant.UnaryOp(token.SUB, k, 0))
				l = linPlus(l, toLin(s), k)
				again = true
				break
			}
		}
		t = fromLin(l, nil)
		if !again {
			break
		}
	}
	return t
}

// elemWalk: the loop goes along a list from the given element to its end.
func elemWalk(p *Path, ev *Event, start *Term, step string) *Term {
	for _, ph := range ev.Loop.Phis {
		if ph.Init != start {
			continue
		}
		ok := len(ph.Next) > 0
		for _, n := range ph.Next {
			ok = ok && isT(n, step+"(_)") && n.Args[0] == ph.Iter
		}
		if ok && p.F.possible(ph.Iter, kNil()) == EQ {
			return ph.Iter
		}
	}
	return nil
}

// backReplaced: m takes the place of the last entry of the list.
func (p *Path) backReplaced(m *Term) bool {
	stored, removed, pushed := 0, 0, 0
	walkEvents(p.Evs, func(ev *Event) {
		switch {
		case ev.Kind == "store" && isT(ev.Args[0], "&Back(A0.list).Value") && stripConv(ev.Args[1]) == m:
			stored++
		case ev.Kind == "call" && isT(ev.Res, "Remove(A0.list, Back(A0.list))") && pushed == 0:
			removed++
		case ev.Kind == "call" && isT(ev.Res, "PushBack(A0.list, _)"):
			pushed++
			if stripConv(ev.Args[1]) != m {
				pushed++
			}
		}
	})
	return stored == 1 && removed == 0 && pushed == 0 || stored == 0 && removed == 1 && pushed == 1
}

// untallyOnce: the amounts are taken off the entry of the key, which goes when
// it has no block left.
func (q *Path) untallyOnce(m *Term, key string, vals []string) string {
	var cnt *Term
	entry := func(b *Term) bool {
		if b.Op == "iterm" {
			b = b.Args[0]
		}
		if (b.Op == "mapget" || b.Op == "ma") && b.Args[0] == m {
			_, ok := q.matchV(b.Args[1], key)
			return ok
		}
		return false
	}
	for _, f := range q.F {
		for _, t := range []*Term{f.A, f.B} {
			if (entry(t)) && f.Mask == EQ && (isNilT(f.A) || isNilT(f.B)) {
				for _, ev := range q.Evs {
					if ev.Kind == "mapset" || ev.Kind == "mapdel" {
						return "an entry is made or deleted where there is none"
					}
				}
				return ""
			}
			subTerms(t, func(x *Term) {
				if x.Op == "iterm" && x.Args[0].Op == "fa" && x.Args[0].Sym == "BlockCount" && entry(x.Args[0].Args[0]) || x.Op == "field" && x.Sym == "BlockCount" && entry(x.Args[0]) {
					cnt = x
				}
			})
		}
	}
	if cnt == nil {
		return "it is not decided whether the block is the entry's last"
	}
	last := q.F.possible(cnt, kInt(1))
	dels, subs := 0, map[string]*Term{}
	for _, ev := range q.Evs {
		if ev.Kind == "mapset" && ev.Args[0] == m {
			return "an entry is made where one is to be reduced"
		}
		if ev.Kind == "mapdel" && ev.Args[0] == m {
			if _, ok := q.matchV(ev.Args[1], key); !ok {
				return "another entry is deleted"
			}
			dels++
		}
		if ev.Kind == "store" && ev.Args[0].Op == "fa" && entry(ev.Args[0].Args[0]) {
			a := ev.Args[0]
			v := toLin(ev.Args[1])
			old := fieldOf(a.Args[0], a.Sym, nil2)
			for x := range v.ks {
				if x.Op == "iterm" && x.Args[0] == a {
					old = x
				}
			}
			subs[a.Sym] = fromLin(linPlus(toLin(old), v, constant.MakeInt64(-1)), nil)
		}
	}
	switch {
	case last&GT == 0:
		if dels != 1 {
			return "an entry without blocks stays"
		}
	case last == GT:
		if dels != 0 {
			return "an entry that has blocks left is deleted"
		}
		for i, f := range quotaFields {
			if subs[f] == nil {
				return f + " is not reduced"
			}
			if _, ok := q.matchV(subs[f], vals[i]); !ok {
				return f + " is reduced by " + trunc(subs[f].String(), 120)
			}
		}
	default:
		return "it is not decided whether the block is the entry's last"
	}
	return ""
}

// seqTag marks the state of a receiver a call was made in.
var seqTag = regexp.MustCompile(`#[0-9]+`)

func (c *Ctx) quotaRollback(rule string) {
	fn := "quotaList.Rollback"
	n := 0
	for _, p := range c.pathsOf(cachePkg, fn, "build moveNext").all() {
		w := func(ok bool, s string, a ...any) {
			c.Ob(ok, rule, fn, p.where(), s+": %s", append(a, p.Describe())...)
		}
		if p.Holds("Back(A0.list) == nil") {
			continue
		}
		var ops []string
		empty, some := false, false
		for _, f := range p.F {
			a, b, m := f.A, f.B, f.Mask
			if b.Op == "len" {
				a, b, m = b, a, flipMask(m)
			}
			if a.Op == "len" && a.Args[0].Op == "assert" && isT(a.Args[0].Args[0], "Back(A0.list).Value") && isZero(b) {
				empty, some = empty || m&GT == 0, some || m&EQ == 0
			}
		}
		for _, ev := range p.Evs {
			switch {
			case ev.Kind == "call" && isT(ev.Res, "Remove(A0.list, Back(A0.list))"):
				ops = append(ops, "remove")
			case ev.Kind == "call" && isT(ev.Res, "Init(A0.list)"):
				ops = append(ops, "clear")
			case ev.Kind == "call" && isT(ev.Res, "build(A0)"):
				ops = append(ops, "build")
			case ev.Kind == "call" && isT(ev.Res, "moveNext(A0, _)"):
				ops = append(ops, "next")
				w(stripConv(ev.Args[1]).Op == "mkmap", "the list goes on with %s, not with no blocks", ev.Args[1])
			case ev.Kind == "loop":
				ops = append(ops, "loop")
				var j *Term
				for _, ph := range ev.Loop.Phis {
					if i, ok := i64(ph.Init); ok && i == 0 && stepOne(ph) {
						j = ph.Iter
					}
				}
				if j == nil {
					w(false, "the removals are not counted")
					continue
				}
				q := *p
				q.B = Bind{"J": j}
				w(q.rel("J >= len(A1)") || p.Holds("Len(A0.list) <= 0"), "fewer snapshots are removed than were rolled back")
				for _, st := range ev.Loop.Iters {
					it := p.iterPath(ev, st, nil)
					it.fn, it.B = p.fn, q.B
					k := 0
					for _, e := range it.Evs {
						if e.Kind == "call" && isT(e.Res, "Remove(A0.list, Back(A0.list))") {
							k++
						}
					}
					w(it.rel("J < len(A1)") && k == 1, "%d entries are removed for one snapshot, or more than were rolled back", k)
				}
			case ev.Kind == "call" && (isT(ev.Res, "Back(A0.list)") || isT(ev.Res, "Len(A0.list)")):
			case ev.Kind == "call" || ev.Kind == "store":
				w(false, "unexpected %s %s", ev.Kind, ev.Name)
			}
		}
		want := ""
		switch {
		case empty:
			want = "remove "
		case !some:
			w(false, "it is not decided whether the last entry is of unconfirmed blocks")
		}
		if p.Holds("len(A1) >= A0.listMaxLength") {
			want += "clear "
		} else {
			w(p.Holds("len(A1) < A0.listMaxLength"), "it is not decided whether the whole list goes")
			want += "loop "
		}
		want += "build"
		if isNilT(p.o.res[0]) {
			w(p.Holds("build(A0) == nil"), "the error of the rebuilding is dropped")
			want += " next"
		} else {
			w(isT(p.o.res[0], "build(A0)"), "an error is returned for no reason")
		}
		n++
		got := strings.Join(ops, " ")
		w(got == want, "the list is rolled back by %q, not %q", got, want)
	}
	c.Ob(n >= 4, rule, fn, "", "only %d paths", n)
}

func flipMask(m int) int {
	r := m & EQ
	if m&LT != 0 {
		r |= GT
	}
	if m&GT != 0 {
		r |= LT
	}
	return r
}

// plainLin: the linear form without the conversions of its parts.
func plainLin(t *Term) *Term {
	for i := 0; i < 6; i++ {
		t = stripConv(t)
		l := toLin(t)
		again := false
		for a, k := range l.ks {
			if s := stripConv(a); s != a {
				l = linPlus(l, toLin(a), constant.UnaryOp(token.SUB, k, 0))
				l = linPlus(l, toLin(s), k)
				again = true
				break
			}
		}
		t = fromLin(l, nil)
		if !again {
			break
		}
	}
	return t
}

func (c *Ctx) quotaBuild(rule string) {
	fn := "quotaList.build"
	x := c.pathsOf(cachePkg, fn, "resetUsedStart calculateGlobalUsed")
	n, loaded := 0, map[string]bool{}
	for _, p := range x.success(0) {
		n++
		w := func(ok bool, s string, a ...any) {
			c.Ob(ok, rule, fn, p.where(), s+": %s", append(a, p.Describe())...)
		}
		r := param(0, x.f.Params[0].Type())
		// afterwards the sums are made anew
		rs, cg := calls(p.Evs, "resetUsedStart"), calls(p.Evs, "calculateGlobalUsed")
		be := p.o.st.load(mkFA(r, "backElement", nil2))
		var order []string
		var ln *Term // the length in the end
		for _, ev := range p.Evs {
			if ev.Kind == "call" && (ev == firstEv(rs) || ev == firstEv(cg)) {
				order = append(order, baseName(ev.Name))
			}
			if ev.Kind == "call" && isT(ev.Res, "Len(A0.list)") {
				ln = ev.Res
			}
			if ev.Kind == "loop" && len(order) > 0 {
				w(false, "the list changes after it was summed")
			}
		}
		if len(order) == 0 {
			w(ln != nil && p.F.possible(ln, kInt(0))&GT == 0, "the sums are not made anew although the list has entries")
		} else {
			w(strings.Join(order, " ") == "resetUsedStart calculateGlobalUsed" && be.Op == "assert" && isT(be.Args[0], "Back(A0.list).Value"), "the last entry, the window and the sums are not taken over from the list in this order")
		}
		// what is missing is read from the ledger
		var l0 *Term
		for _, ev := range calls(p.Evs, "Len") {
			if l0 == nil {
				l0 = ev.Res
			}
		}
		if l0 == nil {
			w(false, "the length of the list is not looked at")
			continue
		}
		a, g := calls(p.Evs, "GetSubLedgerAfterHeight"), calls(p.Evs, "GetSubLedger")
		pushed := 0
		walkEvents(p.Evs, func(ev *Event) {
			if ev.Kind == "call" && (baseName(ev.Name) == "PushBack" || baseName(ev.Name) == "PushFront") {
				pushed++
			}
		})
		H := "QueryLatestSnapshotBlock(A0.chain).R0.Height"
		q := *p
		q.B = Bind{"N": l0}
		if len(a)+len(g) == 0 {
			w(pushed == 0 && (q.rel("N >= A0.usedAccumulateHeight") || p.with("X", l0).Holds(H+" <= X") || p.with("X", l0).Holds("X >= "+H)), "nothing is read although the window is not full")
			continue
		}
		var ev *Event
		w(len(a)+len(g) == 1, "the ledger is read %d times", len(a)+len(g))
		zero, pos := p.F.possible(l0, kInt(0))&GT == 0, p.F.possible(l0, kInt(0)) == GT
		push := "PushBack"
		if len(a) == 1 {
			ev = a[0]
			w(zero, "all of the ledger's blocks are read although the list has entries")
		} else {
			ev = g[0]
			push = "PushFront"
			w(pos, "the unconfirmed blocks are left out although the list has no entry")
		}
		loaded[push] = true
		qb, ok := (*Term)(nil), false
		for _, e := range calls(p.Evs, "QueryLatestSnapshotBlock") {
			qb, ok = e.Res, isT(e.Res, "QueryLatestSnapshotBlock(A0.chain)")
		}
		w(ok && p.Holds("QueryLatestSnapshotBlock(A0.chain).R1 == nil"), "the latest snapshot is not looked up")
		if !ok {
			continue
		}
		_ = qb
		height := func(t *Term) (h *Term, rest *Term) {
			for a := range toLin(t).ks {
				if a.Op == "field" && a.Sym == "Height" {
					return a, fromLin(linPlus(toLin(t), toLin(a), constant.MakeInt64(-1)), nil)
				}
			}
			return nil, t
		}
		max := fieldOf(r, "listMaxLength", nil2)
		start := plainLin(ev.Args[1])
		if len(g) == 1 {
			h, rest := height(plainLin(ev.Args[2]))
			w(h != nil && linIs(rest, l0, -1, kInt(1), 1), "the missing snapshots end at %s", ev.Args[2])
		}
		// start = max(1, H + 1 - listMaxLength)
		if v, ok := i64(start); ok {
			fits := false
			for _, f := range p.F {
				fa, fb, m := plainLin(f.A), plainLin(f.B), f.Mask
				d := fromLin(linPlus(toLin(fa), toLin(fb), constant.MakeInt64(-1)), nil)
				if h, rest := height(d); h != nil && m&GT == 0 {
					fits = fits || linIs(rest, max, -1, kInt(1), 1) || linIs(rest, max, -1) && m == LT
				}
			}
			w(v == 1 && fits, "the snapshots are read from %s although there may be more", start)
		} else {
			h, rest := height(start)
			w(h != nil && linIs(rest, max, -1, kInt(1), 1), "the snapshots are read from %s", start)
		}
		// one entry per snapshot but the first
		segs := "GetSubLedgerAfterHeight(_, _).R0"
		if len(g) == 1 {
			segs = "GetSubLedger(_, _, _).R0"
		}
		done := 0
		for _, lp := range p.Evs {
			if lp.Kind != "loop" {
				continue
			}
			for _, ph := range lp.Loop.Phis {
				for k, st := range lp.Loop.Iters {
					it := p.iterPath(lp, st, nil)
					var pe *Event
					for _, e := range it.Evs {
						if e.Kind == "call" && isT(e.Res, push+"(A0.list, _)") {
							pe = e
						} else if e.Kind == "call" && strings.HasPrefix(baseName(e.Name), "Push") {
							w(false, "the entries are in the wrong order")
						}
					}
					w(pe != nil, "a snapshot gets no entry")
					if pe == nil {
						continue
					}
					m := stripConv(pe.Args[1])
					for _, in := range it.Evs {
						if in.Kind != "loop" {
							continue
						}
						over, _, full := it.loopSubject(in)
						b, ok := Bind(nil), false
						if over != nil {
							b, ok = matchT(pat(segs+"[X].AccountBlocks"), over, Bind{})
						}
						w(ok && full, "the blocks of the snapshot are not all counted")
						if !ok {
							continue
						}
						it.B = Bind{"Y": over}
						s := it.tally(in, m, "Y[I].AccountAddress", quotaFields, []string{"1", "Y[I].Quota", "Y[I].QuotaUsed"})
						w(s == "", "%s", s)
						// the indices are 1 .. len-1, in the order of the pushes
						q := *it
						q.B = Bind{"P": ph.Iter, "E": b["X"], "A": ph.Init, "S": over.Args[0].Args[0], "D": fromLin(linPlus(toLin(b["X"]), toLin(ph.Iter), constant.MakeInt64(-1)), nil)}
						up := stepOne(ph)
						i0 := q.expr("A + D")
						if n, ok := i64(ph.Init); ok && n == -1 && ph.Next[k] == ph.Iter {
							i0 = q.expr("D") // counted from 0
							up = true
						}
						pq := *p
						pq.B = q.B
						if push == "PushBack" {
							v, ok := i64(i0)
							w(up && ok && v == 1 && pq.rel("P + D >= len(S)") && q.rel("E < len(S)"), "the snapshots after the first are not read once each")
						} else {
							w(q.eq(i0, "len(S) - 1") && q.eq(ph.Next[k], "P - 1") && pq.rel("P + D <= 0") && q.rel("E > 0"), "the snapshots after the first are not read once each, from the back")
						}
						done++
					}
				}
			}
		}
		w(done == 1, "the snapshots read are not entered")
	}
	c.Ob(n >= 5 && loaded["PushBack"] && loaded["PushFront"], rule, fn, "", "the list is not rebuilt")
}

func firstEv(evs []*Event) *Event {
	if len(evs) == 0 {
		return nil
	}
	return evs[0]
}

// unconfirmed: deleting leaves exactly the other blocks, in their order.
func (c *Ctx) unconfirmed() {
	fn := "UnconfirmedPool.DeleteBlocks"
	x := c.pathsOf(cachePkg, fn, "GetAccountBlock")
	n := 0
	for _, p := range x.all() {
		w := func(ok bool, s string, a ...any) {
			c.Ob(ok, "unconfirmed", fn, p.where(), s+": %s", append(a, p.Describe())...)
		}
		if p.Holds("len(A1) <= 0") && len(p.Evs) == 0 {
			continue
		}
		n++
		r := param(0, x.f.Params[0].Type())
		list, byAddr := p.o.st.load(mkFA(r, "insertedList", nil2)), p.o.st.load(mkFA(r, "insertedMap", nil2))
		var gone *Term
		for _, l := range p.loopsOver("A1") {
			for _, st := range l.ev.Loop.Iters {
				q := p.iterPath(l.ev, st, l.idx)
				for _, ev := range q.Evs {
					if ev.Kind == "mapset" && l.full && isTB(ev.Args[1], "A1[I].Hash", q.B) && len(l.ev.Loop.Iters) == 1 {
						gone = ev.Args[0]
					}
				}
			}
		}
		w(gone != nil && gone.Op == "mkmap" && byAddr.Op == "mkmap", "the blocks to delete are not all looked up")
		done := false
		for _, l := range p.loopsOver("A0.insertedList") {
			if !l.full || gone == nil {
				continue
			}
			for _, ph := range l.ev.Loop.Phis {
				if ph.Iter != list {
					continue
				}
				done = true
				w(ph.Init.Op == "mkslice" || isNilT(ph.Init), "the list does not start empty")
				for k, st := range l.ev.Loop.Iters {
					q := p.iterPath(l.ev, st, l.idx)
					q.B["X"], q.B["Y"], q.B["Z"] = gone, list, byAddr
					const h = "A0.insertedList[I]"
					const ad = "GetAccountBlock(A0.ds, " + h + ").AccountAddress"
					sets, good := 0, false
					for _, ev := range q.Evs {
						if ev.Kind == "mapset" {
							sets++
							good = ev.Args[0] == byAddr && isTB(ev.Args[1], ad, q.B) && (isTB(ev.Args[2], "append(mapget(Z, "+ad+"), "+h+")", q.B) || isTB(ev.Args[2], "append(iterm(_), "+h+")", q.B))
						}
					}
					switch {
					case q.Holds("mapok(X, " + h + ")"):
						w(ph.Next[k] == list && sets == 0, "a block to delete stays")
					case q.Holds("!mapok(X, " + h + ")"):
						w(isTB(ph.Next[k], "append(Y, "+h+")", q.B) && sets == 1 && good, "another block goes, or is filed under another account")
					default:
						w(false, "it is not decided whether the block goes")
					}
				}
			}
		}
		w(done, "the remaining blocks are not kept in their order")
	}
	c.Ob(n >= 1, "unconfirmed", fn, "", "nothing is deleted")
}

// quotaInit: outside of tests the network's tables and rules are used.
func (c *Ctx) quotaInit() {
	fn := "InitQuotaConfig"
	x := c.pathsOf(quotaPkg, fn, "calcQuotaV3")
	n := 0
	for _, p := range x.all() {
		w := func(ok bool, s string, a ...any) {
			c.Ob(ok, "quota-init", fn, p.where(), s+": %s", append(a, p.Describe())...)
		}
		net := "Mainnet"
		if p.Holds("A1") {
			net = "Testnet"
		}
		f := map[string]*Term{}
		var st func(string, *Term)
		st = func(k string, v *Term) {
			for ; k == "" && v.Op == "upd"; v = v.Args[0] {
				if f[v.Sym] == nil {
					f[v.Sym] = v.Args[1]
				}
			}
			if k != "" {
				f[k] = v
			}
		}
		for _, ev := range p.Evs {
			if ev.Kind == "store" && strings.HasSuffix(ev.Args[0].String(), "quota.quotaConfig") {
				f = map[string]*Term{}
				st("", ev.Args[1])
			} else if ev.Kind == "store" && ev.Args[0].Op == "fa" && strings.HasSuffix(ev.Args[0].Args[0].String(), "quota.quotaConfig") {
				st(ev.Args[0].Sym, ev.Args[1])
			}
		}
		is := func(k, form string) bool { return f[k] != nil && isT(stripConv(f[k]), form) }
		num := func(k string, n int64) bool { v, ok := i64(f[k]); return ok && v == n }
		w(is("difficultyList", "difficultyList"+net), "the table of difficulties is %v", f["difficultyList"])
		w(is("qcMap", "qcMapMainnet") && f["qcIndexMin"] != nil && f["qcIndexMax"] != nil && num("qcIndexMin", 51) && num("qcIndexMax", 500), "the congestion table is %v from %v to %v", f["qcMap"], f["qcIndexMin"], f["qcIndexMax"])
		full := false
		for _, l := range p.loopsOver("stakeAmountList" + net) {
			full = full || l.full
		}
		l := f["stakeAmountList"]
		w(full && l != nil && l.Op == "mkslice" && len(l.Args) > 0 && isT(stripConv(l.Args[0]), "len(stakeAmountList"+net+")"), "the table of stakes is not taken over: %v", l)
		if p.Holds("A0") {
			continue
		}
		n++
		w(p.Holds("!A0"), "the rule does not depend on whether this is a test")
		g := f["calcQuotaFunc"]
		ok := g != nil && strings.HasSuffix(g.String(), "quota.calcQuotaV3")
		nest := map[*ssa.Function]bool{}
		nested(x.f, nest)
		for a := range nest {
			if g != nil && strings.HasSuffix(g.String(), "."+a.Name()) {
				c.fns[a] = true
				ok = true
				e := c.Opts([]string{quotaPkg}, "calcQuotaV3")
				for _, q := range c.all(c.Paths(e, a)) {
					for i, r := range q.o.res {
						ok = ok && isT(r, fmt.Sprintf("calcQuotaV3(A0, A1, A2, A3, A4).R%d", i))
					}
				}
			}
		}
		w(ok, "the quota is not calculated by calcQuotaV3 but %v", g)
	}
	c.Ob(n >= 2, "quota-init", fn, "", "only %d paths", n)
}

// accs: what a loop carries from one iteration to the next; of a structure of
// counters, each counter.
func accs(ev *Event) []PhiInfo {
	var out []PhiInfo
	for _, ph := range append(append([]PhiInfo{}, ev.Loop.Phis...), ev.Loop.Cells...) {
		out = append(out, ph)
		if ph.Iter.Typ == nil {
			continue
		}
		if _, ok := ph.Iter.Typ.Underlying().(*types.Struct); !ok {
			continue
		}
		for _, f := range quotaFields {
			x := PhiInfo{Init: fieldOf(ph.Init, f, nil2), Iter: fieldOf(ph.Iter, f, nil2)}
			for _, n := range ph.Next {
				x.Next = append(x.Next, fieldOf(n, f, nil2))
			}
			out = append(out, x)
		}
	}
	return out
}
