package main

import (
	"fmt"
	"go/constant"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	props = append(props, &Prop{
		ID: "C32", Title: "Exchange accounts: no balance appears, vanishes or is spent twice",
		Statement: "Every operation on an account of the exchange changes exactly the amounts it is for, of exactly the address and token it names: a deposit adds the amount received, a withdrawal, transfer or order takes from the available amount what it pays out, passes on or locks, refused if less is available; locking, unlocking and cancelling move an amount from one part of the account to another, refused if that part holds less; a settlement takes from the locked amount what it reduces and releases, adds to the available amount what it released and credits, never below zero. " +
			"The changed account is stored exactly once and only when the operation succeeds, and tokens leave the exchange only in the amount taken from the account. " +
			"An order is accepted only in a valid, running market and from its owner or an agent granted that market, with the fee rates, amount and locked fee its market and owner entail.",
		Over:      []string{"inputs", "histories"},
		Quant:     "all accounts, tokens, amounts, markets, orders and upgrade heights",
		Why:       "Accounts of all users share one contract balance; a wrong movement shows only when someone's withdrawal fails, and tests follow a few amounts.",
		Files:     []string{"vm/contracts/dex/fund_storage.go", "vm/contracts/dex/fund_settle.go", "vm/contracts/dex/fund_helper.go", "vm/contracts/dex/account.go", "vm/contracts/contracts_dex_fund.go"},
		Technique: "path-sensitive symbolic summaries of every account operation: the movement of each of the five parts of an account is computed on every path and compared with the movement the operation is for",
		Note:      "Dividends, mining and fee distribution are not part of this property.",
		Run:       runC32,
	})
}

// fundOps: what each operation moves. Missing accounts are refused ("fail")
// or opened with the amount ("open").
type fundOp struct {
	fn, who, token string
	amt            string
	moves          string // "-Available +Locked"
	more           string // condition on the amount left, besides enough being there
	miss           string
	res            string // result that is the account
	err            int
}

var fundOps = []fundOp{
	{"ReduceAccount", "A1", "A2", "A3", "-Available", "", "fail", "0", 1},
	{"LockVxForDividend", "A1", "VxTokenId", "A2", "-Available +VxLocked", "", "fail", "0", 1},
	{"ScheduleVxUnlockForDividend", "A1", "VxTokenId", "A2", "-VxLocked +VxUnlocking", "SetBytes(Z.VxLocked) == A2 || SetBytes(Z.VxLocked) >= A2 + 10000000000000000000", "fail", "0", 1},
	{"FinishVxUnlockForDividend", "A1", "VxTokenId", "A2", "-VxUnlocking +Available", "", "fail", "0", 1},
	{"ScheduleCancelStake", "A1", "ViteTokenId", "A2", "+CancellingStake", "", "fail", "0", 1},
	{"FinishCancelStake", "A1", "ViteTokenId", "A2", "-CancellingStake +Available", "", "fail", "0", 1},
	{"DepositAccount", "A1", "A2", "A3", "+Available", "", "open", "0", -1},
	{"LockMinedVx", "A1", "VxTokenId", "A2", "+VxLocked", "", "open", "0", -1},
}

var accParts = strings.Fields("Available Locked VxLocked VxUnlocking CancellingStake")

func runC32(c *Ctx) {
	for _, s := range parseSpecs(macros(strings.Replace(fundSpec, "RENDERCASES\n", renderCases(), 1), dexMacros)) {
		c.specFn(c.dexEngine(dexPkg, fundOpaque, s.fn), dexPkg, s, "account")
	}
	for _, s := range parseSpecs(macros(fundContractSpec, dexMacros)) {
		c.specFn(c.dexEngine(ctPkg, fundContractOpaque, s.fn), ctPkg, s, "exchange method")
	}
	for _, o := range fundOps {
		c.fundOp(o)
	}
	c.fundLock()
	c.fundLookup()
	c.fundSettle()
	c.fundBatch()
	c.fundKeys()
}

func (c *Ctx) dexEngine(pkg, names, fn string) *Engine {
	var opaque []string
	for _, n := range strings.Fields(names) {
		if n != fn && !strings.HasSuffix(fn, "."+n) {
			opaque = append(opaque, n)
		}
	}
	e := c.Opts([]string{pkg}, opaque...)
	e.modParams = true
	return e
}

// account stores of a path: the objects whose parts it writes
func (p *Path) accounts() (objs []*Term) {
	walkEvents(p.Evs, func(ev *Event) {
		if ev.Kind != "store" || ev.Args[0].Op != "fa" {
			return
		}
		if l := stripConv(ev.Args[1]); ev.Args[0].Sym == "Accounts" && l.Op == "append" {
			for _, a := range l.Args[1:] {
				if localObj(stripConv(a)) {
					objs = append(objs, stripConv(a))
				}
			}
		}
		for _, f := range append(accParts, "Token") {
			if ev.Args[0].Sym == f {
				o := stripConv(ev.Args[0].Args[0])
				for _, x := range objs {
					if x == o {
						return
					}
				}
				objs = append(objs, o)
			}
		}
	})
	return
}

// exhausted: a loop went through all of seq and every element satisfies cond
// (with I the position).
func (p *Path) exhausted(seq, cond string) bool {
	for _, ev := range p.Evs {
		if ev.Kind != "loop" {
			continue
		}
		over, idx, full := p.loopSubject(ev)
		if over == nil || !full {
			continue
		}
		if _, ok := matchT(pat(seq), over, p.B.copy()); !ok {
			continue
		}
		ok := true
		for _, st := range ev.Loop.Iters {
			q := p.iterPath(ev, st, nil)
			q.B = q.B.copy()
			q.B["I"] = idx
			ok = ok && q.norm().Path.Holds(cond)
		}
		if ok {
			return true
		}
	}
	return false
}

func (c *Ctx) fundOp(o fundOp) {
	fp := c.pathsOf(dexPkg, o.fn, "GetFund SaveFund")
	if fp.f == nil {
		return
	}
	w := func(p *Path, ok bool, f string, a ...any) { c.Ob(ok, "account-move", o.fn, p.where(), f, a...) }
	fund := "GetFund(A0, " + o.who + ")"
	elem := fund + ".R0.Fund.Accounts[X]"
	gone := func(p *Path) bool {
		return p.exhausted(fund+".R0.Fund.Accounts", o.token+" != "+fund+".R0.Fund.Accounts[I].Token") || p.norm().Path.Holds("len("+fund+".R0.Fund.Accounts) == 0")
	}
	ok, bad := fp.all(), []*Path(nil)
	if o.err >= 0 {
		ok, bad = fp.success(o.err), fp.failure(o.err)
	}
	w(&Path{c: c, o: Outcome{pos: fp.f.Pos()}}, len(ok) > 0, "never succeeds")
	n := 0
	for _, p := range ok {
		if p.o.panic {
			w(p, false, "panics")
			continue
		}
		n++
		objs := p.accounts()
		if len(objs) != 1 {
			w(p, false, "writes %d accounts", len(objs))
			continue
		}
		acc := objs[0]
		q := p.with("Z", acc)
		_, found := matchT(pat(elem), acc, Bind{})
		opened := o.miss == "open" && localObj(acc)
		w(p, found || opened, "writes %s", trunc(acc.String(), 200))
		if found {
			b, _ := matchT(pat(elem), acc, Bind{})
			w(p, p.with("X", b["X"]).norm().Path.Holds(o.token+" == "+elem+".Token"), "does not check that the account is that of the token")
		}
		if o.miss == "fail" {
			w(p, p.norm().Path.Holds(fund+".R1"), "does not check that the address has accounts")
		}
		for _, f := range accParts {
			v := p.o.st.load(mkFA(acc, f, nil2))
			old := fmt.Sprintf("Z.%s", f)
			sign := ""
			for _, m := range strings.Fields(o.moves) {
				if m[1:] == f {
					sign = m[:1]
				}
			}
			switch {
			case opened && sign == "":
				w(p, p.isV(v, "empty") || p.isV(v, "nil") || p.isV(v, "ZERO"), "%s of a new account is %s", f, trunc(v.String(), 200))
			case opened:
				w(p, p.isV(p.amount(v), o.amt), "%s of a new account is %s", f, trunc(v.String(), 200))
			case sign == "":
				w(p, q.isV(v, old), "%s becomes %s", f, trunc(v.String(), 200))
			default:
				w(p, q.isV(p.amount(v), "SetBytes("+old+") "+sign+" "+o.amt), "%s becomes %s", f, trunc(v.String(), 200))
				if sign == "-" {
					w(p, q.norm().Path.Holds("SetBytes("+old+") >= "+o.amt), "does not check that %s suffices", f)
				}
			}
		}
		if opened {
			w(p, p.isV(p.o.st.load(mkFA(acc, "Token", nil2)), "bytes "+o.token), "a new account has the wrong token")
			w(p, gone(p), "opens an account although there may be one")
			var l *Term
			walkEvents(p.Evs, func(ev *Event) {
				if ev.Kind == "store" && ev.Args[0].Op == "fa" && ev.Args[0].Sym == "Accounts" {
					l = stripConv(ev.Args[1])
				}
			})
			w(p, l != nil && l.Op == "append" && len(l.Args) == 2 && stripConv(l.Args[1]) == acc && p.isV(l.Args[0], fund+".R0.Fund.Accounts"), "the accounts become %s", trunc(fmt.Sprint(l), 200))
		}
		if o.more != "" {
			w(p, condHolds(q.norm().Path, o.more), "does not check %s", o.more)
		}
		w(p, stripConv(p.o.res[0]) == acc, "returns %s", trunc(p.o.res[0].String(), 200))
		p.savedOnce(w, fund, o.who)
	}
	for _, p := range bad {
		w(p, len(calls(p.Evs, "SaveFund")) == 0, "stores the account although it fails")
		why := p.norm().Path.Holds("!"+fund+".R1") || gone(p)
		for _, q := range p.foundAccounts(fund) {
			for _, m := range strings.Fields(o.moves) {
				if m[0] == '-' {
					why = why || q.norm().Path.Holds("SetBytes(Z."+m[1:]+") < "+o.amt)
				}
			}
			if o.more != "" {
				why = why || condFails(q.norm().Path, o.more)
			}
		}
		w(p, why, "fails although the account exists and suffices")
	}
}

// savedOnce: the fund that was read is stored for its own address, once, after
// the last change.
func (p *Path) savedOnce(w func(*Path, bool, string, ...any), fund, who string) {
	saves := calls(p.Evs, "SaveFund")
	if len(saves) != 1 {
		w(p, false, "stores the accounts %d times", len(saves))
		return
	}
	s := saves[0]
	w(p, p.isV(s.Args[0], "A0") && p.isV(s.Args[1], who) && p.isV(s.Args[2], fund+".R0"), "stores %s", trunc(joinT(s.Args), 200))
	after := false
	for _, ev := range p.Evs {
		if ev == s {
			after = true
		} else if after && ev.Kind == "store" && !pathLocal(ev.Args[0]) {
			w(p, false, "changes %s after storing", trunc(ev.Args[0].String(), 100))
		}
	}
}

// foundAccounts: the elements of the accounts the path has compared, bound to Z.
func (p *Path) foundAccounts(fund string) (qs []*Path) {
	seen := map[*Term]bool{}
	add := func(t *Term) {
		t.mentions(func(x *Term) bool {
			x = stripConv(x)
			if _, ok := matchT(pat(fund+".R0.Fund.Accounts[X]"), x, Bind{}); ok && !seen[x] {
				seen[x] = true
				qs = append(qs, p.with("Z", x))
			}
			return false
		})
	}
	for _, f := range p.norm().F {
		add(f.A)
		add(f.B)
	}
	return
}

// amount: the number a byte string holding an amount stands for. Amounts are
// never negative, so reading back what was written gives the same number.
func (p *Path) amount(v *Term) *Term {
	if v == nil {
		return kInt(0)
	}
	v = stripConv(v)
	if isNilT(v) || v.Op == "zero" || isZero(v) {
		return kInt(0)
	}
	if b, ok := matchT(pat("Bytes(X)"), v, Bind{}); ok {
		return p.number(b["X"])
	}
	if b, ok := matchT(pat("AddBigInt(X, Y)"), v, Bind{}); ok {
		return fromLin(linPlus(toLin(p.amount(b["X"])), toLin(p.amount(b["Y"])), constant.MakeInt64(1)), nil)
	}
	return mk("big", "SetBytes", nil, v)
}

func (p *Path) number(x *Term) *Term {
	l := toLin(stripConv(x))
	r := linForm{l.c, map[*Term]constant.Value{}}
	for a, k := range l.ks {
		b := a
		if a.Op == "big" && a.Sym == "SetBytes" {
			b = p.amount(a.Args[0])
		}
		r = linPlus(r, toLin(b), k)
	}
	return fromLin(r, nil)
}

// numbers replaces what was read back in the facts of a path.
func (p *Path) numbers() *Path {
	n := p.norm().Path
	q := *n
	q.F = nil
	for _, f := range n.F {
		if isBigSet(f.A) || isBigSet(f.B) {
			f.A, f.B = p.number(f.A), p.number(f.B)
		}
		q.F = append(q.F, f)
	}
	return &q
}

func isBigSet(t *Term) bool {
	return t.mentions(func(x *Term) bool { return x.Op == "big" && x.Sym == "SetBytes" })
}

// fundLock: a new order moves exactly what it can cost from available to
// locked, or is refused.
func (c *Ctx) fundLock() {
	fn := "CheckAndLockFundForNewOrder"
	fp := c.pathsOf(dexPkg, fn, "GetAccountByToken isAmountTooSmall GetMarketOrderAmtThreshold AdjustAmountForDecimalsDiff BytesToTokenTypeId")
	if fp.f == nil {
		return
	}
	w := func(p *Path, ok bool, f string, a ...any) { c.Ob(ok, "order-lock", fn, p.where(), f, a...) }
	limit := func(p *Path) (lim, mkt bool) {
		n := p.norm().Path
		adv := condHolds(n, "A2.Order.Type == 2 || A2.Order.Type == 3 || A2.Order.Type == 4")
		lim = n.Holds("A2.Order.Type == 0") || adv && n.Holds("A4")
		mkt = n.Holds("A2.Order.Type != 0") && (n.Holds("!A4") || n.Holds("A2.Order.Type != 2") && n.Holds("A2.Order.Type != 3") && n.Holds("A2.Order.Type != 4"))
		return
	}
	want := func(p *Path) (acc, amt string) {
		n := p.norm().Path
		lim, mkt := limit(p)
		switch {
		case n.Holds("A2.Order.Side"):
			return "GetAccountByToken(A1, BytesToTokenTypeId(A3.MarketInfo.TradeToken).R0)", "SetBytes(A2.Order.Quantity)"
		case n.Holds("!A2.Order.Side") && lim:
			return "GetAccountByToken(A1, BytesToTokenTypeId(A3.MarketInfo.QuoteToken).R0)", "SetBytes(A2.Order.Amount) + SetBytes(A2.Order.LockedBuyFee)"
		case n.Holds("!A2.Order.Side") && mkt:
			return "GetAccountByToken(A1, BytesToTokenTypeId(A3.MarketInfo.QuoteToken).R0)", ""
		}
		return "", ""
	}
	seen := map[string]bool{}
	for _, p := range fp.success(0) {
		acc, amt := want(p)
		seen[amt] = true
		if acc == "" {
			w(p, false, "accepts an order whose side or type is not known")
			continue
		}
		objs := p.accounts()
		if len(objs) != 1 || !p.isV(objs[0], acc+".R0") {
			w(p, false, "writes %v", objs)
			continue
		}
		q := p.with("Z", objs[0])
		n := q.numbers()
		w(p, n.Holds(acc+".R1"), "does not check that the account exists")
		av, lk := p.amount(p.o.st.load(mkFA(objs[0], "Available", nil2))), p.amount(p.o.st.load(mkFA(objs[0], "Locked", nil2)))
		oa := p.lastStore("Amount")
		if amt == "" {
			w(p, isZero(av) && q.isV(lk, "SetBytes(Z.Locked) + SetBytes(Z.Available)"), "a market order leaves %s available and %s locked", trunc(av.String(), 200), trunc(lk.String(), 200))
			w(p, q.isV(p.amount(oa), "SetBytes(Z.Available)"), "the amount of a market order is %s", trunc(fmt.Sprint(oa), 200))
			small := false
			for _, ev := range calls(p.Evs, "isAmountTooSmall") {
				small = small || p.F.decide(ev.Res) == 0 && p.isV(ev.Args[0], "A0") && p.isV(ev.Args[2], "A3") && q.isV(p.amount(ev.Args[1]), "SetBytes(Z.Available)")
			}
			w(p, small, "does not check that the amount of a market order is not too small")
		} else {
			w(p, q.isV(av, "SetBytes(Z.Available) - ("+amt+")") && q.isV(lk, "SetBytes(Z.Locked) + "+amt), "leaves %s available and %s locked", trunc(av.String(), 300), trunc(lk.String(), 300))
			w(p, n.Holds("SetBytes(Z.Available) >= "+amt), "does not check that enough is available")
			w(p, !p.changed("Amount"), "changes the amount of the order")
		}
		for _, f := range accParts[2:] {
			w(p, q.isV(p.o.st.load(mkFA(objs[0], f, nil2)), "Z."+f), "changes %s", f)
		}
		w(p, p.changed("MarketOrderAmtThreshold") == p.norm().Path.Holds("A2.Order.Type == 1"), "the threshold of market orders")
	}
	w(&Path{c: c, o: Outcome{pos: fp.f.Pos()}}, len(seen) == 3, "sell, limited buy and market buy orders are not all accepted")
	for _, p := range fp.failure(0) {
		acc, amt := want(p)
		why := acc != "" && p.norm().Path.Holds("!"+acc+".R1")
		if !why && acc != "" {
			why = amt != "" && p.numbers().Holds("SetBytes("+acc+".R0.Available) < "+amt)
			for _, ev := range calls(p.Evs, "isAmountTooSmall") {
				why = why || amt == "" && p.F.decide(ev.Res) == 1
			}
			// a market order takes what is available: that is never short
			why = why || amt == "" && contradictory(p.numbers().F)
		}
		w(p, why, "refuses although the account exists and suffices")
	}
}

func (p *Path) changed(field string) (r bool) {
	walkEvents(p.Evs, func(ev *Event) {
		r = r || ev.Kind == "store" && ev.Args[0].Op == "fa" && ev.Args[0].Sym == field
	})
	return
}

// renderCases: what RenderOrder writes, by kind of order, side and upgrade.
func renderCases() string {
	var sb strings.Builder
	for i, kind := range []string{"A1.OrderType == 0", "A6 && A1.OrderType == 2 || A1.OrderType == 3 || A1.OrderType == 4", "A1.OrderType != 0 && !A6", "A1.OrderType != 0 && A6 && A1.OrderType != 2 && A1.OrderType != 3 && A1.OrderType != 4"} {
		for _, sell := range []bool{false, true} {
			for _, up := range []string{"!IsStemFork(A2)", "IsStemFork(A2) && A4 == nil || IsDexRobotFork(A2)", "IsStemFork(A2) && A4 != nil && !IsDexRobotFork(A2)"} {
				amt, fee, agent, hash := "A0.Order.Amount", "A0.Order.LockedBuyFee", "A0.Order.Agent", "A0.Order.SendHash"
				cond := kind + " && " + up
				if i < 2 {
					amt = "$AMT"
					if sell {
						cond += " && A1.Side"
					} else {
						cond += " && !A1.Side"
						fee = "$FEE"
					}
				} else if sell {
					continue
				}
				if up[0] != '!' {
					hash = "bytes A5"
				}
				if strings.Contains(up, "A4 !=") {
					agent = "bytes *A4"
				}
				fmt.Fprintf(&sb, " case %s\n%s post A0.Order.Amount = %s\n post A0.Order.LockedBuyFee = %s\n post A0.Order.Agent = %s\n post A0.Order.SendHash = %s\n", cond, renderCommon, amt, fee, agent, hash)
			}
		}
	}
	return sb.String()
}

const renderCommon = ` call RenderFeeRate(*A3, A0, $M.R0, A2)
 post A0.Order.Id = ComposeOrderId(A2, $M.R0.MarketInfo.MarketId, A1.Side, A1.Price)
 post A0.Order.MarketId = $M.R0.MarketInfo.MarketId
 post A0.Order.Address = bytes *A3
 post A0.Order.Side = A1.Side
 post A0.Order.Type = A1.OrderType
 post A0.Order.Price = PriceToBytes(A1.Price)
 post A0.Order.Quantity = Bytes(A1.Quantity)
 post A0.Order.Status = 0
 post A0.Order.ExecutedQuantity = empty
 post A0.Order.ExecutedAmount = empty
 post A0.Order.RefundToken = empty
 post A0.Order.RefundQuantity = empty
 post A0.Order.Timestamp = GetTimestampInt64(A2)
 ret 0 $M.R0
`

const fundOpaque = "GetFund SaveFund GetFundKey deserializeFromDb serializeToDb GetAccountByToken isAmountTooSmall GetMarketOrderAmtThreshold AdjustAmountForDecimalsDiff BytesToTokenTypeId CalculateAmountForRate MaxTotalFeeRate SubBigIntAbs AddBigInt IsDexStopped GetMarketInfo IsMarketGrantedToAgent ComposeOrderId PriceToBytes RenderFeeRate CalculateRawAmount GetTimestampInt64 IsStemFork IsDexRobotFork RenderOrder CheckAndLockFundForNewOrder RenderMarketBuyOrderAmountAndFee Order.Serialize IsLeafFork PackMethod IsVersion11EnrichOrderFork IsDexStableMarketFork GetSuperVIPStaking GetVIPStaking GetInviterByInvitee GetTradeThreshold ValidPrice GetStableMarket"

const fundSpec = `
fn GetFundKey
 ret 0 bytes fundKeyPrefix; A0

fn GetFund
 watch deserializeFromDb
 call deserializeFromDb(A0, GetFundKey(A1), NEW)
 ret 0 NEW
 ret 1 deserializeFromDb(A0, GetFundKey(A1), NEW)

fn SaveFund
 watch serializeToDb
 call serializeToDb(A0, GetFundKey(A1), A2)

fn MaxTotalFeeRate
 case A0.Order.TakerFeeRate + A0.Order.TakerOperatorFeeRate > A0.Order.MakerFeeRate + A0.Order.MakerOperatorFeeRate
 ret 0 A0.Order.TakerFeeRate + A0.Order.TakerOperatorFeeRate
 case A0.Order.TakerFeeRate + A0.Order.TakerOperatorFeeRate <= A0.Order.MakerFeeRate + A0.Order.MakerOperatorFeeRate
 ret 0 A0.Order.MakerFeeRate + A0.Order.MakerOperatorFeeRate

fn PreCheckOrderParam
 err 0
 ok A0.Quantity > 0
 ok A0.OrderType <= 4
 ok A0.OrderType == 1 || ValidPrice(A0.Price, A1)

fn DoCancelOrder
 err 1
 skip panic
 def D PackMethod(ABIDexTrade, "InnerCancelOrderBySendHash", list(A0, A1)).R0
 send AddressDexTrade; BlockTypeSendCall; 0; ViteTokenId; $D; AddressDexFund

fn isAmountTooSmall
 def Q QuoteTokenTypeInfos[A2.MarketInfo.QuoteTokenType]
 def T GetTradeThreshold(A0, A2.MarketInfo.QuoteTokenType)
 case $Q.Decimals == A2.MarketInfo.QuoteTokenDecimals
 ret 0 iff val(A1) < $T
 case $Q.Decimals != A2.MarketInfo.QuoteTokenDecimals
 ret 0 iff AdjustAmountForDecimalsDiff(A1, A2.MarketInfo.QuoteTokenDecimals - $Q.Decimals) < $T

fn RenderMarketBuyOrderAmountAndFee
 def R MaxTotalFeeRate(*A0)
 def F CalculateAmountForRate(A0.Order.Amount, 1 + ($R / (100000 + $R)) * X)
 case $R > 0
 post A0.Order.LockedBuyFee = $F where X 100000
 post A0.Order.Amount = SubBigIntAbs(A0.Order.Amount, $F) where X 100000
 case $R <= 0
 post A0.Order.LockedBuyFee = A0.Order.LockedBuyFee
 post A0.Order.Amount = A0.Order.Amount

fn DoPlaceOrder
 err 1
 skip panic
 watch RenderOrder CheckAndLockFundForNewOrder SaveFund RenderMarketBuyOrderAmountAndFee
 ordered
 def O0 RenderOrder(NEW, A1, A0, A2, A3, A4, false)
 def O1 RenderOrder(NEW, A1, A0, A2, A3, A4, IsVersion11EnrichOrderFork(A0))
 def F GetFund(A0, *A2)
 def C0 CheckAndLockFundForNewOrder(A0, $F.R0, NEW, $O0.R0, false)
 def C1 CheckAndLockFundForNewOrder(A0, $F.R0, NEW, $O1.R0, IsVersion11EnrichOrderFork(A0))
 def OUT out($C1, _)
 ok A1.OrderType == 0 || IsVersion11EnrichOrderFork(A0)
 ok RenderOrder(NEW, A1, A0, A2, A3, A4, _).R1 == nil
 ok $F.R1
 ok CheckAndLockFundForNewOrder(A0, $F.R0, NEW, _, _) == nil
 case IsLeafFork(A0) && A1.OrderType == 0
 call $O0
 call $C0
 call SaveFund(A0, *A2, $F.R0)
 send AddressDexTrade; BlockTypeSendCall; 0; ViteTokenId; PackMethod(ABIDexTrade, "PlaceOrder", list(Order.Serialize(NEW).R0)).R0; AddressDexFund
 case IsLeafFork(A0) && A1.OrderType != 0 && $OUT.Side || $OUT.Type != 1
 call $O1
 call $C1
 call SaveFund(A0, *A2, $F.R0)
 send AddressDexTrade; BlockTypeSendCall; 0; ViteTokenId; PackMethod(ABIDexTrade, "PlaceOrder", list(Order.Serialize(NEW).R0)).R0; AddressDexFund
 case IsLeafFork(A0) && A1.OrderType != 0 && !$OUT.Side && $OUT.Type == 1
 call $O1
 call $C1
 call SaveFund(A0, *A2, $F.R0)
 call RenderMarketBuyOrderAmountAndFee(NEW)
 send AddressDexTrade; BlockTypeSendCall; 0; ViteTokenId; PackMethod(ABIDexTrade, "PlaceOrder", list(Order.Serialize(NEW).R0)).R0; AddressDexFund
 case !IsLeafFork(A0) && A1.OrderType == 0
 call $O0
 call $C0
 call SaveFund(A0, *A2, $F.R0)
 send AddressDexTrade; BlockTypeSendCall; 0; ViteTokenId; PackMethod(ABIDexTrade, "DexTradeNewOrder", list(Order.Serialize(NEW).R0)).R0; AddressDexFund
 case !IsLeafFork(A0) && A1.OrderType != 0 && $OUT.Side || $OUT.Type != 1
 call $O1
 call $C1
 call SaveFund(A0, *A2, $F.R0)
 send AddressDexTrade; BlockTypeSendCall; 0; ViteTokenId; PackMethod(ABIDexTrade, "DexTradeNewOrder", list(Order.Serialize(NEW).R0)).R0; AddressDexFund
 case !IsLeafFork(A0) && A1.OrderType != 0 && !$OUT.Side && $OUT.Type == 1
 call $O1
 call $C1
 call SaveFund(A0, *A2, $F.R0)
 call RenderMarketBuyOrderAmountAndFee(NEW)
 send AddressDexTrade; BlockTypeSendCall; 0; ViteTokenId; PackMethod(ABIDexTrade, "DexTradeNewOrder", list(Order.Serialize(NEW).R0)).R0; AddressDexFund

fn RenderFeeRate
 case IsDexStableMarketFork(A3) && GetStableMarket(_)
 post A1.Order.TakerFeeRate = A1.Order.TakerFeeRate
 post A1.Order.TakerOperatorFeeRate = A1.Order.TakerOperatorFeeRate
 post A1.Order.MakerFeeRate = A1.Order.MakerFeeRate
 post A1.Order.MakerOperatorFeeRate = A1.Order.MakerOperatorFeeRate
 case !IsDexStableMarketFork(A3) || !GetStableMarket(_) && GetSuperVIPStaking(A3, A0).R1 && GetInviterByInvitee(A3, A0).R1 != nil
 post A1.Order.TakerFeeRate = 0
 post A1.Order.TakerOperatorFeeRate = A2.MarketInfo.TakerOperatorFeeRate
 post A1.Order.MakerFeeRate = 0
 post A1.Order.MakerOperatorFeeRate = A2.MarketInfo.MakerOperatorFeeRate
 case !IsDexStableMarketFork(A3) || !GetStableMarket(_) && GetSuperVIPStaking(A3, A0).R1 && GetInviterByInvitee(A3, A0).R1 == nil
 post A1.Order.TakerFeeRate = 0
 post A1.Order.TakerOperatorFeeRate = (A2.MarketInfo.TakerOperatorFeeRate * 9) / 10
 post A1.Order.MakerFeeRate = 0
 post A1.Order.MakerOperatorFeeRate = (A2.MarketInfo.MakerOperatorFeeRate * 9) / 10
 case !IsDexStableMarketFork(A3) || !GetStableMarket(_) && !GetSuperVIPStaking(A3, A0).R1 && GetVIPStaking(A3, A0).R1 && GetInviterByInvitee(A3, A0).R1 != nil
 post A1.Order.TakerFeeRate = 100
 post A1.Order.TakerOperatorFeeRate = A2.MarketInfo.TakerOperatorFeeRate
 post A1.Order.MakerFeeRate = 100
 post A1.Order.MakerOperatorFeeRate = A2.MarketInfo.MakerOperatorFeeRate
 case !IsDexStableMarketFork(A3) || !GetStableMarket(_) && !GetSuperVIPStaking(A3, A0).R1 && GetVIPStaking(A3, A0).R1 && GetInviterByInvitee(A3, A0).R1 == nil
 post A1.Order.TakerFeeRate = 90
 post A1.Order.TakerOperatorFeeRate = (A2.MarketInfo.TakerOperatorFeeRate * 9) / 10
 post A1.Order.MakerFeeRate = 90
 post A1.Order.MakerOperatorFeeRate = (A2.MarketInfo.MakerOperatorFeeRate * 9) / 10
 case !IsDexStableMarketFork(A3) || !GetStableMarket(_) && !GetSuperVIPStaking(A3, A0).R1 && !GetVIPStaking(A3, A0).R1 && GetInviterByInvitee(A3, A0).R1 != nil
 post A1.Order.TakerFeeRate = 200
 post A1.Order.TakerOperatorFeeRate = A2.MarketInfo.TakerOperatorFeeRate
 post A1.Order.MakerFeeRate = 200
 post A1.Order.MakerOperatorFeeRate = A2.MarketInfo.MakerOperatorFeeRate
 case !IsDexStableMarketFork(A3) || !GetStableMarket(_) && !GetSuperVIPStaking(A3, A0).R1 && !GetVIPStaking(A3, A0).R1 && GetInviterByInvitee(A3, A0).R1 == nil
 post A1.Order.TakerFeeRate = 180
 post A1.Order.TakerOperatorFeeRate = (A2.MarketInfo.TakerOperatorFeeRate * 9) / 10
 post A1.Order.MakerFeeRate = 180
 post A1.Order.MakerOperatorFeeRate = (A2.MarketInfo.MakerOperatorFeeRate * 9) / 10

fn RenderOrder
 err 1
 def M GetMarketInfo(A2, A1.TradeToken, A1.QuoteToken)
 def AMT CalculateRawAmount(Bytes(A1.Quantity), PriceToBytes(A1.Price), $M.R0.MarketInfo.TradeTokenDecimals - $M.R0.MarketInfo.QuoteTokenDecimals)
 def FEE CalculateAmountForRate($AMT, MaxTotalFeeRate(_))
 def LIM A1.OrderType == 0 || A1.OrderType == 2 || A1.OrderType == 3 || A1.OrderType == 4
 watch RenderFeeRate
 ok !IsDexStopped(A2)
 ok $M.R1
 ok $M.R0.MarketInfo.Valid
 ok !$M.R0.MarketInfo.Stopped
 ok A4 == nil || IsMarketGrantedToAgent(A2, *A3, *A4, $M.R0.MarketInfo.MarketId)
 mayfail isAmountTooSmall(A2, AddBigInt($AMT, _), $M.R0)
RENDERCASES
fn CheckSettleActions
 err 0
 ok A0 != nil
 ok len(A0.FundActions) != 0 || len(A0.FeeActions) != 0
 mayfail true

fn Account.Serialize
 def P NEW
 ret 0 obj Token = bytes A0.Token; Available = cond A0.Available != nil ?? Bytes(A0.Available) :: empty; Locked = cond A0.Locked != nil ?? Bytes(A0.Locked) :: empty; VxLocked = cond A0.VxLocked != nil ?? Bytes(A0.VxLocked) :: empty; VxUnlocking = cond A0.VxUnlocking != nil ?? Bytes(A0.VxUnlocking) :: empty; CancellingStake = cond A0.CancellingStake != nil ?? Bytes(A0.CancellingStake) :: empty

fn Account.Deserialize
 post A0.Token = BytesToTokenTypeId(A1.Token).R0
 post A0.Available = cond len(A1.Available) > 0 ?? val(A1.Available) :: A0.Available
 post A0.Locked = cond len(A1.Locked) > 0 ?? val(A1.Locked) :: A0.Locked
 post A0.VxLocked = cond len(A1.VxLocked) > 0 ?? val(A1.VxLocked) :: A0.VxLocked
 post A0.VxUnlocking = cond len(A1.VxUnlocking) > 0 ?? val(A1.VxUnlocking) :: A0.VxUnlocking
 post A0.CancellingStake = cond len(A1.CancellingStake) > 0 ?? val(A1.CancellingStake) :: A0.CancellingStake

fn CheckCancelAgentOrder
 err 1
 def M GetMarketInfo(A0, A2.TradeToken, A2.QuoteToken)
 ok A2.Principal == ZERO_ADDRESS || A2.Principal == A1 || $M.R1
 ok A2.Principal == ZERO_ADDRESS || A2.Principal == A1 || IsMarketGrantedToAgent(A0, A2.Principal, A1, $M.R0.MarketInfo.MarketId)
 case A2.Principal == ZERO_ADDRESS || A2.Principal == A1
 ret 0 A1
 case A2.Principal != ZERO_ADDRESS && A2.Principal != A1
 ret 0 A2.Principal
`

const fundContractOpaque = "UnpackMethod DepositAccount OnDepositVx OnWithdrawVx ReduceAccount AddTransferAssetEvent IsVersion11AddTransferAssetEvent PreCheckOrderParam IsStemFork DoPlaceOrder LockVxForDividend ScheduleVxUnlockForDividend DoSettleVxFunds AddVxUnlock CheckCancelAgentOrder DoCancelOrder CheckSettleActions proto.Unmarshal GetMarketInfoByTokens DoSettleFund SettleFees SettleOperatorFees ConsensusReader"

const fundContractSpec = `
fn MethodDexFundDeposit.DoSend
 err 0
 ok A2.Amount > 0

fn MethodDexFundWithdraw.DoSend
 err 0
 ok UnpackMethod(ABIDexFund, _, A0.MethodName, A2.Data) == nil
 ok unp(ABIDexFund, A0.MethodName, A2.Data).Amount > 0

fn MethodDexTransfer.DoSend
 err 0
 ok UnpackMethod(ABIDexFund, _, A0.MethodName, A2.Data) == nil
 ok unp(ABIDexFund, A0.MethodName, A2.Data).Amount > 0

fn MethodDexAgentDeposit.DoSend
 err 0
 ok UnpackMethod(ABIDexFund, _, A0.MethodName, A2.Data) == nil
 ok A2.Amount > 0

fn MethodDexAssignedWithdraw.DoSend
 err 0
 ok UnpackMethod(ABIDexFund, _, A0.MethodName, A2.Data) == nil
 ok unp(ABIDexFund, A0.MethodName, A2.Data).Amount > 0

fn MethodDexFundDeposit.DoReceive
 err 1
 watch DepositAccount OnDepositVx ReduceAccount AddTransferAssetEvent
 def D DepositAccount(A1, A3.AccountAddress, A3.TokenId, A3.Amount)
 def O OnDepositVx(A1, ConsensusReader(A4), A3.AccountAddress, A3.Amount, $D)
 ok A3.TokenId != VxTokenId || $O == nil
 call $D
 call if A3.TokenId == VxTokenId ? $O
 call if IsVersion11AddTransferAssetEvent(A1) ? AddTransferAssetEvent(A1, 1, A3.AccountAddress, AddressDexFund, A3.TokenId, A3.Amount, nil)

fn MethodDexFundWithdraw.DoReceive
 err 1
 watch DepositAccount OnWithdrawVx ReduceAccount AddTransferAssetEvent
 def P unp(ABIDexFund, A0.MethodName, A3.Data)
 def R ReduceAccount(A1, A3.AccountAddress, $P.Token, $P.Amount)
 def O OnWithdrawVx(A1, ConsensusReader(A4), A3.AccountAddress, $P.Amount, $R.R0)
 ok UnpackMethod(ABIDexFund, _, A0.MethodName, A3.Data) == nil
 ok $R.R1 == nil
 ok $P.Token != VxTokenId || $O == nil
 call $R
 call if $P.Token == VxTokenId ? $O
 call if IsVersion11AddTransferAssetEvent(A1) ? AddTransferAssetEvent(A1, 3, AddressDexFund, A3.AccountAddress, $P.Token, $P.Amount, nil)
 send A3.AccountAddress; BlockTypeSendCall; $P.Amount; $P.Token; empty; AddressDexFund

fn MethodDexTransfer.DoReceive
 err 1
 watch DepositAccount OnWithdrawVx OnDepositVx ReduceAccount AddTransferAssetEvent
 ordered
 def P unp(ABIDexFund, A0.MethodName, A3.Data)
 def R ReduceAccount(A1, A3.AccountAddress, $P.Token, $P.Amount)
 ok $R.R1 == nil
 call $R
 call DepositAccount(A1, $P.Target, $P.Token, $P.Amount)
 call AddTransferAssetEvent(A1, 5, A3.AccountAddress, $P.Target, $P.Token, $P.Amount, nil)

fn MethodDexAgentDeposit.DoReceive
 err 1
 watch DepositAccount OnWithdrawVx OnDepositVx ReduceAccount AddTransferAssetEvent
 def P unp(ABIDexFund, A0.MethodName, A3.Data)
 call DepositAccount(A1, $P, A3.TokenId, A3.Amount)
 call AddTransferAssetEvent(A1, 2, A3.AccountAddress, $P, A3.TokenId, A3.Amount, nil)

fn MethodDexAssignedWithdraw.DoReceive
 err 1
 watch DepositAccount OnWithdrawVx OnDepositVx ReduceAccount AddTransferAssetEvent
 def P unp(ABIDexFund, A0.MethodName, A3.Data)
 def R ReduceAccount(A1, A3.AccountAddress, $P.Token, $P.Amount)
 ok $R.R1 == nil
 call $R
 call AddTransferAssetEvent(A1, 4, A3.AccountAddress, $P.Target, $P.Token, $P.Amount, $P.Label)
 send $P.Target; BlockTypeSendCall; $P.Amount; $P.Token; $P.Label; AddressDexFund

fn MethodDexFundPlaceOrder.DoSend
 err 0
 ok UnpackMethod(ABIDexFund, _, A0.MethodName, A2.Data) == nil
 ok PreCheckOrderParam(_, IsStemFork(A1)) == nil

fn MethodDexFundPlaceAgentOrder.DoSend
 err 0
 ok UnpackMethod(ABIDexFund, _, A0.MethodName, A2.Data) == nil
 ok PreCheckOrderParam(_, true) == nil

fn MethodDexFundPlaceOrder.DoReceive
 plain
 def O DoPlaceOrder(A1, _, &A3.AccountAddress, nil, A3.Hash)
 watch DoPlaceOrder
 call $O
 case $O.R1 == nil
 ret 0 $O.R0
 ret 1 nil
 case $O.R1 != nil
 ret 0 nil
 ret 1 $O.R1

fn MethodDexFundPlaceAgentOrder.DoReceive
 plain
 def U UnpackMethod(ABIDexFund, _, A0.MethodName, A3.Data)
 def P unp(ABIDexFund, A0.MethodName, A3.Data)
 def O DoPlaceOrder(A1, &X.ParamPlaceOrder, &X.Principal, &A3.AccountAddress, A3.Hash)
 watch DoPlaceOrder
 case $U != nil
 ret 0 nil
 ret 1 $U
 case $U == nil && $O.R1 == nil
 call $O
 ret 0 $O.R0
 ret 1 nil
 case $U == nil && $O.R1 != nil
 call $O
 ret 0 nil
 ret 1 $O.R1

fn MethodDexFundSettleOrders.DoReceive
 err 1
 def P unp(ABIDexFund, A0.MethodName, A3.Data)
 def S out(Unmarshal($P.Data, NEW), _)
 def M GetMarketInfoByTokens(A1, $S.TradeToken, $S.QuoteToken)
 watch DoSettleFund SettleFees SettleOperatorFees
 ok UnpackMethod(ABIDexFund, _, A0.MethodName, A3.Data) == nil
 ok Unmarshal($P.Data, NEW) == nil
 ok $M.R1
 mayfail DoSettleFund(A1, _, _, $M.R0, _) != nil
 call each $S.FundActions : DoSettleFund(A1, ConsensusReader(A4), $S.FundActions[I], $M.R0, _)
 call if len($S.FeeActions) > 0 ? SettleFees(A1, ConsensusReader(A4), $M.R0.MarketInfo.AllowMining, $M.R0.MarketInfo.QuoteToken, $M.R0.MarketInfo.QuoteTokenDecimals, $M.R0.MarketInfo.QuoteTokenType, $S.FeeActions, nil, nil)
 call if len($S.FeeActions) > 0 ? SettleOperatorFees(A1, ConsensusReader(A4), $S.FeeActions, $M.R0)

fn MethodDexFundSettleOrders.DoSend
 err 0
 ok A2.AccountAddress == AddressDexTrade
 ok UnpackMethod(ABIDexFund, _, A0.MethodName, A2.Data) == nil
 ok Unmarshal(unp(ABIDexFund, A0.MethodName, A2.Data).Data, NEW) == nil
 ok CheckSettleActions(NEW) == nil

fn MethodDexFundLockVxForDividend.DoSend
 err 0
 def P unp(ABIDexFund, A0.MethodName, A2.Data)
 ok UnpackMethod(ABIDexFund, _, A0.MethodName, A2.Data) == nil
 ok $P.ActionType == 1 || $P.ActionType == 2
 ok $P.Amount >= 1000000000000000000

fn MethodDexFundLockVxForDividend.DoReceive
 err 1
 def P unp(ABIDexFund, A0.MethodName, A3.Data)
 def L LockVxForDividend(A1, A3.AccountAddress, $P.Amount)
 def U ScheduleVxUnlockForDividend(A1, A3.AccountAddress, $P.Amount)
 watch LockVxForDividend ScheduleVxUnlockForDividend DoSettleVxFunds AddVxUnlock
 ok UnpackMethod(ABIDexFund, _, A0.MethodName, A3.Data) == nil
 ok $P.ActionType != 1 || $L.R1 == nil
 ok $P.ActionType != 2 || $U.R1 == nil
 case $P.ActionType == 1
 call $L
 call DoSettleVxFunds(A1, ConsensusReader(A4), A3.AccountAddress, $P.Amount, $L.R0)
 case $P.ActionType == 2
 call $U
 call AddVxUnlock(A1, ConsensusReader(A4), A3.AccountAddress, $P.Amount)
 call DoSettleVxFunds(A1, ConsensusReader(A4), A3.AccountAddress, 0 - $P.Amount, $U.R0)
 case $P.ActionType != 1 && $P.ActionType != 2

fn MethodDexCancelOrderBySendHash.DoSend
 err 0
 def P unp(ABIDexFund, A0.MethodName, A2.Data)
 ok UnpackMethod(ABIDexFund, _, A0.MethodName, A2.Data) == nil
 ok $P.Principal == ZERO_ADDRESS || $P.Principal == A2.AccountAddress || $P.TradeToken != ZERO_TOKENID
 ok $P.Principal == ZERO_ADDRESS || $P.Principal == A2.AccountAddress || $P.QuoteToken != ZERO_TOKENID

fn MethodDexCancelOrderBySendHash.DoReceive
 plain
 def P unp(ABIDexFund, A0.MethodName, A3.Data)
 def K CheckCancelAgentOrder(A1, A3.AccountAddress, _)
 case $K.R1 != nil
 ret 0 nil
 ret 1 $K.R1
 case $K.R1 == nil
 ret 0 DoCancelOrder($P.SendHash, $K.R0).R0
 ret 1 DoCancelOrder($P.SendHash, $K.R0).R1
`

func contradictory(fs Facts) bool {
	for _, f := range fs {
		if Facts(nil).possible(f.A, f.B)&f.Mask == 0 {
			return true
		}
	}
	return false
}

func (p *Path) lastStore(field string) (v *Term) {
	walkEvents(p.Evs, func(ev *Event) {
		if ev.Kind == "store" && ev.Args[0].Op == "fa" && ev.Args[0].Sym == field {
			v = ev.Args[1]
		}
	})
	return
}

// fundLookup: GetAccountByToken finds the account of the token, or makes an
// empty one.
func (c *Ctx) fundLookup() {
	fn := "GetAccountByToken"
	fp := c.pathsOf(dexPkg, fn, "")
	if fp.f == nil {
		return
	}
	w := func(p *Path, ok bool, f string, a ...any) { c.Ob(ok, "account-lookup", fn, p.where(), f, a...) }
	n := 0
	for _, p := range fp.all() {
		r := stripConv(p.o.res[0])
		if b, ok := matchT(pat("A0.Fund.Accounts[X]"), r, Bind{}); ok {
			n |= 1
			w(p, p.isV(p.o.res[1], "true"), "an account found is reported missing")
			w(p, p.with("X", b["X"]).norm().Path.Holds("A1 == A0.Fund.Accounts[X].Token"), "the account returned may be that of another token")
			continue
		}
		n |= 2
		w(p, localObj(r), "returns %s", trunc(r.String(), 200))
		w(p, p.isV(p.o.res[1], "false"), "a new account is reported found")
		w(p, p.exhausted("A0.Fund.Accounts", "A1 != A0.Fund.Accounts[I].Token"), "not all accounts are compared with the token")
		if localObj(r) {
			w(p, p.isV(p.o.st.load(mkFA(r, "Token", nil2)), "bytes A1"), "a new account has another token")
			for _, f := range accParts {
				v := p.o.st.load(mkFA(r, f, nil2))
				w(p, isZero(p.amount(v)), "%s of a new account is %s", f, trunc(v.String(), 100))
			}
		}
	}
	w(&Path{c: c, o: Outcome{pos: fp.f.Pos()}}, n == 3, "does not handle present and missing accounts")
}

// fundSettle: DoSettleFund applies every settlement of one address.
func (c *Ctx) fundSettle() {
	fn := "DoSettleFund"
	fp := c.pathsOf(dexPkg, fn, "GetFund SaveFund GetAccountByToken SafeSubBigInt OnSettleVx GetTokenInfo IsDexFeeFork BytesToTokenTypeId")
	if fp.f == nil {
		return
	}
	w := func(p *Path, ok bool, f string, a ...any) { c.Ob(ok, "settlement", fn, p.where(), f, a...) }
	done := 0
	for _, p := range fp.success(0) {
		if p.norm().Path.Holds("len(A2.Address) != 21") {
			continue // refused before (CheckSettleActions)
		}
		done++
		saves := calls(p.Evs, "SaveFund")
		gets := calls(p.Evs, "GetFund")
		if len(saves) != 1 || len(gets) != 1 {
			w(p, false, "the accounts are read %d and stored %d times", len(gets), len(saves))
			continue
		}
		adr := gets[0].Args[1]
		w(p, p.isV(adr, "bytes A2.Address") && saves[0].Args[1] == adr && p.isV(saves[0].Args[0], "A0") && p.isV(gets[0].Args[0], "A0"), "reads the accounts of %s and stores those of %s", trunc(adr.String(), 150), trunc(saves[0].Args[1].String(), 150))
		w(p, p.with("X", adr).isV(saves[0].Args[2], "GetFund(A0, X).R0"), "stores %s", trunc(saves[0].Args[2].String(), 200))
		loops := 0
		for _, ev := range p.Evs {
			if ev.Kind != "loop" {
				continue
			}
			over, idx, full := p.loopSubject(ev)
			if over == nil || !p.isV(over, "A2.AccountSettles") || !full {
				w(p, false, "settles by a loop over %v", over)
				continue
			}
			loops++
			w(p, len(ev.Loop.Iters) > 0, "settles nothing")
			for _, st := range ev.Loop.Iters {
				c.settleOne(p.iterPath(ev, st, nil), w, p, idx, adr)
			}
		}
		w(p, loops == 1, "settles in %d loops", loops)
	}
	w(&Path{c: c, o: Outcome{pos: fp.f.Pos()}}, done > 0, "never succeeds")
	for _, p := range fp.failure(0) {
		w(p, len(calls(p.Evs, "SaveFund")) == 0, "stores the accounts although it fails")
	}
	// what exceeds the locked part ends the call, but only before the fee fork
	for _, p := range c.all(fp.outs) {
		if p.o.panic {
			n := p.norm().Path
			w(p, !n.Holds("IsDexFeeFork(A0)") || n.Holds("!GetTokenInfo(A0, _).R1"), "the settlement fails after the fee fork: %s", p.Describe())
		}
	}
}

func (c *Ctx) settleOne(q *Path, w func(*Path, bool, string, ...any), p *Path, idx, adr *Term) {
	q.B = Bind{"I": idx, "Y": adr}
	n := q.norm().Path
	s := "A2.AccountSettles[I]"
	tok := ""
	switch {
	case n.Holds(s + ".IsTradeToken"):
		tok = "A3.MarketInfo.TradeToken"
	case n.Holds("!" + s + ".IsTradeToken"):
		tok = "A3.MarketInfo.QuoteToken"
	default:
		w(p, false, "settles without asking which token")
		return
	}
	get := "GetAccountByToken(GetFund(A0, Y).R0, BytesToTokenTypeId(" + tok + ").R0)"
	objs := []*Term{}
	for _, o := range q.accounts() {
		objs = append(objs, o)
		w(p, q.isV(o, get+".R0"), "settles %s", trunc(o.String(), 200))
	}
	w(p, len(objs) <= 1, "changes %d accounts", len(objs))
	zero := func(f string) bool {
		return n.Holds("len("+s+"."+f+") == 0") || q.numbers().Holds("SetBytes("+s+"."+f+") == 0")
	}
	if len(objs) == 0 {
		w(p, zero("ReduceLocked") && zero("ReleaseLocked") && zero("IncAvailable"), "does nothing although there may be something to settle")
	} else {
		o := objs[0]
		q.B["Z"] = o
		l0, a0 := q.before(o, "Locked"), q.before(o, "Available")
		l, a := stripConv(q.o.st.load(mkFA(o, "Locked", nil2))), q.amount(q.o.st.load(mkFA(o, "Available", nil2)))
		q.B["X1"], q.B["X2"] = l0, a0
		step := func(cur string, f string) string {
			if zero(f) {
				return cur
			}
			sub := "SafeSubBigInt(" + cur + ", " + s + "." + f + ")"
			n := q.norm().Path
			w(p, n.Holds("!"+sub+".R2") || n.Holds("IsDexFeeFork(A0)"), "more than the locked part is taken before the fee fork")
			return sub + ".R0"
		}
		l1 := step("X1", "ReduceLocked")
		w(p, q.isV(l, step(l1, "ReleaseLocked")), "Locked becomes %s", trunc(l.String(), 300))
		sum := "SetBytes(X2)"
		if !zero("ReleaseLocked") {
			sum += " + SetBytes(SafeSubBigInt(" + l1 + ", " + s + ".ReleaseLocked).R1)"
		}
		if !zero("IncAvailable") {
			sum += " + SetBytes(" + s + ".IncAvailable)"
		}
		w(p, q.isV(a, sum), "Available becomes %s instead of %s", trunc(a.String(), 400), sum)
		for _, f := range accParts[2:] {
			w(p, stripConv(q.o.st.load(mkFA(o, f, nil2))) == q.before(o, f), "changes %s", f)
		}
	}
	opened := 0
	walkEvents(q.Evs, func(ev *Event) {
		if ev.Kind == "store" && ev.Args[0].Op == "fa" && ev.Args[0].Sym == "Accounts" {
			l := stripConv(ev.Args[1])
			opened++
			w(p, l.Op == "append" && len(l.Args) == 2 && q.isV(l.Args[1], get+".R0"), "the accounts become %s", trunc(l.String(), 200))
		}
	})
	if n.Holds(get + ".R1") {
		w(p, opened == 0, "an account that exists is added again")
	} else {
		w(p, n.Holds("!"+get+".R1") && opened == 1, "an account that was missing is not added")
	}
	vx := calls(q.Evs, "OnSettleVx")
	if n.Holds(tok + " != VxTokenId") {
		w(p, len(vx) == 0, "VX settlement of another token")
	} else {
		w(p, len(vx) == 1 && q.isV(vx[0].Args[2], "A2.Address") && q.isV(vx[0].Args[3], s) && q.isV(vx[0].Args[4], get+".R0") && q.F.possible(vx[0].Res, kNil()) == EQ, "VX settlements are not recorded")
	}
}

// before: what the field held when the iteration began
func (p *Path) before(o *Term, f string) *Term {
	if len(p.Evs) > 0 {
		for _, ev := range p.Evs {
			if ev.St != nil {
				return stripConv(ev.St.load(mkFA(o, f, nil2)))
			}
		}
	}
	return nil
}

// fundBatch: every amount of the batch is added once, to the account of its
// token or to a new one.
func (c *Ctx) fundBatch() {
	fn := "BatchUpdateFund"
	fp := c.pathsOf(dexPkg, fn, "GetFund SaveFund MapToAmountWithTokens BytesToTokenTypeId")
	if fp.f == nil {
		return
	}
	w := func(p *Path, ok bool, f string, a ...any) { c.Ob(ok, "account-batch", fn, p.where(), f, a...) }
	acc := "GetFund(A0, A1).R0.Fund.Accounts"
	tok := "BytesToTokenTypeId(" + acc + "[I].Token)"
	done := 0
	for _, p := range fp.success(0) {
		done++
		p.savedOnce(w, "GetFund(A0, A1)", "A1")
		old, fresh := 0, 0
		for _, ev := range p.Evs {
			if ev.Kind != "loop" {
				continue
			}
			over, idx, full := p.loopSubject(ev)
			if over == nil || !full {
				w(p, false, "a loop over %v", over)
				continue
			}
			isOld := p.isV(over, acc)
			w(p, isOld || p.isV(over, "MapToAmountWithTokens(A2)"), "a loop over %s", trunc(over.String(), 200))
			for _, st := range ev.Loop.Iters {
				q := p.iterPath(ev, st, nil)
				q.B = Bind{"I": idx}
				objs := q.accounts()
				dels := 0
				for _, e := range q.Evs {
					if e.Kind == "mapdel" {
						dels++
						w(p, q.isV(e.Args[0], "A2") && q.isV(e.Args[1], tok+".R0"), "takes %s from the batch", trunc(joinT(e.Args), 200))
					}
				}
				if !isOld {
					fresh++
					ok := len(objs) == 1 && localObj(objs[0]) && dels == 0
					if ok {
						for _, f := range accParts {
							v := q.amount(q.o.st.load(mkFA(objs[0], f, nil2)))
							ok = ok && (f == "Available" && q.isV(v, "MapToAmountWithTokens(A2)[I].Amount") || f != "Available" && isZero(v))
						}
						ok = ok && q.isV(q.o.st.load(mkFA(objs[0], "Token", nil2)), "bytes MapToAmountWithTokens(A2)[I].Token")
					}
					w(p, ok, "a new account does not hold what is left of the batch")
					continue
				}
				old++
				n := q.norm().Path
				if n.Holds("!mapok(A2, " + tok + ".R0)") {
					w(p, len(objs) == 0 && dels == 0, "changes an account that is not in the batch")
					continue
				}
				ok := n.Holds("mapok(A2, "+tok+".R0)") && len(objs) == 1 && q.isV(objs[0], acc+"[I]") && dels == 1
				if ok {
					for _, f := range accParts {
						v := q.amount(q.o.st.load(mkFA(objs[0], f, nil2)))
						ok = ok && (f == "Available" && q.isV(v, "SetBytes("+acc+"[I].Available) + mapget(A2, "+tok+".R0)") || f != "Available" && q.isV(v, "SetBytes("+acc+"[I]."+f+")"))
					}
				}
				w(p, ok, "an account of the batch is not increased by exactly its amount")
			}
		}
		w(p, old == 2 && fresh == 1, "existing and new accounts are not both handled (%d, %d)", old, fresh)
	}
	w(&Path{c: c, o: Outcome{pos: fp.f.Pos()}}, done > 0, "never succeeds")
	for _, p := range fp.failure(0) {
		w(p, len(calls(p.Evs, "SaveFund")) == 0, "stores the accounts although it fails")
	}
	fp = c.pathsOf(dexPkg, "CheckSettleActions", "")
	if fp.f == nil {
		return
	}
	for _, p := range fp.success(0) {
		c.Ob(p.exhausted("A0.FundActions", "len(A0.FundActions[I].Address) == 21") && p.exhausted("A0.FundActions", "len(A0.FundActions[I].AccountSettles) != 0"), "settlement", "CheckSettleActions", p.where(), "accepts settlements without checking each address and its settlements")
	}
}

// fundKeys: no family of stored values has a key that another family's keys
// start with.
func (c *Ctx) fundKeys() {
	type fam struct{ name, key string }
	var fs []fam
	for n, m := range c.P.SPkg[dexPkg].Members {
		if _, ok := m.(*ssa.Global); !ok || !strings.HasSuffix(n, "Key") && !strings.HasSuffix(n, "Prefix") && n != "viteOwnerInitiated" {
			continue
		}
		v, _ := c.globalInit(dexPkg, n)
		if x, ok := v.(*ssa.Convert); ok {
			if k, ok := x.X.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
				fs = append(fs, fam{n, constant.StringVal(k.Value)})
			}
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].name < fs[j].name })
	for i, a := range fs {
		for j, b := range fs {
			if i != j {
				c.Ob(!strings.HasPrefix(b.key, a.key), "storage-keys", a.name, "vm/contracts/dex/fund_storage.go", "the keys of %s (%q) start with %q", b.name, b.key, a.key)
			}
		}
	}
	c.Ob(len(fs) >= 50, "storage-keys", "key families", "vm/contracts/dex/fund_storage.go", "only %d key families found", len(fs))
}
