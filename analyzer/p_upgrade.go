package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Prop{
		ID:    "C22",
		Title: "Rule changes and built-in methods take effect exactly at their upgrade height",
		Statement: "Every upgrade gate answers yes for a snapshot height exactly when that height has reached the height scheduled for its own version; the mainnet schedule is fixed, has no missing version and never goes backwards. " +
			"Which methods a built-in contract offers at a height is decided only by the upgrades active at that height: every method introduced up to then is available under its own name with its own implementation, no later method is, no upgrade removes or redirects an older method, and calls to anything else on a built-in contract are refused.",
		Over:      []string{"inputs", "histories"},
		Quant:     "all snapshot heights, upgrade schedules, contract addresses and method selectors",
		Why:       "Nodes that disagree on the rules for one height fork; tests run at a few heights with all upgrades on or off.",
		Files:     []string{"common/upgrade/face.go", "common/upgrade/upgrade.go", "common/upgrade/upgrade_init.go", "vm/contracts/contracts.go"},
		Mech:      [][2]string{{"gates", "upgrade.Is*Upgrade, upgradeBox.isActive"}, {"schedule", "NewMainnetUpgradeBox, checkBox, initFromArray, sortPoints"}, {"dispatch", "GetBuiltinContractMethod, new*Contracts"}},
		Technique: "symbolic evaluation of the gates and of the table constructors (all map updates through all helpers), compared entry by entry with the specified introduction level of every method",
		Note:      "The table of method introductions and the mainnet heights are taken as the specification (they are history that cannot change).",
		Run:       runC22,
	})
}

const upgradePkg = "common/upgrade"

const upgradeSpec = `
fn IsSeedUpgrade
 ret 0 isActive(upgrade, 1, A0)
fn IsDexUpgrade
 ret 0 isActive(upgrade, 2, A0)
fn IsDexFeeUpgrade
 ret 0 isActive(upgrade, 3, A0)
fn IsStemUpgrade
 ret 0 isActive(upgrade, 4, A0)
fn IsLeafUpgrade
 ret 0 isActive(upgrade, 5, A0)
fn IsEarthUpgrade
 ret 0 isActive(upgrade, 6, A0)
fn IsDexMiningUpgrade
 ret 0 isActive(upgrade, 7, A0)
fn IsDexRobotUpgrade
 ret 0 isActive(upgrade, 8, A0)
fn IsDexStableMarketUpgrade
 ret 0 isActive(upgrade, 9, A0)
fn IsVersion10Upgrade
 ret 0 isActive(upgrade, 10, A0)
fn IsVersion11Upgrade
 ret 0 isActive(upgrade, 11, A0)
fn IsVersion12Upgrade
 ret 0 isActive(upgrade, 12, A0)
fn IsVersion13Upgrade
 ret 0 isActive(upgrade, 13, A0)
fn IsVersionXUpgrade
 ret 0 isActive(upgrade, 14, A0)
fn GetLeafUpgradePoint
 ret 0 *getUpgradePoint(upgrade, 5)
fn IsUpgradePoint
 ret 0 isPoint(upgrade, A0)
fn GetCurPoint
 ret 0 currentPoint(upgrade, A0)
fn GetActivePoints
 ret 0 activePoints(upgrade, A0)
fn GetLatestPoint
 ret 0 latestPoint(upgrade)
fn heightPoint.IsDexFeeUpgrade
 ret 0 IsDexFeeUpgrade(A0.height)
fn heightPoint.IsVersion12Upgrade
 ret 0 IsVersion12Upgrade(A0.height)
fn upgradeBox.isActive
 case mapget(A0.pointMap, A1) == nil
  ret 0 false
 case mapget(A0.pointMap, A1) != nil
  ret 0 A2 >= mapget(A0.pointMap, A1).Height
fn upgradeBox.getUpgradePoint
 ret 0 mapget(A0.pointMap, A1)
fn upgradeBox.isPoint
 ret 0 mapget(A0.heightMap, A1)
fn upgradeBox.UpgradePoints
 ret 0 A0.sortedPoints
fn byVersion.Less
 ret 0 A0[A1].Version < A0[A2].Version
fn byVersion.Len
 ret 0 len(A0)
`

// mainnet heights, by version
var mainnetHeights = []string{"3488471", "5442723", "8013367", "8403110", "9413600", "16634530", "17142720", "31305900", "39694000", "77106666", "101320000", "116480000", "166869900", "1000000000"}

func runC22(c *Ctx) {
	for _, s := range parseSpecs(upgradeSpec) {
		e := c.Opts([]string{upgradePkg}, "isActive", "getUpgradePoint", "isPoint", "currentPoint", "activePoints", "latestPoint")
		if strings.HasPrefix(s.fn, "upgradeBox.") {
			e = c.Opts([]string{upgradePkg})
		}
		if strings.HasPrefix(s.fn, "heightPoint.") {
			e = c.Opts([]string{upgradePkg}, "IsDexFeeUpgrade", "IsVersion12Upgrade")
		}
		c.specFn(e, upgradePkg, s, "gate")
	}
	c.upgradeBox()
	c.dispatch()
}

func (c *Ctx) upgradeBox() {
	e := c.Opts([]string{upgradePkg}, "newUpgradeBox", "sortPoints", "Sort")
	if f := c.Func(upgradePkg, "NewMainnetUpgradeBox"); f != nil {
		for _, p := range c.all(c.Paths(e, f)) {
			_, ev := lastCall(p, "newUpgradeBox")
			ok := ev != nil && len(ev.Args) == 1 && isT(p.o.res[0], "newUpgradeBox(_)")
			got := map[string]string{}
			n := 0
			if ok {
				els := stripConv(ev.Args[0]).Args
				st := ev.St
				if st == nil {
					st = p.o.st
				}
				n = len(els)
				for _, el := range els {
					v := st.load(mkFA(stripConv(el), "Version", nil2))
					h := st.load(mkFA(stripConv(el), "Height", nil2))
					got[v.String()] = h.String()
				}
			}
			c.Ob(ok && n == len(mainnetHeights), "schedule", "NewMainnetUpgradeBox", p.where(), "%d upgrade points are scheduled on mainnet instead of %d", n, len(mainnetHeights))
			for i, h := range mainnetHeights {
				g := got[itoa(i+1)]
				c.Ob(g == h || strings.HasSuffix(g, "."+h), "schedule", "NewMainnetUpgradeBox version "+itoa(i+1), p.where(), "version %d is scheduled at %q instead of %s", i+1, g, h)
			}
		}
	}
	if f := c.Func(upgradePkg, "upgradeBox.initFromArray"); f != nil {
		for _, p := range c.all(c.Paths(e, f)) {
			ok := p.forAll("A1", func(q *Path, l seqLoop) bool {
				b := Bind{"I": l.idx}
				pm, hm := false, false
				for _, ev := range q.Evs {
					if ev.Kind == "mapset" && isTB(ev.Args[0], "A0.pointMap", b) {
						pm = isTB(ev.Args[1], "A1[I].Version", b) && isTB(ev.Args[2], "A1[I]", b)
					}
					if ev.Kind == "mapset" && isTB(ev.Args[0], "A0.heightMap", b) {
						hm = isTB(ev.Args[1], "A1[I].Height", b) && isTrueT(ev.Args[2])
					}
				}
				return pm && hm
			})
			c.Ob(ok, "box", "upgradeBox.initFromArray", p.where(), "not every point is filed under its own version and height")
			v := p.o.st.load(mkFA(param(0, nil), "sortedPoints", nil2))
			c.Ob(isT(v, "sortPoints(A0.pointMap)"), "box", "upgradeBox.initFromArray", p.where(), "the ordered points are %v", v)
		}
	}
	if f := c.Func(upgradePkg, "newUpgradeBox"); f != nil {
		for _, p := range c.all(c.Paths(c.Opts([]string{upgradePkg}, "initFromArray", "checkBox"), f)) {
			_, in := lastCall(p, "initFromArray")
			_, ck := lastCall(p, "checkBox")
			c.Ob(in != nil && ck != nil && isT(in.Args[1], "A0") && stripConv(in.Args[0]) == stripConv(p.o.res[0]), "box", "newUpgradeBox", p.where(), "the box is not filled from the given points and checked")
		}
	}
	if f := c.Func(upgradePkg, "upgradeBox.checkBox"); f != nil {
		n := 0
		for _, p := range c.all(c.Paths(c.Opts([]string{upgradePkg}), f)) {
			ok := p.forAll("A0.sortedPoints", func(q *Path, l seqLoop) bool {
				b := Bind{"I": l.idx}
				last := false
				for _, ph := range l.ev.Loop.Phis {
					if !isZero(ph.Init) || ph.Iter == l.idx {
						continue
					}
					good := len(ph.Next) > 0
					for _, x := range ph.Next {
						good = good && isTB(x, "A0.sortedPoints[I].Height", b)
					}
					if good && holdsB(q, "A0.sortedPoints[I].Height >= X", Bind{"I": l.idx, "X": ph.Iter}) {
						last = true
					}
				}
				ver := holdsB(q, "A0.sortedPoints[I].Version - 1 == I", b) || holdsB(q, "A0.sortedPoints[I].Version == I + 1", b)
				return last && ver
			})
			c.Ob(ok, "box", "upgradeBox.checkBox", p.where(), "a schedule with a missing version or a decreasing height is accepted")
			n++
		}
		c.Ob(n > 0, "box", "upgradeBox.checkBox", c.P.pos(f.Pos()), "never accepts")
	}
	if f := c.Func(upgradePkg, "sortPoints"); f != nil {
		ok := false
		for _, p := range c.all(c.Paths(e, f)) {
			if _, ev := lastCall(p, "Sort"); ev != nil {
				ok = true
				_ = ev
			}
		}
		c.Ob(ok, "box", "sortPoints", c.P.pos(f.Pos()), "the points are not sorted by version")
	}
}

// dispatchLevels: gate, and what it adds (contract method implementation).
var dispatchLevels = []string{"", "IsDexUpgrade", "IsStemUpgrade", "IsLeafUpgrade", "IsEarthUpgrade", "IsDexRobotUpgrade", "IsDexStableMarketUpgrade", "IsVersion11Upgrade", "IsVersionXUpgrade"}

type methodTab map[string]map[string]string // contract -> method -> implementation(MethodName)

func (c *Ctx) methodTable(g string) (methodTab, map[string]string, string) {
	v, where := c.globalInit(contractsPkg, g)
	call, ok := v.(*ssa.Call)
	if !ok || call.Call.StaticCallee() == nil || len(call.Call.Args) > 0 {
		return nil, nil, where
	}
	outs := c.Paths(c.Opts([]string{contractsPkg}), call.Call.StaticCallee())
	if len(outs) != 1 || outs[0].panic || len(outs[0].res) != 1 {
		return nil, nil, where
	}
	st := outs[0].st
	entries := func(m *Term) map[string]*Term {
		r := map[string]*Term{}
		for k, v := range st.mem {
			if k.Op == "ma" && k.Args[0] == m {
				key := k.Args[1].String()
				r[key] = v
			}
		}
		return r
	}
	tab, abis := methodTab{}, map[string]string{}
	for addr, bc := range entries(stripConv(outs[0].res[0])) {
		addr = addr[strings.LastIndex(addr, ".")+1:]
		m := st.load(mkFA(stripConv(bc), "m", nil2))
		abis[addr] = baseName(st.load(mkFA(stripConv(bc), "abi", nil2)).String())
		tab[addr] = map[string]string{}
		for name, impl := range entries(stripConv(m)) {
			impl = stripConv(impl)
			tn := "?"
			if t := pointee(impl.Typ); t != nil {
				if n, ok := types.Unalias(t).(*types.Named); ok {
					tn = n.Obj().Name()
				}
			}
			mn := st.load(mkFA(impl, "MethodName", nil2))
			tab[addr][strings.Trim(name, `"`)] = tn + "(" + strings.Trim(mn.String(), `"`) + ")"
		}
	}
	return tab, abis, where
}

func (c *Ctx) dispatch() {
	f := c.Func(contractsPkg, "GetBuiltinContractMethod")
	if f == nil {
		return
	}
	want := make([]methodTab, len(dispatchLevels))
	lv := -1
	for _, l := range strings.Split(strings.TrimSpace(dispatchTable), "\n") {
		fs := strings.Fields(l)
		if fs[0] == "level" {
			lv++
			want[lv] = methodTab{}
			if lv > 0 {
				for a, ms := range want[lv-1] {
					want[lv][a] = map[string]string{}
					for k, v := range ms {
						want[lv][a][k] = v
					}
				}
			}
			continue
		}
		if want[lv][fs[0]] == nil {
			want[lv][fs[0]] = map[string]string{}
		}
		want[lv][fs[0]][fs[1]] = fs[2] + "(" + fs[1] + ")"
	}
	tabs := map[string]methodTab{}
	abis := map[string]map[string]string{}
	wheres := map[string]string{}
	e := c.Opts([]string{contractsPkg}, append([]string{"MethodById"}, dispatchLevels[1:]...)...)
	seen := map[int]bool{}
	for _, p := range c.all(c.Paths(e, f)) {
		// the level: the newest active gate
		lv := -1
		for i := len(dispatchLevels) - 1; i >= 0; i-- {
			if i == 0 {
				lv = 0
				break
			}
			if p.Holds(dispatchLevels[i] + "(A2)") {
				lv = i
				break
			}
			if !p.Holds("!" + dispatchLevels[i] + "(A2)") {
				break
			}
		}
		c.Ob(lv >= 0, "dispatch", "GetBuiltinContractMethod", p.where(), "a table is chosen without asking every newer upgrade: %s", p.Describe())
		if lv < 0 {
			continue
		}
		seen[lv] = true
		// the table: the map that was looked up
		var g string
		for _, f := range p.F {
			for _, t := range []*Term{f.A, f.B} {
				if t.Op == "mapok" && t.Args[0].Op == "global" && isT(t.Args[1], "A0") {
					g = t.Args[0].Sym
				}
			}
		}
		g = g[strings.LastIndex(g, ".")+1:]
		c.Ob(g != "", "dispatch", "GetBuiltinContractMethod", p.where(), "no table of contracts is consulted: %s", p.Describe())
		if g == "" {
			continue
		}
		if _, ok := tabs[g]; !ok {
			tabs[g], abis[g], wheres[g] = c.methodTable(g)
		}
		t := tabs[g]
		w := want[lv]
		key := dispatchLevels[lv] + " " + g
		for _, d := range diffTab(w, t) {
			c.Ob(false, "methods", key, wheres[g], "%s", d)
		}
		c.Ob(t != nil, "methods", key, wheres[g], "the table of methods cannot be evaluated")
		for a, b := range abis[g] {
			c.Ob("Address"+strings.TrimPrefix(b, "ABI") == a, "methods", key, wheres[g], "contract %s is described by %s", a, b)
		}
		// the answer
		has := p.Holds("mapok(" + g + ", A0)")
		mid := "MethodById(&mapget(" + g + ", A0).abi, A1)"
		meth := "mapget(mapget(" + g + ", A0).m, " + mid + ".R0.Name)"
		r := p.o.res
		found := has && p.Holds(mid+".R1 == nil") && p.Holds("mapok(mapget("+g+", A0).m, "+mid+".R0.Name)")
		switch {
		case found:
			c.Ob(isT(r[0], meth) && p.decideB(r[1]) == 1 && isNilT(stripConv(r[2])), "dispatch", "GetBuiltinContractMethod", p.where(), "a known method is answered with %v", r)
		case has:
			unknown := p.Holds(mid+".R1 != nil") || p.Holds("!mapok(mapget("+g+", A0).m, "+mid+".R0.Name)")
			c.Ob(unknown && isNilT(stripConv(r[0])) && p.decideB(r[1]) == 1 && isT(r[2], "ErrAbiMethodNotFound"), "dispatch", "GetBuiltinContractMethod", p.where(), "an unknown method of a built-in contract is answered with %v: %s", r, p.Describe())
		default:
			c.Ob(p.Holds("!mapok("+g+", A0)") && isNilT(stripConv(r[0])) && p.decideB(r[1]) == 0 && isNilT(stripConv(r[2])), "dispatch", "GetBuiltinContractMethod", p.where(), "an address that is no built-in contract is answered with %v", r)
		}
	}
	for i := range dispatchLevels {
		c.Ob(seen[i], "dispatch", "GetBuiltinContractMethod", c.P.pos(f.Pos()), "no table for %q", dispatchLevels[i])
	}
	c.Floor("dispatch", 27)
}

func (p *Path) decideB(t *Term) int { return p.norm().F.decide(stripConv(t)) }

func diffTab(want, got methodTab) []string {
	var out []string
	for a, ms := range want {
		for m, i := range ms {
			if g := got[a][m]; g != i {
				out = append(out, fmt.Sprintf("method %s of %s is implemented by %q instead of %q", m, a, g, i))
			}
		}
	}
	for a, ms := range got {
		for m, i := range ms {
			if want[a][m] == "" {
				out = append(out, fmt.Sprintf("method %s of %s (%s) exists before its upgrade", m, a, i))
			}
		}
	}
	sort.Strings(out)
	return out
}

const dispatchTable = `
level 
AddressAsset Burn MethodBurn
AddressAsset Burn2 MethodBurn2
AddressAsset ChangeTokenType MethodDisableReIssue
AddressAsset Issue MethodReIssue
AddressAsset Mint MethodIssue
AddressAsset TransferOwner MethodTransferOwnership
AddressGovernance CancelRegister MethodRevoke
AddressGovernance CancelVote MethodCancelVote
AddressGovernance Register MethodRegister
AddressGovernance Reward MethodWithdrawReward
AddressGovernance UpdateRegistration MethodUpdateBlockProducingAddress
AddressGovernance Vote MethodVote
AddressQuota CancelPledge MethodCancelStake
AddressQuota Pledge MethodStake
level IsDexUpgrade
AddressAsset GetTokenInfo MethodGetTokenInfo
AddressDexFund AgentCancelPledgeCallback MethodDexFundCancelDelegateStakeCallback
AddressDexFund AgentPledgeCallback MethodDexFundDelegateStakeCallback
AddressDexFund DexFundBindInviteCode MethodDexFundBindInviteCode
AddressDexFund DexFundEndorseVx MethodDexFundEndorseVx
AddressDexFund DexFundMarketOwnerConfig MethodDexFundMarketAdminConfig
AddressDexFund DexFundNewInviter MethodDexFundCreateNewInviter
AddressDexFund DexFundNewMarket MethodDexFundOpenNewMarket
AddressDexFund DexFundNewOrder MethodDexFundPlaceOrder
AddressDexFund DexFundOwnerConfig MethodDexFundDexAdminConfig
AddressDexFund DexFundOwnerConfigTrade MethodDexFundTradeAdminConfig
AddressDexFund DexFundPeriodJob MethodDexFundTriggerPeriodJob
AddressDexFund DexFundPledgeForVip MethodDexFundStakeForVIP
AddressDexFund DexFundPledgeForVx MethodDexFundStakeForMining
AddressDexFund DexFundSettleMakerMinedVx MethodDexFundSettleMakerMinedVx
AddressDexFund DexFundSettleOrders MethodDexFundSettleOrders
AddressDexFund DexFundTransferTokenOwner MethodDexFundTransferTokenOwnership
AddressDexFund DexFundUserDeposit MethodDexFundDeposit
AddressDexFund DexFundUserWithdraw MethodDexFundWithdraw
AddressDexFund GetTokenInfoCallback MethodDexFundGetTokenInfoCallback
AddressDexFund NotifyTime MethodDexFundNotifyTime
AddressDexTrade DexTradeCancelOrder MethodDexTradeCancelOrder
AddressDexTrade DexTradeCleanExpireOrders MethodDexTradeClearExpiredOrders
AddressDexTrade DexTradeNewOrder MethodDexTradePlaceOrder
AddressDexTrade DexTradeNotifyNewMarket MethodDexTradeSyncNewMarket
AddressQuota AgentCancelPledge MethodCancelDelegateStake
AddressQuota AgentPledge MethodDelegateStake
level IsStemUpgrade
AddressDexFund DexFundConfigMarketsAgent MethodDexFundConfigMarketAgents
AddressDexFund DexFundNewAgentOrder MethodDexFundPlaceAgentOrder
AddressDexFund DexFundPledgeForSuperVip MethodDexFundStakeForSVIP
AddressDexTrade DexTradeCancelOrderByHash MethodDexTradeCancelOrderByTransactionHash
level IsLeafUpgrade
AddressAsset DisableReIssue MethodDisableReIssue
AddressAsset IssueToken MethodIssue
AddressAsset ReIssue MethodReIssue
AddressAsset TransferOwnership MethodTransferOwnership
AddressDexFund BindInviteCode MethodDexFundBindInviteCode
AddressDexFund CancelDelegateStakeCallback MethodDexFundCancelDelegateStakeCallback
AddressDexFund ConfigMarketAgents MethodDexFundConfigMarketAgents
AddressDexFund CreateNewInviter MethodDexFundCreateNewInviter
AddressDexFund DelegateStakeCallback MethodDexFundDelegateStakeCallback
AddressDexFund Deposit MethodDexFundDeposit
AddressDexFund DexAdminConfig MethodDexFundDexAdminConfig
AddressDexFund EndorseVx MethodDexFundEndorseVx
AddressDexFund MarketAdminConfig MethodDexFundMarketAdminConfig
AddressDexFund OpenNewMarket MethodDexFundOpenNewMarket
AddressDexFund PlaceAgentOrder MethodDexFundPlaceAgentOrder
AddressDexFund PlaceOrder MethodDexFundPlaceOrder
AddressDexFund SettleMakerMinedVx MethodDexFundSettleMakerMinedVx
AddressDexFund SettleOrders MethodDexFundSettleOrders
AddressDexFund StakeForMining MethodDexFundStakeForMining
AddressDexFund StakeForSVIP MethodDexFundStakeForSVIP
AddressDexFund StakeForVIP MethodDexFundStakeForVIP
AddressDexFund TradeAdminConfig MethodDexFundTradeAdminConfig
AddressDexFund TransferTokenOwnership MethodDexFundTransferTokenOwnership
AddressDexFund TriggerPeriodJob MethodDexFundTriggerPeriodJob
AddressDexFund Withdraw MethodDexFundWithdraw
AddressDexTrade CancelOrder MethodDexTradeCancelOrder
AddressDexTrade CancelOrderByTransactionHash MethodDexTradeCancelOrderByTransactionHash
AddressDexTrade ClearExpiredOrders MethodDexTradeClearExpiredOrders
AddressDexTrade PlaceOrder MethodDexTradePlaceOrder
AddressDexTrade SyncNewMarket MethodDexTradeSyncNewMarket
AddressGovernance Revoke MethodRevoke
AddressGovernance UpdateBlockProducingAddress MethodUpdateBlockProducingAddress
AddressGovernance WithdrawReward MethodWithdrawReward
AddressQuota CancelDelegateStake MethodCancelDelegateStake
AddressQuota CancelStake MethodCancelStake
AddressQuota DelegateStake MethodDelegateStake
AddressQuota Stake MethodStake
level IsEarthUpgrade
AddressAsset GetTokenInformation MethodGetTokenInfo
AddressDexFund CancelQuotaStakingWithCallbackCallback MethodDexFundCancelDelegateStakeCallbackV2
AddressDexFund CancelStakeById MethodDexFundCancelStakeById
AddressDexFund LockVxForDividend MethodDexFundLockVxForDividend
AddressDexFund StakeForPrincipalSVIP MethodDexFundStakeForPrincipalSVIP
AddressDexFund StakeForQuotaWithCallbackCallback MethodDexFundDelegateStakeCallbackV2
AddressDexFund SwitchConfig MethodDexFundSwitchConfig
AddressGovernance CancelSBPVoting MethodCancelVote
AddressGovernance RegisterSBP MethodRegister
AddressGovernance RevokeSBP MethodRevoke
AddressGovernance UpdateSBPBlockProducingAddress MethodUpdateBlockProducingAddress
AddressGovernance UpdateSBPRewardWithdrawAddress MethodUpdateRewardWithdrawAddress
AddressGovernance VoteForSBP MethodVote
AddressGovernance WithdrawSBPReward MethodWithdrawReward
AddressQuota CancelQuotaStaking MethodCancelStakeV3
AddressQuota CancelQuotaStakingWithCallback MethodCancelStakeV3
AddressQuota StakeForQuota MethodStakeV3
AddressQuota StakeForQuotaWithCallback MethodStakeV3
level IsDexRobotUpgrade
AddressDexFund CancelOrderBySendHash MethodDexCancelOrderBySendHash
AddressDexTrade InnerCancelOrderBySendHash MethodDexTradeInnerCancelOrderBySendHash
level IsDexStableMarketUpgrade
AddressDexFund CommonAdminConfig MethodDexCommonAdminConfig
level IsVersion11Upgrade
AddressDexFund Transfer MethodDexTransfer
level IsVersionXUpgrade
AddressDexFund AgentDeposit MethodDexAgentDeposit
AddressDexFund AssignedWithdraw MethodDexAssignedWithdraw
`
