package main

import "sort"

// helpers: what the rules take functions shared between modules to do. A check
// whose rules rely on one of them (it is met as one step on an analysed path)
// verifies it as well.
var helpers map[string]func(c *Ctx, name string)

// structuralChecks judge how the code is put together, not what helpers return.
var structuralChecks = map[string]bool{"C03": true, "C31": true, "C32": true, "C33": true, "C34": true, "C35": true, "C36": true, "C37": true, "C38": true, "C41": true, "C42": true, "C43": true, "C44": true, "C45": true}

func init() {
	coins := func(n string) string { return "coins(coin(global.Denom, " + n + "))" }
	// transfer: success means that the one transfer was made and succeeded
	transfer := func(pat string, conds ...string) func(c *Ctx, name string) {
		return func(c *Ctx, name string) {
			r := c.root(name)
			r.always(append([]string{pat + ".err == nil"}, conds...)...)
			r.does(nil, pat)
			r.count(1, patName(pat))
		}
	}
	returns := func(cases ...[3]string) func(c *Ctx, name string) {
		return func(c *Ctx, name string) {
			r := c.root(name)
			for _, x := range cases {
				var conds []string
				if x[1] != "" {
					conds = []string{x[1]}
				}
				i := 0
				if x[0] == "1" {
					i = 1
				}
				r.returns(i, conds, x[2])
			}
		}
	}
	D := "delegation.GetDelegationData($1)"
	members := "stakers.GetAllStakerAddressesOfPool($1)"
	of := func(s string) string {
		return "ite(delegation.GetDelegationData(" + s + ").ok, delegation.GetDelegationData(" + s + ").val.TotalDelegation, 0)"
	}
	state := "funders.GetFundingState($1)"
	helpers = map[string]func(c *Ctx, name string){
		"util.TransferFromAddressToAddress":  transfer("bank.SendCoins(addr($2), addr($3), " + coins("$4") + ")"),
		"util.TransferFromModuleToAddress":   transfer("bank.SendCoinsFromModuleToAccount($2, addr($3), " + coins("$4") + ")"),
		"util.TransferFromAddressToModule":   transfer("bank.SendCoinsFromAccountToModule(addr($2), $3, " + coins("$4") + ")"),
		"util.TransferFromModuleToModule":    transfer("bank.SendCoinsFromModuleToModule($2, $3, " + coins("$4") + ")"),
		"util.TransferFromAddressToTreasury": transfer("distribution.FundCommunityPool(" + coins("$3") + ", addr($2))"),
		"util.TransferFromModuleToTreasury":  transfer("distribution.FundCommunityPool(" + coins("$4") + ", account.GetModuleAddress($3))"),
		"util.PanicHalt": func(c *Ctx, name string) {
			r := c.root(name)
			h := "1 + dyn(\"Context.BlockHeader\").Height"
			r.does(nil, "upgrade.ScheduleUpgrade(rec(\"Height\", any("+h+", 1 + height)))")
			for _, s := range r.find("upgrade.ScheduleUpgrade") {
				failed := r.e.in.mk(OpRes, "err", s.call)
				for _, x := range r.rets {
					c.check(r.holdsT(x.st, r.e.in.eq(failed, r.e.in.Nil), binds{}), name+": ScheduleUpgrade succeeded", s.Pos, "%s returns although the halt could not be scheduled", name)
				}
			}
		},
		"pool.GetPoolWithError": func(c *Ctx, name string) {
			r := c.root(name)
			r.always("pool.GetPool($1).ok")
			r.accepts([]string{"pool.GetPool($1).ok"})
			r.returns(0, []string{"pool.GetPool($1).ok"}, "pool.GetPool($1).val")
		},
		"pool.AssertPoolExists": func(c *Ctx, name string) {
			r := c.root(name, storeMode)
			has := "store.Has(prefix.NewStore(_a, pool.PoolKey), key($1))"
			for _, x := range r.rets {
				want := has
				if x.vals[0] != r.e.in.Nil {
					want = "!" + has
				}
				ok := false
				for _, f := range x.st.facts {
					b := binds{}
					ok = ok || r.e.match(r.e.T(want, b), f, b)
				}
				c.check(ok, name+": "+want, x.pos, "%s: its result is not that of %s", name, want)
			}
		},
		"stakers.GetAllStakerAddressesOfPool": returns([3]string{"0", "", "fold(nil, append(acc, list(elem(stakers.GetAllValaccountsOfPool($1)).Staker)))"}),
		"stakers.GetCommission":               returns([3]string{"0", "", "stakers.GetStaker($1).val.Commission"}),
		"funders.GetCoinWhitelistMap":         returns([3]string{"0", "", "fold(emptymap(), mapset(acc, elem(funders.GetParams().CoinWhitelist).CoinDenom, elem(funders.GetParams().CoinWhitelist)))"}),
		"funders.GetTotalActiveFunding": returns(
			[3]string{"0", state + ".ok", "fold(nil, cadd(acc, funders.GetFunding(elem(" + state + ".val.ActiveFunderAddresses), $1).val.Amounts))"},
			[3]string{"0", "!" + state + ".ok", "nil"}),
		"delegation.GetDelegationAmount": returns(
			[3]string{"0", D + ".ok", D + ".val.TotalDelegation"},
			[3]string{"0", "!" + D + ".ok", "0"}),
		"delegation.GetDelegationAmountOfDelegator": func(c *Ctx, name string) {
			c.root(name, keep("delegation.f1GetCurrentDelegation")).returns(0, nil, "delegation.f1GetCurrentDelegation($1, $2)")
		},
		"delegation.GetDelegationOfPool": returns([3]string{"0", "", "fold(0, acc + " + of("elem("+members+")") + ")"}),
		"delegation.GetTotalAndHighestDelegationOfPool": returns(
			[3]string{"0", "", "fold(0, acc + " + of("elem("+members+")") + ")"},
			[3]string{"1", "", "fold(0, max(acc, " + of("elem("+members+")") + "))"}),
		"bundles.BundleVersionMap.GetMap": returns([3]string{"0", "", "fold(emptymap(), mapset(acc, elem(self.Versions).Version, elem(self.Versions).Height))"}),
	}
}

// helpers verifies the helpers met so far.
func (c *Ctx) helpers() {
	if structuralChecks[c.id] {
		return
	}
	done := map[string]bool{}
	for {
		var names []string
		for n := range c.needs {
			if !done[n] {
				names = append(names, n)
			}
		}
		if len(names) == 0 {
			return
		}
		sort.Strings(names)
		for _, n := range names {
			done[n] = true
			c.sec("helper "+n, func() { helpers[n](c, n) })
		}
	}
}
