package main

import "fmt"

// ---- x/team: authority, claims, vesting schedule, inflation

const (
	tvCliff   = "31536000" // one year
	tvVesting = "94608000" // three years
	tvUnlock  = "63072000" // two years
)

type caseV struct {
	conds []string
	val   string
}

// vestedCases: the vested amount of account a at time t, as the exhaustive
// case table of the schedule.
func vestedCases(a, t string) []caseV {
	var out []caseV
	dur := func(conds []string, d string) {
		if d == "0" {
			out = append(out, caseV{conds, "0"})
			return
		}
		out = append(out,
			caseV{append(append([]string{}, conds...), d+" < "+tvCliff), "0"},
			caseV{append(append([]string{}, conds...), d+" >= "+tvCliff, d+" < "+tvVesting), "trunc(dquo(" + a + ".TotalAllocation * (" + d + "), " + tvVesting + "))"},
			caseV{append(append([]string{}, conds...), d+" >= "+tvCliff, d+" >= "+tvVesting), a + ".TotalAllocation"})
	}
	claw := []string{a + ".Clawback != 0", a + ".Clawback < " + t}
	dur(claw, a+".Clawback - "+a+".Commencement")
	for _, no := range []string{a + ".Clawback == 0", a + ".Clawback != 0 && " + t + " <= " + a + ".Clawback"} {
		dur([]string{no, a + ".Commencement < " + t}, t+" - "+a+".Commencement")
		dur([]string{no, t + " <= " + a + ".Commencement"}, "0")
	}
	return out
}

// maxVestedCases: the vested amount at the end of the vesting period.
func maxVestedCases(a string) []caseV {
	var out []caseV
	end := a + ".Commencement + " + tvVesting
	pre := a + ".Commencement < " + end
	d := a + ".Clawback - " + a + ".Commencement"
	claw := []string{pre, a + ".Clawback != 0", a + ".Clawback < " + end}
	out = append(out,
		caseV{append(append([]string{}, claw...), d+" < "+tvCliff), "0"},
		caseV{append(append([]string{}, claw...), d+" >= "+tvCliff), "trunc(dquo(" + a + ".TotalAllocation * (" + d + "), " + tvVesting + "))"},
		caseV{[]string{pre, a + ".Clawback == 0"}, a + ".TotalAllocation"},
		caseV{[]string{pre, a + ".Clawback != 0", a + ".Clawback >= " + end}, a + ".TotalAllocation"})
	return out
}

func and(cs ...[]string) []string {
	var out []string
	for _, c := range cs {
		out = append(out, c...)
	}
	return out
}

const teamAuth = "msg.Authority == team.FOUNDATION_ADDRESS || msg.Authority == team.BCP_ADDRESS"

func init() {
	reg("C02", "Every team message handler is interpreted symbolically on all paths; each store write and each token transfer out of the team module must be dominated by the authority test (both authorities, or the foundation alone for the authority's own rewards), and no other handler of the repository reaches a write of the team store or a transfer out of the team module account.",
		func(c *Ctx) {
			for _, h := range []string{"team.Clawback", "team.ClaimUnlocked", "team.ClaimAccountRewards", "team.CreateTeamVestingAccount"} {
				c.sec(h+" authority", func() {
					r := c.root(h)
					r.always(teamAuth)
					for _, s := range r.sites {
						if s.Eff {
							s.guard(teamAuth)
						}
					}
				})
			}
			c.sec("team.ClaimAuthorityRewards authority", func() {
				r := c.root("team.ClaimAuthorityRewards")
				r.always("msg.Authority == team.FOUNDATION_ADDRESS")
				for _, s := range r.sites {
					if s.Eff {
						s.guard("msg.Authority == team.FOUNDATION_ADDRESS")
					}
				}
			})
		})

	reg("C06", "The three claim handlers, interpreted on all paths: the transfer of exactly the requested amount from the team module account to the requested recipient is dominated by the entitlement test, the booking of exactly that amount on the same account or authority record follows it on every successful path, nothing else of the record changes, and the entitlement test is exact (a request within the entitlement is not refused except by the transfer itself).",
		func(c *Ctx) {
			acc := "team.GetTeamVestingAccount(msg.Id).val"
			c.sec("ClaimUnlocked", func() {
				r := c.root("team.ClaimUnlocked")
				r.effects("util.TransferFromModuleToAddress", "team.SetTeamVestingAccount")
				for _, s := range r.only("util.TransferFromModuleToAddress", "util.TransferFromModuleToAddress(team.ModuleName, msg.Recipient, msg.Amount)") {
					s.guard("team.GetTeamVestingAccount(msg.Id).ok")
				}
				for _, s := range r.only("team.SetTeamVestingAccount", "team.SetTeamVestingAccount(_)") {
					s.changes(0, acc, map[string]string{"UnlockedClaimed": acc + ".UnlockedClaimed + msg.Amount", "LastClaimedTime": "now"})
				}
				r.does(nil, "util.TransferFromModuleToAddress(team.ModuleName, msg.Recipient, msg.Amount)", "team.SetTeamVestingAccount(_)")
				r.always("util.TransferFromModuleToAddress(team.ModuleName, msg.Recipient, msg.Amount).err == nil")
				r.count(1, "util.TransferFromModuleToAddress")
			})
			c.sec("ClaimUnlocked entitlement", func() {
				r := c.root("team.ClaimUnlocked", keep("team.GetVestingStatus"))
				bound := "msg.Amount <= team.GetVestingStatus(" + acc + ", now).CurrentClaimableAmount"
				for _, s := range r.some("util.TransferFromModuleToAddress") {
					s.guard(bound)
				}
				r.exact([]string{teamAuth, "team.GetTeamVestingAccount(msg.Id).ok", bound}, "util.TransferFromModuleToAddress")
			})
			c.sec("ClaimAccountRewards", func() {
				r := c.root("team.ClaimAccountRewards")
				r.effects("util.TransferFromModuleToAddress", "team.SetTeamVestingAccount")
				for _, s := range r.only("util.TransferFromModuleToAddress", "util.TransferFromModuleToAddress(team.ModuleName, msg.Recipient, msg.Amount)") {
					s.guard("team.GetTeamVestingAccount(msg.Id).ok", "msg.Amount <= "+acc+".TotalRewards - "+acc+".RewardsClaimed")
				}
				for _, s := range r.only("team.SetTeamVestingAccount", "team.SetTeamVestingAccount(_)") {
					s.changes(0, acc, map[string]string{"RewardsClaimed": acc + ".RewardsClaimed + msg.Amount"})
				}
				r.does(nil, "util.TransferFromModuleToAddress(team.ModuleName, msg.Recipient, msg.Amount)", "team.SetTeamVestingAccount(_)")
				r.exact([]string{teamAuth, "team.GetTeamVestingAccount(msg.Id).ok", "msg.Amount <= " + acc + ".TotalRewards - " + acc + ".RewardsClaimed"}, "util.TransferFromModuleToAddress")
				r.count(1, "util.TransferFromModuleToAddress")
			})
			c.sec("ClaimAuthorityRewards", func() {
				a := "team.GetAuthority()"
				r := c.root("team.ClaimAuthorityRewards")
				r.effects("util.TransferFromModuleToAddress", "team.SetAuthority")
				for _, s := range r.only("util.TransferFromModuleToAddress", "util.TransferFromModuleToAddress(team.ModuleName, msg.Recipient, msg.Amount)") {
					s.guard("msg.Amount <= " + a + ".TotalRewards - " + a + ".RewardsClaimed")
				}
				for _, s := range r.only("team.SetAuthority", "team.SetAuthority(_)") {
					s.changes(0, a, map[string]string{"RewardsClaimed": a + ".RewardsClaimed + msg.Amount"})
				}
				r.does(nil, "util.TransferFromModuleToAddress(team.ModuleName, msg.Recipient, msg.Amount)", "team.SetAuthority(_)")
				r.exact([]string{"msg.Authority == team.FOUNDATION_ADDRESS", "msg.Amount <= " + a + ".TotalRewards - " + a + ".RewardsClaimed"}, "util.TransferFromModuleToAddress")
				r.count(1, "util.TransferFromModuleToAddress")
			})
		})

	reg("C07", "The vesting computation is interpreted for a symbolic account and a symbolic time; the exhaustive case table of the schedule (before/after commencement, clawback set before or after the queried time, cliff, vesting end, lock-up reference date, unlock end) is imposed case by case and the resulting term must be the schedule's formula.",
		func(c *Ctx) {
			c.sec("vested amount", func() {
				r := c.root("team.GetVestingStatus")
				for _, v := range vestedCases("$1", "$2") {
					r.returnsField(0, "TotalVestedAmount", v.conds, v.val)
				}
			})
			lock := tvCliff + " + max($1.Commencement, team.TGE)"
			c.sec("unlocked amount", func() {
				r := c.root("team.GetVestingStatus")
				r.returnsField(0, "TotalUnlockedAmount", []string{"$2 < " + lock}, "0")
				for _, v := range vestedCases("$1", "$2") {
					conds := and([]string{"$2 >= " + lock, "$2 - (" + lock + ") < " + tvUnlock}, v.conds)
					r.returnsField(0, "TotalUnlockedAmount", conds, "trunc(dquo(($2 - ("+lock+")) * ("+v.val+"), "+tvUnlock+"))")
				}
				for _, v := range maxVestedCases("$1") {
					conds := and([]string{"$2 >= " + lock, "$2 - (" + lock + ") >= " + tvUnlock}, v.conds)
					r.returnsField(0, "TotalUnlockedAmount", conds, v.val)
				}
			})
			c.sec("derived amounts", func() {
				r := c.root("team.GetVestingStatus")
				for _, x := range r.success() {
					x.field("LockedVestedAmount", "TotalVestedAmount - TotalUnlockedAmount")
				}
				for _, v := range maxVestedCases("$1") {
					for _, y := range r.when(v.conds...) {
						y.fieldIs("RemainingUnvestedAmount", func(f func(string) *Term) *Term {
							return r.e.in.bin("sub", y.st.simp(r.e.T(v.val, nil)), f("TotalVestedAmount"))
						})
					}
				}
				for _, x := range r.success() {
					U, C := x.get("TotalUnlockedAmount"), r.e.T("$1.UnlockedClaimed", nil)
					y := x.clone()
					y.st.assume(r.e.in.lt(C, U, false))
					if !y.st.dead {
						got := y.get("CurrentClaimableAmount")
						c.check(got == y.st.simp(r.e.in.bin("sub", y.st.simp(U), C)), "claimable", x.pos, "claimable amount is %s", clip(got.String()))
					}
					y = x.clone()
					y.st.assume(r.e.in.le(U, C, false))
					if !y.st.dead {
						got := y.get("CurrentClaimableAmount")
						c.check(got == r.e.in.Zero, "claimable", x.pos, "claimable amount is %s when more is claimed than unlocked", clip(got.String()))
					}
				}
			})
			c.sec("vesting plan", func() {
				r := c.root("team.GetVestingPlan")
				for _, v := range maxVestedCases("$1") {
					r.returnsField(0, "MaximumVestingAmount", v.conds, v.val)
					w := "$1.TotalAllocation - (" + v.val + ")"
					r.returnsField(0, "ClawbackAmount", v.conds, w)
				}
				r.returnsField(0, "TokenVestingStart", nil, "$1.Commencement + "+tvCliff)
				r.returnsField(0, "TokenVestingFinished", nil, "$1.Commencement + "+tvVesting)
				r.returnsField(0, "TokenUnlockStart", nil, lock)
				r.returnsField(0, "TokenUnlockFinished", nil, "max($1.Commencement, team.TGE) + "+fmt.Sprint(31536000+63072000))
			})
			c.sec("clawback date", func() {
				acc := "team.GetTeamVestingAccount(msg.Id).val"
				r := c.root("team.Clawback")
				r.effects("team.SetTeamVestingAccount")
				for _, s := range r.only("team.SetTeamVestingAccount", "team.SetTeamVestingAccount(_)") {
					s.guard("team.GetTeamVestingAccount(msg.Id).ok", "msg.Clawback == 0 || msg.Clawback >= "+acc+".Commencement", "msg.Clawback == 0 || msg.Clawback >= "+acc+".LastClaimedTime")
					s.changes(0, acc, map[string]string{"Clawback": "msg.Clawback"})
				}
				r.does(nil, "team.SetTeamVestingAccount(_)")
			})
		})

	reg("C08", "The per-block team distribution is interpreted over a symbolic list of accounts: the block's team share must be the share of the required module balance in the supply before minting, every account's reward must be its vested and unclaimed part of the allocation times that share, the authority must receive the share minus the sum of exactly those rewards, and exactly the share moves from the fee collector to the module. Account creation and clawback are accepted only if the issued allocation (the sum of what every account can vest at most) stays within the team allocation.",
		func(c *Ctx) {
			acct := "elem(team.GetTeamVestingAccounts())"
			P := "team.GetTeamBlockProvision()"
			rew := "trunc(" + P + " * dquo(team.GetVestingStatus(" + acct + ", now).TotalVestedAmount - " + acct + ".UnlockedClaimed, team.TEAM_ALLOCATION))"
			sum := "fold(0, acc + " + rew + ")"
			c.sec("distribution", func() {
				r := c.root("team.DistributeTeamInflation", keep("team.GetTeamBlockProvision", "team.GetVestingStatus"))
				r.effects("team.SetTeamVestingAccount", "team.SetAuthority", "util.TransferFromModuleToModule", "team.GetTeamBlockProvision")
				for _, s := range r.only("team.SetTeamVestingAccount", "team.SetTeamVestingAccount(_)") {
					s.changes(0, acct, map[string]string{"TotalRewards": acct + ".TotalRewards + " + rew})
				}
				r.count(1, "team.SetTeamVestingAccount")
				for _, s := range r.only("team.SetAuthority", "team.SetAuthority(_)") {
					s.changes(0, "team.GetAuthority()", map[string]string{"TotalRewards": "team.GetAuthority().TotalRewards + (" + P + " - " + sum + ")"})
				}
				r.count(1, "team.SetAuthority")
				r.only("util.TransferFromModuleToModule", "util.TransferFromModuleToModule(\"fee_collector\", team.ModuleName, "+P+")")
				r.count(1, "util.TransferFromModuleToModule")
				r.does(nil, "team.SetAuthority(_)", "util.TransferFromModuleToModule(\"fee_collector\", team.ModuleName, "+P+")")
				r.everyElem("team.SetTeamVestingAccount", "team.GetTeamVestingAccounts()")
			})
			c.sec("team share", func() {
				r := c.root("team.GetTeamBlockProvision", keep("team.GetTeamInfo"))
				bp := "Minter.BlockProvision(_minter, _params)"
				r.returns(0, nil, "trunc("+bp+".Amount * dquo(team.GetTeamInfo().RequiredModuleBalance, bank.GetSupply("+bp+".Denom).Amount - "+bp+".Amount))")
				q := c.root("team.GetTeamInfo")
				q.returnsField(0, "RequiredModuleBalance", nil, "fold(team.TEAM_ALLOCATION + (team.GetAuthority().TotalRewards - team.GetAuthority().RewardsClaimed), acc + ("+acct+".TotalRewards - "+acct+".RewardsClaimed) - "+acct+".UnlockedClaimed)")
			})
			maxV := func(a string) string { return "eval(\"team.GetVestingPlan\", " + a + ").MaximumVestingAmount" }
			issued := "fold(0, acc + " + maxV(acct) + ")"
			c.sec("issued allocation", func() {
				q := c.root("team.GetIssuedTeamAllocation")
				q.returns(0, nil, issued)
			})
			c.sec("creation within the allocation", func() {
				r := c.root("team.CreateTeamVestingAccount", keep("team.GetIssuedTeamAllocation"))
				r.effects("team.AppendTeamVestingAccount")
				is := "team.GetIssuedTeamAllocation()"
				for _, s := range r.only("team.AppendTeamVestingAccount", "team.AppendTeamVestingAccount(_)") {
					s.within([]string{is + " < team.TEAM_ALLOCATION"}, "msg.TotalAllocation <= team.TEAM_ALLOCATION - "+is)
					s.within([]string{is + " >= team.TEAM_ALLOCATION"}, "false")
					s.guard("msg.TotalAllocation != 0", "msg.Commencement != 0")
					s.record(0, map[string]string{"TotalAllocation": "msg.TotalAllocation", "Commencement": "msg.Commencement", "Clawback": "0", "UnlockedClaimed": "0", "RewardsClaimed": "0", "TotalRewards": "0", "LastClaimedTime": "0"})
				}
				r.always(teamAuth)
				r.accepts([]string{teamAuth, "msg.TotalAllocation != 0", "msg.Commencement != 0", is + " < team.TEAM_ALLOCATION", "msg.TotalAllocation <= team.TEAM_ALLOCATION - " + is})
			})
			c.sec("fresh account id", func() {
				r := c.root("team.AppendTeamVestingAccount", storeMode)
				for _, s := range r.some("store.Set") {
					s.is("team.GetTeamVestingAccountCount()", s.storeVal("Id"))
				}
				r.does(nil, "team.SetTeamVestingAccountCount(team.GetTeamVestingAccountCount() + 1)")
				r.returns(0, nil, "team.GetTeamVestingAccountCount()")
			})
			c.sec("clawback within the allocation", func() {
				old := "team.GetTeamVestingAccount(msg.Id).val"
				nw := "upd(" + old + ", \"Clawback\", msg.Clawback)"
				r := c.root("team.Clawback", keep("team.GetIssuedTeamAllocation"))
				is := "team.GetIssuedTeamAllocation()"
				for _, s := range r.only("team.SetTeamVestingAccount", "team.SetTeamVestingAccount(_)") {
					s.within([]string{is + " < team.TEAM_ALLOCATION", maxV(old) + " < " + maxV(nw)}, maxV(nw)+" - "+maxV(old)+" <= team.TEAM_ALLOCATION - "+is)
					s.within([]string{is + " >= team.TEAM_ALLOCATION", maxV(old) + " < " + maxV(nw)}, "false")
				}
			})
		})
}
