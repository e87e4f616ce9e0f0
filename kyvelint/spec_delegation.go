package main

import "strings"

// ---- x/delegation: ledger, reward periods, unbonding, redelegation

var f1 = []string{"delegation.f1CreateDelegator", "delegation.f1RemoveDelegator", "delegation.f1WithdrawRewards", "delegation.f1Slash"}

// f1Keep keeps the four ledger primitives (judged as roots of their own).
func f1Keep(more ...string) opt { return keep(append(append([]string{}, f1...), more...)...) }

// delegates: the ledger side of adding amt to (s, d) in root r.
func delegates(r *Root, s, d, amt string) {
	ex := "delegation.DoesDelegatorExist(" + s + ", " + d + ")"
	sd := "(" + s + ", " + d
	rem := "delegation.f1RemoveDelegator" + sd + ")"
	r.does([]string{"!" + ex}, "delegation.f1CreateDelegator"+sd+", "+amt+")")
	r.doesNot([]string{"!" + ex}, rem)
	r.does([]string{ex}, "delegation.f1WithdrawRewards"+sd+")", rem, "delegation.f1CreateDelegator"+sd+", "+amt+" + "+rem+")")
	for _, x := range r.some(rem) {
		x.after("delegation.f1WithdrawRewards" + sd + ")")
	}
	for _, x := range r.only("delegation.f1CreateDelegator", "delegation.f1CreateDelegator(_s, _d, _a)") {
		if !r.same(x.state(), s, x.arg(0), x.b) || r.same(x.state(), "delegation.f1RemoveDelegator(_s, _d) - msg.Amount", x.arg(2), x.b) {
			continue
		}
		x.within([]string{ex}, "_a == "+amt+" + "+rem)
		x.within([]string{"!" + ex}, "_a == "+amt)
		st := x.state().clone()
		r.assumeAll(st, []string{ex}, x.b.copy())
		r.c.check(st.dead || r.didIn(st, rem, x.b.copy()), r.name+": remove before create", x.Pos, "%s: the new stake is created without removing the old record first", r.name)
	}
}

// rewardPayout: every coin transfer of the root pays withdrawn rewards to the
// delegator they were withdrawn for; nothing that was withdrawn stays unpaid.
func rewardPayout(r *Root, pairs ...[3]string) {
	var pats []string
	pay := func(p [3]string) string {
		return "bank.SendCoinsFromModuleToAccount(delegation.ModuleName, addr(" + p[1] + "), delegation.f1WithdrawRewards(" + p[0] + ", " + p[1] + "))"
	}
	for _, p := range pairs {
		pats = append(pats, pay(p))
	}
	r.only("bank.SendCoinsFromModuleToAccount", pats...)
	for _, p := range pairs {
		conds := []string{"addr(" + p[1] + ").err == nil"}
		if p[2] != "" {
			conds = append(conds, p[2])
		}
		r.does(conds, "delegation.f1WithdrawRewards("+p[0]+", "+p[1]+")", pay(p))
	}
}

var (
	uqS = "delegation.GetQueueState()"
	// the position reached by the processing loop, which starts at LowIndex
	uqL = "fold(" + uqS + ".LowIndex, 1 + acc)"
	uqE = "delegation.GetUndelegationQueueEntry(1 + " + uqL + ").val"
	dlP = "delegation.GetParams()"
)

func init() {
	C, S, A := "msg.Creator", "msg.Staker", "msg.Amount"
	ledger := []string{"delegation.f1CreateDelegator", "delegation.f1RemoveDelegator", "delegation.f1WithdrawRewards", "bank.SendCoinsFromModuleToAccount", "delegation.RemoveStakerIndex", "delegation.SetStakerIndex", "util.PanicHalt"}
	eff := func(xs ...string) []string { return append(append([]string{}, ledger...), xs...) }

	reg("C09", "The delegate, redelegate, withdraw, unbonding and slash steps are interpreted on all paths down to the four ledger primitives, and the primitives down to the records: tokens and ledger change by the same term in every step, no other transfer or record write exists, and each primitive changes the staker total by exactly the amount of the delegator record it creates, removes or slashes.",
		func(c *Ctx) {
			c.sec("Delegate", func() {
				r := c.root("delegation.Delegate", f1Keep())
				r.effects(eff("util.TransferFromAddressToModule")...)
				in := "util.TransferFromAddressToModule(" + C + ", delegation.ModuleName, " + A + ")"
				r.only("util.TransferFromAddressToModule", in)
				r.count(1, "util.TransferFromAddressToModule")
				r.does(nil, in)
				r.always(in+".err == nil", "stakers.DoesStakerExist("+S+")")
				for _, x := range r.find(f1...) {
					r.c.check(r.same(x.state(), S, x.arg(0), nil) && r.same(x.state(), C, x.arg(1), nil), "Delegate: ledger key", x.Pos, "%s changes another delegation", clip(x.call.String()))
				}
				delegates(r, S, C, A)
				rewardPayout(r, [3]string{S, C, "delegation.DoesDelegatorExist(" + S + ", " + C + ")"})
			})
			c.sec("Redelegate", func() {
				F, T := "msg.FromStaker", "msg.ToStaker"
				r := c.root("delegation.Redelegate", f1Keep("delegation.GetDelegationAmountOfDelegator"))
				r.effects(eff("delegation.RemoveRedelegationCooldown", "delegation.SetRedelegationCooldown")...)
				rem := "delegation.f1RemoveDelegator(" + F + ", " + C + ")"
				r.does(nil, rem)
				r.does([]string{A + " < " + rem}, "delegation.f1CreateDelegator("+F+", "+C+", "+rem+" - "+A+")")
				r.always(A + " <= " + rem)
				for _, x := range r.find(f1...) {
					t := r.same(x.state(), T, x.arg(0), nil)
					r.c.check((t || r.same(x.state(), F, x.arg(0), nil)) && r.same(x.state(), C, x.arg(1), nil), "Redelegate: ledger key", x.Pos, "%s changes another delegation", clip(x.call.String()))
				}
				for _, x := range r.find("delegation.f1CreateDelegator(" + F + ", _, _a)") {
					x.is(rem+" - "+A, x.arg(2))
					x.guard(A + " < " + rem)
				}
				delegates(r, T, C, A)
				rewardPayout(r, [3]string{F, C, ""}, [3]string{T, C, "delegation.DoesDelegatorExist(" + T + ", " + C + ")"})
			})
			c.sec("unbonding", func() {
				r := c.root("delegation.ProcessDelegatorUnbondingQueue", f1Keep())
				r.effects(eff("util.TransferFromModuleToAddress", "delegation.RemoveUndelegationQueueEntry", "delegation.SetQueueState")...)
				rem := "delegation.f1RemoveDelegator(" + uqE + ".Staker, " + uqE + ".Delegator)"
				wit := "delegation.f1WithdrawRewards(" + uqE + ".Staker, " + uqE + ".Delegator)"
				for _, x := range r.only("util.TransferFromModuleToAddress", "util.TransferFromModuleToAddress(delegation.ModuleName, "+uqE+".Delegator, _amt)") {
					x.after(rem)
					x.within([]string{uqE + ".Amount < " + rem}, "_amt == "+uqE+".Amount")
					x.within([]string{uqE + ".Amount >= " + rem}, "_amt == "+rem)
				}
				r.count(1, "util.TransferFromModuleToAddress")
				for _, x := range r.only("delegation.f1RemoveDelegator", rem) {
					x.after(wit)
				}
				r.count(1, "delegation.f1RemoveDelegator")
				for _, x := range r.only("delegation.f1CreateDelegator", "delegation.f1CreateDelegator("+uqE+".Staker, "+uqE+".Delegator, "+rem+" - "+uqE+".Amount)") {
					x.guard(uqE + ".Amount < " + rem)
				}
				r.count(1, "delegation.f1CreateDelegator")
				r.only("bank.SendCoinsFromModuleToAccount", "bank.SendCoinsFromModuleToAccount(delegation.ModuleName, addr("+uqE+".Delegator), "+wit+")")
				for _, x := range r.some("delegation.RemoveUndelegationQueueEntry(_)") {
					x.with(nil, rem, "util.TransferFromModuleToAddress(delegation.ModuleName, "+uqE+".Delegator, _)")
					x.with([]string{uqE + ".Amount < " + rem}, "delegation.f1CreateDelegator("+uqE+".Staker, "+uqE+".Delegator, _)")
				}
			})
			c.sec("slash", func() {
				r := c.root("delegation.SlashDelegators", keep("delegation.f1Slash"))
				r.effects("delegation.RemoveStakerIndex", "delegation.f1Slash", "util.TransferFromModuleToTreasury", "delegation.SetStakerIndex", "util.PanicHalt")
				P := dlP
				ex := "delegation.DoesDelegationDataExist($2)"
				for t, f := range map[string]string{"1": ".TimeoutSlash", "2": ".VoteSlash", "3": ".UploadSlash"} {
					call := "delegation.f1Slash($2, " + P + f + ")"
					r.does([]string{ex, "$3 == " + t}, call, "util.TransferFromModuleToTreasury(delegation.ModuleName, "+call+")")
				}
				r.count(1, "util.TransferFromModuleToTreasury")
				r.count(1, "delegation.f1Slash")
				for _, x := range r.some("util.TransferFromModuleToTreasury(_m, _a)") {
					x.after("delegation.f1Slash($2, _f)")
				}
			})
			c.sec("primitives", func() {
				const nd = "delegation.f1StartNewPeriod($1, _).arg1"
				k := keep("delegation.f1StartNewPeriod", "delegation.f1GetCurrentDelegation")
				r := c.root("delegation.f1Slash", k)
				r.effects("delegation.f1StartNewPeriod", "delegation.SetDelegationData", "delegation.SetDelegationSlashEntry")
				D := "delegation.GetDelegationData($1).val"
				N := "delegation.f1StartNewPeriod($1, " + D + ")"
				for _, x := range r.only("delegation.SetDelegationData", "delegation.SetDelegationData(_)") {
					x.changes(0, N+".arg1", map[string]string{"TotalDelegation": N + ".arg1.TotalDelegation - trunc($2 * " + N + ".arg1.TotalDelegation)"})
				}
				r.only("delegation.SetDelegationSlashEntry", "delegation.SetDelegationSlashEntry(rec(\"Staker\", $1, \"KIndex\", "+N+", \"Fraction\", $2))")
				r.does(nil, "delegation.SetDelegationData(_)", "delegation.SetDelegationSlashEntry(_)")
				r.returns(0, nil, "trunc($2 * "+N+".arg1.TotalDelegation)")

				r = c.root("delegation.f1CreateDelegator", k)
				r.effects("delegation.f1StartNewPeriod", "delegation.SetDelegationData", "delegation.SetDelegator")
				D = "ite(delegation.GetDelegationData($1).ok, delegation.GetDelegationData($1).val, upd(zero(), \"Staker\", $1))"
				N = "delegation.f1StartNewPeriod($1, " + D + ")"
				for _, x := range r.only("delegation.SetDelegationData", "delegation.SetDelegationData(_)") {
					x.changes(0, N+".arg1", map[string]string{"TotalDelegation": N + ".arg1.TotalDelegation + $3", "DelegatorCount": N + ".arg1.DelegatorCount + 1"})
				}
				for _, x := range r.only("delegation.SetDelegator", "delegation.SetDelegator(_)") {
					x.record(0, map[string]string{"Staker": "$1", "Delegator": "$2", "InitialAmount": "$3", "KIndex": N + ".arg1.LatestIndexK"})
				}
				r.does([]string{"$3 != 0"}, "delegation.SetDelegationData(_)", "delegation.SetDelegator(_)")

				r = c.root("delegation.f1RemoveDelegator", k)
				r.effects("delegation.f1StartNewPeriod", "delegation.SetDelegationData", "delegation.RemoveDelegator", "delegation.RemoveDelegationEntry", "util.PanicHalt", "delegation.f1GetCurrentDelegation")
				D = "delegation.GetDelegationData($1).val"
				N = "delegation.f1StartNewPeriod($1, " + D + ")"
				bal := "delegation.f1GetCurrentDelegation($1, $2)"
				ok := "delegation.GetDelegator($1, $2).ok"
				for _, x := range r.only("delegation.SetDelegationData", "delegation.SetDelegationData(_)") {
					x.changes(0, N+".arg1", map[string]string{"TotalDelegation": N + ".arg1.TotalDelegation - " + bal, "DelegatorCount": N + ".arg1.DelegatorCount - 1", "LatestIndexWasUndelegation": "true"})
				}
				r.only("delegation.RemoveDelegator", "delegation.RemoveDelegator($1, $2)")
				r.does([]string{ok}, "delegation.RemoveDelegator($1, $2)", "delegation.SetDelegationData(_)")
				r.returns(0, []string{ok}, bal)
				r.returns(0, []string{"!" + ok}, "0")
				_ = nd
			})
			c.sec("current worth", func() {
				r := c.root("delegation.f1GetCurrentDelegation")
				g := "delegation.GetDelegator($1, $2)"
				sl := "delegation.GetAllDelegationSlashesBetween($1, " + g + ".val.KIndex, delegation.GetDelegationData($1).val.LatestIndexK)"
				r.returns(0, []string{"!" + g + ".ok"}, "0")
				r.returns(0, []string{g + ".ok", "len(" + sl + ") == 0"}, "trunc("+g+".val.InitialAmount)")
				r.returns(0, []string{g + ".ok", "len(" + sl + ") != 0"}, "trunc(fold("+g+".val.InitialAmount, acc - multrunc(acc, elem("+sl+").Fraction)))")
			})
			c.sec("sole writers", func() {
				onlyCallers(c, "", []string{"delegation.SetDelegator", "delegation.RemoveDelegator", "delegation.SetDelegationSlashEntry"},
					[]string{"delegation.Delegate", "delegation.Undelegate", "delegation.Redelegate", "delegation.WithdrawRewards", "stakers.CreateStaker", "delegation.BeginBlock", "bundles.SubmitBundleProposal", "bundles.SkipUploaderRole", "bundles.EndBlock", "genesis", "upgrade"})
			})
		})
}

// rewardsOf: what the delegator ($1 staker, $2 delegator) earned between its
// period and the period end: the stake, reduced by every slash in between,
// times the difference of the period values.
func rewardsOf(sl, end string) (sum, bal string) {
	const d0 = "types.NewDecCoins(nil)"
	g := "delegation.GetDelegator($1, $2).val"
	bal = "fold(" + g + ".InitialAmount, acc - multrunc(acc, elem(" + sl + ").Fraction))"
	prev := "fold(" + g + ".KIndex, elem(" + sl + ").KIndex)"
	val := func(k string) string { return "delegation.GetDelegationEntry($1, " + k + ").val.Value" }
	seg := func(from, to, b string) string {
		return "ite(" + b + " == 0, " + d0 + ", DecCoins.MulDec(DecCoins.Sub(" + val(to) + ", " + val(from) + "), " + b + "))"
	}
	sum = "ite(len(" + sl + ") == 0, DecCoins.Add(" + d0 + ", " + seg(g+".KIndex", end, g+".InitialAmount") + "), DecCoins.Add(fold(" + d0 + ", DecCoins.Add(acc, " + seg(prev, "elem("+sl+").KIndex", bal) + ")), " + seg(prev, end, bal) + "))"
	return sum, "ite(len(" + sl + ") == 0, " + g + ".InitialAmount, " + bal + ")"
}

func truncated(x string) string {
	return "fold(nil, cadd(acc, coins(coin(elem(" + x + ").Denom, trunc(elem(" + x + ").Amount)))))"
}

func init() {
	const d0 = "types.NewDecCoins(nil)"
	reg("C10", "The period step and every ledger primitive are interpreted on all paths: the value stored for a new period is the previous value plus the rewards of the period divided by the stake, each primitive starts a new period before it reads or changes anything, moves the delegator to that period and removes exactly the record the delegator or the last undelegation left behind. The withdrawn coins and the coins shown as outstanding are compared as terms with the sum over constant-stake stretches between slashes; every withdrawal is paid in the same step, and rewards paid in are added and moved by the same coins.",
		func(c *Ctx) {
			c.sec("period", func() {
				r := c.root("delegation.f1StartNewPeriod")
				r.effects("delegation.SetDelegationEntry", "delegation.RemoveDelegationEntry")
				prev := "delegation.GetDelegationEntry($1, $2.LatestIndexK)"
				value := "DecCoins.Add(ite($2.TotalDelegation == 0, " + d0 + ", DecCoins.QuoDec(types.NewDecCoinsFromCoins($2.CurrentRewards), $2.TotalDelegation)), ite(" + prev + ".ok, " + prev + ".val.Value, " + d0 + "))"
				for _, x := range r.only("delegation.SetDelegationEntry", "delegation.SetDelegationEntry(_)") {
					x.record(0, map[string]string{"Staker": "$1", "KIndex": "1 + $2.LatestIndexK", "Value": value})
				}
				r.does(nil, "delegation.SetDelegationEntry(_)")
				for _, x := range r.only("delegation.RemoveDelegationEntry", "delegation.RemoveDelegationEntry(_, _)") {
					x.guard("$2.LatestIndexWasUndelegation")
					x.is("$1", x.arg(0)).is("$2.LatestIndexK", x.arg(1))
				}
				r.does([]string{"$2.LatestIndexWasUndelegation"}, "delegation.RemoveDelegationEntry(_, _)")
				r.post("$2", nil, map[string]string{"CurrentRewards": "nil", "LatestIndexK": "1 + $2.LatestIndexK", "LatestIndexWasUndelegation": "false"})
				r.returns(0, nil, "1 + $2.LatestIndexK")
			})
			k := keep("delegation.f1StartNewPeriod", "delegation.f1GetCurrentDelegation")
			D := "delegation.GetDelegationData($1).val"
			N := "delegation.f1StartNewPeriod($1, " + D + ")"
			G := "delegation.GetDelegator($1, $2)"
			c.sec("withdraw", func() {
				r := c.root("delegation.f1WithdrawRewards", k)
				r.effects("delegation.f1StartNewPeriod", "delegation.SetDelegationData", "delegation.RemoveDelegationEntry", "delegation.SetDelegator", "delegation.f1GetCurrentDelegation")
				r.does([]string{G + ".ok"}, N, "delegation.SetDelegationData(_)", "delegation.RemoveDelegationEntry($1, "+G+".val.KIndex)", "delegation.SetDelegator(_)")
				for _, x := range r.only("delegation.SetDelegationData", "delegation.SetDelegationData(_)") {
					x.is(N+".arg1", x.arg(0))
				}
				r.only("delegation.RemoveDelegationEntry", "delegation.RemoveDelegationEntry($1, "+G+".val.KIndex)")
				for _, x := range r.only("delegation.SetDelegator", "delegation.SetDelegator(_)") {
					x.changes(0, G+".val", map[string]string{"KIndex": N, "InitialAmount": "delegation.f1GetCurrentDelegation($1, $2)"})
				}
				// the stake is re-read before the record is moved to the new period
				for _, x := range r.some("delegation.f1GetCurrentDelegation") {
					r.c.check(!r.didIn(x.state(), "delegation.SetDelegator(_)", x.b.copy()), "withdraw: order", x.Pos, "the stake is computed from the record already moved")
					x.after(N, "delegation.SetDelegationData(_)")
				}
				slashes := "delegation.GetAllDelegationSlashesBetween($1, " + G + ".val.KIndex, " + N + ")"
				sum, _ := rewardsOf(slashes, N)
				for _, some := range []string{"==", "!="} {
					r.returns(0, []string{G + ".ok", "len(" + slashes + ") " + some + " 0"}, truncated(sum))
				}
				r.returns(0, []string{"!" + G + ".ok"}, "nil")
			})
			c.sec("change of stake", func() {
				r := c.root("delegation.f1RemoveDelegator", k)
				r.does([]string{G + ".ok"}, N, "delegation.RemoveDelegationEntry($1, "+G+".val.KIndex)")
				r.does([]string{G + ".ok", N + ".arg1.DelegatorCount - 1 == 0"}, "delegation.RemoveDelegationEntry($1, "+N+".arg1.LatestIndexK)")
				for _, x := range r.only("delegation.RemoveDelegationEntry", "delegation.RemoveDelegationEntry($1, "+G+".val.KIndex)", "delegation.RemoveDelegationEntry($1, "+N+".arg1.LatestIndexK)") {
					if r.same(x.state(), N+".arg1.LatestIndexK", x.arg(1), x.b) {
						x.guard(N + ".arg1.DelegatorCount - 1 == 0")
					}
				}
				for _, x := range r.some("delegation.SetDelegationData(_d)") {
					x.guard("_d.LatestIndexWasUndelegation")
				}
				r = c.root("delegation.f1CreateDelegator", k)
				r.doesNot([]string{"$3 == 0"}, "delegation.SetDelegationData(_)", "delegation.SetDelegator(_)")
				for _, x := range r.some("delegation.SetDelegator(_d)") {
					x.after("delegation.f1StartNewPeriod($1, _n)")
					x.guard("_d.KIndex == delegation.f1StartNewPeriod($1, _n).arg1.LatestIndexK")
				}
				r = c.root("delegation.f1Slash", k)
				for _, x := range r.some("delegation.SetDelegationSlashEntry(_d)") {
					x.guard("_d.KIndex == " + N)
				}
			})
			c.sec("outstanding", func() {
				r := c.root("delegation.GetOutstandingRewards")
				end := D + ".LatestIndexK"
				slashes := "delegation.GetAllDelegationSlashesBetween($1, " + G + ".val.KIndex, " + end + ")"
				sum, bal := rewardsOf(slashes, end)
				rate := "ite(" + D + ".TotalDelegation == 0, " + d0 + ", DecCoins.QuoDec(types.NewDecCoinsFromCoins(" + D + ".CurrentRewards), " + D + ".TotalDelegation))"
				for _, some := range []string{"==", "!="} {
					r.returns(0, []string{G + ".ok", "len(" + slashes + ") " + some + " 0"}, truncated("DecCoins.Add("+sum+", ite("+bal+" == 0, "+d0+", DecCoins.MulDec("+rate+", "+bal+")))"))
				}
				r.returns(0, []string{"!" + G + ".ok"}, "nil")
			})
			c.sec("WithdrawRewards", func() {
				r := c.root("delegation.WithdrawRewards", f1Keep())
				r.effects("delegation.f1WithdrawRewards", "bank.SendCoinsFromModuleToAccount")
				rewardPayout(r, [3]string{"msg.Staker", "msg.Creator", ""})
				r.always("delegation.DoesDelegatorExist(msg.Staker, msg.Creator)")
				r.count(1, "delegation.f1WithdrawRewards")
				for _, x := range r.success() {
					r.c.check(r.holdsIn(x.st, "bank.SendCoinsFromModuleToAccount(delegation.ModuleName, addr(msg.Creator), delegation.f1WithdrawRewards(msg.Staker, msg.Creator)).err == nil", nil), "WithdrawRewards: paid", x.pos, "the message succeeds although the pay out failed")
				}
			})
			c.sec("paid in", func() {
				r := c.root("delegation.PayoutRewards")
				r.effects("delegation.SetDelegationData", "bank.SendCoinsFromModuleToModule")
				conds := []string{"!iszero($2)"}
				r.does(conds, "delegation.SetDelegationData(_)", "bank.SendCoinsFromModuleToModule($3, delegation.ModuleName, $2)")
				for _, x := range r.when(conds...) {
					r.c.check(r.holdsIn(x.st, "bank.SendCoinsFromModuleToModule($3, delegation.ModuleName, $2).err == nil", nil) && r.holdsIn(x.st, "delegation.DoesDelegationDataExist($1)", nil), "PayoutRewards: transfer", x.pos, "rewards are booked without the transfer")
				}
				r.only("bank.SendCoinsFromModuleToModule", "bank.SendCoinsFromModuleToModule($3, delegation.ModuleName, $2)")
				r.count(1, "bank.SendCoinsFromModuleToModule")
				for _, x := range r.only("delegation.SetDelegationData", "delegation.SetDelegationData(_)") {
					x.changes(0, "delegation.GetDelegationData($1).val", map[string]string{"CurrentRewards": "cadd(delegation.GetDelegationData($1).val.CurrentRewards, $2)"})
				}
				r.count(1, "delegation.SetDelegationData")
			})
			c.sec("slashes in between", func() {
				onlyCallers(c, "delegation", []string{"delegation.SetDelegationEntry", "delegation.RemoveDelegationEntry", "delegation.SetDelegationSlashEntry", "delegation.SetDelegationData"},
					[]string{"delegation.Delegate", "delegation.Undelegate", "delegation.Redelegate", "delegation.WithdrawRewards", "stakers.CreateStaker", "delegation.BeginBlock", "bundles.SubmitBundleProposal", "bundles.SkipUploaderRole", "bundles.EndBlock", "genesis", "upgrade"})
			})
		})
}

func init() {
	reg("C11", "The undelegation request and the queue step are interpreted on all paths, the step as a loop over a symbolic queue: a request writes one entry with exactly the requested amount, sender, staker and time at the next position, not above the stake held; the step walks positions from the front by a comparison term, handles an entry only under the due condition, pays the smaller of the request and the worth, deletes the entry handled and stores the position reached. No other code writes the queue.",
		func(c *Ctx) {
			Q := uqS
			c.sec("Undelegate", func() {
				r := c.root("delegation.Undelegate", keep("delegation.GetDelegationAmountOfDelegator"))
				r.effects("delegation.SetQueueState", "delegation.SetUndelegationQueueEntry")
				bound := "msg.Amount <= delegation.GetDelegationAmountOfDelegator(msg.Staker, msg.Creator)"
				for _, x := range r.only("delegation.SetQueueState", "delegation.SetQueueState(_)") {
					x.changes(0, Q, map[string]string{"HighIndex": Q + ".HighIndex + 1"})
					x.guard(bound)
				}
				for _, x := range r.only("delegation.SetUndelegationQueueEntry", "delegation.SetUndelegationQueueEntry(_)") {
					x.record(0, map[string]string{"Index": Q + ".HighIndex + 1", "Staker": "msg.Staker", "Delegator": "msg.Creator", "Amount": "msg.Amount", "CreationTime": "now"})
					x.guard(bound)
				}
				r.count(1, "delegation.SetQueueState")
				r.count(1, "delegation.SetUndelegationQueueEntry")
				r.does(nil, "delegation.SetQueueState(_)", "delegation.SetUndelegationQueueEntry(_)")
				r.exact([]string{bound})
			})
			c.sec("queue step", func() {
				r := c.root("delegation.ProcessDelegatorUnbondingQueue", f1Keep())
				for _, x := range r.only("delegation.RemoveUndelegationQueueEntry", "delegation.RemoveUndelegationQueueEntry("+uqE+")") {
					x.guard("delegation.GetUndelegationQueueEntry(1 + "+uqL+").ok", uqE+".CreationTime + "+dlP+".UnbondingDelegationTime <= now")
				}
				r.count(1, "delegation.RemoveUndelegationQueueEntry")
				for _, x := range r.some("util.TransferFromModuleToAddress", "delegation.f1RemoveDelegator", "delegation.f1CreateDelegator") {
					x.guard("delegation.GetUndelegationQueueEntry(1 + "+uqL+").ok", uqE+".CreationTime + "+dlP+".UnbondingDelegationTime <= now")
				}
				for _, x := range r.only("delegation.SetQueueState", "delegation.SetQueueState(_)") {
					x.changes(0, Q, map[string]string{"LowIndex": uqL})
					r.c.check(len(x.Loops) == 0, "queue step: position saved once", x.Pos, "the position is saved inside the loop")
					queueLoop(c, r, x, strings.TrimSuffix(uqE, ".val"), uqE+".CreationTime + "+dlP+".UnbondingDelegationTime <= now", uqL, Q+".HighIndex", "delegation.RemoveUndelegationQueueEntry("+uqE+")")
				}
				r.does(nil, "delegation.SetQueueState(_)")
			})
			c.sec("current worth", func() {
				r := c.root("delegation.GetDelegationAmountOfDelegator", keep("delegation.f1GetCurrentDelegation"))
				r.returns(0, nil, "delegation.f1GetCurrentDelegation($1, $2)")
			})
			c.sec("sole writers", func() {
				onlyCallers(c, "", []string{"delegation.SetUndelegationQueueEntry", "delegation.RemoveUndelegationQueueEntry", "delegation.SetQueueState"},
					[]string{"delegation.Undelegate", "delegation.BeginBlock", "genesis", "upgrade"})
			})
		})

	reg("C12", "The redelegation handler, interpreted on all paths: it succeeds only with fewer active cooldowns than allowed and none from this block, always writes one cooldown with the block time before it moves any stake, removes a cooldown only under the strict comparison with the cooldown time, and requires an existing target with at least one pool membership. The stake moved is bounded by what the delegator has with the source.",
		func(c *Ctx) {
			L := "delegation.GetRedelegationCooldownEntries(msg.Creator)"
			c.sec("Redelegate", func() {
				r := c.root("delegation.Redelegate", f1Keep("delegation.GetDelegationAmountOfDelegator"))
				conds := []string{
					"delegation.DoesDelegatorExist(msg.FromStaker, msg.Creator)",
					"stakers.DoesStakerExist(msg.ToStaker)",
					"len(stakers.GetValaccountsFromStaker(msg.ToStaker)) != 0",
					"msg.Amount <= delegation.GetDelegationAmountOfDelegator(msg.FromStaker, msg.Creator)",
					"len(" + L + ") < " + dlP + ".RedelegationMaxAmount",
					"len(" + L + ") == 0 || " + L + "[len(" + L + ") - 1] != now",
				}
				r.always(conds...)
				set := r.only("delegation.SetRedelegationCooldown", "delegation.SetRedelegationCooldown(_)")
				for _, x := range set {
					x.record(0, map[string]string{"Address": "msg.Creator", "CreationDate": "now"})
				}
				r.count(1, "delegation.SetRedelegationCooldown")
				r.does(nil, "delegation.SetRedelegationCooldown(_)")
				for _, x := range r.only("delegation.RemoveRedelegationCooldown", "delegation.RemoveRedelegationCooldown(msg.Creator, elem("+L+"))") {
					x.guard(dlP + ".RedelegationCooldown + elem(" + L + ") < now")
				}
				for _, x := range r.some(f1...) {
					x.guard(conds...)
				}
				// the only other refusal is that the stake moved is not the stake asked for
				rem := "delegation.f1RemoveDelegator(msg.FromStaker, msg.Creator)"
				r.accepts(append([]string{"msg.Amount <= " + rem}, conds...))
			})
			c.sec("sole writers", func() {
				onlyCallers(c, "", []string{"delegation.SetRedelegationCooldown", "delegation.RemoveRedelegationCooldown"}, []string{"delegation.Redelegate", "genesis", "upgrade"})
			})
		})
}
