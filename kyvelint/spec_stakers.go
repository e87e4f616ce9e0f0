package main

import "golang.org/x/tools/go/ssa"

// ---- x/stakers: pool membership, commission

// method finds the function of that name with the given receiver type.
func (c *Ctx) method(name, recv string) *ssa.Function {
	for _, f := range c.su.byName[name] {
		if f.Synthetic == "" && f.Signature.Recv() != nil {
			if n := namedOf(f.Signature.Recv().Type()); n != nil && n.Obj().Name() == recv {
				return f
			}
		}
	}
	bail("anchor %s of %s not found in the repository", name, recv)
	return nil
}

// entryQueue: the position the shared queue loop of x/stakers stops at, and
// the entry at hand.
func entryQueue(id, get string) (state, front, entry string) {
	state = "stakers.GetQueueState(stakers." + id + ")"
	front = "fold(" + state + ".LowIndex, 1 + acc)"
	return state, front, get + "(1 + " + front + ")"
}

// queueStep: the begin block step over a queue.
func queueStep(c *Ctx, r *Root, id, get, remove, delay string) (entry string) {
	state, front, e := entryQueue(id, get)
	due := []string{e + ".ok", delay + " + " + e + ".val.CreationDate <= now"}
	for _, s := range r.only(remove, remove+"("+e+".val)") {
		s.guard(due...)
		s.onlyIf(append(due, front+" < "+state+".HighIndex")...)
	}
	r.count(1, remove)
	for _, s := range r.only("stakers.SetQueueState", "stakers.SetQueueState(stakers."+id+", _q)") {
		s.changes(1, state, map[string]string{"LowIndex": front})
		c.check(len(s.Loops) == 0, "position saved once", s.Pos, "the queue position is saved inside the loop")
		queueLoop(c, r, s, e, due[1], front, state+".HighIndex", remove+"("+e+".val)")
	}
	r.does(nil, "stakers.SetQueueState(stakers."+id+", _)")
	return e
}

// enqueue: a message adds one entry at the end of the queue.
func enqueue(r *Root, id, set string, fields map[string]string) {
	state := "stakers.GetQueueState(stakers." + id + ")"
	for _, s := range r.only("stakers.SetQueueState", "stakers.SetQueueState(stakers."+id+", _q)") {
		s.changes(1, state, map[string]string{"HighIndex": state + ".HighIndex + 1"})
	}
	fields["Index"] = state + ".HighIndex + 1"
	fields["CreationDate"] = "now"
	for _, s := range r.only(set, set+"(_e)") {
		s.record(0, fields)
	}
	r.count(1, "stakers.SetQueueState")
	r.count(1, set)
	r.does(nil, "stakers.SetQueueState", set)
}

func init() {
	reg("C25", "The join and leave handlers, the leave queue step and the functions that add and remove a membership are interpreted on all paths: a join succeeds exactly under its admission conditions and adds exactly the sender with the named node address, a full pool loses exactly its member with the least stake and only to more stake; a leave writes one queue entry and nothing else, and only the queue step, once the leave time has passed, removes the member; removal always updates record, count and activity together and drops a pending leave.",
		func(c *Ctx) {
			P, C := "msg.PoolId", "msg.Creator"
			c.sec("join", func() {
				r := c.root("stakers.JoinPool", keep("stakers.LeavePool", "stakers.AddValaccountToPool"))
				r.effects("stakers.LeavePool", "stakers.AddValaccountToPool", "util.TransferFromAddressToAddress")
				members := "stakers.GetAllValaccountsOfPool(" + P + ")"
				of := func(el string) string {
					return "delegation.GetDelegationAmount(stakers.GetStaker(" + el + ".Staker).val.Address)"
				}
				el := "elem(" + members + ")"
				least := "fold(zero(\"stakers.Staker\"), ite(" + of(el) + " < fold(18446744073709551615, min(acc, " + of(el) + ")), stakers.GetStaker(" + el + ".Staker).val, acc)).Address"
				full := "stakers.getStat(" + P + ", stakers.STAKER_STATS_COUNT) >= stakers.MaxStakers"
				more := "delegation.GetDelegationAmount(" + C + ") > delegation.GetDelegationAmount(" + least + ")"
				conds := []string{
					"pool.GetPoolWithError(" + P + ").err == nil",
					"!pool.GetPoolWithError(" + P + ").val.Disabled",
					"stakers.GetStaker(" + C + ").ok",
					C + " != msg.Valaddress",
					"!stakers.GetValaccount(" + P + ", " + C + ").ok",
					"!exists(stakers.GetValaccountsFromStaker(" + C + "), elem(stakers.GetValaccountsFromStaker(" + C + ")).Valaddress == msg.Valaddress)",
					"!exists(" + members + ", stakers.GetValaccount(" + P + ", " + el + ".Staker).val.Valaddress == msg.Valaddress)",
				}
				add := "stakers.AddValaccountToPool(" + P + ", " + C + ", msg.Valaddress)"
				give := "util.TransferFromAddressToAddress(" + C + ", msg.Valaddress, msg.Amount)"
				r.exact(append(conds, "!("+full+") || "+more), give)
				r.only("stakers.AddValaccountToPool", add)
				r.only("util.TransferFromAddressToAddress", give)
				r.count(1, "stakers.AddValaccountToPool")
				r.count(1, "util.TransferFromAddressToAddress")
				r.does(nil, add, give)
				for _, s := range r.only("stakers.LeavePool", "stakers.LeavePool(_x, "+P+")") {
					s.is(least, s.b["_x"])
					s.guard(full, more)
					s.onlyIf(append(conds, full, more)...)
				}
				r.count(1, "stakers.LeavePool")
			})
			c.sec("add", func() {
				r := c.root("stakers.AddValaccountToPool")
				r.effects("stakers.SetValaccount", "stakers.setStat", "stakers.AddActiveStaker")
				for _, s := range r.only("stakers.SetValaccount", "stakers.SetValaccount(_v)") {
					s.record(0, map[string]string{"PoolId": "$1", "Staker": "$2", "Valaddress": "$3", "Points": "0", "IsLeaving": "false"})
				}
				for _, s := range r.only("stakers.setStat", "stakers.setStat($1, stakers.STAKER_STATS_COUNT, _n)") {
					s.is("stakers.getStat($1, stakers.STAKER_STATS_COUNT) + 1", s.b["_n"])
				}
				r.only("stakers.AddActiveStaker", "stakers.AddActiveStaker($2)")
				three := []string{"stakers.SetValaccount", "stakers.setStat", "stakers.AddActiveStaker"}
				for _, n := range three {
					r.count(1, n)
				}
				is := []string{"stakers.DoesStakerExist($2)", "!stakers.DoesValaccountExist($1, $2)"}
				r.does(is, three...)
				r.doesNot([]string{"!" + is[0]}, three...)
				r.doesNot([]string{"stakers.DoesValaccountExist($1, $2)"}, three...)
				onlyCallers(c, "", []string{"stakers.AddValaccountToPool"}, []string{"stakers.JoinPool"})
			})
			c.sec("remove", func() {
				r := c.rootFn(c.method("stakers.LeavePool", "Keeper"), "stakers.Keeper.LeavePool", "0")
				V := "stakers.GetValaccount($2, $1)"
				three := []string{"stakers.removeValaccount", "stakers.setStat", "stakers.removeActiveStaker"}
				r.effects(append(three, "stakers.RemoveLeavePoolEntry")...)
				r.only(three[0], "stakers.removeValaccount("+V+".val)")
				for _, s := range r.only(three[1], "stakers.setStat($2, stakers.STAKER_STATS_COUNT, _n)") {
					s.is("stakers.getStat($2, stakers.STAKER_STATS_COUNT) - 1", s.b["_n"])
				}
				r.only(three[2], "stakers.removeActiveStaker($1)")
				for _, n := range three {
					r.count(1, n)
				}
				r.does([]string{V + ".ok"}, three...)
				r.doesNot([]string{"!" + V + ".ok"}, three...)
				pending := "stakers.DoesLeavePoolEntryExistByIndex2($1, $2)"
				for _, s := range r.only("stakers.RemoveLeavePoolEntry", "stakers.RemoveLeavePoolEntry(_e)") {
					s.guard("_e.Staker == $1", "_e.PoolId == $2")
					s.onlyIf(pending, "_e.Staker == $1", "_e.PoolId == $2")
				}
				onlyCallers(c, "", three[:1], []string{"stakers.JoinPool", "stakers.BeginBlock", "pool.DisablePool", "bundles.SubmitBundleProposal", "bundles.SkipUploaderRole", "bundles.EndBlock"})
				onlyCallers(c, "", []string{"stakers.setStat"}, []string{"stakers.JoinPool", "stakers.BeginBlock", "pool.DisablePool", "bundles.SubmitBundleProposal", "bundles.SkipUploaderRole", "bundles.EndBlock", "genesis", "upgrade"})
			})
			c.sec("leave", func() {
				r := c.rootFn(c.method("stakers.LeavePool", "msgServer"), "stakers.LeavePool", "0")
				r.effects("stakers.SetValaccount", "stakers.SetQueueState", "stakers.SetLeavePoolEntry")
				V := "stakers.GetValaccount(" + P + ", " + C + ")"
				r.exact([]string{V + ".ok", "!stakers.DoesLeavePoolEntryExistByIndex2(" + C + ", " + P + ")"})
				for _, s := range r.only("stakers.SetValaccount", "stakers.SetValaccount(_v)") {
					s.changes(0, V+".val", map[string]string{"IsLeaving": "true"})
				}
				r.count(1, "stakers.SetValaccount")
				r.does(nil, "stakers.SetValaccount")
				enqueue(r, "QUEUE_IDENTIFIER_LEAVE", "stakers.SetLeavePoolEntry", map[string]string{"Staker": C, "PoolId": P})
			})
			c.sec("leave queue", func() {
				r := c.root("stakers.ProcessLeavePoolQueue", keep("stakers.LeavePool"))
				r.effects("stakers.RemoveLeavePoolEntry", "stakers.LeavePool", "stakers.SetQueueState")
				e := queueStep(c, r, "QUEUE_IDENTIFIER_LEAVE", "stakers.GetLeavePoolEntry", "stakers.RemoveLeavePoolEntry", "stakers.GetParams().LeavePoolTime")
				state, low, _ := entryQueue("QUEUE_IDENTIFIER_LEAVE", "")
				high := state + ".HighIndex"
				leave := "stakers.LeavePool(" + e + ".val.Staker, " + e + ".val.PoolId)"
				due := []string{e + ".ok", "stakers.GetParams().LeavePoolTime + " + e + ".val.CreationDate <= now"}
				for _, s := range r.only("stakers.LeavePool", leave) {
					s.guard(due...)
					s.onlyIf(append(due, low+" < "+high)...)
				}
				r.count(1, "stakers.LeavePool")
				onlyCallers(c, "", []string{"stakers.SetLeavePoolEntry"}, []string{"stakers.LeavePool", "genesis", "upgrade"})
				onlyCallers(c, "", []string{"stakers.ProcessLeavePoolQueue"}, []string{"stakers.BeginBlock"})
				c.root("stakers.BeginBlock", keep("stakers.ProcessLeavePoolQueue")).does(nil, "stakers.ProcessLeavePoolQueue")
			})
		})

	reg("C26", "The commission messages, the commission queue step and the reward booking are interpreted on all paths: a change request replaces the pending entry of the sender and writes one entry; only the queue step, once the change time has passed and in order, sets the commission, to the entry's value, and removes the entry; every other write of a staker record leaves the commission alone; the claim transfers and subtracts the same coins, bounded by what is booked; booking transfers and adds the same coins.",
		func(c *Ctx) {
			C := "msg.Creator"
			c.sec("request", func() {
				r := c.root("stakers.UpdateCommission")
				r.effects("stakers.RemoveCommissionChangeEntry", "stakers.SetQueueState", "stakers.SetCommissionChangeEntry")
				r.exact([]string{"stakers.DoesStakerExist(" + C + ")"})
				old := "stakers.GetCommissionChangeEntryByIndex2(" + C + ")"
				r.only("stakers.RemoveCommissionChangeEntry", "stakers.RemoveCommissionChangeEntry("+old+".val)")
				r.count(1, "stakers.RemoveCommissionChangeEntry")
				r.does([]string{old + ".ok"}, "stakers.RemoveCommissionChangeEntry")
				r.doesNot([]string{"!" + old + ".ok"}, "stakers.RemoveCommissionChangeEntry")
				enqueue(r, "QUEUE_IDENTIFIER_COMMISSION", "stakers.SetCommissionChangeEntry", map[string]string{"Staker": C, "Commission": "msg.Commission"})
			})
			c.sec("queue", func() {
				r := c.root("stakers.ProcessCommissionChangeQueue")
				r.effects("stakers.RemoveCommissionChangeEntry", "stakers.setStaker", "stakers.SetQueueState")
				delay := "stakers.GetParams().CommissionChangeTime"
				e := queueStep(c, r, "QUEUE_IDENTIFIER_COMMISSION", "stakers.GetCommissionChangeEntry", "stakers.RemoveCommissionChangeEntry", delay)
				st := "stakers.GetStaker(" + e + ".val.Staker)"
				due := []string{e + ".ok", delay + " + " + e + ".val.CreationDate <= now"}
				for _, s := range r.only("stakers.setStaker", "stakers.setStaker(_s)") {
					s.changes(0, st+".val", map[string]string{"Commission": e + ".val.Commission"})
					s.guard(due...)
					s.guard(st + ".ok")
					state, low, _ := entryQueue("QUEUE_IDENTIFIER_COMMISSION", "")
					s.onlyIf(append(due, st+".ok", low+" < "+state+".HighIndex")...)
				}
				r.count(1, "stakers.setStaker")
				onlyCallers(c, "", []string{"stakers.UpdateStakerCommission", "stakers.ProcessCommissionChangeQueue"}, []string{"stakers.BeginBlock"})
				onlyCallers(c, "", []string{"stakers.SetCommissionChangeEntry", "stakers.RemoveCommissionChangeEntry"}, []string{"stakers.UpdateCommission", "stakers.BeginBlock", "genesis", "upgrade"})
				c.root("stakers.BeginBlock", keep("stakers.ProcessCommissionChangeQueue")).does(nil, "stakers.ProcessCommissionChangeQueue")
			})
			c.sec("range", func() {
				c.root("stakers.MsgUpdateCommission.ValidateBasic").always("!isnil(self.Commission)", "self.Commission >= 0", "self.Commission <= 1")
				c.root("stakers.MsgCreateStaker.ValidateBasic").always("isnil(self.Commission) || self.Commission >= 0", "isnil(self.Commission) || self.Commission <= 1")
			})
			c.sec("other writes", func() {
				r := c.root("stakers.CreateStaker", keep("delegation.Delegate"))
				r.exact([]string{"!stakers.DoesStakerExist(" + C + ")"}, "delegation.Delegate")
				for _, s := range r.only("stakers.setStaker", "stakers.setStaker(_s)") {
					s.record(0, map[string]string{"Address": C, "Commission": "msg.Commission"})
				}
				r = c.root("stakers.UpdateMetadata")
				r.exact([]string{"stakers.DoesStakerExist(" + C + ")"})
				for _, s := range r.only("stakers.setStaker", "stakers.setStaker(_s)") {
					s.changes(0, "stakers.GetStaker("+C+").val", map[string]string{"Moniker": "msg.Moniker", "Website": "msg.Website", "Identity": "msg.Identity", "SecurityContact": "msg.SecurityContact", "Details": "msg.Details"})
				}
				r.does(nil, "stakers.setStaker")
				onlyCallers(c, "", []string{"stakers.setStaker"}, []string{"stakers.CreateStaker", "stakers.UpdateMetadata", "stakers.ClaimCommissionRewards", "stakers.BeginBlock", "bundles.SubmitBundleProposal", "bundles.SkipUploaderRole", "bundles.EndBlock", "genesis", "upgrade"})
			})
			c.sec("claim", func() {
				r := c.root("stakers.ClaimCommissionRewards")
				S := "stakers.GetStaker(" + C + ")"
				send := "bank.SendCoinsFromModuleToAccount(stakers.ModuleName, addr(" + C + "), msg.Amounts)"
				r.effects("bank.SendCoinsFromModuleToAccount", "stakers.setStaker")
				r.exact([]string{S + ".ok", "dyn(\"Coins.IsAllLTE\", msg.Amounts, " + S + ".val.CommissionRewards)"}, send)
				r.only("bank.SendCoinsFromModuleToAccount", send)
				r.count(1, "bank.SendCoinsFromModuleToAccount")
				for _, s := range r.only("stakers.setStaker", "stakers.setStaker(_s)") {
					s.changes(0, S+".val", map[string]string{"CommissionRewards": "csub(" + S + ".val.CommissionRewards, msg.Amounts)"})
				}
				r.count(1, "stakers.setStaker")
				r.does(nil, send, "stakers.setStaker")
				v := c.root("stakers.MsgClaimCommissionRewards.ValidateBasic")
				v.always("dyn(\"Coins.Validate\", self.Amounts).err == nil")
			})
			c.sec("booking", func() {
				r := c.root("stakers.IncreaseStakerCommissionRewards")
				S := "stakers.GetStaker($1)"
				send := "bank.SendCoinsFromModuleToModule($2, stakers.ModuleName, $3)"
				r.effects("bank.SendCoinsFromModuleToModule", "stakers.setStaker")
				r.only("bank.SendCoinsFromModuleToModule", send)
				for _, s := range r.only("stakers.setStaker", "stakers.setStaker(_s)") {
					s.changes(0, S+".val", map[string]string{"CommissionRewards": "cadd(" + S + ".val.CommissionRewards, $3)"})
				}
				r.count(1, "stakers.setStaker")
				r.count(1, "bank.SendCoinsFromModuleToModule")
				some := "!iszero($3)"
				r.always("iszero($3) || " + S + ".ok")
				r.does([]string{some}, send, "stakers.setStaker")
				r.doesNot([]string{"iszero($3)"}, "stakers.setStaker", "bank.SendCoinsFromModuleToModule")
				r.accepts([]string{S + ".ok"}, send)
			})
		})
}
