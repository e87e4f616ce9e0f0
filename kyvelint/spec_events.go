package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- events

// event: the root emits exactly one construct of this event, with these fields.
func event(r *Root, name string, fields map[string]string) *S {
	var last *S
	for _, s := range r.only("emit."+name, "emit."+name+"(_e)") {
		s.record(0, fields)
		last = s
	}
	return last
}

// reports: on success the root emits the event exactly once.
func reports(r *Root, name string, fields map[string]string) *S {
	s := event(r, name, fields)
	r.count(1, "emit."+name)
	if s != nil {
		r.c.check(len(s.Loops) == 0, r.name+": "+name+" once", s.Pos, "%s: %s is emitted in a loop", r.name, name)
	}
	r.does(nil, "emit."+name)
	return s
}

// together: wherever one of the two happens, so does the other. The first is
// an event of which the root has one emission.
func together(r *Root, ev string, effects ...string) {
	for _, s := range r.some("emit." + ev) {
		s.with(nil, effects...)
	}
	for _, eff := range effects {
		for _, s := range r.some(eff) {
			s.with(nil, "emit."+ev+"(_)")
		}
	}
}

func strOfCoins(x string) string { return "Coins.String(" + x + ")" }

// same lists fields that carry the message field of the same name.
func msgFields(names ...string) map[string]string {
	m := map[string]string{}
	for _, n := range names {
		to, from, ok := strings.Cut(n, "=")
		if !ok {
			from = to
		}
		m[to] = "msg." + from
	}
	return m
}

func plus(m map[string]string, kv ...string) map[string]string {
	for i := 0; i+1 < len(kv); i += 2 {
		m[kv[i]] = kv[i+1]
	}
	return m
}

func init() {
	reg("C43", "Every message handler, block step and the functions they report through are interpreted on all paths with the emitted events as effects: each event is emitted exactly where its effect happens (and the effect nowhere without it), once, and its ids, accounts and amounts are the terms that were stored, booked or transferred on that path. The call graph gives the list of emitting functions: every event type has to be judged, every message handler has to report, and no event of another kind is emitted.",
		func(c *Ctx) {
			c.sec("delegation", func() {
				r := c.root("delegation.Delegate", f1Keep())
				reports(r, "EventDelegate", msgFields("Address=Creator", "Staker", "Amount"))
				r = c.root("delegation.Redelegate", f1Keep())
				reports(r, "EventRedelegate", msgFields("Address=Creator", "FromStaker", "ToStaker", "Amount"))
				r = c.root("delegation.Undelegate", f1Keep())
				reports(r, "EventStartUndelegation", plus(msgFields("Address=Creator", "Staker", "Amount"), "EstimatedUndelegationDate", "now + delegation.GetParams().UnbondingDelegationTime"))
			})
			c.sec("rewards", func() {
				for _, n := range []string{"delegation.Delegate", "delegation.Redelegate", "delegation.WithdrawRewards", "delegation.BeginBlock"} {
					r := c.root(n, f1Keep())
					for _, s := range r.only("emit.EventWithdrawRewards", "emit.EventWithdrawRewards(_e)") {
						// the event goes with the payment of what it names
						e := s.arg(0)
						st, ad := r.e.in.path(e, []string{"Staker"}), r.e.in.path(e, []string{"Address"})
						s.b["_s"], s.b["_d"] = s.state().simp(st), s.state().simp(ad)
						w := "delegation.f1WithdrawRewards(_s, _d)"
						s.record(0, map[string]string{"Amounts": strOfCoins(w)})
						s.after(w, "bank.SendCoinsFromModuleToAccount(delegation.ModuleName, addr(_d), "+w+")")
					}
					for _, s := range r.some("bank.SendCoinsFromModuleToAccount(delegation.ModuleName, addr(_d), delegation.f1WithdrawRewards(_s, _d))") {
						s.b["_ok"] = s.call
						s.leadsToIf([]string{"_ok.err == nil"}, "emit.EventWithdrawRewards(_)")
					}
				}
			})
			c.sec("slash", func() {
				r := c.root("delegation.SlashDelegators", f1Keep())
				cut := "delegation.f1Slash($2, _x)"
				for _, s := range r.some(cut) {
					s.b["_c"] = s.call
					s.leadsTo("util.TransferFromModuleToTreasury(delegation.ModuleName, _c)", "emit.EventSlash(rec(\"PoolId\", $1, \"Staker\", $2, \"Amount\", _c, \"SlashType\", $3))")
				}
				for _, s := range r.only("emit.EventSlash", "emit.EventSlash(_e)") {
					s.after(cut)
				}
				r.count(1, "emit.EventSlash")
			})
			c.sec("unbonding", func() {
				r := c.root("delegation.BeginBlock", f1Keep())
				pay := "util.TransferFromModuleToAddress(delegation.ModuleName, _d, _a)"
				for _, s := range r.only("emit.EventUndelegate", "emit.EventUndelegate(_e)") {
					s.after(pay)
					s.record(0, map[string]string{"Address": "_d", "Amount": "_a", "Staker": uqE + ".Staker"})
				}
				for _, s := range r.some(pay) {
					s.b["_ok"] = s.call
					s.leadsToIf([]string{"_ok.err == nil"}, "emit.EventUndelegate(rec(\"Address\", _d, \"Amount\", _a))")
				}
				r.count(1, "emit.EventUndelegate")
			})
			c.sec("funders", func() {
				r := c.root("funders.CreateFunder")
				f := msgFields("Address=Creator", "Moniker", "Identity", "Website", "Contact", "Description")
				reports(r, "EventCreateFunder", f)
				r = c.root("funders.UpdateFunder")
				reports(r, "EventUpdateFunder", f)
				r = c.root("funders.FundPool")
				reports(r, "EventFundPool", plus(msgFields("Address=Creator", "PoolId"), "Amounts", strOfCoins("msg.Amounts"), "AmountsPerBundle", strOfCoins("msg.AmountsPerBundle")))
				back := "bank.SendCoinsFromModuleToAccount(funders.ModuleName, addr(_d), _a)"
				for _, n := range []string{"funders.FundPool", "funders.DefundPool"} {
					r := c.root(n)
					for _, s := range r.only("emit.EventDefundPool", "emit.EventDefundPool(_e)") {
						s.after(back)
						s.record(0, map[string]string{"Address": "_d", "Amounts": strOfCoins("_a"), "PoolId": "msg.PoolId"})
					}
					for _, s := range r.some(back) {
						s.with(nil, "emit.EventDefundPool(rec(\"Address\", _d, \"Amounts\", "+strOfCoins("_a")+"))")
					}
					r.count(1, "emit.EventDefundPool")
				}
				r = c.root("funders.DefundPool")
				r.does(nil, "emit.EventDefundPool")
				r = c.root("funders.ChargeFundersOfPool")
				left := "len(_f.ActiveFunderAddresses) == 0"
				for _, s := range r.only("emit.EventPoolOutOfFunds", "emit.EventPoolOutOfFunds(_e)") {
					s.record(0, map[string]string{"PoolId": "$1"})
					s.after("funders.SetFundingState(_f)")
					s.guard(left)
				}
				for _, s := range r.some("funders.SetFundingState(_f)") {
					s.leadsToIf([]string{left}, "emit.EventPoolOutOfFunds(_)")
				}
				r.count(1, "emit.EventPoolOutOfFunds")
			})
			c.sec("pool", func() {
				r := c.root("pool.CreatePool", keep("pool.AppendPool", "pool.EnsurePoolAccount", "funders.CreateFundingState"))
				reports(r, "EventCreatePool", plus(msgFields("Name", "Runtime", "Logo", "Config", "StartKey", "EndKey", "UploadInterval", "InflationShareWeight", "MinDelegation", "MaxBundleSize", "Version", "Binaries", "StorageProviderId", "CompressionId")))
				for _, s := range r.some("emit.EventCreatePool") {
					// the id of the appended pool is the count before it (see C28)
					s.after("pool.AppendPool(_)").fresh()
					id := s.state().simp(r.e.in.path(s.arg(0), []string{"Id"}))
					c.check(r.e.match(r.e.T("pool.AppendPool(_)", nil), id, binds{}) || r.same(s.state(), "pool.GetPoolCount() - 1", id, binds{}), r.name+": id", s.Pos, "%s: the event names the pool %s, not the one created", r.name, clip(id.String()))
				}
				for n, ev := range map[string]string{"pool.EnablePool": "EventPoolEnabled", "pool.DisablePool": "EventPoolDisabled"} {
					reports(c.root(n, keep("stakers.LeavePool")), ev, msgFields("Id"))
				}
				r = c.root("pool.UpdatePool")
				if s := reports(r, "EventPoolUpdated", msgFields("Id", "RawUpdateString=Payload")); s != nil {
					s.after("pool.SetPool(_p)")
					m := map[string]string{}
					for _, n := range strings.Fields("Id Name Runtime Logo Config UploadInterval InflationShareWeight MinDelegation MaxBundleSize") {
						m[n] = "_p." + n
					}
					s.record(0, plus(m, "StorageProviderId", "_p.CurrentStorageProviderId", "CompressionId", "_p.CurrentCompressionId"))
				}
				el := "elem(pool.GetAllPools())"
				r = c.root("pool.ScheduleRuntimeUpgrade")
				free := "msg.Runtime == " + el + ".Runtime && " + el + ".UpgradePlan.ScheduledAt == 0"
				affected := func(cond string) string {
					return "ite(" + cond + ", append(acc, list(" + el + ".Id)), acc)"
				}
				if s := reports(r, "EventRuntimeUpgradeScheduled", plus(msgFields("Runtime", "Version", "Binaries", "Duration"), "ScheduledAt", "max(msg.ScheduledAt, now)")); s != nil {
					affects(s, affected(free))
				}
				r = c.root("pool.CancelRuntimeUpgrade")
				if s := reports(r, "EventRuntimeUpgradeCancelled", msgFields("Runtime")); s != nil {
					affects(s, affected("msg.Runtime == "+el+".Runtime && "+el+".UpgradePlan.ScheduledAt != 0"))
				}
			})
			c.sec("stakers", func() {
				var r *Root
				reports(c.root("stakers.CreateStaker"), "EventCreateStaker", msgFields("Staker=Creator", "Amount", "Commission"))
				reports(c.root("stakers.UpdateMetadata"), "EventUpdateMetadata", msgFields("Staker=Creator", "Moniker", "Website", "Identity", "SecurityContact", "Details"))
				reports(c.root("stakers.ClaimCommissionRewards"), "EventClaimCommissionRewards", plus(msgFields("Staker=Creator"), "Amounts", strOfCoins("msg.Amounts")))
				reports(c.root("stakers.JoinPool", keep("stakers.LeavePool", "stakers.AddValaccountToPool")), "EventJoinPool", msgFields("PoolId", "Staker=Creator", "Valaddress", "Amount"))
				reports(c.rootFn(c.method("stakers.LeavePool", "Keeper"), "stakers.Keeper.LeavePool", "0"), "EventLeavePool", map[string]string{"PoolId": "$2", "Staker": "$1"})
				r = c.root("stakers.ProcessCommissionChangeQueue")
				for _, s := range r.only("emit.EventUpdateCommission", "emit.EventUpdateCommission(_e)") {
					s.after("stakers.RemoveCommissionChangeEntry(_q)")
					s.record(0, map[string]string{"Staker": "_q.Staker", "Commission": "_q.Commission"})
				}
				for _, s := range r.some("stakers.RemoveCommissionChangeEntry(_q)") {
					s.leadsTo("emit.EventUpdateCommission(_)")
				}
				r.count(1, "emit.EventUpdateCommission")
			})
			c.sec("team", func() {
				tm := func(n string, opts ...opt) *Root { return c.root("team."+n, opts...) }
				reports(tm("ClaimUnlocked"), "EventClaimedUnlocked", msgFields("Authority", "Id", "Amount", "Recipient"))
				reports(tm("ClaimAccountRewards"), "EventClaimInflationRewards", msgFields("Authority", "Id", "Amount", "Recipient"))
				reports(tm("ClaimAuthorityRewards"), "EventClaimAuthorityRewards", msgFields("Authority", "Amount", "Recipient"))
				r := tm("Clawback", keep("team.getVestingMaxAmount"))
				if s := reports(r, "EventClawback", msgFields("Authority", "Id", "Clawback")); s != nil {
					s.after("team.SetTeamVestingAccount(_a)")
					s.record(0, map[string]string{"Clawback": "_a.Clawback", "Amount": "_a.TotalAllocation - team.getVestingMaxAmount(_a)"})
				}
				r = tm("CreateTeamVestingAccount")
				reports(r, "EventCreateTeamVestingAccount", plus(msgFields("Authority", "TotalAllocation", "Commencement"), "Id", "team.AppendTeamVestingAccount(_)"))
			})
			c.sec("parameters", func() {
				for _, m := range strings.Fields("bundles delegation funders global pool stakers") {
					r := c.root(m + ".UpdateParams")
					if s := reports(r, "EventUpdateParams", msgFields("Payload")); s != nil {
						s.after(m + ".SetParams(_p)")
						s.record(0, map[string]string{"OldParams": m + ".GetParams()", "NewParams": "_p"})
					}
				}
			})
			c.sec("votes", func() {
				reports(c.root("bundles.VoteBundleProposal"), "EventBundleVote", msgFields("PoolId", "Staker", "StorageId", "Vote"))
				r := c.bundlesRoot("bundles.SubmitBundleProposal")
				own := "bundles.SetBundleProposal(_b)"
				for _, s := range r.only("emit.EventBundleVote", "emit.EventBundleVote(_e)") {
					s.record(0, plus(msgFields("PoolId", "Staker", "StorageId"), "Vote", "bundles.VOTE_TYPE_VALID"))
				}
				for _, s := range r.some(own) {
					if r.holdsIn(s.state(), "_b.StorageId == \"\"", s.b.copy()) {
						continue
					}
					s.leadsToIf([]string{"_b.StorageId != \"\""}, "emit.EventBundleVote(_)", "emit.EventBundleProposed(_)")
				}
			})
			c.sec("proposals", func() {
				r := c.bundlesRoot("bundles.SubmitBundleProposal")
				p := "pool.GetPool(msg.PoolId).val"
				for _, s := range r.only("emit.EventBundleProposed", "emit.EventBundleProposed(_e)") {
					s.record(0, plus(msgFields("PoolId", "Uploader=Staker", "StorageId", "DataSize", "BundleSize", "FromKey", "ToKey", "BundleSummary", "DataHash"),
						"Id", p+".TotalBundles", "FromIndex", p+".CurrentIndex", "ProposedAt", "now", "StorageProviderId", p+".CurrentStorageProviderId", "CompressionId", p+".CurrentCompressionId"))
					s.after("bundles.SetBundleProposal(rec(\"StorageId\", msg.StorageId, \"Uploader\", msg.Staker))").fresh()
				}
				r = c.root("bundles.ClaimUploaderRole")
				reports(r, "EventClaimedUploaderRole", plus(msgFields("PoolId", "NewUploader=Staker"), "Id", p+".TotalBundles"))
				r = c.bundlesRoot("bundles.SkipUploaderRole")
				for _, s := range r.only("emit.EventSkippedUploaderRole", "emit.EventSkippedUploaderRole(_e)") {
					s.record(0, plus(msgFields("PoolId", "PreviousUploader=Staker"), "Id", p+".TotalBundles"))
					s.fresh()
					s.after("bundles.SetBundleProposal(rec(\"NextUploader\", _n))")
					s.record(0, map[string]string{"NewUploader": "_n"})
				}
				r.does(nil, "emit.EventSkippedUploaderRole")
			})
			c.sec("points", func() {
				for _, o := range c.rounds() {
					for _, s := range o.r.only("emit.EventPointIncreased", "emit.EventPointIncreased(_e)") {
						s.after("stakers.IncrementPoints(_p, _x)")
						s.record(0, map[string]string{"PoolId": "_p", "Staker": "_x", "CurrentPoints": "stakers.IncrementPoints(_p, _x)"})
					}
					for _, s := range o.r.some("stakers.IncrementPoints(_p, _x)") {
						s.leadsTo("emit.EventPointIncreased(rec(\"PoolId\", _p, \"Staker\", _x))")
					}
				}
				for _, n := range []string{"bundles.SubmitBundleProposal", "bundles.SkipUploaderRole", "bundles.VoteBundleProposal"} {
					r := c.root
					q := func() *Root {
						if n == "bundles.VoteBundleProposal" {
							return r(n)
						}
						return c.bundlesRoot(n)
					}()
					reset := "stakers.ResetPoints(msg.PoolId, msg.Staker)"
					for _, s := range q.only("emit.EventPointsReset", "emit.EventPointsReset(_e)") {
						s.record(0, msgFields("PoolId", "Staker"))
						s.after(reset)
						s.guard(reset + " != 0")
					}
					for _, s := range q.some(reset) {
						s.leadsToIf([]string{reset + " != 0"}, "emit.EventPointsReset(_)")
					}
				}
			})
			c.sec("rounds", func() {
				for _, o := range c.rounds() {
					r := o.r
					open := o.bp() + ".StorageId != \"\""
					for _, s := range r.only("emit.EventBundleFinalized", "emit.EventBundleFinalized(_e)") {
						s.guard(open)
						m := map[string]string{"PoolId": o.pool, "Id": o.get() + ".TotalBundles", "FinalizedAt": "now", "Uploader": o.bp() + ".Uploader"}
						vd := map[string]string{}
						for _, f := range []string{"Valid", "Invalid", "Abstain", "Total", "Status"} {
							vd[f] = o.vd() + "." + f
						}
						switch {
						case r.didIn(s.state(), "bundles.SetFinalizedBundle(_)", s.b.copy()):
							s.after("distribution.FundCommunityPool(_t, _)", "stakers.IncreaseStakerCommissionRewards(_, _, _u)", "delegation.PayoutRewards(_, _d, _)", "bundles.SetFinalizedBundle(_f)")
							charged, inflation := "funders.ChargeFundersOfPool("+o.pool+", pool.ModuleName).val", "pool.ChargeInflationPool("+o.pool+").val"
							s.record(0, plus(m, "FundersPayout", strOfCoins(charged), "InflationPayout", inflation,
								"RewardTreasury", strOfCoins("_t"), "RewardUploader", strOfCoins("_u"), "RewardDelegation", strOfCoins("_d"), "Id", "_f.Id"))
							s.record(0, vd)
						case r.didIn(s.state(), "bundles.GetVoteDistribution", nil) || o.root != "bundles.EndBlock" || r.same(s.state(), o.vd()+".Status", r.e.in.path(s.arg(0), []string{"Status"}), s.b.copy()):
							s.record(0, plus(m, "FundersPayout", `""`, "RewardTotal", `""`))
							s.record(0, vd)
							s.leadsTo("bundles.SetBundleProposal(rec(\"StorageId\", \"\"))")
						default:
							s.record(0, plus(m, "Status", "bundles.BUNDLE_STATUS_DISABLED", "FundersPayout", `""`, "RewardTotal", `""`))
							s.leadsTo("bundles.SetBundleProposal(rec(\"StorageId\", \"\"))")
						}
					}
					for _, s := range r.some("bundles.SetFinalizedBundle(_f)") {
						s.leadsTo("emit.EventBundleFinalized(rec(\"Id\", _f.Id))")
					}
					for _, s := range r.some("bundles.SetBundleProposal(_b)") {
						s.with([]string{open, "_b.StorageId != " + o.bp() + ".StorageId"}, "emit.EventBundleFinalized(_)")
					}
				}
			})
			c.sec("who reports", func() { reporters(c) })
			c.sec("old parameters", func() {
				for _, m := range strings.Fields("bundles delegation funders global pool stakers") {
					unshared(c, c.fnNamed(m+".UpdateParams"))
				}
			})
		})
}

// reporting: the entries that report each event.
var reporting = map[string]string{
	"bundles.EventBundleFinalized":        "bundles.EndBlock bundles.SkipUploaderRole bundles.SubmitBundleProposal",
	"bundles.EventBundleProposed":         "bundles.SubmitBundleProposal",
	"bundles.EventBundleVote":             "bundles.SubmitBundleProposal bundles.VoteBundleProposal",
	"bundles.EventClaimedUploaderRole":    "bundles.ClaimUploaderRole",
	"bundles.EventPointIncreased":         "bundles.EndBlock bundles.SkipUploaderRole bundles.SubmitBundleProposal",
	"bundles.EventPointsReset":            "bundles.SkipUploaderRole bundles.SubmitBundleProposal bundles.VoteBundleProposal",
	"bundles.EventSkippedUploaderRole":    "bundles.SkipUploaderRole",
	"bundles.EventUpdateParams":           "bundles.UpdateParams",
	"delegation.EventDelegate":            "delegation.Delegate",
	"delegation.EventRedelegate":          "delegation.Redelegate",
	"delegation.EventSlash":               "bundles.EndBlock bundles.SkipUploaderRole bundles.SubmitBundleProposal",
	"delegation.EventStartUndelegation":   "delegation.Undelegate",
	"delegation.EventUndelegate":          "delegation.BeginBlock",
	"delegation.EventUpdateParams":        "delegation.UpdateParams",
	"delegation.EventWithdrawRewards":     "delegation.BeginBlock delegation.Delegate delegation.Redelegate delegation.WithdrawRewards",
	"funders.EventCreateFunder":           "funders.CreateFunder",
	"funders.EventDefundPool":             "funders.DefundPool funders.FundPool",
	"funders.EventFundPool":               "funders.FundPool",
	"funders.EventPoolOutOfFunds":         "bundles.EndBlock bundles.SkipUploaderRole bundles.SubmitBundleProposal",
	"funders.EventUpdateFunder":           "funders.UpdateFunder",
	"funders.EventUpdateParams":           "funders.UpdateParams",
	"global.EventUpdateParams":            "global.UpdateParams",
	"pool.EventCreatePool":                "pool.CreatePool",
	"pool.EventPoolDisabled":              "pool.DisablePool",
	"pool.EventPoolEnabled":               "pool.EnablePool",
	"pool.EventPoolUpdated":               "pool.UpdatePool",
	"pool.EventRuntimeUpgradeCancelled":   "pool.CancelRuntimeUpgrade",
	"pool.EventRuntimeUpgradeScheduled":   "pool.ScheduleRuntimeUpgrade",
	"pool.EventUpdateParams":              "pool.UpdateParams",
	"stakers.EventClaimCommissionRewards": "stakers.ClaimCommissionRewards",
	"stakers.EventCreateStaker":           "stakers.CreateStaker",
	"stakers.EventJoinPool":               "stakers.JoinPool",
	"stakers.EventLeavePool":              "bundles.EndBlock bundles.SkipUploaderRole bundles.SubmitBundleProposal pool.DisablePool stakers.BeginBlock stakers.JoinPool",
	"stakers.EventUpdateCommission":       "stakers.BeginBlock",
	"stakers.EventUpdateMetadata":         "stakers.UpdateMetadata",
	"stakers.EventUpdateParams":           "stakers.UpdateParams",
	"team.EventClaimAuthorityRewards":     "team.ClaimAuthorityRewards",
	"team.EventClaimInflationRewards":     "team.ClaimAccountRewards",
	"team.EventClaimedUnlocked":           "team.ClaimUnlocked",
	"team.EventClawback":                  "team.Clawback",
	"team.EventCreateTeamVestingAccount":  "team.CreateTeamVestingAccount",
}

// eventType: the event built there.
func eventType(t types.Type) string {
	p, ok := t.(*types.Pointer)
	if !ok {
		return ""
	}
	n, ok := p.Elem().(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) || !strings.HasPrefix(n.Obj().Name(), "Event") {
		return ""
	}
	return moduleOf(n.Obj().Pkg().Path()) + "." + n.Obj().Name()
}

func reporters(c *Ctx) {
	at := map[string][]*ssa.Function{}
	for _, f := range c.pr.Funcs {
		if isPB(c.pr, f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, x := range b.Instrs {
				if mi, ok := x.(*ssa.MakeInterface); ok {
					if n := eventType(mi.X.Type()); n != "" {
						at[n] = append(at[n], f)
					}
				}
			}
		}
	}
	var names []string
	for n := range at {
		names = append(names, n)
	}
	sort.Strings(names)
	silent := map[string]bool{}
	for _, e := range c.entries() {
		if e.kind == "msg" {
			silent[e.name] = true
		}
	}
	for _, e := range c.entries() {
		if e.kind == "upgrade" {
			continue
		}
		reach := c.su.reach(e.fn)
		for _, n := range names {
			var hit *ssa.Function
			for _, f := range at[n] {
				if _, ok := reach[f]; ok {
					hit = f
				}
			}
			if hit == nil {
				continue
			}
			delete(silent, e.name)
			ok := false
			for _, a := range strings.Fields(reporting[n]) {
				ok = ok || a == e.name
			}
			c.funcs[e.fn] = true
			c.check(ok, e.name+" reports "+n, hit.Pos(), "%s can emit %s, which reports something else (%s)", e.name, n, pathTo(reach, hit))
		}
	}
	for _, e := range c.entries() {
		if e.kind == "msg" {
			// a leave and a commission change are reported by the block step that carries them out
			c.check(!silent[e.name] || e.name == "stakers.LeavePool" || e.name == "stakers.UpdateCommission", e.name+" reports", e.fn.Pos(), "%s emits no event", e.name)
		}
	}
	for n := range reporting {
		c.check(len(at[n]) > 0, n+" is emitted", 0, "nothing emits %s", n)
	}
}

// unshared: the parameters reported as old ones do not share lists with the copy
// the payload is decoded into.
func unshared(c *Ctx, f *ssa.Function) {
	var into, old ssa.Value
	for _, b := range f.Blocks {
		for _, x := range b.Instrs {
			switch y := x.(type) {
			case *ssa.Call:
				if g := y.Call.StaticCallee(); g != nil && g.Name() == "Unmarshal" && len(y.Call.Args) == 2 {
					if mi, ok := y.Call.Args[1].(*ssa.MakeInterface); ok {
						into = mi.X
					}
				}
			case *ssa.Store:
				if fa, ok := y.Addr.(*ssa.FieldAddr); ok && fieldName(fa) == "OldParams" {
					old = y.Val
				}
			}
		}
	}
	if into == nil || old == nil {
		return
	}
	a, b := origins(into, 0), origins(old, 0)
	same := false
	for v := range a {
		same = same || b[v]
	}
	c.check(!same || !holdsLists(old.Type(), 0), shortName(f)+": old parameters", f.Pos(), "%s: the payload is decoded over lists that the event still shows as the old parameters", shortName(f))
}

// origins: the calls a value was copied from.
func origins(v ssa.Value, depth int) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	if depth > 8 {
		return out
	}
	add := func(x ssa.Value) {
		for k := range origins(x, depth+1) {
			out[k] = true
		}
	}
	switch x := v.(type) {
	case *ssa.Call:
		out[x] = true
	case *ssa.UnOp:
		add(x.X)
	case *ssa.Phi:
		for _, e := range x.Edges {
			add(e)
		}
	case *ssa.Alloc:
		for _, r := range *x.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == x {
				add(st.Val)
			}
		}
	}
	return out
}

// holdsLists: a copy of such a value shares memory that decoding writes to.
func holdsLists(t types.Type, depth int) bool {
	if depth > 6 {
		return true
	}
	if n, ok := t.(*types.Named); ok {
		ms := types.NewMethodSet(types.NewPointer(n))
		if ms.Lookup(n.Obj().Pkg(), "UnmarshalJSON") != nil {
			return false
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Pointer:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holdsLists(u.Field(i).Type(), depth+1) {
				return true
			}
		}
	}
	return false
}

// affects: the list of affected pools in the event.
func affects(s *S, want string) {
	r := s.root
	got := s.state().simp(r.e.in.path(s.arg(0), []string{"AffectedPools"}))
	b := s.b.copy()
	if !r.c.check(r.e.match(r.e.T("fold(_z, _s)", nil), got, b), r.name+": affected pools", s.Pos, "%s: the affected pools are %s", r.name, clip(got.String())) {
		return
	}
	z := r.same(s.state(), "len(_z) == 0", r.e.in.True, b) || r.e.match(r.e.T("slice(_, _l, _l)", nil), b["_z"], b)
	r.c.check(z, r.name+": affected pools from none", s.Pos, "%s: the affected pools start with %s", r.name, clip(b["_z"].String()))
	r.c.check(r.same(s.state(), want, b["_s"], b), r.name+": affected pools, each", s.Pos, "%s: the affected pools take %s, expected %s", r.name, clip(b["_s"].String()), want)
}
