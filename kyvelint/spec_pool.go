package main

import "fmt"

// ---- x/pool: configuration and runtime upgrades

func init() {
	reg("C28", "The pool handlers and the functions that write pool records are interpreted on all paths: creation appends one record with exactly the given fields under the next id and opens its funding list; an update changes each field only where the payload has it; the flag is changed only from its opposite, and disabling removes exactly the members; the call graph shows that nothing else writes pool records and that the id counter is only ever advanced.",
		func(c *Ctx) {
			gov := "recv.authority == msg.Authority"
			P := "pool.GetPool(msg.Id)"
			c.sec("create", func() {
				r := c.root("pool.CreatePool", keep("pool.AppendPool", "pool.EnsurePoolAccount", "funders.CreateFundingState"))
				r.effects("pool.AppendPool", "pool.EnsurePoolAccount", "funders.CreateFundingState")
				r.exact([]string{gov, "json.Valid(msg.Binaries)"})
				for _, s := range r.only("pool.AppendPool", "pool.AppendPool(_p)") {
					s.record(0, map[string]string{
						"Name": "msg.Name", "Runtime": "msg.Runtime", "Logo": "msg.Logo", "Config": "msg.Config", "StartKey": "msg.StartKey", "EndKey": "msg.EndKey",
						"UploadInterval": "msg.UploadInterval", "InflationShareWeight": "msg.InflationShareWeight", "MinDelegation": "msg.MinDelegation", "MaxBundleSize": "msg.MaxBundleSize",
						"CurrentStorageProviderId": "msg.StorageProviderId", "CurrentCompressionId": "msg.CompressionId",
						"UpgradePlan": "zero(\"pool.UpgradePlan\")", "Disabled": "false", "CurrentKey": "\"\"", "CurrentSummary": "\"\"", "CurrentIndex": "0", "TotalBundles": "0",
						"Protocol": "upd(upd(upd(zero(\"pool.Protocol\"), \"Version\", msg.Version), \"Binaries\", msg.Binaries), \"LastUpgrade\", now)",
					})
				}
				id := "pool.AppendPool(_)"
				r.only("funders.CreateFundingState", "funders.CreateFundingState("+id+")")
				r.only("pool.EnsurePoolAccount", "pool.EnsurePoolAccount("+id+")")
				for _, n := range []string{"pool.AppendPool", "funders.CreateFundingState", "pool.EnsurePoolAccount"} {
					r.count(1, n)
				}
				r.does(nil, "pool.AppendPool", "funders.CreateFundingState", "pool.EnsurePoolAccount")
				f := c.root("funders.CreateFundingState")
				f.effects("funders.SetFundingState")
				for _, s := range f.only("funders.SetFundingState", "funders.SetFundingState(_f)") {
					s.record(0, map[string]string{"PoolId": "$1"})
				}
				f.does(nil, "funders.SetFundingState")
			})
			c.sec("fresh id", func() {
				r := c.root("pool.AppendPool", keep("pool.SetPoolCount"))
				n := "pool.GetPoolCount()"
				write, rec := "store.Set", "store.Set(_s, key("+n+"), marshal(_v))"
				if len(r.find("pool.SetPool")) > 0 { // which stores it under its id, see C31 and C32
					write, rec = "pool.SetPool", "pool.SetPool(_v)"
				}
				for _, s := range r.only(write, rec) {
					s.is("upd($1, \"Id\", "+n+")", s.b["_v"])
				}
				for _, s := range r.only("pool.SetPoolCount", "pool.SetPoolCount(_n)") {
					s.is("1 + "+n, s.b["_n"])
				}
				r.count(1, write)
				r.count(1, "pool.SetPoolCount")
				r.does(nil, write, "pool.SetPoolCount")
				r.returns(0, nil, n)
				onlyCallers(c, "", []string{"pool.AppendPool"}, []string{"pool.CreatePool"})
				onlyCallers(c, "", []string{"pool.SetPoolCount"}, []string{"pool.CreatePool", "genesis", "upgrade"})
				onlyCallers(c, "", []string{"pool.RemovePool"}, nil)
			})
			c.sec("update", func() {
				r := c.root("pool.UpdatePool")
				r.effects("pool.SetPool")
				in := "json.Unmarshal(zero(\"pool.PoolUpdate\"), msg.Payload)"
				r.exact([]string{gov, P + ".ok", in + ".err == nil"})
				fields := map[string]string{}
				for to, from := range map[string]string{"Name": "", "Runtime": "", "Logo": "", "Config": "", "UploadInterval": "", "InflationShareWeight": "", "MinDelegation": "", "MaxBundleSize": "", "EndKey": "", "CurrentStorageProviderId": "StorageProviderId", "CurrentCompressionId": "CompressionId"} {
					if from == "" {
						from = to
					}
					fields[to] = fmt.Sprintf("ite(%s.%s == nil, %s.val.%s, %s.%s)", in, from, P, to, in, from)
				}
				for _, s := range r.only("pool.SetPool", "pool.SetPool(_p)") {
					s.changes(0, P+".val", fields)
				}
				r.count(1, "pool.SetPool")
				r.does(nil, "pool.SetPool")
			})
			c.sec("disable", func() {
				r := c.root("pool.DisablePool", keep("stakers.LeavePool"))
				r.effects("pool.SetPool", "stakers.LeavePool", "util.TransferFromAddressToTreasury")
				r.exact([]string{gov, P + ".ok", "!" + P + ".val.Disabled"}, "util.TransferFromAddressToTreasury")
				for _, s := range r.only("pool.SetPool", "pool.SetPool(_p)") {
					s.changes(0, P+".val", map[string]string{"Disabled": "true"})
				}
				r.count(1, "pool.SetPool")
				r.does(nil, "pool.SetPool")
				members := "stakers.GetAllStakerAddressesOfPool(msg.Id)"
				leave := "stakers.LeavePool(elem(" + members + "), msg.Id)"
				r.only("stakers.LeavePool", leave)
				r.everyElem(leave, members)
				r.only("util.TransferFromAddressToTreasury", "util.TransferFromAddressToTreasury(dyn(\"AccAddress.String\", _a), bank.GetBalance(_a, global.Denom).Amount)")
				r.count(1, "util.TransferFromAddressToTreasury")
			})
			c.sec("enable", func() {
				r := c.root("pool.EnablePool")
				r.effects("pool.SetPool")
				r.exact([]string{gov, P + ".ok", P + ".val.Disabled"})
				for _, s := range r.only("pool.SetPool", "pool.SetPool(_p)") {
					s.changes(0, P+".val", map[string]string{"Disabled": "false"})
				}
				r.count(1, "pool.SetPool")
				r.does(nil, "pool.SetPool")
			})
			c.sec("other writes", func() {
				onlyCallers(c, "", []string{"pool.SetPool"}, []string{"pool.UpdatePool", "pool.DisablePool", "pool.EnablePool", "pool.CreatePool", "pool.ScheduleRuntimeUpgrade", "pool.CancelRuntimeUpgrade", "pool.EndBlock", "bundles.SubmitBundleProposal", "bundles.SkipUploaderRole", "bundles.EndBlock", "genesis", "upgrade"})
				r := c.root("pool.IncrementBundleInformation")
				Q := "pool.GetPool($1)"
				r.effects("pool.SetPool")
				for _, s := range r.only("pool.SetPool", "pool.SetPool(_p)") {
					s.changes(0, Q+".val", map[string]string{"CurrentIndex": "$2", "TotalBundles": "1 + " + Q + ".val.TotalBundles", "CurrentKey": "$3", "CurrentSummary": "$4"})
				}
				r.does([]string{Q + ".ok"}, "pool.SetPool")
				r.doesNot([]string{"!" + Q + ".ok"}, "pool.SetPool")
			})
		})

	reg("C29", "The scheduling and cancelling handlers and the end block step are interpreted on all paths over an arbitrary list of pools: the plan is set on exactly the pools of the runtime without a plan, cleared on exactly those with one, and the step applies and removes plans exactly at their times and touches nothing else of the record.",
		func(c *Ctx) {
			gov := "recv.authority == msg.Authority"
			pools := "pool.GetAllPools()"
			e := "elem(" + pools + ")"
			at := e + ".UpgradePlan.ScheduledAt"
			mine := "msg.Runtime == " + e + ".Runtime"
			c.sec("schedule", func() {
				r := c.root("pool.ScheduleRuntimeUpgrade")
				r.effects("pool.SetPool")
				r.exact([]string{gov, "msg.Version != \"\"", "msg.Binaries != \"\""})
				for _, s := range r.only("pool.SetPool", "pool.SetPool(_p)") {
					s.changes(0, e, map[string]string{"UpgradePlan": "upd(upd(upd(upd(zero(\"pool.UpgradePlan\"), \"Version\", msg.Version), \"Binaries\", msg.Binaries), \"Duration\", msg.Duration), \"ScheduledAt\", max(msg.ScheduledAt, now))"})
					s.guard(mine, at+" == 0")
					s.onlyIf(gov, mine, at+" == 0", "msg.Version != \"\"", "msg.Binaries != \"\"")
				}
				r.count(1, "pool.SetPool")
				r.everyElemWhen([]string{mine, at + " == 0"}, "pool.SetPool(_)", pools)
			})
			c.sec("cancel", func() {
				r := c.root("pool.CancelRuntimeUpgrade")
				r.effects("pool.SetPool")
				r.exact([]string{gov})
				for _, s := range r.only("pool.SetPool", "pool.SetPool(_p)") {
					s.changes(0, e, map[string]string{"UpgradePlan": "zero(\"pool.UpgradePlan\")"})
					s.guard(mine, at+" != 0")
					s.onlyIf(gov, mine, at+" != 0")
				}
				r.count(1, "pool.SetPool")
				r.everyElemWhen([]string{mine, at + " != 0"}, "pool.SetPool(_)", pools)
			})
			c.sec("apply", func() {
				r := c.root("pool.HandlePoolUpgrades")
				r.effects("pool.SetPool")
				for _, s := range r.only("pool.SetPool", "pool.SetPool(_p)") {
					s.guard(at+" != 0", at+" <= now")
					s.onlyIf(at+" != 0", at+" <= now")
					done := e + ".Protocol.Version == " + e + ".UpgradePlan.Version && " + e + ".Protocol.Binaries == " + e + ".UpgradePlan.Binaries"
					s.changes(0, e, map[string]string{
						"Protocol":             "_",
						"Protocol.Version":     e + ".UpgradePlan.Version",
						"Protocol.Binaries":    e + ".UpgradePlan.Binaries",
						"Protocol.LastUpgrade": "ite(" + done + ", " + e + ".Protocol.LastUpgrade, " + at + ")",
						"UpgradePlan":          "ite(now < " + at + " + " + e + ".UpgradePlan.Duration, " + e + ".UpgradePlan, zero(\"pool.UpgradePlan\"))",
					})
				}
				r.count(1, "pool.SetPool")
				r.everyElemWhen([]string{at + " != 0", at + " <= now"}, "pool.SetPool(_)", pools)
				onlyCallers(c, "", []string{"pool.HandlePoolUpgrades"}, []string{"pool.EndBlock"})
				c.root("pool.EndBlock", keep("pool.HandlePoolUpgrades")).does(nil, "pool.HandlePoolUpgrades")
			})
			c.sec("no work", func() {
				p := "pool.GetPoolWithError(msg.PoolId)"
				for _, n := range []string{"SubmitBundleProposal", "VoteBundleProposal", "ClaimUploaderRole"} {
					c.bundlesRoot("bundles."+n).always(p+".err == nil", p+".val.UpgradePlan.ScheduledAt == 0 || now < "+p+".val.UpgradePlan.ScheduledAt")
				}
			})
		})
}
