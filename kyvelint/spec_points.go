package main

// ---- inactivity points

func init() {
	reg("C27", "The counting functions are compared with their definitions; every place on the round paths that adds a point must concern a member that did not vote on an open proposal or the late uploader, and exactly when the count returned there reaches the maximum must the timeout slash and the removal of the same staker from the same pool follow; every path of a successful vote, submission or skip clears the sender's points, and no other entry point reaches either function.",
		func(c *Ctx) {
			c.sec("counting", func() {
				for fn, want := range map[string]string{"stakers.IncrementPoints": "stakers.GetValaccount($1, $2).val.Points + 1", "stakers.ResetPoints": "0"} {
					r := c.root(fn)
					r.effects("stakers.SetValaccount")
					for _, s := range r.only("stakers.SetValaccount", "stakers.SetValaccount(_v)") {
						s.changes(0, "stakers.GetValaccount($1, $2).val", map[string]string{"Points": want})
					}
					found := []string{"stakers.GetValaccount($1, $2).ok"}
					r.does(found, "stakers.SetValaccount")
					r.doesNot([]string{"!stakers.GetValaccount($1, $2).ok"}, "stakers.SetValaccount")
					r.count(1, "stakers.SetValaccount")
					if fn == "stakers.IncrementPoints" {
						r.returns(0, found, want)
					}
				}
				onlyCallers(c, "", []string{"stakers.IncrementPoints"}, []string{"bundles.SubmitBundleProposal", "bundles.SkipUploaderRole", "bundles.EndBlock"})
				onlyCallers(c, "", []string{"stakers.ResetPoints"}, []string{"bundles.SubmitBundleProposal", "bundles.SkipUploaderRole", "bundles.VoteBundleProposal"})
			})
			c.sec("missed duties", func() {
				for _, o := range c.rounds() {
					for _, s := range o.r.only("stakers.IncrementPoints", "stakers.IncrementPoints(_p, _x)") {
						s.guard("_p == " + o.pool)
						is := func(w string) bool { return o.r.same(s.state(), w, s.b["_x"], s.b.copy()) }
						switch {
						case is("elem(" + o.mem() + ")"):
							s.guard(o.bp() + ".StorageId != \"\"")
							for _, l := range []string{"VotersValid", "VotersInvalid", "VotersAbstain"} {
								s.guard("!contains(" + o.bp() + "." + l + ", _x)")
							}
						case o.root == "bundles.EndBlock" && is(o.bp()+".NextUploader"):
							s.guard("stakers.DoesValaccountExist(_p, _x)", "now >= "+o.bp()+".UpdatedAt + elem(pool.GetAllPools()).UploadInterval + bundles.GetParams().UploadTimeout")
						default:
							c.check(false, o.root+": point", s.Pos, "%s: %s counts against neither a member without a vote nor the late uploader", o.root, clip(s.call.String()))
						}
					}
				}
			})
			c.sec("every missed duty", func() {
				for _, o := range c.rounds() {
					el := "elem(" + o.mem() + ")"
					conds := []string{o.bp() + ".StorageId != \"\""}
					for _, l := range []string{"VotersValid", "VotersInvalid", "VotersAbstain"} {
						conds = append(conds, "!contains("+o.bp()+"."+l+", "+el+")")
					}
					point := "stakers.IncrementPoints(" + o.pool + ", " + el + ")"
					o.r.fullLoop(o.mem(), point)
					switch o.root {
					case "bundles.EndBlock":
						p := "pool.GetPoolWithError(" + o.pool + ")"
						interval := "now >= " + o.bp() + ".UpdatedAt + elem(pool.GetAllPools()).UploadInterval"
						timeout := interval + " + bundles.GetParams().UploadTimeout"
						covered := map[string]bool{}
						for _, s := range o.r.some(point) {
							for _, st := range []string{statusNoQuorum, statusValid, statusInvalid} {
								if !o.r.holdsIn(s.state(), "!("+o.is(st)+")", s.b.copy()) {
									covered[st] = true
								}
							}
							case1 := []string{o.is(statusNoQuorum)}
							if !o.r.holdsIn(s.state(), o.is(statusNoQuorum), s.b.copy()) {
								case1 = []string{timeout, "!(" + o.is(statusNoQuorum) + ")"}
								for _, st := range []string{statusValid, statusInvalid} {
									if o.r.holdsIn(s.state(), o.is(st), s.b.copy()) {
										case1 = append(case1, o.is(st))
									}
								}
							}
							s.onlyIf(append(append(case1, conds...), p+".err == nil", runs(o.pool), interval)...)
						}
						for _, st := range []string{statusNoQuorum, statusValid, statusInvalid} {
							c.check(covered[st], "end of a round, "+st, o.r.fn.Pos(), "when the end block closes a round with the status %s, nobody gets a point for not voting", st)
						}
						continue
					case "bundles.SubmitBundleProposal":
						conds = append(conds, o.is(statusValid)+" || "+o.is(statusInvalid))
					}
					for _, s := range o.r.some("stakers.ResetPoints(msg.PoolId, msg.Staker)") {
						s.leadsToIf(conds, point)
					}
				}
			})
			c.sec("limit", func() {
				for _, o := range c.rounds() {
					slash := "delegation.SlashDelegators(_p, _x, delegation.SLASH_TYPE_TIMEOUT)"
					reached := "stakers.IncrementPoints(_p, _x) >= bundles.GetParams().MaxPoints"
					slashes := o.r.some(slash)
					for _, s := range slashes {
						s.after("stakers.IncrementPoints(_p, _x)")
						s.guard(reached)
						s.leadsTo("stakers.LeavePool(_x, _p)")
					}
					for _, s := range o.r.some("stakers.IncrementPoints(_p, _x)") {
						s.leadsToIf([]string{reached}, slash)
					}
				}
			})
			c.sec("fraction", func() {
				r := c.root("delegation.SlashDelegators", keep("delegation.f1Slash"))
				r.does([]string{"delegation.DoesDelegationDataExist($2)", "$3 == delegation.SLASH_TYPE_TIMEOUT"}, "delegation.f1Slash($2, "+dlP+".TimeoutSlash)")
			})
			c.sec("clearing", func() {
				for _, n := range []string{"bundles.SubmitBundleProposal", "bundles.SkipUploaderRole", "bundles.VoteBundleProposal"} {
					r := c.root(n)
					if n != "bundles.VoteBundleProposal" {
						r = c.bundlesRoot(n)
					}
					r.only("stakers.ResetPoints", "stakers.ResetPoints(msg.PoolId, msg.Staker)")
					r.does(nil, "stakers.ResetPoints(msg.PoolId, msg.Staker)")
				}
			})
		})
}

// ---- inflation

func init() {
	reg("C30", "The block step that distributes the minted tokens is interpreted symbolically over a list of pools: every transfer goes from the collected fees to the account of the pool at hand, that pool can run, the amount is the pool's weight over the summed weight of the pools that can run, times the protocol's share, rounded down; what is left is the protocol's share minus the sum of exactly these amounts and is transferred outside of any loop.",
		func(c *Ctx) {
			r := c.root("bundles.BeginBlock")
			P := "elem(pool.GetAllPools())"
			can := "pool.GetPoolWithError(" + P + ".Id).err == nil && " + runs(P+".Id")
			acct := "AccAddress.String(types.NewModuleAddress(fmt.Sprintf(\"%s/%d\", list(pool.ModuleName, " + P + ".Id))))"
			share := "trunc((dyn(\"Minter.BlockProvision\", dyn(\"Item.Get\", _, ctx).val, dyn(\"Item.Get\", _, ctx).val).Amount - team.GetTeamBlockProvision()) * pool.GetParams().ProtocolInflationShare)"
			total := "fold(0, ite(" + can + ", acc + " + P + ".InflationShareWeight, acc))"
			part := "trunc(_s * dquo(" + P + ".InflationShareWeight, " + total + "))"
			rest := "_s - fold(0, ite(" + can + ", acc + " + part + ", acc))"
			// the transfers, by the amount
			transfers := func(amt string) (out []*S) {
				for _, s := range r.some("util.TransferFromModuleToAddress(_m, _a, _v)") {
					walkTerms(s.b["_v"], func(t *Term) {
						if s.b["_s"] == nil && r.e.match(r.e.T(share, nil), t, binds{}) {
							s.b["_s"] = t
						}
					})
					if s.b["_s"] != nil && r.same(s.state(), amt, s.b["_v"], s.b.copy()) {
						out = append(out, s)
					}
				}
				return out
			}
			c.sec("shares", func() {
				parts, rests := transfers(part), transfers(rest)
				all := r.some("util.TransferFromModuleToAddress")
				c.check(len(parts) == 1 && len(rests) <= 1 && len(all) == len(parts)+len(rests), "transfers", r.fn.Pos(), "%d transfers are made in the block step, %d of a pool's share and %d of the remainder", len(all), len(parts), len(rests))
				for _, s := range append(parts, rests...) {
					s.guard("_m == \"fee_collector\"", "_a == "+acct)
				}
				for _, s := range parts {
					s.guard(can)
					s.onlyIf(can, "_s != 0", total+" != 0")
				}
				r.fullLoop("pool.GetAllPools()", "util.TransferFromModuleToAddress")
				r.effects("util.TransferFromModuleToAddress", "team.GetTeamBlockProvision", "bundles.SetFinalizedBundleIndexes")
			})
			c.sec("remainder", func() {
				for _, s := range transfers(rest) {
					c.check(r.holdsIn(s.state(), can, s.b.copy()), "only a pool that can run", s.Pos, "the remainder of the inflation is also paid to pools that cannot run")
					c.check(len(s.Loops) == 0, "only one pool", s.Pos, "the remainder of the inflation is paid to every pool the loop comes to")
				}
			})
		})
}
