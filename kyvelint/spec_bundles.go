package main

import "strings"

// ---- x/bundles: rounds, votes, payouts, uploader selection

const (
	statusValid    = "bundles.BUNDLE_STATUS_VALID"
	statusInvalid  = "bundles.BUNDLE_STATUS_INVALID"
	statusNoQuorum = "bundles.BUNDLE_STATUS_NO_QUORUM"
)

// round: an entry that can settle the open proposal of a pool.
type round struct {
	root string
	pool string // the pool's id
	r    *Root
}

func (o round) bp() string         { return "bundles.GetBundleProposal(" + o.pool + ").val" }
func (o round) vd() string         { return "bundles.GetVoteDistribution(" + o.pool + ")" }
func (o round) get() string        { return "pool.GetPool(" + o.pool + ").val" }
func (o round) mem() string        { return "stakers.GetAllStakerAddressesOfPool(" + o.pool + ")" }
func (o round) is(s string) string { return o.vd() + ".Status == " + s }

func (c *Ctx) bundlesRoot(name string) *Root {
	return c.rootFn(c.fnNamed(name), name, "+votes", keep("bundles.GetVoteDistribution", "bundles.LoadRoundRobinValidatorSet", "bundles.RoundRobinValidatorSet.NextProposer"))
}

func (c *Ctx) rounds() []round {
	return []round{
		{"bundles.SubmitBundleProposal", "msg.PoolId", c.bundlesRoot("bundles.SubmitBundleProposal")},
		{"bundles.SkipUploaderRole", "msg.PoolId", c.bundlesRoot("bundles.SkipUploaderRole")},
		{"bundles.EndBlock", "elem(pool.GetAllPools()).Id", c.bundlesRoot("bundles.EndBlock")},
	}
}

// voteDistribution: the published definition of a round's outcome.
func voteDistribution(c *Ctx) {
	r := c.root("bundles.GetVoteDistribution")
	bp := "bundles.GetBundleProposal($1).val"
	power := func(list string) string {
		return "fold(0, ite(stakers.DoesValaccountExist($1, elem(" + bp + "." + list + ")), acc + delegation.GetDelegationAmount(elem(" + bp + "." + list + ")), acc))"
	}
	found := []string{"bundles.GetBundleProposal($1).ok"}
	r.returnsField(0, "Valid", found, power("VotersValid"))
	r.returnsField(0, "Invalid", found, power("VotersInvalid"))
	r.returnsField(0, "Abstain", found, power("VotersAbstain"))
	total := "fold(0, acc + delegation.GetDelegationAmount(elem(stakers.GetAllStakerAddressesOfPool($1))))"
	r.returnsField(0, "Total", found, total)
	T, V, I := total, power("VotersValid"), power("VotersInvalid")
	r.returnsField(0, "Status", append(found, T+" == 0"), statusNoQuorum)
	r.returnsField(0, "Status", append(found, T+" != 0", V+" * 2 > "+T), statusValid)
	r.returnsField(0, "Status", append(found, T+" != 0", "!("+V+" * 2 > "+T+")", I+" * 2 >= "+T), statusInvalid)
	r.returnsField(0, "Status", append(found, T+" != 0", "!("+V+" * 2 > "+T+")", "!("+I+" * 2 >= "+T+")"), statusNoQuorum)
}

// leadsTo: once the site is reached, so is a site matching the pattern: nothing
// but what is already known there stands between the two.
func (s *S) leadsTo(pats ...string) *S { return s.leadsToIf(nil, pats...) }

// leadsToIf: the same, once the conditions hold as well.
func (s *S) leadsToIf(conds []string, pats ...string) *S {
	r := s.root
	at := s.state()
	if len(conds) > 0 {
		at = at.clone()
		r.assumeAll(at, conds, s.b.copy())
	}
	for _, p := range pats {
		t := r.e.T(p, s.b)
		ok, why := s.reaches(at, patName(p), func(q *S) bool { return r.e.match(t, q.call, s.b.copy()) })
		r.c.check(ok, r.name+": "+s.Name+" leads to "+p, s.Pos, "%s: %s does not always lead to %s: %s", r.name, clip(s.call.String()), p, why)
	}
	return s
}

// reaches: from the state at the site every path that does not fail gets to a
// site of that name which satisfies the predicate.
func (s *S) reaches(at *State, name string, is func(q *S) bool) (bool, string) {
	r := s.root
	ok, why := false, "it is not called afterwards"
	rest, any := at.clone(), false
	for _, q := range r.sites {
		if ok || q.Name != name || !is(q) {
			continue
		}
		if !hasDid(q.state(), s.call) && !r.didCall(q.state(), s.call) && !r.didGiven(q.state(), s.call, at) {
			continue
		}
		ok, any = true, true
		cond := r.e.in.True
		for _, f := range q.state().facts {
			if r.incidental(at, f) {
				continue
			}
			ok = false
			cond = r.e.in.and(cond, f)
			why = "only if " + clip(f.String())
		}
		rest.assume(r.e.in.not(cond))
	}
	return ok || any && rest.dead, why // one of several sites in every case
}

// incidental: the fact is no further condition: it is known in the state, or
// says that nothing failed or that a loop came to its end.
func (r *Root) incidental(st *State, f *Term) bool {
	switch {
	case f.Op == OpDid || st.fset[f] || noError(r, f) || loopEnd(f) || r.holdsT(st, f, nil):
		return true
	case f.Op == OpAnd || f.Op == OpOr:
		n := 0
		for _, a := range f.Args {
			if r.incidental(st, a) {
				n++
			}
		}
		return n == len(f.Args) || n > 0 && f.Op == OpOr
	}
	return false
}

// onlyIf: nothing but the conditions has to hold for the site to be reached
// (apart from calls that do not fail and loops that come to their end).
func (s *S) onlyIf(conds ...string) *S {
	r := s.root
	st := newState(r.e.in)
	r.assumeAll(st, conds, s.b.copy())
	bad := ""
	for _, f := range s.state().facts {
		if bad == "" && !r.incidental(st, f) {
			bad = f.String()
		}
	}
	r.c.check(bad == "", r.name+": "+s.Name+" if "+strings.Join(conds, " && "), s.Pos, "%s: %s happens only if also %s", r.name, clip(s.call.String()), clip(bad))
	return s
}

// effs: the sites with an effect.
func (r *Root) effs() []*S {
	var out []*S
	for _, s := range r.sites {
		if s.Eff && !strings.HasPrefix(s.Name, "emit.") {
			x := *s
			x.b = binds{}
			out = append(out, &x)
		}
	}
	return out
}

func hasDid(st *State, call *Term) bool {
	for _, f := range st.facts {
		if f.Op == OpDid && (f.Args[0] == call || st.simp(f.Args[0]) == call) {
			return true
		}
	}
	return false
}

// didGiven: the call was made before in every run of which the conditions in at
// hold.
func (r *Root) didGiven(st *State, call *Term, at *State) bool {
	for _, c := range st.cond {
		if c.a.Op != OpDid || c.a.Args[0] != call && st.simp(c.a.Args[0]) != call && at.simp(c.a.Args[0]) != call {
			continue
		}
		ok := true
		for _, y := range c.g {
			ok = ok && (at.fset[y] || r.holdsT(at, y, nil))
		}
		if ok {
			return true
		}
	}
	return false
}

// didCall: as hasDid, with the conditions under which the call was made holding.
func (r *Root) didCall(st *State, call *Term) bool {
	any := r.e.in.False
	for _, c := range st.cond {
		if c.a.Op != OpDid || c.a.Args[0] != call && st.simp(c.a.Args[0]) != call {
			continue
		}
		g := r.e.in.True
		for _, y := range c.g {
			g = r.e.in.and(g, y)
		}
		any = r.e.in.or(any, g)
	}
	return any != r.e.in.False && r.decide(st, any, 6)
}

// noError: the fact only says that a call returned no error (a failure undoes
// what was done before).
func noError(r *Root, f *Term) bool {
	return f.Op == OpEq && f.Args[1] == r.e.in.Nil && f.Args[0].Op == OpRes && f.Args[0].Name == "err"
}

// loopEnd: the fact only says that a loop has counted all it had to.
func loopEnd(f *Term) bool {
	if f.Op != OpLe && f.Op != OpNot && f.Op != OpLt {
		return false
	}
	return f.contains(func(y *Term) bool {
		if y.Op != OpCall || y.Name != "fold" || len(y.Args) < 2 || y.Args[0].Op != OpConst {
			return false
		}
		st := y.Args[1]
		if st.Op == OpIte && f.contains(func(z *Term) bool {
			return z.Op == OpCall && z.Name == "len" && z.Args[0].Op == OpCall && z.Args[0].Name == "fold" && len(z.Args[0].Args) == 2 && z.Args[0].Args[1].Op == OpIte && z.Args[0].Args[1].Args[0] == st.Args[0]
		}) { // the elements picked under the condition
			if st = st.Args[1]; st.Op == OpParam {
				st = y.Args[1].Args[2]
			}
		}
		return st.Op == OpBin && st.Name == "add" && len(st.Args) == 2 && st.contains(func(z *Term) bool { return z.Op == OpParam && z.Name == "acc" }) && (st.Args[0].Op == OpConst || st.Args[1].Op == OpConst)
	})
}

const anyStaker = "$9"

func init() {
	reg("C17", "The submit, skip and end-block paths are interpreted symbolically: every site that stores a finalised bundle must be under the condition that the vote power for the proposal exceeds half of the pool's total, must carry the open proposal's own fields, the pool's number of bundles as id and the pool's index and key range, and must be followed by the pool counters advancing by that bundle; the vote distribution function is compared with its definition over a symbolic voter list, and only one function may write the store of finalised bundles.",
		func(c *Ctx) {
			c.sec("majority", func() { voteDistribution(c) })
			c.sec("finalised record", func() {
				for _, o := range c.rounds() {
					for _, s := range o.r.some("bundles.SetFinalizedBundle(_f)") {
						s.guard(o.is(statusValid))
						m := map[string]string{
							"Id":                           o.get() + ".TotalBundles",
							"PoolId":                       o.pool,
							"FromIndex":                    o.get() + ".CurrentIndex",
							"ToIndex":                      o.get() + ".CurrentIndex + " + o.bp() + ".BundleSize",
							"FinalizedAt.Height":           "height",
							"FinalizedAt.Timestamp":        "now",
							"StakeSecurity.ValidVotePower": o.vd() + ".Valid",
							"StakeSecurity.TotalVotePower": o.vd() + ".Total",
						}
						for _, f := range strings.Fields("StorageId Uploader FromKey ToKey BundleSummary DataHash StorageProviderId CompressionId") {
							m[f] = o.bp() + "." + f
						}
						s.record(0, m)
						s.leadsTo("pool.IncrementBundleInformation(_, _, _, _)", "bundles.SetBundleProposal(_)")
					}
					for _, s := range o.r.some("pool.IncrementBundleInformation(_, _, _, _)") {
						s.after("bundles.SetFinalizedBundle(_)")
					}
					inc := "pool.IncrementBundleInformation(" + o.pool + ", " + o.get() + ".CurrentIndex + " + o.bp() + ".BundleSize, " + o.bp() + ".ToKey, " + o.bp() + ".BundleSummary)"
					o.r.only("pool.IncrementBundleInformation", inc)
				}
			})
			c.sec("counters", func() {
				r := c.root("pool.IncrementBundleInformation")
				r.effects("pool.SetPool")
				g := "pool.GetPool($1)"
				for _, s := range r.some("pool.SetPool(_p)") {
					s.changes(0, g+".val", map[string]string{"CurrentIndex": "$2", "CurrentKey": "$3", "CurrentSummary": "$4", "TotalBundles": g + ".val.TotalBundles + 1"})
				}
				r.does([]string{g + ".ok"}, "pool.SetPool(_)")
			})
			c.sec("stored once", func() {
				r := c.root("bundles.SetFinalizedBundle")
				n := 0
				for _, s := range r.find("store.Set") {
					if !strings.Contains(s.call.String(), "@bundles.FinalizedBundlePrefix") {
						continue
					}
					n++
					c.check(r.e.match(r.e.T("key($1.PoolId, $1.Id)", nil), s.arg(len(s.call.Args)-2), binds{}), "bundle key", s.Pos, "a finalised bundle is stored under %s, expected its pool and id", clip(s.arg(len(s.call.Args)-2).String()))
					c.check(s.storeVal("") == r.e.T("$1", nil), "bundle value", s.Pos, "a finalised bundle is stored as %s", clip(s.storeVal("").String()))
				}
				c.check(n == 1, "bundle write", r.fn.Pos(), "a finalised bundle is written %d times", n)
				onlyCallers(c, "", []string{"bundles.SetFinalizedBundle"}, []string{"bundles.SubmitBundleProposal", "bundles.SkipUploaderRole", "bundles.EndBlock", "genesis", "upgrade"})
				onlyCallers(c, "", []string{"pool.IncrementBundleInformation"}, []string{"bundles.SubmitBundleProposal", "bundles.SkipUploaderRole", "bundles.EndBlock"})
				for _, f := range c.pr.Funcs {
					if c.su.direct[f]&dWrite != 0 && c.su.writes[f]["bundles.FinalizedBundlePrefix"] {
						nm := shortName(f)
						c.check(nm == "bundles.SetFinalizedBundle" || strings.Contains(fnPkgPath(f), "/app/upgrades/"), nm+" writes finalised bundles", f.Pos(), "%s writes the store of finalised bundles", nm)
					}
				}
			})
		})

	reg("C18", "Every consequence site (payment, slash, point, removal, proposal write) on the three paths that settle a round is enumerated and must stand under the vote outcome it belongs to, with the subject taken from the list it belongs to; loops over voters and members must run over all elements; the distribution of the outcome itself is compared with its definition.",
		func(c *Ctx) {
			c.sec("outcome", func() { voteDistribution(c) })
			c.sec("valid", func() {
				pays := []string{"funders.ChargeFundersOfPool", "pool.ChargeInflationPool", "distribution.FundCommunityPool", "stakers.IncreaseStakerCommissionRewards", "delegation.PayoutRewards"}
				for _, o := range c.rounds() {
					for _, p := range pays {
						for _, s := range o.r.some(p) {
							s.guard(o.is(statusValid), o.bp()+".StorageId != \"\"")
							s.leadsTo("bundles.SetFinalizedBundle(_)")
						}
					}
					for _, s := range o.r.some("bundles.SetFinalizedBundle(_)") {
						s.after("funders.ChargeFundersOfPool(" + o.pool + ", pool.ModuleName)")
						s.after("pool.ChargeInflationPool(" + o.pool + ")")
						s.after("distribution.FundCommunityPool(_, _)")
						s.after("stakers.IncreaseStakerCommissionRewards(" + o.bp() + ".Uploader, pool.ModuleName, _)")
						s.after("delegation.PayoutRewards(" + o.bp() + ".Uploader, _, pool.ModuleName)")
					}
				}
			})
			c.sec("slashes", func() {
				for _, o := range c.rounds() {
					for _, s := range o.r.some("delegation.SlashDelegators(_p, _x, _t)") {
						s.guard("_p == " + o.pool)
						s.leadsTo("stakers.LeavePool(_x, " + o.pool + ")")
						is := func(w string) bool { return o.r.same(s.state(), w, s.b["_x"], s.b.copy()) }
						switch {
						case is("elem(" + o.mem() + ")"):
							s.guard("_t == delegation.SLASH_TYPE_TIMEOUT")
						case is("elem(" + o.bp() + ".VotersInvalid)"):
							s.guard(o.is(statusValid), "_t == delegation.SLASH_TYPE_VOTE")
						case is("elem(" + o.bp() + ".VotersValid)"):
							s.guard(o.is(statusInvalid))
							s.within([]string{"_x == " + o.bp() + ".Uploader"}, "_t == delegation.SLASH_TYPE_UPLOAD")
							s.within([]string{"_x != " + o.bp() + ".Uploader"}, "_t == delegation.SLASH_TYPE_VOTE")
						case o.root == "bundles.EndBlock" && is(o.bp()+".NextUploader"):
							s.guard("_t == delegation.SLASH_TYPE_TIMEOUT")
						default:
							c.check(false, o.root+": slash", s.Pos, "%s: %s slashes neither a voter, a member without a vote nor a late uploader", o.root, clip(s.call.String()))
						}
					}
					for _, s := range o.r.some("stakers.LeavePool(_x, _p)") {
						s.after("delegation.SlashDelegators(_p, _x, _)")
					}
					wrong := "delegation.SlashDelegators(" + o.pool + ", elem(" + o.bp() + ".VotersInvalid), _)"
					o.r.fullLoop(o.bp()+".VotersInvalid", wrong)
					for _, s := range o.r.some("bundles.SetFinalizedBundle(_)") {
						s.after(wrong)
					}
					wrong = "delegation.SlashDelegators(" + o.pool + ", elem(" + o.bp() + ".VotersValid), _)"
					if o.root == "bundles.EndBlock" {
						o.r.fullLoop(o.bp()+".VotersValid", wrong)
					} else {
						o.r.everyElemWhen([]string{o.is(statusInvalid), o.bp() + ".StorageId != \"\""}, wrong, o.bp()+".VotersValid")
					}
				}
			})
			c.sec("decided after the points", func() {
				for _, o := range c.rounds() {
					points := "stakers.IncrementPoints(" + o.pool + ", elem(" + o.mem() + "))"
					decided := func(status string, pats ...string) {
						for _, s := range o.r.some(pats...) {
							s.decidedBy(o.vd(), "Status", status, points)
						}
					}
					decided(statusValid, "bundles.SetFinalizedBundle", "funders.ChargeFundersOfPool", "pool.ChargeInflationPool", "delegation.SlashDelegators("+o.pool+", elem("+o.bp()+".VotersInvalid), _)")
					decided(statusInvalid, "delegation.SlashDelegators("+o.pool+", elem("+o.bp()+".VotersValid), _)")
				}
			})
			c.sec("non-voters", func() {
				for _, o := range c.rounds() {
					el := "elem(" + o.mem() + ")"
					pat := "stakers.IncrementPoints(" + o.pool + ", " + el + ")"
					for _, s := range o.r.some(pat) {
						s.guard(o.bp() + ".StorageId != \"\"")
						for _, l := range []string{"VotersValid", "VotersInvalid", "VotersAbstain"} {
							s.guard("!contains(" + o.bp() + "." + l + ", " + el + ")")
						}
					}
					o.r.fullLoop(o.mem(), pat)
				}
			})
			c.sec("proposal afterwards", func() {
				o := c.rounds()[0]
				for _, s := range o.r.some("bundles.SetBundleProposal(_b)") {
					s.within([]string{o.bp() + ".StorageId != \"\"", "!(" + o.is(statusValid) + ")"}, o.is(statusInvalid)+" && _b.StorageId == \"\" && _b.Uploader == \"\" && _b.NextUploader == "+o.bp()+".NextUploader && _b.UpdatedAt == now && _b.PoolId == msg.PoolId && _b.BundleSize == 0 && len(_b.VotersValid) == 0 && len(_b.VotersInvalid) == 0 && len(_b.VotersAbstain) == 0")
				}
				o.r.always(o.bp() + ".StorageId == \"\" || " + o.is(statusValid) + " || " + o.is(statusInvalid))
				o.r.does(nil, "bundles.SetBundleProposal(_)")
				o = c.rounds()[1]
				for _, s := range o.r.some("bundles.SetBundleProposal(_b)") {
					open := o.bp() + ".StorageId != \"\""
					s.guard("_b.UpdatedAt == now")
					for _, st := range []string{statusValid, statusInvalid} {
						s.within([]string{open, o.is(st)}, "_b.StorageId == \"\" && _b.Uploader == \"\" && _b.PoolId == msg.PoolId && _b.BundleSize == 0 && len(_b.VotersValid) == 0 && len(_b.VotersInvalid) == 0 && len(_b.VotersAbstain) == 0")
					}
				}
				o.r.does(nil, "bundles.SetBundleProposal(_)")
			})
		})

	reg("C19", "The voting handler is interpreted symbolically: the only effects are the proposal write and the reset of points, the write needs every condition of the statement, and each of the three vote lists it stores equals the old list with exactly the change the vote type calls for.",
		func(c *Ctx) {
			c.sec("conditions", func() {
				r := c.root("bundles.VoteBundleProposal")
				bp := "bundles.GetBundleProposal(msg.PoolId).val"
				in := func(l string) string { return "contains(" + bp + "." + l + ", msg.Staker)" }
				r.effects("bundles.SetBundleProposal", "stakers.ResetPoints")
				for _, s := range r.some("bundles.SetBundleProposal(_b)") {
					canRun(s.guard, "msg.PoolId")
					s.guard("stakers.AssertValaccountAuthorized(msg.PoolId, msg.Staker, msg.Creator).err == nil",
						bp+".StorageId != \"\"", "msg.StorageId == "+bp+".StorageId",
						"!"+in("VotersValid"), "!"+in("VotersInvalid"))
					s.within([]string{"msg.Vote == bundles.VOTE_TYPE_ABSTAIN"}, "!"+in("VotersAbstain"))
					s.guard("msg.Vote == bundles.VOTE_TYPE_VALID || msg.Vote == bundles.VOTE_TYPE_INVALID || msg.Vote == bundles.VOTE_TYPE_ABSTAIN")
					s.changes(0, bp, map[string]string{"VotersValid": "_", "VotersInvalid": "_", "VotersAbstain": "_"})
					own := "list(msg.Staker)"
					add := func(l string) string { return "append(" + bp + "." + l + ", " + own + ")" }
					s.within([]string{"msg.Vote == bundles.VOTE_TYPE_VALID"}, "_b.VotersValid == "+add("VotersValid")+" && _b.VotersInvalid == "+bp+".VotersInvalid")
					s.within([]string{"msg.Vote == bundles.VOTE_TYPE_INVALID"}, "_b.VotersInvalid == "+add("VotersInvalid")+" && _b.VotersValid == "+bp+".VotersValid")
					s.within([]string{"msg.Vote == bundles.VOTE_TYPE_ABSTAIN"}, "_b.VotersAbstain == "+add("VotersAbstain")+" && _b.VotersInvalid == "+bp+".VotersInvalid && _b.VotersValid == "+bp+".VotersValid")
					for _, v := range []string{"VALID", "INVALID"} {
						s.within([]string{"msg.Vote == bundles.VOTE_TYPE_" + v, "!" + in("VotersAbstain")}, "_b.VotersAbstain == "+bp+".VotersAbstain", "_b.VotersAbstain == without("+bp+".VotersAbstain, msg.Staker)")
						s.within([]string{"msg.Vote == bundles.VOTE_TYPE_" + v, in("VotersAbstain")}, "_b.VotersAbstain == without("+bp+".VotersAbstain, msg.Staker)")
					}
				}
				r.count(1, "bundles.SetBundleProposal")
				r.does(nil, "bundles.SetBundleProposal(_)", "stakers.ResetPoints(msg.PoolId, msg.Staker)")
			})
		})

	reg("C20", "The submit, skip and claim handlers are interpreted symbolically: their writes need every stated condition, no condition beyond the stated ones can refuse, and the stored proposal is compared field by field with the message.",
		func(c *Ctx) {
			bp := "bundles.GetBundleProposal(msg.PoolId).val"
			p := "pool.GetPool(msg.PoolId).val"
			pe := "pool.GetPoolWithError(msg.PoolId).val"
			designated := func(s *S) {
				canRun(s.guard, "msg.PoolId")
				s.guard("stakers.AssertValaccountAuthorized(msg.PoolId, msg.Staker, msg.Creator).err == nil",
					bp+".NextUploader == msg.Staker", "now >= "+bp+".UpdatedAt + "+pe+".UploadInterval",
					"msg.FromIndex == "+pe+".CurrentIndex + "+bp+".BundleSize")
			}
			c.sec("submit", func() {
				r := c.bundlesRoot("bundles.SubmitBundleProposal")
				n := 0
				for _, s := range r.some("bundles.SetBundleProposal(_b)") {
					designated(s)
					s.guard("msg.StorageId != \"\"", "msg.BundleSize != 0", "msg.BundleSize <= "+pe+".MaxBundleSize", "msg.FromKey != \"\"", "msg.ToKey != \"\"")
					if r.holdsIn(s.state(), "_b.StorageId == \"\"", s.b.copy()) {
						s.guard("bundles.GetVoteDistribution(msg.PoolId).Status == " + statusInvalid)
						continue
					}
					n++
					m := map[string]string{
						"PoolId": "msg.PoolId", "Uploader": "msg.Staker", "UpdatedAt": "now",
						"StorageProviderId": p + ".CurrentStorageProviderId", "CompressionId": p + ".CurrentCompressionId",
					}
					for _, f := range strings.Fields("StorageId DataSize BundleSize FromKey ToKey BundleSummary DataHash") {
						m[f] = "msg." + f
					}
					s.record(0, m)
					s.guard("mem(_b.VotersValid, msg.Staker)", "len(_b.VotersInvalid) == 0", "len(_b.VotersAbstain) == 0",
						anyStaker+" == msg.Staker || !mem(_b.VotersValid, "+anyStaker+")")
				}
				c.check(n > 0, "new proposal", r.fn.Pos(), "no new proposal is stored")
				vd := "bundles.GetVoteDistribution(msg.PoolId).Status"
				for _, cs := range [][]string{{bp + ".StorageId == \"\""}, {bp + ".StorageId != \"\"", vd + " == " + statusValid}} {
					for _, x := range r.when(cs...) {
						c.check(r.didIn(x.st, "bundles.SetBundleProposal(rec(\"StorageId\", msg.StorageId))", x.b.copy()), "registered", x.pos, "a submission succeeds without its proposal being stored")
					}
				}
				r.accepts([]string{
					"pool.GetPoolWithError(msg.PoolId).err == nil", "stakers.AssertValaccountAuthorized(msg.PoolId, msg.Staker, msg.Creator).err == nil",
					runs("msg.PoolId"), bp + ".NextUploader == msg.Staker", "now >= " + bp + ".UpdatedAt + " + pe + ".UploadInterval",
					"msg.FromIndex == " + pe + ".CurrentIndex + " + bp + ".BundleSize",
					"msg.StorageId != \"\"", "msg.BundleSize != 0", "msg.BundleSize <= " + pe + ".MaxBundleSize", "msg.FromKey != \"\"", "msg.ToKey != \"\"",
					bp + ".StorageId == \"\" || " + vd + " == " + statusValid + " || " + vd + " == " + statusInvalid,
				}, "funders.ChargeFundersOfPool", "pool.ChargeInflationPool", "distribution.FundCommunityPool", "stakers.IncreaseStakerCommissionRewards", "delegation.PayoutRewards")
			})
			c.sec("skip", func() {
				r := c.bundlesRoot("bundles.SkipUploaderRole")
				for _, s := range r.some("bundles.SetBundleProposal(_b)") {
					designated(s)
				}
				r.accepts([]string{
					"pool.GetPoolWithError(msg.PoolId).err == nil", "stakers.AssertValaccountAuthorized(msg.PoolId, msg.Staker, msg.Creator).err == nil",
					runs("msg.PoolId"), bp + ".NextUploader == msg.Staker", "now >= " + bp + ".UpdatedAt + " + pe + ".UploadInterval",
					"msg.FromIndex == " + pe + ".CurrentIndex + " + bp + ".BundleSize",
				}, "funders.ChargeFundersOfPool", "pool.ChargeInflationPool", "distribution.FundCommunityPool", "stakers.IncreaseStakerCommissionRewards", "delegation.PayoutRewards")
			})
			c.sec("claim", func() {
				r := c.root("bundles.ClaimUploaderRole")
				r.effects("bundles.SetBundleProposal")
				for _, s := range r.some("bundles.SetBundleProposal(_b)") {
					canRun(s.guard, "msg.PoolId")
					s.guard("stakers.AssertValaccountAuthorized(msg.PoolId, msg.Staker, msg.Creator).err == nil", bp+".NextUploader == \"\"")
					s.changes(0, bp, map[string]string{"NextUploader": "msg.Staker", "UpdatedAt": "now", "PoolId": "_"})
					s.within([]string{"!" + strings.TrimSuffix(bp, ".val") + ".ok"}, "_b.PoolId == msg.PoolId")
					s.within([]string{strings.TrimSuffix(bp, ".val") + ".ok"}, "_b.PoolId == msg.PoolId", "_b.PoolId == "+bp+".PoolId")
				}
				r.does(nil, "bundles.SetBundleProposal(_)")
				r.accepts([]string{"pool.GetPoolWithError(msg.PoolId).err == nil", "stakers.AssertValaccountAuthorized(msg.PoolId, msg.Staker, msg.Creator).err == nil", runs("msg.PoolId"), bp + ".NextUploader == \"\""})
			})
		})

	reg("C21", "The running condition is read off the handlers (conditions on every effect) and compared with the admission function; the status helper of the queries is interpreted and each status value must be returned exactly under the corresponding obstacle, with all earlier obstacles excluded.",
		func(c *Ctx) {
			c.sec("operation", func() {
				for _, n := range []string{"SubmitBundleProposal", "VoteBundleProposal", "ClaimUploaderRole", "SkipUploaderRole"} {
					r := c.bundlesRoot("bundles." + n)
					for _, s := range r.effs() {
						canRun(s.guard, "msg.PoolId")
					}
					r.always("pool.GetPoolWithError(msg.PoolId).err == nil", runs("msg.PoolId"))
				}
			})
			c.sec("status", func() {
				for _, n := range []string{"query.Pool", "query.Pools", "query.AccountFundedList", "query.GetFullStaker"} {
					poolStatus(c.root(n))
				}
			})
		})

	reg("C22", "The payout is interpreted symbolically over coin lists: each share must be the configured rate of what is left at that step, rounded down, the parts add up by construction, and every transfer and reward booking carries exactly its share.",
		func(c *Ctx) {
			c.sec("split", func() {
				share := func(coins, rate string) string {
					return "trunc(DecCoins.MulDec(types.NewDecCoinsFromCoins(" + coins + "), " + rate + "))"
				}
				for _, o := range c.rounds() {
					U := o.bp() + ".Uploader"
					T := "cadd(funders.ChargeFundersOfPool(" + o.pool + ", pool.ModuleName).val, coins(coin(global.Denom, pool.ChargeInflationPool(" + o.pool + ").val)))"
					TR := share(T, "bundles.GetParams().NetworkFee")
					R1 := "csub(" + T + ", " + TR + ")"
					entry := "lookup(funders.GetCoinWhitelistMap(), elem(" + R1 + ").Denom)"
					costs := "bundles.GetParams().StorageCosts"
					cost := "ite(exists(" + costs + ", elem(" + costs + ").StorageProviderId == " + o.bp() + ".StorageProviderId), elem(" + costs + ").Cost, 0)"
					W := "fold(nil, ite(" + entry + ".CoinWeight == 0, acc, cadd(acc, coins(coin(elem(" + R1 + ").Denom, trunc(dquo(LegacyDec.Power(10, " + entry + ".CoinDecimals) * dquo(" + o.bp() + ".DataSize * " + cost + ", Coins.Len(" + R1 + ")), " + entry + ".CoinWeight)))))))"
					ST := "cmin(" + R1 + ", " + W + ")"
					R2 := "csub(" + R1 + ", " + ST + ")"
					CM := share(R2, "stakers.GetCommission("+U+")")
					R3 := "csub(" + R2 + ", " + CM + ")"
					z := func(x string) string { return "iszero(" + x + ")" }
					ex := "stakers.GetStaker(" + U + ").ok"
					del := "delegation.GetDelegationAmount(" + U + ")"
					is := func(s *S, conds []string, want ...string) {
						var alts []string
						for _, w := range want {
							alts = append(alts, "_a == "+w)
						}
						s.within(conds, alts...)
					}
					none := []string{"nil", "cadd(nil, nil)"}
					for _, s := range o.r.some("distribution.FundCommunityPool(_a, _f)") {
						s.guard("_f == account.GetModuleAddress(pool.ModuleName)")
						is(s, []string{ex, "!" + z(T)}, TR)
						is(s, []string{ex, z(T)}, append(none, TR)...)
						is(s, []string{"!" + ex}, none...)
					}
					for _, s := range o.r.some("stakers.IncreaseStakerCommissionRewards(_u, _m, _a)") {
						s.guard("_u == "+U, "_m == pool.ModuleName")
						live := []string{ex, "!" + z(T), "!" + z(R1), "!" + z(R2), "!" + z(R3)}
						is(s, append(live, del+" != 0"), "cadd("+CM+", "+ST+")")
						is(s, append(live, del+" == 0"), "cadd("+CM+", "+ST+", "+R3+")", "cadd(cadd("+CM+", "+R3+"), "+ST+")")
						is(s, []string{ex, "!" + z(T), "!" + z(R1), "!" + z(R2), z(R3)}, "cadd("+CM+", "+ST+")", "cadd("+CM+", "+ST+", "+R3+")")
						is(s, []string{ex, "!" + z(T), "!" + z(R1), z(R2)}, ST, "cadd(nil, "+ST+")", "cadd("+CM+", "+ST+")")
						is(s, []string{ex, "!" + z(T), z(R1)}, none...)
						is(s, []string{ex, z(T)}, none...)
						is(s, []string{"!" + ex}, none...)
					}
					for _, s := range o.r.some("delegation.PayoutRewards(_u, _a, _m)") {
						s.guard("_u == "+U, "_m == pool.ModuleName")
						live := []string{ex, "!" + z(T), "!" + z(R1), "!" + z(R2), "!" + z(R3)}
						is(s, append(live, del+" != 0"), R3)
						is(s, append(live, del+" == 0"), none...)
						is(s, []string{ex, "!" + z(T), "!" + z(R1), "!" + z(R2), z(R3)}, append(none, R3)...)
						is(s, []string{ex, "!" + z(T), "!" + z(R1), z(R2)}, append(none, R3)...)
						is(s, []string{ex, "!" + z(T), z(R1)}, none...)
						is(s, []string{ex, z(T)}, none...)
						is(s, []string{"!" + ex}, none...)
					}
				}
			})
			c.sec("inflation share", func() {
				r := c.root("pool.ChargeInflationPool")
				acc := "AccAddress.String(types.NewModuleAddress(fmt.Sprintf(\"%s/%d\", list(pool.ModuleName, $1))))"
				amt := "trunc(bank.GetBalance(types.NewModuleAddress(fmt.Sprintf(\"%s/%d\", list(pool.ModuleName, $1))), global.Denom).Amount * pool.GetParams().PoolInflationPayoutRate)"
				r.effects("util.TransferFromAddressToModule", "util.PanicHalt")
				r.only("util.TransferFromAddressToModule", "util.TransferFromAddressToModule("+acc+", pool.ModuleName, "+amt+")")
				r.count(1, "util.TransferFromAddressToModule")
				r.does(nil, "util.TransferFromAddressToModule(_, _, _)")
				r.returns(0, nil, amt)
			})
		})

	reg("C23", "The end-block step is interpreted over a symbolic pool: each effect needs its deadline condition, the states before the deadline, of a pool that may not run and after each deadline are compared with what is stored.",
		func(c *Ctx) {
			o := c.rounds()[2]
			r, bp, id := o.r, o.bp(), o.pool
			P := strings.TrimSuffix(id, ".Id")
			pe := "pool.GetPoolWithError(" + id + ")"
			can := pe + ".err == nil && " + runs(id)
			disabled := "(" + pe + ".err == nil && (" + pe + ".val.UpgradePlan.ScheduledAt == 0 || now < " + pe + ".val.UpgradePlan.ScheduledAt) && " + pe + ".val.Disabled)"
			open := bp + ".StorageId != \"\""
			noq := o.is(statusNoQuorum)
			interval := "now >= " + bp + ".UpdatedAt + " + P + ".UploadInterval"
			timeout := "now >= " + bp + ".UpdatedAt + " + P + ".UploadInterval + bundles.GetParams().UploadTimeout"
			empty := "_b.StorageId == \"\" && _b.Uploader == \"\" && _b.PoolId == " + id + " && _b.BundleSize == 0 && len(_b.VotersValid) == 0 && len(_b.VotersInvalid) == 0 && len(_b.VotersAbstain) == 0 && _b.UpdatedAt == now"
			late := "stakers.IncrementPoints(" + id + ", " + bp + ".NextUploader)"
			c.sec("not running", func() {
				n := 0
				for _, s := range r.some("bundles.SetBundleProposal(_b)") {
					if r.holdsIn(s.state(), can, s.b.copy()) {
						continue
					}
					n++
					s.within([]string{disabled, open}, empty+" && _b.NextUploader == \"\"")
					s.within([]string{pe + ".err == nil", "!" + disabled}, "_b == upd("+bp+", \"NextUploader\", \"\")")
					s.within([]string{"!(" + open + ")"}, "_b == upd("+bp+", \"NextUploader\", \"\")")
					s.guard("!(" + can + ")")
				}
				c.check(n > 0, "pools that may not run", r.fn.Pos(), "pools that may not run keep their uploader")
				for _, s := range r.effs() {
					if s.Name != "bundles.SetBundleProposal" {
						s.guard(can)
					}
				}
			})
			c.sec("deadline", func() {
				for _, x := range r.effs() {
					if x.Name == "bundles.SetBundleProposal" && !r.holdsIn(x.state(), can, binds{}) {
						continue
					}
					x.guard(interval)
					x.within([]string{"!(" + open + ")"}, timeout)
					x.within([]string{"!(" + noq + ")"}, timeout)
				}
			})
			c.sec("replaced", func() {
				next := "bundles.RoundRobinValidatorSet.NextProposer(bundles.LoadRoundRobinValidatorSet(" + id + "), _)"
				for _, s := range r.some("bundles.SetBundleProposal(_b)") {
					if !r.holdsIn(s.state(), can, s.b.copy()) {
						continue
					}
					got := s.state().simp(r.e.in.path(s.arg(0), []string{"NextUploader"}))
					c.check(r.e.match(r.e.T(next, nil), got, binds{}), r.name+": next uploader", s.Pos, "%s: the next uploader is %s, not chosen by the round robin", r.name, clip(got.String()))
					s.guard("_b.UpdatedAt == now")
					s.within([]string{open}, empty)
					s.within([]string{"!(" + open + ")"}, "_b == upd(upd("+bp+", \"NextUploader\", _b.NextUploader), \"UpdatedAt\", now)")
				}
				for _, s := range r.some(late) {
					s.guard("stakers.DoesValaccountExist("+id+", "+bp+".NextUploader)", timeout)
					s.after("bundles.SetBundleProposal(_)")
					s.onlyIf(can, interval, timeout, "stakers.DoesValaccountExist("+id+", "+bp+".NextUploader)", "!("+open+") || !("+noq+")")
				}
				r.fullLoop("pool.GetAllPools()", "bundles.SetBundleProposal", late)
			})
		})
}

// canRun: the conditions under which a pool works.
func canRun(guard func(...string) *S, id string) {
	p := "pool.GetPoolWithError(" + id + ")"
	guard(p+".err == nil", runs(id))
}

func runs(id string) string {
	p := "pool.GetPoolWithError(" + id + ").val"
	d := "delegation.GetTotalAndHighestDelegationOfPool(" + id + ")"
	return "(" + p + ".UpgradePlan.ScheduledAt == 0 || now < " + p + ".UpgradePlan.ScheduledAt) && !" + p + ".Disabled && (" + p + ".EndKey == \"\" || " + p + ".EndKey != " + p + ".CurrentKey) && " +
		d + ".val >= " + p + ".MinDelegation && " + d + ".r1 <= trunc(" + d + ".val * pool.GetParams().MaxVotingPowerPerPool)"
}

// poolStatus: a reported status of a pool names the first obstacle.
func poolStatus(r *Root) {
	runsOf := func(i int) []string {
		d := "delegation.GetTotalAndHighestDelegationOfPool(_p.Id)"
		obstacles := []string{
			"_p.UpgradePlan.ScheduledAt != 0 && now >= _p.UpgradePlan.ScheduledAt",
			"_p.Disabled",
			"_p.EndKey != \"\" && _p.EndKey == _p.CurrentKey",
			d + ".val < _p.MinDelegation",
			d + ".r1 > trunc(" + d + ".val * pool.GetParams().MaxVotingPowerPerPool)",
			"iszero(funders.GetTotalActiveFunding(_p.Id))",
		}
		var out []string
		for j := 0; j < i; j++ {
			out = append(out, "!("+obstacles[j]+")")
		}
		if i < len(obstacles) {
			out = append(out, obstacles[i])
		}
		return out
	}
	names := strings.Fields("UPGRADING DISABLED END_KEY_REACHED NOT_ENOUGH_DELEGATION VOTING_POWER_TOO_HIGH NO_FUNDS ACTIVE")
	n := 0
	for _, x := range r.success() {
		seen := map[*Term]bool{}
		for _, v := range x.vals {
			walkTerms(v, func(t *Term) {
				_, fs := structFields(t)
				id := fs["Id"]
				if seen[t] || fs["Status"] == nil || id == nil {
					return
				}
				p := r.e.T("pool.GetPool(_i).val", binds{"_i": id})
				if id.Op == OpField && id.Name == "Id" && id.Args[0].Op == OpElem {
					p = id.Args[0] // of a list of pools
				}
				seen[t] = true
				n++
				for i, nm := range names {
					st := x.st.clone()
					b := binds{"_p": p}
					r.assumeAll(st, runsOf(i), b)
					got := st.simp(fs["Status"])
					r.c.check(st.dead || r.same(st, "pool.POOL_STATUS_"+nm, got, b), r.name+": status "+nm, x.pos, "%s: a pool in the state %s is reported as %s", r.name, nm, clip(got.String()))
				}
			})
		}
	}
	r.c.check(n > 0, r.name+": pool status", r.fn.Pos(), "%s: no pool status is reported", r.name)
}
