package main

import (
	"go/ast"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- who may do what: authority, protocol nodes, senders

// reqField: does the request message of a handler have this field?
func reqField(f *ssa.Function, name string) bool {
	sg := f.Signature
	if sg.Params().Len() != 2 {
		return false
	}
	n := namedOf(sg.Params().At(1).Type())
	if n == nil {
		return false
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return true
		}
	}
	return false
}

// paramModules: the modules with governed parameters.
var paramModules = []string{"bundles", "delegation", "funders", "global", "pool", "stakers"}

func init() {
	gov := "types.NewModuleAddress(\"gov\")"
	reg("C01", "Every message handler whose request names an authority (the team's own authorities aside) is interpreted on all paths: each effect and each success is dominated by equality of the message's authority with the keeper field that dependency injection fills with the address of the gov module account; the application configuration is searched for overriding authorities; parameter setters and pool creation are reachable from those handlers, genesis and upgrades only; parameter messages are valid only if the module's own Validate accepts the payload, and the handler stores the current parameters overlaid with that payload and nothing else.",
		func(c *Ctx) {
			fields := map[string]string{}
			for _, m := range paramModules {
				m := m
				c.sec("authority of "+m, func() {
					r := c.root(m + ".ProvideModule")
					want := "AccAddress.String(" + gov + ")"
					for _, x := range r.when("$1.Config.Authority == \"\"") {
						_, fs := structFields(x.vals[0])
						found := false
						for _, n := range sortedKeys(fs) {
							_, kf := structFields(fs[n])
							for _, f := range sortedKeys(kf) {
								if r.same(x.st, want, x.st.simp(kf[f]), x.b.copy()) {
									fields[m], found = f, true
								}
							}
						}
						c.check(found, m+" keeper authority", x.pos, "the keeper of %s is not given the gov module account as authority", m)
					}
				})
			}
			c.sec("handlers", func() {
				n := 0
				for _, e := range c.entries() {
					if e.kind != "msg" || !reqField(e.fn, "Authority") || strings.HasPrefix(e.name, "team.") {
						continue
					}
					n++
					m := strings.SplitN(e.name, ".", 2)[0]
					f := fields[m]
					if f == "" {
						continue
					}
					r := c.rootFn(e.fn, e.name, "0")
					cond := "recv." + f + " == msg.Authority"
					r.always(cond)
					for _, s := range r.sites {
						if s.Eff {
							s.guard(cond)
						}
					}
				}
				c.check(n >= 12, "governance messages", 0, "only %d governance messages found", n)
				for _, x := range []string{"pool.CreatePool", "pool.UpdatePool", "pool.DisablePool", "pool.EnablePool", "pool.ScheduleRuntimeUpgrade", "pool.CancelRuntimeUpgrade",
					"bundles.UpdateParams", "delegation.UpdateParams", "funders.UpdateParams", "global.UpdateParams", "pool.UpdateParams", "stakers.UpdateParams"} {
					f := c.fnNamed(x)
					c.check(reqField(f, "Authority"), x+" authority", f.Pos(), "%s: the message names no authority", x)
				}
			})
			c.sec("keeper field", func() {
				// nothing writes the authority of a keeper after construction
				for _, fn := range c.pr.Funcs {
					m := moduleOf(fnPkgPath(fn))
					if fields[m] == "" {
						continue
					}
					for _, b := range fn.Blocks {
						for _, ins := range b.Instrs {
							st, ok := ins.(*ssa.Store)
							if !ok {
								continue
							}
							fa, ok := st.Addr.(*ssa.FieldAddr)
							if !ok {
								continue
							}
							n := namedOf(fa.X.Type())
							if n == nil || n.Obj().Name() != "Keeper" || n.Underlying().(*types.Struct).Field(fa.Field).Name() != fields[m] {
								continue
							}
							_, fresh := fa.X.(*ssa.Alloc)
							c.check(fresh, "authority written in "+shortName(fn), ins.Pos(), "%s overwrites the authority of an existing keeper", shortName(fn))
						}
					}
				}
			})
			c.sec("configuration", func() {
				// the application configures no other authority for a KYVE module
				n := 0
				for _, p := range c.pr.Repo {
					if !strings.HasPrefix(p.Path, modPath+"/app") {
						continue
					}
					for _, file := range p.Files {
						ast.Inspect(file, func(x ast.Node) bool {
							cl, ok := x.(*ast.CompositeLit)
							if !ok {
								return true
							}
							nm := namedOf(p.Info.TypeOf(cl))
							if nm == nil || nm.Obj().Name() != "Module" || !strings.HasPrefix(nm.Obj().Pkg().Path(), modPath+"/") {
								return true
							}
							n++
							c.check(len(cl.Elts) == 0, "module configuration", cl.Pos(), "the configuration of %s sets fields (an authority other than governance)", nm.Obj().Pkg().Path())
							return true
						})
					}
				}
				c.check(n >= 8, "module configurations", 0, "only %d KYVE module configurations found", n)
			})
			c.sec("parameters", func() {
				for _, m := range paramModules {
					r := c.root(m + ".UpdateParams")
					P := "json.Unmarshal(" + m + ".GetParams(), msg.Payload)"
					r.effects(m + ".SetParams")
					for _, s := range r.only(m+".SetParams", m+".SetParams(_p)") {
						s.is(P, s.arg(0))
					}
					r.does(nil, m+".SetParams(_)")
					r.count(1, m+".SetParams")
					onlyCallers(c, "", []string{m + ".SetParams"}, []string{m + ".UpdateParams", "genesis", "upgrade"})
					v := c.root(m+".MsgUpdateParams.ValidateBasic", keep(m+".Params.Validate"))
					D := "json.Unmarshal(eval(\"" + m + ".DefaultParams\"), self.Payload)"
					v.always("addr(self.Authority).err == nil", D+".err == nil", m+".Params.Validate("+D+").err == nil")
					v.accepts([]string{"addr(self.Authority).err == nil", D + ".err == nil", m + ".Params.Validate(" + D + ").err == nil"})
				}
			})
			c.sec("pool records", func() {
				onlyCallers(c, "", []string{"pool.AppendPool"}, []string{"pool.CreatePool"})
				onlyCallers(c, "", []string{"pool.SetPoolCount"}, []string{"pool.CreatePool", "genesis"})
				onlyCallers(c, "", []string{"pool.RemovePool"}, nil)
			})
		})

	reg("C03", "Every bundle message handler naming a staker is interpreted on all paths: each effect and each success is dominated by AssertValaccountAuthorized(pool, staker, sender) returning nil, and that function, interpreted itself, returns nil exactly if the staker's membership record of that pool exists and names the sender; writers of membership records are enumerated and only joining sets the node address.",
		func(c *Ctx) {
			c.sec("handlers", func() {
				n := 0
				for _, e := range c.entries() {
					if e.kind != "msg" || !reqField(e.fn, "Staker") || !reqField(e.fn, "PoolId") {
						continue
					}
					n++
					r := c.rootFn(e.fn, e.name, "0")
					cond := "stakers.AssertValaccountAuthorized(msg.PoolId, msg.Staker, msg.Creator).err == nil"
					r.always(cond)
					for _, s := range r.sites {
						if s.Eff && !strings.HasPrefix(s.Name, "stakers.Assert") {
							s.guard(cond)
						}
					}
				}
				c.check(n >= 4, "protocol node messages", 0, "only %d messages of protocol nodes found", n)
			})
			c.sec("authorisation", func() {
				r := c.root("stakers.AssertValaccountAuthorized")
				V := "stakers.GetValaccount($1, $2)"
				r.exact([]string{V + ".ok", V + ".val.Valaddress == $3"})
			})
			c.sec("node address", func() {
				ad := c.root("stakers.AddValaccountToPool")
				for _, s := range ad.only("stakers.SetValaccount", "stakers.SetValaccount(_v)") {
					s.record(0, map[string]string{"PoolId": "$1", "Staker": "$2", "Valaddress": "$3"})
				}
				onlyCallers(c, "", []string{"stakers.AddValaccountToPool"}, []string{"stakers.JoinPool"})
				j := c.root("stakers.JoinPool", keep("stakers.AddValaccountToPool"))
				j.only("stakers.AddValaccountToPool", "stakers.AddValaccountToPool(msg.PoolId, msg.Creator, msg.Valaddress)")
				// every other writer keeps it
				for _, x := range []string{"stakers.LeavePool", "stakers.IncrementPoints", "stakers.ResetPoints"} {
					r := c.root(x)
					for _, s := range r.find("stakers.SetValaccount(_v)") {
						s.b["_base"], _ = structFields(s.arg(0))
						s.changes(0, "_base", map[string]string{"IsLeaving": "_", "Points": "_"})
						got := s.state().simp(s.root.e.in.path(s.arg(0), []string{"Valaddress"}))
						s.is("_base.Valaddress", got)
					}
				}
				onlyCallers(c, "", []string{"stakers.SetValaccount"}, []string{"stakers.JoinPool", "stakers.LeavePool", "bundles.SubmitBundleProposal", "bundles.VoteBundleProposal", "bundles.SkipUploaderRole", "bundles.ClaimUploaderRole", "bundles.EndBlock", "genesis"})
			})
		})
}

// own: for each state change of a user's message, the expression that must be
// the sender (field of an argument, or the argument itself).
var own = map[string]string{
	"delegation.SetDelegator":               "0.Delegator",
	"delegation.RemoveDelegator":            "1",
	"delegation.SetUndelegationQueueEntry":  "0.Delegator",
	"delegation.SetRedelegationCooldown":    "0.Address",
	"delegation.RemoveRedelegationCooldown": "0",
	"delegation.Delegate":                   "0.Creator",
	"stakers.setStaker":                     "0.Address",
	"stakers.SetCommissionChangeEntry":      "0.Staker",
	"stakers.RemoveCommissionChangeEntry":   "0.Staker",
	"stakers.SetLeavePoolEntry":             "0.Staker",
	"stakers.SetValaccount":                 "0.Staker",
	"stakers.AddActiveStaker":               "0",
	"funders.SetFunder":                     "0.Address",
	"bank.SendCoinsFromModuleToAccount":     "1",
	"bank.SendCoinsFromAccountToModule":     "0",
	"util.TransferFromAddressToModule":      "0",
	"util.TransferFromModuleToAddress":      "1",
	"util.TransferFromAddressToAddress":     "0",
}

func init() {
	type h struct {
		name   string
		shared []string // changes of records that belong to nobody
		extra  map[string]string
	}
	dele := []string{"delegation.RemoveStakerIndex", "delegation.SetStakerIndex", "delegation.SetDelegationEntry", "delegation.RemoveDelegationEntry", "delegation.SetDelegationData"}
	list := []h{
		{"delegation.Delegate", dele, nil},
		{"delegation.Undelegate", []string{"delegation.SetQueueState"}, nil},
		{"delegation.Redelegate", dele, nil},
		{"delegation.WithdrawRewards", dele, nil},
		{"stakers.CreateStaker", nil, nil},
		{"stakers.UpdateMetadata", nil, nil},
		{"stakers.UpdateCommission", []string{"stakers.SetQueueState"}, nil},
		{"stakers.LeavePool", []string{"stakers.SetQueueState"}, nil},
		{"stakers.ClaimCommissionRewards", nil, nil},
		{"stakers.JoinPool", []string{"stakers.setStat", "stakers.LeavePool"}, nil},
		{"funders.CreateFunder", nil, nil},
		{"funders.UpdateFunder", nil, nil},
		{"funders.DefundPool", []string{"funders.SetFundingState", "funders.SetFunding"}, nil},
	}
	reg("C04", "The handlers of the user messages are interpreted on all paths; every state change in them is either of a kind whose record or account is, by its key argument, the sender's own, or one of the enumerated shared records (reward periods, queue counters, member counts). Payments out of a module go to the sender and payments in come from the sender.",
		func(c *Ctx) {
			for _, x := range list {
				x := x
				c.sec(x.name, func() {
					r := c.root(x.name, keep("stakers.RemoveValaccountFromPool"))
					if x.name == "stakers.JoinPool" {
						// the displaced member is C25's subject
						r = c.root(x.name, expand(), keep("stakers.RemoveValaccountFromPool", "stakers.LeavePool"))
					}
					names := append([]string{}, x.shared...)
					for n := range own {
						names = append(names, n)
					}
					r.effects(names...)
					n := 0
					for _, s := range r.sites {
						o := own[s.Name]
						if o == "" || !s.Eff {
							continue
						}
						n++
						p := strings.Split(o, ".")
						i := int(p[0][0] - '0')
						got := s.state().simp(r.e.in.path(s.arg(i), p[1:]))
						want := "msg.Creator"
						if strings.HasPrefix(s.Name, "bank.") {
							want = "addr(msg.Creator)"
						}
						if s.Name == "stakers.RemoveCommissionChangeEntry" {
							s.is("stakers.GetCommissionChangeEntryByIndex2(msg.Creator).val", s.arg(0))
							continue
						}
						s.is(want, got)
						if s.Name == "delegation.Delegate" {
							s.is("msg.Creator", s.state().simp(r.e.in.path(s.arg(0), []string{"Staker"})))
						}
					}
					c.check(n > 0, x.name+": own records", r.fn.Pos(), "%s changes nothing of its sender", x.name)
				})
			}
			c.sec("funders.FundPool", func() {
				r := c.root("funders.FundPool")
				r.only("bank.SendCoinsFromAccountToModule", "bank.SendCoinsFromAccountToModule(addr(msg.Creator), _, msg.Amounts)")
			})
			c.sec("funders.DefundPool funding", func() {
				r := c.root("funders.DefundPool")
				for _, s := range r.only("funders.SetFunding", "funders.SetFunding(_)") {
					base, _ := structFields(s.arg(0))
					s.is("funders.GetFunding(msg.Creator, msg.PoolId).val", base)
				}
			})
			c.sec("authority of the account", func() {
				// the bank is asked to debit user accounts in these handlers only
				onlyCallers(c, "funders", []string{"bank.SendCoinsFromAccountToModule"}, []string{"funders.FundPool"})
				onlyCallers(c, "", []string{"util.TransferFromAddressToModule"}, []string{"delegation.Delegate", "stakers.CreateStaker", "bundles.SubmitBundleProposal", "bundles.SkipUploaderRole", "bundles.EndBlock"})
				// of which the bundle steps debit the pool's own account
				p := c.root("pool.ChargeInflationPool")
				for _, s := range p.only("util.TransferFromAddressToModule", "util.TransferFromAddressToModule(_a, _, _)") {
					s.is("AccAddress.String(types.NewModuleAddress(fmt.Sprintf(\"%s/%d\", list(\"pool\", $1))))", s.arg(0))
				}
				onlyCallers(c, "", []string{"util.TransferFromAddressToAddress"}, []string{"stakers.JoinPool"})
			})
		})
}
