package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- published services and queries (C39, part of C05)

type service struct {
	mod  string // module directory below x
	reg  *ssa.Function
	typ  string // MsgServer, QueryPoolServer, ...
	itf  *types.Interface
	name string
}

// services: the services the generated code publishes.
func (c *Ctx) services() []service {
	var out []service
	for _, f := range c.pr.Funcs {
		n := f.Name()
		if !isPB(c.pr, f) || f.Signature.Recv() != nil || !strings.HasPrefix(n, "Register") || !strings.HasSuffix(n, "Server") || strings.HasSuffix(n, "HandlerServer") {
			continue
		}
		if f.Signature.Params().Len() != 2 || !strings.Contains(fnPkgPath(f), "/x/") {
			continue
		}
		nt, ok := f.Signature.Params().At(1).Type().(*types.Named)
		if !ok {
			continue
		}
		it, ok := nt.Underlying().(*types.Interface)
		if !ok {
			continue
		}
		m := moduleOf(fnPkgPath(f))
		out = append(out, service{m, f, nt.Obj().Name(), it, m + "." + nt.Obj().Name()})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

// concreteOf: the concrete types a service value can have.
func (c *Ctx) concreteOf(v ssa.Value, d int) []types.Type {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return []types.Type{x.X.Type()}
	case *ssa.ChangeInterface:
		return c.concreteOf(x.X, d+1)
	case *ssa.Phi:
		var out []types.Type
		for _, e := range x.Edges {
			out = append(out, c.concreteOf(e, d+1)...)
		}
		return out
	case *ssa.Call:
		fn, _ := c.pr.resolve(&x.Call)
		if fn == nil || d > 4 {
			return nil
		}
		var out []types.Type
		for _, b := range fn.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) > 0 {
				out = append(out, c.concreteOf(r.Results[0], d+1)...)
			}
		}
		return out
	}
	return nil
}

// served checks that every service of the given kind is registered by its
// module with an implementation of its own of every method.
func (c *Ctx) served(msg bool) {
	for _, s := range c.services() {
		if (s.typ == "MsgServer") != msg {
			continue
		}
		found := false
		for _, g := range c.pr.Funcs {
			if g.Name() != "RegisterServices" || moduleOf(fnPkgPath(g)) != s.mod {
				continue
			}
			reach := c.su.reach(g)
			for h := range reach {
				if isPB(c.pr, h) {
					continue
				}
				for _, b := range h.Blocks {
					for _, ins := range b.Instrs {
						ci, ok := ins.(ssa.CallInstruction)
						if !ok || ci.Common().StaticCallee() != s.reg {
							continue
						}
						// on every path through RegisterServices
						if h == g && !onEveryPath(g, b) {
							continue
						}
						found = true
						ts := c.concreteOf(ci.Common().Args[1], 0)
						c.check(len(ts) > 0, s.name+" implementation", ins.Pos(), "the implementation registered for %s cannot be determined", s.name)
						for _, t := range ts {
							for i := 0; i < s.itf.NumMethods(); i++ {
								m := s.itf.Method(i)
								sel := types.NewMethodSet(t).Lookup(m.Pkg(), m.Name())
								ok := sel != nil
								impl := ""
								if ok {
									if rn := recvNamed(sel.Obj().(*types.Func)); rn != nil {
										impl = rn.Obj().Name()
									}
								}
								c.check(ok && !strings.HasPrefix(impl, "Unimplemented"), s.name+"."+m.Name(), ins.Pos(), "%s.%s of the %s module is answered by %s, not by an implementation", s.typ, m.Name(), s.mod, impl)
							}
						}
					}
				}
			}
		}
		c.check(found, s.name+" registration", s.reg.Pos(), "the %s module publishes %s but its RegisterServices does not register it", s.mod, s.typ)
	}
}

// onEveryPath: does every path from the entry to a return pass the block?
func onEveryPath(f *ssa.Function, must *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if b == must || seen[b] {
			continue
		}
		seen[b] = true
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			return false
		}
		work = append(work, b.Succs...)
	}
	return true
}

func init() {
	regT("C39", "effect analysis over the resolved call graph and service registration analysis", "Every query method of every published service, and every function it reaches, is free of store writes, effectful calls into other modules' keepers (transfers, minting, delegation, parameters) and events. Every query service the generated code publishes is registered on every path through its module's RegisterServices with a type that implements every method itself, and every published gateway is registered. Simple queries return exactly the stored value.",
		func(c *Ctx) {
			c.sec("no effects", func() {
				n := 0
				for _, e := range c.entries() {
					if e.kind != "query" {
						continue
					}
					n++
					reach := c.su.reach(e.fn)
					var fs []*ssa.Function
					for f := range reach {
						// the emergency path for corrupted records, in a context the
						// query service discards
						if shortName(f) != "util.PanicHalt" {
							fs = append(fs, f)
						}
					}
					sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
					c.check(true, "query", 0, "")
					c.funcs[e.fn] = true
					for _, f := range fs {
						c.funcs[f] = true
						if c.su.direct[f]&dWrite != 0 {
							c.check(false, e.name+" writes in "+shortName(f), f.Pos(), "the query %s writes the store: %s", e.name, pathTo(reach, f))
						}
						if c.su.extEff[f] {
							what := ""
							for _, x := range c.extCalls(f) {
								what += " " + x.name
							}
							c.check(false, e.name+" acts in "+shortName(f), f.Pos(), "the query %s performs effects: %s (%s)", e.name, pathTo(reach, f), cut(what, 120))
						}
					}
				}
				c.extra["queries"] = n
			})
			c.sec("every query is served", func() {
				c.served(false)
			})
			c.sec("reported values", func() {
				answers(c)
			})
			c.sec("pages", func() {
				// page n of a list holds the elements (n-1)*limit to n*limit-1 of it
				P := "query.ParsePagination($2)"
				r := c.root("delegation.arrayPagination")
				from := "min((" + P + ".r0 - 1) * " + P + ".r1, len($1))"
				r.returns(1, nil, "_p")
				r.returnsField(1, "Total", nil, "len($1)")
				N := "min(" + P + ".r1, len($1) - " + from + ")"
				i := "fold(0, 1 + acc, make(" + N + "))"
				for _, x := range r.success() {
					n := x.st.simp(x.vals[0])
					ok := false
					for _, w := range []string{
						"fold(make(" + N + "), dyn(\"setat\", acc, " + i + ", $1[" + from + " + " + i + "]), make(" + N + "))",
						"fold(make(" + N + "), dyn(\"setat\", acc, " + i + ", $1[" + from + " + " + i + "]))",
						"slice($1, " + from + ", " + from + " + " + N + ")",
					} {
						ok = ok || r.same(x.st, w, n, x.b.copy())
					}
					c.check(ok, "page", x.pos, "a page of a list is %s, expected the elements from (page-1)*limit, at most limit and not behind the end", clip(n.String()))
				}
				r = c.root("delegation.arrayPaginationAccumulator")
				n := 0
				for _, x := range r.success() {
					calls(x.st.simp(x.vals[0]), "call:$3", func(t *Term) {
						n++
						want := P + ".r1 * (" + P + ".r0 - 1) <= acc && acc < " + P + ".r0 * " + P + ".r1"
						c.check(r.same(x.st, "elem($1)", t.Args[len(t.Args)-2], x.b.copy()), "listed element", x.pos, "a filtered page is asked about %s", clip(t.String()))
						c.check(r.same(x.st, want, t.Args[len(t.Args)-1], x.b.copy()), "filtered page", x.pos, "a filtered page holds the hits with %s, expected %s", clip(t.Args[len(t.Args)-1].String()), want)
					})
				}
				c.check(n > 0, "filtered pages", r.fn.Pos(), "the elements of a filtered page are not found")
				// a page counted from the end never starts before the first bundle
				r = c.root("bundles.GetPaginatedFinalizedBundleQuery")
				n = 0
				for _, x := range r.success() {
					calls(x.st.simp(x.vals[0]), "store.ReverseIterator", func(t *Term) {
						if len(t.Args) != 3 || t.Args[2].Op == OpConst {
							return
						}
						n++
						c.check(r.e.match(r.e.T("ite(len($1.Key) == 0, key(_x - min($1.Offset, _x)), $1.Key)", nil), t.Args[2], binds{}), "reverse start", x.pos, "a reverse page starts at %s, expected the offset from the end, clamped to the first bundle", clip(t.Args[2].String()))
					})
					calls(x.st.simp(x.vals[0]), "store.Iterator", func(t *Term) {
						if len(t.Args) != 3 || t.Args[1].Op == OpConst {
							return
						}
						n++
						c.check(r.same(x.st, "ite(len($1.Key) == 0, key($1.Offset), $1.Key)", t.Args[1], x.b.copy()), "forward start", x.pos, "a page starts at %s, expected the offset", clip(t.Args[1].String()))
					})
				}
				c.check(n > 0, "bundle pages", r.fn.Pos(), "the start of a page of bundles is not found")
			})
		})
}

// calls visits the distinct calls of the name within the term.
func calls(t *Term, name string, f func(*Term)) {
	seen := map[*Term]bool{}
	var w func(*Term)
	w = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.Op == OpCall && t.Name == name {
			f(t)
		}
		for _, a := range t.Args {
			w(a)
		}
	}
	w(t)
}

// answers: what the queries report is what is stored.
func answers(c *Ctx) {
	fields := func(r *Root, conds []string, m map[string]string) {
		for _, f := range sortedKeys(m) {
			r.returnsField(0, f, conds, m[f])
		}
	}
	r := c.root("query.Delegator")
	fields(r, nil, map[string]string{
		"Delegator.CurrentRewards":   "delegation.GetOutstandingRewards(req.Staker, req.Delegator)",
		"Delegator.DelegationAmount": "delegation.GetDelegationAmountOfDelegator(req.Staker, req.Delegator)",
		"Delegator.Delegator":        "req.Delegator",
		"Delegator.Staker":           "req.Staker",
	})
	r = c.root("query.CurrentVoteStatus")
	m := map[string]string{}
	for _, f := range []string{"Valid", "Invalid", "Abstain", "Total"} {
		m[f] = "bundles.GetVoteDistribution(req.PoolId)." + f
	}
	fields(r, nil, m)
	fb := "bundles.GetFinalizedBundle(req.PoolId, req.Id)"
	r = c.root("query.FinalizedBundleQuery")
	m = map[string]string{"FinalizedAt.Height": fb + ".val.FinalizedAt.Height"}
	for _, f := range []string{"StorageId", "Uploader", "FromIndex", "ToIndex", "FromKey", "ToKey", "BundleSummary", "DataHash", "StorageProviderId", "CompressionId"} {
		m[f] = fb + ".val." + f
	}
	fields(r, []string{fb + ".val.PoolId == req.PoolId", fb + ".val.Id == req.Id"}, m)
	r.always(fb + ".ok")
	v2 := fb + ".val.FinalizedAt.Height < lookup(bundles.BundleVersionMap.GetMap(bundles.GetBundleVersionMap()), 2)"
	for _, f := range []string{"ValidVotePower", "TotalVotePower"} {
		r.returnsField(0, "StakeSecurity."+f, []string{"!(" + v2 + ")"}, fb+".val.StakeSecurity."+f)
	}

	f := "funders.GetFunder(req.Address)"
	fs := "funders.GetFundingsOfFunder(req.Address)"
	r = c.root("query.Funder")
	r.always(f + ".ok")
	m = map[string]string{"Funder.Address": "req.Address",
		"Funder.Stats.TotalAllocatedFunds":  "fold(nil, cadd(acc, elem(" + fs + ").Amounts))",
		"Funder.Stats.TotalUsedFunds":       "fold(nil, cadd(acc, elem(" + fs + ").TotalFunded))",
		"Funder.Stats.TotalAmountPerBundle": "fold(nil, ite(iszero(elem(" + fs + ").Amounts), acc, cadd(acc, elem(" + fs + ").AmountsPerBundle)))",
	}
	for _, x := range []string{"Contact", "Description", "Identity", "Moniker", "Website"} {
		m["Funder."+x] = f + ".val." + x
	}
	fields(r, nil, m)
	for _, q := range []struct{ root, list string }{
		{"query.FundingsByFunder", "funders.GetPaginatedFundingQuery(req.Pagination, req.Address, nil, req.Status)"},
		{"query.FundingsByPool", "funders.GetPaginatedFundingQuery(req.Pagination, nil, req.PoolId, req.Status)"},
	} {
		r = c.root(q.root)
		fields(r, nil, map[string]string{"Pagination": q.list + ".r1"})
		items(r, "Fundings", q.list+".r0", "Amounts", "AmountsPerBundle", "FunderAddress", "PoolId", "TotalFunded")
	}
	r = c.root("query.Funders")
	items(r, "Funders", "funders.GetPaginatedFundersQuery(req.Pagination, req.Search).r0", "Address", "Contact", "Description", "Identity", "Moniker", "Website")

	r = c.root("query.AccountAssets")
	ub := "delegation.GetAllUnbondingDelegationQueueEntriesOfDelegator(req.Address)"
	fields(r, nil, map[string]string{
		"Balance":                         "bank.GetBalance(addr(req.Address), global.Denom).Amount",
		"ProtocolFunding":                 "fold(nil, cadd(acc, elem(" + fs + ").Amounts))",
		"ProtocolDelegationUnbonding":     "fold(0, acc + elem(" + ub + ").Amount)",
		"ProtocolSelfDelegation":          "delegation.GetDelegationAmountOfDelegator(req.Address, req.Address)",
		"ProtocolSelfDelegationUnbonding": "fold(0, ite(req.Address == elem(" + ub + ").Staker, acc + elem(" + ub + ").Amount, acc))",
	})

	g := "pool.GetPool(req.Id)"
	r = c.root("query.Pool")
	r.always(g + ".ok")
	members := "stakers.GetAllStakerAddressesOfPool(req.Id)"
	fields(r, []string{g + ".val.Id == req.Id"}, map[string]string{
		"Pool.Id":                  "req.Id",
		"Pool.Data":                g + ".val",
		"Pool.BundleProposal":      "bundles.GetBundleProposal(req.Id).val",
		"Pool.Stakers":             members,
		"Pool.TotalDelegation":     "delegation.GetDelegationOfPool(req.Id)",
		"Pool.TotalSelfDelegation": "fold(0, acc + delegation.GetDelegationAmountOfDelegator(elem(" + members + "), elem(" + members + ")))",
	})
	st := "stakers.GetStaker($1).val"
	r = c.root("query.GetFullStaker")
	pc := "stakers.GetCommissionChangeEntryByIndex2($1)"
	fields(r, nil, map[string]string{
		"Address":                    "$1",
		"Metadata.Commission":        st + ".Commission",
		"Metadata.CommissionRewards": st + ".CommissionRewards",
		"Metadata.Moniker":           st + ".Moniker",
		"Metadata.Website":           st + ".Website",
		"Metadata.Identity":          st + ".Identity",
		"Metadata.SecurityContact":   st + ".SecurityContact",
		"Metadata.Details":           st + ".Details",
		"SelfDelegation":             "delegation.GetDelegationAmountOfDelegator($1, $1)",
		"TotalDelegation":            "delegation.GetDelegationAmount($1)",
		"DelegatorCount":             "delegation.GetDelegationData($1).val.DelegatorCount",
	})
	r.returnsField(0, "Metadata.PendingCommissionChange.Commission", []string{pc + ".ok"}, pc+".val.Commission")
	r.returnsField(0, "Metadata.PendingCommissionChange", []string{"!" + pc + ".ok"}, "nil")
	va := "stakers.GetValaccountsFromStaker($1)"
	items(r, "Pools", va, "Points", "IsLeaving", "Valaddress")

	r = c.root("query.FinalizedBundlesQuery")
	ix := "bundles.GetFinalizedBundleByIndex(req.PoolId, strconv.ParseUint(req.Index, 10, 64).val)"
	for _, x := range r.when("req.Index != \"\"", ix+".ok") {
		got := x.st.simp(r.e.in.path(x.vals[0], []string{"FinalizedBundles"}))
		c.check(r.same(x.st, "append(_, list("+ix+".val))", got, x.b.copy()), "bundle by index", x.pos, "the bundles reported for an index are %s, expected the bundle that contains it", clip(got.String()))
	}
	r.returnsField(0, "FinalizedBundles", []string{"req.Index == \"\""}, "bundles.GetPaginatedFinalizedBundleQuery(req.Pagination, req.PoolId).r0")
}

// items: a list field holds, for each element of the source list, a record
// with the same fields.
func items(r *Root, field, list string, fields ...string) {
	n := 0
	for _, x := range r.success() {
		got := x.st.simp(r.e.in.path(x.vals[0], strings.Split(field, ".")))
		var rec *Term
		calls(got, "append", func(*Term) {})
		walkTerms(got, func(t *Term) {
			if _, fs := structFields(t); rec == nil && len(fs) >= len(fields) {
				ok := true
				for _, f := range fields {
					ok = ok && fs[f] != nil
				}
				if ok {
					rec = t
				}
			}
		})
		if rec == nil {
			r.c.check(false, r.name+": "+field, x.pos, "%s: %s is %s, not the records of %s", r.name, field, clip(got.String()), list)
			continue
		}
		n++
		for _, f := range fields {
			v := x.st.simp(r.e.in.path(rec, []string{f}))
			r.c.check(r.same(x.st, "elem("+list+")."+f, v, x.b.copy()), r.name+": "+field+"."+f, x.pos, "%s: %s of an element of %s is %s, expected that of the stored record", r.name, f, field, clip(v.String()))
		}
	}
	r.c.check(n > 0, r.name+": "+field, r.fn.Pos(), "%s: %s is not reported", r.name, field)
}

func walkTerms(t *Term, f func(*Term)) {
	seen := map[*Term]bool{}
	var w func(*Term)
	w = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		f(t)
		for _, a := range t.Args {
			w(a)
		}
	}
	w(t)
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}
