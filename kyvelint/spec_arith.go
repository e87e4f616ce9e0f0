package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C44: unsigned arithmetic

// ordered: differences whose operands are ordered by an invariant of the
// stored records, with the reason.
var orderedBy = [][3]string{
	{"_x.Clawback", "_x.Commencement", "a clawback before the commencement is rejected (C06)"},
	{"_x.TotalRewards", "_x.RewardsClaimed", "claims are bounded by the difference (C06)"},
	{"team.getVestedAmount(_x, _t)", "team.getUnlockedAmount(_x, _t)", "what is unlocked is a share of what is vested (C06)"},
	{"team.getVestingMaxAmount(_x)", "team.getVestedAmount(_x, _t)", "vesting grows with time (C06)"},
	{"_x.TotalAllocation", "team.getVestingMaxAmount(_x)", "the vested amount is a share of the allocation (C06)"},
	{"_x.TotalAllocation", "team.getVestingMaxAmount(_y)", "the vested amount is a share of the allocation (C06)"},
	{"team.getVestedAmount(_x, _t)", "_x.UnlockedClaimed", "only unlocked amounts are claimed (C06)"},
	{"delegation.GetDelegationData(_s).val.TotalDelegation", "delegation.f1GetCurrentDelegation(_s, _d)", "the total is the sum of the delegations (C10)"},
	{"delegation.GetDelegationData(_s).val.DelegatorCount", "1", "the delegator is counted (C10)"},
	{"delegation.GetDelegationData(_s).val.TotalDelegation", "trunc(_f * delegation.GetDelegationData(_s).val.TotalDelegation)", "slash fractions are at most one (C35)"},
	{"stakers.getStat(_p, stakers.STAKER_STATS_COUNT)", "1", "the leaving staker is counted (C31)"},
	{"pool.GetPoolCount()", "1", "a pool has been appended (C28)"},
}

// boundary of a value in terms of the message: the numeric fields of the
// message it is made of.
func msgAtoms(t *Term, sign int, out map[*Term]int) {
	switch {
	case t.Op == OpBin && (t.Name == "add" || t.Name == "mul"):
		for _, a := range t.Args {
			msgAtoms(a, sign, out)
		}
	case t.Op == OpBin && t.Name == "sub":
		msgAtoms(t.Args[0], sign, out)
		msgAtoms(t.Args[1], -sign, out)
	case t.Op == OpIte:
		msgAtoms(t.Args[1], sign, out)
		msgAtoms(t.Args[2], sign, out)
	case t.Op == OpField:
		b := t
		for b.Op == OpField || b.Op == OpElem {
			b = b.Args[0]
		}
		if b.Op == OpParam && b.Name == "msg" {
			out[t] += sign
		}
	}
}

func isUint(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// notMore: is y at most x, given what is known?
func (r *Root) notMore(st *State, y, x *Term, depth int) bool {
	in := r.e.in
	y, x = st.simp(y), st.simp(x)
	if st.dead || y == in.Zero || y == x || x.isConst() && x.Name == "18446744073709551615" {
		return true
	}
	if depth == 0 {
		return false
	}
	for _, t := range []*Term{y, x} {
		if t.Op == OpIte {
			return r.cases(st, t.Args[0], func(s *State) bool {
				r.resimp(s)
				return r.notMore(s, y, x, depth-1)
			})
		}
	}
	if st.holds(in.le(y, x, true)) {
		return true
	}
	if y.Op == OpBin && y.Name == "sub" && r.notMore(st, y.Args[0], x, depth-1) {
		return true
	}
	if y.Op == OpBin && y.Name == "min" {
		for _, a := range y.Args {
			if r.notMore(st, a, x, depth-1) {
				return true
			}
		}
	}
	if x.Op == OpBin && (x.Name == "add" || x.Name == "max") {
		for _, a := range x.Args {
			if r.notMore(st, y, a, depth-1) {
				return true
			}
		}
	}
	return r.decide(st, in.le(y, x, true), 6)
}

// bounded: is the user's value limited by stored or constant values, or has
// that amount of coins already been transferred?
func (r *Root) bounded(st *State, a *Term) bool {
	in := r.e.in
	atoms := func(t *Term) map[*Term]int {
		m := map[*Term]int{}
		msgAtoms(t, 1, m)
		return m
	}
	limits := func(lo, hi *Term) bool {
		if atoms(lo)[a] <= 0 {
			return false
		}
		for _, n := range atoms(hi) {
			if n > 0 {
				return false
			}
		}
		return true
	}
	for _, f := range st.facts {
		switch f.Op {
		case OpLe, OpLt:
			if limits(f.Args[0], f.Args[1]) {
				return true
			}
		case OpEq:
			if len(f.Args) == 2 && f.Args[1] != in.True && (limits(f.Args[0], f.Args[1]) || limits(f.Args[1], f.Args[0])) {
				return true
			}
		}
	}
	return r.sent(st, a)
}

func (r *Root) sent(st *State, a *Term) bool {
	for _, f := range st.facts {
		if f.Op != OpDid {
			continue
		}
		t := f.Args[0]
		ok := false
		for _, x := range t.Args {
			ok = ok || strings.HasPrefix(t.Name, "util.Transfer") && x == a
		}
		ok = ok || strings.Contains(t.Name, "SendCoins") && t.contains(func(y *Term) bool {
			return y.Op == OpCall && y.Name == "coin" && len(y.Args) == 2 && y.Args[1] == a
		})
		if ok {
			return true
		}
	}
	return false
}

// paid: that amount of coins is transferred whenever the message succeeds.
func (r *Root) paid(a *Term) bool {
	n := 0
	for _, x := range r.success() {
		n++
		if !r.sent(x.st, a) {
			return false
		}
	}
	return n > 0
}

// onlyCoin: is the value only used as the amount of a coin, which has to be
// non-negative?
func onlyCoin(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, ref := range *v.Referrers() {
		c, ok := ref.(*ssa.Call)
		if !ok || c.Call.StaticCallee() == nil || c.Call.StaticCallee().Name() != "NewInt64Coin" {
			return false
		}
	}
	return true
}

// sharesOf: a sum of truncated shares of m.
func sharesOf(m, s *Term) bool {
	if s.Op != OpCall || s.Name != "fold" || len(s.Args) < 2 || s.Args[0].Name != "0" {
		return false
	}
	share := func(t *Term) bool {
		has := false
		t.contains(func(y *Term) bool { has = has || y == m; return has })
		return has && t.Op == OpCall && t.Name == "trunc" && t.contains(func(y *Term) bool { return y.Name == "dquo" })
	}
	some := false
	for _, o := range alts(s.Args[1]) {
		switch {
		case o.Op == OpParam:
		case o.Op == OpBin && o.Name == "add" && len(o.Args) == 2 && (o.Args[0].Op == OpParam && share(o.Args[1]) || o.Args[1].Op == OpParam && share(o.Args[0])):
			some = true
		default:
			return false
		}
	}
	return some
}

// keepIf keeps the functions that exist.
func (c *Ctx) keepIf(names ...string) opt {
	var have []string
	for _, n := range names {
		if len(c.su.byName[n]) > 0 {
			have = append(have, n)
		}
	}
	return keep(have...)
}

func init() {
	regT("C44", "path-sensitive symbolic execution of every entry point with an order domain over unsigned operands; taint of user values through sums, products and narrowing conversions",
		"Every subtraction of unsigned integers that messages, block steps, queries and transaction checks can reach is enumerated on the source and executed in the context of every entry point: at each execution the path (guards, minima, earlier differences) proves that the subtrahend is at most the minuend, or the pair is one of the listed invariants of the stored records (a clawback never precedes the commencement, claimed rewards never exceed total rewards, a sum of truncated shares never exceeds the whole, …), each decided by the property named with it. Every sum, product, shift and narrowing conversion of a number taken from a message is executed with that number already limited by a stored or constant value on the path, or the message fails unless exactly that amount of coins has been transferred; a check that itself compares a wrapping sum therefore does not count.",
		func(c *Ctx) {
			subs := map[*ssa.BinOp]bool{}
			users := 0
			keeps := c.keepIf("team.getVestedAmount", "team.getUnlockedAmount", "team.getVestingMaxAmount", "team.GetIssuedTeamAllocation", "delegation.f1GetCurrentDelegation",
				"bundles.GetVoteDistribution", "bundles.LoadRoundRobinValidatorSet", "bundles.RoundRobinValidatorSet.NextProposer")
			one := func(fn *ssa.Function, name string, query bool, opts ...opt) {
				r := c.rootFn(fn, name, "arith", append([]opt{arith, keeps}, opts...)...)
				for i, s := range r.sites {
					switch s.Name {
					case "arith +", "arith *", "arith <<", "arith conv":
						x := s.Ins.(ssa.Value)
						st := s.state()
						atoms := map[*Term]int{}
						for i := range s.call.Args {
							msgAtoms(st.simp(s.arg(i)), 1, atoms)
						}
						if s.Name == "arith conv" && onlyCoin(x) {
							continue
						}
						for a, n := range atoms {
							if n > 0 {
								users++
								c.check(r.bounded(st, a) || r.paid(a), "user value in "+shortName(s.Fn), s.Pos, "%s: %s of %s with the user's %s can wrap", name, strings.TrimPrefix(s.Name, "arith "), clip(s.call.String()), clip(a.String()))
							}
						}
					case "arith -":
						x := s.Ins.(*ssa.BinOp)
						if !isUint(x.Type()) {
							continue
						}
						subs[x] = true
						st := s.state()
						a, b := st.simp(s.arg(0)), st.simp(s.arg(1))
						fits := func(a *Term) bool {
							ok := r.notMore(st, b, a, 8)
							for _, o := range orderedBy {
								bs := binds{}
								ok = ok || r.e.match(r.e.T(o[0], nil), a, bs) && r.e.match(r.e.T(o[1], nil), b, bs)
							}
							// the shares are those C06 and C30 decide
							ok = ok || sharesOf(a, b)
							// the funds the team module must hold cover what it still owes
							ok = ok || query && b.Op == OpField && fieldOf(b) == "UnlockedClaimed" && a.contains(func(y *Term) bool { return y == r.e.T("team.TEAM_ALLOCATION", nil) })
							ok = ok || query && a == r.e.T("team.TEAM_ALLOCATION", nil) && b == r.e.T("team.GetIssuedTeamAllocation()", nil)
							return ok
						}
						ok := fits(a)
						// a difference that is only added to something: the sum counts
						if u := x.Referrers(); !ok && u != nil && len(*u) == 1 {
							if sum, is := (*u)[0].(*ssa.BinOp); is && sum.Op == token.ADD {
								for _, t := range r.sites[i+1:] {
									if t.Ins == ssa.Instruction(sum) {
										for k, y := range []ssa.Value{sum.X, sum.Y} {
											ok = ok || y != ssa.Value(x) && fits(r.e.in.bin("add", st.simp(t.arg(k)), a))
										}
										break
									}
								}
							}
						}
						c.check(ok, "difference in "+shortName(s.Fn), s.Pos, "%s: %s - %s can wrap", name, clip(a.String()), clip(b.String()))
					}
				}
			}
			for _, en := range c.entries() {
				en := en
				if en.kind == "upgrade" || en.kind == "genesis" || en.kind == "export" {
					continue
				}
				c.sec(en.kind+" "+en.name, func() {
					c.check(true, "entry", en.fn.Pos(), "")
					one(en.fn, en.name, en.kind == "query")
				})
			}
			c.sec("values of users", func() {
				c.check(users >= 4, "values of users", 0, "only %d additions of values of users were found", users)
			})
			c.sec("kept functions", func() {
				for _, f := range c.handwritten(c.reachableFrom(map[string]bool{"msg": true, "begin": true, "end": true, "query": true})) {
					has := false
					for _, b := range f.Blocks {
						for _, ins := range b.Instrs {
							x, ok := ins.(*ssa.BinOp)
							has = has || ok && x.Op == token.SUB && isUint(x.Type()) && !subs[x]
						}
					}
					if has && f.Parent() == nil {
						one(f, shortName(f), false, storeMode)
					}
				}
			})
			c.sec("covered", func() {
				for _, f := range c.handwritten(c.reachableFrom(map[string]bool{"msg": true, "begin": true, "end": true, "query": true})) {
					for _, b := range f.Blocks {
						for _, ins := range b.Instrs {
							x, ok := ins.(*ssa.BinOp)
							if ok && x.Op == token.SUB && isUint(x.Type()) {
								c.check(subs[x], "difference in "+shortName(f), x.Pos(), "a difference in %s was not analysed", shortName(f))
							}
						}
					}
				}
			})
		})
}
