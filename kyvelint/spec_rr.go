package main

import (
	"fmt"
	"strings"
)

// ---- x/bundles: choice of the next uploader

// centred: a progress map is scaled to a spread of at most twice the total power
// and shifted so that it adds up to about zero.
func (r *Root) centred(st *State, got *Term, p, v string, b binds) (bool, string) {
	n := strings.NewReplacer("#P", p, "#V", v)
	total := "fold(0, acc + elem(#V).Power)"
	first := "lookup(#P, #V[0].Address)"
	diff := "(fold(" + first + ", max(acc, mapval(#P))) - fold(" + first + ", min(acc, mapval(#P))))"
	scaled := "fold(#P, mapset(acc, elem(#V).Address, trunc(dquo(2 * " + total + " * lookup(acc, elem(#V).Address), " + diff + "))))"
	// of every key of the map (which is the third part of the fold, if it is not
	// what the second part names)
	b1 := b.copy()
	switch {
	case r.e.match(r.e.T("fold(_s, mapset(acc, mapkey(_k), lookup(acc, mapkey(_k)) - trunc(dquo(_t, _l))), _s)", nil), got, b1):
		b = b1
	case r.e.match(r.e.T("fold(_s, mapset(acc, mapkey(_s), lookup(acc, mapkey(_s)) - trunc(dquo(_t, _l))))", nil), got, b):
	default:
		return false, "not every score is shifted by the average: " + clip(got.String())
	}
	sum := "ite(" + diff + " > 2 * " + total + ", fold(0, acc + %s), fold(0, acc + mapval(#P)))"
	for _, x := range [][]string{
		{"scaled scores", "_s", "ite(" + diff + " > 2 * " + total + ", " + scaled + ", #P)"},
		{"sum of scores", "_t", fmt.Sprintf(sum, "lookup("+scaled+", elem(#V).Address)"), fmt.Sprintf(sum, "trunc(dquo(2 * "+total+" * lookup("+scaled+", elem(#V).Address), "+diff+"))")},
		{"number of members", "_l", "len(#V)"},
	} {
		ok := false
		for _, want := range x[2:] {
			ok = ok || r.same(st, n.Replace(want), b[x[1]], b.copy())
		}
		if !ok {
			return false, "the " + x[0] + " are " + clip(b[x[1]].String()) + ", expected " + clip(n.Replace(x[2]))
		}
	}
	return true, ""
}

func init() {
	reg("C24", "The round robin code is interpreted symbolically over maps and lists: the progress after a choice, the chosen member, the scaling and centring, the candidates and the start score of newcomers are compared with their definitions; at every place that saves a progress the excluded stakers and the saved scores must belong to the choice that was made.",
		func(c *Ctx) {
			const V = "self.Validators"
			ex := func(x string) string { return "(len(" + V + ") != len($1) && contains($1, " + x + "))" }
			nobody, some := []string{"len(" + V + ") == 0"}, []string{"len(" + V + ") != 0"}
			c.sec("choice", func() {
				r := c.root("bundles.RoundRobinValidatorSet.NextProposer")
				r.returns(0, nobody, `""`)
				for _, x := range r.when(some...) {
					P := x.post["self"]
					if P != nil {
						P = x.st.simp(r.e.in.path(x.st.simp(P), []string{"Progress"}))
					}
					b := binds{}
					if P == nil || !r.e.match(r.e.T("mapset(fold(_n, _), _, _)", nil), P, b) {
						c.check(false, "progress of the chosen", x.pos, "NextProposer leaves the progress as %s: nobody pays for being chosen", clip(P.String()))
						continue
					}
					c.check(true, "progress of the chosen", x.pos, "")
					b["_u"] = P.Args[0]
					b["_c"] = x.st.simp(x.vals[0])
					say := func(what, want string, got *Term) {
						c.check(r.same(x.st, want, got, b.copy()), what, x.pos, "NextProposer: %s is %s, expected %s", what, clip(got.String()), want)
					}
					ok, why := r.centred(x.st, b["_n"], "self.Progress", V, binds{})
					c.check(ok, "normalised progress", x.pos, "NextProposer: %s", why)
					say("progress of the round", "fold(_n, ite("+ex("elem("+V+").Address")+", acc, mapset(acc, elem("+V+").Address, elem("+V+").Power + lookup(acc, elem("+V+").Address))))", b["_u"])
					say("next uploader", "fold("+V+"[0].Address, ite("+ex("elem("+V+").Address")+", acc, ite(!"+ex("acc")+" && lookup(_u, elem("+V+").Address) <= lookup(_u, acc), acc, elem("+V+").Address)))", b["_c"])
					say("progress afterwards", "mapset(_u, _c, lookup(_u, _c) - (fold(0, acc + elem("+V+").Power) - fold(0, ite("+ex("elem("+V+").Address")+", acc + elem("+V+").Power, acc))))", P)
				}
				r.post("self", some, map[string]string{"Progress": "_"})
				r.post("self", nobody, map[string]string{})
			})
			c.sec("members", func() {
				r := c.root("bundles.LoadRoundRobinValidatorSet")
				m := "elem(stakers.GetAllStakerAddressesOfPool($1))"
				d := "delegation.GetDelegationAmount(" + m + ")"
				vals := "fold(nil, ite(" + d + " == 0, acc, append(acc, list(rec(\"Address\", " + m + ", \"Power\", " + d + ")))))"
				total := "fold(0, ite(" + d + " == 0, acc, " + d + " + acc))"
				r.returnsField(0, "PoolId", nil, "$1")
				for _, x := range r.when() {
					got := func(f string) *Term { return x.st.simp(r.e.in.path(x.vals[0], []string{f})) }
					v := got("Validators")
					c.check(r.e.match(r.e.T(vals, nil), v, binds{}), "members", x.pos, "LoadRoundRobinValidatorSet: the candidates are %s, expected %s", clip(v.String()), vals)
					b := binds{"_v": v}
					old := "elem(bundles.GetRoundRobinProgress($1).val.ProgressList)"
					known := "fold(fold(emptymap(), ite(" + d + " == 0, acc, mapset(acc, " + m + ", 0))), ite(haskey(acc, " + old + ".Address), mapset(acc, " + old + ".Address, " + old + ".Progress + lookup(acc, " + old + ".Address)), acc))"
					fresh := "fold(fold(emptymap(), ite(" + d + " == 0, acc, mapset(acc, " + m + ", true))), mapset(acc, " + old + ".Address, false))"
					base := "fold(" + known + ", ite(mapval(" + fresh + "), mapset(acc, mapkey(" + fresh + "), trunc(-1.125 * " + total + ")), acc))"
					p := got("Progress")
					b["_b"] = r.e.T(base, nil)
					some := x.st.clone()
					r.assumeAll(some, []string{"len(_v) != 0"}, b.copy())
					ok, why := r.centred(some, some.simp(p), "_b", "_v", b)
					c.check(ok, "progress", x.pos, "LoadRoundRobinValidatorSet: %s", why)
				}
			})
			c.sec("after the removals", func() {
				for _, o := range c.rounds() {
					points := "stakers.IncrementPoints(" + o.pool + ", elem(" + o.mem() + "))"
					left := "stakers.LeavePool(elem(" + o.bp() + ".%s), " + o.pool + ")"
					n := 0
					for _, s := range o.r.some("bundles.LoadRoundRobinValidatorSet(" + o.pool + ")") {
						if o.r.holdsIn(s.state(), o.bp()+".StorageId == \"\"", s.b.copy()) {
							continue
						}
						n++
						s.sees(points)
						if !o.r.holdsIn(s.state(), "!("+o.is(statusValid)+")", s.b.copy()) {
							s.sees(fmt.Sprintf(left, "VotersInvalid"))
						}
						if !o.r.holdsIn(s.state(), "!("+o.is(statusInvalid)+")", s.b.copy()) {
							s.sees(fmt.Sprintf(left, "VotersValid"))
						}
					}
					c.check(n > 0, o.root+": choice at the end of a round", o.r.fn.Pos(), "%s never chooses an uploader at the end of a round", o.root)
				}
			})
			c.sec("excluded", func() {
				for _, o := range c.rounds() {
					load := "bundles.LoadRoundRobinValidatorSet(" + o.pool + ")"
					choice := "bundles.RoundRobinValidatorSet.NextProposer(" + load + ", _x)"
					open := o.bp() + ".StorageId != \"\""
					save := "bundles.SetRoundRobinProgress(rec(\"PoolId\", " + choice + ".arg0.PoolId, \"ProgressList\", fold(_, append(acc, list(rec(\"Address\", mapkey(" + choice + ".arg0.Progress), \"Progress\", mapval(" + choice + ".arg0.Progress)))))))"
					for _, s := range o.r.only("bundles.SetRoundRobinProgress", save) {
						if o.root == "bundles.SkipUploaderRole" {
							s.guard("_x == list(msg.Staker)")
							continue
						}
						others := "fold(_, ite(contains(" + o.bp() + ".VotersValid, elem(" + load + ".Validators).Address), acc, append(acc, list(elem(" + load + ".Validators).Address))))"
						st := s.state().clone()
						o.r.assumeAll(st, []string{open, o.is(statusValid)}, s.b.copy())
						x := st.simp(s.b["_x"])
						c.check(st.dead || o.r.e.match(o.r.e.T(others, nil), x, binds{}), o.root+": excluded after a valid round", s.Pos, "%s: after a valid round the excluded are %s, not those who did not vote valid", o.root, clip(x.String()))
						s.within([]string{"!(" + open + ") || !(" + o.is(statusValid) + ")"}, "len(_x) == 0")
					}
					n := 0
					for _, s := range o.r.some("bundles.SetBundleProposal(_)") {
						next := s.state().simp(o.r.e.in.path(s.arg(0), []string{"NextUploader"}))
						if !o.r.e.match(o.r.e.T(choice, nil), next, s.b) {
							continue
						}
						n++
						s.after(save)
					}
					c.check(n > 0, o.root+": choice", o.r.fn.Pos(), "%s never chooses an uploader by the round robin", o.root)
				}
			})
		})
}
