package main

import (
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Records which are stored under several keys.

type indexKind struct {
	prefix string
	key    []string // the fields of the record the key consists of
	val    string   // the field stored as the value, "" for anything, "*" for the record
}

var indexed = [][]indexKind{
	{{"bundles.FinalizedBundlePrefix", []string{"PoolId", "Id"}, "*"}, {"bundles.FinalizedBundleByIndexPrefix", []string{"PoolId", "FromIndex"}, "Id"}},
	{{"delegation.DelegatorKeyPrefix", []string{"Staker", "Delegator"}, "*"}, {"delegation.DelegatorKeyPrefixIndex2", []string{"Delegator", "Staker"}, ""}},
	{{"delegation.UndelegationQueueKeyPrefix", []string{"Index"}, "*"}, {"delegation.UndelegationQueueKeyPrefixIndex2", []string{"Delegator", "Index"}, ""}},
	{{"funders.FundingKeyPrefixByFunder", []string{"FunderAddress", "PoolId"}, "*"}, {"funders.FundingKeyPrefixByPool", []string{"PoolId", "FunderAddress"}, "*"}},
	{{"stakers.ValaccountPrefix", []string{"PoolId", "Staker"}, "*"}, {"stakers.ValaccountPrefixIndex2", []string{"Staker", "PoolId"}, ""}},
	{{"stakers.CommissionChangeEntryKeyPrefix", []string{"Index"}, "*"}, {"stakers.CommissionChangeEntryKeyPrefixIndex2", []string{"Staker"}, "Index"}},
	{{"stakers.LeavePoolEntryKeyPrefix", []string{"Index"}, "*"}, {"stakers.LeavePoolEntryKeyPrefixIndex2", []string{"Staker", "PoolId"}, ""}},
}

// only in memory, rebuilt in the first block
var memoryIndex = map[string]bool{"bundles.FinalizedBundleByIndexPrefix": true}

// storeAccess: a write to or a deletion from the store of an indexed record.
type storeAccess struct {
	s    *S
	op   string
	kind indexKind
	id   map[string]*Term // the fields of the key
	val  *Term
}

func (c *Ctx) storeAccesses(r *Root, group []indexKind) []storeAccess {
	var out []storeAccess
	for _, s := range r.sites {
		if s.Name != "store.Set" && s.Name != "store.Delete" {
			continue
		}
		l := c.layouts(r, s.call.Args[0], s.call.Args[1])[0]
		for _, k := range group {
			b, ok := c.initBytes(k.prefix)
			if !ok || l.head() != b || l.store != "kv" && !memoryIndex[k.prefix] {
				continue
			}
			var parts []keyPart
			for _, p := range l.merged() {
				if p.kind != 'c' {
					parts = append(parts, p)
				}
			}
			a := storeAccess{s: s, op: s.Name, kind: k, id: map[string]*Term{}}
			if c.check(len(parts) == len(k.key), r.name+" "+k.prefix, s.Pos, "%s uses the key %s for a record identified by %v", r.name, l, k.key) {
				for i, p := range parts {
					a.id[k.key[i]] = p.term
				}
				if a.op == "store.Set" {
					a.val = s.call.Args[2]
				}
				out = append(out, a)
			}
		}
	}
	return out
}

// agree: the two accesses use the same values for the fields they share.
func (a storeAccess) agree(b storeAccess) bool {
	n := 0
	for f, x := range a.id {
		if y, ok := b.id[f]; ok {
			if x != y {
				return false
			}
			n++
		}
	}
	return n > 0 || len(a.id) == 0 || len(b.id) == 0 || sharedBase(a, b)
}

// sharedBase: all fields of the keys are fields of one record.
func sharedBase(a, b storeAccess) bool {
	var base *Term
	for _, m := range []map[string]*Term{a.id, b.id} {
		for f, x := range m {
			if x.Op != OpField || fieldOf(x) != f || base != nil && x.Args[0] != base {
				return false
			}
			base = x.Args[0]
		}
	}
	return true
}

func (c *Ctx) writersOf(group []indexKind) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range c.pr.Funcs {
		if c.su.direct[f]&dWrite == 0 || f.Parent() != nil || strings.Contains(fnPkgPath(f), "/app") {
			continue
		}
		for _, k := range group {
			if c.su.writes[f][k.prefix] {
				out = append(out, f)
				break
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return shortName(out[i]) < shortName(out[j]) })
	return out
}

func init() {
	regT("C31", "symbolic execution of every writer of an indexed record: agreement of the keys and pairing of the writes on every path; call-order rules over the call graph for derived orders and counters", "Seven kinds of records have a second key (finalized bundles, delegators, undelegation queue, fundings, pool memberships, commission changes, leave queue). For every function that stores or deletes under one of these prefixes: each write or deletion under one key is accompanied on every path by the same under the other key, both keys are computed from the same record (the stored value is that record, a stored reference is its identifier), deletions by record get a record just read from the store, and no key field of a stored record is reassigned. Stake order: the key is the highest number less the staker's total delegation, followed by the staker; every function which changes a total delegation is called only between the removal from the order and the new insertion, on all paths from outside the module. Memberships: whoever stores a new membership or deletes one changes the member count of the pool and the pools of the staker by one, and nobody else does; the counters themselves add and subtract one and drop a staker in no pool.", func(c *Ctx) {
		for _, group := range indexed {
			c.sec("entries of "+group[0].prefix, func() {
				ws := c.writersOf(group)
				var names []string
				for _, f := range ws {
					names = append(names, shortName(f))
				}
				ops := map[string]bool{}
				for _, f := range ws {
					r := c.rootFn(f, shortName(f), "index", storeMode, expand(names...))
					acc := c.storeAccesses(r, group)
					onlyMemory := true
					for _, a := range acc {
						ops[a.op] = true
						onlyMemory = onlyMemory && memoryIndex[a.kind.prefix]
					}
					for _, a := range acc {
						if a.val != nil {
							switch a.kind.val {
							case "*":
								v := a.val
								ok := v.Op == OpCall && v.Name == "marshal" && len(v.Args) == 1
								if ok {
									for _, f := range a.kind.key {
										ok = ok && a.s.state().simp(r.e.canon(r.e.in.field(v.Args[0], f))) == a.id[f]
									}
								}
								c.check(ok, r.name+" "+a.kind.prefix+" value", a.s.Pos, "%s stores %s, whose %v are not the key it is stored under (%s)", r.name, clip(v.String()), a.kind.key, clip(a.s.call.Args[1].String()))
							case "":
							default:
								b := a.val
								if b.Op == OpCall && b.Name == "key" && len(b.Args) == 1 {
									b = b.Args[0]
								}
								hit := false
								for _, o := range acc {
									hit = hit || o.op == a.op && o.id[a.kind.val] == b && o.agree(a)
								}
								if onlyMemory {
									hit = b.Op == OpField && fieldOf(b) == a.kind.val && sharedBase(a, storeAccess{id: map[string]*Term{a.kind.val: b}})
								}
								c.check(hit, r.name+" "+a.kind.prefix+" value", a.s.Pos, "%s stores %s under its second key, which is not the %s of the record", r.name, clip(b.String()), a.kind.val)
							}
						}
						if onlyMemory {
							continue
						}
						for _, k := range group {
							if k.prefix == a.kind.prefix || a.op == "store.Delete" && memoryIndex[k.prefix] && !ops["store.Delete"] {
								continue
							}
							ok := false
							for _, o := range acc {
								if o.kind.prefix != k.prefix || o.op != a.op || !o.agree(a) {
									continue
								}
								all := true
								for _, x := range r.rets {
									all = all && hasDid(x.st, a.s.call) == hasDid(x.st, o.s.call)
								}
								ok = ok || all
							}
							c.check(ok, r.name+" "+a.kind.prefix+" with "+k.prefix, a.s.Pos, "%s: %s under %s is not always accompanied by the same under %s with the same record", r.name, a.op, a.kind.prefix, k.prefix)
						}
					}
				}
				c.check(ops["store.Set"], group[0].prefix, 0, "no function writes records under %s", group[0].prefix)
			})
		}
		// records are deleted as they were stored
		c.sec("deleted records", func() {
			del := map[string]bool{}
			for _, group := range indexed {
				for _, f := range c.writersOf(group) {
					r := c.rootFn(f, shortName(f), "+store", storeMode)
					for _, a := range c.storeAccesses(r, group) {
						if a.op == "store.Delete" {
							for _, x := range a.id {
								if x.Op == OpField {
									del[shortName(f)] = true
								}
							}
						}
					}
				}
			}
			n := 0
			var todo []*ssa.Function
			for _, f := range c.pr.Funcs {
				if f.Parent() != nil || c.su.direct[f] != 0 || !isRepoPath(fnPkgPath(f)) || strings.Contains(fnPkgPath(f), "/app") {
					continue
				}
				for _, g := range c.su.callees[f] {
					if del[shortName(g)] {
						todo = append(todo, f)
						break
					}
				}
			}
			done := map[*ssa.Function]bool{}
			for len(todo) > 0 {
				f := todo[0]
				todo = todo[1:]
				if done[f] {
					continue
				}
				done[f] = true
				r := c.rootFn(f, shortName(f), "0")
				for _, s := range r.sites {
					if !del[s.Name] {
						continue
					}
					n++
					st := s.state()
					a := st.simp(s.arg(0))
					ok := storedRecord(r, st, a)
					if !ok && a.contains(func(x *Term) bool { return x.Op == OpParam }) && len(c.su.callers[f]) > 0 {
						// the record is handed in: judged where it comes from
						todo = append(todo, c.su.callers[f]...)
						continue
					}
					c.check(ok, r.name+" "+s.Name, s.Pos, "%s deletes %s, which is not a record read from the store", r.name, clip(a.String()))
				}
			}
			c.check(n > 0, "deleted records", 0, "no function deletes records with second keys")
		})
		c.sec("keys of records", func() { c.keysFixed() })
		c.sec("stake order", func() { c.stakeOrder() })
		c.sec("members", func() { c.members() })
	})
}

// storedRecord: the term is the unchanged result of a getter which found it, or an
// element of a list of records.
func storedRecord(r *Root, st *State, a *Term) bool {
	if a.Op == OpElem {
		a = a.Args[0]
		return a.Op == OpCall && r.c.accessor(a) != nil
	}
	if a.Op != OpRes || a.Name != "val" {
		return false
	}
	g := a.Args[0]
	return g.Op == OpCall && r.c.accessor(g) != nil && r.holdsIn(st, "_g.ok", binds{"_g": g})
}

// keysFixed: a record read from the store never gets another key.
func (c *Ctx) keysFixed() {
	keys := map[string]map[string]bool{
		"FinalizedBundle": {"PoolId": true, "Id": true, "FromIndex": true}, "Delegator": {"Staker": true, "Delegator": true}, "UndelegationQueueEntry": {"Index": true, "Delegator": true},
		"Funding": {"FunderAddress": true, "PoolId": true}, "Valaccount": {"PoolId": true, "Staker": true}, "CommissionChangeEntry": {"Index": true, "Staker": true}, "LeavePoolEntry": {"Index": true, "Staker": true, "PoolId": true},
		"DelegationData": {"Staker": true},
	}
	n := 0
	for _, f := range c.pr.Funcs {
		if !isRepoPath(fnPkgPath(f)) || isPB(c.pr, f) || strings.Contains(fnPkgPath(f), "/app") {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				nt := namedOf(fa.X.Type())
				if nt == nil || nt.Obj().Pkg() == nil || !isRepoPath(nt.Obj().Pkg().Path()) || !keys[nt.Obj().Name()][fieldName(fa)] {
					continue
				}
				n++
				c.check(freshRecord(fa.X, st), shortName(f)+" "+nt.Obj().Name()+"."+fieldName(fa), st.Pos(), "%s changes %s of a %s, which is part of the key it is stored under", shortName(f), fieldName(fa), nt.Obj().Name())
			}
		}
	}
	c.extra["key field assignments"] = n
}

// freshRecord: the record has not been read from the store here.
func freshRecord(v ssa.Value, at *ssa.Store) bool {
	if _, ok := v.(*ssa.Parameter); ok {
		return true
	}
	a, ok := v.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, ref := range *a.Referrers() {
		switch x := ref.(type) {
		case *ssa.Store:
			if x.Addr == a {
				if k, isConst := x.Val.(*ssa.Const); isConst && k.Value == nil {
					continue // zero value
				}
				if _, param := x.Val.(*ssa.Parameter); param {
					continue // made by the caller
				}
				return false // another record is copied into it
			}
		case ssa.CallInstruction: // filled in by what is called before
			if x.(ssa.Instruction).Block().Dominates(at.Block()) && (x.(ssa.Instruction).Block() != at.Block() || before(x.(ssa.Instruction), at)) {
				return false
			}
		case *ssa.MakeInterface:
			if x.Block().Dominates(at.Block()) && (x.Block() != at.Block() || before(x, at)) {
				return false
			}
		}
	}
	return true
}

func before(a, b ssa.Instruction) bool {
	for _, i := range a.Block().Instrs {
		if i == a {
			return true
		}
		if i == b {
			return false
		}
	}
	return false
}

// stakeOrder: the position of a staker follows its delegation.
func (c *Ctx) stakeOrder() {
	amount := "ite(delegation.GetDelegationData($1).ok, delegation.GetDelegationData($1).val.TotalDelegation, 0)"
	for name, op := range map[string]string{"delegation.SetStakerIndex": "store.Set(_s, _k, _v)", "delegation.RemoveStakerIndex": "store.Delete(_s, _k)"} {
		r := c.root(name, storeMode)
		sites := r.count(1, op[:strings.IndexByte(op, '(')])
		for _, s := range sites {
			l := c.layouts(r, s.call.Args[0], s.call.Args[1])[0]
			b, _ := c.initBytes("delegation.StakerIndexKeyPrefix")
			var parts []keyPart
			for _, p := range l.merged() {
				if p.kind != 'c' {
					parts = append(parts, p)
				}
			}
			ok := l.head() == b && len(parts) == 2 && parts[0].kind == 'u' &&
				r.same(s.state(), "18446744073709551615 - "+amount, parts[0].term, s.b.copy()) && r.same(s.state(), "$1", parts[1].term, s.b.copy())
			c.check(ok, name+" key", s.Pos, "%s uses the key %s, not the highest number less the staker's delegation followed by the staker", name, clip(s.call.Args[1].String()))
		}
		r.does(nil, op)
	}
	// who changes the delegation of a staker
	movers := map[string]bool{"delegation.f1CreateDelegator": true, "delegation.f1RemoveDelegator": true, "delegation.f1Slash": true}
	for n := range movers {
		c.fnNamed(n)
	}
	movers["delegation.RemoveDelegationData"] = true
	for _, f := range c.pr.Funcs {
		if f.Parent() != nil || c.su.direct[f] != 0 || moduleOf(fnPkgPath(f)) == "" || strings.Contains(fnPkgPath(f), "/app") || movers[shortName(f)] || f.Name() == "InitGenesis" {
			continue
		}
		calls := false
		for _, g := range c.su.callees[f] {
			calls = calls || shortName(g) == "delegation.SetDelegationData"
		}
		if !calls {
			continue
		}
		// a part of a mover
		part := len(c.su.callers[f]) > 0
		for _, g := range c.su.callers[f] {
			part = part && movers[shortName(g)]
		}
		if part {
			continue
		}
		r := c.rootFn(f, shortName(f), "0")
		for _, s := range r.find("delegation.SetDelegationData(_v)") {
			ok := r.same(s.state(), "delegation.GetDelegationData(_v.Staker).val.TotalDelegation", r.e.canon(r.e.in.field(s.arg(0), "TotalDelegation")), s.b.copy())
			c.check(ok, r.name+" delegation.SetDelegationData", s.Pos, "%s changes the total delegation of a staker, its place in the stake order is not moved with it: %s", r.name, clip(s.arg(0).String()))
		}
	}
	// every way to them moves the staker in the order
	n := 0
	for _, f := range c.tops("delegation", movers) {
		n++
		r := c.rootFn(f, shortName(f), "order", f1Keep())
		for _, s := range r.sites {
			switch {
			case movers[s.Name]:
				s.b = binds{"_o": s.arg(0)}
				s.after("delegation.RemoveStakerIndex(_o)")
				c.check(!r.didIn(s.state(), "delegation.SetStakerIndex(_o)", s.b.copy()), r.name+" order before "+s.Name, s.Pos, "%s: %s changes the delegation of a staker after it got its new place in the stake order", r.name, clip(s.call.String()))
			case s.Name == "delegation.RemoveStakerIndex":
				s.b = binds{"_o": s.arg(0)}
				for m := range movers {
					moved := r.didIn(s.state(), m+"(_o)", s.b.copy()) || r.didIn(s.state(), m+"(_o, _a)", s.b.copy()) || r.didIn(s.state(), m+"(_o, _a, _b)", s.b.copy())
					c.check(!moved || r.didIn(s.state(), "delegation.SetStakerIndex(_o)", s.b.copy()), r.name+" order after "+m, s.Pos, "%s removes a staker from the stake order after its delegation has changed: the old place stays", r.name)
				}
				s.leadsTo("delegation.SetStakerIndex(_o)")
			}
		}
	}
	c.check(n > 0, "stake order", 0, "no function changes a delegation")
}

// members: the counters follow the pool memberships.
func (c *Ctx) members() {
	r := c.root("stakers.AddActiveStaker", storeMode)
	kept := "store.Get(_s, _k)"
	kept1 := "store.Get(_s, key($1))"
	count := "ite(len(" + kept + ") == 8, " + kept + ", 0)"
	for _, s := range r.count(1, "store.Set") {
		ok := r.e.match(r.e.T("store.Set(_s, key($1), 1 + "+strings.ReplaceAll(count, "_k", "key($1)")+")", binds{}), s.call, binds{})
		c.check(ok, "stakers.AddActiveStaker", s.Pos, "AddActiveStaker does not add one to the number of pools of the staker: %s", clip(s.call.String()))
	}
	r.does(nil, "store.Set(_, _, _)")
	r.count(0, "store.Delete")

	r = c.root("stakers.removeActiveStaker", storeMode)
	for _, s := range r.count(1, "store.Set") {
		c.check(r.e.match(r.e.T("store.Set(_s, key($1), "+kept1+" - 1)", binds{}), s.call, binds{}), "stakers.removeActiveStaker", s.Pos, "removeActiveStaker does not subtract one from the number of pools of the staker: %s", clip(s.call.String()))
		s.b = binds{"_s": s.arg(0)}
		s.guard(kept1+" != 0", kept1+" != 1")
	}
	for _, s := range r.count(1, "store.Delete") {
		c.check(r.e.match(r.e.T("store.Delete(_s, key($1))", binds{}), s.call, binds{}), "stakers.removeActiveStaker key", s.Pos, "removeActiveStaker deletes %s", clip(s.call.String()))
	}
	for _, x := range r.rets {
		set, del := r.didIn(x.st, "store.Set", binds{}), r.didIn(x.st, "store.Delete", binds{})
		c.check(set != del, "stakers.removeActiveStaker", r.fn.Pos(), "removeActiveStaker neither stores the number of pools less one nor removes the staker from the active ones")
	}
	for _, n := range []string{"stakers.getStat", "stakers.setStat"} {
		x := c.root(n, storeMode)
		if n == "stakers.setStat" {
			x.does(nil, "store.Set(_s, key($2, $1), $3)")
			x.count(1, "store.Set")
		} else {
			for _, ret := range x.rets {
				g := binds{}
				ok := x.e.match(x.e.T("store.Get(_s, key($2, $1))", g), ret.vals[0], g)
				for _, q := range ret.st.facts { // nothing stored
					b := binds{}
					ok = ok || ret.vals[0] == x.e.in.Zero && x.e.match(x.e.T("store.Get(_s, key($2, $1)) == nil", b), q, b)
				}
				c.check(ok, n, x.fn.Pos(), "getStat returns %s, which is not the stored number", clip(ret.vals[0].String()))
			}
		}
	}

	// whoever adds or removes a member adjusts the counters
	writers := map[string]bool{"stakers.SetValaccount": true, "stakers.removeValaccount": true, "stakers.AddActiveStaker": true, "stakers.removeActiveStaker": true, "stakers.setStat": true}
	n := 0
	for _, f := range c.tops("stakers", writers) {
		if f.Name() == "InitGenesis" || f.Synthetic != "" {
			continue
		}
		r := c.rootFn(f, shortName(f), "members")
		for _, s := range r.sites {
			if !writers[s.Name] {
				continue
			}
			n++
			st := s.state()
			in := r.e.in
			field := func(f string) *Term { return st.simp(r.e.canon(in.field(s.arg(0), f))) }
			switch s.Name {
			case "stakers.SetValaccount":
				s.b = binds{"_p": field("PoolId"), "_s": field("Staker")}
				if r.holdsIn(st, "stakers.GetValaccount(_p, _s).ok", s.b.copy()) {
					continue
				}
				s.guard("!stakers.GetValaccount(_p, _s).ok")
				s.with(nil, "stakers.setStat(_p, stakers.STAKER_STATS_COUNT, 1 + stakers.getStat(_p, stakers.STAKER_STATS_COUNT))", "stakers.AddActiveStaker(_s)")
			case "stakers.removeValaccount":
				s.b = binds{"_p": field("PoolId"), "_s": field("Staker")}
				s.guard("stakers.GetValaccount(_p, _s).ok")
				s.with(nil, "stakers.setStat(_p, stakers.STAKER_STATS_COUNT, stakers.getStat(_p, stakers.STAKER_STATS_COUNT) - 1)", "stakers.removeActiveStaker(_s)")
			case "stakers.AddActiveStaker":
				c.check(c.withMember(r, s, "stakers.SetValaccount", "Staker", s.arg(0)), r.name+" "+s.Name, s.Pos, "%s counts a membership which is not stored: %s", r.name, clip(s.call.String()))
			case "stakers.removeActiveStaker":
				c.check(c.withMember(r, s, "stakers.removeValaccount", "Staker", s.arg(0)), r.name+" "+s.Name, s.Pos, "%s stops counting a membership which is not removed: %s", r.name, clip(s.call.String()))
			case "stakers.setStat":
				b := binds{}
				up := r.e.match(r.e.T("stakers.setStat(_p, stakers.STAKER_STATS_COUNT, 1 + stakers.getStat(_p, stakers.STAKER_STATS_COUNT))", b), s.call, b)
				down := !up && r.e.match(r.e.T("stakers.setStat(_p, stakers.STAKER_STATS_COUNT, stakers.getStat(_p, stakers.STAKER_STATS_COUNT) - 1)", b), s.call, b)
				c.check(up && c.withMember(r, s, "stakers.SetValaccount", "PoolId", s.arg(0)) || down && c.withMember(r, s, "stakers.removeValaccount", "PoolId", s.arg(0)),
					r.name+" "+s.Name, s.Pos, "%s changes the number of members of a pool without a member being added or removed: %s", r.name, clip(s.call.String()))
			}
		}
	}
	c.check(n > 0, "members", 0, "no function changes the memberships")
}

// withMember: the membership of the same pool or staker is changed along with
// it, before or after.
func (c *Ctx) withMember(r *Root, s *S, op, field string, want *Term) bool {
	st := s.state()
	want = st.simp(want)
	of := func(st *State, call *Term) bool {
		return st.simp(r.e.canon(r.e.in.field(call.Args[0], field))) == want
	}
	for _, f := range st.facts {
		if f.Op == OpDid && f.Args[0].Name == op && of(st, f.Args[0]) {
			return true
		}
	}
	ok, _ := s.reaches(st, op, func(q *S) bool { return of(q.state(), q.call) })
	return ok
}

// tops: the functions of a module through which others get to the named ones.
func (c *Ctx) tops(mod string, names map[string]bool) []*ssa.Function {
	reaches := map[*ssa.Function]bool{}
	var up func(f *ssa.Function)
	up = func(f *ssa.Function) {
		if reaches[f] {
			return
		}
		reaches[f] = true
		for _, g := range c.su.callers[f] {
			up(g)
		}
	}
	for _, n := range sortedKeys(names) {
		for _, f := range c.su.byName[n] {
			up(f)
		}
	}
	entry := map[*ssa.Function]bool{}
	for _, e := range c.entries() {
		entry[e.fn] = true
	}
	var out []*ssa.Function
	for _, f := range c.pr.Funcs {
		if !reaches[f] || names[shortName(f)] || moduleOf(fnPkgPath(f)) != mod || f.Parent() != nil {
			continue
		}
		top := entry[f] || len(c.su.callers[f]) == 0 && f.Synthetic == ""
		for _, g := range c.su.callers[f] {
			top = top || moduleOf(fnPkgPath(g)) != mod && isRepoPath(fnPkgPath(g))
		}
		if top {
			out = append(out, f)
		}
	}
	return out
}
