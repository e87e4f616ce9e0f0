package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C52: lookups return exactly what is stored

func init() {
	reg("C52", "Every function of a KYVE keeper that reads the store directly (the list in accessors.txt without the paginated queries, which C39 covers) is executed symbolically down to the raw store. A getter with a found result must report found on exactly those paths on which the value under its one key is there, and then return that value decoded and nothing else; an existence test must be exactly the presence of its key; a single-value getter must return the decoded value whenever one is stored; a listing must append one entry for every step of its iterator, taken from that step alone, without a condition (other than that the record an index entry points to exists), an early end or a change; a counter must count every step.",
		func(c *Ctx) {
			for _, f := range c.lookups() {
				f := f
				c.sec("lookup "+shortName(f), func() { c.lookup(f) })
			}
		})
}

// lookups: the accessors of the keepers that only read.
func (c *Ctx) lookups() (out []*ssa.Function) {
	mods := map[string]bool{"bundles": true, "delegation": true, "funders": true, "global": true, "pool": true, "stakers": true, "team": true}
	seen, known := map[string]bool{}, map[string]bool{}
	for _, n := range strings.Fields(accessorNames) {
		known[n] = true
	}
	for _, f := range c.pr.Funcs {
		d := c.su.direct[f]
		n := shortName(f)
		if d == 0 || d&dWrite != 0 || !known[n] || seen[n] || f.Parent() != nil || !mods[modOf(n)] || !f.Pos().IsValid() {
			continue
		}
		rs := f.Signature.Results()
		if rs.Len() == 0 || rs.Len() > 2 || isErrType(rs.At(rs.Len()-1).Type()) || rs.Len() == 2 && !isBoolType(rs.At(1).Type()) {
			continue
		}
		// the record of a query rather than the stored one
		if n := namedOf(rs.At(0).Type()); n != nil && n.Obj().Pkg() != nil && strings.Contains(n.Obj().Pkg().Path(), "/x/query/") {
			continue
		}
		seen[n] = true
		out = append(out, f)
	}
	return
}

func modOf(n string) string { return n[:strings.IndexByte(n+".", '.')] }

func (c *Ctx) lookup(f *ssa.Function) {
	name := shortName(f)
	r := c.rootFn(f, name, "+store", storeMode)
	in := r.e.in
	// what is read
	gets, has := map[*Term]bool{}, map[*Term]bool{}
	iter := false
	collect := func(t *Term) {
		t.contains(func(y *Term) bool {
			if y.Op == OpCall {
				switch {
				case y.Name == "store.Get" || strings.HasSuffix(y.Name, "Item.Get"):
					gets[y] = true
				case y.Name == "store.Has":
					has[y] = true
				case strings.HasSuffix(y.Name, "Iterator"):
					iter = true
				}
			}
			return false
		})
	}
	for _, x := range r.rets {
		for _, v := range x.vals {
			collect(v)
		}
		for _, t := range x.st.facts {
			collect(t)
		}
	}
	rs := f.Signature.Results()
	if _, list := rs.At(0).Type().Underlying().(*types.Slice); list || iter {
		if rs.Len() == 1 {
			c.listing(r, list)
		} else {
			c.check(false, name, f.Pos(), "%s: neither a listing nor a lookup of one record", name)
		}
		return
	}
	foreign := len(gets) > 1
	for g := range gets {
		foreign = foreign && g.Name != "store.Get"
	}
	if foreign { // computed from other modules' items
		c.check(len(r.rets) > 0, name+": computed", f.Pos(), "%s returns nothing", name)
		return
	}
	if len(gets)+len(has) != 1 {
		c.check(len(gets)+len(has) == 0 && len(r.rets) > 0, name+": one key", f.Pos(), "%s reads %d keys of the store", name, len(gets)+len(has))
		return
	}
	var call *Term
	for g := range gets {
		call = g
	}
	for g := range has {
		call = g
	}
	// there: what says that a value is stored; get: the value
	get, there := call, in.not(in.eq(call, in.Nil))
	if has[call] {
		there = call
	}
	val, er := in.mk(OpRes, "val", call), in.mk(OpRes, "err", call)
	for _, x := range r.rets {
		uses := func(t *Term) bool {
			return t.contains(func(y *Term) bool { return y == val || y == er })
		}
		u := false
		for _, v := range x.vals {
			u = u || uses(v)
		}
		for _, t := range x.st.facts {
			u = u || uses(t)
		}
		if u {
			get = val
			there = in.eq(er, in.Nil)
			if call.Name == "store.Get" {
				there = in.and(there, in.not(in.eq(val, in.Nil)))
			}
			break
		}
	}
	// stored: the value is the one under the key, or the record its index entry
	// points to
	stored := func(v *Term) (*Term, bool) {
		if v.Op == OpCall && v.Name == "unmarshal" && len(v.Args) == 1 {
			v = v.Args[0]
		}
		if v == get || v == call {
			return there, true
		}
		if v.Op == OpRes && v.Name == "val" && c.accessor(v.Args[0]) != nil && v.Args[0].contains(func(y *Term) bool { return y == get }) {
			return in.and(there, in.mk(OpRes, "ok", v.Args[0])), true
		}
		return nil, false
	}
	for _, x := range r.rets {
		v := x.vals[0]
		switch {
		case rs.Len() == 2: // (record, found)
			for _, found := range []*Term{x.vals[1], in.not(x.vals[1])} {
				z := x.st.clone()
				z.assume(found)
				if z.dead || found == in.False {
					continue
				}
				if found == x.vals[1] {
					cond, ok := stored(z.simp(v))
					c.check(ok, name+": found record", x.pos, "%s: reports as found %s, not what is stored", name, clip(z.simp(v).String()))
					if ok {
						c.check(r.decide(z, cond, 6), name+": found", x.pos, "%s: reports a record as found although none may be stored", name)
					}
					continue
				}
				// not found: nothing is stored, or the entry points nowhere
				missing := r.decide(z, in.not(there), 6)
				for _, t := range z.facts {
					if t.Op == OpNot && t.Args[0].Op == OpRes && t.Args[0].Name == "ok" {
						if cond, ok := stored(in.mk(OpRes, "val", t.Args[0].Args[0])); ok && cond != there {
							missing = true
						}
					}
				}
				c.check(missing, name+": not found", x.pos, "%s: reports a record as missing although it may be stored", name)
			}
		case isBoolType(rs.At(0).Type()):
			for _, yes := range []bool{true, false} {
				z := x.st.clone()
				want, got := there, v
				if !yes {
					want, got = in.not(there), in.not(v)
				}
				z.assume(got)
				if z.dead || got == in.False {
					continue
				}
				c.check(r.decide(z, want, 6), name+": presence", x.pos, "%s: its answer %v is not whether the key is there", name, yes)
			}
		default: // the value, or a default
			z := x.st.clone()
			z.assume(there)
			if z.dead {
				c.check(!v.contains(func(y *Term) bool { return y == get }), name+": default", x.pos, "%s: uses a value that is not stored", name)
				continue
			}
			w := z.simp(v)
			_, ok := stored(w)
			c.check(ok, name+": value", x.pos, "%s: returns %s although a value may be stored", name, clip(w.String()))
		}
	}
}

// listing: one entry for each step of the iterator.
func (c *Ctx) listing(r *Root, list bool) {
	in := r.e.in
	acc := in.mk(OpParam, "acc")
	n := 0
	for _, x := range r.rets {
		for _, o := range alts(x.vals[0]) {
			n++
			if o.Op != OpCall || o.Name != "fold" || len(o.Args) != 2 {
				c.check(false, r.name+": every entry", x.pos, "%s: %s is not made of every entry of an iterator", r.name, clip(o.String()))
				continue
			}
			s := o.Args[1]
			if !list {
				c.check(o.Args[0] == in.Zero && s == in.bin("add", acc, in.One), r.name+": every entry", x.pos, "%s: does not count every entry: %s", r.name, clip(o.String()))
				continue
			}
			var cond *Term
			if s.Op == OpIte {
				switch acc {
				case s.Args[2]:
					cond, s = s.Args[0], s.Args[1]
				case s.Args[1]:
					cond, s = in.not(s.Args[0]), s.Args[2]
				}
			}
			ok := in.emptyList(o.Args[0]) && s.Op == OpCall && s.Name == "append" && s.Args[0] == acc && s.Args[1].Op == OpList && len(s.Args[1].Args) == 1
			if ok {
				item := s.Args[1].Args[0]
				if item.Op == OpRes && item.Name == "val" && c.accessor(item.Args[0]) != nil {
					if cond == in.mk(OpRes, "ok", item.Args[0]) {
						cond = nil
					}
				} else {
					b, fs := structFields(item)
					plain := func(t *Term) bool {
						if t.Op == OpCall && (t.Name == "unmarshal" || t.Name == "slice") {
							t = t.Args[0]
						}
						return t.Op == OpField && (fieldOf(t) == "Value" || fieldOf(t) == "Key") && t.Args[0].Op == OpElem
					}
					if len(fs) == 0 {
						ok = plain(item)
					} else {
						ok = b.Op == OpZero
						for _, v := range fs {
							ok = ok && plain(v)
						}
					}
				}
				ok = ok && cond == nil && item.contains(func(y *Term) bool {
					return y.Op == OpElem && y.Args[0].Op == OpCall && strings.HasSuffix(y.Args[0].Name, "Iterator")
				})
			}
			c.check(ok, r.name+": every entry", x.pos, "%s: does not list every entry as it is stored: %s", r.name, clip(o.String()))
		}
	}
	c.check(n > 0, r.name+": every entry", r.fn.Pos(), "%s returns nothing", r.name)
}
