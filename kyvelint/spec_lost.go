package main

import (
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- lost updates

// cell: what an accessor touches: the constant start of the key and its parts.
// Without parts known it is everything below the start.
type cell struct {
	head  string
	parts []*Term
	whole bool // an iteration below the start
	op    string
}

// cells: what a call of an accessor touches, over the terms of the caller.
func (c *Ctx) cells(r *Root, call *Term) []cell {
	fn := c.accessor(call)
	if fn == nil {
		return c.steps(r, call)
	}
	q := c.rootFn(fn, shortName(fn), "+store", storeMode)
	var out []cell
	for _, s := range q.sites {
		switch s.Name {
		case "store.Set", "store.Delete", "store.Get", "store.Has":
			for _, l := range c.layouts(q, s.call.Args[0], s.call.Args[1]) {
				x := cell{head: l.mod + "/" + l.store + "/" + l.head(), op: s.Name}
				rest := false
				for _, p := range l.merged() {
					if p.kind == 'c' && !rest {
						continue
					}
					rest = true
					if p.kind == 'c' {
						x.parts = append(x.parts, r.e.in.konst(p.lit))
						continue
					}
					if p.term == nil {
						x.whole = true
						continue
					}
					x.parts = append(x.parts, r.e.inst(p.term, call.Args))
				}
				out = append(out, x)
			}
		default:
			if strings.Contains(s.Name, "terator") && len(s.call.Args) > 0 {
				for _, l := range c.layouts(q, s.call.Args[0], nil) {
					out = append(out, cell{head: l.mod + "/" + l.store + "/" + l.head(), whole: true, op: "store.Iterate"})
				}
			} else if s.Name != call.Name && c.accessor(s.Site.Call) != nil {
				for _, x := range c.cells(q, s.Site.Call) {
					y := cell{head: x.head, whole: x.whole, op: x.op}
					for _, p := range x.parts {
						y.parts = append(y.parts, r.e.inst(p, call.Args))
					}
					out = append(out, y)
				}
			}
		}
	}
	return out
}

// steps: what an operation that the rules treat as one step changes.
func (c *Ctx) steps(r *Root, call *Term) (out []cell) {
	if call.Op != OpCall {
		return nil
	}
	for _, fn := range c.su.byName[call.Name] {
		if len(fn.Blocks) == 0 || len(c.su.writes[fn]) == 0 {
			continue
		}
		q := c.rootFn(fn, shortName(fn), "0")
		for _, s := range q.sites {
			if !s.Eff || s.Name == call.Name {
				continue
			}
			for _, x := range c.cells(q, s.Site.Call) {
				y := cell{head: x.head, whole: x.whole, op: x.op}
				for _, p := range x.parts {
					y.parts = append(y.parts, r.e.inst(p, call.Args))
				}
				out = append(out, y)
			}
		}
	}
	return
}

// inst copies a term of another engine, with its parameters replaced.
func (e *Engine) inst(t *Term, args []*Term) *Term {
	if t.Op == OpParam && len(t.Name) == 2 && t.Name[0] == '$' {
		if i := int(t.Name[1] - '1'); i >= 0 && i < len(args) {
			return args[i]
		}
	}
	as := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		as[i] = e.inst(a, args)
	}
	if t.Op == OpField && len(as) == 1 {
		return e.in.field(as[0], t.Name)
	}
	return e.in.mk(t.Op, t.Name, as...)
}

// meets: the two can be the same record; same: they are.
func (r *Root) meets(st *State, a, b cell) (may, same bool) {
	if a.whole || b.whole || len(a.parts) != len(b.parts) {
		return strings.HasPrefix(a.head, b.head) || strings.HasPrefix(b.head, a.head), false
	}
	if a.head != b.head {
		return false, false
	}
	same = true
	for i := range a.parts {
		if a.parts[i] == b.parts[i] {
			continue
		}
		same = false
		x, y := r.e.canon(a.parts[i]), r.e.canon(b.parts[i])
		if st != nil && (r.differ(st, x, y) || r.differ(st, y, x)) {
			return false, false
		}
	}
	return true, same
}

// differ: the two have different values; an entry of a list differs from what
// no element of the list equals.
func (r *Root) differ(st *State, x, y *Term) bool {
	if x.isConst() && y.isConst() && x != y || r.holdsT(st, r.e.in.not(r.e.in.eq(x, y)), binds{}) {
		return true
	}
	path := ""
	for x.Op == OpField && len(x.Args) == 1 {
		path = "." + x.Name + path
		x = x.Args[0]
	}
	l := entryOf(x)
	return l != nil && r.holdsIn(st, "!exists(_l, elem(_l)"+path+" == _y)", binds{"_l": l, "_y": y})
}

// entryOf: the list the term is an entry of, picked by an index or by a loop.
func entryOf(x *Term) *Term {
	switch {
	case x.Op == OpIdx, x.Op == OpElem && x.Name == "":
		return x.Args[0]
	case x.Op == OpIte:
		if l := entryOf(x.Args[1]); l != nil && l == entryOf(x.Args[2]) {
			return l
		}
	case x.Op == OpCall && x.Name == "fold":
		l := entryOf(x.Args[0])
		var in func(t *Term) bool
		in = func(t *Term) bool {
			return t.Op == OpParam && t.Name == "acc" || t.Op == OpElem && entryOf(t) == l || t.Op == OpIte && in(t.Args[1]) && in(t.Args[2])
		}
		if l != nil && in(x.Args[1]) {
			return l
		}
	}
	return nil
}

// isRemoval: the accessor only deletes.
func (c *Ctx) isRemoval(fn *ssa.Function) bool {
	q := c.rootFn(fn, shortName(fn), "+store", storeMode)
	return len(q.find("store.Set")) == 0 && len(q.find("store.Delete")) > 0
}

// between: the writes to a store on the ways from one of its versions back to
// another; all of them, if none leads there.
func (e *Engine) between(store string, from, to *Term) (out []*Term) {
	next := func(v *Term) []*Term {
		switch {
		case v == nil || v == to:
		case v.Op == OpIte:
			return []*Term{v.Args[1], v.Args[2]}
		case v.Op == OpLoop:
			if fo := e.folds[v]; fo != nil {
				return []*Term{fo.Init, fo.Step}
			}
		case v.Op == OpCall:
			return []*Term{e.vers[v][store]}
		}
		return nil
	}
	// the versions from which the older one is reached
	var order []*Term
	before := map[*Term][]*Term{}
	seen := map[*Term]bool{from: true}
	for todo := []*Term{from}; len(todo) > 0; {
		v := todo[0]
		todo = todo[1:]
		order = append(order, v)
		for _, n := range next(v) {
			before[n] = append(before[n], v)
			if !seen[n] {
				seen[n] = true
				todo = append(todo, n)
			}
		}
	}
	on := map[*Term]bool{}
	for todo := []*Term{to}; len(todo) > 0 && seen[to]; todo = todo[1:] {
		for _, v := range before[todo[0]] {
			if !on[v] {
				on[v] = true
				todo = append(todo, v)
			}
		}
	}
	for _, v := range order {
		if v != nil && v != to && v.Op == OpCall && (on[v] || !seen[to]) {
			out = append(out, v)
		}
	}
	return
}

// readsIn: the calls whose results the raw terms are built from.
func (e *Engine) readsIn(ts []*Term) map[*Term]bool {
	rd, seen := map[*Term]bool{}, map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] || t.Op == OpVer {
			return
		}
		seen[t] = true
		if t.Op == OpCall && e.vers[t] != nil {
			rd[t] = true
			return
		}
		if fo := e.folds[t]; t.Op == OpLoop && fo != nil {
			walk(fo.Init)
			walk(fo.Step)
		}
		args := t.Args
		if t.Op == OpIte {
			args = args[1:] // which value is stored may well depend on an older state
		}
		for _, x := range args {
			walk(x)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	return rd
}

// lost: no write stores what was derived from a record as it was before another
// write to that record; no record is read after its removal.
func (c *Ctx) lost(r *Root) {
	e := r.e
	memo := map[*Term][]cell{}
	at := map[*Term]*S{}
	all := r.find2(func(s *S) bool { return c.accessor(s.Site.Call) != nil })
	for _, s := range r.find2(func(s *S) bool { return s.Eff }) {
		at[s.Site.Call] = s
	}
	cells := func(raw *Term) []cell {
		x, ok := memo[raw]
		if !ok {
			x = c.cells(r, raw)
			memo[raw] = x
		}
		return x
	}
	for _, s := range all {
		raw := s.Site.Call
		fn := c.accessor(raw)
		if !s.Eff {
			// read after removal
			own := map[*LoopInfo]bool{}
			for _, l := range s.Loops {
				own[l] = true
			}
			mine := cells(raw)
			for _, store := range sortedKeys(c.su.reads[fn]) {
				seen := map[*Term]bool{}
				var walk func(v *Term)
				walk = func(v *Term) {
					if v == nil || seen[v] {
						return
					}
					seen[v] = true
					switch v.Op {
					case OpIte:
						walk(v.Args[1])
						walk(v.Args[2])
					case OpLoop:
						if fo := e.folds[v]; fo != nil && !own[fo.Loop] {
							walk(fo.Init)
							walk(fo.Step)
						}
					case OpCall:
						hit := false
						for _, a := range mine {
							for _, b := range cells(v) {
								if _, same := r.meets(nil, a, b); same && (b.op == "store.Set" || b.op == "store.Delete") {
									hit = true
									c.check(b.op == "store.Set" || a.op == "store.Has", r.name+": "+s.Name+" after "+v.Name, s.Pos, "%s: %s reads a record that the same step has removed with %s", r.name, clip(s.call.String()), clip(e.canon(v).String()))
								}
							}
						}
						if !hit {
							walk(e.vers[v][store])
						}
					}
				}
				walk(e.vers[raw][store])
			}
			continue
		}
		if c.isRemoval(fn) {
			continue
		}
		c.check(true, "", s.Pos, "")
		reads := e.readsIn(s.Args)
		var rs []*Term
		for t := range reads {
			rs = append(rs, t)
		}
		sort.Slice(rs, func(i, j int) bool { return rs[i].id < rs[j].id })
		for _, t := range rs {
			for _, store := range sortedKeys(c.su.writes[fn]) {
				v, ok := e.vers[t][store]
				if !ok || v == e.vers[raw][store] {
					continue
				}
				for _, x := range e.between(store, e.vers[raw][store], v) {
					xf := c.accessor(x)
					if at[x] == nil || x == raw || x == t || e.canon(x) == e.canon(raw) {
						continue // the same write in an earlier turn of the loop
					}
					if xf != nil && c.isRemoval(xf) && !r.writesBack(s, t) {
						continue
					}
					may := false
					for _, a := range cells(t) {
						for _, b := range cells(x) {
							if b.op != "store.Set" && b.op != "store.Delete" {
								continue
							}
							m, _ := r.meets(at[x].state(), a, b)
							may = may || m
						}
					}
					c.check(!may, r.name+": "+s.Name+" over "+x.Name, s.Pos, "%s: %s is derived from %s, read before %s changed the record", r.name, clip(s.call.String()), clip(e.canon(t).String()), clip(e.canon(x).String()))
				}
			}
		}
	}
}

// fresh: the event tells records as they are when it is emitted.
func (s *S) fresh() *S {
	r, c, e := s.root, s.root.c, s.root.e
	bad := ""
	for t := range e.readsIn(s.Args) {
		tf := c.accessor(t)
		if tf == nil {
			continue
		}
		for store := range c.su.reads[tf] {
			now, ok := s.Vers[store]
			if !ok || now == e.vers[t][store] {
				continue
			}
			for _, x := range e.between(store, now, e.vers[t][store]) {
				if x == t {
					continue // what the operation itself returned
				}
				for _, a := range c.cells(r, t) {
					for _, b := range c.cells(r, x) {
						if b.op != "store.Set" && b.op != "store.Delete" {
							continue
						}
						if m, _ := r.meets(nil, a, b); m && bad < x.Name {
							bad = clip(e.canon(t).String()) + " as it was before " + x.Name
						}
					}
				}
			}
		}
	}
	c.check(bad == "", r.name+": "+s.Name+" is current", s.Pos, "%s: %s tells %s", r.name, s.Name, bad)
	return s
}

// writesBack: what is stored is the record which was read, with changes.
func (r *Root) writesBack(s *S, read *Term) bool {
	for _, a := range s.Args {
		for a.Op == OpStruct {
			a = a.Args[0]
		}
		if a.Op == OpRes {
			a = a.Args[0]
		}
		if a == read {
			return true
		}
	}
	return false
}

func (r *Root) find2(pred func(*S) bool) []*S {
	var out []*S
	for _, s := range r.sites {
		x := *s
		x.b = binds{}
		if pred(&x) {
			out = append(out, &x)
		}
	}
	return out
}

func init() {
	regT("C42", "path-sensitive symbolic execution over versions of the store",
		"Every message handler and block hook is executed symbolically, and so is every operation on records that the other rules treat as one step. Each read and each write of a record carries the version of the store it sees, a term that records which earlier writes can have happened on the path, with merged versions where paths join and loop versions where loops repeat. For every write of a record the reads that the stored value derives from are collected (through records, the values of branches and accumulated values; not the conditions that choose between them), and no write lying between the read's version and the write's own version may touch the record that was read: writes are compared by the constant start and the parts of their keys, as the accessors build them, and two keys count as different only if the conditions on the path show that they are, such as an account that is not in the list an entry was taken from. A write of the same form by an earlier iteration of the same loop is that record's own history. No record is read after the step has removed it.",
		func(c *Ctx) {
			done := map[*ssa.Function]bool{}
			var look func(r *Root)
			look = func(r *Root) {
				c.sec(r.name, func() { c.check(true, "", r.fn.Pos(), ""); c.lost(r) })
				for _, s := range r.sites {
					for _, fn := range c.su.byName[s.Name] {
						if !done[fn] && len(fn.Blocks) > 0 && c.su.direct[fn] == 0 && len(c.su.writes[fn]) > 0 {
							done[fn] = true
							look(c.rootFn(fn, shortName(fn), "0"))
						}
					}
				}
			}
			for _, e := range c.entries() {
				if e.kind != "msg" && e.kind != "begin" && e.kind != "end" {
					continue
				}
				if strings.HasPrefix(e.name, "bundles.") {
					look(c.bundlesRoot(e.name))
				} else {
					look(c.rootFn(e.fn, e.name, "0"))
				}
			}
		})
}
