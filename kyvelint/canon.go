package main

import (
	"strconv"
	"strings"
)

// Canonical terms for the rules: store-read versions and loop identities are
// dropped, loop symbols become fold(init, step) with the accumulator written
// acc (acc1, ... for enclosing accumulators).

func (e *Engine) canon(t *Term) *Term {
	if e.canonMemo == nil {
		e.canonMemo = map[*Term]*Term{}
	}
	return e.canonW(t, nil)
}

func (e *Engine) canonW(t *Term, active []*Term) *Term {
	if len(active) == 0 {
		if m, ok := e.canonMemo[t]; ok {
			return m
		}
	}
	in := e.in
	var out *Term
	switch t.Op {
	case OpLoop:
		for i := len(active) - 1; i >= 0; i-- {
			if active[i] == t {
				d := len(active) - 1 - i
				n := "acc"
				if d > 0 {
					n += strconv.Itoa(d)
				}
				return in.mk(OpParam, n)
			}
		}
		fo := e.folds[t]
		if fo == nil || fo.Step == nil || fo.Init == nil || len(active) > 6 {
			return t
		}
		if e.canonBusy[t] { // its own initial value
			return t
		}
		if e.canonBusy == nil {
			e.canonBusy = map[*Term]bool{}
		}
		e.canonBusy[t] = true
		defer delete(e.canonBusy, t)
		if x := e.flagSearch(t, fo); x != nil {
			out = e.canonW(x, active)
			break
		}
		na := append(append([]*Term{}, active...), t)
		fa := []*Term{e.canonW(fo.Init, active), e.canonW(fo.Step, na)}
		if !e.deepContains(fo.Step, fo.Loop.elems, map[*Term]bool{}) {
			// what is counted is not in the step: name what the loop visits
			over := map[string]*Term{}
			for el := range fo.Loop.elems {
				l := e.canonW(el.Args[0], active)
				over[l.String()] = l
			}
			for _, k := range sortedKeys(over) {
				// the list being filled in step with another one
				if l := over[k]; l.Op == OpCall && l.Name == "make" {
					dup := false
					for _, o := range over {
						dup = dup || o != l && in.length(o) == l.Args[0]
					}
					if dup {
						continue
					}
				}
				fa = append(fa, over[k])
			}
		}
		if c := e.picks(fo.Loop, active); c != in.True && len(fa) == 2 {
			fa[1] = in.ite(c, fa[1], in.mk(OpParam, "acc"))
		}
		// a counter counts from zero
		var from *Term
		if _, ok := fa[0].intVal(); ok && fa[0] != in.Zero && fa[1] == in.bin("add", in.mk(OpParam, "acc"), in.One) {
			from, fa[0] = fa[0], in.Zero
		}
		if in.emptyList(fa[0]) && fa[1].contains(func(y *Term) bool { return y.Op == OpCall && y.Name == "append" && y.Args[0] == in.mk(OpParam, "acc") }) {
			fa[0] = in.Nil
		}
		whole := len(fo.Loop.early) == 0 || !e.collects(fa[1])
		if whole {
			out = in.fuse(filled(in, filterFold(in, in.mk(OpCall, "fold", fa...))))
		} else { // of an unknown part of the elements
			out = in.mk(OpCall, "partfold", fa...)
		}
		if from != nil {
			out = in.bin("add", out, from)
		}
	case OpElem, OpMapKey, OpMapVal:
		nm := ""
		if t.Op == OpElem {
			if i := strings.IndexByte(t.Name, '.'); i >= 0 { // callback parameter
				nm = t.Name[i:]
			}
		}
		out = in.mk(t.Op, nm, e.canonW(t.Args[0], active))
		if nm == "" && t.Op == OpElem {
			out.Typ = t.Typ
			out = in.fuse(out)
		}
	default:
		if len(t.Args) == 0 {
			out = t
			break
		}
		if x := e.counterTest(t); x != nil {
			out = e.canonW(x, active)
			break
		}
		args := make([]*Term, 0, len(t.Args))
		same := true
		for _, a := range t.Args {
			if a.Op == OpVer {
				same = false
				continue
			}
			c := e.canonW(a, active)
			same = same && c == a
			args = append(args, c)
		}
		if same && t.Op != OpLt && t.Op != OpLe && t.Op != OpEq {
			out = t
		} else {
			out = in.rebuild(t, args)
			if out.Op == OpCall && (out.Name == "haskey" || out.Name == "lookup") {
				if fo := e.folds[t.Args[0]]; fo != nil && len(fo.Loop.early) > 0 {
					// filled from the elements visited so far
				} else if x := mapSearch(in, out.Name, out.Args[0], out.Args[1]); x != nil {
					out = x
				}
			}
			if out.Op == OpIdx {
				out = argBest(in, out)
			}
			if out.Op == OpCall && out.Name == "contains" {
				out = in.member(out.Args[0], out.Args[1])
			}
			out = in.fuse(out)
			if out.Typ == nil {
				out.Typ = t.Typ
			}
		}
	}
	if in.nonneg[t] {
		in.nonneg[out] = true
	}
	if len(active) == 0 {
		e.canonMemo[t] = out
	}
	return out
}

func (e *Engine) canonState(s *State, loops ...*LoopInfo) *State {
	n := newState(e.in)
	for _, l := range loops {
		if c := e.picks(l, nil); c != e.in.True {
			n.assumeNoTrigger(c)
		}
	}
	for _, f := range s.facts {
		if isNoise(f) {
			continue
		}
		var add func(c *Term)
		add = func(c *Term) {
			if !n.fset[c] {
				n.addFactRaw(c)
			}
			if c.Op == OpAnd {
				for _, a := range c.Args {
					add(a)
				}
			}
		}
		add(e.canon(f))
	}
	for _, c := range s.cond {
		var g []*Term
		for _, x := range c.g {
			g = append(g, e.canon(x))
		}
		n.addCondRaw(gfact{g, e.canon(c.a)})
	}
	n.trigger()
	n.dead = s.dead
	return n
}

func isNoise(f *Term) bool {
	return f.Op == OpNot && f.Args[0].Op == OpCall && f.Args[0].Name == "next" || f.Op == OpCall && f.Name == "next"
}

// counterTest: comparing the counter of a finished search with the length of
// its list asks whether the search succeeded.
func (e *Engine) counterTest(t *Term) *Term {
	li := e.counterLoop(t)
	if li == nil {
		return nil
	}
	if t.Op == OpLt { // i < len: left early
		return li.exists
	}
	return e.in.not(li.exists)
}

func (e *Engine) counterLoop(t *Term) *LoopInfo {
	if t.Op != OpLt && t.Op != OpLe {
		return nil
	}
	in := e.in
	x, ln := t.Args[0], t.Args[1]
	if t.Op == OpLe {
		x, ln = ln, x
	}
	var sym *Term
	n := 0
	x.contains(func(y *Term) bool {
		if y.Op == OpLoop && e.folds[y] != nil {
			if _, ok := e.folds[y].Loop.ind[y]; ok {
				if sym != y {
					n++
				}
				sym = y
			}
		}
		return false
	})
	if n != 1 {
		return nil
	}
	li := e.folds[sym].Loop
	if li.exists == nil || ln != in.length(li.exists.Args[0]) {
		return nil
	}
	init := li.ind[sym]
	if init == in.Zero && x == sym || init == in.konst("-1") && x == in.bin("add", sym, in.One) {
		return li
	}
	return nil
}

// flagSearch: a flag raised by an element satisfying a condition and never
// lowered.
func (e *Engine) flagSearch(t *Term, fo *Fold) *Term {
	in := e.in
	step := fo.Step
	neg := false
	switch fo.Init {
	case in.False:
	case in.True:
		step = in.not(step)
		neg = true
	default:
		return nil
	}
	if step.Op != OpOr {
		return nil
	}
	var rest []*Term
	has := false
	for _, a := range step.Args {
		if a == t && !neg || neg && a == in.not(t) {
			has = true
		} else {
			rest = append(rest, a)
		}
	}
	if !has || len(rest) == 0 {
		return nil
	}
	c := rest[0]
	for _, r := range rest[1:] {
		c = in.or(c, r)
	}
	var el *Term
	n := 0
	for x := range fo.Loop.elems {
		if c.contains(func(y *Term) bool { return y == x }) {
			el = x
			n++
		}
	}
	if n != 1 || el.Op != OpElem || c.contains(func(y *Term) bool { return y == t }) {
		return nil
	}
	x := in.exists(el, c)
	if neg {
		x = in.not(x)
	}
	return x
}

// filterFold: a list rebuilt from every element except those equal to one.
func filterFold(in *Interner, t *Term) *Term {
	if !in.emptyList(t.Args[0]) {
		return t
	}
	acc := in.mk(OpParam, "acc")
	if b := t.Args[1]; b.Op == OpCall && b.Name == "append" && b.Args[0] == acc && b.Args[1].Op == OpList && len(b.Args[1].Args) == 1 {
		if el := b.Args[1].Args[0]; el.Op == OpElem && el.Name == "" { // a copy
			return el.Args[0]
		}
	}
	if t.Args[1].Op != OpIte {
		return t
	}
	c, a, b := t.Args[1].Args[0], t.Args[1].Args[1], t.Args[1].Args[2]
	if a != acc || c.Op != OpEq || b.Op != OpCall || b.Name != "append" || b.Args[0] != acc || b.Args[1].Op != OpList || len(b.Args[1].Args) != 1 {
		return t
	}
	el := b.Args[1].Args[0]
	if el.Op != OpElem {
		return t
	}
	for i := 0; i < 2; i++ {
		if c.Args[i] == el {
			return in.mk(OpCall, "without", el.Args[0], c.Args[1-i])
		}
	}
	return t
}

// mapSearch: a key of a map filled from every element of a list is there when
// one of the elements has it.
func mapSearch(in *Interner, name string, m, k *Term) *Term {
	if m.Op == OpCall && m.Name == "emptymap" && name == "haskey" {
		return in.False
	}
	if m.Op != OpCall || m.Name != "fold" || len(m.Args) != 2 {
		return nil
	}
	st := m.Args[1]
	if st.Op != OpCall || st.Name != "mapset" || st.Args[0] != in.mk(OpParam, "acc") {
		return nil
	}
	var el *Term
	n := 0
	var walk func(y *Term)
	walk = func(y *Term) {
		if y.Op == OpElem && y.Name == "" {
			if el != y {
				n++
			}
			el = y
			return
		}
		for _, a := range y.Args {
			walk(a)
		}
	}
	walk(st.Args[1])
	if n != 1 {
		return nil
	}
	if name == "lookup" && st.Args[2] != in.True {
		return nil
	}
	before := in.False // what the map held before the loop
	if m.Args[0].Op != OpCall || m.Args[0].Name != "emptymap" {
		if before = mapSearch(in, name, m.Args[0], k); before == nil {
			return nil
		}
	}
	return in.or(in.exists(el, in.eq(st.Args[1], k)), before)
}

// deepContains looks for the terms also inside the folds of inner loops.
func (e *Engine) deepContains(t *Term, els map[*Term]bool, seen map[*Term]bool) bool {
	return t.contains(func(y *Term) bool {
		if els[y] {
			return true
		}
		if y.Op == OpLoop && !seen[y] {
			seen[y] = true
			if fo := e.folds[y]; fo != nil && fo.Step != nil && fo.Init != nil {
				if e.deepContains(fo.Step, els, seen) || e.deepContains(fo.Init, els, seen) {
					return true
				}
				for el := range fo.Loop.elems {
					if e.deepContains(el.Args[0], els, seen) {
						return true
					}
				}
			}
		}
		return false
	})
}

// argBest: the element at an index tracked through the whole list is the
// element tracked itself: L[fold(0, ite(c(elem, L[acc]), i, acc))] becomes
// fold(L[0], ite(c(elem, acc), elem, acc)).
func argBest(in *Interner, t *Term) *Term {
	l, ix := t.Args[0], t.Args[1]
	if ix.Op != OpCall || ix.Name != "fold" || ix.Args[0] != in.Zero || ix.Args[1].Op != OpIte {
		return t
	}
	acc := in.mk(OpParam, "acc")
	c, a, b := ix.Args[1].Args[0], ix.Args[1].Args[1], ix.Args[1].Args[2]
	count := func(x *Term) bool {
		var f *Term
		x.contains(func(y *Term) bool {
			if y.Op == OpCall && y.Name == "fold" && len(y.Args) == 3 && y.Args[2] == l && y.Args[0] == in.Zero && y.Args[1] == in.bin("add", in.mk(OpParam, "acc"), in.One) {
				f = y
			}
			return f != nil
		})
		return f != nil && x == f
	}
	if b == acc && count(a) {
	} else if a == acc && count(b) {
		c = in.not(c)
	} else {
		return t
	}
	bad := false
	var sub func(x *Term, d int) *Term
	sub = func(x *Term, d int) *Term {
		n := "acc"
		if d > 0 {
			n += strconv.Itoa(d)
		}
		if x.Op == OpIdx && x.Args[0] == l && x.Args[1].Op == OpParam && x.Args[1].Name == n {
			return x.Args[1]
		}
		if x.Op == OpParam && x.Name == n {
			bad = true
		}
		if len(x.Args) == 0 {
			return x
		}
		args := make([]*Term, len(x.Args))
		for i, y := range x.Args {
			e := d
			if x.Op == OpCall && x.Name == "fold" && i == 1 {
				e++
			}
			args[i] = sub(y, e)
		}
		return in.rebuild(x, args)
	}
	c = sub(c, 0)
	if bad {
		return t
	}
	el := in.mk(OpElem, "", l)
	return in.mk(OpCall, "fold", in.mk(OpIdx, "", l, in.Zero), in.ite(c, el, acc))
}

// emptyList: no elements.
func (in *Interner) emptyList(t *Term) bool {
	return t == in.Nil || t.Op == OpList && len(t.Args) == 0 || t.Op == OpCall && t.Name == "slice" && t.Args[0].Op == OpZero
}

// filled: a list of another one's length whose elements are all set in a loop
// over that one is the list of what they are set to.
func filled(in *Interner, t *Term) *Term {
	if t.Op != OpCall || t.Name != "fold" || len(t.Args) != 2 {
		return t
	}
	mk, s := t.Args[0], t.Args[1]
	if mk.Op != OpCall || mk.Name != "make" || s.Op != OpCall || s.Name != "setat" || s.Args[0] != in.mk(OpParam, "acc") {
		return t
	}
	l := in.mk(OpCall, "fold", in.Nil, in.mk(OpCall, "append", s.Args[0], in.mk(OpList, "", s.Args[2])))
	m, _ := in.mapped(l)
	if m == nil || in.length(m) != mk.Args[0] {
		return t
	}
	if s.Args[1] != in.mk(OpCall, "fold", in.Zero, in.bin("add", s.Args[0], in.One), m) {
		return t
	}
	return l
}

// mapped: the list holds f(elem(m)) for every element of m.
func (in *Interner) mapped(l *Term) (m, f *Term) {
	m, f, c := in.filtered(l)
	if c != in.True {
		return nil, nil
	}
	return m, f
}

// filtered: the list holds f(elem(m)) for every element of m for which the
// condition holds.
func (in *Interner) filtered(l *Term) (m, f, c *Term) {
	if l.Op != OpCall || l.Name != "fold" || len(l.Args) != 2 || !in.emptyList(l.Args[0]) {
		return nil, nil, nil
	}
	s := l.Args[1]
	c = in.True
	acc := in.mk(OpParam, "acc")
	if s.Op == OpIte && !in.keepLists {
		if s.Args[1] == acc {
			c, s = in.not(s.Args[0]), s.Args[2]
		} else if s.Args[2] == acc {
			c, s = s.Args[0], s.Args[1]
		}
	}
	if s.Op != OpCall || s.Name != "append" || s.Args[0] != acc || s.Args[1].Op != OpList || len(s.Args[1].Args) != 1 {
		return nil, nil, nil
	}
	f = s.Args[1].Args[0]
	n := 0
	ok := func(y *Term) bool {
		if y.Op == OpElem && y.Name == "" && m != y {
			m = y
			n++
		}
		if y.Op == OpParam && strings.HasPrefix(y.Name, "acc") || y.Op == OpElem && y.Name != "" || y.Op == OpMapKey || y.Op == OpMapVal || y.Op == OpLoop {
			n = 9
		}
		return false
	}
	f.contains(ok)
	if c != in.True {
		c.contains(ok)
	}
	if n != 1 {
		return nil, nil, nil
	}
	return m.Args[0], f, c
}

// fuse: what is said of the elements of a mapped or filtered list is said of
// the elements it was made from.
func (in *Interner) fuse(t *Term) *Term {
	switch {
	case t.Op == OpElem && t.Name == "":
		if m, f, _ := in.filtered(t.Args[0]); m != nil {
			return f
		}
	case t.Op == OpCall && t.Name == "exists":
		if m, _, c := in.filtered(t.Args[0]); m != nil {
			return in.fuse(in.exists(in.mk(OpElem, "", m), in.and(c, t.Args[1])))
		}
	case t.Op == OpCall && t.Name == "contains":
		if m, f, c := in.filtered(t.Args[0]); m != nil {
			return in.fuse(in.exists(in.mk(OpElem, "", m), in.and(c, in.eq(f, t.Args[1]))))
		}
	case t.Op == OpCall && t.Name == "len":
		if m, _ := in.mapped(t.Args[0]); m != nil {
			return in.fuse(in.length(m))
		}
	case t.Op == OpCall && t.Name == "fold" && len(t.Args) == 3:
		if m, _, c := in.filtered(t.Args[2]); m != nil {
			if c == in.True {
				return in.fuse(in.mk(OpCall, "fold", t.Args[0], t.Args[1], m))
			}
			return in.fuse(in.mk(OpCall, "fold", t.Args[0], in.ite(c, t.Args[1], in.mk(OpParam, "acc"))))
		}
	}
	return t
}

// picks: the condition the loop's elements were collected under.
func (e *Engine) picks(li *LoopInfo, active []*Term) *Term {
	c := e.in.True
	for el := range li.elems {
		if el.Op == OpElem {
			if m, _, x := e.in.filtered(e.canonW(el.Args[0], active)); m != nil {
				c = e.in.and(c, x)
			}
		}
	}
	return c
}

// collects: the step of a loop adds the element to what is collected (rather
// than finding or counting it).
func (e *Engine) collects(step *Term) bool {
	acc := e.in.mk(OpParam, "acc")
	return step != e.in.bin("add", acc, e.in.One) && step.contains(func(y *Term) bool {
		return y.Op != OpIte && y != acc && y.contains(func(z *Term) bool { return z == acc }) && y.contains(func(z *Term) bool { return z.Op == OpElem || z.Op == OpMapKey || z.Op == OpMapVal })
	})
}
