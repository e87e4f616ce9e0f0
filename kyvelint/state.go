package main

import (
	"sort"
	"strconv"
	"strings"
)

// Abstract states of the dataflow: memory contents plus must-facts. A fact is
// an atom that holds on every path to the point; a conditional fact (g => a)
// holds on every path on which all of g hold. Joins intersect, weakening facts
// that hold on one side only by the branch condition that separates the sides.

type gfact struct {
	g []*Term
	a *Term
}

type deferred struct {
	call  func(st *State) *State
	key   *Term
	guard *Term // the condition under which it was deferred, nil for always
}

type State struct {
	in     *Interner
	mem    map[*Term]*Term
	facts  []*Term
	fset   map[*Term]bool
	eqc    map[*Term]*Term // x -> constant, for facts x == c
	cond   []gfact
	defers []deferred
	dead   bool
}

func newState(in *Interner) *State {
	return &State{in: in, mem: map[*Term]*Term{}, fset: map[*Term]bool{}, eqc: map[*Term]*Term{}}
}

func (s *State) clone() *State {
	n := &State{in: s.in, mem: make(map[*Term]*Term, len(s.mem)), fset: make(map[*Term]bool, len(s.fset)), eqc: make(map[*Term]*Term, len(s.eqc)), dead: s.dead}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k := range s.fset {
		n.fset[k] = true
	}
	for k, v := range s.eqc {
		n.eqc[k] = v
	}
	n.facts = append(make([]*Term, 0, len(s.facts)+8), s.facts...)
	n.cond = append(make([]gfact, 0, len(s.cond)+8), s.cond...)
	n.defers = append([]deferred{}, s.defers...)
	return n
}

// factsOnly is a cheap snapshot for sites.
func (s *State) factsOnly() *State {
	n := &State{in: s.in, fset: make(map[*Term]bool, len(s.fset)), eqc: make(map[*Term]*Term, len(s.eqc)), dead: s.dead, mem: map[*Term]*Term{}}
	for k := range s.fset {
		n.fset[k] = true
	}
	for k, v := range s.eqc {
		n.eqc[k] = v
	}
	n.facts = append([]*Term{}, s.facts...)
	n.cond = append([]gfact{}, s.cond...)
	return n
}

func (s *State) holds(t *Term) bool {
	in := s.in
	if t == in.True {
		return true
	}
	if s.fset[t] {
		return true
	}
	switch t.Op {
	case OpConst:
		return false
	case OpAnd:
		return s.holds(t.Args[0]) && s.holds(t.Args[1])
	case OpOr:
		if s.holds(t.Args[0]) || s.holds(t.Args[1]) {
			return true
		}
		// an implication recorded as a conditional fact
		na, nb := in.not(t.Args[0]), in.not(t.Args[1])
		for _, c := range s.cond {
			if len(c.g) == 1 && (c.g[0] == na && c.a == t.Args[1] || c.g[0] == nb && c.a == t.Args[0]) {
				return true
			}
		}
		return false
	case OpEq:
		if c := s.eqc[t.Args[0]]; c != nil {
			if t.Args[1] == c {
				return true
			}
			if d := s.eqc[t.Args[1]]; d != nil && d == c {
				return true
			}
		}
		return s.fset[in.mk(OpLe, "", t.Args[0], t.Args[1])] && s.fset[in.mk(OpLe, "", t.Args[1], t.Args[0])]
	case OpNot:
		x := t.Args[0]
		switch x.Op {
		case OpEq:
			if c := s.eqc[x.Args[0]]; c != nil && x.Args[1].isConst() && x.Args[1] != c {
				return true
			}
			if len(x.Args) == 2 {
				if s.fset[in.mk(OpLt, "", x.Args[0], x.Args[1])] || s.fset[in.mk(OpLt, "", x.Args[1], x.Args[0])] {
					return true
				}
				if y, ok := x.Args[1].intVal(); ok && (s.boundBelow(x.Args[0], y, true) || s.boundAbove(x.Args[0], y, true)) {
					return true
				}
			}
		}
		return false
	case OpLe:
		a, b := t.Args[0], t.Args[1]
		if s.fset[in.mk(OpLt, "", a, b)] || s.fset[in.eq(a, b)] {
			return true
		}
		if y, ok := b.intVal(); ok && (a.intOrNil() == nil) {
			return s.boundBelow(a, y, false)
		}
		if y, ok := a.intVal(); ok && (b.intOrNil() == nil) {
			return s.boundAbove(b, y, false)
		}
		return false
	case OpLt:
		a, b := t.Args[0], t.Args[1]
		if s.fset[in.mk(OpLe, "", a, b)] && s.fset[in.not(in.eq(a, b))] {
			return true
		}
		if y, ok := b.intVal(); ok && (a.intOrNil() == nil) {
			return s.boundBelow(a, y, true)
		}
		if y, ok := a.intVal(); ok && (b.intOrNil() == nil) {
			return s.boundAbove(b, y, true)
		}
		return false
	case OpIte:
		if s.holds(t.Args[0]) {
			return s.holds(t.Args[1])
		}
		if s.holds(in.not(t.Args[0])) {
			return s.holds(t.Args[2])
		}
		return s.holds(t.Args[1]) && s.holds(t.Args[2])
	}
	return false
}

func (t *Term) intOrNil() *int64 {
	if v, ok := t.intVal(); ok {
		return &v
	}
	return nil
}

// boundBelow: some fact bounds a by a constant c with a < y (strict) or a <= y.
func (s *State) boundBelow(a *Term, y int64, strict bool) bool {
	if c := s.eqc[a]; c != nil {
		if v, ok := c.intVal(); ok {
			return v < y || !strict && v == y
		}
	}
	for _, f := range s.facts {
		if (f.Op == OpLt || f.Op == OpLe) && f.Args[0] == a {
			if v, ok := f.Args[1].intVal(); ok {
				if f.Op == OpLt && v <= y || f.Op == OpLe && (v < y || !strict && v == y) {
					return true
				}
			}
		}
	}
	return false
}

func (s *State) boundAbove(b *Term, y int64, strict bool) bool {
	if c := s.eqc[b]; c != nil {
		if v, ok := c.intVal(); ok {
			return y < v || !strict && v == y
		}
	}
	for _, f := range s.facts {
		if (f.Op == OpLt || f.Op == OpLe) && f.Args[1] == b {
			if v, ok := f.Args[0].intVal(); ok {
				if f.Op == OpLt && v >= y || f.Op == OpLe && (v > y || !strict && v == y) {
					return true
				}
			}
		}
	}
	return false
}

func (s *State) refutes(t *Term) bool { return s.holds(s.in.not(t)) }

// assume adds t; the state becomes dead when t contradicts what is known.
func (s *State) assume(t *Term) *State {
	if s.dead {
		return s
	}
	t = s.simp(t)
	in := s.in
	if t == in.True {
		return s
	}
	if t == in.False {
		s.dead = true
		return s
	}
	switch t.Op {
	case OpAnd:
		s.addFact(t)
		s.assume(t.Args[0])
		s.assume(t.Args[1])
		return s
	case OpOr:
		a, b := t.Args[0], t.Args[1]
		s.addFact(t)
		s.addCond(gfact{[]*Term{in.not(a)}, b})
		s.addCond(gfact{[]*Term{in.not(b)}, a})
		return s
	case OpIte:
		s.addFact(t)
		s.addCond(gfact{[]*Term{t.Args[0]}, t.Args[1]})
		s.addCond(gfact{[]*Term{in.not(t.Args[0])}, t.Args[2]})
		return s
	}
	s.addFact(t)
	return s
}

func (s *State) addFact(a *Term) {
	if s.dead || s.fset[a] {
		return
	}
	if s.refutes(a) {
		s.dead = true
		return
	}
	s.fset[a] = true
	s.facts = append(s.facts, a)
	if a.Op == OpEq && a.Args[1].isConst() {
		s.eqc[a.Args[0]] = a.Args[1]
	}
	s.trigger()
}

// trigger discharges conditional facts whose guards became decided.
func (s *State) trigger() {
	for {
		var fire []*Term
		out := s.cond[:0:0]
		for _, c := range s.cond {
			if s.holds(c.a) {
				if c.a.Op != OpDid {
					continue
				}
				continue
			}
			g := c.g
			changed, drop := false, false
			var ng []*Term
			for _, x := range g {
				if s.holds(x) {
					changed = true
					continue
				}
				if s.refutes(x) {
					drop = true
					break
				}
				ng = append(ng, x)
			}
			if drop {
				continue
			}
			if changed {
				if len(ng) == 0 {
					fire = append(fire, c.a)
					continue
				}
				c = gfact{ng, c.a}
			}
			if len(c.g) == 1 && s.refutes(c.a) {
				fire = append(fire, s.in.not(c.g[0])) // contraposition
				continue
			}
			out = append(out, c)
		}
		s.cond = out
		if len(fire) == 0 {
			return
		}
		for _, f := range fire {
			if s.dead {
				return
			}
			if f.Op == OpDid {
				if !s.fset[f] {
					s.fset[f] = true
					s.facts = append(s.facts, f)
				}
				continue
			}
			s.assumeNoTrigger(f)
		}
	}
}

func (s *State) assumeNoTrigger(t *Term) {
	in := s.in
	switch t.Op {
	case OpConst:
		if t == in.False {
			s.dead = true
		}
		return
	case OpAnd:
		s.assumeNoTrigger(t.Args[0])
		s.assumeNoTrigger(t.Args[1])
		return
	case OpOr:
		a, b := t.Args[0], t.Args[1]
		s.cond = append(s.cond, gfact{[]*Term{in.not(a)}, b}, gfact{[]*Term{in.not(b)}, a})
		return
	case OpIte:
		s.cond = append(s.cond, gfact{[]*Term{t.Args[0]}, t.Args[1]}, gfact{[]*Term{in.not(t.Args[0])}, t.Args[2]})
		return
	}
	if s.fset[t] {
		return
	}
	if s.refutes(t) {
		s.dead = true
		return
	}
	s.fset[t] = true
	s.facts = append(s.facts, t)
	if t.Op == OpEq && t.Args[1].isConst() {
		s.eqc[t.Args[0]] = t.Args[1]
	}
}

func (s *State) addCond(c gfact) {
	var ng []*Term
	for _, x := range c.g {
		if s.holds(x) {
			continue
		}
		if s.refutes(x) {
			return
		}
		ng = append(ng, x)
	}
	if len(ng) == 0 {
		if c.a.Op == OpDid {
			s.addFact(c.a)
		} else {
			s.assume(c.a)
		}
		return
	}
	if s.holds(c.a) {
		return
	}
	if len(ng) == 1 && s.refutes(c.a) {
		s.assume(s.in.not(ng[0]))
		return
	}
	c.g = ng
	s.addCondRaw(c)
}

func (s *State) addCondRaw(c gfact) {
	if trivial(c.g, c.a) {
		return
	}
	for _, o := range s.cond {
		if o.a == c.a && sameTerms(o.g, c.g) {
			return
		}
	}
	s.cond = append(s.cond, c)
}

// trivial: the guard already contains the conclusion.
func trivial(g []*Term, a *Term) bool {
	var has func(t *Term) bool
	has = func(t *Term) bool {
		if t == a {
			return true
		}
		return t.Op == OpAnd && (has(t.Args[0]) || has(t.Args[1]))
	}
	for _, x := range g {
		if has(x) {
			return true
		}
	}
	return false
}

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// entails: does the state imply (g => a)?
func (s *State) entails(g []*Term, a *Term) bool {
	if s.holds(a) {
		return true
	}
	for _, x := range g {
		if s.refutes(x) {
			return true
		}
	}
	for _, c := range s.cond {
		if c.a != a {
			continue
		}
		ok := true
		for _, x := range c.g {
			in := s.holds(x)
			for _, y := range g {
				if x == y {
					in = true
				}
			}
			if !in {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// known: the input the computed value was found to equal.
func (s *State) known(t *Term) *Term {
	switch t.Op {
	case OpBin, OpIte, OpCall, OpRes, OpLoop:
	default:
		return t
	}
	var v *Term
	for _, f := range s.facts {
		if f.Op != OpEq {
			continue
		}
		if v == nil {
			v = s.simp(t)
		}
		for i, x := range f.Args {
			if y := f.Args[1-i]; (x == t || x == v) && isInput(y) {
				return y
			}
		}
	}
	return t
}

// isInput: a parameter or a field of one.
func isInput(t *Term) bool {
	for t.Op == OpField && len(t.Args) == 1 {
		t = t.Args[0]
	}
	return t.Op == OpParam
}

// simp rewrites gated values under the state's facts.
func (s *State) simp(t *Term) *Term {
	memo := map[*Term]*Term{}
	// what a fold binds (its elements and accumulators) is not what the facts
	// of the state speak of
	var bound map[*Term]bool
	free := func(t *Term) bool {
		return bound == nil || !t.contains(func(y *Term) bool { return bound[y] }) && !usesAcc(t, 0)
	}
	var w func(t *Term, boolCtx bool) *Term
	w = func(t *Term, boolCtx bool) *Term {
		if boolCtx && free(t) {
			if s.holds(t) {
				return s.in.True
			}
			if s.refutes(t) {
				return s.in.False
			}
		}
		if !t.hasIte && !boolCtx {
			return t
		}
		iff := boolCtx && t.Op == OpEq && (isBoolTerm(t.Args[0]) || isBoolTerm(t.Args[1]))
		if !t.hasIte && t.Op != OpAnd && t.Op != OpOr && t.Op != OpNot && !iff {
			return t
		}
		if m, ok := memo[t]; ok {
			return m
		}
		var out *Term
		switch t.Op {
		case OpIte:
			c := w(t.Args[0], true)
			switch c {
			case s.in.True:
				out = w(t.Args[1], boolCtx)
			case s.in.False:
				out = w(t.Args[2], boolCtx)
			default:
				out = s.in.ite(c, w(t.Args[1], boolCtx), w(t.Args[2], boolCtx))
			}
		case OpEq:
			if iff {
				out = s.in.eq(w(t.Args[0], true), w(t.Args[1], true))
				break
			}
			out = s.in.eq(w(t.Args[0], false), w(t.Args[1], false))
			if boolCtx && out != t && free(out) {
				if s.holds(out) {
					out = s.in.True
				} else if s.refutes(out) {
					out = s.in.False
				}
			}
		case OpAnd:
			out = s.in.and(w(t.Args[0], boolCtx), w(t.Args[1], boolCtx))
		case OpOr:
			out = s.in.or(w(t.Args[0], boolCtx), w(t.Args[1], boolCtx))
		case OpNot:
			out = s.in.not(w(t.Args[0], boolCtx))
		default:
			if t.Op == OpCall && t.Name == "fold" && free(t) && s.nothingIn(t) {
				out = w(t.Args[0], boolCtx)
				break
			}
			if t.Op == OpCall && t.Name == "without" && free(t) && s.refutes(s.in.mk(OpCall, "contains", t.Args[0], t.Args[1])) {
				out = w(t.Args[0], false)
				break
			}
			if isMinMax(t) && free(t) {
				x, y := w(t.Args[0], false), w(t.Args[1], false)
				less, more := s.in.lt(x, y, false), s.in.lt(y, x, false)
				switch {
				case s.holds(less) || s.refutes(more):
				case s.holds(more) || s.refutes(less):
					x, y = y, x
				default:
					x = nil
				}
				if x != nil { // x <= y
					if out = x; t.Name == "max" {
						out = y
					}
					break
				}
			}
			args := make([]*Term, len(t.Args))
			same := true
			for i, a := range t.Args {
				if bs := binds1(t); i == 1 && bs != nil {
					outer, om := bound, memo
					bound, memo = bs, map[*Term]*Term{}
					for x := range outer {
						bound[x] = true
					}
					args[i] = w(a, isBoolTerm(a))
					bound, memo = outer, om
				} else {
					args[i] = w(a, false)
				}
				if args[i] != a {
					same = false
				}
			}
			if same {
				out = t
			} else {
				out = s.in.rebuild(t, args)
			}
			if boolCtx && out != t && free(out) {
				if s.holds(out) {
					out = s.in.True
				} else if s.refutes(out) {
					out = s.in.False
				}
			}
		}
		memo[t] = out
		return out
	}
	b := isBoolTerm(t)
	return w(t, b)
}

// foldBinds: the elements a canonical fold runs over: among those its step
// speaks of, the ones that are not of an inner loop.
func foldBinds(t *Term) map[*Term]bool {
	out := map[*Term]bool{}
	if len(t.Args) > 2 {
		return out // the step does not speak of them
	}
	els := freeElems(t.Args[1])
	for a := range els {
		of := false // a loop around this one
		for b := range els {
			of = of || a != b && b.contains(func(y *Term) bool { return y == a })
		}
		if !of {
			out[a] = true
		}
	}
	return out
}

// nothingIn: the facts say that a fold runs over an empty list.
func (s *State) nothingIn(t *Term) bool {
	empty := func(l *Term) bool { return s.holds(s.in.eq(s.in.length(l), s.in.Zero)) }
	for _, l := range t.Args[2:] {
		if empty(l) {
			return true
		}
	}
	for el := range foldBinds(t) {
		if el.Op == OpElem && empty(el.Args[0]) {
			return true
		}
	}
	return false
}

// binds1: the elements bound in the second argument of a fold or exists.
func binds1(t *Term) map[*Term]bool {
	if t.Op != OpCall {
		return nil
	}
	switch t.Name {
	case "fold":
		return foldBinds(t)
	case "exists":
		out := map[*Term]bool{}
		for x := range freeElems(t.Args[1]) {
			if len(x.Args) > 0 && x.Args[0] == t.Args[0] {
				out[x] = true
			}
		}
		return out
	}
	return nil
}

// usesAcc: the term speaks of the accumulator of a fold around it.
func usesAcc(t *Term, depth int) bool {
	if t.Op == OpParam && strings.HasPrefix(t.Name, "acc") {
		n, err := strconv.Atoi("0" + t.Name[3:])
		return err == nil && n >= depth
	}
	if !t.contains(func(y *Term) bool { return y.Op == OpParam && strings.HasPrefix(y.Name, "acc") }) {
		return false
	}
	for i, a := range t.Args {
		d := depth
		if i == 1 && t.Op == OpCall && t.Name == "fold" {
			d++
		}
		if usesAcc(a, d) {
			return true
		}
	}
	return false
}

// freeElems: the loop elements a term speaks of that no fold inside it binds.
func freeElems(t *Term) map[*Term]bool {
	out := map[*Term]bool{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == OpElem || t.Op == OpMapKey || t.Op == OpMapVal {
			out[t] = true
		}
		if t.Op == OpCall && t.Name == "fold" {
			b := foldBinds(t)
			for x := range freeElems(t.Args[1]) {
				if !b[x] {
					out[x] = true
				}
			}
			for i, a := range t.Args {
				if i != 1 {
					walk(a)
				}
			}
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(t)
	return out
}

func isBoolTerm(t *Term) bool {
	switch t.Op {
	case OpLt, OpLe, OpEq, OpNot, OpAnd, OpOr:
		return true
	}
	return false
}

// rebuild reapplies a constructor so that local simplifications fire.
func (in *Interner) rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case OpField:
		return in.field(a[0], t.Name)
	case OpStruct:
		if a[0].Op == OpStruct || a[0].Op == OpIte {
			out := a[0]
			for i, n := range strings.Split(t.Name, ",") {
				out = in.update(out, []string{n}, a[i+1])
			}
			return out
		}
	case OpEq:
		return in.eq(a[0], a[1])
	case OpLt:
		return in.lt(a[0], a[1], false)
	case OpLe:
		return in.le(a[0], a[1], false)
	case OpNot:
		return in.not(a[0])
	case OpAnd:
		return in.and(a[0], a[1])
	case OpOr:
		return in.or(a[0], a[1])
	case OpIte:
		return in.ite(a[0], a[1], a[2])
	case OpBin:
		switch t.Name {
		case "add", "mul", "cadd", "cmin", "min", "max", "band", "bor", "bxor":
			out := a[0]
			for _, x := range a[1:] {
				out = in.bin(t.Name, out, x)
			}
			return out
		}
		if len(a) == 2 {
			return in.bin(t.Name, a[0], a[1])
		}
	}
	n := in.mk(t.Op, t.Name, a...)
	if n.Typ == nil {
		n.Typ = t.Typ
	}
	return n
}

func commonPrefix(a, b *State) int {
	n := 0
	for n < len(a.facts) && n < len(b.facts) && a.facts[n] == b.facts[n] {
		n++
	}
	return n
}

// separator finds a condition true in a and false in b.
func separator(a, b *State) *Term {
	p := commonPrefix(a, b)
	in := a.in
	usable := func(f *Term) bool { return f.Op != OpDid }
	for _, f := range a.facts[p:] {
		if usable(f) && b.refutes(f) {
			return f
		}
	}
	for _, f := range b.facts[p:] {
		if usable(f) && a.refutes(f) {
			return in.not(f)
		}
	}
	comp := func(x, y *State) *Term {
		for _, c := range x.cond {
			if c.a.Op == OpDid || len(c.g) > 5 {
				continue
			}
			if !y.refutes(c.a) {
				continue
			}
			ok := true
			for _, g := range c.g {
				if !y.holds(g) {
					ok = false
					break
				}
			}
			if !ok {
				continue
			}
			t := c.a
			for _, g := range c.g {
				t = in.or(in.not(g), t)
			}
			return t
		}
		return nil
	}
	if t := comp(a, b); t != nil {
		return t
	}
	if t := comp(b, a); t != nil {
		return in.not(t)
	}
	return nil
}

type joinItem struct {
	st   *State
	vals []*Term
}

// joinAll joins all items. Two sides that no known condition separates are told
// apart by a ghost condition (which side control came from).
func joinAll(in *Interner, items []joinItem, gate func() *Term) joinItem {
	live := items[:0:0]
	for _, it := range items {
		if it.st != nil && !it.st.dead {
			live = append(live, it)
		}
	}
	if len(live) == 0 {
		if len(items) > 0 {
			return joinItem{&State{in: in, dead: true, mem: map[*Term]*Term{}, fset: map[*Term]bool{}, eqc: map[*Term]*Term{}}, items[0].vals}
		}
		return joinItem{}
	}
	// sides returning the same values merge first, without a gate
	for i := 0; i < len(live) && len(live) > 2; i++ {
		for j := i + 1; j < len(live); j++ {
			if len(live) > 2 && len(live[i].vals) > 0 && sameTerms(live[i].vals, live[j].vals) && separator(live[i].st, live[j].st) == nil {
				live[i] = join2(in, live[i], live[j], nil)
				live = append(live[:j:j], live[j+1:]...)
				j--
			}
		}
	}
	for len(live) > 1 {
		bi, bj, best := 0, 1, -1
		var bd *Term
		if len(live) > 12 { // bound the pair search; adjacent states share most history
			for i := 0; i+1 < len(live); i++ {
				sc := commonPrefix(live[i].st, live[i+1].st) * 2
				if sc > best {
					if d := separator(live[i].st, live[i+1].st); d != nil {
						bi, bj, best, bd = i, i+1, sc, d
					}
				}
			}
		} else {
			for i := 0; i < len(live); i++ {
				for j := i + 1; j < len(live); j++ {
					sc := commonPrefix(live[i].st, live[j].st) * 2
					if sc <= best {
						continue
					}
					d := separator(live[i].st, live[j].st)
					if d == nil {
						continue
					}
					bi, bj, best, bd = i, j, sc, d
				}
			}
		}
		if bd == nil && gate != nil {
			bd = gate()
		}
		m := join2(in, live[bi], live[bj], bd)
		live[bi] = m
		live = append(live[:bj], live[bj+1:]...)
	}
	return live[0]
}

const maxGuard = 9

func join2(in *Interner, x, y joinItem, d *Term) joinItem {
	a, b := x.st, y.st
	n := &State{in: in, mem: make(map[*Term]*Term, len(a.mem)), fset: map[*Term]bool{}, eqc: map[*Term]*Term{}}
	merge := func(u, v *Term) *Term {
		if u == v {
			return u
		}
		if d != nil {
			return in.ite(d, u, v)
		}
		// prefer no information over a wrong order
		if v.id < u.id {
			u, v = v, u
		}
		return in.mk(OpJoin, "", u, v)
	}
	add := func(f *Term) {
		if n.fset[f] {
			return
		}
		n.fset[f] = true
		n.facts = append(n.facts, f)
		if f.Op == OpEq && f.Args[1].isConst() {
			n.eqc[f.Args[0]] = f.Args[1]
		}
	}
	var weakA, weakB []*Term
	for _, f := range a.facts {
		if b.holds(f) {
			add(f)
		} else {
			weakA = append(weakA, f)
		}
	}
	for _, f := range b.facts {
		if n.fset[f] {
			continue
		}
		if a.holds(f) {
			add(f)
		} else {
			weakB = append(weakB, f)
		}
	}
	type ck struct {
		a *Term
		g [maxGuard]*Term
	}
	seen := map[ck]bool{}
	addC := func(g []*Term, f *Term) {
		if len(g) > maxGuard || trivial(g, f) {
			return
		}
		g = append([]*Term{}, g...)
		sort.Slice(g, func(i, j int) bool { return g[i].id < g[j].id })
		var k ck
		k.a = f
		copy(k.g[:], g)
		if seen[k] {
			return
		}
		seen[k] = true
		n.cond = append(n.cond, gfact{g, f})
	}
	var nd *Term
	if d != nil {
		nd = in.not(d)
	}
	side := func(p, q *State, weak []*Term, d *Term) {
		for _, c := range p.cond {
			if q.entails(c.g, c.a) {
				addC(c.g, c.a)
			} else if d != nil {
				addC(append(append([]*Term{}, c.g...), d), c.a)
			}
		}
		if d != nil {
			for _, f := range weak {
				if f != d {
					addC([]*Term{d}, f)
				}
			}
		}
	}
	side(a, b, weakA, d)
	side(b, a, weakB, nd)
	if d != nil && (d.Op == OpOr || d.Op == OpAnd) {
		// nothing to record for the tautology d or not d
	}
	for k, v := range a.mem {
		w, ok := b.mem[k]
		if !ok {
			if k.Op == OpObj { // allocated on one side only: unreachable on the other
				n.mem[k] = v
				continue
			}
			w = k
		}
		n.mem[k] = merge(v, w)
	}
	for k, w := range b.mem {
		if _, ok := a.mem[k]; ok {
			continue
		}
		if k.Op == OpObj {
			n.mem[k] = w
			continue
		}
		n.mem[k] = merge(k, w)
	}
	i := 0
	for i < len(a.defers) && i < len(b.defers) && a.defers[i].key == b.defers[i].key && a.defers[i].guard == b.defers[i].guard {
		i++
	}
	n.defers = append([]deferred{}, a.defers[:i]...)
	if len(a.defers) > i || len(b.defers) > i {
		if d == nil {
			bail("a call is deferred under a condition which is not known")
		}
		only := func(ds []deferred, g *Term) {
			for _, x := range ds {
				if x.guard != nil {
					x.guard = in.and(x.guard, g)
				} else {
					x.guard = g
				}
				n.defers = append(n.defers, x)
			}
		}
		only(a.defers[i:], d)
		only(b.defers[i:], in.not(d))
	}
	vals := make([]*Term, len(x.vals))
	for i := range vals {
		if x.vals[i] == nil || y.vals[i] == nil {
			continue
		}
		vals[i] = merge(x.vals[i], y.vals[i])
	}
	return joinItem{n, vals}
}
