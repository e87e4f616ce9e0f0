package main

// Rule framework: obligations over analysed roots.

import (
	"fmt"
	"go/token"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Failure struct {
	Key  string `json:"key"` // rule and construct, without positions
	Rule string `json:"rule"`
	At   string `json:"at"`
	Msg  string `json:"msg"`
}

type Ctx struct {
	id        string
	pr        *Program
	su        *Summ
	fails     []Failure
	obl       int
	disch     int
	roots     map[string]*Root
	funcs     map[*ssa.Function]bool
	sitesN    int
	rule      string
	rules     map[string]int // rule -> obligations
	order     []string
	cache     map[string]*Root
	extra     map[string]any
	emptyMemo map[string]map[string]int
	needs     map[string]bool // helpers whose meaning the rules rely on
}

func (c *Ctx) R(rule string) *Ctx {
	c.rule = rule
	if _, ok := c.rules[rule]; !ok {
		c.rules[rule] = 0
		c.order = append(c.order, rule)
	}
	return c
}

// check records one obligation.
func (c *Ctx) check(ok bool, construct string, pos token.Pos, format string, a ...any) bool {
	c.obl++
	c.rules[c.rule]++
	if ok {
		c.disch++
		return true
	}
	msg := fmt.Sprintf(format, a...)
	c.fails = append(c.fails, Failure{Key: c.rule + " | " + construct, Rule: c.rule, At: c.pr.pos(pos), Msg: msg})
	return false
}

type Root struct {
	c     *Ctx
	e     *Engine
	fn    *ssa.Function
	name  string
	sites []*S
	rets  []*Ret
}

type S struct {
	*Site
	root *Root
	call *Term
	args []*Term
	st   *State
	b    binds
}

type Ret struct {
	root *Root
	st   *State
	vals []*Term
	pos  token.Pos
	b    binds
	post map[string]*Term
}

type opt func(e *Engine)

func keep(names ...string) opt {
	return func(e *Engine) {
		for _, n := range names {
			if e.su.byName[n] == nil {
				bail("function %s not found", n)
			}
			e.keep[n] = true
		}
	}
}
func expand(names ...string) opt {
	return func(e *Engine) {
		for _, n := range names {
			e.inlineSet[n] = true
		}
	}
}
func storeMode(e *Engine) { e.storeMode = true }
func inlineAll(e *Engine) { e.inlineAll = true }

// fnNamed finds the hand-written function of that name.
func (c *Ctx) fnNamed(name string) *ssa.Function {
	var out []*ssa.Function
	for _, f := range c.su.byName[name] {
		if !isPB(c.pr, f) && f.Synthetic == "" {
			out = append(out, f)
		}
	}
	if len(out) == 0 {
		bail("anchor %s not found in the repository", name)
	}
	if len(out) > 1 {
		// prefer the message server method
		for _, f := range out {
			if f.Signature.Recv() != nil {
				if n := namedOf(f.Signature.Recv().Type()); n != nil && n.Obj().Name() == "msgServer" {
					return f
				}
			}
		}
		for _, f := range out {
			if f.Signature.Recv() != nil {
				return f
			}
		}
	}
	return out[0]
}

func (c *Ctx) root(name string, opts ...opt) *Root {
	fn := c.fnNamed(name)
	return c.rootFn(fn, name, fmt.Sprint(len(opts)), opts...)
}

// keepLists: the checks whose rules speak of a list of picked elements as such;
// the others see through it to the list the elements were picked from.
var keepLists = map[string]bool{"C14": true, "C15": true, "C16": true, "C24": true, "C42": true}

func (c *Ctx) rootFn(fn *ssa.Function, name, tag string, opts ...opt) *Root {
	key := fn.String() + "|" + tag
	if keepLists[c.id] {
		key += "|lists"
	}
	cached := tag == "0" || strings.HasPrefix(tag, "+")
	if cached {
		if r := c.cache[key]; r != nil {
			r2 := *r
			r2.c = c
			r2.sites = nil
			for _, s := range r.sites {
				s2 := *s
				s2.root = &r2
				r2.sites = append(r2.sites, &s2)
			}
			r2.rets = nil
			for _, s := range r.rets {
				s2 := *s
				s2.root = &r2
				r2.rets = append(r2.rets, &s2)
			}
			c.account(&r2)
			return &r2
		}
	}
	e := newEngine(c.pr, c.su)
	for _, o := range opts {
		o(e)
	}
	e.run(fn)
	e.in.linear = true
	e.in.keepLists = keepLists[c.id]
	r := &Root{c: c, e: e, fn: fn, name: name}
	for _, s := range e.sites {
		r.sites = append(r.sites, &S{Site: s, root: r, call: e.canon(s.Call)})
	}
	for _, x := range e.rets {
		if x.item.st.dead {
			continue
		}
		ret := &Ret{root: r, pos: x.pos, b: binds{}}
		ret.st = e.canonState(x.item.st)
		for _, v := range x.item.vals {
			ret.vals = append(ret.vals, e.canon(e.snap(x.item.st, v)))
		}
		for _, p := range e.params {
			if p.Op == OpObj {
				if ret.post == nil {
					ret.post = map[string]*Term{}
				}
				ret.post[strings.TrimPrefix(p.Name, "param:")] = e.canon(e.snap(x.item.st, p))
			}
		}
		r.rets = append(r.rets, ret)
	}
	if cached {
		c.cache[key] = r
	}
	c.account(r)
	return r
}

func (c *Ctx) account(r *Root) {
	c.roots[r.name] = r
	c.funcs[r.fn] = true
	for f := range r.e.visited {
		c.funcs[f] = true
	}
	c.sitesN += len(r.sites)
	for n := range r.e.kept {
		if helpers[n] != nil {
			c.needs[n] = true
		}
	}
}

func (s *S) state() *State {
	if s.st == nil {
		s.st = s.root.e.canonState(s.Site.St, s.Loops...)
	}
	return s.st
}

func (s *S) arg(i int) *Term {
	if i >= len(s.call.Args) {
		return s.root.e.in.Nil
	}
	return s.call.Args[i]
}

func patName(p string) string {
	if i := strings.IndexByte(p, '('); i >= 0 {
		return p[:i]
	}
	return p
}

// find returns the sites matching any of the patterns ("mod.Fn" or
// "mod.Fn(args...)").
func (r *Root) find(pats ...string) []*S {
	var out []*S
	for _, s := range r.sites {
		for _, p := range pats {
			b := binds{}
			if !strings.Contains(p, "(") {
				if s.Name != p {
					continue
				}
			} else {
				if s.Name != patName(p) || !r.e.match(r.e.T(p, b), s.call, b) {
					continue
				}
			}
			c := *s
			c.b = b
			out = append(out, &c)
			break
		}
	}
	return out
}

// atLeast: as find, with a minimum number of sites.
func (r *Root) some(pats ...string) []*S {
	ss := r.find(pats...)
	r.c.check(len(ss) > 0, r.name+": "+strings.Join(pats, " / "), r.fn.Pos(), "%s: no call of the form %s", r.name, strings.Join(pats, " or "))
	return ss
}

// only: every site of the named function matches one of the patterns, and
// there is at least one.
func (r *Root) only(name string, pats ...string) []*S {
	all := r.find(name)
	r.c.check(len(all) > 0, r.name+": "+name, r.fn.Pos(), "%s: no call of %s", r.name, name)
	ok := r.find(pats...)
	for _, s := range all {
		hit := false
		for _, o := range ok {
			if o.Site == s.Site {
				hit = true
			}
		}
		r.c.check(hit, r.name+": "+name+" form", s.Pos, "%s: %s does not have the form %s", r.name, clip(s.call.String()), strings.Join(pats, " or "))
	}
	return ok
}

func clip(s string) string {
	if len(s) > 600 {
		return s[:600] + "…"
	}
	return s
}

// holdsIn: does st imply the condition?
func (r *Root) holdsIn(st *State, cond string, b binds) bool {
	t := r.e.T(cond, b)
	return r.holdsT(st, t, b)
}

func (r *Root) holdsT(st *State, t *Term, b binds) bool {
	if !hasWild(t) {
		return r.decide(st, t, 6)
	}
	if t.Op == OpAnd {
		return r.holdsT(st, t.Args[0], b) && r.holdsT(st, r.subst(t.Args[1], b), b)
	}
	if t.Op == OpOr {
		for _, f := range st.facts {
			save := b.copy()
			if r.e.match(t, f, b) {
				return true
			}
			b.restore(save)
		}
		return r.holdsT(st, t.Args[0], b) || r.holdsT(st, t.Args[1], b)
	}
	for _, f := range st.facts {
		save := b.copy()
		if r.e.match(t, f, b) {
			return true
		}
		b.restore(save)
	}
	return false
}

func (r *Root) subst(t *Term, b binds) *Term {
	if isWild(t) {
		if v, ok := b[t.Name]; ok {
			return v
		}
		return t
	}
	if len(t.Args) == 0 {
		return t
	}
	args := make([]*Term, len(t.Args))
	same := true
	for i, a := range t.Args {
		args[i] = r.subst(a, b)
		same = same && args[i] == a
	}
	if same {
		return t
	}
	return r.e.in.rebuild(t, args)
}

// guard: the site is reached only when every condition holds.
func (s *S) guard(conds ...string) *S {
	for _, cd := range conds {
		ok := s.root.holdsIn(s.state(), cd, s.b)
		s.root.c.check(ok, s.root.name+": "+s.Name+" guarded by "+cd, s.Pos, "%s: %s is reachable without %s (via %s)", s.root.name, clip(s.call.String()), cd, strings.Join(s.Chain, " > "))
	}
	return s
}

// guardAny: one of the conditions holds.
func (s *S) guardAny(conds ...string) *S {
	ok := false
	for _, cd := range conds {
		if s.root.holdsIn(s.state(), cd, s.b) {
			ok = true
			break
		}
	}
	s.root.c.check(ok, s.root.name+": "+s.Name+" guarded by "+conds[0], s.Pos, "%s: %s is reachable without %s (via %s)", s.root.name, clip(s.call.String()), strings.Join(conds, " or "), strings.Join(s.Chain, " > "))
	return s
}

// after: the effect happened on every path before the site.
func (s *S) after(pats ...string) *S {
	for _, p := range pats {
		ok := s.root.didIn(s.state(), p, s.b)
		s.root.c.check(ok, s.root.name+": "+s.Name+" after "+p, s.Pos, "%s: %s is reachable without a preceding %s", s.root.name, clip(s.call.String()), p)
	}
	return s
}

// is: a relation over the bound terms, decided on their structure under the
// site's facts.
func (s *S) is(want string, got *Term) *S {
	s.root.c.check(s.root.same(s.state(), want, got, s.b), s.root.name+": "+s.Name+" value "+want, s.Pos, "%s: at %s the value is %s, expected %s", s.root.name, s.Name, clip(got.String()), want)
	return s
}

func (r *Root) same(st *State, want string, got *Term, b binds) bool {
	w := r.e.T(want, b)
	got = st.simp(got)
	if !hasWild(w) {
		return r.sameCases(st, w, got, 7)
	}
	return r.e.match(w, got, b)
}

// splitAtom picks an atomic condition some choice in the terms depends on.
func splitAtom(boolean bool, ts ...*Term) *Term {
	var atom func(t *Term) *Term
	atom = func(t *Term) *Term {
		switch t.Op {
		case OpNot:
			return atom(t.Args[0])
		case OpAnd, OpOr, OpIte:
			for _, a := range t.Args {
				if x := atom(a); x != nil {
					return x
				}
			}
			return nil
		case OpConst:
			return nil
		}
		return t
	}
	if boolean {
		for _, t := range ts {
			if t.Op == OpNot {
				t = t.Args[0]
			}
			if t.Op == OpEq {
				for _, a := range t.Args {
					switch a.Op {
					case OpAnd, OpOr, OpNot, OpLt, OpLe, OpEq:
						return atom(a)
					}
				}
			}
			if t.Op == OpAnd || t.Op == OpOr || t.Op == OpIte {
				if x := atom(t); x != nil {
					return x
				}
			}
		}
	}
	// the first choice whose condition does not speak of what a fold or search
	// around it binds
	var out *Term
	var w func(t *Term, bound map[*Term]bool)
	var seen map[*Term]bool
	w = func(t *Term, bound map[*Term]bool) {
		if out != nil || seen[t] {
			return
		}
		seen[t] = true
		if t.Op == OpIte && !usesAcc(t.Args[0], 0) && !t.Args[0].contains(func(y *Term) bool { return bound[y] }) {
			out = atom(t.Args[0])
			return
		}
		bs := binds1(t)
		for i, a := range t.Args {
			if i == 1 && bs != nil {
				in, om := map[*Term]bool{}, seen
				for x := range bound {
					in[x] = true
				}
				for x := range bs {
					in[x] = true
				}
				seen = map[*Term]bool{}
				w(a, in)
				seen = om
			} else {
				w(a, bound)
			}
		}
	}
	for _, t := range ts {
		seen = map[*Term]bool{}
		w(t, nil)
	}
	return out
}

// decide: the condition holds in every case.
func (r *Root) decide(st *State, t *Term, depth int) bool {
	t = st.simp(r.missing(st, t))
	if t == r.e.in.True || st.dead || st.holds(t) {
		return true
	}
	if depth == 0 || t == r.e.in.False {
		if os.Getenv("KYVELINT_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "UNDECIDED depth %d %s\n", depth, t)
			for _, f := range st.facts {
				fmt.Fprintf(os.Stderr, "   FACT %s\n", f)
			}
		}
		return false
	}
	c := splitAtom(true, t)
	if c == nil {
		c = r.splitFact(st, t)
	}
	if c == nil {
		c = r.splitFound(st, t)
	}
	if c == nil {
		if os.Getenv("KYVELINT_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "UNDECIDED %s\n", t)
			for _, f := range st.facts {
				fmt.Fprintf(os.Stderr, "   FACT %s\n", f)
			}
		}
		return false
	}
	return r.cases(st, c, func(s *State) bool {
		r.resimp(s)
		return r.decide(s, t, depth-1)
	})
}

// resimp simplifies the case distinctions inside facts under the current case.
func (r *Root) resimp(s *State) {
	for _, f := range append([]*Term{}, s.facts...) {
		g := f
		if f.Op == OpNot {
			g = f.Args[0]
		}
		if (g.Op == OpEq || g.Op == OpLe || g.Op == OpLt) && g.contains(func(y *Term) bool { return y.Op == OpIte }) {
			a, b := s.simp(g.Args[0]), s.simp(g.Args[1])
			var h *Term
			switch {
			case a == g.Args[0] && b == g.Args[1]:
				continue
			case g.Op == OpEq:
				h = r.e.in.eq(a, b)
			case g.Op == OpLt:
				h = r.e.in.lt(a, b, false)
			default:
				h = r.e.in.le(a, b, false)
			}
			if f.Op == OpNot {
				h = r.e.in.not(h)
			}
			s.assume(h)
		}
	}
}

// impossible: the facts contradict each other in every case they distinguish.
func (r *Root) impossible(st *State, depth int) bool {
	if st.dead {
		return true
	}
	if depth == 0 {
		return false
	}
	for _, f := range st.facts {
		if f.Op == OpDid || !f.hasIte {
			continue
		}
		if c := splitAtom(false, f); c != nil && !st.holds(c) && !st.holds(r.e.in.not(c)) {
			return r.cases(st, c, func(s *State) bool {
				r.resimp(s)
				return r.impossible(s, depth-1)
			})
		}
	}
	return false
}

// splitFact: a case condition inside a fact about one of the calls in t.
func (r *Root) splitFact(st *State, t *Term) *Term {
	calls := map[*Term]bool{}
	t.contains(func(y *Term) bool {
		if y.Op == OpCall || y.Op == OpRes {
			calls[y] = true
		}
		return false
	})
	for _, f := range st.facts {
		if f.Op == OpDid || !f.contains(func(y *Term) bool { return y.Op == OpIte }) || !f.contains(func(y *Term) bool { return calls[y] }) {
			continue
		}
		if c := splitAtom(false, f); c != nil && !st.holds(c) && !st.holds(r.e.in.not(c)) {
			return c
		}
	}
	return nil
}

// whenMissing: the getter returns the zero record, or one with just the given
// fields set from its arguments, when it reports that there is none.
func (c *Ctx) whenMissing(name string) map[string]int {
	if v, ok := c.emptyMemo[name]; ok {
		return v
	}
	if c.emptyMemo == nil {
		c.emptyMemo = map[string]map[string]int{}
	}
	c.emptyMemo[name] = nil
	var out map[string]int
	for _, fn := range c.su.byName[name] {
		if out != nil || len(fn.Blocks) == 0 || c.su.direct[fn] == 0 || fn.Signature.Results().Len() != 2 || !isBoolType(fn.Signature.Results().At(1).Type()) {
			return nil
		}
		g := c.rootFn(fn, name, "+store", storeMode)
		for _, x := range g.rets {
			ok := x.vals[1]
			if ok == g.e.in.True || x.st.holds(ok) {
				continue
			}
			z := x.st.clone()
			z.assume(g.e.in.not(ok))
			if z.dead {
				continue
			}
			base, fs := structFields(z.simp(x.vals[0]))
			if out != nil || base != g.e.in.zeroOf(fn.Signature.Results().At(0).Type()) {
				return nil
			}
			out = map[string]int{}
			for f, v := range fs {
				n := -1
				for i := 1; i < 4; i++ {
					if v == g.e.T("$"+strconv.Itoa(i), nil) {
						n = i - 1
					}
				}
				if n < 0 {
					return nil
				}
				out[f] = n
			}
		}
	}
	c.emptyMemo[name] = out
	return out
}

// found: the getters whose records the term speaks of.
func (r *Root) found(t *Term) (out []*Term) {
	t.contains(func(y *Term) bool {
		if y.Op == OpRes && y.Name == "val" && y.Args[0].Op == OpCall && r.c.whenMissing(y.Args[0].Name) != nil {
			for _, x := range out {
				if x == y {
					return false
				}
			}
			out = append(out, y)
		}
		return false
	})
	return
}

// missing: the term with the records known not to be there empty.
func (r *Root) missing(st *State, t *Term) *Term {
	for _, v := range r.found(t) {
		if st.refutes(r.e.in.mk(OpRes, "ok", v.Args[0])) {
			z := r.e.in.zeroOf(r.c.su.byName[v.Args[0].Name][0].Signature.Results().At(0).Type())
			fs := r.c.whenMissing(v.Args[0].Name)
			for _, f := range sortedKeys(fs) {
				z = r.e.in.update(z, []string{f}, v.Args[0].Args[fs[f]])
			}
			t = r.replace(t, v, z)
		}
	}
	return t
}

func (r *Root) replace(t, old, by *Term) *Term {
	if t == old {
		return by
	}
	args := make([]*Term, len(t.Args))
	same := true
	for i, a := range t.Args {
		args[i] = r.replace(a, old, by)
		same = same && args[i] == a
	}
	if same {
		return t
	}
	return r.e.in.rebuild(t, args)
}

// splitFound: whether there is a record the term speaks of, when a fact
// depends on it.
func (r *Root) splitFound(st *State, t *Term) *Term {
	for _, v := range r.found(t) {
		ok := r.e.in.mk(OpRes, "ok", v.Args[0])
		if st.holds(ok) || st.refutes(ok) {
			continue
		}
		for _, f := range st.facts {
			if (f.Op == OpOr || f.Op == OpNot && f.Args[0].Op == OpAnd) && f.contains(func(y *Term) bool { return y == ok }) {
				return ok
			}
		}
		for _, c := range st.cond {
			for _, g := range append([]*Term{c.a}, c.g...) {
				if g.contains(func(y *Term) bool { return y == ok }) {
					return ok
				}
			}
		}
	}
	return nil
}

func (r *Root) sameCases(st *State, w, got *Term, depth int) bool {
	if st.dead {
		return true
	}
	w, got = st.simp(r.missing(st, w)), st.simp(r.missing(st, got))
	if w == got || st.holds(r.e.in.eq(w, got)) {
		return true
	}
	if depth == 0 {
		return false
	}
	if rw, rg := r.e.in.ring(w), r.e.in.ring(got); rw == rg && (rw != w || rg != got) {
		return true
	}
	// loops that do the same, whatever the element
	fold := func(t *Term) bool { return t.Op == OpCall && t.Name == "fold" }
	if fold(w) && fold(got) && w != got && len(w.Args) == len(got.Args) && w.Args[0] == got.Args[0] && w.Args[1] != got.Args[1] {
		if r.sameCases(newState(r.e.in), w.Args[1], got.Args[1], depth-1) && r.replace(w, w.Args[1], got.Args[1]) == got {
			return true
		}
	}
	c := splitAtom(false, got, w)
	if c == nil {
		if os.Getenv("KYVELINT_DIFF") != "" {
			firstDiff(w, got)
		}
		return false
	}
	return r.cases(st, c, func(s *State) bool { return r.sameCases(s, w, got, depth-1) })
}

// firstDiff prints where two terms differ (a debugging aid).
func firstDiff(a, b *Term) {
	if a.Op == b.Op && a.Name == b.Name && len(a.Args) == len(b.Args) {
		for i := range a.Args {
			if a.Args[i] != b.Args[i] {
				firstDiff(a.Args[i], b.Args[i])
				return
			}
		}
	}
	fmt.Fprintf(os.Stderr, "DIFF want %s\n     got  %s\n", clip(a.String()), clip(b.String()))
}

func (r *Root) cases(st *State, c *Term, f func(*State) bool) bool {
	a := st.clone()
	a.assume(c)
	if !a.dead && !f(a) {
		return false
	}
	b := st.clone()
	b.assume(r.e.in.not(c))
	return b.dead || f(b)
}

func (r *Root) didIn(st *State, pat string, b binds) bool {
	name := patName(pat)
	var p *Term
	if strings.Contains(pat, "(") {
		p = r.e.T(pat, b)
	}
	for _, f := range st.facts {
		if f.Op != OpDid || f.Args[0].Name != name {
			continue
		}
		if p == nil {
			return true
		}
		save := b.copy()
		if r.e.match(p, f.Args[0], b) || r.e.match(p, st.simp(f.Args[0]), b) {
			return true
		}
		b.restore(save)
	}
	// in every case, by one of the conditional occurrences
	if len(st.cond) > 0 {
		any := r.e.in.False
		for _, c := range st.cond {
			f := c.a
			if f.Op != OpDid || f.Args[0].Name != name {
				continue
			}
			if p != nil {
				save := b.copy()
				ok := r.e.match(p, f.Args[0], b) || r.e.match(p, st.simp(f.Args[0]), b)
				b.restore(save)
				if !ok {
					continue
				}
			}
			g := r.e.in.True
			for _, y := range c.g {
				g = r.e.in.and(g, y)
			}
			any = r.e.in.or(any, g)
		}
		if any != r.e.in.False && r.decide(st, any, 6) {
			return true
		}
	}
	return false
}

// ---- returns

func (r *Root) errIndex() int {
	rs := r.fn.Signature.Results()
	if n := rs.Len(); n > 0 && isErrType(rs.At(n-1).Type()) {
		return n - 1
	}
	return -1
}

// success: the states in which the root returns without an error.
func (r *Root) success() []*Ret {
	i := r.errIndex()
	var out []*Ret
	for _, x := range r.rets {
		if i < 0 {
			out = append(out, x.clone())
			continue
		}
		y := x.clone()
		y.st.assume(r.e.in.eq(x.vals[i], r.e.in.Nil))
		if !y.st.dead {
			out = append(out, y)
		}
	}
	r.c.check(len(out) > 0, r.name+": returns", r.fn.Pos(), "%s: no successful return", r.name)
	return out
}

func (r *Root) failures() []*Ret {
	i := r.errIndex()
	var out []*Ret
	for _, x := range r.rets {
		if i < 0 {
			continue
		}
		y := x.clone()
		y.st.assume(r.e.in.not(r.e.in.eq(x.vals[i], r.e.in.Nil)))
		if !y.st.dead {
			out = append(out, y)
		}
	}
	return out
}

func (x *Ret) clone() *Ret {
	n := *x
	n.st = x.st.clone()
	n.b = x.b.copy()
	return &n
}

func (r *Root) assumeAll(st *State, conds []string, b binds) {
	if len(conds) == 0 {
		return
	}
	for _, cd := range conds {
		st.assume(r.e.T(cd, b))
		if st.dead {
			return
		}
	}
	resolve(st)
}

// resolve: facts over conditional values are re-simplified under the facts now
// known.
func resolve(st *State) {
	for round := 0; round < 3 && !st.dead; round++ {
		n := len(st.facts)
		for _, f := range append([]*Term{}, st.facts...) {
			if !f.hasIte || f.Op == OpDid {
				continue
			}
			args := make([]*Term, len(f.Args))
			ch := false
			for i, a := range f.Args {
				if f.Op == OpNot && (a.Op == OpEq || a.Op == OpLt || a.Op == OpLe) {
					as := make([]*Term, len(a.Args))
					for j, x := range a.Args {
						as[j] = st.simp(x)
						ch = ch || as[j] != x
					}
					args[i] = st.in.rebuild(a, as)
					continue
				}
				if isBoolTerm(a) {
					args[i] = a
					continue
				}
				args[i] = st.simp(a)
				ch = ch || args[i] != a
			}
			if ch {
				st.assume(st.in.rebuild(f, args))
				if st.dead {
					return
				}
			}
		}
		if len(st.facts) == n {
			return
		}
	}
}

// always: on success every condition holds (it was checked).
func (r *Root) always(conds ...string) *Root {
	for _, x := range r.success() {
		for _, cd := range conds {
			r.c.check(r.holdsIn(x.st, cd, x.b), r.name+": success requires "+cd, x.pos, "%s: succeeds without %s", r.name, cd)
		}
	}
	return r
}

// exact: success requires every condition, and when all of them hold (and the
// listed calls return no error) the root does not fail.
func (r *Root) exact(conds []string, noErr ...string) *Root {
	r.always(conds...)
	return r.accepts(conds, noErr...)
}

// accepts: when the conditions hold and the listed calls return no error, the
// root does not fail.
func (r *Root) accepts(conds []string, noErr ...string) *Root {
	for _, x := range r.failures() {
		y := x.clone()
		r.assumeAll(y.st, conds, y.b)
		if !y.st.dead {
			for _, f := range append([]*Term{}, y.st.facts...) {
				if f.Op == OpNot && f.Args[0].Op == OpEq && f.Args[0].Args[1] == r.e.in.Nil && f.Args[0].Args[0].Op == OpRes {
					nm := f.Args[0].Args[0].Args[0].Name
					for _, n := range noErr {
						if n == nm || strings.HasSuffix(n, "*") && strings.HasPrefix(nm, n[:len(n)-1]) {
							y.st.dead = true
						}
					}
				}
			}
		}
		if !y.st.dead { // errors joined from several calls
			for _, n := range noErr {
				for _, s := range r.find(strings.TrimSuffix(n, "*")) {
					y.st.assume(r.e.in.eq(r.e.in.mk(OpRes, "err", s.call), r.e.in.Nil))
				}
			}
		}
		if os.Getenv("KYVELINT_DEBUG") != "" && !r.impossible(y.st, 6) {
			for _, f := range y.st.facts {
				if f.Op != OpDid {
					fmt.Fprintf(os.Stderr, "   FACT %s\n", f)
				}
			}
		}
		r.c.check(r.impossible(y.st, 6), r.name+": accepts when its conditions hold", x.pos, "%s: can fail although %s", r.name, strings.Join(conds, ", "))
	}
	return r
}

// when selects the success states compatible with the conditions.
func (r *Root) when(conds ...string) []*Ret {
	var out []*Ret
	for _, x := range r.success() {
		r.assumeAll(x.st, conds, x.b)
		if !x.st.dead {
			out = append(out, x)
		}
	}
	r.c.check(len(out) > 0, r.name+": case "+strings.Join(conds, " && "), r.fn.Pos(), "%s: the case %s is never reached", r.name, strings.Join(conds, " && "))
	return out
}

type Rets []*Ret

// does: on success (under the conditions) the effect happened.
func (r *Root) does(conds []string, pats ...string) *Root {
	for _, x := range r.when(conds...) {
		for _, p := range pats {
			r.c.check(r.didIn(x.st, p, x.b.copy()), r.name+": "+p+whenStr(conds), x.pos, "%s: can succeed%s without %s", r.name, whenStr(conds), p)
		}
	}
	return r
}

func whenStr(conds []string) string {
	if len(conds) == 0 {
		return ""
	}
	return " when " + strings.Join(conds, " && ")
}

// doesNot: under the conditions the effect cannot have happened: every site is
// refuted by the conditions.
func (r *Root) doesNot(conds []string, pats ...string) *Root {
	for _, p := range pats {
		n := 0
		for _, s := range r.find(p) {
			st := s.state().clone()
			r.assumeAll(st, conds, s.b.copy())
			n++
			r.c.check(st.dead, r.name+": no "+p+whenStr(conds), s.Pos, "%s: %s is reachable%s", r.name, clip(s.call.String()), whenStr(conds))
		}
		if n == 0 {
			r.c.check(true, "", r.fn.Pos(), "")
		}
	}
	return r
}

// returns: result i equals the expression, on success under the conditions.
func (r *Root) returns(i int, conds []string, want string) *Root {
	for _, x := range r.when(conds...) {
		got := x.st.simp(x.vals[i])
		r.c.check(r.same(x.st, want, got, x.b.copy()), r.name+fmt.Sprintf(": result %d", i)+whenStr(conds), x.pos, "%s: result %d%s is %s, expected %s", r.name, i, whenStr(conds), clip(got.String()), want)
	}
	return r
}

// returnsField: as returns, for a field of the result.
func (r *Root) returnsField(i int, field string, conds []string, want string) *Root {
	for _, x := range r.when(conds...) {
		got := x.st.simp(r.e.in.path(x.vals[i], strings.Split(field, ".")))
		r.c.check(r.same(x.st, want, got, x.b.copy()), r.name+": result "+field+whenStr(conds), x.pos, "%s: %s%s is %s, expected %s", r.name, field, whenStr(conds), clip(got.String()), want)
	}
	return r
}

// post: what a pointer parameter refers to afterwards differs from before only
// in the listed fields, with these values.
func (r *Root) post(param string, conds []string, fields map[string]string) *Root {
	for _, x := range r.when(conds...) {
		t := x.post[param]
		if t == nil {
			r.c.check(len(fields) == 0, r.name+": "+param+" afterwards", x.pos, "%s: %s is never changed", r.name, param)
			continue
		}
		t = x.st.simp(t)
		_, fs := structFields(t)
		for _, f := range sortedKeys(fs) {
			_, ok := fields[f]
			r.c.check(ok, r.name+": "+param+"."+f+whenStr(conds), x.pos, "%s: also changes %s.%s to %s", r.name, param, f, clip(fs[f].String()))
		}
		for _, f := range sortedKeys(fields) {
			if fields[f] == "_" {
				continue
			}
			got := x.st.simp(r.e.in.path(t, strings.Split(f, ".")))
			r.c.check(r.same(x.st, fields[f], got, x.b.copy()), r.name+": "+param+"."+f+whenStr(conds), x.pos, "%s: sets %s.%s%s to %s, expected %s", r.name, param, f, whenStr(conds), clip(got.String()), fields[f])
		}
	}
	return r
}

// effects: the root has no other state-changing calls than these (events and
// the emergency halt aside).
func (r *Root) effects(names ...string) *Root {
	ok := map[string]bool{}
	for _, n := range names {
		ok[n] = true
	}
	for _, s := range r.sites {
		if !s.Eff || strings.HasPrefix(s.Name, "emit.") || s.Name == "util.PanicHalt" || s.Name == "iter.Close" {
			continue
		}
		if fs := r.e.su.byName[s.Name]; len(fs) == 1 && !r.e.su.hard[fs[0]] {
			continue
		}
		r.c.check(ok[s.Name], r.name+": effect "+s.Name, s.Pos, "%s: unexpected state change %s (allowed: %s)", r.name, clip(s.call.String()), strings.Join(names, ", "))
	}
	return r
}

// changes: the record written differs from the record read only in the listed
// fields, with these values.
func (s *S) changes(i int, base string, fields map[string]string) *S {
	r := s.root
	t := s.state().simp(s.arg(i))
	b := r.e.T(base, s.b)
	var leaves []*Term
	var w func(t *Term)
	w = func(t *Term) {
		if t.Op == OpIte {
			w(t.Args[1])
			w(t.Args[2])
			return
		}
		leaves = append(leaves, t)
	}
	w(t)
	for _, l := range leaves {
		root, fs := structFields(l)
		r.c.check(r.e.match(b, root, s.b.copy()), r.name+": "+s.Name+" base record", s.Pos, "%s: %s does not update %s", r.name, clip(s.call.String()), base)
		for f := range fs {
			_, ok := fields[f]
			r.c.check(ok, r.name+": "+s.Name+" changes "+f, s.Pos, "%s: %s also changes field %s to %s", r.name, s.Name, f, clip(fs[f].String()))
		}
	}
	var fl []string
	for f := range fields {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	for _, f := range fl {
		want := fields[f]
		if want == "_" {
			continue
		}
		got := s.state().simp(r.e.in.path(t, strings.Split(f, ".")))
		r.c.check(r.same(s.state(), want, got, s.b.copy()), r.name+": "+s.Name+" field "+f, s.Pos, "%s: %s sets %s to %s, expected %s", r.name, s.Name, f, clip(got.String()), want)
	}
	return s
}

// record: a freshly built record has these field values.
func (s *S) record(i int, fields map[string]string) *S {
	r := s.root
	t := s.state().simp(s.arg(i))
	var fl []string
	for f := range fields {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	for _, f := range fl {
		got := s.state().simp(r.e.in.path(t, strings.Split(f, ".")))
		r.c.check(r.same(s.state(), fields[f], got, s.b.copy()), r.name+": "+s.Name+" field "+f, s.Pos, "%s: %s has %s = %s, expected %s", r.name, s.Name, f, clip(got.String()), fields[f])
	}
	return s
}

func (r *Root) count(n int, pats ...string) []*S {
	ss := r.find(pats...)
	r.c.check(len(ss) == n, r.name+": count "+strings.Join(pats, "/"), r.fn.Pos(), "%s: %d calls of %s, expected %d", r.name, len(ss), strings.Join(pats, "/"), n)
	return ss
}

// within: under the extra conditions (a case), the site is reached only when
// one of the alternatives holds. An impossible case is vacuous only if the
// site itself is unreachable in it.
func (s *S) within(conds []string, alts ...string) *S {
	st := s.state().clone()
	b := s.b.copy()
	s.root.assumeAll(st, conds, b)
	ok := st.dead
	for _, a := range alts {
		ok = ok || s.root.holdsIn(st, a, b)
	}
	s.root.c.check(ok, s.root.name+": "+s.Name+" bounded by "+alts[0]+whenStr(conds), s.Pos, "%s: %s is reachable%s without %s", s.root.name, clip(s.call.String()), whenStr(conds), strings.Join(alts, " or "))
	return s
}

// with: whenever the site is reached (and the conditions hold), the effects have
// happened before or follow.
func (s *S) with(conds []string, pats ...string) *S {
	st := s.state().clone()
	s.root.assumeAll(st, conds, s.b.copy())
	for _, p := range pats {
		if st.dead || s.root.didIn(st, p, s.b.copy()) {
			s.root.c.check(true, s.root.name+": "+s.Name+" goes with "+p, s.Pos, "")
			continue
		}
		s.leadsToIf(conds, p)
	}
	return s
}

// turn: at the end of an iteration of the site's loop after which the loop
// goes on.
func (s *S) turn() *State {
	if n := len(s.Loops); n > 0 && s.Loops[n-1].back != nil {
		return s.root.e.canonState(s.Loops[n-1].back, s.Loops[:n]...)
	}
	return nil
}

// queueLoop: the loop of a queue walks the positions after low in order; it
// passes a position only if it is empty or its entry is due and has been
// removed, and stops only at an entry that is not due or behind the last one.
func queueLoop(c *Ctx, r *Root, saved *S, entry, due, low, high, remove string) {
	st := saved.state().clone()
	r.assumeAll(st, []string{entry + ".ok", low + " < " + high}, binds{})
	c.check(st.dead || r.holdsIn(st, "!("+due+")", binds{}), "stops at an entry", saved.Pos, "%s: the queue stops at an entry that is due", r.name)
	st = saved.state().clone()
	r.assumeAll(st, []string{"!" + entry + ".ok"}, binds{})
	c.check(st.dead || r.holdsIn(st, low+" >= "+high, binds{}), "stops at a gap", saved.Pos, "%s: the queue stops at an empty position before its end", r.name)
	n := 0
	for _, s := range r.find(remove) {
		t := s.turn()
		c.check(t != nil, "loop", s.Pos, "%s: entries are removed outside the loop over the queue", r.name)
		if t == nil {
			continue
		}
		n++
		gap := t.clone()
		r.assumeAll(gap, []string{"!" + entry + ".ok"}, binds{})
		c.check(gap.dead || r.holdsIn(gap, low+" < "+high, binds{}), "stays in the queue", s.Pos, "%s: the queue goes on behind its last position", r.name)
		t = t.clone()
		r.assumeAll(t, []string{entry + ".ok"}, binds{})
		c.check(t.dead || r.holdsIn(t, due, binds{}), "passes due entries only", s.Pos, "%s: the queue goes on past an entry that is not due", r.name)
		c.check(t.dead || r.didIn(t, remove, binds{}), "removes what it passes", s.Pos, "%s: the queue goes on past an entry without removing it", r.name)
	}
	c.check(n > 0, "queue", saved.Pos, "%s: no entry is removed", r.name)
}

func (x *Ret) get(field string) *Term {
	return x.st.simp(x.root.e.in.path(x.vals[0], strings.Split(field, ".")))
}

// field: one result field is the given difference of two others.
func (x *Ret) field(f, want string) {
	parts := strings.SplitN(want, " - ", 2)
	w := x.root.e.in.bin("sub", x.get(parts[0]), x.get(parts[1]))
	got := x.get(f)
	x.root.c.check(got == x.st.simp(w), x.root.name+": "+f+" = "+want, x.pos, "%s: %s is %s, expected %s", x.root.name, f, clip(got.String()), want)
}

func (x *Ret) fieldIs(f string, mk func(get func(string) *Term) *Term) {
	got := x.get(f)
	w := mk(x.get)
	x.root.c.check(got == x.st.simp(w), x.root.name+": "+f, x.pos, "%s: %s is %s, expected %s", x.root.name, f, clip(got.String()), clip(w.String()))
}

// everyElem: the effect happens for every element of the list, on every
// iteration, and no iteration ends the loop early without an error.
func (r *Root) everyElem(pat, list string) *Root {
	return r.everyElemWhen(nil, pat, list)
}

func (r *Root) everyElemWhen(conds []string, pat, list string) *Root {
	for _, x := range r.when(conds...) {
		r.c.check(r.didIn(x.st, pat, x.b.copy()), r.name+": "+pat+" for every element of "+list, x.pos, "%s: %s does not happen for every element of %s", r.name, pat, list)
	}
	r.fullLoop(list, pat)
	return r
}

// fullLoop: the loops around the matching sites run over the whole list.
func (r *Root) fullLoop(list string, pats ...string) *Root {
	w := r.e.T("elem("+list+")", nil)
	n := 0
	for _, s := range r.find(pats...) {
		var in *LoopInfo
		for _, l := range s.Loops {
			for el := range l.elems {
				if r.e.match(w, r.e.canon(el), binds{}) {
					in = l
				}
			}
		}
		if in == nil {
			continue
		}
		n++
		for _, p := range in.early {
			r.c.check(false, r.name+": loop over "+list+" is complete", p, "%s: the loop over %s around %s can end early", r.name, list, s.Name)
		}
		r.c.check(true, "", s.Pos, "")
	}
	r.c.check(n > 0, r.name+": loop over "+list, r.fn.Pos(), "%s: %s is not called in a loop over %s", r.name, strings.Join(pats, "/"), list)
	return r
}

// storeVal: a field of the record a store.Set writes.
func (s *S) storeVal(f string) *Term {
	v := s.arg(len(s.call.Args) - 1)
	if v.Op == OpCall && v.Name == "marshal" {
		v = v.Args[0]
	}
	if f == "" {
		return v
	}
	return s.state().simp(s.root.e.in.path(v, strings.Split(f, ".")))
}

// seen: what the store holds when the call is made reflects an effect of the
// form, made in the same turn of every loop around the call.
func (s *S) seen(pat string) bool {
	e := s.root.e
	own := map[*LoopInfo]bool{}
	for _, l := range s.Loops {
		own[l] = true
	}
	for store, v := range e.vers[s.Site.Call] {
		done := map[*Term]bool{}
		var walk func(v *Term) bool
		walk = func(v *Term) bool {
			if v == nil || done[v] {
				return false
			}
			done[v] = true
			switch v.Op {
			case OpIte:
				return walk(v.Args[1]) || walk(v.Args[2])
			case OpLoop:
				fo := e.folds[v]
				return fo != nil && !own[fo.Loop] && (walk(fo.Init) || walk(fo.Step))
			case OpCall:
				b := s.b.copy()
				if e.match(e.T(pat, b), e.canon(v), b) {
					return true
				}
				return walk(e.vers[v][store])
			}
			return false
		}
		if walk(v) {
			return true
		}
	}
	return false
}

// sees: the call is made after the effects, where there are any.
func (s *S) sees(pats ...string) *S {
	for _, p := range pats {
		s.root.c.check(s.seen(p), s.root.name+": "+s.Name+" sees "+p, s.Pos, "%s: %s does not reflect %s, which belongs before it", s.root.name, clip(s.call.String()), p)
	}
	return s
}

// decidedBy: the condition holds of a result of the read that already reflects
// the effects.
func (s *S) decidedBy(read, field, value string, seen ...string) *S {
	r := s.root
	e := r.e
	want := e.T(value, nil)
	ok := false
	for _, x := range r.find(read) {
		fresh := true
		for _, p := range seen {
			fresh = fresh && x.seen(p)
		}
		if fresh && s.Site.St.holds(e.in.eq(e.in.field(x.Site.Call, field), want)) {
			ok = true
		}
	}
	r.c.check(ok, r.name+": "+s.Name+" decided by "+read, s.Pos, "%s: %s does not depend on %s.%s as it is after %s", r.name, clip(s.call.String()), read, field, strings.Join(seen, " and "))
	return s
}
