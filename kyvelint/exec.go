package main

// Forward dataflow over SSA with calls expanded in place. Every merge point
// joins its incoming states (state.go); loops are summarised by replacing what
// an iteration changes with loop symbols. Calls that are not expanded become
// events.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Site struct {
	Call  *Term
	Name  string
	Args  []*Term
	Pos   token.Pos
	Fn    *ssa.Function // function containing the call
	Chain []string
	St    *State
	Loops []*LoopInfo
	Eff   bool
	Ins   ssa.Instruction  // arithmetic: the operation
	Vers  map[string]*Term // events: the last write to each store (none: not written yet)
}

type LoopInfo struct {
	id     int
	elems  map[*Term]bool // element terms of the loop
	pos    token.Pos
	parent *LoopInfo
	// slices whose length bounds an induction variable
	ind map[*Term]*Term // induction symbol -> initial value
	// exits other than the header's, without an error: later elements are skipped
	early []token.Pos
	// a search: the loop is left early exactly when an element satisfies a
	// condition; the term says that one does
	exists *Term
	back   *State // at the end of an iteration after which the loop goes on
}

type Fold struct {
	Sym, Init, Step *Term
	Loop            *LoopInfo
	St              *State // at the end of an iteration
}

type retState struct {
	item joinItem
	pos  token.Pos
}

type Engine struct {
	vers      map[*Term]map[string]*Term // see noteVersions
	notLate   map[*ssa.BasicBlock]bool   // loops from the second element that do more than that
	lastCall  *ssa.CallCommon
	lastFrame *frame
	pr        *Program
	su        *Summ
	in        *Interner
	keep      map[string]bool
	storeMode bool
	rootMod   string
	inlineAll bool // expand cross-module functions as well
	inlineSet map[string]bool

	sites     []*Site
	folds     map[*Term]*Fold
	objType   map[*Term]types.Type
	funcs     map[*Term]*ssa.Function
	closure   map[*Term][]*Term
	stack     []*ssa.Function
	loops     []*LoopInfo
	nobj      int
	nloop     int
	notes     map[string]bool
	steps     int
	rets      []retState // of the root
	params    []*Term
	elemLp    map[*Term]*LoopInfo
	loopIDs   map[string]int
	visited   map[*ssa.Function]bool
	kept      map[string]bool // helpers of the repository treated as one step
	arith     bool            // record integer arithmetic
	canonMemo map[*Term]*Term
	canonBusy map[*Term]bool
}

func newEngine(pr *Program, su *Summ) *Engine {
	return &Engine{pr: pr, su: su, in: newInterner(), keep: map[string]bool{}, inlineSet: map[string]bool{}, folds: map[*Term]*Fold{}, objType: map[*Term]types.Type{},
		funcs: map[*Term]*ssa.Function{}, closure: map[*Term][]*Term{}, notes: map[string]bool{}, elemLp: map[*Term]*LoopInfo{}, loopIDs: map[string]int{}, visited: map[*ssa.Function]bool{}, kept: map[string]bool{}}
}

type analysisError struct{ msg string }

func (e analysisError) Error() string { return e.msg }

func bail(f string, a ...any) { panic(analysisError{fmt.Sprintf(f, a...)}) }

type frame struct {
	e      *Engine
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	tup    map[ssa.Value][]*Term
	free   []*Term
	chain  []string
	path   string                        // call sites leading here
	dyn    map[*ssa.Parameter]types.Type // concrete types passed as interfaces
	rets   []retState
	isRoot bool
	rpo    []*ssa.BasicBlock
	rpoIx  map[*ssa.BasicBlock]int
	nest   map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> loop body
}

// ---- running a root

func (e *Engine) run(fn *ssa.Function) {
	e.rootMod = moduleOf(fnPkgPath(fn))
	var args []*Term
	n := 0
	st := newState(e.in)
	for i, p := range fn.Params {
		var t *Term
		switch {
		case i == 0 && fn.Signature.Recv() != nil:
			t = e.in.mk(OpParam, "recv")
			if n := namedOf(p.Type()); n != nil && !isKeeperType(n) {
				t = e.in.mk(OpParam, "self")
			}
		case isCtx(p.Type()):
			t = e.in.mk(OpParam, "ctx")
		default:
			n++
			nm := "$" + strconv.Itoa(n)
			if nn := namedOf(p.Type()); nn != nil {
				tn := nn.Obj().Name()
				if strings.HasPrefix(tn, "Msg") {
					nm = "msg"
				} else if strings.HasPrefix(tn, "Query") && strings.HasSuffix(tn, "Request") {
					nm = "req"
				}
			}
			t = e.in.mk(OpParam, nm)
		}
		if pt, ok := p.Type().Underlying().(*types.Pointer); ok && e.su.mods[fn][i] {
			// what it points to is named; the pointer is an object of its own
			if _, ok := pt.Elem().Underlying().(*types.Struct); ok {
				o := e.in.mk(OpObj, "param:"+t.Name)
				e.objType[o] = pt.Elem()
				st.mem[o] = t
				t = o
			}
		}
		args = append(args, t)
	}
	e.params = args
	// a closure analysed by itself: what it captured is named by the variable
	var free []*Term
	for _, v := range fn.FreeVars {
		t := e.in.mk(OpParam, "^"+v.Name())
		if pt, ok := v.Type().Underlying().(*types.Pointer); ok && v.Name() != "" {
			o := e.in.mk(OpObj, "free:"+v.Name())
			e.objType[o] = pt.Elem()
			st.mem[o] = t
			t = o
		}
		free = append(free, t)
	}
	f := e.newFrame(fn, args, free, nil)
	f.isRoot = true
	e.stack = append(e.stack, fn)
	f.exec(st)
	e.stack = e.stack[:len(e.stack)-1]
	e.rets = f.rets
}

func isCtx(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Name() == "Context" && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "context" || strings.HasSuffix(n.Obj().Pkg().Path(), "cosmos-sdk/types"))
}

// dynType: the concrete type an interface value is known to hold.
func (f *frame) dynType(v ssa.Value) types.Type {
	switch v := v.(type) {
	case *ssa.MakeInterface:
		return v.X.Type()
	case *ssa.ChangeInterface:
		return f.dynType(v.X)
	case *ssa.Parameter:
		return f.dyn[v]
	}
	return nil
}

func (e *Engine) newFrame(fn *ssa.Function, args, free []*Term, chain []string) *frame {
	f := &frame{e: e, fn: fn, env: map[ssa.Value]*Term{}, tup: map[ssa.Value][]*Term{}, free: free}
	f.chain = append(append([]string{}, chain...), shortName(fn))
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(free) {
			f.env[p] = free[i]
		}
	}
	return f
}

// ---- control flow

func (f *frame) prepare() {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(f.fn.Blocks[0])
	f.rpoIx = map[*ssa.BasicBlock]int{}
	for i := len(post) - 1; i >= 0; i-- {
		f.rpoIx[post[i]] = len(f.rpo)
		f.rpo = append(f.rpo, post[i])
	}
	f.nest = map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range f.rpo {
		for _, s := range b.Succs {
			if f.rpoIx[s] <= f.rpoIx[b] {
				if !s.Dominates(b) {
					bail("irreducible control flow in %s", f.fn)
				}
				body := f.nest[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					f.nest[s] = body
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if body[x] {
						continue
					}
					body[x] = true
					for _, p := range x.Preds {
						if _, ok := f.rpoIx[p]; ok {
							work = append(work, p)
						}
					}
				}
			}
		}
	}
}

type edge struct{ from, to *ssa.BasicBlock }

type edgeIn struct {
	from *ssa.BasicBlock
	st   *State
}

func (f *frame) exec(st *State) {
	if len(f.fn.Blocks) == 0 {
		bail("no body for %s", f.fn)
	}
	f.prepare()
	f.region(nil, f.fn.Blocks[0], st, true)
}

// region runs the blocks of a loop body (or the function, body == nil) from the
// header with the given state. It returns the states on edges back to the
// header and on edges leaving the region.
func (f *frame) region(body map[*ssa.BasicBlock]bool, header *ssa.BasicBlock, hst *State, phiDone bool) (back []edgeIn, exits map[*ssa.BasicBlock][]edgeIn) {
	pend := map[*ssa.BasicBlock][]edgeIn{}
	exits = map[*ssa.BasicBlock][]edgeIn{}
	route := func(from, to *ssa.BasicBlock, st *State) {
		if st == nil || st.dead {
			return
		}
		switch {
		case to == header && body != nil:
			back = append(back, edgeIn{from, st})
		case body != nil && !body[to]:
			exits[to] = append(exits[to], edgeIn{from, st})
		default:
			pend[to] = append(pend[to], edgeIn{from, st})
		}
	}
	for _, b := range f.rpo {
		if body != nil && !body[b] {
			continue
		}
		var st *State
		isHdr := b == header
		if isHdr {
			st = hst
		} else {
			in := pend[b]
			if len(in) == 0 {
				continue
			}
			st = f.mergeInto(b, in)
			if st == nil || st.dead {
				continue
			}
		}
		if lb := f.nest[b]; lb != nil && !(isHdr && body != nil) {
			// b heads a loop nested in this region
			ex := f.loop(b, lb, st)
			for to, ins := range ex {
				for _, x := range ins {
					route(x.from, to, x.st)
				}
			}
			// blocks of the nested loop are done
			for x := range lb {
				if x != b {
					pend[x] = nil
				}
			}
			continue
		}
		if f.inNested(b, body, header) {
			continue
		}
		f.block(b, st, route)
	}
	return
}

func (f *frame) inNested(b *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, header *ssa.BasicBlock) bool {
	for h, lb := range f.nest {
		if h == header && body != nil {
			continue
		}
		if h != b && lb[b] && (body == nil || body[h]) {
			return true
		}
	}
	return false
}

func (f *frame) mergeInto(b *ssa.BasicBlock, in []edgeIn) *State {
	phis := blockPhis(b)
	items := make([]joinItem, 0, len(in))
	for _, x := range in {
		it := joinItem{st: x.st}
		for _, p := range phis {
			it.vals = append(it.vals, f.phiVal(p, b, x.from))
		}
		items = append(items, it)
	}
	m := joinAll(f.e.in, items, f.gate("b"+strconv.Itoa(b.Index)))
	for i, p := range phis {
		f.env[p] = m.vals[i]
	}
	return m.st
}

func (f *frame) phiVal(p *ssa.Phi, b, from *ssa.BasicBlock) *Term {
	for i, pr := range b.Preds {
		if pr == from {
			return f.val(p.Edges[i])
		}
	}
	bail("phi edge not found in %s", f.fn)
	return nil
}

// id names this expansion: the functions and call sites leading to it.
func (f *frame) id() string { return strings.Join(f.chain, ">") + f.path }

// gate makes ghost conditions for a merge point of this call and iteration.
func (f *frame) gate(where string) func() *Term {
	n := 0
	return func() *Term {
		n++
		key := f.id() + ":" + where + ":" + strconv.Itoa(n)
		for _, l := range f.e.loops {
			key += fmt.Sprint("/", l.id)
		}
		return f.e.in.mk(OpLoop, "gate<"+key+">")
	}
}

func blockPhis(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, i := range b.Instrs {
		if p, ok := i.(*ssa.Phi); ok {
			out = append(out, p)
		} else {
			break
		}
	}
	return out
}

// loop summarises the natural loop headed by h. On entry f.env holds the entry
// values of its phis.
func (f *frame) loop(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, entry *State) map[*ssa.BasicBlock][]edgeIn {
	e := f.e
	phis := blockPhis(h)
	init := map[*ssa.Phi]*Term{}
	for _, p := range phis {
		init[p] = f.env[p]
	}
	if ex, ok := f.unroll(h, body, entry); ok {
		return ex
	}
	// a loop starting with the second element is run from the first one; it is
	// kept if the first iteration turns out to change nothing
	var late *ssa.Phi
	for _, p := range phis {
		if isInduction(p, h, body) && init[p] == e.in.One && !e.notLate[h] && onlyIn(p, body) {
			late = p
		}
	}
	flag := flagPhi(h, body, phis, init, e.in.True)
	var flagOut []joinItem
	entry0 := map[*ssa.Phi]*Term{}
	if late != nil {
		for p, v := range init {
			entry0[p] = v
		}
		init[late] = e.in.Zero
	}
	key := f.id() + fmt.Sprint("#", h.Index)
	for _, l := range e.loops {
		key += fmt.Sprint("/", l.id)
	}
	id, ok := e.loopIDs[key]
	if !ok {
		e.nloop++
		id = e.nloop
		e.loopIDs[key] = id
	}
	li := &LoopInfo{id: id, elems: map[*Term]bool{}, ind: map[*Term]*Term{}}
	for _, i := range h.Instrs {
		if i.Pos().IsValid() {
			li.pos = i.Pos()
			break
		}
	}
	if len(e.loops) > 0 {
		li.parent = e.loops[len(e.loops)-1]
	}
	havocPhi := map[*ssa.Phi]*Term{}
	havocMem := map[*Term]*Term{}
	// induction variables are recognised from the SSA form
	for _, p := range phis {
		if isInduction(p, h, body) {
			s := e.in.mk(OpLoop, fmt.Sprintf("i%d.%s", id, p.Name()))
			havocPhi[p] = s
			li.ind[s] = init[p]
			if v, ok := init[p].intVal(); ok {
				e.in.nonneg[s] = v >= 0
				e.in.nonneg[e.in.bin("add", s, e.in.One)] = v >= -1
			}
		}
	}
	e.loops = append(e.loops, li)
	nsites := len(e.sites)
	nrets := len(f.rets)
	var exits map[*ssa.BasicBlock][]edgeIn
	var back []edgeIn
	var backVals map[*ssa.Phi]*Term
	var backSt *State
	for pass := 0; ; pass++ {
		if pass > 12 {
			bail("loop in %s does not stabilise", f.fn)
		}
		e.sites = e.sites[:nsites]
		f.rets = f.rets[:nrets]
		st := entry.clone()
		for _, p := range phis {
			if s := havocPhi[p]; s != nil {
				f.env[p] = s
			} else {
				f.env[p] = init[p]
			}
		}
		for k, v := range havocMem {
			st.mem[k] = v
		}
		base := map[*Term]*Term{}
		for k, v := range st.mem {
			base[k] = v
		}
		back, exits = f.region(body, h, st, true)
		if flag != nil {
			back, flagOut = f.thread(flag, phis, h, back)
		}
		changed := false
		backVals = map[*ssa.Phi]*Term{}
		backSt = nil
		if len(back) > 0 {
			items := make([]joinItem, 0, len(back))
			for _, x := range back {
				it := joinItem{st: x.st}
				for _, p := range phis {
					v := f.phiVal(p, h, x.from)
					if flag != nil {
						v = x.st.simp(v)
					}
					if p == flag {
						v = e.in.True
					}
					it.vals = append(it.vals, v)
				}
				items = append(items, it)
			}
			// the phi values were computed before the phis are rebound
			m := joinAll(e.in, items, f.gate("h"+strconv.Itoa(h.Index)))
			backSt = m.st
			ls := f.lister(backSt, base)
			for i := range m.vals {
				m.vals[i] = ls(m.vals[i])
			}
			for k, v := range m.st.mem {
				if _, had := base[k]; had || k.Op != OpObj {
					m.st.mem[k] = ls(v)
				}
			}
			for i, p := range phis {
				backVals[p] = m.vals[i]
				if havocPhi[p] == nil && m.vals[i] != init[p] {
					havocPhi[p] = e.in.mk(OpLoop, fmt.Sprintf("L%d.%s", id, p.Name()))
					changed = true
				}
			}
			for k, v := range m.st.mem {
				old, had := base[k]
				if !had {
					if k.Op == OpObj {
						continue // allocated inside the iteration
					}
					old = k
				}
				if old == v || k.contains(func(y *Term) bool {
					if y.Op != OpElem {
						return false
					}
					for l := e.elemLp[y]; l != nil; l = l.parent {
						if l.id == li.id {
							return true
						}
					}
					return false
				}) {
					continue
				}
				nv := e.havoc(old, v, fmt.Sprintf("L%d.m%d", id, k.id))
				if nv != havocMem[k] {
					havocMem[k] = nv
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}
	e.loops = e.loops[:len(e.loops)-1]
	if len(flagOut) > 0 {
		m := joinAll(e.in, flagOut, f.gate("f"+strconv.Itoa(h.Index)))
		exits[h.Succs[1]] = append(exits[h.Succs[1]], edgeIn{h, m.st})
		// after the loop the variables have their values of the last iteration
		defer func() {
			for i, p := range phis {
				f.env[p] = m.vals[i]
			}
		}()
	}
	if late != nil && !f.firstIdle(li, body, h, init, havocPhi, backVals, havocMem, entry, backSt, exits, anyEff(e.sites[nsites:]) || len(f.rets) > nrets) {
		if e.notLate == nil {
			e.notLate = map[*ssa.BasicBlock]bool{}
		}
		e.notLate[h] = true
		e.sites = e.sites[:nsites]
		f.rets = f.rets[:nrets]
		for p, v := range entry0 {
			f.env[p] = v
		}
		return f.loop(h, body, entry)
	}
	for _, p := range phis {
		if s := havocPhi[p]; s != nil {
			e.folds[s] = &Fold{s, init[p], backVals[p], li, nil}
			if s != f.env[p] {
				f.env[p] = s
			}
		}
	}
	for k, v := range havocMem {
		ini, ok := entry.mem[k]
		if !ok {
			ini = k
		}
		if backSt != nil {
			e.foldMem(v, ini, backSt.mem[k], li)
		}
	}
	li.back = backSt
	for _, fo := range e.folds {
		if fo.Loop == li {
			fo.St = backSt
		}
	}
	li.early = nil
	for to, ins := range exits {
		if _, dies := to.Instrs[len(to.Instrs)-1].(*ssa.Panic); dies {
			continue
		}
		for _, x := range ins {
			if (x.from != h || flag != nil) && !x.st.dead {
				li.early = append(li.early, lastPos(x.from))
			}
		}
	}
	for _, r := range f.rets[nrets:] {
		if n := len(r.item.vals); n > 0 && isErrType(f.fn.Signature.Results().At(n-1).Type()) && !r.item.st.dead {
			t := r.item.st.clone()
			t.assume(e.in.eq(r.item.vals[n-1], e.in.Nil))
			if t.dead {
				continue
			}
		}
		li.early = append(li.early, r.pos)
	}
	if backSt != nil && !backSt.dead && flag == nil {
		f.search(li, backSt, h, exits, f.rets[nrets:])
	}
	// what held at the end of every iteration, about that iteration's element,
	// holds for each element once the header exits
	if backSt != nil && !backSt.dead && late == nil && flag == nil {
		for to, ins := range exits {
			_ = to
			for _, x := range ins {
				if x.from != h {
					continue
				}
				var own map[*Term]bool
				own = li.elems
				about := func(t *Term) bool {
					return t.contains(func(y *Term) bool { return own[y] })
				}
				for _, a := range backSt.facts {
					if !x.st.fset[a] && about(a) {
						if f.carried(li, a) {
							if t := f.dup(li, a); t != nil {
								x.st.addFact(e.in.not(t))
							}
							continue
						}
						x.st.addFactRaw(a)
					}
				}
				for _, c := range backSt.cond {
					if f.carried(li, c.a) {
						continue
					}
					ab := about(c.a)
					for i, g := range c.g {
						// how a search inside the iteration ended
						if t := f.e.counterTest(g); t != nil && about(t) {
							ab = true
							c.g = append([]*Term{}, c.g...)
							c.g[i] = t
						}
					}
					for _, g := range c.g {
						ab = ab || about(g)
						if f.carried(li, g) {
							ab = false
							break
						}
					}
					if ab {
						x.st.addCondRaw(c)
					}
				}
			}
		}
	}
	return exits
}

// unroll runs a loop with a small constant number of iterations, such as one
// over a list written out in place, iteration by iteration.
func (f *frame) unroll(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, entry *State) (map[*ssa.BasicBlock][]edgeIn, bool) {
	const most = 8
	e := f.e
	phis := blockPhis(h)
	cond, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return nil, false
	}
	cmp, ok := cond.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS {
		return nil, false
	}
	if y, ok := cmp.Y.(ssa.Instruction); ok && body[y.Block()] {
		return nil, false
	}
	var ind *ssa.Phi
	for _, p := range phis {
		if isInduction(p, h, body) {
			if x, ok := cmp.X.(*ssa.BinOp); cmp.X == ssa.Value(p) || ok && x.Op == token.ADD && x.X == ssa.Value(p) {
				ind = p
			}
		}
	}
	if ind == nil {
		return nil, false
	}
	from, okF := f.env[ind].intVal()
	to, okT := f.val(cmp.Y).intVal()
	if !okF || !okT || to-from > most {
		return nil, false
	}
	uses := map[ssa.Value]bool{} // defined inside, used outside
	for b := range body {
		for _, ins := range b.Instrs {
			switch ins.(type) {
			case *ssa.Defer, *ssa.Go, *ssa.Select:
				return nil, false
			}
			v, ok := ins.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, r := range *v.Referrers() {
				if !body[r.Block()] {
					uses[v] = true
				}
			}
		}
	}
	var outer []ssa.Value
	for _, b := range f.rpo {
		if body[b] {
			for _, ins := range b.Instrs {
				if v, ok := ins.(ssa.Value); ok && uses[v] {
					outer = append(outer, v)
				}
			}
		}
	}
	type edge struct{ from, to *ssa.BasicBlock }
	outs := map[edge][]joinItem{}
	var order []edge
	nsites, nrets, path := len(e.sites), len(f.rets), f.path
	saved := map[*ssa.Phi]*Term{}
	for _, p := range phis {
		saved[p] = f.env[p]
	}
	giveUp := func() (map[*ssa.BasicBlock][]edgeIn, bool) {
		e.sites, f.rets, f.path = e.sites[:nsites], f.rets[:nrets], path
		for p, v := range saved {
			f.env[p] = v
		}
		return nil, false
	}
	st := entry.clone()
	for k := 0; ; k++ {
		if k > most+2 {
			return giveUp()
		}
		f.path = fmt.Sprintf("%s~%d.%d", path, h.Index, k)
		for _, v := range outer {
			if _, ok := v.(*ssa.Phi); !ok || v.(*ssa.Phi).Block() != h {
				delete(f.env, v)
			}
		}
		back, exits := f.region(body, h, st, true)
		for _, b := range f.rpo {
			for _, x := range exits[b] {
				if x.st == nil || x.st.dead {
					continue
				}
				if n := len(b.Instrs); len(b.Preds) == 1 {
					if _, ok := b.Instrs[n-1].(*ssa.Return); ok {
						// every iteration returns by itself
						f.block(b, x.st, func(_, _ *ssa.BasicBlock, _ *State) {})
						continue
					}
				}
				ed := edge{x.from, b}
				if outs[ed] == nil {
					order = append(order, ed)
				}
				it := joinItem{st: x.st}
				for _, v := range outer {
					it.vals = append(it.vals, f.env[v])
				}
				outs[ed] = append(outs[ed], it)
			}
		}
		if len(back) == 0 {
			break
		}
		items := make([]joinItem, 0, len(back))
		for _, x := range back {
			it := joinItem{st: x.st}
			for _, p := range phis {
				it.vals = append(it.vals, f.phiVal(p, h, x.from))
			}
			items = append(items, it)
		}
		m := joinAll(e.in, items, f.gate("u"+strconv.Itoa(h.Index)))
		for i, p := range phis {
			f.env[p] = m.vals[i]
		}
		st = m.st
		if st == nil || st.dead {
			break
		}
	}
	f.path = path
	res := map[*ssa.BasicBlock][]edgeIn{}
	val := map[ssa.Value]*Term{}
	for _, ed := range order {
		items := outs[ed]
		// only what this way out can lead to
		need := make([]bool, len(outer))
		for i, v := range outer {
			need[i] = f.usedBeyond(v, ed.from, ed.to, body)
		}
		for j := range items {
			for i := range outer {
				if !need[i] {
					items[j].vals[i] = e.in.Nil
				} else if items[j].vals[i] == nil {
					return giveUp()
				}
			}
		}
		m := joinAll(e.in, items, f.gate(fmt.Sprintf("x%d.%d", ed.from.Index, ed.to.Index)))
		for i, v := range outer {
			if !need[i] {
				continue
			}
			if o := val[v]; o != nil && o != m.vals[i] {
				return giveUp() // two ways out with different values
			}
			val[v] = m.vals[i]
		}
		res[ed.to] = append(res[ed.to], edgeIn{ed.from, m.st})
	}
	for v, t := range val {
		f.env[v] = t
	}
	return res, true
}

// usedBeyond: the way out from → to of a loop can lead to a use of v.
func (f *frame) usedBeyond(v ssa.Value, from, to *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	reach := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if reach[b] || body[b] {
			return
		}
		reach[b] = true
		for _, s := range b.Succs {
			walk(s)
		}
	}
	walk(to)
	for _, r := range *v.Referrers() {
		p, ok := r.(*ssa.Phi)
		if !ok {
			if reach[r.Block()] {
				return true
			}
			continue
		}
		for i, ed := range p.Edges {
			if ed != v {
				continue
			}
			pr := p.Block().Preds[i]
			if reach[pr] || p.Block() == to && pr == from {
				return true
			}
		}
	}
	return false
}

// search recognises loops left early exactly when some element satisfies a
// condition.
func (f *frame) search(li *LoopInfo, back *State, h *ssa.BasicBlock, exits map[*ssa.BasicBlock][]edgeIn, rets []retState) {
	in := f.e.in
	var early, full []*State
	for _, ins := range exits {
		for _, x := range ins {
			if x.st.dead {
				continue
			}
			if x.from == h {
				full = append(full, x.st)
			} else {
				early = append(early, x.st)
			}
		}
	}
	for _, r := range rets {
		if !r.item.st.dead {
			early = append(early, r.item.st)
		}
	}
	if len(early) == 0 {
		return
	}
	var best *Term
	for _, a := range back.facts {
		if f.carried(li, a) {
			if t := f.dup(li, a); t != nil {
				neg := in.not(a)
				for _, s := range early {
					if s.fset[neg] || s.holds(neg) {
						s.addFact(t)
					}
				}
			}
			continue
		}
		var el *Term
		n := 0
		for x := range li.elems {
			if a.contains(func(y *Term) bool { return y == x }) {
				el = x
				n++
			}
		}
		if n != 1 || el.Op != OpElem {
			continue
		}
		neg := in.not(a)
		all := true
		for _, s := range early {
			all = all && (s.fset[neg] || s.holds(neg))
		}
		if !all {
			continue
		}
		t := in.exists(el, neg)
		if best == nil || len(t.String()) < len(best.String()) {
			best = t
		}
	}
	if best == nil {
		return
	}
	li.exists = best
	for _, s := range early {
		s.addFact(best)
	}
	for _, s := range full {
		s.addFact(in.not(best))
	}
}

// carried: the term mentions a value the loop changes from one iteration to the
// next, so that it means something else after the loop.
func (f *frame) carried(li *LoopInfo, a *Term) bool {
	pre := fmt.Sprintf("L%d.", li.id)
	if a.Op == OpDid {
		return false
	}
	var has func(t *Term) bool
	has = func(t *Term) bool {
		if t.Op == OpLoop && strings.HasPrefix(t.Name, pre) {
			return true
		}
		for _, x := range t.Args {
			if x.Op != OpVer && has(x) {
				return true
			}
		}
		return false
	}
	return has(a)
}

// dup: a says that the key of the element is not among the keys a map has
// collected from the earlier elements; the result says that two elements of
// the list have one key.
func (f *frame) dup(li *LoopInfo, a *Term) *Term {
	in := f.e.in
	if a.Op != OpNot {
		return nil
	}
	h := a.Args[0]
	if h.Op != OpCall || h.Name != "haskey" && h.Name != "lookup" {
		return nil
	}
	fo := f.e.folds[h.Args[0]]
	if fo == nil || fo.Loop != li {
		return nil
	}
	if i, st := fo.Init, fo.Step; i == nil || i.Op != OpCall || i.Name != "emptymap" || st == nil || st.Op != OpCall || st.Name != "mapset" || st.Args[0] != h.Args[0] || st.Args[1] != h.Args[1] || h.Name == "lookup" && st.Args[2] != in.True {
		return nil
	}
	for el := range li.elems {
		if el.Op == OpElem && h.Args[1].contains(func(y *Term) bool { return y == el }) {
			return in.mk(OpCall, "dup", el.Args[0], h.Args[1])
		}
	}
	return nil
}

// exists: some element el of its list satisfies cond.
func (in *Interner) exists(el, cond *Term) *Term {
	if cond.Op == OpEq {
		for i := 0; i < 2; i++ {
			if x := cond.Args[1-i]; cond.Args[i] == el && !x.contains(func(y *Term) bool { return y == el }) {
				return in.mk(OpCall, "contains", el.Args[0], x)
			}
		}
	}
	return in.mk(OpCall, "exists", el.Args[0], cond)
}

func (s *State) addFactRaw(a *Term) {
	s.fset[a] = true
	s.facts = append(s.facts, a)
	if a.Op == OpEq && a.Args[1].isConst() {
		s.eqc[a.Args[0]] = a.Args[1]
	}
}

func (e *Engine) havoc(old, nv *Term, name string) *Term {
	// when all versions refine one structure, only differing fields change
	names := map[string]bool{}
	var root *Term
	same, any := true, false
	var leaves func(t *Term)
	leaves = func(t *Term) {
		if t.Op == OpIte {
			leaves(t.Args[1])
			leaves(t.Args[2])
			return
		}
		r, fs := structFields(t)
		for n := range fs {
			names[n] = true
			any = true
		}
		if root == nil {
			root = r
		} else if root != r {
			same = false
		}
	}
	leaves(old)
	leaves(nv)
	if same && any {
		out := old
		if old.Op == OpIte {
			out = root
			for _, n := range sortedKeys(names) {
				out = e.in.update(out, []string{n}, e.in.field(old, n))
			}
		}
		for _, n := range sortedKeys(names) {
			a, b := e.in.field(old, n), e.in.field(nv, n)
			if a != b {
				out = e.in.update(out, []string{n}, e.in.mk(OpLoop, name+"."+n))
			}
		}
		return out
	}
	return e.in.mk(OpLoop, name)
}

func structFields(t *Term) (*Term, map[string]*Term) {
	if t.Op != OpStruct {
		return t, nil
	}
	m := map[string]*Term{}
	for i, n := range strings.Split(t.Name, ",") {
		m[n] = t.Args[i+1]
	}
	return t.Args[0], m
}

// flagPhi: the variable a loop of the form "for more := true; more; { more =
// false ... more = true }" runs on.
func flagPhi(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, phis []*ssa.Phi, init map[*ssa.Phi]*Term, yes *Term) *ssa.Phi {
	var br *ssa.If
	for _, i := range h.Instrs {
		switch x := i.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			br = x
		default:
			return nil
		}
	}
	if br == nil || !body[h.Succs[0]] || body[h.Succs[1]] {
		return nil
	}
	p, ok := br.Cond.(*ssa.Phi)
	if !ok || p.Block() != h || init[p] != yes || !onlyIn(p, body) {
		return nil
	}
	others := false
	for b := range body {
		for _, s := range b.Succs {
			others = others || b != h && !body[s]
		}
	}
	for _, q := range phis {
		if others && !onlyIn(q, body) {
			return nil
		}
	}
	return p
}

// thread splits the ends of the iterations into those that go on and those
// that leave the loop, with the values the variables have then.
func (f *frame) thread(flag *ssa.Phi, phis []*ssa.Phi, h *ssa.BasicBlock, back []edgeIn) (on []edgeIn, out []joinItem) {
	in := f.e.in
	for _, x := range back {
		v := x.st.simp(f.phiVal(flag, h, x.from))
		a, b := x.st.clone(), x.st.clone()
		a.assume(v)
		b.assume(in.not(v))
		if v != in.False && !a.dead {
			f.resimp(a)
			on = append(on, edgeIn{x.from, a})
		}
		if v != in.True && !b.dead {
			f.resimp(b)
			it := joinItem{st: b}
			for _, p := range phis {
				it.vals = append(it.vals, b.simp(f.phiVal(p, h, x.from)))
			}
			out = append(out, it)
		}
	}
	return on, out
}

// resimp: conditional values in memory under what is now known.
func (f *frame) resimp(s *State) {
	for k, v := range s.mem {
		if v != nil && v.hasIte {
			s.mem[k] = s.simp(v)
		}
	}
}

func anyEff(sites []*Site) bool {
	for _, s := range sites {
		if s.Eff {
			return true
		}
	}
	return false
}

// onlyIn: the value is used inside the loop only.
func onlyIn(p *ssa.Phi, body map[*ssa.BasicBlock]bool) bool {
	for _, r := range *p.Referrers() {
		if !body[r.Block()] {
			return false
		}
	}
	return true
}

// firstIdle: an iteration for the first element of the list would leave every
// variable and the memory as they are.
func (f *frame) firstIdle(li *LoopInfo, body map[*ssa.BasicBlock]bool, h *ssa.BasicBlock, init, hv, back map[*ssa.Phi]*Term, mem map[*Term]*Term, entry, backSt *State, exits map[*ssa.BasicBlock][]edgeIn, effects bool) bool {
	in := f.e.in
	if backSt == nil || backSt.dead || effects {
		return false
	}
	for b := range body {
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.Panic); ok {
				return false
			}
		}
	}
	for _, ins := range exits {
		for _, x := range ins {
			if x.from != h && !x.st.dead {
				return false
			}
		}
	}
	memo := f.e.canonMemo
	f.e.canonMemo = map[*Term]*Term{}
	defer func() { f.e.canonMemo = memo }()
	sub := map[*Term]*Term{}
	for p, s := range hv {
		sub[s] = init[p]
	}
	for el := range li.elems {
		if el.Op != OpElem {
			return false
		}
		sub[el] = in.mk(OpIdx, "", el.Args[0], in.Zero)
		sub[f.e.canon(el)] = sub[el]
	}
	for k, v := range mem {
		ini, ok := entry.mem[k]
		if !ok {
			ini = k
		}
		if v.Op != OpLoop {
			return false
		}
		sub[v] = ini
	}
	for p, s := range hv {
		if _, ok := li.ind[s]; ok {
			continue
		}
		if replace(in, f.e.canon(back[p]), sub) != f.e.canon(init[p]) {
			return false
		}
	}
	for k, v := range mem {
		if replace(in, f.e.canon(backSt.mem[k]), sub) != f.e.canon(sub[v]) {
			return false
		}
	}
	return true
}

func replace(in *Interner, t *Term, m map[*Term]*Term) *Term {
	if v, ok := m[t]; ok {
		return v
	}
	if len(t.Args) == 0 {
		return t
	}
	args := make([]*Term, len(t.Args))
	same := true
	for i, a := range t.Args {
		args[i] = replace(in, a, m)
		same = same && args[i] == a
	}
	if same {
		return t
	}
	return in.rebuild(t, args)
}

func (e *Engine) foldMem(h, init, step *Term, li *LoopInfo) {
	if step == nil {
		return
	}
	own := fmt.Sprintf("L%d.m", li.id)
	if h.Op == OpLoop && strings.HasPrefix(h.Name, own) {
		e.folds[h] = &Fold{h, init, step, li, nil}
		return
	}
	if h.Op == OpStruct {
		for i, n := range strings.Split(h.Name, ",") {
			if a := h.Args[i+1]; a.Op == OpLoop && strings.HasPrefix(a.Name, own) {
				e.folds[a] = &Fold{a, e.in.field(init, n), e.in.field(step, n), li, nil}
			}
		}
	}
}

// isInduction: phi(h) = [entry: c, back: phi+1], compared against a length.
func isInduction(p *ssa.Phi, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	b, ok := p.Type().Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return false
	}
	for i, pr := range h.Preds {
		if !body[pr] {
			continue
		}
		bo, ok := p.Edges[i].(*ssa.BinOp)
		if !ok || bo.Op != token.ADD || bo.X != ssa.Value(p) {
			return false
		}
		c, ok := bo.Y.(*ssa.Const)
		if !ok || c.Value == nil || c.Int64() != 1 {
			return false
		}
	}
	return true
}

func (f *frame) block(b *ssa.BasicBlock, st *State, route func(from, to *ssa.BasicBlock, st *State)) {
	e := f.e
	in := e.in
	for _, ins := range b.Instrs {
		e.steps++
		if e.steps > 3000000 {
			bail("analysis of %s exceeds its step budget", f.chain[0])
		}
		switch x := ins.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			c := st.simp(f.val(x.Cond))
			t := st.clone().assume(c)
			el := st.assume(e.in.not(c))
			route(b, b.Succs[0], t)
			route(b, b.Succs[1], el)
			return
		case *ssa.Jump:
			route(b, b.Succs[0], st)
			return
		case *ssa.Return:
			var vals []*Term
			for _, r := range x.Results {
				v := st.simp(f.val(r))
				if types.IsInterface(r.Type()) && isErrType(r.Type()) && v != in.Nil && st.holds(in.not(in.eq(v, in.Nil))) {
					if !v.isConst() && len(f.e.pr.comparedErrs()) > 0 {
						v = in.konst("ERR?") // may be one of the errors compared somewhere
					} else if !in.namedErr(v) {
						v = in.Err
					}
				}
				vals = append(vals, v)
			}
			f.rets = append(f.rets, retState{joinItem{st, vals}, x.Pos()})
			return
		case *ssa.Panic:
			return
		default:
			st = f.instr(ins, st)
			if st == nil || st.dead {
				return
			}
		}
	}
}

// ---- values

func (f *frame) val(v ssa.Value) *Term {
	e := f.e
	in := e.in
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return in.zeroOf(x.Type())
		}
		switch x.Value.Kind() {
		case constant.Bool:
			return in.boolT(constant.BoolVal(x.Value))
		case constant.String:
			return in.konst(strconv.Quote(constant.StringVal(x.Value)))
		}
		return in.konst(x.Value.ExactString())
	case *ssa.Global:
		return in.mk(OpGlobal, globalName(x))
	case *ssa.Function:
		t := in.mk(OpFunc, x.String())
		e.funcs[t] = x
		return t
	case *ssa.Builtin:
		return in.mk(OpFunc, "builtin."+x.Name())
	}
	if t, ok := f.env[v]; ok && t != nil {
		return t
	}
	bail("no value for %s in %s", v.Name(), f.fn)
	return nil
}

func globalName(g *ssa.Global) string {
	if g.Pkg == nil {
		return g.Name()
	}
	return pkgShort(g.Pkg.Pkg.Path()) + "." + g.Name()
}

// ---- memory

func splitAddr(a *Term) (*Term, []string) {
	if a.Op == OpAddr {
		return a.Args[0], strings.Split(a.Name[1:], ".")
	}
	return a, nil
}

func (e *Engine) addr(base *Term, fieldName string) *Term {
	if base.Op == OpAddr {
		return e.in.mk(OpAddr, base.Name+"."+fieldName, base.Args[0])
	}
	return e.in.mk(OpAddr, "."+fieldName, base)
}

func (e *Engine) content(st *State, p *Term) *Term {
	if c, ok := st.mem[p]; ok {
		return c
	}
	if p.Op == OpGlobal && strings.HasSuffix(p.Name, "!err") {
		return e.in.Err
	}
	return p
}

func (e *Engine) load(st *State, a *Term) *Term {
	switch a.Op {
	case OpIte:
		return e.in.ite(a.Args[0], e.load(st, a.Args[1]), e.load(st, a.Args[2]))
	case OpAddr:
		b, p := splitAddr(a)
		if b.Op == OpIte {
			return e.in.ite(b.Args[0], e.load(st, e.in.mk(OpAddr, a.Name, b.Args[1])), e.load(st, e.in.mk(OpAddr, a.Name, b.Args[2])))
		}
		// an embedded pointer on the path was followed with a load, so p is flat
		return e.in.path(e.content(st, b), p)
	}
	return e.content(st, a)
}

func (e *Engine) store(st *State, a, v *Term) {
	if a.Op == OpIte {
		for i, arm := range []*Term{a.Args[1], a.Args[2]} {
			c := a.Args[0]
			old := e.load(st, arm)
			if i == 0 {
				e.store(st, arm, e.in.ite(c, v, old))
			} else {
				e.store(st, arm, e.in.ite(c, old, v))
			}
		}
		return
	}
	b, p := splitAddr(a)
	if b.Op == OpIte {
		e.store(st, e.in.ite(b.Args[0], e.in.mk(OpAddr, a.Name, b.Args[1]), e.in.mk(OpAddr, a.Name, b.Args[2])), v)
		return
	}
	old := e.content(st, b)
	nv := e.in.update(old, p, v)
	if nv.Typ == nil && old.Typ != nil {
		nv.Typ = old.Typ
	}
	st.mem[b] = nv
	if b.Op == OpElem || b.Op == OpIdx {
		e.listWrite(st, b, nv)
	}
}

// listWrite: the list an element was written to, wherever it is held, now has
// the new element.
func (e *Engine) listWrite(st *State, el, v *Term) {
	l := el.Args[0]
	nl := e.in.mk(OpCall, "setat", l, e.position(el), v)
	r := l
	var p []string
	for r.Op == OpField {
		p = append([]string{r.Name}, p...)
		r = r.Args[0]
	}
	if len(p) > 0 && r.Op == OpParam {
		if e.in.path(e.content(st, r), p) == l {
			st.mem[r] = e.in.update(e.content(st, r), p, nl)
		}
	}
	var keys []*Term
	for k := range st.mem {
		if k.Op == OpObj {
			keys = append(keys, k)
		}
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
	for _, k := range keys {
		c := st.mem[k]
		if c == l {
			st.mem[k] = nl
			continue
		}
		var find func(c *Term, q []string)
		find = func(c *Term, q []string) {
			if _, fs := structFields(c); fs != nil {
				for _, n := range sortedKeys(fs) {
					if fs[n] == l {
						st.mem[k] = e.in.update(st.mem[k], append(append([]string{}, q...), n), nl)
					} else if fs[n].Op == OpStruct {
						find(fs[n], append(append([]string{}, q...), n))
					}
				}
			}
		}
		find(c, nil)
		if len(p) > 0 && e.in.path(st.mem[k], p) == l {
			st.mem[k] = e.in.update(st.mem[k], p, nl)
		}
	}
}

// position of an element in its list.
func (e *Engine) position(el *Term) *Term {
	if el.Op == OpIdx {
		return el.Args[1]
	}
	return e.in.mk(OpLoop, "pos"+el.Name)
}

// snap replaces pointers to local objects by their contents.
func (e *Engine) snap(st *State, t *Term) *Term {
	memo := map[*Term]*Term{}
	active := map[*Term]bool{}
	// writes through pointers held in fields show in the structure holding them
	type ovr struct {
		p []string
		v *Term
	}
	over := map[*Term][]ovr{}
	var keys []*Term
	for k := range st.mem {
		if k.Op == OpField {
			keys = append(keys, k)
		}
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
	for _, k := range keys {
		var p []string
		b := k
		for b.Op == OpField {
			p = append([]string{b.Name}, p...)
			b = b.Args[0]
			over[b] = append(over[b], ovr{append([]string{}, p...), st.mem[k]})
		}
	}
	var w func(t *Term) *Term
	w = func(t *Term) *Term {
		if m, ok := memo[t]; ok {
			return m
		}
		if active[t] {
			return t
		}
		if os := over[t]; os != nil && t.Op != OpField {
			active[t] = true
			out := t
			if c, ok := st.mem[t]; ok && c != t {
				out = w(c)
			}
			for _, o := range os {
				out = e.in.update(out, o.p, w(o.v))
			}
			delete(active, t)
			memo[t] = out
			return out
		}
		active[t] = true
		defer delete(active, t)
		out := t
		switch t.Op {
		case OpObj:
			if c, ok := st.mem[t]; ok {
				out = w(c)
			}
		case OpAddr:
			out = w(e.load(st, t))
		case OpDid, OpVer, OpFunc, OpConst, OpGlobal, OpParam, OpLoop:
			if c, ok := st.mem[t]; ok && t.Op == OpParam {
				out = c
			}
		default:
			if c, ok := st.mem[t]; ok && c != t {
				out = w(c)
				break
			}
			if t.Op == OpField && over[t] == nil {
				if _, ok := st.mem[t.Args[0]]; ok {
					break // the value the field had at first: later values are in the content
				}
			}
			if len(t.Args) > 0 {
				args := make([]*Term, len(t.Args))
				same := true
				for i, a := range t.Args {
					if t.Op == OpStruct && i == 0 && over[a] == nil && a.Op != OpObj {
						if _, ok := st.mem[a]; ok {
							args[i] = a // the content the updates started from
							continue
						}
					}
					args[i] = w(a)
					same = same && args[i] == a
				}
				if !same {
					out = e.in.rebuild(t, args)
				}
			}
		}
		memo[t] = out
		return out
	}
	return st.simp(w(t))
}

// lister gives a function replacing pointers to objects of the running iteration that are put
// into a list by what they point to: nothing else can reach those objects once
// the iteration is over.
func (f *frame) lister(st *State, base map[*Term]*Term) func(*Term) *Term {
	type key struct {
		t    *Term
		elem bool
	}
	memo := map[key]*Term{}
	var w func(t *Term, elem bool) *Term // elem: part of an element of a list
	w = func(t *Term, elem bool) *Term {
		if len(t.Args) == 0 {
			return t
		}
		k := key{t, elem}
		if m, ok := memo[k]; ok {
			return m
		}
		memo[k] = t
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			inElem := t.Op == OpList || elem && (t.Op == OpStruct || t.Op == OpIte)
			if inElem && a.Op == OpObj && base[a] == nil && st.mem[a] != nil {
				args[i] = w(f.e.snap(st, a), true)
			} else {
				args[i] = w(a, inElem)
			}
			ch = ch || args[i] != a
		}
		if ch {
			memo[k] = f.e.in.rebuild(t, args)
		}
		return memo[k]
	}
	return func(v *Term) *Term {
		if v == nil {
			return v
		}
		return w(v, false)
	}
}

// ---- instructions

func (f *frame) set(v ssa.Value, t *Term) {
	f.env[v] = t
	if _, conv := v.(*ssa.Convert); !conv && isUnsigned(v.Type()) {
		f.e.in.nonneg[t] = true
	}
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func (f *frame) newObj(t types.Type, hint string) *Term {
	e := f.e
	key := f.id() + hint
	for _, l := range e.loops {
		key += fmt.Sprint("/", l.id)
	}
	e.nobj++
	o := e.in.mk(OpObj, fmt.Sprintf("%s#%d", key, 0))
	_ = e.nobj
	e.objType[o] = t
	return o
}

func (f *frame) instr(ins ssa.Instruction, st *State) *State {
	e := f.e
	in := e.in
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		o := f.newObj(t, fmt.Sprintf(":%s", x.Name()))
		st.mem[o] = in.zeroOf(t)
		f.set(x, o)
	case *ssa.UnOp:
		a := f.val(x.X)
		switch x.Op {
		case token.NOT:
			f.set(x, in.not(st.simp(a)))
		case token.SUB:
			f.set(x, in.bin("sub", in.Zero, a))
		case token.MUL:
			v := e.load(st, a)
			if a.Op == OpGlobal && v == a {
				if isErrType(x.Type()) {
					v = in.Err
					if g, ok := x.X.(*ssa.Global); ok && f.e.pr.comparedErrs()[g] {
						v = in.konst("ERR:" + a.Name)
					}
				}
			}
			f.set(x, st.simp(v))
		case token.XOR:
			f.set(x, in.mk(OpBin, "bnot", a))
		default:
			bail("unsupported unary %s in %s", x.Op, f.fn)
		}
	case *ssa.BinOp:
		a, b := st.simp(f.val(x.X)), st.simp(f.val(x.Y))
		f.e.recordArith(f, x.Op, x, a, b, st)
		f.set(x, st.simp(f.binop(x, a, b)))
	case *ssa.FieldAddr:
		b := f.val(x.X)
		st0 := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		f.set(x, f.e.fieldAddr(b, st0.Field(x.Field)))
	case *ssa.Field:
		st0 := x.X.Type().Underlying().(*types.Struct)
		fl := st0.Field(x.Field)
		b := f.val(x.X)
		if isEmbedKeeper(fl) {
			f.set(x, b)
			break
		}
		f.set(x, st.simp(in.field(e.content(st, b), fl.Name())))
	case *ssa.IndexAddr:
		b, i := f.val(x.X), st.simp(f.val(x.Index))
		f.set(x, f.elemAddr(st, b, i, x.X.Type()))
	case *ssa.Index:
		b, i := f.val(x.X), st.simp(f.val(x.Index))
		f.set(x, e.load(st, f.elemAddr(st, b, i, x.X.Type())))
	case *ssa.Lookup:
		m, k := e.snap(st, f.val(x.X)), e.snap(st, f.val(x.Index))
		v := e.lookup(m, k)
		if x.CommaOk {
			f.tup[x] = []*Term{v, e.lookupOk(m, k)}
		} else {
			f.set(x, v)
		}
	case *ssa.Store:
		e.store(st, f.val(x.Addr), f.val(x.Val))
	case *ssa.MapUpdate:
		m := f.val(x.Map)
		old := e.content(st, m)
		st.mem[m] = in.mk(OpCall, "mapset", old, e.snap(st, f.val(x.Key)), e.snap(st, f.val(x.Value)))
	case *ssa.MakeMap:
		o := f.newObj(x.Type(), ":"+x.Name())
		st.mem[o] = in.mk(OpCall, "emptymap")
		f.set(x, o)
	case *ssa.MakeSlice:
		l := f.val(x.Len)
		if l == in.Zero {
			f.set(x, in.mk(OpList, ""))
		} else {
			o := f.newObj(x.Type(), ":"+x.Name())
			st.mem[o] = in.mk(OpCall, "make", l)
			f.set(x, o)
		}
	case *ssa.MakeChan:
		bail("channel in %s", f.fn)
	case *ssa.MakeInterface:
		v := f.val(x.X)
		in.boxed[v] = x.X.Type()
		if v.Op == OpObj || v.Op == OpAddr {
			f.set(x, v)
		} else {
			f.set(x, v)
		}
		if v.Op == OpStruct || v.Op == OpZero {
			if e.objType[v] == nil {
				e.objType[v] = x.X.Type()
			}
		}
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, f.val(b))
		}
		t := in.mk(OpClosure, f.id()+":"+fn.String(), bs...)
		e.funcs[t] = fn
		e.closure[t] = bs
		f.set(x, t)
	case *ssa.ChangeType:
		f.set(x, f.val(x.X))
	case *ssa.ChangeInterface:
		f.set(x, f.val(x.X))
	case *ssa.Convert:
		v := f.val(x.X)
		f.e.recordConv(f, x, v, st)
		f.set(x, v)
	case *ssa.MultiConvert:
		f.set(x, f.val(x.X))
	case *ssa.SliceToArrayPointer:
		f.set(x, f.val(x.X))
	case *ssa.TypeAssert:
		v := f.val(x.X)
		if x.CommaOk {
			is := in.mk(OpCall, "is:"+typeName(x.AssertedType), v)
			if t := f.dynType(x.X); t != nil && !types.IsInterface(x.AssertedType) {
				is = in.boolT(types.Identical(t, x.AssertedType))
			}
			f.tup[x] = []*Term{v, is}
		} else {
			f.set(x, v)
		}
	case *ssa.Extract:
		tv := f.tup[x.Tuple]
		if tv == nil {
			bail("no tuple for %s in %s", x.Name(), f.fn)
		}
		f.set(x, st.simp(tv[x.Index]))
	case *ssa.Slice:
		b := f.val(x.X)
		if a, ok := x.X.(*ssa.Alloc); ok && a.Comment == "makeslice" && b.Op == OpObj && x.Low == nil && x.High != nil {
			if h, ok := f.val(x.High).intVal(); ok && h > 0 {
				st.mem[b] = in.mk(OpCall, "make", f.val(x.High))
				f.set(x, b)
				break
			}
		}
		if b.Op == OpObj || b.Op == OpAddr {
			if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				if at, ok := pt.Elem().Underlying().(*types.Array); ok && x.Low == nil && x.High == nil {
					c := e.load(st, b)
					var el []*Term
					for i := int64(0); i < at.Len() && at.Len() < 4096; i++ {
						el = append(el, in.field(c, "["+strconv.FormatInt(i, 10)+"]"))
					}
					f.set(x, in.mk(OpList, "", el...))
					break
				}
			}
			b = e.load(st, b)
		}
		lo, hi := in.Zero, in.Nil
		if x.Low != nil {
			lo = st.simp(f.val(x.Low))
		}
		if x.High != nil {
			hi = st.simp(f.val(x.High))
		}
		if lo == in.Zero && hi == in.Nil {
			f.set(x, b)
			break
		}
		if b.Op == OpList {
			l, ok1 := lo.intVal()
			h, ok2 := int64(len(b.Args)), true
			if hi != in.Nil {
				h, ok2 = hi.intVal()
			}
			if ok1 && ok2 && l <= h && h <= int64(len(b.Args)) {
				f.set(x, in.mk(OpList, "", b.Args[l:h]...))
				break
			}
		}
		f.set(x, e.without(st, in.mk(OpCall, "slice", b, lo, hi)))
	case *ssa.Range:
		f.set(x, e.snap(st, f.val(x.X)))
	case *ssa.Next:
		m := f.val(x.Iter)
		id := ""
		var li *LoopInfo
		if n := len(e.loops); n > 0 {
			li = e.loops[n-1]
			id = strconv.Itoa(li.id)
		}
		k, v := in.mk(OpMapKey, id, m), in.mk(OpMapVal, id, m)
		if li != nil {
			li.elems[k], li.elems[v] = true, true
			e.elemLp[k], e.elemLp[v] = li, li
		}
		f.tup[x] = []*Term{in.mk(OpCall, "next", m, in.mk(OpLoop, "n"+id)), k, v}
	case *ssa.Call:
		res, nst := f.call(&x.Call, x, st)
		if nst == nil || nst.dead {
			return nil
		}
		if x.Call.Signature().Results().Len() == 1 {
			f.set(x, res[0])
		} else {
			f.tup[x] = res
		}
		return nst
	case *ssa.Defer:
		call := x.Call
		// arguments are evaluated now
		st.defers = append(st.defers, deferred{call: func(s *State) *State {
			_, ns := f.call(&call, nil, s)
			return ns
		}, key: in.mk(OpObj, fmt.Sprintf("defer:%s:%d", f.id(), x.Pos()))})
	case *ssa.RunDefers:
		for i := len(st.defers) - 1; i >= 0; i-- {
			d := st.defers[i]
			if !strings.HasPrefix(d.key.Name, "defer:"+f.id()+":") {
				continue
			}
			st.defers = append([]deferred{}, append(st.defers[:i:i], st.defers[i+1:]...)...)
			if d.guard == nil || st.holds(d.guard) {
				st = d.call(st)
			} else {
				with, without := st.clone(), st.clone()
				with.assume(d.guard)
				without.assume(in.not(d.guard))
				if !with.dead {
					with = d.call(with)
				}
				switch {
				case with == nil || with.dead:
					st = without
				case without.dead:
					st = with
				default:
					st = join2(in, joinItem{st: with}, joinItem{st: without}, d.guard).st
				}
			}
			if st == nil || st.dead {
				return nil
			}
		}
	default:
		bail("unsupported instruction %T in %s", ins, f.fn)
	}
	return st
}

func isEmbedKeeper(v *types.Var) bool {
	if !v.Embedded() {
		return false
	}
	n := namedOf(v.Type())
	return n != nil && isKeeperType(n)
}

func (e *Engine) fieldAddr(b *Term, v *types.Var) *Term {
	if isEmbedKeeper(v) {
		return b
	}
	return e.addr(b, v.Name())
}

func isErrType(t types.Type) bool {
	return types.Implements(t, errIface) && (types.IsInterface(t) || strings.HasSuffix(typeName(t), "errors.Error"))
}

var errIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

// elemAddr is the address of s[i]. Elements visited by an induction variable
// bounded by len(s) are the loop's element of s.
func (f *frame) elemAddr(st *State, b, i *Term, bt types.Type) *Term {
	e := f.e
	in := e.in
	isArr := false
	if pt, ok := bt.Underlying().(*types.Pointer); ok {
		_, isArr = pt.Elem().Underlying().(*types.Array)
	}
	if _, ok := i.intVal(); ok {
		if isArr || b.Op == OpObj {
			return e.addr(b, "["+i.Name+"]")
		}
		if b.Op == OpList {
			return in.field(b, "["+i.Name+"]")
		}
	}
	s := b
	if b.Op == OpObj || b.Op == OpAddr {
		s = e.load(st, b)
	}
	if li, ok := f.inducted(st, i, s); ok {
		el := in.mk(OpElem, strconv.Itoa(li.id), s)
		li.elems[el] = true
		e.elemLp[el] = li
		return el
	}
	// the element a finished search stopped at
	if lt := in.lt(i, in.length(s), false); e.counterLoop(lt) != nil {
		if li := e.counterLoop(lt); st.fset[li.exists] {
			for _, el := range sortedElems(li.elems) {
				if el.Op == OpElem && el.Args[0] == s {
					return el
				}
			}
		}
	}
	return in.mk(OpIdx, "", s, i)
}

func sortedElems(m map[*Term]bool) []*Term {
	var out []*Term
	for x := range m {
		out = append(out, x)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func (f *frame) inducted(st *State, i, s *Term) (*LoopInfo, bool) {
	in := f.e.in
	ln := in.length(s)
	for k := len(f.e.loops) - 1; k >= 0; k-- {
		li := f.e.loops[k]
		for sym, init := range li.ind {
			if i == sym && init == in.Zero || init == in.konst("-1") && i == in.bin("add", sym, in.One) {
				if st.holds(in.mk(OpLt, "", i, ln)) || st.holds(in.lt(i, ln, false)) || st.simp(in.lt(i, ln, false)) == in.True {
					return li, true
				}
			}
		}
	}
	return nil, false
}

func (e *Engine) lookup(m, k *Term) *Term {
	for m.Op == OpCall && m.Name == "mapset" && m.Args[1] == k {
		return m.Args[2]
	}
	return e.in.mk(OpCall, "lookup", m, k)
}

func (e *Engine) lookupOk(m, k *Term) *Term {
	if m.Op == OpCall && m.Name == "mapset" && m.Args[1] == k {
		return e.in.True
	}
	if m.Op == OpCall && m.Name == "emptymap" {
		return e.in.False
	}
	return e.in.mk(OpCall, "haskey", m, k)
}

// recordArith notes the additions, subtractions and multiplications of
// unsigned integers together with what is known when they are executed.
func (e *Engine) recordArith(f *frame, op token.Token, ins ssa.Instruction, a, b *Term, st *State) {
	v, ok := ins.(ssa.Value)
	if !e.arith || !ok || op != token.ADD && op != token.SUB && op != token.MUL && op != token.SHL {
		return
	}
	if t, ok := v.Type().Underlying().(*types.Basic); !ok || t.Info()&types.IsInteger == 0 {
		return
	}
	e.sites = append(e.sites, &Site{Call: e.in.mk(OpCall, "arith "+op.String(), a, b), Name: "arith " + op.String(), Args: []*Term{a, b}, Pos: ins.Pos(), Fn: f.fn, Chain: f.chain, St: st.factsOnly(), Loops: append([]*LoopInfo{}, e.loops...), Ins: ins})
}

// recordConv notes the conversions between integer types that cannot hold every
// value.
func (e *Engine) recordConv(f *frame, x *ssa.Convert, v *Term, st *State) {
	from, ok1 := x.X.Type().Underlying().(*types.Basic)
	to, ok2 := x.Type().Underlying().(*types.Basic)
	if !e.arith || !ok1 || !ok2 || from.Info()&types.IsInteger == 0 || to.Info()&types.IsInteger == 0 || intBits(to)-intBits(from) > 0 || from.Kind() == to.Kind() {
		return
	}
	e.sites = append(e.sites, &Site{Call: e.in.mk(OpCall, "arith conv", v), Name: "arith conv", Args: []*Term{v}, Pos: x.Pos(), Fn: f.fn, Chain: f.chain, St: st.factsOnly(), Loops: append([]*LoopInfo{}, e.loops...), Ins: x})
}

// intBits: the number of bits that hold non-negative values.
func intBits(t *types.Basic) int {
	n := map[types.BasicKind]int{types.Int8: 7, types.Int16: 15, types.Int32: 31, types.Int64: 63, types.Int: 63,
		types.Uint8: 8, types.Uint16: 16, types.Uint32: 32, types.Uint64: 64, types.Uint: 64, types.Uintptr: 64}[t.Kind()]
	return n
}

func arith(e *Engine) { e.arith = true }

func (f *frame) binop(x *ssa.BinOp, a, b *Term) *Term {
	in := f.e.in
	u := isUnsigned(x.X.Type())
	str := isString(x.X.Type())
	switch x.Op {
	case token.EQL:
		return in.eq(a, b)
	case token.NEQ:
		return in.not(in.eq(a, b))
	case token.LSS:
		return in.lt(a, b, u)
	case token.LEQ:
		return in.le(a, b, u)
	case token.GTR:
		return in.lt(b, a, u)
	case token.GEQ:
		return in.le(b, a, u)
	case token.ADD:
		if str {
			return in.mk(OpBin, "cat", a, b)
		}
		return in.bin("add", a, b)
	case token.SUB:
		return in.bin("sub", a, b)
	case token.MUL:
		return in.bin("mul", a, b)
	case token.QUO:
		return in.bin("quo", a, b)
	case token.REM:
		return in.bin("rem", a, b)
	case token.AND:
		return in.bin("band", a, b)
	case token.OR:
		return in.bin("bor", a, b)
	case token.XOR:
		return in.bin("bxor", a, b)
	case token.SHL:
		if v, ok := b.intVal(); ok && v < 30 {
			return in.bin("mul", a, in.konst(strconv.FormatInt(1<<v, 10)))
		}
		return in.bin("shl", a, b)
	case token.SHR:
		return in.bin("shr", a, b)
	case token.AND_NOT:
		return in.bin("andnot", a, b)
	}
	bail("unsupported operator %s", x.Op)
	return nil
}

// ---- calls

func (e *Engine) isAccessor(fn *ssa.Function) bool { return e.su.direct[fn] != 0 }

func (f *frame) call(c *ssa.CallCommon, ins *ssa.Call, st *State) ([]*Term, *State) {
	e := f.e
	var args []*Term
	var recv *Term
	if c.IsInvoke() {
		recv = f.val(c.Value)
	}
	for _, a := range c.Args {
		args = append(args, st.known(f.val(a)))
	}
	e.lastCall, e.lastFrame = c, f
	pos := c.Pos()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return f.builtin(b.Name(), c, args, st), st
	}
	fn, m := e.pr.resolve(c)
	if fn == nil && m == nil { // dynamic call of a function value
		v := f.val(c.Value)
		if g := e.funcs[v]; g != nil && g.Blocks != nil {
			return f.inline(g, args, e.closure[v], st, pos)
		}
		if v.Op == OpFunc || v.Op == OpClosure {
			if g := e.funcs[v]; g != nil {
				fn = g
				m, _ = g.Object().(*types.Func)
			}
		}
		if m == nil {
			return f.opaque("call:"+shortVal(v), c.Signature(), append([]*Term{v}, args...), st, pos, nil, c)
		}
	}
	if fn != nil && fn.Blocks != nil && inlinable(fnPkgPath(fn)) {
		full := args
		if c.IsInvoke() {
			full = append([]*Term{recv}, args...)
		}
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			v := f.val(mc)
			return f.inline(fn, full, e.closure[v], st, pos)
		}
		if r, ok := f.special(fn, m, full, st, c); ok {
			return r, st
		}
		if !e.mustKeep(f, fn) {
			return f.inline(fn, full, nil, st, pos)
		}
		nm := shortName(fn)
		e.kept[nm] = true
		return f.opaque(nm, c.Signature(), e.dropEnv(fn.Signature, full), st, pos, fn, c)
	}
	// outside the repository
	if m == nil {
		if fn != nil {
			return f.opaque(shortName(fn), c.Signature(), args, st, pos, nil, c)
		}
		bail("unresolved call in %s", f.fn)
	}
	if recv != nil {
		args = append([]*Term{recv}, args...)
	}
	if r, ok := f.external(m, args, st, c); ok {
		return r, st
	}
	return f.extOpaque(m, args, st, c)
}

func shortVal(t *Term) string {
	if t.Op == OpParam || t.Op == OpField {
		return t.String()
	}
	return "fn"
}

func (e *Engine) dropEnv(sig *types.Signature, args []*Term) []*Term {
	var out []*Term
	i := 0
	if r := sig.Recv(); r != nil {
		n := namedOf(r.Type())
		if n == nil || !isKeeperType(n) {
			out = append(out, args[0])
		}
		i = 1
	}
	ps := sig.Params()
	for j := 0; j < ps.Len() && i+j < len(args); j++ {
		t := ps.At(j).Type()
		if isCtx(t) {
			continue
		}
		if n := namedOf(t); n != nil && isKeeperType(n) && strings.HasSuffix(n.Obj().Name(), "Keeper") {
			continue
		}
		out = append(out, args[i+j])
	}
	return out
}

func isPB(pr *Program, fn *ssa.Function) bool {
	if !fn.Pos().IsValid() {
		return false
	}
	n := pr.Fset.Position(fn.Pos()).Filename
	return strings.HasSuffix(n, ".pb.go") || strings.HasSuffix(n, ".pb.gw.go")
}

func (e *Engine) mustKeep(f *frame, fn *ssa.Function) bool {
	nm := shortName(fn)
	if e.inlineSet[nm] {
		return false
	}
	if e.keep[nm] {
		return true
	}
	if isPB(e.pr, fn) {
		return true
	}
	if !e.storeMode && e.isAccessor(fn) {
		return true
	}
	if e.storeMode && e.isAccessor(fn) && fn != e.stack[0] && fn.Parent() == nil {
		return true
	}
	for _, g := range e.stack {
		if g == fn {
			return true
		}
	}
	if len(e.stack) > 40 {
		bail("call depth exceeded at %s", nm)
	}
	mod := moduleOf(fnPkgPath(fn))
	if mod == e.rootMod || e.inlineAll {
		return false
	}
	if mod == "util" && !e.su.effect[fn] {
		return false
	}
	if e.su.effect[fn] || e.su.loopy[fn] {
		return true
	}
	return false
}

// inline expands a call.
func (f *frame) inline(fn *ssa.Function, args, free []*Term, st *State, pos token.Pos) ([]*Term, *State) {
	e := f.e
	for _, g := range e.stack {
		if g == fn {
			return f.opaque(shortName(fn), fn.Signature, e.dropEnv(fn.Signature, args), st, fn.Pos(), fn, nil)
		}
	}
	e.visited[fn] = true
	g := e.newFrame(fn, args, free, f.chain)
	if c := e.lastCall; c != nil && e.lastFrame == f && c.StaticCallee() == fn && len(c.Args) == len(fn.Params) {
		for i, p := range fn.Params {
			if t := f.dynType(c.Args[i]); t != nil {
				if g.dyn == nil {
					g.dyn = map[*ssa.Parameter]types.Type{}
				}
				g.dyn[p] = t
			}
		}
	}
	g.path = f.path + ">" + strconv.Itoa(int(pos))
	e.stack = append(e.stack, fn)
	g.exec(st)
	e.stack = e.stack[:len(e.stack)-1]
	if len(g.rets) == 0 {
		return nil, nil
	}
	items := make([]joinItem, len(g.rets))
	for i, r := range g.rets {
		items[i] = r.item
	}
	m := joinAll(e.in, items, g.gate("ret"))
	return m.vals, m.st
}

func (f *frame) builtin(name string, c *ssa.CallCommon, args []*Term, st *State) []*Term {
	e := f.e
	in := e.in
	one := func(t *Term) []*Term { return []*Term{t} }
	switch name {
	case "len", "cap":
		a := args[0]
		if isString(c.Args[0].Type()) {
			return one(in.strlen(a))
		}
		if a.Op == OpObj {
			a = e.content(st, a)
		}
		a = st.simp(a)
		if n, ok := c.Args[0].Type().(*types.Named); ok && (n.Obj().Name() == "Coins" || n.Obj().Name() == "DecCoins") {
			in.countCoins(a)
		}
		return one(in.length(a))
	case "append":
		a := st.simp(args[0])
		b := in.mk(OpList, "")
		if len(args) > 1 {
			b = st.simp(args[1])
			if b.Op == OpObj {
				b = st.simp(e.content(st, b)) // the elements are copied
			}
		}
		return one(e.without(st, in.appendT(a, b)))
	case "delete":
		m := args[0]
		st.mem[m] = in.mk(OpCall, "mapdel", e.content(st, m), e.snap(st, args[1]))
		return nil
	case "min":
		return one(in.comm("min", args...))
	case "max":
		return one(in.comm("max", args...))
	case "copy":
		if args[0].Op == OpCall || args[0].Op == OpList || args[0].Op == OpObj {
			v := st.simp(args[1])
			if v.Op == OpObj {
				v = st.simp(e.content(st, v))
			}
			st.mem[args[0]] = v
		}
		return one(in.mk(OpCall, "copied", args...))
	case "ssa:wrapnilchk":
		return one(args[0])
	case "recover":
		return one(in.Nil)
	}
	var out []*Term
	for i := 0; i < c.Signature().Results().Len(); i++ {
		out = append(out, in.mk(OpCall, "builtin."+name, args...))
	}
	return out
}

// without recognises the removal of the element a search has found: the last
// element moved into its place, or the parts before and after it joined.
func (e *Engine) without(st *State, t *Term) *Term {
	in := e.in
	found := func(el *Term) *Term {
		for _, a := range st.facts {
			if a.Op == OpEq {
				for i := 0; i < 2; i++ {
					if x := a.Args[1-i]; a.Args[i] == el && !x.contains(func(y *Term) bool { return y == el }) {
						return in.mk(OpCall, "without", el.Args[0], x)
					}
				}
			}
		}
		return nil
	}
	// the position a finished search has stopped at
	stopped := func(l, i *Term) *Term {
		lt := in.lt(i, in.length(l), false)
		if li := e.counterLoop(lt); li != nil && st.fset[li.exists] && li.exists.Name == "contains" && li.exists.Args[0] == l {
			return in.mk(OpCall, "without", l, li.exists.Args[1])
		}
		return nil
	}
	isSlice := func(t *Term) bool { return t.Op == OpCall && t.Name == "slice" }
	switch {
	case isSlice(t) && t.Args[0].Op == OpCall && t.Args[0].Name == "setat":
		sa := t.Args[0]
		l, v := sa.Args[0], sa.Args[2]
		var el *Term
		for x := range e.elemLp {
			if x.Op == OpElem && x.Args[0] == l && e.position(x) == sa.Args[1] {
				el = x
			}
		}
		last := in.bin("sub", in.length(l), in.One)
		if el != nil && (t.Args[1] == in.Zero || t.Args[1] == in.Nil) && t.Args[2] == last && v == in.mk(OpIdx, "", l, last) {
			if w := found(el); w != nil {
				return w
			}
		}
		if (t.Args[1] == in.Zero || t.Args[1] == in.Nil) && t.Args[2] == last && v == in.mk(OpIdx, "", l, last) {
			if w := stopped(l, sa.Args[1]); w != nil {
				return w
			}
		}
	case t.Op == OpCall && t.Name == "append" && isSlice(t.Args[0]) && isSlice(t.Args[1]):
		a, b := t.Args[0], t.Args[1]
		l, i := a.Args[0], a.Args[2]
		if l == b.Args[0] && (a.Args[1] == in.Zero || a.Args[1] == in.Nil) && b.Args[1] == in.bin("add", i, in.One) && (b.Args[2] == in.Nil || b.Args[2] == in.length(l)) {
			var els []*Term
			for el, li := range e.elemLp {
				if el.Args[0] == l && el.Op == OpElem {
					for s := range li.ind {
						if i == s || i == in.bin("add", s, in.One) {
							els = append(els, el)
						}
					}
				}
			}
			if len(els) == 1 {
				if w := found(els[0]); w != nil {
					return w
				}
			}
			if w := stopped(l, i); w != nil {
				return w
			}
		}
	}
	return t
}

func (in *Interner) strlen(a *Term) *Term {
	if a.isConst() {
		if s, err := strconv.Unquote(a.Name); err == nil {
			return in.konst(strconv.Itoa(len(s)))
		}
	}
	return in.mk(OpCall, "strlen", a)
}

// countCoins: that coins have no entry is told as that they are zero.
func (in *Interner) countCoins(a *Term) {
	if a.Op == OpIte {
		in.countCoins(a.Args[1])
		in.countCoins(a.Args[2])
		return
	}
	if in.coinSet == nil {
		in.coinSet = map[*Term]bool{}
	}
	in.coinSet[a] = true
}

func (in *Interner) length(a *Term) *Term {
	switch {
	case a.Op == OpList:
		return in.konst(strconv.Itoa(len(a.Args)))
	case a == in.Nil:
		return in.Zero
	case a.Op == OpCall && a.Name == "make":
		return a.Args[0]
	case a.Op == OpCall && a.Name == "setat":
		return in.length(a.Args[0])
	case a.Op == OpIte:
		return in.ite(a.Args[0], in.length(a.Args[1]), in.length(a.Args[2]))
	}
	return in.mk(OpCall, "len", a)
}

func (in *Interner) appendT(a, b *Term) *Term {
	if a == in.Nil {
		a = in.mk(OpList, "")
	}
	if b == in.Nil {
		b = in.mk(OpList, "")
	}
	if a.Op == OpList && b.Op == OpList {
		return in.mk(OpList, "", append(append([]*Term{}, a.Args...), b.Args...)...)
	}
	if b.Op == OpList && len(b.Args) == 0 {
		return a
	}
	if a.Op == OpList && len(a.Args) == 0 {
		return b
	}
	if a.Op == OpCall && a.Name == "append" && a.Args[1].Op == OpList && b.Op == OpList {
		return in.mk(OpCall, "append", a.Args[0], in.appendT(a.Args[1], b))
	}
	return in.mk(OpCall, "append", a, b)
}

// opaque turns a call into an event.
func (f *frame) opaque(name string, sig *types.Signature, args []*Term, st *State, pos token.Pos, fn *ssa.Function, c *ssa.CallCommon) ([]*Term, *State) {
	e := f.e
	eff := fn != nil && e.su.effect[fn]
	var reads, writes map[string]bool
	if fn != nil {
		reads, writes = e.su.reads[fn], e.su.writes[fn]
	}
	rs, ns := f.event(name, sig, args, st, pos, eff, reads, writes, c)
	if fn != nil && ns != nil && len(e.su.mods[fn]) > 0 {
		t := e.sites[len(e.sites)-1].Call
		k := len(args) - 1
		for i := len(fn.Params) - 1; i >= 0 && k >= 0; i-- {
			if !e.passed(fn, i) {
				continue
			}
			if e.su.mods[fn][i] {
				a := args[k]
				if a.Op == OpObj || a.Op == OpAddr || a.Op == OpIte || a.Op == OpParam {
					e.store(ns, a, resArg(e, k, t))
				}
			}
			k--
		}
	}
	return rs, ns
}

func resArg(e *Engine, k int, t *Term) *Term { return e.in.mk(OpRes, "arg"+strconv.Itoa(k), t) }

// passed: parameter i of fn is an argument of the event (contexts and keepers
// are dropped).
func (e *Engine) passed(fn *ssa.Function, i int) bool {
	t := fn.Params[i].Type()
	if i == 0 && fn.Signature.Recv() != nil {
		n := namedOf(t)
		return n == nil || !isKeeperType(n)
	}
	if isCtx(t) {
		return false
	}
	if n := namedOf(t); n != nil && isKeeperType(n) && strings.HasSuffix(n.Obj().Name(), "Keeper") {
		return false
	}
	return true
}

func (e *Engine) version(st *State, keys ...map[string]bool) *Term {
	var vs []*Term
	all := map[string]bool{}
	for _, m := range keys {
		for k := range m {
			all[k] = true
		}
	}
	for _, k := range sortedKeys(all) {
		vk := e.in.mk(OpGlobal, "ver:"+k)
		if v, ok := st.mem[vk]; ok && v != vk {
			vs = append(vs, v)
		}
	}
	if len(vs) == 0 {
		return nil
	}
	return e.in.mk(OpVer, "", vs...)
}

// noteVersions keeps, for a call, the last write to each store it touches.
func (e *Engine) noteVersions(st *State, t *Term, keys ...map[string]bool) {
	if e.vers == nil {
		e.vers = map[*Term]map[string]*Term{}
	}
	m := map[string]*Term{}
	for _, ks := range keys {
		for k := range ks {
			vk := e.in.mk(OpGlobal, "ver:"+k)
			m[k] = vk
			if v, ok := st.mem[vk]; ok {
				m[k] = v
			}
		}
	}
	e.vers[t] = m
}

func (f *frame) event(name string, sig *types.Signature, args []*Term, st *State, pos token.Pos, eff bool, reads, writes map[string]bool, c *ssa.CallCommon) ([]*Term, *State) {
	e := f.e
	in := e.in
	sn := make([]*Term, len(args))
	var closures []*Term
	for i, a := range args {
		sn[i] = e.snap(st, a)
		if a.Op == OpClosure {
			closures = append(closures, a)
		}
	}
	for _, cl := range closures {
		st = f.runClosure(cl, name, sn, st)
	}
	ta := append([]*Term{}, sn...)
	if v := e.version(st, reads, writes); v != nil {
		ta = append(ta, v)
	}
	t := in.mk(OpCall, name, ta...)
	e.sites = append(e.sites, &Site{Call: t, Name: name, Args: sn, Pos: pos, Fn: f.fn, Chain: f.chain, St: st.factsOnly(), Loops: append([]*LoopInfo{}, e.loops...), Eff: eff})
	e.noteVersions(st, t, reads, writes)
	if eff {
		st.addFact(in.mk(OpDid, "", t))
	}
	for k := range writes {
		vk := in.mk(OpGlobal, "ver:"+k)
		st.mem[vk] = t
	}
	return e.results(name, t, sig), st
}

func (e *Engine) results(name string, t *Term, sig *types.Signature) []*Term {
	in := e.in
	rs := sig.Results()
	var out []*Term
	for i := 0; i < rs.Len(); i++ {
		rt := rs.At(i).Type()
		switch {
		case isErrType(rt) && types.IsInterface(rt):
			out = append(out, in.mk(OpRes, "err", t))
		case rs.Len() == 1:
			out = append(out, t)
		case i == rs.Len()-1 && isBoolType(rt):
			out = append(out, in.mk(OpRes, "ok", t))
		case i == 0 && rs.Len() == 2:
			out = append(out, in.mk(OpRes, "val", t))
		default:
			out = append(out, in.mk(OpRes, "r"+strconv.Itoa(i), t))
		}
	}
	return out
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// runClosure runs a callback handed to an opaque function as the body of a loop.
func (f *frame) runClosure(cl *Term, name string, sn []*Term, st *State) *State {
	e := f.e
	in := e.in
	g := e.funcs[cl]
	if g == nil || g.Blocks == nil {
		return st
	}
	for _, s := range e.stack {
		if s == g {
			return st
		}
	}
	id := len(e.loopIDs) + 1
	key := f.id() + "cb" + cl.Name
	if v, ok := e.loopIDs[key]; ok {
		id = v
	} else {
		e.nloop++
		id = e.nloop
		e.loopIDs[key] = id
	}
	li := &LoopInfo{id: id, elems: map[*Term]bool{}, ind: map[*Term]*Term{}, pos: g.Pos()}
	e.loops = append(e.loops, li)
	var src []*Term
	for _, a := range sn {
		if a.Op != OpClosure && a.Op != OpFunc {
			src = append(src, a)
		}
	}
	base := in.mk(OpCall, name, src...)
	var args []*Term
	for i := range g.Params {
		if isCtx(g.Params[i].Type()) {
			args = append(args, in.mk(OpParam, "ctx"))
			continue
		}
		a := in.mk(OpElem, fmt.Sprintf("%d.%d", id, i), base)
		li.elems[a] = true
		e.elemLp[a] = li
		args = append(args, a)
	}
	hav := map[*Term]*Term{}
	nsites := len(e.sites)
	var out *State
	for pass := 0; pass < 6; pass++ {
		e.sites = e.sites[:nsites]
		ws := st.clone()
		for k, v := range hav {
			ws.mem[k] = v
		}
		base := map[*Term]*Term{}
		for k, v := range ws.mem {
			base[k] = v
		}
		_, ns := f.inline(g, args, e.closure[cl], ws, token.NoPos)
		if ns == nil || ns.dead {
			out = nil
			break
		}
		out = ns
		ch := false
		ls := f.lister(ns, base)
		for k, v := range ns.mem {
			if _, had := base[k]; had || k.Op != OpObj {
				ns.mem[k] = ls(v)
			}
		}
		for k, v := range ns.mem {
			old, had := base[k]
			if !had {
				if k.Op == OpObj {
					continue
				}
				old = k
			}
			if old != v {
				nv := e.havoc(old, v, fmt.Sprintf("L%d.m%d", id, k.id))
				if hav[k] != nv {
					hav[k] = nv
					ch = true
				}
			}
		}
		if !ch {
			break
		}
	}
	e.loops = e.loops[:len(e.loops)-1]
	res := st.clone()
	for k, v := range hav {
		ini, ok := st.mem[k]
		if !ok {
			ini = k
		}
		if out != nil {
			e.foldMem(v, ini, out.mem[k], li)
		}
		res.mem[k] = v
	}
	if out != nil {
		for _, a := range out.facts {
			if !res.fset[a] && a.contains(func(y *Term) bool { return li.elems[y] }) {
				res.addFactRaw(a)
			}
		}
		for _, c := range out.cond {
			ab := c.a.contains(func(y *Term) bool { return li.elems[y] })
			for _, g := range c.g {
				ab = ab || g.contains(func(y *Term) bool { return li.elems[y] })
			}
			if ab {
				res.addCondRaw(c)
			}
		}
	}
	return res
}

// special: repository functions with a fixed meaning.
func (f *frame) special(fn *ssa.Function, m *types.Func, args []*Term, st *State, c *ssa.CallCommon) ([]*Term, bool) {
	e := f.e
	in := e.in
	nm := shortName(fn)
	switch nm {
	case "util.GetByteKey":
		return []*Term{in.mk(OpCall, "key", e.listArgs(e.snap(st, args[0]))...)}, true
	}
	if isPB(e.pr, fn) && strings.HasPrefix(fn.Name(), "Get") && len(args) == 1 && fn.Signature.Results().Len() == 1 {
		v := e.load(st, args[0])
		return []*Term{st.simp(in.field(v, strings.TrimPrefix(fn.Name(), "Get")))}, true
	}
	return nil, false
}

func (e *Engine) listArgs(t *Term) []*Term {
	if t.Op == OpList {
		return t.Args
	}
	return []*Term{t}
}

var sortStrings = sort.Strings

func lastPos(b *ssa.BasicBlock) token.Pos {
	for i := len(b.Instrs) - 1; i >= 0; i-- {
		if p := b.Instrs[i].Pos(); p.IsValid() {
			return p
		}
	}
	return token.NoPos
}
