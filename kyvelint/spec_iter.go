package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C37: life cycle of store iterators

func isIterator(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		if a, isA := t.(*types.Alias); isA {
			return isIterator(types.Unalias(a))
		}
		return false
	}
	it, ok := n.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	has := map[string]bool{}
	for i := 0; i < it.NumMethods(); i++ {
		has[it.Method(i).Name()] = true
	}
	return has["Valid"] && has["Next"] && has["Close"] && has["Key"]
}

// aliases: the values that denote v in its function: itself, cells it is kept
// in, what is loaded from them, and interface conversions.
func aliases(v ssa.Value) map[ssa.Value]bool {
	out := map[ssa.Value]bool{v: true}
	work := []ssa.Value{v}
	add := func(x ssa.Value) {
		if !out[x] {
			out[x] = true
			work = append(work, x)
		}
	}
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		if x.Referrers() == nil {
			continue
		}
		_, cell := x.(*ssa.Alloc)
		if fv, ok := x.(*ssa.FreeVar); ok {
			_, cell = fv.Type().(*types.Pointer)
		}
		for _, u := range *x.Referrers() {
			switch y := u.(type) {
			case *ssa.Store:
				if y.Val == x {
					if al, ok := y.Addr.(*ssa.Alloc); ok {
						add(al)
					}
				}
			case *ssa.UnOp:
				if cell && y.X == x {
					add(y)
				}
			case *ssa.MakeInterface:
				add(y)
			case *ssa.ChangeInterface:
				add(y)
			case *ssa.ChangeType:
				add(y)
			case *ssa.TypeAssert:
				add(y)
			case *ssa.Phi:
				add(y)
			}
		}
	}
	return out
}

// closes: does executing the instruction close the iterator, now or when the
// function returns?
func (c *Ctx) closes(ins ssa.Instruction, al map[ssa.Value]bool, depth int) bool {
	ci, ok := ins.(ssa.CallInstruction)
	if !ok {
		return false
	}
	cc := ci.Common()
	if cc.IsInvoke() {
		return cc.Method.Name() == "Close" && al[cc.Value]
	}
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		fn := mc.Fn.(*ssa.Function)
		for i, b := range mc.Bindings {
			if al[b] && c.closesParam(fn, fn.FreeVars[i], depth+1) {
				return true
			}
		}
	}
	if fn, _ := c.pr.resolve(cc); fn != nil && len(fn.Blocks) > 0 {
		for i, a := range cc.Args {
			if al[a] && i < len(fn.Params) && c.closesParam(fn, fn.Params[i], depth+1) {
				return true
			}
		}
	}
	return false
}

// closesParam: is the iterator closed on every path through fn?
func (c *Ctx) closesParam(fn *ssa.Function, p ssa.Value, depth int) bool {
	if depth > 4 || len(fn.Blocks) == 0 {
		return false
	}
	bad, _ := c.leak(fn, aliases(p), fn.Blocks[0], 0, nil, depth)
	return bad == nil
}

// leak: an instruction at which the iterator goes out of reach without having
// been closed, searching forward from the given point; nil if there is none.
func (c *Ctx) leak(fn *ssa.Function, al map[ssa.Value]bool, b0 *ssa.BasicBlock, i0 int, birth ssa.Instruction, depth int) (ssa.Instruction, string) {
	type pt struct {
		b *ssa.BasicBlock
		i int
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := []pt{{b0, i0}}
	first := true
	for len(work) > 0 {
		p := work[len(work)-1]
		work = work[:len(work)-1]
		if !first {
			if seen[p.b] {
				continue
			}
			seen[p.b] = true
		}
		first = false
		done := false
		for i := p.i; i < len(p.b.Instrs) && !done; i++ {
			ins := p.b.Instrs[i]
			if birth != nil && ins == birth {
				return ins, "is opened again before it was closed"
			}
			if c.closes(ins, al, depth) {
				done = true
				break
			}
			switch x := ins.(type) {
			case *ssa.Return:
				for _, r := range x.Results {
					if al[r] {
						done = true // handed to the caller, whose call is an obligation of its own
					}
				}
				if !done {
					return x, "is not closed when the function returns"
				}
			case *ssa.Panic:
				done = true
			case *ssa.Store:
				if al[x.Val] && !al[x.Addr] {
					return x, "is stored where its closing cannot be followed"
				}
			}
		}
		if done {
			continue
		}
		succs := p.b.Succs
		if len(p.b.Instrs) > 0 {
			if iff, ok := p.b.Instrs[len(p.b.Instrs)-1].(*ssa.If); ok {
				// the error branch of the opening call: there is no iterator
				if bo, ok := iff.Cond.(*ssa.BinOp); ok && birth != nil {
					if ex, ok := bo.X.(*ssa.Extract); ok && ssa.Instruction(ex.Tuple.(ssa.Instruction)) == birth && isNilConst(bo.Y) && types.TypeString(ex.Type(), nil) == "error" {
						if bo.Op.String() == "!=" {
							succs = p.b.Succs[1:]
						} else if bo.Op.String() == "==" {
							succs = p.b.Succs[:1]
						}
					}
				}
			}
		}
		for _, s := range succs {
			work = append(work, pt{s, 0})
		}
	}
	return nil, ""
}

func isNilConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value == nil
}

// storePrefix: the package-level names from which the key prefix of a store
// value is built; "?" if it is not a prefix store.
func storePrefix(v ssa.Value) []string {
	names := map[string]bool{}
	seen := map[ssa.Value]bool{}
	var val func(v ssa.Value, inKey bool)
	val = func(v ssa.Value, inKey bool) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Call:
			n := calleeName(&x.Call)
			if strings.HasSuffix(n, "prefix.NewStore") && len(x.Call.Args) == 2 {
				val(x.Call.Args[1], true)
				if !inKey {
					val(x.Call.Args[0], false)
				}
				return
			}
			if inKey || strings.Contains(n, "KVStore") || strings.Contains(n, "Open") {
				for _, a := range x.Call.Args {
					val(a, inKey)
				}
			}
		case *ssa.Global:
			if inKey {
				names[x.Name()] = true
			}
		case *ssa.UnOp:
			val(x.X, inKey)
		case *ssa.MakeInterface:
			val(x.X, inKey)
		case *ssa.ChangeInterface:
			val(x.X, inKey)
		case *ssa.ChangeType:
			val(x.X, inKey)
		case *ssa.Convert:
			val(x.X, inKey)
		case *ssa.Slice:
			val(x.X, inKey)
		case *ssa.Alloc:
			for _, u := range *x.Referrers() {
				if s, ok := u.(*ssa.Store); ok && s.Addr == x {
					val(s.Val, inKey)
				}
			}
		case *ssa.Phi:
			for _, e := range x.Edges {
				val(e, inKey)
			}
		}
	}
	val(v, false)
	return sortedKeys(names)
}

func overlap(a []string, b map[string]bool) string {
	for _, x := range a {
		for y := range b {
			if y[strings.LastIndexByte(y, '.')+1:] == x {
				return x
			}
		}
	}
	return ""
}

func init() {
	regT("C37", "typestate analysis of iterators over the control flow graph, with a store-effect analysis of the iteration window", "Every call in the repository's hand-written code that yields a store iterator is an obligation: on every path from it to a return, panic aside, the iterator is closed, its closing is deferred, or it is handed to the caller (whose call is then an obligation) or to a function that closes it on all paths. While it can still be advanced, neither the function itself nor anything it calls writes keys under the iterated prefix, other than overwriting the current key.",
		func(c *Ctx) {
			sites := 0
			type site struct {
				f  *ssa.Function
				v  ssa.Value
				ci *ssa.Call
			}
			var all []site
			c.sec("closed on every path", func() {
				for _, f := range c.pr.Funcs {
					if isPB(c.pr, f) || f.Synthetic != "" || len(f.Blocks) == 0 || !isRepoPath(fnPkgPath(f)) {
						continue
					}
					if strings.Contains(fnPkgPath(f), "/testutil") {
						continue
					}
					for _, b := range f.Blocks {
						for i, ins := range b.Instrs {
							call, ok := ins.(*ssa.Call)
							if !ok {
								continue
							}
							var v ssa.Value
							start := i + 1
							if isIterator(call.Type()) {
								v = call
							} else if tp, ok := call.Type().(*types.Tuple); ok {
								for k := 0; k < tp.Len(); k++ {
									if isIterator(tp.At(k).Type()) {
										for _, u := range *call.Referrers() {
											if e, ok := u.(*ssa.Extract); ok && e.Index == k {
												v = e
											}
										}
										if v == nil {
											c.check(false, shortName(f)+" discards an iterator", call.Pos(), "%s opens an iterator and drops it unclosed", shortName(f))
										}
									}
								}
							}
							if v == nil {
								continue
							}
							sites++
							c.funcs[f] = true
							all = append(all, site{f, v, call})
							al := aliases(v)
							bad, why := c.leak(f, al, b, start, call, 0)
							p := call.Pos()
							if bad != nil && bad.Pos() != 0 {
								p = bad.Pos()
							}
							c.check(bad == nil, shortName(f)+" iterator", p, "%s: the iterator opened at %s %s", shortName(f), c.pr.pos(call.Pos()), why)
						}
					}
				}
			})
			c.sec("no writes under the iterated prefix", func() {
				for _, s := range all {
					c.check(true, "iterator", 0, "")
					al := aliases(s.v)
					// the prefix iterated over: of the store the iterator is opened on
					var st ssa.Value
					if s.ci.Call.IsInvoke() {
						st = s.ci.Call.Value
					} else if len(s.ci.Call.Args) > 0 {
						st = s.ci.Call.Args[0]
					}
					pre := storePrefix(st)
					// blocks from which the iterator can still be advanced
					adv := map[*ssa.BasicBlock]bool{}
					lastUse := map[*ssa.BasicBlock]int{}
					for x := range al {
						if x.Referrers() == nil {
							continue
						}
						for _, u := range *x.Referrers() {
							if ci, ok := u.(ssa.CallInstruction); ok && ci.Common().IsInvoke() && al[ci.Common().Value] && ci.Common().Method.Name() == "Next" {
								for i, q := range ci.Block().Instrs {
									if q == ssa.Instruction(ci) && i > lastUse[ci.Block()] {
										lastUse[ci.Block()] = i
									}
								}
								adv[ci.Block()] = true
							}
						}
					}
					can := map[*ssa.BasicBlock]bool{}
					var up func(b *ssa.BasicBlock)
					up = func(b *ssa.BasicBlock) {
						for _, p := range b.Preds {
							if !can[p] {
								can[p] = true
								up(p)
							}
						}
					}
					for b := range adv {
						up(b)
					}
					// reachable from the opening
					reach := map[*ssa.BasicBlock]bool{}
					var down func(b *ssa.BasicBlock)
					down = func(b *ssa.BasicBlock) {
						for _, q := range b.Succs {
							if !reach[q] {
								reach[q] = true
								down(q)
							}
						}
					}
					down(s.ci.Block())
					blocks := []*ssa.BasicBlock{}
					for _, b := range s.f.Blocks {
						if b == s.ci.Block() || reach[b] {
							if can[b] || adv[b] {
								blocks = append(blocks, b)
							}
						}
					}
					sort.Slice(blocks, func(i, j int) bool { return blocks[i].Index < blocks[j].Index })
					for _, b := range blocks {
						past := b != s.ci.Block() || reach[b]
						for i, ins := range b.Instrs {
							if ins == ssa.Instruction(s.ci) {
								past = true
								continue
							}
							if !past || !can[b] && i > lastUse[b] {
								continue
							}
							ci, ok := ins.(ssa.CallInstruction)
							if !ok {
								continue
							}
							cc := ci.Common()
							if cc.IsInvoke() && isStoreIface(cc.Value.Type()) || !cc.IsInvoke() && strings.Contains(calleeName(cc), "prefix.Store.") {
								name := ""
								recv := cc.Value
								args := cc.Args
								if cc.IsInvoke() {
									name = cc.Method.Name()
								} else {
									name = cc.StaticCallee().Name()
									recv, args = cc.Args[0], cc.Args[1:]
								}
								if storeOp(name)&dWrite == 0 {
									continue
								}
								if name == "Set" && len(args) > 0 {
									if k, ok := args[0].(*ssa.Call); ok && k.Call.IsInvoke() && k.Call.Method.Name() == "Key" && al[k.Call.Value] {
										continue
									}
								}
								w := map[string]bool{}
								for _, x := range storePrefix(recv) {
									w[x] = true
								}
								same := rootOf(recv) == rootOf(st) || recv == st
								if h := overlap(pre, w); h != "" || same || len(pre) == 0 {
									c.check(false, shortName(s.f)+" writes while iterating", ins.Pos(), "%s writes %s in the store it is still iterating over (opened at %s)", shortName(s.f), h, c.pr.pos(s.ci.Pos()))
								}
								continue
							}
							var callees []*ssa.Function
							if fn, _ := c.pr.resolve(cc); fn != nil {
								callees = append(callees, fn)
							} else if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
								callees = append(callees, mc.Fn.(*ssa.Function))
							} else if p, ok := cc.Value.(*ssa.Parameter); ok {
								callees = append(callees, c.passedFor(s.f, p)...)
							}
							for _, a := range cc.Args {
								if mc, ok := a.(*ssa.MakeClosure); ok {
									callees = append(callees, mc.Fn.(*ssa.Function))
								}
							}
							for _, fn := range callees {
								if h := overlap(pre, c.su.writes[fn]); h != "" {
									c.check(false, shortName(s.f)+" changes what it iterates", ins.Pos(), "%s calls %s, which writes %s, while iterating over it (opened at %s)", shortName(s.f), shortName(fn), h, c.pr.pos(s.ci.Pos()))
								}
							}
						}
					}
				}
			})
			c.extra["iterators"] = sites
		})
}

// passedFor: the functions passed for a function-typed parameter.
func (c *Ctx) passedFor(f *ssa.Function, p *ssa.Parameter) []*ssa.Function {
	idx := -1
	for i, q := range f.Params {
		if q == p {
			idx = i
		}
	}
	var out []*ssa.Function
	for _, g := range c.su.callers[f] {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if fn, _ := c.pr.resolve(ci.Common()); fn != f {
					continue
				}
				args := ci.Common().Args
				if ci.Common().IsInvoke() {
					args = append([]ssa.Value{ci.Common().Value}, args...)
				}
				if idx < 0 || idx >= len(args) {
					continue
				}
				switch x := args[idx].(type) {
				case *ssa.MakeClosure:
					out = append(out, x.Fn.(*ssa.Function))
				case *ssa.Function:
					out = append(out, x)
				}
			}
		}
	}
	return out
}
