package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C38: error discipline

func isErrorType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "error" && n.Obj().Pkg() == nil
}

// errOf: the error result of a call, and whether the call has one.
func errOf(call *ssa.Call) (ssa.Value, bool) {
	if isErrorType(call.Type()) {
		return call, true
	}
	tp, ok := call.Type().(*types.Tuple)
	if !ok || tp.Len() == 0 || !isErrorType(tp.At(tp.Len()-1).Type()) {
		return nil, false
	}
	for _, u := range *call.Referrers() {
		if e, ok := u.(*ssa.Extract); ok && e.Index == tp.Len()-1 {
			return e, true
		}
	}
	return nil, true
}

func hasUse(v ssa.Value) bool {
	if v == nil || v.Referrers() == nil {
		return false
	}
	for _, u := range *v.Referrers() {
		if _, d := u.(*ssa.DebugRef); !d {
			return true
		}
	}
	return false
}

// effectCall: does the call change state or move tokens when it succeeds?
func (c *Ctx) effectCall(cc *ssa.CallCommon) bool {
	fn, m := c.pr.resolve(cc)
	if fn != nil && len(fn.Blocks) > 0 {
		return c.su.effect[fn]
	}
	if m == nil {
		return false
	}
	var rt types.Type
	if cc.IsInvoke() {
		rt = cc.Value.Type()
	} else if sg := m.Type().(*types.Signature); sg.Recv() != nil {
		rt = sg.Recv().Type()
	}
	if rt == nil {
		return false
	}
	if isStoreIface(rt) {
		return storeOp(m.Name())&dWrite != 0
	}
	if n := namedOf(rt); n != nil {
		return keeperModule(n) != "" && !readOnlyName(m.Name())
	}
	return false
}

// nonNilErr: an error value that cannot be nil.
func nonNilErr(v ssa.Value, err map[ssa.Value]bool, env map[ssa.Value]ssa.Value, d int) bool {
	if v == nil || d > 6 {
		return false
	}
	if err[v] {
		return true
	}
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value != nil
	case *ssa.MakeInterface:
		return true
	case *ssa.ChangeInterface:
		return nonNilErr(x.X, err, env, d+1)
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok {
			return g.Pkg != nil // a registered error
		}
		return nonNilErr(env[x.X], err, env, d+1)
	case *ssa.Call:
		n := calleeName(&x.Call)
		if strings.HasSuffix(n, "errors.Wrap") || strings.HasSuffix(n, "errors.Wrapf") || strings.HasSuffix(n, "errors.WithType") || strings.HasSuffix(n, "Error.Wrap") || strings.HasSuffix(n, "Error.Wrapf") {
			return nonNilErr(x.Call.Args[0], err, env, d+1)
		}
		return n == "fmt.Errorf" || n == "errors.New" || strings.HasSuffix(n, "status.Error") || strings.HasSuffix(n, "status.Errorf") || strings.HasSuffix(n, "errors.Register")
	case *ssa.Phi:
		if p, ok := env[x]; ok {
			return nonNilErr(p, err, env, d+1)
		}
		for _, e := range x.Edges {
			if !nonNilErr(e, err, env, d+1) {
				return false
			}
		}
		return true
	case *ssa.Extract:
		return false
	}
	return false
}

// swallowed: starting after a call whose error is not nil, a return at which
// the failure is lost.
func (c *Ctx) swallowed(f *ssa.Function, call *ssa.Call, e ssa.Value) (ssa.Instruction, string) {
	type pt struct {
		b    *ssa.BasicBlock
		i    int
		from *ssa.BasicBlock
		env  map[ssa.Value]ssa.Value
		err  map[ssa.Value]bool
	}
	i0 := 0
	for i, ins := range call.Block().Instrs {
		if ins == ssa.Instruction(call) {
			i0 = i + 1
		}
	}
	seen := map[[2]*ssa.BasicBlock]bool{}
	work := []pt{{call.Block(), i0, nil, map[ssa.Value]ssa.Value{}, map[ssa.Value]bool{e: true}}}
	retErr := false
	if r := f.Signature.Results(); r.Len() > 0 && isErrorType(r.At(r.Len()-1).Type()) {
		retErr = true
	}
	for len(work) > 0 {
		p := work[len(work)-1]
		work = work[:len(work)-1]
		if p.from != nil {
			k := [2]*ssa.BasicBlock{p.from, p.b}
			if seen[k] {
				continue
			}
			seen[k] = true
		}
		env, errs := p.env, p.err
		stop := false
		for i := p.i; i < len(p.b.Instrs) && !stop; i++ {
			switch x := p.b.Instrs[i].(type) {
			case *ssa.Phi:
				for k, q := range p.b.Preds {
					if q == p.from {
						env = copyEnv(env)
						env[x] = x.Edges[k]
						if errs[x.Edges[k]] {
							errs = copyErr(errs)
							errs[x] = true
						}
					}
				}
			case *ssa.Store:
				if isErrorType(x.Val.Type()) {
					env = copyEnv(env)
					env[x.Addr] = x.Val
				}
			case *ssa.UnOp:
				if v := env[x.X]; v != nil && errs[v] {
					errs = copyErr(errs)
					errs[x] = true
				}
			case *ssa.MakeInterface:
				if errs[x.X] {
					errs = copyErr(errs)
					errs[x] = true
				}
			case *ssa.Call:
				n := calleeName(&x.Call)
				if strings.HasSuffix(n, "util.PanicHalt") {
					stop = true // reported by the emergency path
				}
				if x == call && p.from != nil {
					stop = false
					return x, "is tried again without looking at the failure"
				}
			case *ssa.Panic:
				stop = true
			case *ssa.Return:
				stop = true
				if !retErr {
					return x, "fails and the function returns as if it had succeeded"
				}
				v := x.Results[len(x.Results)-1]
				if !nonNilErr(v, errs, env, 0) {
					return x, "fails and the function can still return success"
				}
			}
		}
		if stop {
			continue
		}
		succs := p.b.Succs
		if iff, ok := p.b.Instrs[len(p.b.Instrs)-1].(*ssa.If); ok {
			if bo, ok := iff.Cond.(*ssa.BinOp); ok && (isNilConst(bo.Y) && errs[bo.X] || isNilConst(bo.X) && errs[bo.Y]) {
				if bo.Op.String() == "!=" {
					succs = p.b.Succs[:1]
				} else if bo.Op.String() == "==" {
					succs = p.b.Succs[1:]
				}
			}
		}
		for _, s := range succs {
			work = append(work, pt{s, 0, p.b, env, errs})
		}
	}
	return nil, ""
}

func copyEnv(m map[ssa.Value]ssa.Value) map[ssa.Value]ssa.Value {
	n := map[ssa.Value]ssa.Value{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

func copyErr(m map[ssa.Value]bool) map[ssa.Value]bool {
	n := map[ssa.Value]bool{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

// afterFailure: an effect performed after the failed call in the same round of
// the innermost enclosing loops, or before the function returns.
func (c *Ctx) afterFailure(f *ssa.Function, call *ssa.Call, e ssa.Value) ssa.Instruction {
	i0 := 0
	for i, ins := range call.Block().Instrs {
		if ins == ssa.Instruction(call) {
			i0 = i + 1
		}
	}
	type pt struct {
		b *ssa.BasicBlock
		i int
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := []pt{{call.Block(), i0}}
	for len(work) > 0 {
		p := work[len(work)-1]
		work = work[:len(work)-1]
		if p.i == 0 {
			// the head of a loop around the call: the next round is another matter
			if seen[p.b] || p.b != call.Block() && p.b.Dominates(call.Block()) || p.b == call.Block() {
				continue
			}
			seen[p.b] = true
		}
		for i := p.i; i < len(p.b.Instrs); i++ {
			ci, ok := p.b.Instrs[i].(*ssa.Call)
			if !ok {
				continue
			}
			n := calleeName(&ci.Call)
			if strings.HasSuffix(n, "util.PanicHalt") || strings.Contains(n, ".Emit") {
				continue
			}
			if c.effectCall(&ci.Call) {
				return ci
			}
		}
		succs := p.b.Succs
		if iff, ok := p.b.Instrs[len(p.b.Instrs)-1].(*ssa.If); ok {
			if bo, ok := iff.Cond.(*ssa.BinOp); ok && (isNilConst(bo.Y) && bo.X == e || isNilConst(bo.X) && bo.Y == e) {
				if bo.Op.String() == "!=" {
					succs = succs[:1]
				} else if bo.Op.String() == "==" {
					succs = succs[1:]
				}
			}
		}
		for _, s := range succs {
			work = append(work, pt{s, 0})
		}
	}
	return nil
}

// validatedUnmarshal: the payload decoded here was decoded before by the
// message's own validation, which refuses it when that fails.
func (c *Ctx) validatedUnmarshal(f *ssa.Function) bool {
	for _, p := range f.Params {
		n := namedOf(p.Type())
		if n == nil || !strings.HasPrefix(n.Obj().Name(), "Msg") {
			continue
		}
		for _, g := range c.pr.Funcs {
			if g.Name() != "ValidateBasic" || len(g.Params) == 0 || namedOf(g.Params[0].Type()) != n {
				continue
			}
			for _, b := range g.Blocks {
				for _, ins := range b.Instrs {
					call, ok := ins.(*ssa.Call)
					if !ok || calleeName(&call.Call) != "encoding/json.Unmarshal" {
						continue
					}
					if !hasUse(call) {
						continue
					}
					if bad, _ := c.swallowed(g, call, call); bad == nil {
						return true
					}
				}
			}
		}
	}
	return false
}

func init() {
	regT("C38", "error-flow analysis over the control flow graph (discarded results, failure branches followed to the return)", "Every call with an error result in the hand-written code reachable from message handlers, block hooks, genesis, ante/post handlers and upgrades is an obligation. The error must be used (exceptions: typed events, writes of the key value store, which report no errors, parameter payloads already decoded by the message's validation, lookups proved successful). Assuming the call failed, every path to a return must return a non-nil error, or panic, or call the emergency halt; in functions without an error result a failed token transfer must reach the emergency halt and any other failed effect must not be followed by further effects in the same round.",
		func(c *Ctx) {
			reach := c.reachableFrom(consensusKinds)
			fs := c.handwritten(reach)
			each := func(g func(f *ssa.Function, call *ssa.Call, e ssa.Value, n string)) {
				for _, f := range fs {
					for _, b := range f.Blocks {
						for _, ins := range b.Instrs {
							if call, ok := ins.(*ssa.Call); ok {
								if e, has := errOf(call); has {
									g(f, call, e, calleeName(&call.Call))
								}
							}
						}
					}
				}
			}
			c.sec("no error is discarded", func() {
				each(func(f *ssa.Function, call *ssa.Call, e ssa.Value, n string) {
					c.funcs[f] = true
					ok := hasUse(e) || strings.HasSuffix(n, "EmitTypedEvent") || strings.HasSuffix(n, "EmitTypedEvents")
					if !ok && (strings.HasPrefix(n, "cosmossdk.io/core/store.") || strings.HasPrefix(n, "cosmossdk.io/collections.")) && strings.HasSuffix(n, ".Set") {
						ok = true
					}
					if !ok && n == "encoding/json.Unmarshal" {
						ok = c.validatedUnmarshal(f)
					}
					if !ok && strings.HasSuffix(n, ".PoolKeeper.GetPoolWithError") && shortName(f) == "bundles.AssertCanPropose" {
						r := c.rootFn(f, "bundles.AssertCanPropose", "", keep("bundles.AssertPoolCanRun"))
						r.always("bundles.AssertPoolCanRun($1).err == nil")
						q := c.root("bundles.AssertPoolCanRun")
						q.always("pool.GetPoolWithError($1).err == nil")
						return
					}
					c.check(ok, shortName(f)+" discards "+n, call.Pos(), "%s discards the error of %s; reached by %s", shortName(f), n, reach[f][1])
				})
			})
			c.sec("a failure is reported", func() {
				each(func(f *ssa.Function, call *ssa.Call, e ssa.Value, n string) {
					if !hasUse(e) {
						return
					}
					r := f.Signature.Results()
					retErr := r.Len() > 0 && isErrorType(r.At(r.Len()-1).Type())
					eff := c.effectCall(&call.Call)
					if retErr {
						bad, why := c.swallowed(f, call, e)
						c.check(bad == nil, shortName(f)+" after "+n, call.Pos(), "%s: %s %s", shortName(f), n, why)
						return
					}
					if !eff {
						// a block step that knows the emergency path takes it for
						// everything outside the repository that fails
						if fn, _ := c.pr.resolve(&call.Call); (fn == nil || !isRepoPath(fnPkgPath(fn))) && haltsSomewhere(f) {
							bad, why := c.swallowed(f, call, e)
							c.check(bad == nil, shortName(f)+" after "+n, call.Pos(), "%s: %s %s", shortName(f), n, why)
						}
						return
					}
					bad, why := c.swallowed(f, call, e)
					if bad == nil {
						c.check(true, "", 0, "")
						return
					}
					if fn, _ := c.pr.resolve(&call.Call); fn != nil && fn.Signature.Recv() != nil {
						x := c.afterFailure(f, call, e)
						c.check(x == nil, shortName(f)+" after "+n, call.Pos(), "%s goes on changing state although %s failed", shortName(f), n)
						return
					}
					c.check(false, shortName(f)+" after "+n, call.Pos(), "%s: %s %s", shortName(f), n, why)
				})
			})
		})
}

func haltsSomewhere(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if ci, ok := ins.(*ssa.Call); ok && strings.HasSuffix(calleeName(&ci.Call), "util.PanicHalt") {
				return true
			}
		}
	}
	return false
}
