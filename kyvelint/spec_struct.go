package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- whole-program rules: determinism, iterators, error discipline, queries

var consensusKinds = map[string]bool{"msg": true, "begin": true, "end": true, "genesis": true, "ante": true, "post": true, "upgrade": true}

// reachableFrom: the repository functions reached from entry points of the
// given kinds, with one path each.
func (c *Ctx) reachableFrom(kinds map[string]bool) map[*ssa.Function][]string {
	out := map[*ssa.Function][]string{}
	for _, e := range c.entries() {
		if !kinds[e.kind] {
			continue
		}
		reach := c.su.reach(e.fn)
		for f := range reach {
			if out[f] == nil {
				out[f] = []string{e.name, pathTo(reach, f)}
			}
		}
	}
	return out
}

// handwritten: functions of the given set that are not generated.
func (c *Ctx) handwritten(m map[*ssa.Function][]string) []*ssa.Function {
	var fs []*ssa.Function
	for f := range m {
		if len(f.Blocks) > 0 && !isPB(c.pr, f) {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool {
		if fs[i].Pos() != fs[j].Pos() {
			return fs[i].Pos() < fs[j].Pos()
		}
		return fs[i].String() < fs[j].String()
	})
	return fs
}

// calleeName: "pkgpath.Func" or "pkgpath.Type.Method" of a call, "" if dynamic.
func calleeName(cc *ssa.CallCommon) string {
	var o *types.Func
	if cc.IsInvoke() {
		o = cc.Method
	} else if f := cc.StaticCallee(); f != nil {
		o, _ = f.Object().(*types.Func)
	} else if b, ok := cc.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	if o == nil {
		return ""
	}
	p := ""
	if o.Pkg() != nil {
		p = o.Pkg().Path()
	}
	if sg := o.Type().(*types.Signature); sg.Recv() != nil {
		if n := namedOf(sg.Recv().Type()); n != nil {
			return p + "." + n.Obj().Name() + "." + o.Name()
		}
	}
	return p + "." + o.Name()
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsFloat|types.IsComplex) != 0
}

// rootOf follows an address or reference back to where it comes from.
func rootOf(v ssa.Value) ssa.Value {
	for i := 0; i < 50; i++ {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Field:
			v = x.X
		case *ssa.Index:
			v = x.X
		case *ssa.UnOp:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Convert:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.TypeAssert:
			v = x.X
		case *ssa.Lookup:
			v = x.X
		default:
			return v
		}
	}
	return v
}

var nondetCalls = map[string]string{
	"time.Now": "wall-clock time", "time.Since": "wall-clock time", "time.Until": "wall-clock time", "time.After": "timers", "time.NewTimer": "timers", "time.Tick": "timers", "time.NewTicker": "timers", "time.AfterFunc": "timers", "time.Sleep": "timers",
	"os.Getenv": "environment", "os.LookupEnv": "environment", "os.Environ": "environment", "os.Hostname": "environment", "os.Getpid": "environment", "os.ReadFile": "the file system", "os.Open": "the file system", "os.Stat": "the file system",
	"reflect.Value.MapKeys": "map iteration", "reflect.Value.MapRange": "map iteration", "maps.Keys": "map iteration", "maps.Values": "map iteration", "maps.All": "map iteration",
	"golang.org/x/exp/maps.Keys": "map iteration", "golang.org/x/exp/maps.Values": "map iteration",
	"time.Time.Local": "the local time zone", "reflect.Value.Pointer": "memory addresses", "reflect.Value.UnsafePointer": "memory addresses",
}

var nondetPkgs = map[string]string{"math/rand": "randomness", "math/rand/v2": "randomness", "crypto/rand": "randomness", "net/http": "the network", "net": "the network", "sync/atomic": "shared process memory", "runtime": "the runtime", "hash/maphash": "randomness", "os/exec": "other processes"}

func init() {
	regT("C36", "whole-program effect analysis over SSA: forbidden sources, global writes, commutativity of map loops", "All hand-written functions reachable (resolved call graph) from message handlers, block hooks, genesis, ante/post handlers and upgrades are searched for wall clock, randomness, environment, concurrency, floating point, writes to package-level variables or to long-lived service objects, reads of variables written elsewhere; every loop over a map must be order-insensitive: its carried values are commutative folds, its map writes are under the loop's own key, and a slice collected in it is sorted by the key before any other use.",
		func(c *Ctx) {
			reach := c.reachableFrom(consensusKinds)
			fs := c.handwritten(reach)
			c.sec("sources", func() {
				for _, f := range fs {
					c.funcs[f] = true
					c.check(true, "function", 0, "")
					via := reach[f][1]
					for _, b := range f.Blocks {
						for _, ins := range b.Instrs {
							bad := ""
							switch x := ins.(type) {
							case *ssa.Go:
								bad = "starts a goroutine"
							case *ssa.Select:
								bad = "selects between channels"
							case *ssa.Send:
								bad = "sends on a channel"
							case *ssa.BinOp:
								if isFloat(x.X.Type()) {
									bad = "computes in floating point"
								}
							case *ssa.Convert:
								if isFloat(x.Type()) {
									bad = "converts to floating point"
								}
								if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Uintptr {
									bad = "uses a memory address"
								}
							case *ssa.UnOp:
								if x.Op.String() == "<-" {
									bad = "receives from a channel"
								}
							}
							if ci, ok := ins.(ssa.CallInstruction); ok {
								n := calleeName(ci.Common())
								if w := nondetCalls[n]; w != "" && !keysSorted(ci) {
									bad = "calls " + n + " (depends on " + w + ")"
								}
								if i := strings.LastIndex(n, "/"); n != "" {
									p := n[i+1:]
									if j := strings.IndexByte(p, '.'); j >= 0 {
										p = n[:i+1+j]
									}
									if w := nondetPkgs[p]; w != "" {
										bad = "calls " + n + " (depends on " + w + ")"
									}
								}
								if strings.HasPrefix(n, "fmt.") {
									for _, a := range ci.Common().Args {
										if k, ok := a.(*ssa.Const); ok && k.Value != nil && strings.Contains(k.Value.ExactString(), "%p") {
											bad = "formats a memory address"
										}
									}
								}
							}
							if bad != "" {
								c.check(false, shortName(f)+" "+bad, ins.Pos(), "%s %s; reached by %s", shortName(f), bad, via)
							}
						}
					}
				}
			})
			c.sec("process state", func() {
				once := c.onceGuards()
				// package-level variables written by ordinary code
				written := map[*ssa.Global]*ssa.Function{}
				for _, f := range c.pr.Funcs {
					if isPB(c.pr, f) || f.Synthetic != "" || strings.HasPrefix(f.Name(), "init") || !strings.Contains(fnPkgPath(f), "/x/") && !strings.Contains(fnPkgPath(f), "/util") {
						continue
					}
					for _, b := range f.Blocks {
						for _, ins := range b.Instrs {
							var addr ssa.Value
							switch x := ins.(type) {
							case *ssa.Store:
								addr = x.Addr
							case *ssa.MapUpdate:
								addr = x.Map
							}
							if addr == nil {
								continue
							}
							if g, ok := rootOf(addr).(*ssa.Global); ok && !once[g] {
								written[g] = f
								if reach[f] != nil {
									c.check(false, shortName(f)+" writes "+g.Name(), ins.Pos(), "%s writes the package variable %s; reached by %s", shortName(f), g.Name(), reach[f][1])
								}
							}
						}
					}
				}
				for _, f := range fs {
					c.check(true, "function", 0, "")
					for _, b := range f.Blocks {
						for _, ins := range b.Instrs {
							for _, op := range ins.Operands(nil) {
								if op == nil {
									continue
								}
								if g, ok := (*op).(*ssa.Global); ok && written[g] != nil {
									c.check(false, shortName(f)+" reads "+g.Name(), ins.Pos(), "%s uses the package variable %s, which %s changes at run time", shortName(f), g.Name(), shortName(written[g]))
								}
							}
							// fields of keepers, servers, modules and decorators
							var addr ssa.Value
							switch x := ins.(type) {
							case *ssa.Store:
								addr = x.Addr
							case *ssa.MapUpdate:
								addr = x.Map
							}
							if addr == nil {
								continue
							}
							root := rootOf(addr)
							if addr == root {
								if _, ok := ins.(*ssa.Store); ok {
									continue
								}
							}
							var rv *types.Named
							switch r := root.(type) {
							case *ssa.Parameter:
								rv = namedOf(r.Type())
							case *ssa.FreeVar:
								rv = namedOf(r.Type())
							case *ssa.Alloc:
								// a by-value receiver spilled to memory: only what it points to is shared
								if _, isMap := ins.(*ssa.MapUpdate); isMap || derefs(addr) {
									rv = namedOf(r.Type())
								}
							}
							if rv != nil && isService(rv) {
								c.check(false, shortName(f)+" keeps state in "+rv.Obj().Name(), ins.Pos(), "%s writes to a field of the long-lived %s; reached by %s", shortName(f), rv.Obj().Name(), reach[f][1])
							}
						}
					}
				}
			})
			c.sec("map loops", func() {
				n := 0
				for _, f := range fs {
					for _, b := range f.Blocks {
						for _, ins := range b.Instrs {
							r, ok := ins.(*ssa.Range)
							if !ok {
								continue
							}
							if _, ok := r.X.Type().Underlying().(*types.Map); !ok {
								continue
							}
							n++
							bad := c.mapLoop(f, r)
							c.check(bad == "", shortName(f)+" map loop", r.Pos(), "%s: the loop over a map is not order-insensitive: %s; reached by %s", shortName(f), bad, reach[f][1])
						}
					}
				}
				c.check(true, "map loops", 0, "")
				c.extra["map_loops"] = n
			})
		})
}

// onceGuards: unexported bool variables used in one function only, set there
// to true only, where everything that function changes is the memory store (a
// cache rebuilt from the persistent store once per process).
func (c *Ctx) onceGuards() map[*ssa.Global]bool {
	users := map[*ssa.Global]map[*ssa.Function]bool{}
	bad := map[*ssa.Global]bool{}
	for _, f := range c.pr.Funcs {
		if f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if op == nil {
						continue
					}
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					if users[g] == nil {
						users[g] = map[*ssa.Function]bool{}
					}
					users[g][f] = true
					switch x := ins.(type) {
					case *ssa.Store:
						k, ok := x.Val.(*ssa.Const)
						if !ok || x.Addr != g || k.Value == nil || k.Value.String() != "true" {
							bad[g] = true
						}
					case *ssa.UnOp:
					default:
						bad[g] = true
					}
				}
			}
		}
	}
	out := map[*ssa.Global]bool{}
	for g, us := range users {
		p, ok := g.Type().(*types.Pointer)
		if !ok || bad[g] || len(us) != 1 || !types.Identical(p.Elem(), types.Typ[types.Bool]) || g.Object() == nil || g.Object().Exported() {
			continue
		}
		var f *ssa.Function
		for f = range us {
		}
		ok = true
		for h := range c.su.reach(f) {
			if c.su.direct[h]&dWrite != 0 && !c.opensOnly(h, "MemoryStoreService") || c.su.extEff[h] {
				ok = false
			}
		}
		if ok {
			out[g] = true
		}
	}
	return out
}

// opensOnly: every store service opened in f is of the given kind.
func (c *Ctx) opensOnly(f *ssa.Function, kind string) bool {
	n := 0
	seen := map[*ssa.Function]bool{}
	var look func(f *ssa.Function) bool
	look = func(f *ssa.Function) bool {
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok {
					m := calleeName(ci.Common())
					if strings.Contains(m, ".Open") {
						n++
						if !strings.Contains(m, kind) {
							return false
						}
					}
				}
			}
		}
		for _, g := range c.su.callees[f] { // parts of the accessor
			if !seen[g] && c.su.direct[g] == 0 && moduleOf(fnPkgPath(g)) == moduleOf(fnPkgPath(f)) && !look(g) {
				return false
			}
		}
		return true
	}
	return look(f) && n > 0
}

// globalStores: assignments to a package variable of the given name.
func globalStores(f *ssa.Function, name string) []*ssa.Store {
	var out []*ssa.Store
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if st, ok := ins.(*ssa.Store); ok {
				if g, ok := st.Addr.(*ssa.Global); ok && g.Name() == name {
					out = append(out, st)
				}
			}
		}
	}
	return out
}

// keysSorted: the keys of a map taken only to be sorted.
func keysSorted(ci ssa.CallInstruction) bool {
	v, ok := ci.(*ssa.Call)
	if !ok || v.Referrers() == nil {
		return false
	}
	n := 0
	var refs []ssa.Instruction
	refs = append(refs, *v.Referrers()...)
	for len(refs) > 0 {
		u := refs[0]
		refs = refs[1:]
		switch x := u.(type) {
		case *ssa.ChangeType:
			refs = append(refs, *x.Referrers()...)
		case *ssa.MakeInterface:
			refs = append(refs, *x.Referrers()...)
		case ssa.CallInstruction:
			m := calleeName(x.Common())
			switch {
			case m == "slices.Sorted":
				n++
			case m == "sort.Strings" || m == "sort.Ints" || m == "slices.Sort":
				n++
			case n > 0 && x.Block() == v.Block():
				// used after the sort in the same block
			default:
				return false
			}
		case *ssa.DebugRef:
		default:
			if n == 0 || u.Block() == nil {
				return false
			}
		}
	}
	return n > 0
}

// derefs: does the address go through a pointer, map or slice held in a field?
func derefs(v ssa.Value) bool {
	for i := 0; i < 50; i++ {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
				return true
			}
			v = x.X
		case *ssa.UnOp:
			return true
		default:
			return false
		}
	}
	return false
}

func isService(n *types.Named) bool {
	s := n.Obj().Name()
	if n.Obj().Pkg() == nil || !isRepoPath(n.Obj().Pkg().Path()) {
		return false
	}
	for _, x := range []string{"Keeper", "msgServer", "AppModule", "Decorator", "Server", "App"} {
		if strings.HasSuffix(s, x) {
			return true
		}
	}
	return false
}

// mapLoop: "" if the loop over the map is independent of the order.
func (c *Ctx) mapLoop(f *ssa.Function, r *ssa.Range) string {
	var next *ssa.Next
	for _, u := range *r.Referrers() {
		if n, ok := u.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return ""
	}
	head := next.Block()
	// natural loop
	in := map[*ssa.BasicBlock]bool{head: true}
	var back func(b *ssa.BasicBlock)
	back = func(b *ssa.BasicBlock) {
		if in[b] {
			return
		}
		in[b] = true
		for _, p := range b.Preds {
			back(p)
		}
	}
	for _, p := range head.Preds {
		if head.Dominates(p) {
			back(p)
		}
	}
	isKey := func(v ssa.Value) bool {
		for i := 0; i < 5; i++ {
			switch x := v.(type) {
			case *ssa.Extract:
				return x.Tuple == next && x.Index == 1
			case *ssa.ChangeType:
				v = x.X
			case *ssa.Convert:
				v = x.X
			case *ssa.UnOp:
				// a key variable kept in memory
				if al, ok := x.X.(*ssa.Alloc); ok && in[al.Block()] {
					ok := false
					for _, u := range *al.Referrers() {
						if s, is := u.(*ssa.Store); is && s.Addr == al {
							if e, is := s.Val.(*ssa.Extract); is && e.Tuple == next && e.Index == 1 {
								ok = true
							} else {
								return false
							}
						}
					}
					return ok
				}
				return false
			default:
				return false
			}
		}
		return false
	}
	sorted := func(cell ssa.Value) string { return c.sortedAfter(f, cell, in, isKey) }
	// dependsOn: does v depend on the accumulator?
	var dep func(v, acc ssa.Value, d int) bool
	dep = func(v, acc ssa.Value, d int) bool {
		if v == acc {
			return true
		}
		i, ok := v.(ssa.Instruction)
		if !ok || d > 12 || i.Block() == nil || !in[i.Block()] {
			return false
		}
		if u, ok := v.(*ssa.UnOp); ok && u.X == acc {
			return true
		}
		for _, op := range i.Operands(nil) {
			if op != nil && *op != nil && dep(*op, acc, d+1) {
				return true
			}
		}
		return false
	}
	isAcc := func(v, acc ssa.Value) bool {
		if v == acc {
			return true
		}
		u, ok := v.(*ssa.UnOp)
		return ok && u.Op.String() == "*" && u.X == acc
	}
	var comm func(v, acc ssa.Value, d int) string
	comm = func(v, acc ssa.Value, d int) string {
		if acc == nil {
			acc = v
		} else if isAcc(v, acc) || d > 10 {
			return ""
		}
		switch x := v.(type) {
		case *ssa.BinOp:
			switch x.Op.String() {
			case "+", "*", "&", "|", "^", "-":
				if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					if !dep(x.Y, acc, 0) {
						return comm(x.X, acc, d+1)
					}
					if x.Op.String() != "-" && !dep(x.X, acc, 0) {
						return comm(x.Y, acc, d+1)
					}
				}
			}
			return "the value carried through the loop is not a commutative fold (" + x.Op.String() + ")"
		case *ssa.Phi:
			var konst *ssa.Const
			for i, e := range x.Edges {
				if isAcc(e, acc) || x.Block() == head && !in[head.Preds[i]] {
					continue
				}
				if k, ok := e.(*ssa.Const); ok {
					if konst != nil && konst.String() != k.String() {
						return "different constants are assigned"
					}
					konst = k
					continue
				}
				if dep(e, acc, 0) {
					if s := comm(e, acc, d+1); s != "" {
						return s
					}
					continue
				}
				// min or max: the edge is taken on a comparison of the value with the accumulator
				p := x.Block().Preds[i]
				ok := false
				for b := p; b != nil && in[b] && !ok; b = b.Idom() {
					for _, q := range append([]*ssa.BasicBlock{b}, b.Preds...) {
						if len(q.Instrs) == 0 {
							continue
						}
						iff, is := q.Instrs[len(q.Instrs)-1].(*ssa.If)
						if !is {
							continue
						}
						if bo, is := iff.Cond.(*ssa.BinOp); is {
							switch bo.Op.String() {
							case "<", ">", "<=", ">=":
								if bo.X == e && dep(bo.Y, acc, 0) || bo.Y == e && dep(bo.X, acc, 0) {
									ok = true
								}
							}
						}
					}
				}
				if !ok {
					return "the last element wins"
				}
			}
			return ""
		case *ssa.Call:
			n := calleeName(&x.Call)
			if n == "builtin.append" && isAcc(x.Call.Args[0], acc) {
				return sorted(acc)
			}
			if n == "builtin.min" || n == "builtin.max" || strings.HasSuffix(n, "MinUInt64") || strings.HasSuffix(n, "MaxUInt64") ||
				strings.HasSuffix(n, "math.Int.Add") || strings.HasSuffix(n, "math.LegacyDec.Add") || strings.HasSuffix(n, "types.Coins.Add") {
				for _, a := range x.Call.Args {
					if dep(a, acc, 0) {
						if s := comm(a, acc, d+1); s != "" {
							return s
						}
					}
				}
				return ""
			}
			if dep(v, acc, 0) {
				return "a value is carried through " + n
			}
		case *ssa.Const:
			return ""
		}
		if !dep(v, acc, 0) {
			return "the last element wins"
		}
		return "the value carried through the loop is not a commutative fold"
	}
	for _, ins := range head.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if s := comm(phi, nil, 0); s != "" {
			return s
		}
	}
	var bs []*ssa.BasicBlock
	for b := range in {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].Index < bs[j].Index })
	for _, b := range bs {
		// leaving from inside must give a constant result
		for _, s := range b.Succs {
			if in[s] || b == head {
				continue
			}
			for _, ins := range s.Instrs {
				switch x := ins.(type) {
				case *ssa.Return:
					for _, v := range x.Results {
						if _, ok := v.(*ssa.Const); !ok && !constLike(v) {
							return "it returns a value of the element found first"
						}
					}
				case *ssa.Phi:
					for i, p := range s.Preds {
						if p == b {
							if _, ok := x.Edges[i].(*ssa.Const); !ok {
								if e, ok := x.Edges[i].(ssa.Instruction); ok && in[e.Block()] {
									return "it leaves with a value of the element found first"
								}
							}
						}
					}
				}
			}
		}
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.MapUpdate:
				if !isKey(x.Key) {
					return "it writes a map entry under a key that is not the loop's"
				}
			case *ssa.Store:
				root := rootOf(x.Addr)
				if al, ok := root.(*ssa.Alloc); ok && in[al.Block()] {
					continue // fresh in each round
				}
				if s := comm(x.Val, x.Addr, 0); s != "" {
					return s
				}
			case *ssa.Defer, *ssa.Go:
				return "it defers or starts work"
			case *ssa.Call:
				n := calleeName(&x.Call)
				if g := x.Call.StaticCallee(); g != nil && c.su.effect[g] {
					return "it calls " + shortName(g) + ", which changes state"
				}
				if fn, _ := c.pr.resolve(&x.Call); fn != nil && c.su.effect[fn] {
					return "it calls " + shortName(fn) + ", which changes state"
				}
				if x.Call.IsInvoke() {
					if isStoreIface(x.Call.Value.Type()) && storeOp(x.Call.Method.Name())&dWrite != 0 {
						return "it writes to the store"
					}
					if nm := namedOf(x.Call.Value.Type()); nm != nil {
						if km := keeperModule(nm); km != "" && !readOnlyName(x.Call.Method.Name()) {
							return "it calls " + n
						}
					}
				}
				if strings.HasPrefix(x.Call.String(), "print") || strings.Contains(n, ".Emit") {
					return "it emits events"
				}
			}
		}
	}
	return ""
}

func constLike(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.MakeInterface:
		return constLike(x.X)
	case *ssa.UnOp:
		_, ok := x.X.(*ssa.Global)
		return ok
	}
	return false
}

// sortedAfter: the slice collected in a map loop (a phi or a variable) is
// sorted by the loop's key before anything else uses it.
func (c *Ctx) sortedAfter(f *ssa.Function, acc ssa.Value, in map[*ssa.BasicBlock]bool, isKey func(ssa.Value) bool) string {
	type use struct {
		ins ssa.Instruction
		v   ssa.Value
	}
	var uses []use
	var vals []ssa.Value
	if al, ok := acc.(*ssa.Alloc); ok {
		for _, u := range *al.Referrers() {
			if ld, ok := u.(*ssa.UnOp); ok && !in[ld.Block()] {
				vals = append(vals, ld)
			}
		}
	} else {
		vals = append(vals, acc)
	}
	for _, v := range vals {
		for _, u := range *v.Referrers() {
			if u.Block() != nil && !in[u.Block()] {
				uses = append(uses, use{u, v})
			}
		}
	}
	var srt ssa.CallInstruction
	isSort := func(ins ssa.Instruction) ssa.CallInstruction {
		ci, ok := ins.(ssa.CallInstruction)
		if !ok {
			if mi, ok := ins.(*ssa.MakeInterface); ok {
				for _, u := range *mi.Referrers() {
					if ci, ok := u.(ssa.CallInstruction); ok {
						n := calleeName(ci.Common())
						if strings.HasPrefix(n, "sort.") {
							return ci
						}
					}
				}
			}
			return nil
		}
		n := calleeName(ci.Common())
		if strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices.Sort") {
			return ci
		}
		return nil
	}
	for _, u := range uses {
		if s := isSort(u.ins); s != nil {
			srt = s
		}
	}
	if srt == nil {
		return "elements are collected in iteration order and not sorted"
	}
	for _, u := range uses {
		if isSort(u.ins) != nil {
			continue
		}
		if call, ok := u.ins.(*ssa.Call); ok {
			if n := calleeName(&call.Call); n == "builtin.len" || n == "builtin.cap" {
				continue
			}
		}
		if u.ins.Block() == srt.Block() {
			before := false
			for _, i := range srt.Block().Instrs {
				if i == ssa.Instruction(srt) {
					break
				}
				if i == u.ins {
					before = true
				}
			}
			if !before {
				continue
			}
		} else if srt.Block().Dominates(u.ins.Block()) {
			continue
		}
		return "the collected elements are used before they are sorted"
	}
	// the order: by the key itself, or by a field that holds it
	keyFields := map[string]bool{}
	keyElems := false
	for b := range in {
		for _, ins := range b.Instrs {
			st, ok := ins.(*ssa.Store)
			if !ok || !isKey(st.Val) {
				continue
			}
			switch a := st.Addr.(type) {
			case *ssa.FieldAddr:
				keyFields[fieldName(a)] = true
			case *ssa.IndexAddr:
				keyElems = true
			}
		}
	}
	n := calleeName(srt.Common())
	var cmp *ssa.Function
	for _, a := range srt.Common().Args {
		switch x := a.(type) {
		case *ssa.MakeClosure:
			cmp = x.Fn.(*ssa.Function)
		case *ssa.Function:
			cmp = x
		}
	}
	if cmp == nil {
		if keyElems && (n == "sort.Strings" || n == "sort.Ints" || n == "slices.Sort") {
			return ""
		}
		return "the order of the sort is not recognised"
	}
	compared := func(v ssa.Value) bool {
		for i := 0; i < 6; i++ {
			switch x := v.(type) {
			case *ssa.UnOp:
				v = x.X
			case *ssa.FieldAddr:
				return keyFields[fieldName(x)]
			case *ssa.Field:
				return keyFields[x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name()]
			case *ssa.IndexAddr:
				return keyElems
			case *ssa.Parameter:
				return keyElems
			case *ssa.Convert:
				v = x.X
			default:
				return false
			}
		}
		return false
	}
	for _, b := range cmp.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.BinOp:
				switch x.Op.String() {
				case "<", ">", "<=", ">=":
					if compared(x.X) && compared(x.Y) {
						return ""
					}
				}
			case *ssa.Call:
				if m := calleeName(&x.Call); (m == "strings.Compare" || m == "bytes.Compare" || m == "cmp.Compare") && compared(x.Call.Args[0]) && compared(x.Call.Args[1]) {
					return ""
				}
			}
		}
	}
	return "the collected elements are not ordered by the map key, so equal elements keep the iteration order"
}

func fieldName(a *ssa.FieldAddr) string {
	if p, ok := a.X.Type().Underlying().(*types.Pointer); ok {
		if st, ok := p.Elem().Underlying().(*types.Struct); ok {
			return st.Field(a.Field).Name()
		}
	}
	return ""
}
