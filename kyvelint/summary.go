package main

// Whole-program summaries: call graph with resolved interface calls, which
// functions touch the stores, and which store prefixes they read and write.

import (
	_ "embed"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Summ struct {
	pr      *Program
	callees map[*ssa.Function][]*ssa.Function // resolved repository callees (with closures)
	callers map[*ssa.Function][]*ssa.Function
	direct  map[*ssa.Function]int // 1 reads, 2 writes, 4 iterates
	extEff  map[*ssa.Function]bool
	hard    map[*ssa.Function]bool // effect other than the emergency halt
	effect  map[*ssa.Function]bool // transitively writes a store, calls an effectful external keeper method, or emits
	loopy   map[*ssa.Function]bool
	reads   map[*ssa.Function]map[string]bool
	writes  map[*ssa.Function]map[string]bool
	byName  map[string][]*ssa.Function
	mods    map[*ssa.Function]map[int]bool // parameters whose referent the function changes
}

const (
	dRead = 1 << iota
	dWrite
	dIter
)

func fnPkgPath(f *ssa.Function) string {
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	if f.Parent() != nil {
		return fnPkgPath(f.Parent())
	}
	if f.Origin() != nil {
		return fnPkgPath(f.Origin())
	}
	return ""
}

func recvNamed(f *types.Func) *types.Named {
	sig := f.Type().(*types.Signature)
	if sig.Recv() == nil {
		return nil
	}
	return namedOf(sig.Recv().Type())
}

func namedOf(t types.Type) *types.Named {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if a, ok := t.(*types.Alias); ok {
		t = types.Unalias(a)
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
	}
	n, _ := t.(*types.Named)
	return n
}

// shortName: "<module>.<Func>", with the receiver type for methods of other
// types than keepers and servers.
func shortName(f *ssa.Function) string {
	path := fnPkgPath(f)
	mod := pkgShort(path)
	if f.Parent() != nil {
		return shortName(f.Parent()) + "$" + f.Name()
	}
	n := strings.TrimSuffix(f.Name(), "$bound")
	if o, ok := f.Object().(*types.Func); ok {
		if r := recvNamed(o); r != nil && !isKeeperType(r) {
			return mod + "." + r.Obj().Name() + "." + n
		}
	}
	return mod + "." + n
}

func isKeeperType(n *types.Named) bool {
	s := n.Obj().Name()
	return strings.HasSuffix(s, "Keeper") || strings.HasSuffix(s, "Server") || s == "msgServer" || s == "Querier" || s == "AppModule"
}

// extKeeper: the module name when t is a keeper interface or struct declared
// outside the repository or a repository interface without a repository
// implementation.
func keeperModule(n *types.Named) string {
	if n == nil || n.Obj().Pkg() == nil {
		return ""
	}
	s := n.Obj().Name()
	if !strings.HasSuffix(s, "Keeper") && s != "BaseKeeper" && !(s == "MsgServer" || s == "QueryServer") {
		return ""
	}
	path := n.Obj().Pkg().Path()
	if strings.HasSuffix(s, "Keeper") && s != "Keeper" && s != "BaseKeeper" && s != "SendKeeper" && s != "ViewKeeper" {
		return strings.ToLower(strings.TrimSuffix(s, "Keeper"))
	}
	if i := strings.Index(path, "/x/"); i >= 0 {
		p := path[i+3:]
		if j := strings.IndexByte(p, '/'); j >= 0 {
			p = p[:j]
		}
		return p
	}
	return pkgShort(path)
}

var readPrefixes = []string{"Get", "Has", "Is", "Spendable", "Locked", "Iterate", "Blocked", "Params", "StakingTokenSupply", "BondedRatio", "Validator", "Total", "Bond", "Export", "Delegation", "Logger", "Authority", "BondDenom", "Calculate"}

func readOnlyName(n string) bool {
	for _, p := range readPrefixes {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

func isStoreIface(t types.Type) bool {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	switch n.Obj().Name() {
	case "KVStore", "BasicKVStore", "Store", "CacheKVStore":
		return strings.Contains(p, "store") || strings.Contains(p, "cosmos-sdk/types")
	}
	return false
}

func storeOp(name string) int {
	switch name {
	case "Get", "Has":
		return dRead
	case "Set", "Delete":
		return dWrite
	case "Iterator", "ReverseIterator":
		return dRead | dIter
	}
	return 0
}

// calleesOf resolves the call to repository functions; ext describes the rest.
func (pr *Program) resolve(c *ssa.CallCommon) (fn *ssa.Function, m *types.Func) {
	if c.IsInvoke() {
		m = c.Method
		if f := pr.implOf(c.Value.Type(), c.Method); f != nil {
			return f, m
		}
		return nil, m
	}
	switch v := c.Value.(type) {
	case *ssa.Function:
		o, _ := v.Object().(*types.Func)
		return v, o
	case *ssa.MakeClosure:
		f := v.Fn.(*ssa.Function)
		o, _ := f.Object().(*types.Func)
		return f, o
	}
	return nil, nil
}

//go:embed accessors.txt
var accessorNames string

// absorb: functions with store operations that are only parts of accessors (they are
// given the store, or are new and called by accessors only) count as parts of these.
func (s *Summ) absorb() {
	known := map[string]bool{}
	for _, n := range strings.Fields(accessorNames) {
		known[n] = true
	}
	for _, f := range s.pr.Funcs {
		if d := s.direct[f]; d != 0 {
			for g := f.Parent(); g != nil; g = g.Parent() {
				s.direct[g] |= d
			}
		}
	}
	part := map[*ssa.Function]bool{}
	for _, f := range s.pr.Funcs {
		if s.direct[f] == 0 || f.Parent() != nil || known[shortName(f)] {
			continue
		}
		for _, p := range f.Params {
			if isStoreIface(p.Type()) && len(s.callers[f]) > 0 {
				part[f] = true
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range s.pr.Funcs {
			if s.direct[f] == 0 || f.Parent() != nil || part[f] || known[shortName(f)] || len(s.callers[f]) == 0 {
				continue
			}
			all := true
			for _, g := range s.callers[f] {
				for g.Parent() != nil {
					g = g.Parent()
				}
				all = all && (known[shortName(g)] || part[g])
			}
			if all {
				part[f] = true
				changed = true
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for f := range part {
			for _, g := range s.callers[f] {
				if s.direct[g]|s.direct[f] != s.direct[g] {
					s.direct[g] |= s.direct[f]
					changed = true
				}
			}
		}
	}
	for f := range part {
		s.direct[f] = 0
	}
}

func summarise(pr *Program) *Summ {
	s := &Summ{pr: pr, callees: map[*ssa.Function][]*ssa.Function{}, callers: map[*ssa.Function][]*ssa.Function{}, direct: map[*ssa.Function]int{}, extEff: map[*ssa.Function]bool{},
		effect: map[*ssa.Function]bool{}, hard: map[*ssa.Function]bool{}, loopy: map[*ssa.Function]bool{}, reads: map[*ssa.Function]map[string]bool{}, writes: map[*ssa.Function]map[string]bool{}, byName: map[string][]*ssa.Function{}}
	bytesGlobals := map[*ssa.Function]map[string]bool{}
	for _, f := range pr.Funcs {
		s.byName[shortName(f)] = append(s.byName[shortName(f)], f)
		bg := map[string]bool{}
		bytesGlobals[f] = bg
		for _, b := range f.Blocks {
			for _, su := range b.Succs {
				if su.Dominates(b) {
					s.loopy[f] = true
				}
			}
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					switch v := (*op).(type) {
					case *ssa.Global:
						if v.Pkg != nil && isRepoPath(v.Pkg.Pkg.Path()) {
							et := v.Type().(*types.Pointer).Elem()
							if isBytes(et) || isString(et) {
								bg[moduleOf(v.Pkg.Pkg.Path())+"."+v.Name()] = true
							} else if strings.Contains(et.String(), "Prefix") {
								bg[moduleOf(v.Pkg.Pkg.Path())+"."+v.Name()] = true
							}
						}
					case *ssa.Function:
						if v.Blocks != nil {
							s.callees[f] = append(s.callees[f], v)
						}
					}
				}
				if c, ok := ins.(ssa.CallInstruction); ok {
					cc := c.Common()
					fn, m := pr.resolve(cc)
					if fn != nil && fn.Blocks != nil {
						s.callees[f] = append(s.callees[f], fn)
						continue
					}
					if m == nil {
						continue
					}
					var rt types.Type
					if cc.IsInvoke() {
						rt = cc.Value.Type()
					} else if sg := m.Type().(*types.Signature); sg.Recv() != nil {
						rt = sg.Recv().Type()
					}
					if rt != nil {
						if isStoreIface(rt) {
							s.direct[f] |= storeOp(m.Name())
						} else if n := namedOf(rt); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "cosmossdk.io/collections" {
							if keeperMethod(f) {
								switch m.Name() {
								case "Get", "Has", "Peek", "Iterate", "Walk":
									s.direct[f] |= dRead
								case "Set", "Remove", "Clear", "Next":
									s.direct[f] |= dWrite
								}
							}
						} else if n := namedOf(rt); n != nil {
							if km := keeperModule(n); km != "" && !readOnlyName(m.Name()) {
								s.extEff[f] = true
							}
							if n.Obj().Name() == "EventManager" || n.Obj().Name() == "EventManagerI" {
								if strings.HasPrefix(m.Name(), "Emit") {
									s.extEff[f] = true
								}
							}
						}
					} else if m.Pkg() != nil {
						// query.Paginate, KVStorePrefixIterator
						if strings.Contains(m.Name(), "PrefixIterator") || strings.HasSuffix(m.Pkg().Path(), "types/query") {
							s.direct[f] |= dRead | dIter
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			s.callees[f] = append(s.callees[f], a)
		}
	}
	for f, cs := range s.callees {
		seen := map[*ssa.Function]bool{}
		out := cs[:0:0]
		for _, c := range cs {
			if !seen[c] {
				seen[c] = true
				out = append(out, c)
				s.callers[c] = append(s.callers[c], f)
			}
		}
		s.callees[f] = out
	}
	s.absorb()
	// helper key functions contribute their prefix globals to the accessor
	for _, f := range pr.Funcs {
		s.reads[f] = map[string]bool{}
		s.writes[f] = map[string]bool{}
		if s.direct[f] == 0 {
			continue
		}
		pf := map[string]bool{}
		var add func(g *ssa.Function, d int)
		seen := map[*ssa.Function]bool{}
		add = func(g *ssa.Function, d int) {
			if seen[g] || d > 3 {
				return
			}
			seen[g] = true
			for k := range bytesGlobals[g] {
				pf[k] = true
			}
			for _, h := range s.callees[g] {
				if s.direct[h] == 0 {
					add(h, d+1)
				}
			}
			if g.Parent() != nil {
				add(g.Parent(), d+1)
			}
		}
		add(f, 0)
		if len(pf) == 0 {
			pf[moduleOf(fnPkgPath(f))+".?"] = true
		}
		for k := range pf {
			if s.direct[f]&dRead != 0 {
				s.reads[f][k] = true
			}
			if s.direct[f]&dWrite != 0 {
				s.writes[f][k] = true
			}
		}
	}
	for _, f := range pr.Funcs {
		if s.direct[f]&dWrite != 0 || s.extEff[f] {
			s.effect[f] = true
			s.hard[f] = shortName(f) != "util.PanicHalt"
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range pr.Funcs {
			for _, c := range s.callees[f] {
				if s.effect[c] && !s.effect[f] {
					s.effect[f] = true
					changed = true
				}
				if s.hard[c] && !s.hard[f] && shortName(f) != "util.PanicHalt" {
					s.hard[f] = true
					changed = true
				}
				if s.loopy[c] && !s.loopy[f] {
					s.loopy[f] = true
					changed = true
				}
				for k := range s.reads[c] {
					if !s.reads[f][k] {
						s.reads[f][k] = true
						changed = true
					}
				}
				for k := range s.writes[c] {
					if !s.writes[f][k] {
						s.writes[f][k] = true
						changed = true
					}
				}
			}
		}
	}
	s.mods = modifies(pr)
	return s
}

func isBytes(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := sl.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// reach: functions reachable from roots through resolved calls.
func (s *Summ) reach(roots ...*ssa.Function) map[*ssa.Function]*ssa.Function {
	from := map[*ssa.Function]*ssa.Function{}
	var q []*ssa.Function
	for _, r := range roots {
		if _, ok := from[r]; !ok {
			from[r] = nil
			q = append(q, r)
		}
	}
	for len(q) > 0 {
		f := q[0]
		q = q[1:]
		for _, c := range s.callees[f] {
			if _, ok := from[c]; !ok {
				from[c] = f
				q = append(q, c)
			}
		}
	}
	return from
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}

func keeperMethod(f *ssa.Function) bool {
	if o, ok := f.Object().(*types.Func); ok {
		if r := recvNamed(o); r != nil {
			return isKeeperType(r)
		}
	}
	return false
}

// modifies computes, for every function, the pointer parameters through which
// it (or a function it calls) writes.
func modifies(pr *Program) map[*ssa.Function]map[int]bool {
	mods := map[*ssa.Function]map[int]bool{}
	for changed := true; changed; {
		changed = false
		for _, f := range pr.Funcs {
			if len(f.Params) == 0 {
				continue
			}
			for i, p := range f.Params {
				if mods[f][i] || !refType(p.Type()) {
					continue
				}
				if paramWritten(pr, mods, p) {
					if mods[f] == nil {
						mods[f] = map[int]bool{}
					}
					mods[f][i] = true
					changed = true
				}
			}
		}
	}
	return mods
}

func refType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		n := namedOf(u.Elem())
		return n == nil || !isKeeperType(n)
	case *types.Slice, *types.Map:
		return true
	}
	return false
}

func paramWritten(pr *Program, mods map[*ssa.Function]map[int]bool, p *ssa.Parameter) bool {
	seen := map[ssa.Value]bool{}
	work := []ssa.Value{p}
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[v] {
			continue
		}
		seen[v] = true
		rs := v.Referrers()
		if rs == nil {
			continue
		}
		for _, r := range *rs {
			switch x := r.(type) {
			case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.ChangeType, *ssa.Phi, *ssa.Slice:
				work = append(work, r.(ssa.Value))
			case *ssa.UnOp:
				if refType(x.Type()) {
					work = append(work, x)
				}
			case *ssa.Field:
				if refType(x.Type()) {
					work = append(work, x)
				}
			case *ssa.Store:
				if x.Addr == v {
					return true
				}
			case *ssa.MapUpdate:
				if x.Map == v {
					return true
				}
			case ssa.CallInstruction:
				cc := x.Common()
				fn, m := pr.resolve(cc)
				args := cc.Args
				if cc.IsInvoke() {
					args = append([]ssa.Value{cc.Value}, args...)
				}
				for j, a := range args {
					if a != v {
						continue
					}
					if fn != nil && fn.Blocks != nil {
						if mods[fn][j] {
							return true
						}
					} else if m != nil && strings.Contains(m.Name(), "Unmarshal") {
						return true
					}
				}
			}
		}
	}
	return false
}
