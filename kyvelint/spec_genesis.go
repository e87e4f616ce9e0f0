package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C33 genesis export and import, C34 genesis validation, C35 parameters

// genesisModules: the modules of the repository with persistent state.
func (c *Ctx) genesisModules() []string {
	var out []string
	for _, e := range c.entries() {
		if e.kind == "genesis" && len(c.su.writes[e.fn]) > 0 {
			out = append(out, moduleOf(fnPkgPath(e.fn)))
		}
	}
	sort.Strings(out)
	return out
}

func (c *Ctx) appRoot(mod, kind string, opts ...opt) *Root {
	for _, e := range c.entries() {
		if e.kind == kind && moduleOf(fnPkgPath(e.fn)) == mod {
			return c.rootFn(e.fn, mod+" "+kind, "+store", storeMode, inlineAll)
		}
	}
	bail("module %s has no %s", mod, kind)
	return nil
}

// place: where in the store a record or a kind of records is.
type place struct {
	store, key string // the prefixes of the store; the key of a single record
	many       bool
	conv       string // how the value is encoded
}

// prefixesOf: the package-level prefixes of a store value.
func prefixesOf(t *Term) string {
	var out []string
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.Op == OpGlobal {
			out = append(out, t.Name)
		}
		if t.Op == OpCall && strings.HasSuffix(t.Name, "OpenKVStore") || t.Op == OpField {
			if len(t.Args) > 0 {
				n := t.Args[0].String()
				if t.Op == OpField {
					n = t.String()
				}
				out = append(out, n[strings.LastIndexByte(n, '.')+1:])
			}
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(t)
	return strings.Join(out, "/")
}

// withArgs writes a key of an accessor with the arguments of a call.
func withArgs(k *Term, args []*Term) string {
	s := k.String()
	for i := len(args); i > 0; i-- {
		s = strings.ReplaceAll(s, "$"+string(rune('0'+i)), args[i-1].String())
	}
	return s
}

// accessor: the function behind a kept call.
func (c *Ctx) accessor(call *Term) *ssa.Function {
	if call.Op != OpCall {
		return nil
	}
	for _, f := range c.su.byName[call.Name] {
		if c.su.direct[f] != 0 {
			return f
		}
	}
	return nil
}

// readsFrom: the place a getter returns unchanged and completely.
func (c *Ctx) readsFrom(call *Term) (place, string) {
	fn := c.accessor(call)
	if fn == nil {
		return place{}, "is not read from the store"
	}
	return c.readsFromFn(fn, call.Args)
}

func (c *Ctx) readsFromFn(fn *ssa.Function, args []*Term) (place, string) {
	r := c.rootFn(fn, shortName(fn), "+store", storeMode)
	var p place
	n := 0
	for _, x := range r.rets {
		v := x.vals[0]
		for _, o := range alts(v) {
			var q place
			switch {
			case o.Op == OpCall && o.Name == "fold" && len(o.Args) >= 2:
				q.many = true
				st := o.Args[1]
				ok := st.Op == OpCall && st.Name == "append" && st.Args[0].Op == OpParam && st.Args[1].Op == OpList && len(st.Args[1].Args) == 1
				if ok {
					if fs, src := c.fromKey(r.e, st.Args[1].Args[0]); src != nil {
						q.conv = "key " + fs
						q.store = prefixesOf(src.Args[0])
						break
					}
					it := st.Args[1].Args[0]
					q.conv = "raw"
					if it.Op == OpCall && it.Name == "unmarshal" {
						q.conv = "marshal"
						it = it.Args[0]
					}
					if ok = it.Op == OpField && it.Name == ".Value" && it.Args[0].Op == OpElem || it.Op == OpField && it.Name == "Value" && it.Args[0].Op == OpElem; ok {
						src := it.Args[0].Args[0]
						ok = wholePrefix(src)
						if ok {
							q.store = prefixesOf(src.Args[0])
						}
					}
				}
				if !ok {
					return p, "is not every record of a prefix: " + clip(o.String())
				}
			default:
				g := o
				q.conv = "raw"
				if g.Op == OpCall && g.Name == "unmarshal" {
					q.conv = "marshal"
					g = g.Args[0]
				}
				if g.Op == OpRes {
					g = g.Args[0]
				}
				switch {
				case g.Op == OpCall && g.Name == "store.Get":
					q.store = prefixesOf(g.Args[0])
					q.key = withArgs(g.Args[1], args)
				case g.Op == OpCall && strings.HasSuffix(g.Name, "Item.Get"):
					q.store = prefixesOf(g.Args[0])
					q.conv = "marshal"
				case !o.contains(func(y *Term) bool {
					return y.Op == OpCall && (strings.HasPrefix(y.Name, "store.") || strings.HasPrefix(y.Name, "iter.") || strings.HasSuffix(y.Name, "Iterator"))
				}):
					continue // nothing stored
				default:
					return p, "is not the stored record: " + clip(o.String())
				}
			}
			if n > 0 && p != q {
				return p, "is read from different places"
			}
			p = q
			n++
		}
	}
	if n == 0 {
		return p, "is not read from the store"
	}
	return p, ""
}

func fieldOf(t *Term) string { return strings.TrimPrefix(t.Name, ".") }

// fromKey: a record whose every field is cut out of the key it is stored under,
// without a gap and at places that do not depend on the length of a text.
func (c *Ctx) fromKey(e *Engine, t *Term) (string, *Term) {
	root, fs := structFields(t)
	if root == nil || root.Op != OpZero || len(fs) == 0 {
		return "", nil
	}
	var key *Term
	next := map[*Term]string{}
	for _, f := range sortedKeys(fs) {
		v := fs[f]
		if v.Op != OpCall || v.Name != "slice" || len(v.Args) != 3 {
			return "", nil
		}
		if key != nil && v.Args[0] != key {
			return "", nil
		}
		key = v.Args[0]
		next[v.Args[1]] = f
	}
	if key.Op != OpField || fieldOf(key) != "Key" || key.Args[0].Op != OpElem {
		return "", nil
	}
	src := key.Args[0].Args[0]
	if !wholePrefix(src) {
		return "", nil
	}
	var out []string
	at := e.in.Zero
	for {
		f, ok := next[at]
		if !ok {
			return "", nil
		}
		out = append(out, f)
		delete(next, at)
		end := fs[f].Args[2]
		if len(next) == 0 {
			if end != e.in.Nil && end != e.in.length(key) {
				return "", nil
			}
			break
		}
		if _, isInt := end.intVal(); isInt && isStringField(c, root.Name, f) {
			return "", nil
		}
		at = end
	}
	return strings.Join(out, ","), src
}

func isStringField(c *Ctx, typ, f string) bool {
	i := strings.IndexByte(typ, '.')
	if i < 0 {
		return true
	}
	st, ok := c.typeNamed(typ[:i], typ[i+1:]).Underlying().(*types.Struct)
	if !ok {
		return true
	}
	for j := 0; j < st.NumFields(); j++ {
		if st.Field(j).Name() == f {
			return isString(st.Field(j).Type())
		}
	}
	return true
}

// wholePrefix: an iterator over everything in its store.
func wholePrefix(src *Term) bool {
	if src.Op != OpCall {
		return false
	}
	if strings.HasSuffix(src.Name, "KVStorePrefixIterator") && len(src.Args) == 2 {
		a := src.Args[1]
		return a.Op == OpList && len(a.Args) == 0 || a.isConst() && a.Name == "nil"
	}
	return src.Name == "store.Iterator" && len(src.Args) == 3 && src.Args[1].Name == "nil" && src.Args[2].Name == "nil"
}

func alts(t *Term) []*Term {
	if t.Op == OpIte {
		return append(alts(t.Args[1]), alts(t.Args[2])...)
	}
	return []*Term{t}
}

type written struct {
	place
	val  *Term
	arg  int // the parameter that is stored, from 1; 0: none
	keyT *Term
}

// writesTo: what a setter stores on every path.
func (c *Ctx) writesTo(call *Term) []written {
	fn := c.accessor(call)
	if fn == nil {
		return nil
	}
	r := c.rootFn(fn, shortName(fn), "+store", storeMode)
	var out []written
	cnt := map[*Term]int{}
	var order []*Term
	for _, x := range r.rets {
		for _, f := range x.st.facts {
			if f.Op == OpDid && (f.Args[0].Name == "store.Set" || f.Args[0].Name == "coll.Set") {
				if cnt[f.Args[0]] == 0 {
					order = append(order, f.Args[0])
				}
				cnt[f.Args[0]]++
			}
		}
	}
	for _, w := range order {
		if cnt[w] != len(r.rets) {
			continue
		}
		var q written
		q.store = prefixesOf(w.Args[0])
		v := w.Args[len(w.Args)-1]
		if w.Name == "store.Set" {
			q.key = withArgs(w.Args[1], call.Args)
			q.keyT = w.Args[1]
			q.conv = "raw"
			if v.Op == OpCall && v.Name == "marshal" {
				q.conv = "marshal"
				v = v.Args[0]
			}
		} else {
			q.conv = "marshal"
		}
		q.val = v
		if k := w.Args[1]; w.Name == "store.Set" && k.Op == OpCall && k.Name == "key" && q.conv == "raw" {
			// the record is in the key
			var fs []string
			arg := 0
			for _, a := range k.Args {
				b := a
				for b.Op == OpField {
					b = b.Args[0]
				}
				n := 0
				if b.Op == OpParam && strings.HasPrefix(b.Name, "$") {
					n = int(b.Name[1] - '0')
				}
				if a.Op != OpField || n == 0 || arg > 0 && arg != n {
					fs = nil
					break
				}
				arg = n
				fs = append(fs, fieldOf(a))
			}
			if fs != nil {
				out = append(out, written{place{q.store, "", true, "key " + strings.Join(fs, ",")}, v, arg, k})
			}
		}
		if v.Op == OpParam && strings.HasPrefix(v.Name, "$") {
			q.arg = int(v.Name[1] - '0')
		} else if v.Op == OpObj && strings.HasPrefix(v.Name, "param:$") {
			q.arg = int(v.Name[7] - '0')
		}
		out = append(out, q)
	}
	return out
}

func init() {
	regT("C33", "comparison of the store locations of exported and imported records by symbolic execution, and prefix write-set inclusion over the call graph", "InitGenesis and ExportGenesis of every module with state are executed symbolically, and the getters and setters they use are executed down to the primitive store operations. Checked: every field of the genesis record is filled from the store; the getter returns every record under one prefix, decoded and nothing else, or the one record under one key; import stores every element of that field, on every path, under the same prefix and key and in the same encoding; every prefix written by any message, block step or upgrade is written by an import; the member counts, active stakers and the stake order are rebuilt for every imported record.",
		func(c *Ctx) {
			ms := c.genesisModules()
			c.extra["modules"] = len(ms)
			for _, m := range ms {
				m := m
				c.sec(m, func() {
					exp, imp := c.appRoot(m, "export"), c.appRoot(m, "genesis")
					gs := c.typeNamed(m, "GenesisState")
					st := gs.Underlying().(*types.Struct)
					for _, x := range exp.rets {
						v := x.vals[0]
						for v.Op == OpCall && (v.Name == "marshal" || len(v.Args) == 1) {
							v = v.Args[0]
						}
						_, fs := structFields(v)
						for i := 0; i < st.NumFields(); i++ {
							f := st.Field(i).Name()
							if strings.HasPrefix(f, "XXX_") {
								continue
							}
							name := m + "." + f
							t := fs[f]
							if !c.check(t != nil, name+" exported", x.pos, "%s of the exported genesis is not filled", name) {
								continue
							}
							from, bad := c.readsFrom(x.st.simp(t))
							if !c.check(bad == "", name+" exported", x.pos, "%s of the exported genesis %s", name, bad) {
								continue
							}
							// every path of the import stores it where it came from
							in := "unmarshal($2)." + f
							if from.many {
								in = "elem(" + in + ")"
							}
							for _, y := range imp.rets {
								ok := false
								for _, d := range y.st.facts {
									if d.Op != OpDid {
										continue
									}
									for _, w := range c.writesTo(d.Args[0]) {
										if w.arg > 0 && w.arg <= len(d.Args[0].Args) && imp.same(y.st, in, d.Args[0].Args[w.arg-1], y.b.copy()) && w.store == from.store && w.conv == from.conv && (from.many || w.key == from.key) {
											ok = true
											if from.many {
												imp.fullLoop(strings.TrimSuffix(strings.TrimPrefix(in, "elem("), ")"), d.Args[0].Name)
											}
										}
									}
								}
								c.check(ok, name+" imported", y.pos, "%s is exported from %s (%s) but import does not put every record of it back there", name, from.store, from.conv)
							}
						}
					}
				})
			}
			c.sec("derived records", func() {
				r := c.appRoot("stakers", "genesis")
				L := "unmarshal($2).ValaccountList"
				r.everyElem("stakers.setStat(elem("+L+").PoolId, stakers.STAKER_STATS_COUNT, 1 + stakers.getStat(elem("+L+").PoolId, stakers.STAKER_STATS_COUNT))", L)
				r.everyElem("stakers.AddActiveStaker(elem("+L+").Staker)", L)
				r.count(1, "stakers.setStat")
				r.count(1, "stakers.AddActiveStaker")
				// the orders kept in memory are built in the first begin block
				first := []string{"!delegation.memStoreInitialized"}
				d := c.appRoot("delegation", "begin")
				d.everyElemWhen(first, "delegation.SetStakerIndex(elem(delegation.GetAllDelegationData()).Staker)", "delegation.GetAllDelegationData()")
				d.everyElemWhen(first, "delegation.SetStakerIndex(elem(stakers.GetAllStakers()).Address)", "stakers.GetAllStakers()")
				c.appRoot("bundles", "begin").everyElemWhen([]string{"!bundles.memStoreInitialized"}, "bundles.SetFinalizedBundleIndexes(elem(bundles.GetAllFinalizedBundles()))", "bundles.GetAllFinalizedBundles()")
				// and not before, from a part of the state
				for _, e := range c.entries() {
					for g := range c.su.reach(e.fn) {
						for _, st := range globalStores(g, "memStoreInitialized") {
							c.check(e.kind == "begin" || e.kind == "ante" || e.kind == "post", shortName(g)+" in "+e.kind, st.Pos(), "%s, which builds the order kept in memory only once, can be called from %s, before the state is complete", shortName(g), shortName(e.fn))
						}
					}
				}
			})
			c.sec("every kind of record", func() {
				kinds := map[string]bool{}
				for k := range consensusKinds {
					kinds[k] = true
				}
				delete(kinds, "genesis")
				w := map[string]*ssa.Function{}
				for f := range c.reachableFrom(kinds) {
					if c.su.direct[f]&dWrite == 0 || !strings.Contains(fnPkgPath(f), "/x/") {
						continue
					}
					for k := range c.su.writes[f] {
						w[k] = f
					}
				}
				restored := map[string]bool{}
				for _, e := range c.entries() {
					if e.kind == "genesis" {
						for k := range c.su.writes[e.fn] {
							restored[k] = true
						}
					}
					if e.kind == "begin" { // rebuilt in memory
						for f := range c.su.reach(e.fn) {
							if c.su.direct[f]&dWrite != 0 && c.opensOnly(f, "MemoryStoreService") {
								for k := range c.su.writes[f] {
									restored[k] = true
								}
							}
						}
					}
				}
				for _, k := range sortedKeys(w) {
					c.check(restored[k], k, w[k].Pos(), "records under %s are written by %s, but importing a genesis never writes them", k, shortName(w[k]))
				}
				c.extra["prefixes"] = sortedKeys(w)
			})
		})
}

// recordKey: the fields of a record which make up the key it is imported under.
func (c *Ctx) recordKey(mod, field string) []string {
	imp := c.appRoot(mod, "genesis")
	for _, y := range imp.rets {
		for _, d := range y.st.facts {
			if d.Op != OpDid {
				continue
			}
			for _, w := range c.writesTo(d.Args[0]) {
				if w.arg == 0 || w.arg > len(d.Args[0].Args) || w.keyT == nil {
					continue
				}
				if imp.same(y.st, "elem(unmarshal($2)."+field+")", d.Args[0].Args[w.arg-1], y.b.copy()) {
					return projections(w.keyT, func(b *Term) bool { return true })
				}
			}
		}
	}
	return nil
}

// projections: the fields of the base terms mentioned in a term.
func projections(t *Term, base func(*Term) bool) []string {
	set := map[string]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.Op == OpField && (t.Args[0].Op == OpElem || t.Args[0].Op == OpParam || t.Args[0].Op == OpObj) {
			if base(t.Args[0]) {
				set[fieldOf(t)] = true
			}
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(t)
	return sortedKeys(set)
}

func init() {
	regT("C34", "path-sensitive symbolic execution of the genesis validation; map-based duplicate searches are recognised as such and compared with the store keys of the import",
		"Every path on which the genesis validation of a module succeeds is analysed. It must establish: every queue entry lies within the bounds of its own queue, every listed id is below the stored counter, the module's own parameter validation accepted the parameters; and, for each list of the genesis document, that no two records share a key. The key of a record is not written into the rule: it is derived from the import, from the store key under which InitGenesis puts a record of that list, reduced to the fields of the record it is built from, and the duplicate search of the validation must be over exactly these fields of exactly this list.",
		func(c *Ctx) {
			for _, m := range c.genesisModules() {
				m := m
				c.sec(m, func() {
					var o []opt
					hasParams := len(c.su.byName[m+".Params.Validate"]) > 0
					if hasParams {
						o = append(o, keep(m+".Params.Validate"))
					}
					r := c.root(m+".AppModuleBasic.ValidateGenesis", append(o, inlineAll)...)
					gs := c.typeNamed(m, "GenesisState")
					st := gs.Underlying().(*types.Struct)
					succ := r.success()
					c.check(len(succ) > 0, m+" success", r.fn.Pos(), "the genesis of %s is never valid", m)
					var g string
					for _, x := range succ {
						for _, f := range x.st.facts {
							f.contains(func(y *Term) bool {
								if y.Op == OpCall && y.Name == "unmarshal" {
									g = y.String()
								}
								return false
							})
						}
					}
					if !c.check(g != "", m+" decoded", r.fn.Pos(), "the genesis of %s is not decoded", m) {
						return
					}
					conds := []string{}
					extra := map[string][]string{
						"delegation": {"elem(G.UndelegationQueueEntryList).Index <= G.QueueStateUndelegation.HighIndex", "G.QueueStateUndelegation.LowIndex <= elem(G.UndelegationQueueEntryList).Index"},
						"stakers":    {"elem(G.CommissionChangeEntries).Index <= G.QueueStateCommission.HighIndex", "G.QueueStateCommission.LowIndex <= elem(G.CommissionChangeEntries).Index", "elem(G.LeavePoolEntries).Index <= G.QueueStateLeave.HighIndex", "G.QueueStateLeave.LowIndex <= elem(G.LeavePoolEntries).Index"},
						"pool":       {"elem(G.PoolList).Id < G.PoolCount"},
						"team":       {"elem(G.AccountList).Id < G.AccountCount", "G.Authority.RewardsClaimed <= G.Authority.TotalRewards"},
					}
					for _, x := range extra[m] {
						conds = append(conds, strings.ReplaceAll(x, "G.", g+"."))
					}
					if hasParams {
						conds = append(conds, m+".Params.Validate("+g+".Params).err == nil")
					}
					r.always(conds...)
					for i := 0; i < st.NumFields(); i++ {
						f := st.Field(i).Name()
						sl, ok := st.Field(i).Type().Underlying().(*types.Slice)
						if !ok || namedOf(sl.Elem()) == nil {
							continue
						}
						key := c.recordKey(m, f)
						if !c.check(len(key) > 0, m+"."+f+" key", r.fn.Pos(), "the store key of the records in %s.%s is not found", m, f) {
							continue
						}
						for _, x := range succ {
							ok := false
							var seen []string
							for _, a := range x.st.facts {
								if a.Op != OpNot || a.Args[0].Op != OpCall || a.Args[0].Name != "dup" || !r.same(x.st, g+"."+f, a.Args[0].Args[0], x.b.copy()) {
									continue
								}
								p := projections(a.Args[0].Args[1], func(b *Term) bool { return b.Op == OpElem && b.Args[0] == a.Args[0].Args[0] })
								seen = append(seen, strings.Join(p, ","))
								ok = ok || strings.Join(p, ",") == strings.Join(key, ",")
							}
							c.check(ok, m+"."+f+" duplicates", x.pos, "a genesis with two records of %s.%s under one key (%s) is valid (duplicates are searched by: %s)", m, f, strings.Join(key, ","), strings.Join(seen, "; "))
						}
					}
				})
			}
		})
}

func (c *Ctx) typeNamed(mod, name string) *types.Named {
	for _, p := range c.pr.Repo {
		if moduleOf(p.Path) == mod {
			if o, ok := p.Types.Scope().Lookup(name).(*types.TypeName); ok {
				if n, ok := o.Type().(*types.Named); ok {
					return n
				}
			}
		}
	}
	bail("type %s.%s not found", mod, name)
	return nil
}
