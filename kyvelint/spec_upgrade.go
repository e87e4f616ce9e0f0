package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C45: the v1.5 upgrade

// oldGetter reads one kind of records in the format of the previous release.
type oldGetter struct {
	fn   *ssa.Function
	mod  string
	old  *types.Named // the record
	many bool
}

const oldTypes = "/v1_4_types/"

// oldGetters: every function of the packages of the previous formats that
// returns records of such a format.
func (c *Ctx) oldGetters() []oldGetter {
	var out []oldGetter
	for _, f := range c.pr.Funcs {
		path := fnPkgPath(f)
		i := strings.Index(path, oldTypes)
		if i < 0 || f.Parent() != nil || f.Signature.Recv() != nil || f.Synthetic != "" || isPB(c.pr, f) || f.Signature.Results().Len() != 1 {
			continue
		}
		t := f.Signature.Results().At(0).Type()
		g := oldGetter{fn: f, mod: path[i+len(oldTypes):]}
		if s, ok := t.Underlying().(*types.Slice); ok {
			g.many = true
			t = s.Elem()
		}
		if n := namedOf(t); n != nil && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == path || moduleOf(n.Obj().Pkg().Path()) == g.mod) {
			if o := c.oldMsg(g.mod, n.Obj().Name()); o != nil {
				n = o // decoded with the new type
			}
			if _, ok := n.Underlying().(*types.Struct); ok {
				g.old = n
				out = append(out, g)
			}
		}
	}
	return out
}

// newlySet: fields whose meaning changes with the upgrade, with the new value.
var newlySet = map[string]string{
	"pool.Pool.InflationShareWeight": "1", // the unit changed, every pool had the same weight
}

// dropped: fields of the previous release that are not carried over.
var dropped = map[string]string{
	"bundles.Params.StorageCost": "replaced by one cost per storage provider",
}

func recordType(t *Term) *types.Named {
	for t != nil {
		switch t.Op {
		case OpStruct:
			t = t.Args[0]
			continue
		case OpZero:
			return namedOf(t.Typ)
		}
		return nil
	}
	return nil
}

func fieldsOf(t types.Type) []*types.Var {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out []*types.Var
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Exported() && !strings.HasPrefix(s.Field(i).Name(), "XXX") {
			out = append(out, s.Field(i))
		}
	}
	return out
}

func fieldNamed(t types.Type, n string) *types.Var {
	for _, f := range fieldsOf(t) {
		if f.Name() == n {
			return f
		}
	}
	return nil
}

// carried: the value the field must have when the old value is b.
func (r *Root) carried(b *Term, ot, nt types.Type) *Term {
	on, nn := namedOf(ot), namedOf(nt)
	name := func(n *types.Named) string {
		if n == nil {
			return ""
		}
		return n.Obj().Name()
	}
	_, op := ot.Underlying().(*types.Pointer)
	_, np := nt.Underlying().(*types.Pointer)
	if op && np && on != nil && nn != nil && on != nn {
		rec := r.e.in.zeroOf(nn)
		for _, f := range fieldsOf(nt) {
			if of := fieldNamed(ot, f.Name()); of != nil {
				rec = r.e.in.update(rec, []string{f.Name()}, r.carried(r.e.in.field(b, f.Name()), of.Type(), f.Type()))
			}
		}
		return r.e.in.ite(r.e.in.eq(b, r.e.in.Nil), r.e.in.Nil, rec)
	}
	switch {
	case name(nn) == "Coins" && name(on) != "Coins":
		return r.e.T("coins(coin(global.Denom, _b))", binds{"_b": b})
	case name(nn) == "DecCoins" && name(on) != "DecCoins":
		return r.e.T("types.NewDecCoins(list(types.NewDecCoinFromDec(global.Denom, _b)))", binds{"_b": b})
	}
	return b
}

// storeNamed: does the term stand for the store of the module?
func storeNamed(st *State, t *Term, name string) bool {
	found := false
	isName := func(y *Term) {
		if s, ok := strOf(y); ok && s == name {
			found = true
		}
	}
	walkTerms(t, isName)
	if found {
		return true
	}
	for _, f := range st.facts {
		uses := false
		walkTerms(f, func(y *Term) { uses = uses || y == t })
		if uses {
			walkTerms(f, isName)
		}
	}
	return found
}

func init() {
	regT("C45", "path-sensitive symbolic execution of the upgrade handler, over record kinds and fields enumerated from the types of the previous and the current release",
		"Every getter of the packages holding the previous formats is enumerated and shown to return every record of the prefix (or the single record of the key) the current keeper stores that kind under, from the store of its own module. In the upgrade handler, executed with everything it calls, each list so read is run through completely and for every element one record of the same name in the new format is stored, each parameter set is stored on every path; every field both formats have carries the old value (amounts as that amount of the native coin), fields only the new format has are set, and fields only the old format has appear in the new record or are listed. The handler writes nothing else but the governance parameters, the migrated proposals and the plans of scheduled runtime upgrades, runs the module migrations once on every path and returns their result. Pool creations inside stored proposals copy each field, every proposal that can be decoded is written back under its own key with only its messages and texts changed, and no store of a module in use is deleted.",
		func(c *Ctx) {
			gs := c.oldGetters()
			c.sec("previous formats", func() {
				c.check(len(gs) >= 8, "getters", 0, "only %d getters of the previous formats found", len(gs))
			})
			var up *Root
			handler := func() *Root {
				if up != nil {
					return up
				}
				for _, s := range c.root("app.New").find("upgrade.SetUpgradeHandler") {
					f := s.root.funcOf(s.arg(1))
					if f == nil || f.Blocks == nil {
						bail("the upgrade handler is not a function of the repository")
					}
					var o []opt
					if len(c.su.byName["app.MustGetStoreKey"]) > 0 {
						o = append(o, keep("app.MustGetStoreKey"))
					}
					up = c.rootFn(f, "upgrade handler", "upgrade", o...)
				}
				if up == nil {
					bail("no upgrade handler is set")
				}
				return up
			}
			for _, g := range gs {
				g := g
				kind := g.mod + "." + g.old.Obj().Name()
				c.sec(kind, func() {
					r := handler()
					nt := c.typeNamed(g.mod, g.old.Obj().Name())
					sites := 0
					for _, s := range r.sites {
						if strings.HasPrefix(s.Name, "emit.") || len(s.call.Args) == 0 {
							continue
						}
						var rec *Term
						for i := range s.call.Args {
							if t := s.state().simp(s.arg(i)); recordType(t) == nt {
								rec = t
							}
						}
						if rec == nil {
							continue
						}
						sites++
						// where the old record comes from
						var src *Term
						walkTerms(rec, func(t *Term) {
							if t.Op == OpCall && t.Name == shortName(g.fn) && (src == nil || src == t) {
								src = t
							}
						})
						if !c.check(src != nil, s.Name+" source", s.Pos, "%s is not made from a record of the previous release", s.Name) {
							continue
						}
						var key *Term
						for i, p := range g.fn.Params {
							// the arguments of the call without the context
							if strings.HasSuffix(typeName(p.Type()), ".StoreKey") {
								key = src.Args[i-1]
							}
						}
						c.check(key != nil && storeNamed(s.state(), key, g.mod), s.Name+" store", s.Pos, "the old records of %s are read from the store %s", kind, clip(src.String()))
						b := src
						if g.many {
							b = r.e.T("elem(_l)", binds{"_l": src})
							var in *LoopInfo
							for _, l := range s.Loops {
								for el := range l.elems {
									if e := r.e.canon(el); e == b || s.state().simp(e) == b {
										in = l
									}
								}
							}
							if c.check(in != nil, s.Name+" loop", s.Pos, "%s is not in a loop over the old records", s.Name) {
								c.check(len(in.early) == 0, s.Name+" loop complete", s.Pos, "the loop over the old records around %s can end early", s.Name)
							}
						} else {
							c.check(len(s.Loops) == 0, s.Name+" once", s.Pos, "%s is in a loop", s.Name)
						}
						for _, f := range fieldsOf(nt) {
							got := s.state().simp(r.e.in.field(rec, f.Name()))
							of := fieldNamed(g.old, f.Name())
							id := kind + "." + f.Name()
							switch {
							case newlySet[id] != "":
								w := s.state().simp(r.e.T(newlySet[id], nil))
								c.check(got == w, id, s.Pos, "%s becomes %s instead of %s", id, clip(got.String()), newlySet[id])
							case of != nil:
								w := s.state().simp(r.carried(r.e.in.field(b, f.Name()), of.Type(), f.Type()))
								c.check(got == w, id, s.Pos, "%s is not carried over: it becomes %s instead of %s", id, clip(got.String()), clip(w.String()))
							default:
								c.check(got.Op != OpZero && got != r.e.in.Nil && got != r.e.in.zeroOf(f.Type()), id, s.Pos, "the new field %s is left empty", id)
							}
						}
						for _, f := range fieldsOf(g.old) {
							if fieldNamed(nt, f.Name()) != nil || dropped[kind+"."+f.Name()] != "" {
								continue
							}
							w := r.e.in.field(b, f.Name())
							found := false
							walkTerms(rec, func(t *Term) { found = found || t == w })
							c.check(found, kind+"."+f.Name(), s.Pos, "%s.%s is not carried over", kind, f.Name())
						}
						// on every path
						for _, x := range r.rets {
							c.check(hasDid(x.st, s.call) || r.didCall(x.st, s.call), s.Name+" on every path", x.pos, "the upgrade can return without %s for every record", s.Name)
						}
						// the same place
						from, why := c.readsFromFn(g.fn, src.Args)
						if !c.check(why == "", kind+" read", g.fn.Pos(), "%s %s", shortName(g.fn), why) {
							continue
						}
						c.check(from.many == g.many && from.conv == "marshal", kind+" read", g.fn.Pos(), "%s does not return the stored records", shortName(g.fn))
						same := false
						for _, w := range c.writesThrough(s.call) {
							if g.many {
								same = same || lastSegment(w.store) != "" && lastSegment(w.store) == lastSegment(from.store)
							} else {
								k := w.key
								if k == "" {
									k = c.itemKey(g.mod, lastSegment(w.store))
								}
								same = same || k != "" && k == from.key
							}
						}
						c.check(same, kind+" place", s.Pos, "%s does not write where the old %s are read (%s %s)", s.Name, kind, from.store, from.key)
					}
					c.check(sites == 1, kind+" migrated", r.fn.Pos(), "the upgrade stores %s in the new format at %d places instead of one", kind, sites)
				})
			}
			c.sec("nothing else", func() {
				r := handler()
				r.effects("funders.SetParams", "funders.SetFunding", "delegation.SetDelegationEntry", "delegation.SetDelegationData", "stakers.Migration_SetStaker",
					"bundles.SetParams", "pool.SetParams", "pool.SetPool", "app.migrateOldGovProposals", "emit.EventUpdateParams", "emit.EventPoolUpdated", "emit.EventRuntimeUpgradeScheduled")
				for _, s := range r.find("pool.SetPool") {
					t := s.state().simp(s.arg(0))
					if recordType(t) != nil {
						continue
					}
					s.changes(0, "elem(pool.GetAllPools())", map[string]string{"UpgradePlan": "_"})
					s.guard("elem(pool.GetAllPools()).UpgradePlan.ScheduledAt == 0")
				}
			})
			c.sec("module migrations", func() {
				r := handler()
				n := 0
				for _, x := range r.rets {
					n++
					for i, want := range []string{"val", "err"} {
						v := x.vals[i]
						ok := v.Op == OpRes && v.Name == want && v.Args[0].Op == OpCall && strings.HasSuffix(v.Args[0].Name, ".RunMigrations")
						c.check(ok, "RunMigrations "+want, x.pos, "the upgrade returns %s instead of the result of the module migrations", clip(v.String()))
					}
				}
				c.check(n > 0, "handler returns", r.fn.Pos(), "the upgrade handler never returns")
				calls := 0
				reach := c.su.reach(r.fn)
				reach[r.fn] = nil
				for f := range reach {
					for _, x := range c.extCalls(f) {
						if strings.HasSuffix(x.name, ".RunMigrations") {
							calls++
							c.check(f == r.fn && !inLoop(x.ins.Block()), "RunMigrations once", x.ins.Pos(), "the module migrations can run more than once")
						}
					}
				}
				c.check(calls == 1, "RunMigrations calls", r.fn.Pos(), "the module migrations are run at %d places", calls)
			})
			c.sec("store keys", func() {
				for _, f := range c.su.byName["app.MustGetStoreKey"] {
					r := c.rootFn(f, "app.MustGetStoreKey", "0")
					for _, x := range r.rets {
						el := r.e.T("elem($1)", nil)
						named := false
						for _, f := range x.st.facts {
							has := func(w *Term) bool { return f.contains(func(y *Term) bool { return y == w }) }
							named = named || f.Op == OpEq && has(el) && has(r.e.T("$2", nil))
						}
						c.check(x.vals[0] == x.st.simp(el) && named, "store key", x.pos, "app.MustGetStoreKey can return the key of another store")
					}
				}
				r := c.root("app.CreateStoreLoader")
				mods := c.appModules()
				n := 0
				for _, x := range r.rets {
					for _, v := range x.vals {
						walkTerms(v, func(t *Term) {
							if s, ok := strOf(t); ok {
								n++
								used := false
								for m := range mods {
									used = used || m == s
								}
								for _, m := range []string{"acc", "ibc", "transfer", "capability"} {
									used = used || m == s
								}
								c.check(!used, "deleted store "+s, x.pos, "the upgrade deletes the store %s of a module that is in use", s)
							}
						})
					}
				}
				c.check(n > 0, "store upgrades", r.fn.Pos(), "no store upgrades found")
			})
			c.sec("proposals", func() {
				// pool creations inside proposals
				n := 0
				reach := c.su.reach(handler().fn)
				nt := c.typeNamed("pool", "MsgCreatePool")
				for f := range reach {
					for _, b := range f.Blocks {
						for _, ins := range b.Instrs {
							a, ok := ins.(*ssa.Alloc)
							if !ok || namedOf(a.Type()) != nt {
								continue
							}
							vals := map[string]ssa.Value{}
							whole := false // the copy of another one
							for _, ref := range *a.Referrers() {
								if st, ok := ref.(*ssa.Store); ok && st.Addr == a {
									whole = true
								}
								if fa, ok := ref.(*ssa.FieldAddr); ok {
									for _, r2 := range *fa.Referrers() {
										if st, ok := r2.(*ssa.Store); ok && st.Addr == fa {
											vals[fieldName(fa)] = st.Val
										}
									}
								}
							}
							if whole && len(vals) == 0 {
								continue
							}
							n++
							for _, fl := range fieldsOf(nt) {
								v := vals[fl.Name()]
								from, old := copiedField(v)
								if old != nil && fieldNamed(old, fl.Name()) == nil || old == nil && (v == nil || isConst(v)) {
									ot := c.oldMsg("pool", "MsgCreatePool")
									if ot != nil && fieldNamed(ot, fl.Name()) == nil {
										continue // new field
									}
								}
								c.check(from == fl.Name() && old != nil && old.Obj().Name() == "MsgCreatePool", "MsgCreatePool."+fl.Name(), a.Pos(), "%s of a pool creation inside a proposal is not carried over", fl.Name())
							}
						}
					}
				}
				c.check(n == 1, "pool creations", 0, "pool creations inside proposals are rewritten at %d places", n)
				r := c.root("app.migrateOldGovProposals", storeMode)
				sets := r.find("store.Set")
				c.check(len(sets) > 0, "proposals", r.fn.Pos(), "migrated proposals are not stored")
				for _, s := range sets {
					key := s.state().simp(s.arg(1))
					ok := key.Op == OpField && fieldOf(key) == "Key" && key.Args[0].Op == OpElem && wholePrefix(key.Args[0].Args[0])
					c.check(ok, "proposal key", s.Pos, "a migrated proposal is stored under %s", clip(key.String()))
					v := s.state().simp(s.arg(2))
					var rec *Term
					walkTerms(v, func(t *Term) {
						if t.Op == OpCall && strings.HasSuffix(t.Name, "Proposal.Marshal") && len(t.Args) == 1 {
							rec = t.Args[0]
						}
					})
					if !c.check(ok && rec != nil, "proposal value", s.Pos, "what is stored is not a proposal: %s", clip(v.String())) {
						continue
					}
					root, fs := structFields(rec)
					c.check(root.Op == OpCall && root.Name == "unmarshal" && root.Args[0].Op == OpField && root.Args[0].Args[0] == key.Args[0], "proposal base", s.Pos, "the stored proposal is not the one read under the same key: %s", clip(root.String()))
					for f, t := range fs {
						switch f {
						case "Messages":
						case "Title", "Summary", "Proposer":
							for _, o := range alts(t) {
								kept := o == r.e.in.field(root, f)
								o2 := o
								c.check(kept || o2.Op == OpField && o2.Args[0].contains(func(y *Term) bool { return y == r.e.in.field(root, "Id") }), "proposal "+f, s.Pos, "%s of a proposal becomes %s", f, clip(o.String()))
							}
						default:
							c.check(false, "proposal "+f, s.Pos, "%s of a proposal is changed", f)
						}
					}
				}
			})
		})
}

// writesThrough: where the call writes, itself or through a function it hands
// its arguments to.
func (c *Ctx) writesThrough(call *Term) []written {
	if ws := c.writesTo(call); len(ws) > 0 {
		return ws
	}
	var out []written
	for _, f := range c.su.byName[call.Name] {
		for _, s := range c.rootFn(f, shortName(f), "+through", keep(), storeMode).sites {
			if !strings.HasPrefix(s.Name, "emit.") && c.accessor(s.call) != nil {
				out = append(out, c.writesTo(s.call)...)
			}
			if s.Name == "store.Set" && len(s.call.Args) > 1 {
				out = append(out, written{place: place{store: prefixesOf(s.call.Args[0])}})
			}
		}
	}
	return out
}

func lastSegment(s string) string {
	s = s[strings.LastIndexByte(s, '/')+1:]
	if s == "storeService" {
		return ""
	}
	return s
}

// itemKey: the store key of a single value kept in a field of the keeper.
func (c *Ctx) itemKey(mod, field string) string {
	for _, f := range c.pr.Funcs {
		if moduleOf(fnPkgPath(f)) != mod {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				call, ok2 := st.Val.(*ssa.Call)
				if !ok || !ok2 || fieldName(fa) != field || call.Call.StaticCallee() == nil || !strings.Contains(call.Call.StaticCallee().String(), "collections.NewItem") {
					continue
				}
				if u, ok := call.Call.Args[1].(*ssa.UnOp); ok {
					if g, ok := u.X.(*ssa.Global); ok {
						return "@" + mod + "." + g.Name()
					}
				}
			}
		}
	}
	return ""
}

// oldMsg: a type of the previous formats.
func (c *Ctx) oldMsg(mod, name string) *types.Named {
	for _, p := range c.pr.Repo {
		if strings.HasSuffix(p.Path, oldTypes+mod) {
			if o, ok := p.Types.Scope().Lookup(name).(*types.TypeName); ok {
				return namedOf(o.Type())
			}
		}
	}
	return nil
}

func isConst(v ssa.Value) bool {
	_, ok := v.(*ssa.Const)
	return ok
}

// copiedField: the field a value is a copy of, through conversions and the
// constructors of decimals and integers.
func copiedField(v ssa.Value) (string, *types.Named) {
	for i := 0; v != nil && i < 10; i++ {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.UnOp:
			fa, ok := x.X.(*ssa.FieldAddr)
			if !ok {
				return "", nil
			}
			return fieldName(fa), namedOf(fa.X.Type())
		case *ssa.Call:
			fn := x.Call.StaticCallee()
			if fn == nil || fn.Pkg == nil || fn.Pkg.Pkg.Path() != "cosmossdk.io/math" || len(x.Call.Args) != 1 || !strings.Contains(fn.Name(), "New") {
				if fn != nil && strings.HasPrefix(fn.Name(), "Get") && len(x.Call.Args) == 1 {
					return strings.TrimPrefix(fn.Name(), "Get"), namedOf(x.Call.Args[0].Type())
				}
				return "", nil
			}
			v = x.Call.Args[0]
		default:
			return "", nil
		}
	}
	return "", nil
}

// strOf: the value of a string constant.
func strOf(t *Term) (string, bool) {
	if !t.isConst() || !strings.HasPrefix(t.Name, "\"") {
		return "", false
	}
	s, err := strconv.Unquote(t.Name)
	return s, err == nil
}

// inLoop: can the block be reached from itself?
func inLoop(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, b.Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if x == b {
			return true
		}
		if !seen[x] {
			seen[x] = true
			work = append(work, x.Succs...)
		}
	}
	return false
}
