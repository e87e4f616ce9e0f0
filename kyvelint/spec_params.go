package main

import (
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C35: the bounds of every stored parameter. Decimals and amounts must be set and
// must not be negative; the listed ones are fractions; the listed numbers must not
// be zero. The parameters are enumerated from the type of the parameter set, so a
// new parameter is covered by the rule for its type.
var paramFraction = map[string]bool{
	"bundles.NetworkFee":           true,
	"delegation.VoteSlash":         true,
	"delegation.UploadSlash":       true,
	"delegation.TimeoutSlash":      true,
	"global.BurnRatio":             true,
	"global.GasRefunds.Fraction":   true,
	"pool.ProtocolInflationShare":  true,
	"pool.PoolInflationPayoutRate": true,
	"pool.MaxVotingPowerPerPool":   true,
}

var paramNonZero = map[string]bool{
	"bundles.UploadTimeout":           true,
	"bundles.MaxPoints":               true,
	"funders.CoinWhitelist.CoinDenom": true,
}

// conditions on a whole parameter set
var paramWhole = map[string][]string{
	"funders": {"exists(SELF.CoinWhitelist, elem(SELF.CoinWhitelist).CoinDenom == global.Denom)"},
}

type paramLeaf struct {
	id   string   // module.Field[.Field]
	path []string // fields, "[]" for an element
	kind string   // dec, int, num, str
}

func (c *Ctx) paramLeaves(mod string) []paramLeaf {
	var out []paramLeaf
	var walk func(id string, path []string, t types.Type)
	walk = func(id string, path []string, t types.Type) {
		p := append([]string{}, path...)
		if x, ok := t.(*types.Pointer); ok {
			t = x.Elem()
		}
		if n := namedOf(t); n != nil {
			switch n.Obj().Name() {
			case "LegacyDec", "Dec":
				out = append(out, paramLeaf{id, p, "dec"})
				return
			case "Int", "Uint":
				out = append(out, paramLeaf{id, p, "int"})
				return
			}
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				walk(id+"."+u.Field(i).Name(), append(p, u.Field(i).Name()), u.Field(i).Type())
			}
		case *types.Slice:
			walk(id, append(p, "[]"), u.Elem())
		case *types.Basic:
			switch {
			case u.Info()&types.IsUnsigned != 0:
				out = append(out, paramLeaf{id, p, "num"})
			case u.Info()&types.IsInteger != 0:
				out = append(out, paramLeaf{id, p, "signed"})
			case u.Info()&types.IsString != 0:
				out = append(out, paramLeaf{id, p, "str"})
			case u.Info()&types.IsBoolean != 0:
			default:
				bail("parameter %s has type %s, for which there is no rule", id, t)
			}
		default:
			bail("parameter %s has type %s, for which there is no rule", id, t)
		}
	}
	walk(mod, nil, c.typeNamed(mod, "Params"))
	return out
}

// bounds: what must hold for the parameter, which is written x.
func (l paramLeaf) bounds(x string) []string {
	var out []string
	switch l.kind {
	case "dec", "int":
		out = append(out, "!isnil("+x+")", "0 <= "+x)
	case "signed":
		out = append(out, "0 <= "+x)
	case "str":
		if paramNonZero[l.id] {
			out = append(out, x+" != \"\"")
		}
		return out
	}
	if paramFraction[l.id] {
		out = append(out, x+" <= 1")
	}
	if paramNonZero[l.id] {
		out = append(out, x+" != 0")
	}
	return out
}

func (l paramLeaf) pat(base string) string {
	for _, f := range l.path {
		if f == "[]" {
			base = "elem(" + base + ")"
		} else {
			base += "." + f
		}
	}
	return base
}

// initOf: the only value ever stored into a package variable, by its initialiser
// (nil: none is); false if other code may store into it.
func (c *Ctx) initOf(name string) (*ssa.Global, ssa.Value, bool) {
	if c.pr.inits == nil {
		c.pr.inits = map[string]*initVal{}
		fns := append([]*ssa.Function{}, c.pr.Funcs...)
		for _, p := range c.pr.Repo {
			if p.SSA == nil {
				continue
			}
			for _, m := range p.SSA.Members {
				if x, ok := m.(*ssa.Global); ok {
					c.pr.inits[globalName(x)] = &initVal{g: x}
				}
			}
			if f := p.SSA.Func("init"); f != nil {
				fns = append(fns, f)
			}
		}
		done := map[*ssa.Function]bool{}
		for _, fn := range fns {
			if done[fn] {
				continue
			}
			done[fn] = true
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						g, ok := (*op).(*ssa.Global)
						if !ok || c.pr.inits[globalName(g)] == nil {
							continue
						}
						iv := c.pr.inits[globalName(g)]
						switch x := in.(type) {
						case *ssa.UnOp:
						case *ssa.Store:
							if x.Addr == g && fn.Name() == "init" && fn.Pkg == g.Pkg && iv.val == nil {
								iv.val = x.Val
								break
							}
							iv.other = true
						default:
							iv.other = true // its address is taken
						}
					}
				}
			}
		}
	}
	iv := c.pr.inits[name]
	if iv == nil {
		return nil, nil, false
	}
	return iv.g, iv.val, !iv.other
}

type initVal struct {
	g     *ssa.Global
	val   ssa.Value
	other bool
}

// globalValue: the value of a package variable.
func (c *Ctx) globalValue(r *Root, name string) *Term {
	g, val, ok := c.initOf(name)
	if !ok {
		return nil
	}
	if val == nil {
		return r.e.in.zeroOf(g.Type().(*types.Pointer).Elem())
	}
	return c.constant(r, val)
}

// constant: the value of an expression over constants.
func (c *Ctx) constant(r *Root, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return (&frame{e: r.e}).val(x)
	case *ssa.Call:
		fn := x.Call.StaticCallee()
		if fn == nil || fn.Pkg == nil || fn.Pkg.Pkg.Path() != "cosmossdk.io/math" || fn.Signature.Recv() != nil {
			return nil
		}
		var args []*Term
		for _, a := range x.Call.Args {
			t := c.constant(r, a)
			if t == nil {
				return nil
			}
			args = append(args, t)
		}
		return (&frame{e: r.e}).mathCall("", fn.Name(), args, r.rets[0].st)
	case *ssa.Convert:
		return c.constant(r, x.X)
	case *ssa.ChangeType:
		return c.constant(r, x.X)
	}
	return nil
}

func init() {
	regT("C35", "path-sensitive symbolic execution of the parameter validation and of the default parameters, over the parameters enumerated from their types",
		"The parameters of each module are enumerated from the type of its parameter set, through lists and nested records. For every success path of Params.Validate it is shown that each decimal and amount is set and not negative, each rate, fraction and ratio (table) is at most one, the listed numbers are not zero, list entries included, and that the coin whitelist contains the native coin; for every failure path that at least one of these bounds is broken, so nothing else is refused. DefaultParams is interpreted and each default, followed to the initial value of its package variable (which nothing else may store into), is compared with the same bounds. Where a bound concerns the parameter set as a whole, the handler of the update must validate what it stores, because the payload is completed differently when it is validated on submission. (That parameters are validated when an update is submitted and when a genesis is read is part of C01 and C34.)",
		func(c *Ctx) {
			seen := map[string]bool{}
			for _, m := range paramModules {
				m := m
				leaves := c.paramLeaves(m)
				c.sec(m, func() {
					var conds []string
					for _, l := range leaves {
						seen[l.id] = true
						conds = append(conds, l.bounds(l.pat("self"))...)
					}
					for _, w := range paramWhole[m] {
						conds = append(conds, strings.ReplaceAll(w, "SELF", "self"))
					}
					r := c.root(m + ".Params.Validate")
					c.check(len(r.success()) > 0, m+" parameters", r.fn.Pos(), "no parameters of %s are valid", m)
					r.exact(conds)
				})
				c.sec(m+" defaults", func() {
					r := c.root(m + ".DefaultParams")
					for _, x := range r.rets {
						for _, l := range leaves {
							vals := []*Term{x.vals[0]}
							for _, f := range l.path {
								var next []*Term
								for _, v := range vals {
									v = x.st.simp(v)
									if f != "[]" {
										v = x.st.simp(r.e.in.field(v, f))
										if v.Op == OpGlobal {
											if g := c.globalValue(r, v.Name); g != nil {
												v = g
											}
										}
										next = append(next, v)
										continue
									}
									if v == r.e.in.Nil {
										continue
									}
									if v.Op != OpList {
										c.check(false, "default "+l.id, x.pos, "the default of %s is not a constant list: %s", l.id, clip(v.String()))
										continue
									}
									next = append(next, v.Args...)
								}
								vals = next
							}
							for _, v := range vals {
								if n, ok := new(big.Rat).SetString(v.Name); ok && v.isConst() {
									ok := l.kind == "num" || n.Sign() >= 0
									ok = ok && !(paramFraction[l.id] && n.Cmp(big.NewRat(1, 1)) > 0)
									ok = ok && !(paramNonZero[l.id] && n.Sign() == 0)
									c.check(ok, "default "+l.id, x.pos, "the default of %s is %s, which is out of its bounds", l.id, v.Name)
									continue
								}
								for _, b := range l.bounds("_x") {
									c.check(r.holdsIn(x.st, b, binds{"_x": v}), "default "+l.id, x.pos, "the default of %s is %s, which the validation refuses", l.id, clip(v.String()))
								}
							}
						}
						if m == "funders" {
							ok := false
							if l := x.st.simp(r.e.in.field(x.vals[0], "CoinWhitelist")); l.Op == OpList {
								for _, v := range l.Args {
									ok = ok || r.same(x.st, "global.Denom", x.st.simp(r.e.in.field(v, "CoinDenom")), x.b.copy())
								}
							}
							c.check(ok, "default parameters of "+m, x.pos, "the native coin is not in the default whitelist")
						}
					}
				})
				if paramWhole[m] != nil {
					c.sec(m+" update", func() {
						r := c.root(m+".UpdateParams", keep(m+".Params.Validate"))
						for _, s := range r.only(m+".SetParams", m+".SetParams(_p)") {
							s.guard(m + ".Params.Validate(_p).err == nil")
						}
					})
				}
			}
			c.sec("table", func() {
				for _, t := range []map[string]bool{paramFraction, paramNonZero} {
					for id := range t {
						c.check(seen[id], "parameter "+id, 0, "there is no parameter %s", id)
					}
				}
			})
		})
}
