package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C41: how the application is assembled

// lit is the value of an initialiser: what the composite literals of the
// application's configuration say.
type lit struct {
	kind string // "string", "list", "struct", "call", "nil", "?"
	s    string // string value, type name, function name
	l    []*lit
	f    map[string]*lit
	pos  token.Pos
}

func (l *lit) field(n string) *lit {
	if l != nil && l.kind == "struct" {
		return l.f[n]
	}
	return nil
}

// each visits the value and everything inside.
func (l *lit) each(f func(*lit)) {
	if l == nil {
		return
	}
	f(l)
	for _, x := range l.l {
		x.each(f)
	}
	var ks []string
	for k := range l.f {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		l.f[k].each(f)
	}
}

// strs: the elements of a list of strings.
func (l *lit) strs() ([]string, bool) {
	if l == nil || l.kind == "nil" {
		return nil, true
	}
	if l.kind != "list" {
		return nil, false
	}
	var out []string
	for _, x := range l.l {
		if x.kind != "string" {
			return nil, false
		}
		out = append(out, x.s)
	}
	return out, true
}

type litEnv map[*ssa.Parameter]*lit

// lit evaluates an SSA value made of constants, composite literals, package
// variables that are stored once, append and functions that only return such a
// value.
func (c *Ctx) lit(v ssa.Value, env litEnv, depth int) *lit {
	unknown := &lit{kind: "?", pos: v.Pos()}
	if depth > 60 {
		return unknown
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return &lit{kind: "nil"}
		}
		if x.Value.Kind() == constant.String {
			return &lit{kind: "string", s: constant.StringVal(x.Value), pos: v.Pos()}
		}
		return unknown
	case *ssa.Parameter:
		if l := env[x]; l != nil {
			return l
		}
	case *ssa.MakeInterface:
		return c.lit(x.X, env, depth+1)
	case *ssa.ChangeType:
		return c.lit(x.X, env, depth+1)
	case *ssa.ChangeInterface:
		return c.lit(x.X, env, depth+1)
	case *ssa.Convert:
		return c.lit(x.X, env, depth+1)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return unknown
		}
		if g, ok := x.X.(*ssa.Global); ok {
			_, val, ok := c.initOf(globalName(g))
			if !ok {
				return unknown
			}
			if val == nil {
				return &lit{kind: "nil"}
			}
			return c.lit(val, nil, depth+1)
		}
		if a, ok := x.X.(*ssa.Alloc); ok {
			if a.Type().Underlying().(*types.Pointer).Elem().Underlying() != nil {
				// a local variable stored once
				var val ssa.Value
				n := 0
				for _, r := range *a.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == a {
						val = st.Val
						n++
					}
				}
				if n == 1 {
					return c.lit(val, env, depth+1)
				}
				if n == 0 {
					return c.lit(a, env, depth+1)
				}
			}
		}
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		if _, ok := t.Underlying().(*types.Struct); !ok {
			return unknown
		}
		out := &lit{kind: "struct", s: types.TypeString(t, func(p *types.Package) string { return p.Path() }), f: map[string]*lit{}, pos: x.Pos()}
		c.litFields(x, out, env, depth)
		return out
	case *ssa.Slice:
		a, ok := x.X.(*ssa.Alloc)
		if !ok || x.Low != nil || x.High != nil {
			return unknown
		}
		at, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !ok {
			return unknown
		}
		out := &lit{kind: "list", l: make([]*lit, at.Len()), pos: x.Pos()}
		for _, r := range *a.Referrers() {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			ix, ok := ia.Index.(*ssa.Const)
			if !ok {
				return unknown
			}
			i := int(ix.Int64())
			for _, r2 := range *ia.Referrers() {
				switch y := r2.(type) {
				case *ssa.Store:
					if y.Addr == ia {
						out.l[i] = c.lit(y.Val, env, depth+1)
					}
				case *ssa.FieldAddr: // element of struct type
					if out.l[i] == nil {
						out.l[i] = &lit{kind: "struct", s: types.TypeString(at.Elem(), func(p *types.Package) string { return p.Path() }), f: map[string]*lit{}, pos: y.Pos()}
					}
					for _, r3 := range *y.Referrers() {
						if st, ok := r3.(*ssa.Store); ok && st.Addr == y {
							out.l[i].f[fieldName(y)] = c.lit(st.Val, env, depth+1)
						}
					}
				}
			}
		}
		for i, e := range out.l {
			if e == nil {
				out.l[i] = &lit{kind: "nil"}
			}
		}
		return out
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			out := &lit{kind: "list", pos: x.Pos()}
			for _, a := range x.Call.Args {
				l := c.lit(a, env, depth+1)
				switch l.kind {
				case "nil":
				case "list":
					out.l = append(out.l, l.l...)
				default:
					return unknown
				}
			}
			return out
		}
		fn := x.Call.StaticCallee()
		if fn == nil {
			return unknown
		}
		var args []*lit
		for _, a := range x.Call.Args {
			args = append(args, c.lit(a, env, depth+1))
		}
		if fn.Blocks == nil {
			return &lit{kind: "call", s: fn.String(), l: args, pos: x.Pos()}
		}
		if len(fn.Blocks) == 1 && fn.Signature.Results().Len() == 1 {
			if r, ok := fn.Blocks[0].Instrs[len(fn.Blocks[0].Instrs)-1].(*ssa.Return); ok {
				e := litEnv{}
				for i, p := range fn.Params {
					e[p] = args[i]
				}
				return c.lit(r.Results[0], e, depth+1)
			}
		}
	}
	return unknown
}

func (c *Ctx) litFields(v ssa.Value, out *lit, env litEnv, depth int) {
	for _, r := range *v.Referrers() {
		switch y := r.(type) {
		case *ssa.Store:
			if y.Addr == v {
				l := c.lit(y.Val, env, depth+1)
				if l.kind == "struct" {
					for k, f := range l.f {
						out.f[k] = f
					}
				}
			}
		case *ssa.FieldAddr:
			for _, r2 := range *y.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == y {
					out.f[fieldName(y)] = c.lit(st.Val, env, depth+1)
				}
			}
		}
	}
}

// precedes lists pairs of modules whose relative order matters, with the reason.
type precedes struct{ a, b, why string }

var beginOrder = []precedes{
	{"mint", "team", "the team share is taken from freshly minted coins"},
	{"mint", "bundles", "pools are paid from freshly minted coins"},
	{"team", "bundles", "the team share is taken before the remaining inflation is split"},
	{"mint", "distribution", "validators are paid from freshly minted coins"},
	{"team", "distribution", "distribution sweeps the fee collector"},
	{"bundles", "distribution", "distribution sweeps the fee collector"},
	{"distribution", "slashing", "slashing follows the distribution of the validators' fees"},
	{"capability", "ibc", "capabilities are initialised before any module that uses them"},
	{"capability", "transfer", "capabilities are initialised before any module that uses them"},
}

var endOrder = []precedes{
	{"pool", "bundles", "a pool's runtime upgrade is applied before its bundle round is continued"},
}

var genesisOrder = []precedes{
	{"capability", "ibc", "capabilities are restored before any module that uses them"},
	{"auth", "bank", "accounts exist before balances"},
	{"auth", "staking", "module accounts exist before they are used"},
	{"bank", "staking", "balances exist before they are bonded"},
	{"staking", "slashing", "validators exist before their signing records"},
	{"staking", "genutil", "genesis transactions are executed after the pools they use are initialised"},
	{"auth", "genutil", "genesis transactions are executed after the accounts exist"},
	{"bank", "genutil", "genesis transactions are executed after the balances exist"},
}

// modulePerms: the accounts that may mint, burn or stake, and nothing else.
var modulePerms = map[string][]string{
	"fee_collector":          {"burner"},
	"mint":                   {"minter"},
	"gov":                    {"burner"},
	"bonded_tokens_pool":     {"burner", "staking"},
	"not_bonded_tokens_pool": {"burner", "staking"},
	"transfer":               {"burner", "minter"},
}

// kyveAccounts hold coins of users.
var kyveAccounts = []string{"bundles", "delegation", "pool", "stakers", "team", "funders"}

var kyveModules = []string{"bundles", "delegation", "funders", "global", "pool", "query", "stakers", "team"}

// appHook: what a module's block hook calls on every path.
type appHook struct {
	mod, kind string
	calls     []string
}

var appHooks = []appHook{
	{"bundles", "begin", []string{"bundles.InitMemStore", "bundles.SplitInflation"}},
	{"bundles", "end", []string{"bundles.HandleUploadTimeout"}},
	{"delegation", "begin", []string{"delegation.InitMemStore", "delegation.ProcessDelegatorUnbondingQueue"}},
	{"stakers", "begin", []string{"stakers.ProcessCommissionChangeQueue", "stakers.ProcessLeavePoolQueue"}},
	{"pool", "end", []string{"pool.HandlePoolUpgrades"}},
	{"team", "begin", []string{"team.DistributeTeamInflation"}},
	{"global", "end", []string{"global.EndBlocker"}},
}

type ordered struct {
	names []string
	pos   token.Pos
}

func (o ordered) at(n string) int {
	for i, x := range o.names {
		if x == n {
			return i
		}
	}
	return -1
}

// runtimeConfig: the configuration handed to dependency injection.
func (c *Ctx) appModules() map[string]*lit {
	var cfg *lit
	for _, p := range c.pr.Repo {
		if p.Path != modPath+"/app" || p.SSA == nil {
			continue
		}
		for _, m := range p.SSA.Members {
			g, ok := m.(*ssa.Global)
			if !ok || typeName(g.Type().(*types.Pointer).Elem()) != "depinject.Config" {
				continue
			}
			_, val, ok := c.initOf(globalName(g))
			if !ok || val == nil {
				bail("the value of %s is not fixed", g.Name())
			}
			if cfg != nil {
				bail("more than one application configuration")
			}
			cfg = c.lit(val, nil, 0)
		}
	}
	if cfg == nil {
		bail("no application configuration of type depinject.Config")
	}
	out := map[string]*lit{}
	cfg.each(func(l *lit) {
		if l.kind == "struct" && strings.HasSuffix(l.s, "app/v1alpha1.ModuleConfig") {
			n := l.field("Name")
			if n == nil || n.kind != "string" {
				bail("a module of the application has no constant name")
			}
			if out[n.s] != nil {
				bail("module %s is configured twice", n.s)
			}
			out[n.s] = l
		}
	})
	return out
}

// moduleOption: the literal wrapped as a module's configuration.
func moduleOption(m *lit) *lit {
	cf := m.field("Config")
	if cf != nil && cf.kind == "call" && strings.HasSuffix(cf.s, ".WrapAny") && len(cf.l) == 1 {
		return cf.l[0]
	}
	return cf
}

func (c *Ctx) orderOf(l *lit, what string, def token.Pos) ordered {
	pos := def
	if l != nil && l.pos.IsValid() {
		pos = l.pos
	}
	ss, ok := l.strs()
	if !ok {
		bail("the %s are not a list of module names fixed in the source", what)
	}
	return ordered{ss, pos}
}

func (c *Ctx) checkOrder(o ordered, what string, pairs []precedes) {
	seen := map[string]bool{}
	for _, n := range o.names {
		c.check(!seen[n], what+" "+n+" twice", o.pos, "%s is listed twice in the %s", n, what)
		seen[n] = true
	}
	for _, p := range pairs {
		i, j := o.at(p.a), o.at(p.b)
		if i < 0 || j < 0 {
			c.check(false, what+" "+p.a+" "+p.b, o.pos, "%s or %s is not among the %s", p.a, p.b, what)
			continue
		}
		c.check(i < j, what+" "+p.a+" before "+p.b, o.pos, "in the %s, %s does not come before %s: %s", what, p.a, p.b, p.why)
	}
}

// anteSteps: the steps every transaction passes, by the function building the
// step or the type of the step.
var anteSteps = []string{
	"ante.NewSetUpContextDecorator", "global.GasAdjustmentDecorator", "ante.NewExtensionOptionsDecorator", "ante.NewValidateBasicDecorator",
	"ante.NewTxTimeoutHeightDecorator", "ante.NewValidateMemoDecorator", "ante.NewConsumeGasForTxSizeDecorator", "global.DeductFeeDecorator",
	"ante.NewSetPubKeyDecorator", "ante.NewValidateSigCountDecorator", "ante.NewSigGasConsumeDecorator", "ante.NewSigVerificationDecorator",
	"ante.NewIncrementSequenceDecorator", "ante.NewRedundantRelayDecorator",
}

var anteOrder = []precedes{
	{"ante.NewValidateBasicDecorator", "global.DeductFeeDecorator", "a transaction is well formed before it is charged"},
	{"ante.NewSetPubKeyDecorator", "ante.NewSigGasConsumeDecorator", "signature gas depends on the key"},
	{"ante.NewSetPubKeyDecorator", "ante.NewSigVerificationDecorator", "signatures are verified against the key of the account"},
	{"ante.NewValidateSigCountDecorator", "ante.NewSigVerificationDecorator", "the number of signatures is bounded before they are verified"},
	{"ante.NewSigGasConsumeDecorator", "ante.NewSigVerificationDecorator", "signatures are paid for before they are verified"},
	{"ante.NewSigVerificationDecorator", "ante.NewIncrementSequenceDecorator", "signatures are made over the current sequence"},
}

// stepName names one decorator of a chain.
func stepName(t *Term) string {
	switch t.Op {
	case OpCall:
		return t.Name
	case OpStruct, OpZero:
		if t.Typ != nil {
			if n := namedOf(t.Typ); n != nil {
				return pkgShort(n.Obj().Pkg().Path()) + "." + n.Obj().Name()
			}
		}
		if len(t.Args) > 0 {
			return stepName(t.Args[0])
		}
	}
	return ""
}

// chainOf: the steps of the chain a handler is built from.
func chainOf(r *Root, t *Term, builder string) ([]*Term, bool) {
	if t.Op == OpRes && t.Name == "val" {
		t = t.Args[0]
	}
	if t.Op != OpCall || !strings.HasSuffix(t.Name, builder) || len(t.Args) != 1 || t.Args[0].Op != OpList {
		return nil, false
	}
	return t.Args[0].Args, true
}

// funcOf: the function a closure or function value stands for.
func (r *Root) funcOf(t *Term) *ssa.Function {
	for k, f := range r.e.funcs {
		if k == t || k.Op == t.Op && k.String() == t.String() {
			return f
		}
	}
	return nil
}

func init() {
	regT("C41", "evaluation of the application's configuration literals in SSA form, and path-sensitive symbolic execution of the application's constructor and of the modules' block hooks",
		"The configuration handed to dependency injection is evaluated from its literals through package variables, append and literal-returning functions: every KYVE module is part of it; the begin, end and genesis orders it names contain every module with such a hook once and in an order where the listed producers precede their consumers (mint, team, bundles, distribution; pool, bundles, global); module accounts carry exactly the listed permissions and every account the code pays from or to is registered; every account holding users' coins is barred from ordinary transfers. The constructor is executed symbolically: on every successful path it installs an ante handler whose chain contains every listed step once, context first, and the listed steps in order, a post handler with the fee refund, an init chainer that records the module versions, and the handler of the v1.5 upgrade. The block hooks are executed: every hook calls what the module promises, on every path.",
		func(c *Ctx) {
			mods := map[string]*lit{}
			c.sec("modules", func() {
				mods = c.appModules()
				for _, m := range kyveModules {
					c.check(mods[m] != nil, "module "+m, 0, "the application is assembled without the module %s", m)
				}
			})
			hooked := func(kind string) []string {
				var out []string
				for _, e := range c.entries() {
					if m := moduleOf(fnPkgPath(e.fn)); e.kind == kind && mods[m] != nil {
						out = append(out, m)
					}
				}
				return out
			}
			c.sec("block order", func() {
				rt := mods["runtime"]
				if rt == nil {
					bail("no runtime module in the configuration")
				}
				opt := moduleOption(rt)
				begin := c.orderOf(opt.field("BeginBlockers"), "begin blockers", rt.pos)
				end := c.orderOf(opt.field("EndBlockers"), "end blockers", rt.pos)
				gen := c.orderOf(opt.field("InitGenesis"), "genesis modules", rt.pos)
				pre := c.orderOf(opt.field("PreBlockers"), "pre-blockers", rt.pos)
				c.checkOrder(begin, "begin blockers", beginOrder)
				c.checkOrder(end, "end blockers", endOrder)
				c.checkOrder(gen, "genesis modules", genesisOrder)
				c.check(pre.at("upgrade") >= 0, "pre-blockers upgrade", pre.pos, "the upgrade module is not a pre-blocker, so planned upgrades are never applied")
				n := 0
				for _, x := range []struct {
					hook string
					o    ordered
				}{{"begin", begin}, {"end", end}, {"genesis", gen}} {
					for _, m := range hooked(x.hook) {
						n++
						c.check(x.o.at(m) >= 0, m+" "+x.hook, x.o.pos, "%s has a %s block (or genesis) hook but is not in the order of its calls", m, x.hook)
					}
				}
				c.check(n >= 15, "module hooks", 0, "only %d hooks of KYVE modules found", n)
				if ex := opt.field("ExportGenesis"); ex != nil {
					o := c.orderOf(ex, "export modules", rt.pos)
					for _, m := range hooked("export") {
						c.check(o.at(m) >= 0, m+" ExportGenesis", o.pos, "%s is not exported", m)
					}
				}
			})
			c.sec("module accounts", func() {
				au, bk := mods["auth"], mods["bank"]
				if au == nil || bk == nil {
					bail("no auth or bank module in the configuration")
				}
				have := map[string]string{}
				pl := moduleOption(au).field("ModuleAccountPermissions")
				if pl == nil || pl.kind != "list" {
					bail("the permissions of the module accounts are not a list fixed in the source")
				}
				for _, e := range pl.l {
					a := e.field("Account")
					ps, ok := e.field("Permissions").strs()
					if a == nil || a.kind != "string" || !ok {
						bail("a module account permission is not fixed in the source")
					}
					sort.Strings(ps)
					_, dup := have[a.s]
					c.check(!dup, "account "+a.s+" twice", e.pos, "the module account %s is listed twice", a.s)
					have[a.s] = strings.Join(ps, ",")
					want := strings.Join(modulePerms[a.s], ",")
					c.check(have[a.s] == want, "permissions of "+a.s, e.pos, "the module account %s has the permissions {%s} instead of {%s}", a.s, have[a.s], want)
				}
				for _, a := range sortedKeys(modulePerms) {
					_, ok := have[a]
					c.check(ok, "account "+a, pl.pos, "the module account %s, which needs {%s}, is not registered", a, strings.Join(modulePerms[a], ","))
				}
				blocked := c.orderOf(moduleOption(bk).field("BlockedModuleAccountsOverride"), "blocked accounts", bk.pos)
				for _, a := range append([]string{"fee_collector", "distribution", "mint", "bonded_tokens_pool", "not_bonded_tokens_pool", "transfer"}, kyveAccounts...) {
					_, ok := have[a]
					c.check(ok, "account "+a, pl.pos, "the module account %s is not registered", a)
					c.check(blocked.at(a) >= 0, "blocked "+a, blocked.pos, "ordinary transfers can pay the module account %s", a)
				}
				// every account named in a transfer is registered
				n := 0
				for _, fn := range c.handwritten(c.reachableFrom(consensusKinds)) {
					for _, b := range fn.Blocks {
						for _, ins := range b.Instrs {
							ci, ok := ins.(ssa.CallInstruction)
							if !ok {
								continue
							}
							nm := calleeName(ci.Common())
							i := strings.LastIndex(nm, ".")
							if s := nm[i+1:]; !strings.Contains(s, "Module") || !strings.HasPrefix(s, "Send") && !strings.HasPrefix(s, "Transfer") && !strings.HasPrefix(s, "Undelegate") {
								continue
							}
							for _, a := range ci.Common().Args {
								if l := c.lit(a, nil, 0); l.kind == "string" {
									n++
									_, ok := have[l.s]
									c.check(ok, "account "+l.s+" used by "+shortName(fn), ins.Pos(), "%s moves coins of the module account %s, which is not registered", shortName(fn), l.s)
								}
							}
						}
					}
				}
				c.check(n >= 10, "module accounts in use", 0, "only %d uses of module accounts found", n)
			})
			c.sec("transaction checks", func() {
				r := c.root("app.New")
				c.check(len(r.success()) > 0, "application", r.fn.Pos(), "the application cannot be built")
				r.does(nil, "baseapp.SetAnteHandler(_)", "baseapp.SetPostHandler(_)", "baseapp.SetInitChainer(_)")
				r.count(1, "baseapp.SetAnteHandler")
				r.count(1, "baseapp.SetPostHandler")
				r.count(1, "baseapp.SetInitChainer")
				for _, s := range r.find("baseapp.SetAnteHandler") {
					steps, ok := chainOf(r, s.arg(0), "ChainAnteDecorators")
					if !c.check(ok, "ante handler", s.Pos, "the ante handler is not a chain of steps known from the source") {
						continue
					}
					o := ordered{pos: s.Pos}
					for _, t := range steps {
						o.names = append(o.names, stepName(t))
					}
					for _, n := range anteSteps {
						c.check(o.at(n) >= 0, "ante step "+n, o.pos, "transactions do not pass %s", n)
					}
					c.check(len(o.names) > 0 && o.names[0] == "ante.NewSetUpContextDecorator", "ante step first", o.pos, "the first step of the ante handler is not the one setting up the gas meter")
					c.checkOrder(o, "ante steps", anteOrder)
					for i, t := range steps {
						switch o.names[i] {
						case "ante.NewExtensionOptionsDecorator":
							c.check(len(t.Args) == 1 && t.Args[0] == r.e.in.Nil, "ante extension options", o.pos, "transactions with unknown extension options are let through by %s", t)
						case "ante.NewSigGasConsumeDecorator":
							c.check(len(t.Args) == 2 && strings.Contains(t.Args[1].String(), "DefaultSigVerificationGasConsumer"), "ante signature gas", o.pos, "signature gas is not consumed as usual: %s", t)
						}
					}
				}
				for _, s := range r.find("baseapp.SetPostHandler") {
					steps, ok := chainOf(r, s.arg(0), "ChainPostDecorators")
					if !c.check(ok, "post handler", s.Pos, "the post handler is not a chain of steps known from the source") {
						continue
					}
					n := 0
					for _, t := range steps {
						if stepName(t) == "global.RefundFeeDecorator" {
							n++
						}
					}
					c.check(n == 1, "post refund", s.Pos, "the post handler contains the fee refund %d times", n)
				}
			})
			c.sec("start", func() {
				r := c.root("app.New")
				for _, s := range r.find("baseapp.SetInitChainer") {
					f := r.funcOf(s.arg(0))
					if !c.check(f != nil && f.Blocks != nil, "init chainer", s.Pos, "the init chainer is not a function of the application") {
						continue
					}
					g := c.rootFn(f, "init chainer", "chainer")
					n := 0
					for _, x := range g.success() {
						n++
						done := false
						for _, v := range g.find("upgrade.SetModuleVersionMap") {
							done = done || hasDid(x.st, v.call) || g.didCall(x.st, v.call)
							c.check(strings.Contains(v.arg(0).String(), "GetVersionMap"), "module versions", v.Pos, "the versions recorded at genesis are %s, not those of the modules", clip(v.arg(0).String()))
						}
						c.check(done, "module versions recorded", x.pos, "a chain can be started without recording the versions of its modules, so that the first upgrade runs every migration again")
						init := false
						for _, v := range x.vals {
							walkTerms(v, func(t *Term) { init = init || t.Op == OpCall && strings.HasSuffix(t.Name, ".InitChainer") })
						}
						c.check(init, "genesis", x.pos, "a chain can be started without reading the genesis state of its modules")
					}
					c.check(n > 0, "init chainer succeeds", s.Pos, "the init chainer never succeeds")
				}
				r.does(nil, "upgrade.SetUpgradeHandler(_, _)")
			})
			for _, h := range appHooks {
				h := h
				c.sec("hooks", func() {
					var o []opt
					for _, x := range h.calls {
						c.fnNamed(x)
						o = append(o, keep(x))
					}
					name := h.mod + " " + h.kind + " block"
					var r *Root
					for _, e := range c.entries() {
						if e.kind == h.kind && moduleOf(fnPkgPath(e.fn)) == h.mod {
							r = c.rootFn(e.fn, name, "hook", o...)
						}
					}
					if r == nil {
						bail("the module %s has no %s block hook", h.mod, h.kind)
					}
					for _, x := range h.calls {
						found := r.find(x)
						c.check(len(found) > 0, name+" "+x, r.fn.Pos(), "%s never calls %s", name, x)
						for _, ret := range r.rets {
							done := 0
							for _, s := range found {
								if hasDid(ret.st, s.call) || r.didCall(ret.st, s.call) {
									done++
								}
							}
							c.check(done == 1, name+" "+x+" once", ret.pos, "%s can return having called %s %d times", name, x, done)
						}
					}
				})
			}
		})
}
