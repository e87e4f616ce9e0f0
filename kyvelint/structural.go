package main

// Structural rules over the resolved call graph: entry points and what they reach.

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type entry struct {
	fn   *ssa.Function
	kind string // msg, query, begin, end, genesis, export, ante, post, upgrade
	name string
}

// entries: the functions the application calls from outside the modules.
func (c *Ctx) entries() []entry {
	var out []entry
	for _, f := range c.pr.Funcs {
		if f.Parent() != nil || isPB(c.pr, f) || f.Synthetic != "" {
			continue
		}
		kind := ""
		path := fnPkgPath(f)
		if o, ok := f.Object().(*types.Func); ok {
			r := recvNamed(o)
			sg := o.Type().(*types.Signature)
			switch {
			case r == nil:
				if strings.Contains(path, "/app/upgrades/") && o.Exported() {
					kind = "upgrade"
				}
			case !o.Exported():
			case o.Name() == "AnteHandle":
				kind = "ante"
			case o.Name() == "PostHandle":
				kind = "post"
			case r.Obj().Name() == "AppModule":
				switch o.Name() {
				case "BeginBlock":
					kind = "begin"
				case "EndBlock":
					kind = "end"
				case "InitGenesis":
					kind = "genesis"
				case "ExportGenesis":
					kind = "export"
				}
			default:
				if req := requestOf(sg); req != nil {
					n := req.Obj().Name()
					switch {
					case strings.HasPrefix(n, "Msg"):
						kind = "msg"
					case strings.HasPrefix(n, "Query"):
						kind = "query"
					}
				}
			}
		}
		if kind != "" {
			out = append(out, entry{f, kind, shortName(f)})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

// requestOf: the request type of a service method (ctx, *Request) (*Response, error).
func requestOf(sg *types.Signature) *types.Named {
	if sg.Params().Len() != 2 || sg.Results().Len() != 2 || !isErrType(sg.Results().At(1).Type()) {
		return nil
	}
	if t := sg.Params().At(0).Type().String(); t != "context.Context" && !strings.HasSuffix(t, "types.Context") {
		return nil
	}
	if _, ok := sg.Params().At(1).Type().(*types.Pointer); !ok {
		return nil
	}
	n := namedOf(sg.Params().At(1).Type())
	if n == nil || n.Obj().Pkg() == nil || !strings.HasSuffix(n.Obj().Pkg().Path(), "/types") {
		return nil
	}
	return n
}

// extCalls lists the calls of f that leave the repository, as "module.Method".
type extCall struct {
	name string
	ins  ssa.CallInstruction
}

func (c *Ctx) extCalls(f *ssa.Function) []extCall {
	var out []extCall
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			ci, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := ci.Common()
			fn, m := c.pr.resolve(cc)
			if fn != nil && fn.Blocks != nil || m == nil {
				continue
			}
			var rt types.Type
			if cc.IsInvoke() {
				rt = cc.Value.Type()
			} else if sg := m.Type().(*types.Signature); sg.Recv() != nil {
				rt = sg.Recv().Type()
			}
			n := m.Name()
			if rt != nil {
				if nm := namedOf(rt); nm != nil {
					if km := keeperModule(nm); km != "" {
						n = km + "." + n
					} else {
						n = nm.Obj().Name() + "." + n
					}
				}
			} else if m.Pkg() != nil {
				n = pkgShort(m.Pkg().Path()) + "." + n
			}
			out = append(out, extCall{n, ci})
		}
	}
	return out
}

// onlyCallers: the targets (functions of the repository, or external calls
// made inside module mod) are reached from the allowed entry points only.
func onlyCallers(c *Ctx, mod string, targets []string, allowed []string) {
	want := map[string]bool{}
	for _, t := range targets {
		want[t] = true
	}
	tg := map[*ssa.Function]string{}
	for _, f := range c.pr.Funcs {
		if isPB(c.pr, f) {
			continue
		}
		if want[shortName(f)] {
			tg[f] = shortName(f)
		}
		if mod != "" && moduleOf(fnPkgPath(f)) == mod {
			for _, x := range c.extCalls(f) {
				if want[x.name] {
					tg[f] = x.name
				}
			}
			for _, g := range c.su.callees[f] {
				if want[shortName(g)] {
					tg[f] = shortName(g)
				}
			}
		}
	}
	c.check(len(tg) > 0, "targets "+strings.Join(targets, ","), 0, "none of %s exists", strings.Join(targets, ", "))
	for _, e := range c.entries() {
		reach := c.su.reach(e.fn)
		hit := ""
		var hf *ssa.Function
		for f, n := range tg {
			if _, ok := reach[f]; ok && (hit == "" || n < hit) {
				hit, hf = n, f
			}
		}
		if hit == "" {
			continue
		}
		ok := false
		for _, a := range allowed {
			if e.name == a || e.kind == a || strings.HasSuffix(a, ".") && strings.HasPrefix(e.name, a) {
				ok = true
			}
		}
		c.funcs[e.fn] = true
		c.check(ok, "entry "+e.name+" reaches "+hit, e.fn.Pos(), "entry point %s (%s) reaches %s via %s", e.name, e.kind, hit, pathTo(reach, hf))
	}
}

// pathTo renders the call path found by reach.
func pathTo(reach map[*ssa.Function]*ssa.Function, f *ssa.Function) string {
	var p []string
	for i := 0; f != nil && i < 30; i++ {
		p = append([]string{shortName(f)}, p...)
		f = reach[f]
	}
	return strings.Join(p, " > ")
}
