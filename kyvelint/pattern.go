package main

// Terms written as Go expressions. `_` matches anything, `_name` binds.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"strconv"
	"strings"
)

var paramIdents = map[string]bool{"msg": true, "req": true, "self": true, "ctx": true, "recv": true, "acc": true, "acc1": true, "acc2": true}

type binds map[string]*Term

func (e *Engine) T(src string, b binds) *Term {
	s := strings.ReplaceAll(src, "$", "DOLLAR_")
	x, err := parser.ParseExpr(s)
	if err != nil {
		bail("rule expression %q: %v", src, err)
	}
	return e.ast(x, b)
}

func selChain(x ast.Expr) []string {
	switch x := x.(type) {
	case *ast.Ident:
		return []string{x.Name}
	case *ast.SelectorExpr:
		if c := selChain(x.X); c != nil {
			return append(c, x.Sel.Name)
		}
	}
	return nil
}

func (e *Engine) ast(x ast.Expr, b binds) *Term {
	in := e.in
	switch x := x.(type) {
	case *ast.ParenExpr:
		return e.ast(x.X, b)
	case *ast.BasicLit:
		switch x.Kind {
		case token.STRING:
			s, _ := strconv.Unquote(x.Value)
			return in.konst(strconv.Quote(s))
		case token.FLOAT:
			return in.konst(normDec(x.Value))
		}
		return in.konst(strings.ReplaceAll(x.Value, "_", ""))
	case *ast.Ident:
		n := x.Name
		switch n {
		case "true":
			return in.True
		case "false":
			return in.False
		case "nil":
			return in.Nil
		case "ERR":
			return in.Err
		case "now":
			return in.mk(OpCall, "now")
		case "height":
			return in.mk(OpCall, "height")
		case "list":
			return in.mk(OpList, "")
		}
		if t, ok := b[n]; ok {
			return t
		}
		if strings.HasPrefix(n, "_") {
			return in.mk(OpParam, n)
		}
		if strings.HasPrefix(n, "DOLLAR_") {
			return in.mk(OpParam, "$"+n[7:])
		}
		if paramIdents[n] {
			return in.mk(OpParam, n)
		}
		bail("unknown identifier %q in a rule", n)
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok && !paramIdents[id.Name] && !strings.HasPrefix(id.Name, "_") && !strings.HasPrefix(id.Name, "DOLLAR_") && b[id.Name] == nil {
			return e.global(id.Name, x.Sel.Name)
		}
		base := e.ast(x.X, b)
		switch x.Sel.Name {
		case "err", "ok", "val", "r0", "r1", "r2", "r3", "arg0", "arg1", "arg2", "arg3", "arg4":
			return in.mk(OpRes, x.Sel.Name, base)
		}
		return in.field(base, x.Sel.Name)
	case *ast.UnaryExpr:
		a := e.ast(x.X, b)
		switch x.Op {
		case token.NOT:
			return in.not(a)
		case token.SUB:
			if v, ok := a.intVal(); ok {
				return in.konst(strconv.FormatInt(-v, 10))
			}
			if l, ok := x.X.(*ast.BasicLit); ok {
				return in.konst(normDec("-" + l.Value))
			}
			return in.bin("sub", in.Zero, a)
		}
	case *ast.BinaryExpr:
		l, r := e.ast(x.X, b), e.ast(x.Y, b)
		switch x.Op {
		case token.EQL:
			return in.eq(l, r)
		case token.NEQ:
			return in.not(in.eq(l, r))
		case token.LSS:
			return in.lt(l, r, false)
		case token.LEQ:
			return in.le(l, r, false)
		case token.GTR:
			return in.lt(r, l, false)
		case token.GEQ:
			return in.le(r, l, false)
		case token.LAND:
			return in.and(l, r)
		case token.LOR:
			return in.or(l, r)
		case token.ADD:
			return in.bin("add", l, r)
		case token.SUB:
			return in.bin("sub", l, r)
		case token.MUL:
			return in.bin("mul", l, r)
		case token.QUO:
			return in.bin("quo", l, r)
		case token.REM:
			return in.bin("rem", l, r)
		}
	case *ast.IndexExpr:
		return in.mk(OpIdx, "", e.ast(x.X, b), e.ast(x.Index, b))
	case *ast.CallExpr:
		var args []*Term
		for _, a := range x.Args {
			args = append(args, e.ast(a, b))
		}
		if id, ok := x.Fun.(*ast.Ident); ok {
			switch id.Name {
			case "eval", "eval1", "eval2": // results of a repository function on these arguments
				f, _ := strconv.Unquote(args[0].Name)
				rs := e.evalFn(f, args[1:])
				i := 0
				if len(id.Name) > 4 {
					i = int(id.Name[4] - '0')
				}
				return rs[i]
			case "ite":
				return in.ite(args[0], args[1], args[2])
			case "min", "max", "cmin", "cmax":
				return in.comm(id.Name, args...)
			case "cadd":
				return in.comm("cadd", args...)
			case "csub", "dquo", "multrunc", "mulup", "dquotrunc", "dquoup", "cat":
				return in.bin(id.Name, args[0], args[1])
			case "list":
				return in.mk(OpList, "", args...)
			case "elem":
				return in.fuse(in.mk(OpElem, "", args...))
			case "mapkey":
				return in.mk(OpMapKey, "", args...)
			case "mapval":
				return in.mk(OpMapVal, "", args...)
			case "len":
				return in.length(args[0])
			case "mem": // membership, through additions and removals
				return in.member(args[0], args[1])
			case "upd":
				out := args[0]
				for i := 1; i+1 < len(args); i += 2 {
					f, _ := strconv.Unquote(args[i].Name)
					out = in.update(out, strings.Split(f, "."), args[i+1])
				}
				return out
			case "glob": // a variable of a dependency
				f, _ := strconv.Unquote(args[0].Name)
				return in.mk(OpGlobal, f)
			case "dyn": // a call by its displayed name
				f, _ := strconv.Unquote(args[0].Name)
				return in.mk(OpCall, f, args[1:]...)
			case "zero":
				if len(args) == 1 {
					f, _ := strconv.Unquote(args[0].Name)
					return in.mk(OpZero, f)
				}
				return in.mk(OpCall, "zero?")
			}
			return in.mk(OpCall, id.Name, args...)
		}
		if ch := selChain(x.Fun); ch != nil {
			return in.mk(OpCall, strings.Join(ch, "."), args...)
		}
	}
	bail("unsupported rule expression %T", x)
	return nil
}

// global resolves <module>.<Name> to the constant's value or the variable.
func (e *Engine) global(mod, name string) *Term {
	for _, p := range e.pr.Repo {
		if moduleOf(p.Path) != mod {
			continue
		}
		switch o := p.Types.Scope().Lookup(name).(type) {
		case *types.Const:
			switch o.Val().Kind() {
			case constant.String:
				return e.in.konst(strconv.Quote(constant.StringVal(o.Val())))
			case constant.Bool:
				return e.in.boolT(constant.BoolVal(o.Val()))
			}
			return e.in.konst(o.Val().ExactString())
		case *types.Var:
			return e.in.mk(OpGlobal, mod+"."+name)
		}
	}
	bail("%s.%s is not declared", mod, name)
	return nil
}

func isWild(t *Term) bool { return t.Op == OpParam && strings.HasPrefix(t.Name, "_") }

func hasWild(t *Term) bool {
	return t.contains(func(x *Term) bool {
		return isWild(x) || x.Op == OpCall && (x.Name == "rec" || x.Name == "zero?" || x.Name == "any")
	})
}

func (e *Engine) match(p, t *Term, b binds) bool {
	if p == t {
		return true
	}
	if isWild(p) {
		if p.Name == "_" {
			return true
		}
		if v, ok := b[p.Name]; ok {
			return v == t
		}
		b[p.Name] = t
		return true
	}
	if p.Op == OpCall {
		switch p.Name {
		case "rec": // rec("Field", pattern, ...)
			for i := 0; i+1 < len(p.Args); i += 2 {
				f, _ := strconv.Unquote(p.Args[i].Name)
				if !e.match(p.Args[i+1], e.in.path(t, strings.Split(f, ".")), b) {
					return false
				}
			}
			return true
		case "zero?":
			return t.Op == OpZero || t == e.in.Zero || t == e.in.Nil || t == e.in.False || t.Name == `""` && t.isConst()
		case "any": // any(p1, p2, ...): one of
			for _, q := range p.Args {
				save := b.copy()
				if e.match(q, t, b) {
					return true
				}
				b.restore(save)
			}
			return false
		}
	}
	if p.Op != t.Op || p.Name != t.Name || len(p.Args) != len(t.Args) {
		return false
	}
	comm := p.Op == OpEq || p.Op == OpAnd || p.Op == OpOr || p.Op == OpBin && isComm(p.Name)
	if comm && len(p.Args) <= 5 {
		return e.matchPerm(p.Args, append([]*Term{}, t.Args...), b)
	}
	for i := range p.Args {
		if !e.match(p.Args[i], t.Args[i], b) {
			return false
		}
	}
	return true
}

func isComm(n string) bool {
	switch n {
	case "add", "mul", "cadd", "cmin", "cmax", "min", "max", "band", "bor", "bxor":
		return true
	}
	return false
}

func (b binds) copy() binds {
	n := binds{}
	for k, v := range b {
		n[k] = v
	}
	return n
}

func (b binds) restore(s binds) {
	for k := range b {
		if _, ok := s[k]; !ok {
			delete(b, k)
		}
	}
	for k, v := range s {
		b[k] = v
	}
}

func (e *Engine) matchPerm(ps, ts []*Term, b binds) bool {
	if len(ps) == 0 {
		return true
	}
	for i, t := range ts {
		save := b.copy()
		if e.match(ps[0], t, b) {
			rest := append(append([]*Term{}, ts[:i]...), ts[i+1:]...)
			if e.matchPerm(ps[1:], rest, b) {
				return true
			}
		}
		b.restore(save)
	}
	return false
}

// evalFn: the results of a repository function for these arguments, calls
// expanded as in the analysed root. Context and keeper parameters are implied.
func (e *Engine) evalFn(name string, args []*Term) []*Term {
	fn := (&Ctx{pr: e.pr, su: e.su}).fnNamed(name)
	var full []*Term
	j := 0
	for i, p := range fn.Params {
		n := namedOf(p.Type())
		switch {
		case isCtx(p.Type()):
			full = append(full, e.in.mk(OpParam, "ctx"))
		case n != nil && isKeeperType(n) && (i == 0 && fn.Signature.Recv() != nil || strings.HasSuffix(n.Obj().Name(), "Keeper")):
			full = append(full, e.in.mk(OpParam, "recv"))
		default:
			if j >= len(args) {
				bail("rule expression: too few arguments for %s", name)
			}
			full = append(full, args[j])
			j++
		}
	}
	lin := e.in.linear
	e.in.linear = false
	g := e.newFrame(fn, full, nil, nil)
	for _, a := range full {
		g.path += fmt.Sprint(",", a.id)
	}
	e.stack = append(e.stack, fn)
	g.exec(newState(e.in))
	e.stack = e.stack[:len(e.stack)-1]
	var items []joinItem
	for _, r := range g.rets {
		items = append(items, r.item)
	}
	m := joinAll(e.in, items, g.gate("ret"))
	e.in.linear = lin
	var out []*Term
	for _, v := range m.vals {
		out = append(out, e.canon(e.snap(m.st, v)))
	}
	return out
}

func (in *Interner) member(l, x *Term) *Term {
	switch {
	case l.Op == OpIte:
		return in.ite(l.Args[0], in.member(l.Args[1], x), in.member(l.Args[2], x))
	case l.Op == OpList:
		out := in.False
		for _, a := range l.Args {
			out = in.or(out, in.eq(a, x))
		}
		return out
	case l == in.Nil:
		return in.False
	case l.Op == OpZero:
		return in.False
	case l.Op == OpCall && l.Name == "slice" && l.Args[0].Op == OpZero:
		return in.False
	case l.Op == OpCall && l.Name == "append":
		return in.or(in.member(l.Args[0], x), in.member(l.Args[1], x))
	case l.Op == OpCall && l.Name == "without":
		return in.and(in.not(in.eq(l.Args[1], x)), in.member(l.Args[0], x))
	}
	return in.mk(OpCall, "contains", l, x)
}
