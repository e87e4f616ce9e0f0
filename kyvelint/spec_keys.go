package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Layouts of store keys: constant bytes, integers of eight bytes, texts.

type keyPart struct {
	kind byte // 'c' constant, 'u' integer, 's' text, '?' unknown
	lit  string
	name string // the variable a constant comes from
	term *Term
}

type layout struct {
	store string // kv, mem, transient
	mod   string
	parts []keyPart
}

// head: the constant bytes the key starts with.
func (l layout) head() string {
	h := ""
	for _, p := range l.parts {
		if p.kind != 'c' {
			break
		}
		h += p.lit
	}
	return h
}

// origin: the package variables of the constant bytes.
func (l layout) origin() string {
	var out []string
	for _, p := range l.parts {
		if p.kind != 'c' {
			break
		}
		if p.name != "" {
			out = append(out, p.name)
		}
	}
	return strings.Join(out, "+")
}

func (l layout) String() string {
	var out []string
	for _, p := range l.parts {
		switch p.kind {
		case 'c':
			out = append(out, fmt.Sprintf("%v", []byte(p.lit)))
		case 'u':
			out = append(out, "uint64")
		case 's':
			out = append(out, "text")
		default:
			out = append(out, "?"+clip(p.term.String()))
		}
	}
	return l.store + " " + l.mod + " " + strings.Join(out, " ")
}

func (l layout) kinds() string {
	s := ""
	for _, p := range l.merged() {
		s += string(p.kind)
	}
	return s
}

// merged: neighbouring constants joined.
func (l layout) merged() []keyPart {
	var out []keyPart
	for _, p := range l.parts {
		if p.kind == 'c' && p.lit == "" {
			continue
		}
		if n := len(out); n > 0 && p.kind == 'c' && out[n-1].kind == 'c' {
			out[n-1].lit += p.lit
			continue
		}
		out = append(out, p)
	}
	return out
}

// initBytes: the bytes a package variable holds from the start.
func (c *Ctx) initBytes(name string) (string, bool) {
	g, val, ok := c.initOf(name)
	if !ok || g == nil || val == nil {
		return "", false
	}
	for {
		if x, ok := val.(*ssa.ChangeType); ok {
			val = x.X
			continue
		}
		break
	}
	switch x := val.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			return constant.StringVal(x.Value), true
		}
	case *ssa.Convert:
		if k, ok := x.X.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
			return constant.StringVal(k.Value), true
		}
	case *ssa.Call: // collections.NewPrefix(n)
		if fn := x.Call.StaticCallee(); fn != nil && strings.HasPrefix(fn.Name(), "NewPrefix") && len(x.Call.Args) == 1 {
			a := x.Call.Args[0]
			if mi, ok := a.(*ssa.MakeInterface); ok {
				a = mi.X
			}
			if k, ok := a.(*ssa.Const); ok && k.Value != nil {
				switch k.Value.Kind() {
				case constant.Int:
					if n, ok := constant.Int64Val(k.Value); ok && n >= 0 && n < 256 {
						return string([]byte{byte(n)}), true
					}
				case constant.String:
					return constant.StringVal(k.Value), true
				}
			}
		}
	case *ssa.Slice:
		a, ok := x.X.(*ssa.Alloc)
		if !ok || x.Low != nil || x.High != nil {
			return "", false
		}
		at, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !ok {
			return "", false
		}
		out := make([]byte, at.Len())
		for _, ref := range *a.Referrers() {
			switch y := ref.(type) {
			case *ssa.Slice:
			case *ssa.IndexAddr:
				i, ok := y.Index.(*ssa.Const)
				if !ok {
					return "", false
				}
				for _, r2 := range *y.Referrers() {
					s, ok := r2.(*ssa.Store)
					if !ok {
						return "", false
					}
					k, ok := s.Val.(*ssa.Const)
					if !ok || s.Addr != y {
						return "", false
					}
					out[i.Int64()] = byte(k.Int64())
				}
			default:
				return "", false
			}
		}
		return string(out), true
	}
	return "", false
}

// argConsts: the package variables a parameter can be, from all calls.
func (c *Ctx) argConsts(fn *ssa.Function, idx int, seen map[*ssa.Parameter]bool) ([]string, bool) {
	if idx >= len(fn.Params) || seen[fn.Params[idx]] {
		return nil, true
	}
	seen[fn.Params[idx]] = true
	var out []string
	n := 0
	for _, caller := range c.pr.Funcs {
		for _, b := range caller.Blocks {
			for _, i := range b.Instrs {
				call, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := call.Common()
				for _, a := range cc.Args {
					if a == fn {
						return nil, false
					}
				}
				if cc.StaticCallee() != fn {
					continue
				}
				n++
				v := cc.Args[idx]
				for {
					if x, ok := v.(*ssa.ChangeType); ok {
						v = x.X
						continue
					}
					break
				}
				switch x := v.(type) {
				case *ssa.UnOp:
					g, ok := x.X.(*ssa.Global)
					if !ok {
						return nil, false
					}
					out = append(out, globalName(g))
				case *ssa.Parameter:
					for j, p := range caller.Params {
						if p == x {
							o, ok := c.argConsts(caller, j, seen)
							if !ok {
								return nil, false
							}
							out = append(out, o...)
						}
					}
				default:
					return nil, false
				}
			}
		}
	}
	return out, n > 0 && len(out) > 0
}

// layouts: the possible layouts of a key in a store.
func (c *Ctx) layouts(r *Root, store, key *Term) []layout {
	base := layout{mod: moduleOf(fnPkgPath(r.fn))}
	var prefixes []*Term
	for t := store; ; {
		if t.Op != OpCall {
			return []layout{{store: "?", mod: base.mod, parts: []keyPart{{kind: '?', term: t}}}}
		}
		if t.Name == "prefix.NewStore" {
			prefixes = append([]*Term{t.Args[1]}, prefixes...)
			t = t.Args[0]
			continue
		}
		if strings.HasSuffix(t.Name, "KVStoreAdapter") {
			t = t.Args[0]
			continue
		}
		i := strings.LastIndexByte(t.Name, '.')
		switch t.Name[i+1:] {
		case "OpenKVStore", "KVStore":
			base.store = "kv"
		case "OpenMemoryStore":
			base.store = "mem"
		case "OpenTransientStore":
			base.store = "transient"
		default:
			base.store = "?"
		}
		break
	}
	out := []layout{base}
	if key != nil {
		prefixes = append(prefixes, key)
	}
	for _, p := range prefixes {
		out = c.extend(r, out, p)
	}
	return out
}

func (c *Ctx) extend(r *Root, ls []layout, t *Term) []layout {
	add := func(p keyPart) {
		for i := range ls {
			ls[i].parts = append(append([]keyPart{}, ls[i].parts...), p)
		}
	}
	if ty := r.e.in.boxed[t]; ty != nil && t.Op != OpGlobal {
		switch b := ty.Underlying().(type) {
		case *types.Basic:
			if b.Info()&types.IsString != 0 && t.Op != OpParam {
				if s, err := strconv.Unquote(t.Name); t.isConst() && err == nil {
					add(keyPart{kind: 'c', lit: s})
				} else {
					add(keyPart{kind: 's', term: t})
				}
				return ls
			}
			if b.Kind() == types.Uint64 {
				add(keyPart{kind: 'u', term: t})
				return ls
			}
		}
	}
	switch {
	case t.Op == OpList && len(t.Args) == 0 || t == r.e.in.Nil:
	case t.Op == OpList:
		lit := ""
		for _, a := range t.Args {
			n, ok := a.intVal()
			if !ok || n < 0 || n > 255 {
				add(keyPart{kind: '?', term: t})
				return ls
			}
			lit += string([]byte{byte(n)})
		}
		add(keyPart{kind: 'c', lit: lit})
	case t.Op == OpCall && t.Name == "key":
		for _, a := range t.Args {
			ls = c.extend(r, ls, a)
		}
	case t.Op == OpCall && t.Name == "append" && len(t.Args) == 2:
		ls = c.extend(r, c.extend(r, ls, t.Args[0]), t.Args[1])
	case t.Op == OpIte:
		return append(c.extend(r, append([]layout{}, ls...), t.Args[1]), c.extend(r, append([]layout{}, ls...), t.Args[2])...)
	case t.Op == OpGlobal:
		s, ok := c.initBytes(t.Name)
		if !ok {
			add(keyPart{kind: '?', term: t})
			break
		}
		if len(ls) > 0 && len(ls[0].parts) == 0 {
			for i := range ls {
				if j := strings.IndexByte(t.Name, '.'); j > 0 {
					ls[i].mod = t.Name[:j]
				}
			}
		}
		add(keyPart{kind: 'c', lit: s, name: t.Name})
	case t.Op == OpParam:
		ty := r.e.in.boxed[t]
		n, err := strconv.Atoi(strings.TrimPrefix(t.Name, "$"))
		if err == nil {
			// parameter numbers do not count the receiver and the context
			if idx := paramIndex(r.fn, n); idx >= 0 {
				if ty == nil {
					ty = r.fn.Params[idx].Type()
				}
				if gs, ok := c.argConsts(r.fn, idx, map[*ssa.Parameter]bool{}); ok {
					var out []layout
					set := map[string]bool{}
					for _, g := range gs {
						if set[g] {
							continue
						}
						set[g] = true
						s, ok := c.initBytes(g)
						if !ok {
							add(keyPart{kind: '?', term: t})
							return ls
						}
						for _, l := range ls {
							l.parts = append(append([]keyPart{}, l.parts...), keyPart{kind: 'c', lit: s, name: g})
							out = append(out, l)
						}
					}
					return out
				}
			}
		}
		if ty != nil && isString(ty) {
			add(keyPart{kind: 's', term: t})
			break
		}
		add(keyPart{kind: '?', term: t})
	default:
		add(keyPart{kind: '?', term: t})
	}
	return ls
}

type keyUse struct {
	op   string // Set, Get, Has, Delete, Iterate
	r    *Root
	site string
	ls   []layout
	term *Term // the iterator
	own  int   // Iterate: parts belonging to the store's own prefix

	types map[string]bool // record types the value is encoded as or decoded to
	cuts  []*Term         // parts cut out of an iterated key
}

// keyUses: every access of every function to a store.
func (c *Ctx) keyUses() []keyUse {
	var out []keyUse
	for _, fn := range c.pr.Funcs {
		if c.su.direct[fn] == 0 || fn.Parent() != nil || moduleOf(fnPkgPath(fn)) == "" {
			continue
		}
		r := c.rootFn(fn, shortName(fn), "+store", storeMode)
		seen := map[*Term]bool{}
		first := len(out)
		byTerm := map[*Term]int{}
		var walk func(t *Term)
		walk = func(t *Term) {
			if t == nil || seen[t] {
				return
			}
			seen[t] = true
			if t.Op == OpCall {
				op := ""
				switch {
				case t.Name == "store.Set" || t.Name == "store.Get" || t.Name == "store.Has" || t.Name == "store.Delete":
					op = t.Name[6:]
					out = append(out, keyUse{op: op, r: r, site: shortName(fn), ls: c.layouts(r, t.Args[0], t.Args[1])})
					byTerm[t] = len(out) - 1
					if op == "Set" {
						out[len(out)-1].types = r.e.in.coded[t.Args[2]]
					}
				case strings.HasSuffix(t.Name, "PrefixIterator") && len(t.Args) == 2:
					out = append(out, keyUse{op: "Iterate", r: r, site: shortName(fn), ls: c.layouts(r, t.Args[0], t.Args[1]), term: t, own: len(c.layouts(r, t.Args[0], nil)[0].parts)})
				case (t.Name == "store.Iterator" || t.Name == "store.ReverseIterator") && len(t.Args) == 3:
					out = append(out, keyUse{op: "Range", r: r, site: shortName(fn), ls: c.layouts(r, t.Args[0], nil), term: t, own: len(c.layouts(r, t.Args[0], nil)[0].parts)})
					for _, k := range t.Args[1:] {
						if k != r.e.in.Nil {
							out = append(out, keyUse{op: "Bound", r: r, site: shortName(fn), ls: c.layouts(r, t.Args[0], k)})
						}
					}
				case strings.HasSuffix(t.Name, "Paginate") && len(t.Args) >= 1:
					l := c.layouts(r, t.Args[0], nil)
					out = append(out, keyUse{op: "Iterate", r: r, site: shortName(fn), ls: l, term: t, own: len(l[0].parts)})
				}
			}
			for _, a := range t.Args {
				walk(a)
			}
		}
		for _, s := range r.sites {
			walk(s.Call)
		}
		for _, x := range r.rets {
			for _, v := range x.vals {
				walk(v)
			}
			for _, f := range x.st.facts {
				walk(f)
			}
		}
		for i := first; i < len(out); i++ {
			if out[i].term != nil {
				byTerm[out[i].term] = i
			}
		}
		for t := range seen {
			if t.Op != OpCall || len(t.Args) == 0 {
				continue
			}
			a := t.Args[0]
			src := a
			if a.Op == OpField && a.Args[0].Op == OpElem {
				src = a.Args[0].Args[0]
			}
			i, ok := byTerm[src]
			switch {
			case !ok:
			case t.Name == "unmarshal" && (src == a || fieldOf(a) == "Value"):
				if out[i].types == nil {
					out[i].types = map[string]bool{}
				}
				for ty := range r.e.in.coded[t] {
					out[i].types[ty] = true
				}
			case t.Name == "slice" && src != a && fieldOf(a) == "Key":
				out[i].cuts = append(out[i].cuts, t)
			}
		}
	}
	return out
}

func paramIndex(fn *ssa.Function, n int) int {
	k := 0
	for i, p := range fn.Params {
		if fn.Signature.Recv() != nil && i == 0 {
			continue
		}
		if isCtx(p.Type()) {
			continue
		}
		k++
		if k == n {
			return i
		}
	}
	return -1
}

func init() {
	regT("C32", "symbolic execution of every function with direct access to a store; the layouts of all keys (constant bytes, fixed-width integers, texts) are compared with each other, and cut keys with the layout they are cut from", "For every function that opens a store (including generated collections prefixes) the keys of each Set, Get, Has, Delete and iteration are computed as sequences of parts: constant bytes (values of package variables, evaluated from their initialisers), unsigned integers of eight bytes, texts. Checked: GetByteKey is the concatenation of the encodings of its arguments; every record is stored under a key which starts with constant bytes and continues with integers, account addresses, or one text at its end; no two kinds of records of a store have constant bytes of which one begins with the other; every read, deletion and iteration uses keys of exactly one kind, with the same layout and (for iterations) a leading part of it, with the parts in the roles in which records are stored; all values under one kind are encoded and decoded as one type; parts cut out of iterated keys start and end where parts of the layout do. Axiom: no account address (bech32 text) begins with another one. Out of scope: stores of modules of other repositories, opened in app/upgrades.", func(c *Ctx) {
		var uses []keyUse
		for _, u := range c.keyUses() {
			if u.ls[0].mod != "app" { // stores of modules that are not part of the repository
				uses = append(uses, u)
			}
		}
		kinds := map[string][]layout{} // store and module -> kinds of records
		add := func(l layout) {
			id := l.store + " " + l.mod
			for _, k := range kinds[id] {
				if k.head() == l.head() && k.kinds() == l.kinds() && (k.origin() == l.origin() || k.origin() == "" || l.origin() == "") {
					return
				}
			}
			kinds[id] = append(kinds[id], l)
		}
		c.sec("encoding", func() {
			r := c.root("util.GetByteKey", inlineAll)
			r.returns(0, nil, "fold(nil, append(acc, elem($1)))")
		})
		c.sec("kinds", func() {
			for _, u := range uses {
				if u.op != "Set" || strings.HasPrefix(u.site, "app.") {
					continue
				}
				for _, l := range u.ls {
					ok := l.store != "?" && l.head() != ""
					for _, p := range l.parts {
						ok = ok && p.kind != '?'
					}
					c.check(ok, u.site+" key", u.r.fn.Pos(), "%s stores a record under a key that does not start with constant bytes followed by fixed-width integers and texts: %s", u.site, l)
					m := l.merged()
					for i, p := range m {
						if p.kind == 's' && i < len(m)-1 {
							c.check(addressLike(p.term), u.site+" text in key", u.r.fn.Pos(), "the key of %s contains a text (%s) before its end which is not an account address: %s", u.site, clip(p.term.String()), l)
						}
					}
					add(l)
				}
			}
			// collections declare their prefixes
			for _, p := range c.pr.Repo {
				for name := range c.pr.inits {
					if g, _, _ := c.initOf(name); g != nil && g.Pkg == p.SSA && strings.HasSuffix(g.Type().String(), "collections.Prefix") {
						s, ok := c.initBytes(name)
						if c.check(ok, name, g.Pos(), "the collection prefix %s is not a constant", name) {
							add(layout{store: "kv", mod: moduleOf(p.Path), parts: []keyPart{{kind: 'c', lit: s, name: name}}})
						}
					}
				}
			}
		})
		c.sec("collisions", func() {
			for _, id := range sortedKeys(kinds) {
				ks := kinds[id]
				for i, a := range ks {
					for _, b := range ks[i+1:] {
						c.check(!strings.HasPrefix(a.head(), b.head()) && !strings.HasPrefix(b.head(), a.head()), "prefixes of "+id, 0, "two kinds of records of %s share key bytes: %s (%s) and %s (%s)", id, a, a.origin(), b, b.origin())
					}
				}
			}
		})
		c.sec("uses", func() {
			for _, u := range uses {
				for _, l := range u.ls {
					id := l.store + " " + l.mod
					var hit []layout
					for _, k := range kinds[id] {
						if strings.HasPrefix(k.head(), l.head()) || strings.HasPrefix(l.head(), k.head()) {
							hit = append(hit, k)
						}
					}
					if !c.check(len(hit) == 1, u.site+" "+u.op, u.r.fn.Pos(), "%s uses keys of the form %s, which belong to %d kinds of records", u.site, l, len(hit)) {
						continue
					}
					k := hit[0]
					full := u.op == "Get" || u.op == "Has" || u.op == "Delete"
					same := k.head() == l.head() && (full && k.kinds() == l.kinds() || !full && strings.HasPrefix(k.kinds(), strings.TrimSuffix(l.kinds(), "?")))
					c.check(same, u.site+" "+u.op, u.r.fn.Pos(), "%s (%s) uses keys of the form %s, the records are stored under %s", u.site, u.op, l, k)
				}
			}
		})
		c.sec("roles", func() {
			role := map[string][]map[string]bool{} // kind -> part -> what it is called where records are stored
			id := func(l layout) string { return l.store + " " + l.mod + " " + fmt.Sprint([]byte(l.head())) }
			for _, u := range uses {
				for _, l := range u.ls {
					if u.op != "Set" {
						continue
					}
					m := l.merged()
					if role[id(l)] == nil {
						role[id(l)] = make([]map[string]bool, len(m))
					}
					for i, p := range m {
						if n := roleName(u.r, p.term); n != "" && i < len(role[id(l)]) {
							if role[id(l)][i] == nil {
								role[id(l)][i] = map[string]bool{}
							}
							role[id(l)][i][n] = true
						}
					}
				}
			}
			for _, u := range uses {
				for _, l := range u.ls {
					ro := role[id(l)]
					for i, p := range l.merged() {
						n := roleName(u.r, p.term)
						if n == "" || i >= len(ro) {
							continue
						}
						for j := range ro {
							c.check(j == i || ro[i][n] || !ro[j][n], u.site+" "+u.op+" parts", u.r.fn.Pos(), "%s uses %s as part %d of the key %s, where the records are stored with it as part %d", u.site, clip(p.term.String()), i, l, j)
						}
					}
				}
			}
		})
		c.sec("types", func() {
			ty := map[string]map[string][]string{}
			for _, u := range uses {
				for _, l := range u.ls {
					for t := range u.types {
						if strings.HasPrefix(u.site, "app.") {
							continue // the types of an earlier version
						}
						h := l.store + " " + l.mod + " " + fmt.Sprint([]byte(l.head()))
						if ty[h] == nil {
							ty[h] = map[string][]string{}
						}
						ty[h][t] = append(ty[h][t], u.site)
					}
				}
			}
			for _, h := range sortedKeys(ty) {
				c.check(len(ty[h]) == 1, "record type "+h, 0, "values under %s are encoded and decoded as different types: %v", h, ty[h])
			}
		})
		c.sec("cuts", func() {
			for _, u := range uses {
				for _, t := range u.cuts {
					for _, l := range u.ls {
						id := l.store + " " + l.mod
						for _, k := range kinds[id] {
							if k.head() == l.head() {
								c.cutOK(u, l, k, t)
							}
						}
					}
				}
			}
		})
		var desc []string
		for _, id := range sortedKeys(kinds) {
			for _, k := range kinds[id] {
				desc = append(desc, k.String())
			}
		}
		sort.Strings(desc)
		c.extra["layouts"] = desc
	})
}

// roleName: what a part of a key is called: the field or the argument.
func roleName(r *Root, t *Term) string {
	n := ""
	switch {
	case t == nil:
	case t.Op == OpField:
		n = fieldOf(t)
	case t.Op == OpParam:
		if k, err := strconv.Atoi(strings.TrimPrefix(t.Name, "$")); err == nil {
			if i := paramIndex(r.fn, k); i >= 0 {
				n = r.fn.Params[i].Name()
			}
		}
	}
	n = strings.ToLower(n)
	if m := strings.TrimSuffix(n, "address"); m != "" {
		n = m
	}
	return n
}

// addressLike: a field of a record or of a message, or an argument, which names an
// account. The address of an account is never the beginning of another one's.
func addressLike(t *Term) bool {
	if t.Op == OpParam {
		return true
	}
	if t.Op == OpField {
		n := strings.ToLower(fieldOf(t))
		for _, s := range []string{"staker", "delegator", "address", "funder", "creator"} {
			if strings.Contains(n, s) {
				return true
			}
		}
	}
	return false
}

// cutOK: a part cut out of an iterated key starts and ends where parts of the key do.
func (c *Ctx) cutOK(u keyUse, l, k layout, t *Term) {
	in := u.r.e.in
	parts := k.parts
	if len(parts) < u.own {
		return
	}
	// what the iterator fixed: texts of known length
	known := map[int]*Term{}
	for i, p := range l.parts {
		if i < len(parts) && p.kind == 's' {
			known[i] = p.term
		}
	}
	add := func(a *Term, op string, b *Term) *Term {
		return u.r.e.T("_a "+op+" _b", binds{"_a": a, "_b": b})
	}
	rel := parts[u.own:]
	key := t.Args[0]
	marks := map[*Term]int{in.Zero: 0}
	pos := in.Zero
	ok := true
	for i, p := range rel {
		switch {
		case p.kind == 'c':
			pos = add(pos, "+", in.konst(strconv.Itoa(len(p.lit))))
		case p.kind == 'u':
			pos = add(pos, "+", in.konst("8"))
		case known[u.own+i] != nil:
			pos = add(pos, "+", in.strlen(known[u.own+i]))
		default:
			ok = false
		}
		if !ok {
			break
		}
		marks[pos] = i + 1
	}
	marks[in.Nil], marks[in.length(key)] = len(rel), len(rel)
	end := in.length(key)
	for i := len(rel) - 1; i >= 0; i-- {
		n := 0
		switch rel[i].kind {
		case 'c':
			n = len(rel[i].lit)
		case 'u':
			n = 8
		default:
			n = -1
		}
		if n < 0 {
			break
		}
		end = add(end, "-", in.konst(strconv.Itoa(n)))
		marks[end] = i
	}
	lo, ok1 := marks[t.Args[1]]
	hi, ok2 := marks[t.Args[2]]
	c.check(ok1 && ok2 && lo < hi, u.site+" cut", u.r.fn.Pos(), "%s cuts %s .. %s out of a key of the form %s, which is not where its parts start and end for every length of the texts", u.site, clip(t.Args[1].String()), clip(t.Args[2].String()), layout{store: k.store, mod: k.mod, parts: rel})
}
