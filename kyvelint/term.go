package main

// Symbolic value terms: hash-consed, canonicalised values used for value
// numbering. Two program values with the same term are the same value.

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpParam
	OpField
	OpCall
	OpRes
	OpBin // Name: operator
	OpLt
	OpLe
	OpEq
	OpNot
	OpAnd
	OpOr
	OpIte
	OpElem
	OpIdx
	OpMapKey
	OpMapVal
	OpLoop
	OpStruct
	OpList
	OpAddr
	OpObj
	OpGlobal
	OpFunc
	OpClosure
	OpZero
	OpJoin
	OpDid
	OpVer
)

type Term struct {
	Op     Op
	Name   string
	Args   []*Term
	Typ    types.Type
	id     int
	hasIte bool
}

type Interner struct {
	tab       map[string]*Term
	terms     []*Term
	fresh     int
	linear    bool
	keepLists bool
	ringMemo  map[*Term]*Term
	nonneg    map[*Term]bool            // values of unsigned type
	coinSet   map[*Term]bool            // coins whose entries are counted
	native    map[*Term]bool            // values of a native integer type
	boxed     map[*Term]types.Type      // types of values converted to interfaces
	coded     map[*Term]map[string]bool // record types of encoded values and of decoded ones
	True      *Term
	False     *Term
	Nil       *Term
	Err       *Term
	Zero      *Term
	One       *Term
}

func newInterner() *Interner {
	in := &Interner{coded: map[*Term]map[string]bool{}, boxed: map[*Term]types.Type{}, nonneg: map[*Term]bool{}, native: map[*Term]bool{}, tab: map[string]*Term{}}
	in.True = in.konst("true")
	in.False = in.konst("false")
	in.Nil = in.konst("nil")
	in.Err = in.konst("ERR")
	in.Zero = in.konst("0")
	in.One = in.konst("1")
	return in
}

func (in *Interner) mk(op Op, name string, args ...*Term) *Term {
	if op == OpCall {
		if g := existsOf[name]; g != "" {
			return in.mk(OpRes, "ok", in.mk(OpCall, g, args...))
		}
	}
	var b strings.Builder
	b.WriteByte(byte(op) + 'A')
	b.WriteString(name)
	ite := op == OpIte || op == OpJoin || op == OpBin && (name == "min" || name == "max") && len(args) == 2 || op == OpCall && (name == "without" || name == "fold")
	for _, a := range args {
		b.WriteByte('|')
		b.WriteString(strconv.Itoa(a.id))
		if a.hasIte {
			ite = true
		}
	}
	key := b.String()
	if t, ok := in.tab[key]; ok {
		return t
	}
	t := &Term{Op: op, Name: name, Args: args, id: len(in.terms), hasIte: ite && op != OpVer}
	in.terms = append(in.terms, t)
	in.tab[key] = t
	return t
}

func (in *Interner) konst(s string) *Term { return in.mk(OpConst, s) }

func (in *Interner) freshName(p string) string {
	in.fresh++
	return fmt.Sprintf("%s%d", p, in.fresh)
}

// isMinMax: the smaller or larger of two values.
func isMinMax(t *Term) bool {
	return t.Op == OpBin && (t.Name == "min" || t.Name == "max") && len(t.Args) == 2
}

func (t *Term) isConst() bool { return t.Op == OpConst }

func (t *Term) intVal() (int64, bool) {
	if t.Op != OpConst {
		return 0, false
	}
	v, err := strconv.ParseInt(t.Name, 10, 64)
	return v, err == nil
}

// ---- fields and structs

func (in *Interner) zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return in.False
		case u.Info()&types.IsString != 0:
			return in.konst(`""`)
		case u.Info()&types.IsNumeric != 0:
			return in.Zero
		}
		return in.Nil
	case *types.Struct:
		z := in.mk(OpZero, typeName(t))
		z.Typ = t
		return z
	case *types.Array:
		z := in.mk(OpZero, typeName(t))
		z.Typ = t
		return z
	}
	return in.Nil
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return pkgShort(p.Path()) })
}

// pkgShort gives the short qualifier of a package: the module for repository
// packages, the last path element otherwise.
func pkgShort(path string) string {
	if isRepoPath(path) {
		return moduleOf(path)
	}
	parts := strings.Split(path, "/")
	last := parts[len(parts)-1]
	if len(last) > 1 && last[0] == 'v' && last[1] >= '0' && last[1] <= '9' && len(parts) > 1 {
		last = parts[len(parts)-2]
	}
	return last
}

func fieldType(t types.Type, name string) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return s.Field(i).Type()
			}
		}
	}
	return nil
}

func (in *Interner) field(b *Term, name string) *Term {
	switch b.Op {
	case OpStruct:
		for i, f := range strings.Split(b.Name, ",") {
			if f == name {
				return b.Args[i+1]
			}
		}
		return in.field(b.Args[0], name)
	case OpZero:
		if ft := fieldType(b.Typ, name); ft != nil {
			return in.zeroOf(ft)
		}
		if a, ok := b.Typ.Underlying().(*types.Array); ok && strings.HasPrefix(name, "[") {
			return in.zeroOf(a.Elem())
		}
	case OpIte:
		return in.ite(b.Args[0], in.field(b.Args[1], name), in.field(b.Args[2], name))
	case OpList:
		if strings.HasPrefix(name, "[") {
			if i, err := strconv.Atoi(strings.Trim(name, "[]")); err == nil && i < len(b.Args) {
				return b.Args[i]
			}
		}
	}
	if b.Op == OpRes && b.Name == "val" {
		// a record holds the fields of its own key (decided by C31)
		if i, ok := keyFields[b.Args[0].Name][name]; ok && b.Args[0].Op == OpCall && i < len(b.Args[0].Args) {
			return b.Args[0].Args[i]
		}
	}
	return in.mk(OpField, name, b)
}

// existsOf: the test that a record exists reads the key the getter reads
// (decided by the checks of C31).
var existsOf = map[string]string{
	"delegation.DoesDelegationDataExist": "delegation.GetDelegationData",
	"delegation.DoesDelegatorExist":      "delegation.GetDelegator",
	"funders.DoesFunderExist":            "funders.GetFunder",
	"funders.DoesFundingExist":           "funders.GetFunding",
	"funders.DoesFundingStateExist":      "funders.GetFundingState",
	"stakers.DoesStakerExist":            "stakers.GetStaker",
	"stakers.DoesValaccountExist":        "stakers.GetValaccount",
}

// keyFields: which fields of a stored record are the arguments it is found by.
var keyFields = map[string]map[string]int{
	"bundles.GetRoundRobinProgress":            {"PoolId": 0},
	"bundles.GetFinalizedBundle":               {"PoolId": 0, "Id": 1},
	"team.GetTeamVestingAccount":               {"Id": 0},
	"stakers.GetLeavePoolEntry":                {"Index": 0},
	"stakers.GetLeavePoolEntryByIndex2":        {"Staker": 0, "PoolId": 1},
	"stakers.GetCommissionChangeEntry":         {"Index": 0},
	"stakers.GetCommissionChangeEntryByIndex2": {"Staker": 0},
	"stakers.GetValaccount":                    {"PoolId": 0, "Staker": 1},
	"stakers.GetStaker":                        {"Address": 0},
	"funders.GetFunder":                        {"Address": 0},
	"funders.GetFunding":                       {"FunderAddress": 0, "PoolId": 1},
	"funders.GetFundingState":                  {"PoolId": 0},
	"pool.GetPool":                             {"Id": 0},
	"pool.GetPoolWithError":                    {"Id": 0},
	"delegation.GetDelegator":                  {"Staker": 0, "Delegator": 1},
	"delegation.GetDelegationData":             {"Staker": 0},
	"delegation.GetUndelegationQueueEntry":     {"Index": 0},
	"delegation.GetDelegationEntry":            {"Staker": 0, "KIndex": 1},
}

func (in *Interner) path(b *Term, p []string) *Term {
	for _, f := range p {
		b = in.field(b, f)
	}
	return b
}

func (in *Interner) update(base *Term, p []string, v *Term) *Term {
	if len(p) == 0 {
		return v
	}
	f := p[0]
	nv := v
	if len(p) > 1 {
		nv = in.update(in.field(base, f), p[1:], v)
	}
	names := []string{}
	vals := map[string]*Term{}
	root := base
	if base.Op == OpStruct {
		root = base.Args[0]
		for i, n := range strings.Split(base.Name, ",") {
			names = append(names, n)
			vals[n] = base.Args[i+1]
		}
	}
	if _, ok := vals[f]; !ok {
		names = append(names, f)
	}
	vals[f] = nv
	if in.field(root, f) == nv {
		delete(vals, f)
		out := names[:0]
		for _, n := range names {
			if n != f {
				out = append(out, n)
			}
		}
		names = out
	}
	if len(names) == 0 {
		return root
	}
	sort.Strings(names)
	args := []*Term{root}
	for _, n := range names {
		args = append(args, vals[n])
	}
	t := in.mk(OpStruct, strings.Join(names, ","), args...)
	return t
}

// ---- booleans

func (in *Interner) not(a *Term) *Term {
	switch a.Op {
	case OpConst:
		if a == in.True {
			return in.False
		}
		if a == in.False {
			return in.True
		}
	case OpNot:
		return a.Args[0]
	case OpLt:
		return in.mk(OpLe, "", a.Args[1], a.Args[0])
	case OpLe:
		return in.mk(OpLt, "", a.Args[1], a.Args[0])
	case OpAnd:
		return in.or(in.not(a.Args[0]), in.not(a.Args[1]))
	case OpOr:
		return in.and(in.not(a.Args[0]), in.not(a.Args[1]))
	case OpIte:
		return in.ite(a.Args[0], in.not(a.Args[1]), in.not(a.Args[2]))
	}
	return in.mk(OpNot, "", a)
}

func (in *Interner) and(a, b *Term) *Term {
	if a == in.True {
		return b
	}
	if b == in.True {
		return a
	}
	if a == in.False || b == in.False {
		return in.False
	}
	if a == b {
		return a
	}
	return in.nary(OpAnd, a, b)
}

// nary: conjunctions and disjunctions are kept flat and ordered (nested to the
// right), so that grouping and order do not distinguish them.
func (in *Interner) nary(op Op, a, b *Term) *Term {
	var parts []*Term
	var flat func(t *Term)
	flat = func(t *Term) {
		if t.Op == op {
			for _, x := range t.Args {
				flat(x)
			}
			return
		}
		parts = append(parts, t)
	}
	flat(a)
	flat(b)
	sort.SliceStable(parts, func(i, j int) bool { return parts[i].id < parts[j].id })
	var u []*Term
	has := map[*Term]bool{}
	for _, p := range parts {
		if has[p] {
			continue
		}
		has[p] = true
		u = append(u, p)
	}
	for _, p := range u {
		if has[in.not(p)] {
			if op == OpAnd {
				return in.False
			}
			return in.True
		}
	}
	out := u[len(u)-1]
	for i := len(u) - 2; i >= 0; i-- {
		out = in.mk(op, "", u[i], out)
	}
	return out
}

func (in *Interner) or(a, b *Term) *Term {
	if a == in.False {
		return b
	}
	if b == in.False {
		return a
	}
	if a == in.True || b == in.True {
		return in.True
	}
	if a == b {
		return a
	}
	return in.nary(OpOr, a, b)
}

func (in *Interner) ite(c, a, b *Term) *Term {
	if c == in.True {
		return a
	}
	if c == in.False {
		return b
	}
	if a == b {
		return a
	}
	if c.Op == OpNot {
		return in.ite(c.Args[0], b, a)
	}
	if c.Op == OpLe || c.Op == OpAnd { // canonical polarity: conditions use Lt, Or
		return in.ite(in.not(c), b, a)
	}
	if a == in.True && b == in.False {
		return c
	}
	if a == in.False && b == in.True {
		return in.not(c)
	}
	if a == in.True {
		return in.or(c, b)
	}
	if b == in.False {
		return in.and(c, a)
	}
	if a == in.False {
		return in.and(in.not(c), b)
	}
	if b == in.True {
		return in.or(in.not(c), a)
	}
	// versions of one record differ in their changed fields only
	if a.Op == OpStruct || b.Op == OpStruct {
		ra, fa := structFields(a)
		rb, fb := structFields(b)
		if ra == rb && ra.Op != OpIte {
			out := ra
			names := map[string]bool{}
			for n := range fa {
				names[n] = true
			}
			for n := range fb {
				names[n] = true
			}
			for _, n := range sortedKeys(names) {
				out = in.update(out, []string{n}, in.ite(c, in.field(a, n), in.field(b, n)))
			}
			return out
		}
	}
	if c.Op == OpCall && c.Name == "contains" && a.Op == OpCall && a.Name == "without" && a.Args[0] == b && c.Args[0] == b && c.Args[1] == a.Args[1] {
		return a
	}
	if a.Op == OpIte && a.Args[0] == c {
		a = a.Args[1]
	}
	if b.Op == OpIte && b.Args[0] == c {
		b = b.Args[2]
	}
	if a == b {
		return a
	}
	if c.Op == OpLt {
		x, y := c.Args[0], c.Args[1]
		if a == x && b == y {
			return in.comm("min", x, y)
		}
		if a == y && b == x {
			return in.comm("max", x, y)
		}
	}
	return in.mk(OpIte, "", c, a, b)
}

func (in *Interner) nonNil(t *Term) bool {
	switch t.Op {
	case OpAddr, OpObj, OpClosure, OpFunc, OpStruct, OpParam:
		return true
	case OpList:
		return len(t.Args) > 0
	case OpConst:
		return t != in.Nil
	}
	return false
}

func (in *Interner) eq(a, b *Term) *Term {
	if in.linear {
		a, b = in.lin(a, b)
	}
	if a == b {
		return in.True
	}
	if v := in.bound(a, b, "eq"); v != nil {
		return v
	}
	if a.isConst() && b.isConst() {
		if a.Name == "ERR?" && b != in.Nil || b.Name == "ERR?" && a != in.Nil {
			if a.Name != "ERR?" {
				a, b = b, a
			}
			return in.mk(OpEq, "", a, b)
		}
		return in.False
	}
	if a.isConst() {
		a, b = b, a
	}
	if b == in.True {
		return a
	}
	if b == in.False {
		return in.not(a)
	}
	if b == in.Nil && in.nonNil(a) {
		return in.False
	}
	if b.isConst() && a.Op == OpIte {
		return in.ite(a.Args[0], in.eq(a.Args[1], b), in.eq(a.Args[2], b))
	}
	if !b.isConst() && b.id < a.id {
		a, b = b, a
	}
	// len(s) == 0 for strings is s == ""
	if a.Op == OpCall && a.Name == "strlen" && b == in.Zero {
		return in.eq(a.Args[0], in.konst(`""`))
	}
	if a.Op == OpCall && a.Name == "len" && b == in.Zero && in.coinSet[a.Args[0]] {
		return in.mk(OpCall, "iszero", a.Args[0])
	}
	return in.mk(OpEq, "", a, b)
}

// bound: a comparison of a minimum or maximum with one of its two operands.
func (in *Interner) bound(a, b *Term, op string) *Term {
	of := func(m, x *Term) *Term {
		if m.Op == OpBin && (m.Name == "min" || m.Name == "max") && len(m.Args) == 2 {
			if m.Args[0] == x {
				return m.Args[1]
			}
			if m.Args[1] == x {
				return m.Args[0]
			}
		}
		return nil
	}
	if y := of(a, b); y != nil { // min(b, y) ? b
		switch op + a.Name {
		case "eqmin":
			return in.not(in.lt(y, b, false))
		case "eqmax":
			return in.not(in.lt(b, y, false))
		case "ltmin":
			return in.lt(y, b, false)
		case "ltmax":
			return in.False
		}
	}
	if y := of(b, a); y != nil { // a ? min(a, y)
		switch op + b.Name {
		case "eqmin":
			return in.not(in.lt(y, a, false))
		case "eqmax":
			return in.not(in.lt(a, y, false))
		case "ltmin":
			return in.False
		case "ltmax":
			return in.lt(a, y, false)
		}
	}
	return nil
}

// namedErr: an error told apart from others, because the program compares it.
func (in *Interner) namedErr(t *Term) bool {
	return t.Op == OpConst && strings.HasPrefix(t.Name, "ERR:")
}

func (in *Interner) lt(a, b *Term, unsigned bool) *Term {
	if in.linear {
		a, b = in.lin(a, b)
	}
	if x, ok := a.intVal(); ok {
		if y, ok := b.intVal(); ok {
			return in.boolT(x < y)
		}
	}
	// a choice compared with a number: the choice, when it decides
	for i, x := range []*Term{a, b} {
		if y := []*Term{b, a}[i]; x.Op == OpIte && y.isConst() {
			l, r := in.lt(x.Args[1], y, unsigned), in.lt(x.Args[2], y, unsigned)
			if i == 1 {
				l, r = in.lt(y, x.Args[1], unsigned), in.lt(y, x.Args[2], unsigned)
			}
			if (l == in.True || l == in.False) && (r == in.True || r == in.False) {
				return in.ite(x.Args[0], l, r)
			}
		}
	}
	if a == b {
		return in.False
	}
	if v := in.bound(a, b, "lt"); v != nil {
		return v
	}
	if in.linear {
		// below the larger of two: below one of them
		best := func(t *Term) bool { return t.Op == OpBin && (t.Name == "max" || t.Name == "min") && !hasWild(t) }
		join := func(or bool, t *Term, f func(x *Term) *Term) *Term {
			out := f(t.Args[0])
			for _, x := range t.Args[1:] {
				if or {
					out = in.or(out, f(x))
				} else {
					out = in.and(out, f(x))
				}
			}
			return out
		}
		if best(b) {
			return join(b.Name == "max", b, func(x *Term) *Term { return in.lt(a, x, unsigned) })
		}
		if best(a) {
			return join(a.Name == "min", a, func(x *Term) *Term { return in.lt(x, b, unsigned) })
		}
	}
	if !unsigned {
		unsigned = in.isNonNeg(a) && in.isNonNeg(b)
	}
	if unsigned || a.Op == OpCall && isLen(a.Name) || b.Op == OpCall && isLen(b.Name) {
		if a == in.Zero {
			return in.not(in.eq(b, in.Zero))
		}
		if b == in.One {
			return in.eq(a, in.Zero)
		}
		if b == in.Zero {
			return in.False
		}
	}
	return in.mk(OpLt, "", a, b)
}

func (in *Interner) isNonNeg(t *Term) bool {
	if v, ok := t.intVal(); ok {
		return v >= 0
	}
	if in.nonneg[t] {
		return true
	}
	if t.Op == OpBin && (t.Name == "add" || t.Name == "mul" || t.Name == "max" || t.Name == "min") {
		for _, a := range t.Args {
			if !in.isNonNeg(a) {
				return false
			}
		}
		return true
	}
	return t.Op == OpCall && isLen(t.Name)
}

func isLen(n string) bool { return n == "len" || n == "strlen" }

func (in *Interner) le(a, b *Term, unsigned bool) *Term {
	return in.not(in.lt(b, a, unsigned))
}

func (in *Interner) boolT(v bool) *Term {
	if v {
		return in.True
	}
	return in.False
}

// ---- arithmetic

func (in *Interner) comm(op string, xs ...*Term) *Term {
	flat := []*Term{}
	for _, x := range xs {
		if x.Op == OpBin && x.Name == op {
			flat = append(flat, x.Args...)
		} else {
			flat = append(flat, x)
		}
	}
	if op == "add" || op == "mul" {
		acc := int64(0)
		if op == "mul" {
			acc = 1
		}
		out := flat[:0:0]
		for _, x := range flat {
			if v, ok := x.intVal(); ok && v < 1<<30 && v > -(1<<30) {
				if op == "add" {
					acc += v
				} else {
					acc *= v
				}
				continue
			}
			out = append(out, x)
		}
		if op == "mul" && acc == 0 {
			return in.Zero
		}
		if op == "add" && acc != 0 || op == "mul" && acc != 1 || len(out) == 0 {
			out = append(out, in.konst(strconv.FormatInt(acc, 10)))
		}
		flat = out
	}
	if op == "min" || op == "max" {
		seen := map[*Term]bool{}
		out := flat[:0:0]
		for _, x := range flat {
			if !seen[x] {
				seen[x] = true
				out = append(out, x)
			}
		}
		flat = out
	}
	if len(flat) == 1 {
		return flat[0]
	}
	sort.Slice(flat, func(i, j int) bool { return flat[i].id < flat[j].id })
	return in.mk(OpBin, op, flat...)
}

func (in *Interner) bin(op string, a, b *Term) *Term {
	switch op {
	case "add", "mul", "cadd", "cmin", "min", "max", "band", "bor", "bxor":
		if op == "cadd" {
			if a == in.Zero {
				return b
			}
			if b == in.Zero {
				return a
			}
		}
		return in.comm(op, a, b)
	case "sub":
		if b == in.Zero {
			return a
		}
		if a == b {
			return in.Zero
		}
		if x, ok := a.intVal(); ok {
			if y, ok := b.intVal(); ok {
				return in.konst(strconv.FormatInt(x-y, 10))
			}
		}
		// (x+y)-y, and x-c as x+(-c) for the loop counters
		if a.Op == OpBin && a.Name == "add" {
			for i, x := range a.Args {
				if x == b {
					rest := append(append([]*Term{}, a.Args[:i]...), a.Args[i+1:]...)
					return in.comm("add", rest...)
				}
			}
		}
	case "csub":
		if b == in.Zero {
			return a
		}
	case "quo", "dquo":
		if b == in.One {
			return a
		}
	}
	return in.mk(OpBin, op, a, b)
}

// ---- printing

func (t *Term) String() string { return t.str(0) }

var maxDepth = 14

func (t *Term) str(d int) string {
	if d > maxDepth {
		return "…"
	}
	s := func(i int) string { return t.Args[i].str(d + 1) }
	all := func(from int) string {
		var p []string
		for i := from; i < len(t.Args); i++ {
			p = append(p, s(i))
		}
		return strings.Join(p, ", ")
	}
	switch t.Op {
	case OpConst, OpParam:
		return t.Name
	case OpField:
		return s(0) + "." + t.Name
	case OpCall:
		return t.Name + "(" + all(0) + ")"
	case OpRes:
		return s(0) + "." + t.Name
	case OpBin:
		sym := map[string]string{"add": " + ", "mul": " * ", "sub": " - ", "quo": " / "}[t.Name]
		if sym != "" {
			var p []string
			for i := range t.Args {
				p = append(p, s(i))
			}
			return "(" + strings.Join(p, sym) + ")"
		}
		return t.Name + "(" + all(0) + ")"
	case OpLt:
		return s(0) + " < " + s(1)
	case OpLe:
		return s(0) + " <= " + s(1)
	case OpEq:
		return s(0) + " == " + s(1)
	case OpNot:
		if t.Args[0].Op == OpEq {
			return t.Args[0].Args[0].str(d+1) + " != " + t.Args[0].Args[1].str(d+1)
		}
		return "!" + s(0)
	case OpAnd:
		return "(" + s(0) + " && " + s(1) + ")"
	case OpOr:
		return "(" + s(0) + " || " + s(1) + ")"
	case OpIte:
		return "(" + s(0) + " ? " + s(1) + " : " + s(2) + ")"
	case OpElem:
		return "elem(" + s(0) + ")"
	case OpIdx:
		return s(0) + "[" + s(1) + "]"
	case OpMapKey:
		return "mapkey(" + s(0) + ")"
	case OpMapVal:
		return "mapval(" + s(0) + ")"
	case OpLoop:
		return t.Name
	case OpStruct:
		var p []string
		for i, n := range strings.Split(t.Name, ",") {
			p = append(p, n+": "+s(i+1))
		}
		return s(0) + "{" + strings.Join(p, ", ") + "}"
	case OpList:
		return "[" + all(0) + "]"
	case OpAddr:
		return "&" + s(0) + t.Name
	case OpObj:
		return "obj" + t.Name
	case OpGlobal:
		return "@" + t.Name
	case OpFunc:
		return "func " + t.Name
	case OpClosure:
		return "closure " + t.Name
	case OpZero:
		return "zero<" + t.Name + ">"
	case OpJoin:
		return "join{" + all(0) + "}"
	case OpDid:
		return "did " + s(0)
	}
	return "?"
}

func (t *Term) contains(pred func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var w func(*Term) bool
	w = func(x *Term) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		if pred(x) {
			return true
		}
		for _, a := range x.Args {
			if w(a) {
				return true
			}
		}
		return false
	}
	return w(t)
}
