package main

// Meaning of functions outside the repository, resolved by package and
// receiver type.

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (f *frame) external(m *types.Func, args []*Term, st *State, c *ssa.CallCommon) ([]*Term, bool) {
	e := f.e
	in := e.in
	pkg := ""
	if m.Pkg() != nil {
		pkg = m.Pkg().Path()
	}
	name := m.Name()
	rn := ""
	if r := recvNamed(m); r != nil {
		rn = r.Obj().Name()
	} else if c.IsInvoke() {
		if n := namedOf(c.Value.Type()); n != nil {
			rn = n.Obj().Name()
		}
	}
	one := func(t *Term) ([]*Term, bool) { return []*Term{st.simp(t)}, true }
	A := func(i int) *Term { return e.snap(st, args[i]) }
	switch {
	case pkg == "cosmossdk.io/math" || pkg == "github.com/cosmos/cosmos-sdk/types" && (rn == "Int" || rn == "Dec" || rn == "LegacyDec"):
		if t := f.mathCall(rn, name, args, st); t != nil {
			return one(t)
		}
		return nil, false
	case pkg == "github.com/cosmos/cosmos-sdk/types":
		switch rn + "." + name {
		case ".UnwrapSDKContext", ".WrapSDKContext":
			return one(in.mk(OpParam, "ctx"))
		case "Context.BlockTime", "Context.HeaderInfo":
			return one(in.mk(OpCall, "blocktime"))
		case "Context.BlockHeight":
			return one(in.mk(OpCall, "height"))
		case "Context.WithBlockHeight", "Context.WithEventManager", "Context.WithGasMeter", "Context.WithContext", "Context.WithBlockTime":
			return one(in.mk(OpParam, "ctx"))
		case "Coins.Add":
			return one(in.coinsAdd(A(0), A(1)))
		case "Coins.Sub":
			return one(in.bin("csub", A(0), in.coinsOf(A(1))))
		case "Coins.Min":
			return one(in.bin("cmin", A(0), A(1)))
		case "Coins.Max":
			return one(in.comm("cmax", A(0), A(1)))
		case ".NewCoins":
			return one(in.coinsOf(A(0)))
		case ".NewCoin", ".NewInt64Coin":
			return one(in.mk(OpCall, "coin", A(0), A(1)))
		case "Coin.Add":
			return one(in.mk(OpCall, "coin", in.coinPart(A(0), "Denom"), in.bin("add", in.coinPart(A(0), "Amount"), in.coinPart(A(1), "Amount"))))
		case "Coins.Empty", "Coins.IsZero":
			return one(in.mk(OpCall, "iszero", A(0)))
		case "Coins.AmountOf", "Coins.AmountOfNoDenomValidation":
			return one(in.mk(OpCall, "amountOf", A(0), A(1)))
		case ".MustAccAddressFromBech32":
			return one(in.mk(OpCall, "addr", A(0)))
		case ".AccAddressFromBech32":
			a := in.mk(OpCall, "addr", A(0))
			return []*Term{a, in.mk(OpRes, "err", a)}, true
		case "AccAddress.String":
			if a := A(0); a.Op == OpCall && a.Name == "addr" {
				return one(a.Args[0])
			}
		case ".BigEndianToUint64":
			return one(A(0))
		case ".Uint64ToBigEndian":
			return one(A(0))
		case "DecCoins.TruncateDecimal":
			a := A(0)
			return []*Term{in.mk(OpCall, "trunc", a), in.mk(OpCall, "frac", a)}, true
		case "EventManagerI.EmitTypedEvent", "EventManager.EmitTypedEvent":
			t := f.emit(st, args[1], c.Pos())
			return []*Term{t}, true
		case "EventManagerI.EmitTypedEvents", "EventManager.EmitTypedEvents":
			for _, a := range e.listArgs(args[1]) {
				f.emit(st, a, c.Pos())
			}
			return []*Term{in.Nil}, true
		}
	case pkg == "cosmossdk.io/errors" || pkg == "github.com/cosmos/cosmos-sdk/types/errors":
		switch rn + "." + name {
		case ".Wrap", ".Wrapf", ".WithType", "Error.Wrap", "Error.Wrapf":
			if r := c.Signature().Results(); r.Len() == 1 && isErrType(r.At(0).Type()) {
				if in.namedErr(args[0]) { // another error than the one wrapped
					return one(in.Err)
				}
				return one(args[0])
			}
		}
	case (pkg == "errors" || pkg == "cosmossdk.io/errors") && name == "Is" && in.namedErr(A(1)):
		return one(in.eq(A(0), A(1)))
	case pkg == "google.golang.org/grpc/internal/status" || pkg == "google.golang.org/grpc/status":
		if name == "Error" || name == "Errorf" {
			return one(in.Err)
		}
	case pkg == "errors" && name == "New" || pkg == "fmt" && name == "Errorf":
		return one(in.Err)
	case pkg == "errors" && name == "Join":
		return one(in.mk(OpRes, "err", in.mk(OpCall, "errors.Join", e.listArgs(A(0))...)))
	case pkg == "slices" && name == "Contains":
		return one(in.mk(OpCall, "contains", A(0), A(1)))
	case pkg == "slices" && name == "Concat":
		if l := A(0); l.Op == OpList {
			t := in.mk(OpList, "")
			for _, x := range l.Args {
				t = in.appendT(t, x)
			}
			return one(t)
		}
		return nil, false
	case pkg == "strings" && name == "Compare":
		a, b := A(0), A(1)
		return one(in.ite(in.lt(a, b, false), in.konst("-1"), in.ite(in.lt(b, a, false), in.One, in.Zero)))
	case pkg == "time" && rn == "Time":
		a := A(0)
		if a.Op == OpCall && a.Name == "blocktime" && name == "Unix" {
			return one(in.mk(OpCall, "now"))
		}
	case pkg == "encoding/binary" && rn == "littleEndian" && name == "Uint64" && len(args) > 1:
		return one(in.mk(OpCall, "fromle", A(len(args)-1)))
	case pkg == "encoding/binary" && rn == "littleEndian" && name == "PutUint64" && len(args) > 2:
		st.mem[args[1]] = in.mk(OpCall, "le", A(2))
		return nil, true
	case pkg == "encoding/binary" && name == "Uint64" && len(args) > 1:
		return one(A(len(args) - 1))
	case pkg == "encoding/binary" && name == "PutUint64" && len(args) > 2:
		// binary.BigEndian.PutUint64(buf, v)
		st.mem[args[1]] = A(2)
		return nil, true
	case pkg == "strings" && name == "EqualFold":
		return nil, false
	case pkg == "bytes" && name == "Equal":
		return one(in.eq(A(0), A(1)))
	case pkg == "os" && name == "Exit":
		st.dead = true
		return nil, true
	}
	return nil, false
}

func (f *frame) emit(st *State, ev *Term, pos token.Pos) *Term {
	e := f.e
	in := e.in
	b := ev
	tn := ""
	if t := e.objType[b]; t != nil {
		tn = evName(t)
	}
	v := e.snap(st, ev)
	if tn == "" {
		r := v
		if r.Op == OpStruct {
			r = r.Args[0]
		}
		if r.Op == OpZero {
			tn = r.Name
			if i := strings.LastIndexByte(tn, '.'); i >= 0 {
				tn = tn[i+1:]
			}
		}
	}
	if tn == "" {
		tn = "?"
	}
	t := in.mk(OpCall, "emit."+tn, v)
	e.sites = append(e.sites, &Site{Call: t, Name: "emit." + tn, Args: []*Term{v}, Pos: pos, Fn: f.fn, Chain: f.chain, St: st.factsOnly(), Loops: append([]*LoopInfo{}, e.loops...), Eff: true, Vers: st.versions()})
	st.addFact(in.mk(OpDid, "", t))
	return in.Nil
}

// versions: the last write to each store that has been written.
func (st *State) versions() map[string]*Term {
	m := map[string]*Term{}
	for k, v := range st.mem {
		if k.Op == OpGlobal && strings.HasPrefix(k.Name, "ver:") {
			m[k.Name[4:]] = v
		}
	}
	return m
}

func evName(t types.Type) string {
	if n := namedOf(t); n != nil {
		return n.Obj().Name()
	}
	return ""
}

func (in *Interner) coinsOf(l *Term) *Term {
	if l.Op == OpList {
		return in.mk(OpCall, "coins", l.Args...)
	}
	return l
}

func (in *Interner) coinsAdd(a, l *Term) *Term {
	z := in.mk(OpCall, "coins")
	isZ := func(t *Term) bool { return t == z || t == in.Nil || t.Op == OpList && len(t.Args) == 0 }
	b := in.coinsOf(l)
	if isZ(a) {
		return b
	}
	if isZ(b) {
		return a
	}
	return in.bin("cadd", a, b)
}

func (in *Interner) coinPart(c *Term, p string) *Term {
	if c.Op == OpCall && c.Name == "coin" {
		if p == "Denom" {
			return c.Args[0]
		}
		return c.Args[1]
	}
	return in.field(c, p)
}

func (f *frame) mathCall(rn, name string, args []*Term, st *State) *Term {
	e := f.e
	in := e.in
	A := func(i int) *Term { return e.snap(st, args[i]) }
	dec := rn == "LegacyDec" || rn == "Dec"
	switch rn {
	case "":
		switch name {
		case "NewInt", "NewIntFromUint64", "NewUint", "LegacyNewDec":
			in.native[A(0)] = true
			return A(0)
		case "NewIntFromBigInt", "LegacyNewDecFromInt", "LegacyNewDecFromBigInt":
			return A(0)
		case "ZeroInt", "LegacyZeroDec", "ZeroUint":
			return in.Zero
		case "OneInt", "LegacyOneDec", "OneUint":
			return in.One
		case "LegacyNewDecWithPrec":
			if v, ok := A(0).intVal(); ok {
				if p, ok := A(1).intVal(); ok {
					return in.konst(decString(v, p))
				}
			}
			return in.mk(OpCall, "decprec", A(0), A(1))
		case "LegacyMustNewDecFromStr":
			if s, err := strconv.Unquote(A(0).Name); err == nil && A(0).isConst() {
				return in.konst(normDec(s))
			}
			return in.mk(OpCall, "decstr", A(0))
		case "MinInt", "LegacyMinDec":
			return in.comm("min", A(0), A(1))
		case "MaxInt", "LegacyMaxDec":
			return in.comm("max", A(0), A(1))
		}
		return nil
	case "Int", "LegacyDec", "Dec", "Uint":
		switch name {
		case "Add", "AddRaw":
			return in.bin("add", A(0), A(1))
		case "Sub", "SubRaw":
			return in.bin("sub", A(0), A(1))
		case "Mul", "MulRaw", "MulInt", "MulInt64":
			return in.bin("mul", A(0), A(1))
		case "MulTruncate":
			return in.mk(OpBin, "multrunc", A(0), A(1))
		case "MulRoundUp":
			return in.mk(OpBin, "mulup", A(0), A(1))
		case "Quo", "QuoRaw", "QuoInt", "QuoInt64":
			if dec {
				return in.bin("dquo", A(0), A(1))
			}
			return in.bin("quo", A(0), A(1))
		case "QuoTruncate":
			return in.mk(OpBin, "dquotrunc", A(0), A(1))
		case "QuoRoundUp":
			return in.mk(OpBin, "dquoup", A(0), A(1))
		case "LT":
			return in.lt(A(0), A(1), false)
		case "LTE":
			return in.le(A(0), A(1), false)
		case "GT":
			return in.lt(A(1), A(0), false)
		case "GTE":
			return in.le(A(1), A(0), false)
		case "Equal":
			return in.eq(A(0), A(1))
		case "IsZero":
			return in.eq(A(0), in.Zero)
		case "IsPositive":
			return in.lt(in.Zero, A(0), false)
		case "IsNegative":
			return in.lt(A(0), in.Zero, false)
		case "Neg":
			return in.bin("sub", in.Zero, A(0))
		case "Uint64", "Int64", "ToLegacyDec", "BigInt", "Clone":
			return A(0)
		case "TruncateInt", "TruncateInt64", "TruncateDec":
			return in.trunc(A(0))
		case "RoundInt", "RoundInt64":
			return in.mk(OpCall, "round", A(0))
		case "Ceil":
			return in.mk(OpCall, "ceil", A(0))
		case "IsNil":
			if in.native[A(0)] {
				return in.False
			}
			return in.mk(OpCall, "isnil", A(0))
		}
	}
	return nil
}

func (in *Interner) trunc(a *Term) *Term {
	if _, ok := a.intVal(); ok {
		return a
	}
	return in.mk(OpCall, "trunc", a)
}

func normDec(s string) string {
	if strings.Contains(s, ".") {
		s = strings.TrimRight(s, "0")
		s = strings.TrimSuffix(s, ".")
	}
	return s
}

func decString(v, p int64) string {
	s := strconv.FormatInt(v, 10)
	neg := strings.HasPrefix(s, "-")
	s = strings.TrimPrefix(s, "-")
	for int64(len(s)) <= p {
		s = "0" + s
	}
	s = normDec(s[:int64(len(s))-p] + "." + s[int64(len(s))-p:])
	if neg {
		s = "-" + s
	}
	return s
}

// extOpaque: an external call without a fixed meaning.
func (f *frame) extOpaque(m *types.Func, args []*Term, st *State, c *ssa.CallCommon) ([]*Term, *State) {
	e := f.e
	in := e.in
	name := m.Name()
	var rn *types.Named
	if c.IsInvoke() {
		rn = namedOf(c.Value.Type())
	} else {
		rn = recvNamed(m)
	}
	sig := c.Signature()
	if rn != nil {
		if isStoreIface(rn) || rn.Obj().Name() == "Iterator" || rn.Obj().Name() == "MemStore" {
			return f.storeCall(m, args, st, c)
		}
		if km := keeperModule(rn); km != "" {
			full := args[1:]
			var out []*Term
			ps := sig.Params()
			for j := 0; j < ps.Len() && j < len(full); j++ {
				if !isCtx(ps.At(j).Type()) {
					out = append(out, full[j])
				}
			}
			eff := !readOnlyName(name)
			key := map[string]bool{"ext:" + km: true}
			var w map[string]bool
			if eff {
				w = key
			}
			return f.event(km+"."+name, sig, out, st, c.Pos(), eff, key, w, c)
		}
	}
	if rn != nil && (rn.Obj().Name() == "BaseApp" || rn.Obj().Name() == "App") && strings.Contains(rn.Obj().Pkg().Path(), "cosmos-sdk/") && strings.HasPrefix(name, "Set") {
		k := map[string]bool{"ext:baseapp": true}
		return f.event("baseapp."+name, sig, args[1:], st, c.Pos(), true, k, k, c)
	}
	nm := ""
	if rn != nil {
		nm = rn.Obj().Name() + "." + name
	} else if m.Pkg() != nil {
		nm = pkgShort(m.Pkg().Path()) + "." + name
	} else {
		nm = name
	}
	if rn != nil && rn.Obj().Name() == "GasMeter" && (name == "ConsumeGas" || name == "RefundGas") {
		return f.event("gas."+name, sig, args[1:], st, c.Pos(), true, map[string]bool{"gas": true}, map[string]bool{"gas": true}, c)
	}
	if rn != nil && rn.Obj().Pkg() != nil && rn.Obj().Pkg().Path() == "cosmossdk.io/collections" && e.storeMode {
		switch name {
		case "Set", "Remove", "Clear", "Next":
			k := map[string]bool{"store": true}
			return f.event("coll."+name, sig, append([]*Term{args[0]}, args[2:]...), st, c.Pos(), true, k, k, c)
		}
	}
	// arguments that are pointers to local objects may be written
	ptr := false
	for _, a := range args {
		if a.Op == OpObj || a.Op == OpAddr {
			ptr = true
		}
	}
	var ea []*Term
	for i, a := range args {
		if i == 0 && a.Op == OpParam && a.Name == "ctx" {
			continue
		}
		ea = append(ea, a)
	}
	readonly := strings.HasPrefix(name, "Marshal") || strings.HasPrefix(name, "MustMarshal") || pkgOf(m) == "fmt" || rn != nil && (strings.HasSuffix(rn.Obj().Name(), "Logger")) || name == "String" || name == "Size"
	var outs []*Term
	if ptr && !readonly {
		for i, a := range args {
			if a.Op == OpObj || a.Op == OpAddr {
				isUn := strings.Contains(name, "Unmarshal") || strings.Contains(name, "Decode") || name == "UnpackAny" || name == "GetCachedValue"
				if isUn || mutates(nm, i) {
					outs = append(outs, a)
				}
			}
		}
	}
	if len(outs) > 0 {
		var src []*Term
		for _, a := range ea {
			isOut := false
			for _, o := range outs {
				if o == a {
					isOut = true
				}
			}
			if !isOut {
				src = append(src, e.snap(st, a))
			}
		}
		kind := "out." + nm
		if strings.Contains(name, "Unmarshal") {
			kind = "unmarshal"
			// drop the codec
			if len(src) > 1 {
				src = src[len(src)-1:]
			}
			if strings.HasPrefix(nm, "json.") && len(outs) == 1 && len(src) == 1 {
				// fields absent from the input keep their values
				kind = nm
				src = append([]*Term{e.snap(st, outs[0])}, src...)
			}
		}
		v := in.mk(OpCall, kind, src...)
		in.noteCoded(v, c)
		for _, o := range outs {
			e.store(st, o, v)
		}
		return e.results(kind, v, sig), st
	}
	if strings.HasPrefix(name, "MustMarshal") || name == "Marshal" {
		v := e.snap(st, args[len(args)-1])
		t := in.mk(OpCall, "marshal", v)
		in.noteCoded(t, c)
		return e.results("marshal", t, sig), st
	}
	return f.event(nm, sig, ea, st, c.Pos(), false, nil, nil, c)
}

func mutates(nm string, i int) bool {
	switch nm {
	case "sort.Slice", "sort.SliceStable", "sort.Strings", "slices.Sort", "slices.SortFunc", "rand.Shuffle":
		return true
	}
	return false
}

func pkgOf(m *types.Func) string {
	if m.Pkg() == nil {
		return ""
	}
	return m.Pkg().Path()
}

// storeCall: primitive operations on KV stores and iterators.
func (f *frame) storeCall(m *types.Func, args []*Term, st *State, c *ssa.CallCommon) ([]*Term, *State) {
	e := f.e
	in := e.in
	name := m.Name()
	switch name {
	case "Get", "Has", "Iterator", "ReverseIterator":
		return f.event("store."+name, c.Signature(), args, st, c.Pos(), false, map[string]bool{"store": true}, nil, c)
	case "Set", "Delete":
		return f.event("store."+name, c.Signature(), args, st, c.Pos(), true, map[string]bool{"store": true}, map[string]bool{"store": true}, c)
	case "Valid":
		k := in.mk(OpGlobal, "iter:"+strconv.Itoa(args[0].id))
		v := e.content(st, k)
		return []*Term{in.mk(OpCall, "valid", args[0], v)}, st
	case "Next":
		k := in.mk(OpGlobal, "iter:"+strconv.Itoa(args[0].id))
		st.mem[k] = in.mk(OpCall, "next", e.content(st, k))
		return nil, st
	case "Key", "Value":
		id := ""
		if n := len(e.loops); n > 0 {
			id = strconv.Itoa(e.loops[n-1].id)
		}
		el := in.mk(OpElem, id, args[0])
		if n := len(e.loops); n > 0 {
			e.loops[n-1].elems[el] = true
			e.elemLp[el] = e.loops[n-1]
		}
		return []*Term{in.field(el, name)}, st
	case "Close":
		return f.event("iter.Close", c.Signature(), args, st, c.Pos(), true, nil, nil, c)
	}
	return f.event("store."+name, c.Signature(), args, st, c.Pos(), false, nil, nil, c)
}

// noteCoded: the record type a codec call is about.
func (in *Interner) noteCoded(t *Term, c *ssa.CallCommon) {
	if c == nil || len(c.Args) == 0 {
		return
	}
	a := c.Args[len(c.Args)-1]
	if mi, ok := a.(*ssa.MakeInterface); ok {
		a = mi.X
	}
	ty := a.Type()
	if p, ok := ty.Underlying().(*types.Pointer); ok {
		ty = p.Elem()
	}
	if namedOf(ty) == nil {
		return
	}
	if in.coded[t] == nil {
		in.coded[t] = map[string]bool{}
	}
	in.coded[t][typeName(ty)] = true
}
