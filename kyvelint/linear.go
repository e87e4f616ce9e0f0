package main

import (
	"sort"
	"strconv"
)

// Linear normal form of comparisons, for the rules only (switched on after an
// entry point has been interpreted): a - b < c becomes a < b + c, common
// summands cancel, constants are collected on one side. Whether the original
// form can wrap is a separate question, decided on the source by C44.

func (in *Interner) linAdd(t *Term, k int64, m map[*Term]int64, order *[]*Term, c *int64, ch *bool) {
	if v, ok := t.intVal(); ok {
		*c += k * v
		return
	}
	if t.Op == OpBin && t.Name == "add" {
		for _, a := range t.Args {
			in.linAdd(a, k, m, order, c, ch)
		}
		return
	}
	if t.Op == OpBin && t.Name == "sub" {
		*ch = true
		in.linAdd(t.Args[0], k, m, order, c, ch)
		in.linAdd(t.Args[1], -k, m, order, c, ch)
		return
	}
	if _, ok := m[t]; !ok {
		*order = append(*order, t)
	} else {
		*ch = true
	}
	m[t] += k
}

// lin returns the two sides of the normalised comparison a ? b.
func (in *Interner) lin(a, b *Term) (*Term, *Term) {
	if !linish(a) && !linish(b) {
		return a, b
	}
	if isWild(a) || isWild(b) {
		return a, b
	}
	m := map[*Term]int64{}
	var order []*Term
	var c int64
	ch := false
	in.linAdd(a, 1, m, &order, &c, &ch)
	c0 := c
	in.linAdd(b, -1, m, &order, &c, &ch)
	if c0 != 0 && c != c0 {
		ch = true
	}
	if !ch {
		return a, b
	}
	var l, r []*Term
	for _, t := range order {
		switch m[t] {
		case 0:
		case 1:
			l = append(l, t)
		case -1:
			r = append(r, t)
		default:
			return a, b
		}
	}
	if c > 0 {
		l = append(l, in.konst(strconv.FormatInt(c, 10)))
	} else if c < 0 {
		r = append(r, in.konst(strconv.FormatInt(-c, 10)))
	}
	side := func(x []*Term) *Term {
		if len(x) == 0 {
			return in.Zero
		}
		if len(x) == 1 {
			return x[0]
		}
		sort.Slice(x, func(i, j int) bool { return x[i].id < x[j].id })
		return in.comm("add", x...)
	}
	return side(l), side(r)
}

func linish(t *Term) bool { return t.Op == OpBin && (t.Name == "add" || t.Name == "sub") }

// ring writes every sum and difference inside the term in one form: the added
// terms less the subtracted ones. Machine integers form a ring under both, so
// this holds whether or not an intermediate result wraps.
func (in *Interner) ring(t *Term) *Term {
	if in.ringMemo == nil {
		in.ringMemo = map[*Term]*Term{}
	}
	if x, ok := in.ringMemo[t]; ok {
		return x
	}
	out := t
	if linish(t) {
		m := map[*Term]int64{}
		var order []*Term
		var c int64
		var ch bool
		in.linAdd(t, 1, m, &order, &c, &ch)
		k := map[*Term]int64{}
		var rs []*Term
		for _, x := range order {
			y := in.ring(x)
			if _, ok := k[y]; !ok {
				rs = append(rs, y)
			}
			k[y] += m[x]
			if n := k[y]; n > 8 || n < -8 {
				in.ringMemo[t] = t
				return t
			}
		}
		sort.Slice(rs, func(i, j int) bool { return rs[i].id < rs[j].id })
		var l, r []*Term
		for _, x := range rs {
			for n := k[x]; n > 0; n-- {
				l = append(l, x)
			}
			for n := -k[x]; n > 0; n-- {
				r = append(r, x)
			}
		}
		if c != 0 {
			l = append(l, in.konst(strconv.FormatInt(c, 10)))
		}
		side := func(x []*Term) *Term {
			if len(x) == 0 {
				return in.Zero
			}
			out := x[0]
			for _, y := range x[1:] {
				out = in.comm("add", out, y)
			}
			return out
		}
		out = in.bin("sub", side(l), side(r))
	} else if len(t.Args) > 0 {
		args := make([]*Term, len(t.Args))
		same := true
		for i, a := range t.Args {
			args[i] = in.ring(a)
			same = same && args[i] == a
		}
		if !same {
			out = in.rebuild(t, args)
		}
	}
	in.ringMemo[t] = out
	return out
}
