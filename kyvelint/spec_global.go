package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C40: fees

// feeChecker: the function the fee decorator hands to the SDK's decorator.
func (c *Ctx) feeChecker() *ssa.Function {
	b := c.fnNamed("global.BuildTxFeeChecker")
	for _, blk := range b.Blocks {
		if r, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
			v := r.Results[0]
			for {
				if ct, ok := v.(*ssa.ChangeType); ok {
					v = ct.X
					continue
				}
				break
			}
			switch x := v.(type) {
			case *ssa.MakeClosure:
				return x.Fn.(*ssa.Function)
			case *ssa.Function:
				return x
			}
		}
	}
	bail("the fee checker built by global.BuildTxFeeChecker is not found")
	return nil
}

func init() {
	reg("C40", "The fee checker, the two decorators around it, the refund decorator and the end blocker are executed symbolically. Checked: on every path that accepts a transaction nothing is required or the offered fee reaches what is required; what is required is the ceiling of the minimum gas price times the gas limit, at check time joined with the node's own minimum; the checker is installed for every block after the first; the configured extra gas of every message is consumed before the next decorator runs; a refund is the truncated configured fraction of each coin of the transaction's own fee, from the fee collector to the account that paid, for transactions with one message only and without using the grant again; the end blocker burns the truncated configured fraction of each collected coin.",
		func(c *Ctx) {
			list := func(l string) string {
				return "fold(nil, append(acc, list(coin(elem(" + l + ").Denom, round(ceil(elem(" + l + ").Amount * dyn(\"FeeTx.GetGas\", $1)))))))"
			}
			cons := "types.NewDecCoins(list(types.NewDecCoinFromDec(staking.BondDenom().val, global.GetParams().MinGasPrice)))"
			c.sec("minimum fee", func() {
				f := c.feeChecker()
				r := c.rootFn(f, "global fee checker", "0")
				F := "dyn(\"FeeTx.GetFee\", $1)"
				check := "dyn(\"Context.IsCheckTx\")"
				need := "ite(" + check + ", cmax(" + list(cons) + ", " + list("dyn(\"Context.MinGasPrices\")") + "), " + list(cons) + ")"
				r.always("iszero(" + need + ") || dyn(\"Coins.IsAnyGTE\", " + F + ", " + need + ")")
				r.returns(0, nil, F)
				// installed after the first block
				d := c.root("global.DeductFeeDecorator.AnteHandle")
				n := 0
				for _, x := range d.rets {
					for _, v := range x.vals {
						walkTerms(v, func(t *Term) {
							if t.Op != OpCall || !strings.HasSuffix(t.Name, "ante.NewDeductFeeDecorator") {
								return
							}
							n++
							st := x.st.clone()
							d.assumeAll(st, []string{"height > 1"}, binds{})
							a := st.simp(t.Args[len(t.Args)-1])
							c.check((a.Op == OpFunc || a.Op == OpClosure) && strings.HasSuffix(a.Name, f.String()), "fee checker installed", x.pos, "after the first block the fee decorator checks with %s, not with the fee checker", clip(a.String()))
						})
					}
				}
				d.returns(0, nil, "dyn(\"DeductFeeDecorator.AnteHandle\", _d, ctx, $1, $2, $3).val")
				c.check(n > 0, "fee decorator", d.fn.Pos(), "the fee decorator does not call the SDK's fee decorator")
			})
			url := func(m string) string { return "dyn(\"call:fn\", glob(\"types.MsgTypeURL\"), " + m + ")" }
			c.sec("extra gas", func() {
				r := c.root("global.GasAdjustmentDecorator.AnteHandle")
				adj := "global.GetParams().GasAdjustments"
				msgs := "dyn(\"Tx.GetMsgs\", $1)"
				r.effects("gas.ConsumeGas")
				eat := "gas.ConsumeGas(elem(" + adj + ").Amount, _)"
				for _, s := range r.only("gas.ConsumeGas", eat) {
					s.guard(url("elem("+msgs+")") + " == elem(" + adj + ").Type")
				}
				r.count(1, "gas.ConsumeGas")
				r.everyElemWhen([]string{"exists(" + adj + ", " + url("elem("+msgs+")") + " == elem(" + adj + ").Type)"}, eat, msgs)
				for _, x := range r.rets {
					c.check(strings.HasPrefix(x.vals[0].String(), "call:$3($3, ctx, $1, $2)"), "the chain goes on", x.pos, "the gas decorator returns %s without running the next one", clip(x.vals[0].String()))
				}
			})
			c.sec("refund", func() {
				r := c.root("global.RefundFeeDecorator.PostHandle")
				fee := "dyn(\"FeeTx.GetFee\", $1)"
				ref := "global.GetParams().GasRefunds"
				msgs := "dyn(\"FeeTx.GetMsgs\", $1)"
				payer, granter := "dyn(\"FeeTx.FeePayer\", $1)", "dyn(\"FeeTx.FeeGranter\", $1)"
				hit := "exists(" + ref + ", " + url(msgs+"[0]") + " == elem(" + ref + ").Type)"
				r.effects("bank.SendCoinsFromModuleToAccount")
				send := "bank.SendCoinsFromModuleToAccount(\"fee_collector\", ite(" + granter + " == nil || " + payer + " == " + granter + ", " + payer + ", " + granter + "), fold(nil, cadd(acc, coins(coin(elem(" + fee + ").Denom, trunc(elem(" + fee + ").Amount * elem(" + ref + ").Fraction))))))"
				for _, s := range r.only("bank.SendCoinsFromModuleToAccount", send) {
					s.guard("len("+msgs+") == 1", hit, url(msgs+"[0]")+" == elem("+ref+").Type")
				}
				r.count(1, "bank.SendCoinsFromModuleToAccount")
				r.does([]string{"!iszero(" + fee + ")", "len(" + msgs + ") == 1", hit, "elem(" + ref + ").Fraction != 0"}, send)
			})
			c.sec("burn", func() {
				r := c.root("global.EndBlocker")
				coins := "types.NewDecCoinsFromCoins(bank.GetAllBalances(account.GetModuleAddress(\"fee_collector\")))"
				burn := "bank.BurnCoins(\"fee_collector\", fold(nil, cadd(acc, coins(coin(elem(" + coins + ").Denom, trunc(elem(" + coins + ").Amount * global.GetParams().BurnRatio))))))"
				r.effects("bank.BurnCoins", "util.PanicHalt")
				r.only("bank.BurnCoins", burn)
				r.count(1, "bank.BurnCoins")
				for _, s := range r.only("util.PanicHalt", "util.PanicHalt(_)") {
					s.guard(burn + ".err != nil")
				}
				r.does([]string{"height > 1", "global.GetParams().BurnRatio != 0", "!dyn(\"DecCoins.IsZero\", " + coins + ")"}, burn)
			})
		})
}
