package main

import (
	"go/types"
	"strings"
)

// ---- C51: protocol stake in governance

func init() {
	reg("C51", "The three functions through which the governance tally learns about the protocol's stake are executed symbolically, down to the store accesses that tell who is active and who delegates to whom. Checked: the bonded tokens are the sum of the total delegations of all active stakers; the validators are the active stakers with a delegation, each once, under its own account, with the total delegation as tokens and as shares (the tally divides by the shares, so that a validator without any must not be among them), nothing deducted and no vote; the delegations of an account are its current ones with the active stakers, every staker paired with its own amount; a staker is active exactly if the index of active stakers has its key, and the lists are the whole index and all entries of the account; the keeper still provides the functions the governance module looks for.",
		func(c *Ctx) {
			const active = "stakers.getAllActiveStakers()"
			amount := func(s string) string { return "delegation.GetDelegationAmount(" + s + ")" }
			c.sec("bonded tokens", func() {
				c.root("stakers.TotalBondedTokens").returns(0, nil, "fold(0, acc + "+amount("elem("+active+")")+")")
			})
			c.sec("validators", func() {
				a := amount("elem(" + active + ")")
				info := "types.NewValidatorGovInfo(addr(elem(" + active + ")), " + a + ", " + a + ", 0, list())"
				c.root("stakers.GetActiveValidators").returns(0, nil, "fold(nil, ite("+a+" == 0, acc, append(acc, list("+info+"))))")
			})
			c.sec("delegations", func() {
				list := "delegation.GetStakersByDelegator($1)"
				is := "stakers.isActiveStaker(elem(" + list + "))"
				r := c.root("stakers.GetDelegations")
				r.returns(0, nil, "fold(nil, ite("+is+", append(acc, list(elem("+list+"))), acc))")
				r.returns(1, nil, "fold(nil, ite("+is+", append(acc, list(delegation.GetDelegationAmountOfDelegator(elem("+list+"), $1))), acc))")
			})
			c.sec("amounts", func() {
				r := c.root("delegation.GetDelegationAmount")
				r.returns(0, []string{"delegation.GetDelegationData($1).ok"}, "delegation.GetDelegationData($1).val.TotalDelegation")
				r.returns(0, []string{"!delegation.GetDelegationData($1).ok"}, "0")
				r = c.root("delegation.GetDelegationAmountOfDelegator", keep("delegation.f1GetCurrentDelegation"))
				r.returns(0, nil, "delegation.f1GetCurrentDelegation($1, $2)")
			})
			c.sec("active stakers", func() {
				at := "prefix.NewStore(_a, stakers.ActiveStakerIndex)"
				it := "types.KVStorePrefixIterator(" + at + ", list())"
				r := c.root("stakers.isActiveStaker", storeMode)
				r.returns(0, nil, "store.Has("+at+", key($1))")
				r = c.root("stakers.getAllActiveStakers", storeMode)
				r.returns(0, nil, "fold(nil, append(acc, list(elem("+it+").Key)))")
				b, _ := c.initBytes("delegation.DelegatorKeyPrefixIndex2")
				c.check(b != "", "delegation.DelegatorKeyPrefixIndex2", c.fnNamed("delegation.GetStakersByDelegator").Pos(), "the prefix of the second delegator index is not known")
				it = "types.KVStorePrefixIterator(prefix.NewStore(_a, delegation.DelegatorKeyPrefixIndex2), key($1))"
				r = c.root("delegation.GetStakersByDelegator", storeMode)
				r.returns(0, nil, "fold(nil, append(acc, list(slice(elem("+it+").Key, strlen($1), nil))))")
			})
			c.sec("interface", func() {
				fn := c.fnNamed("stakers.TotalBondedTokens")
				recv := fn.Signature.Recv().Type()
				if p, ok := recv.(*types.Pointer); ok {
					recv = p.Elem()
				}
				var want *types.Interface
				for _, p := range c.pr.Prog.AllPackages() {
					if strings.HasSuffix(p.Pkg.Path(), "cosmos-sdk/x/gov/types") {
						if o := p.Pkg.Scope().Lookup("ProtocolStakingKeeper"); o != nil {
							want, _ = o.Type().Underlying().(*types.Interface)
						}
					}
				}
				if want == nil {
					bail("the governance module's ProtocolStakingKeeper is not found")
				}
				c.check(types.Implements(types.NewPointer(recv), want), "stakers.Keeper provides ProtocolStakingKeeper", fn.Pos(), "the stakers keeper does not implement the interface through which the governance module counts protocol stake (it is left out silently then)")
			})
		})
}
