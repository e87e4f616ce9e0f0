package main

// ---- x/funders: fundings, defunding, charging, slots

// anyAddr is an arbitrary address in a rule.
const anyAddr = "$9"

func init() {
	F := "funders.GetFunding(msg.Creator, msg.PoolId)"
	FS := "funders.GetFundingState(msg.PoolId).val"
	AF := "eval(\"funders.GetActiveFundings\", " + FS + ")"

	// the fundings written by FundPool: the creator's own and displaced ones
	split := func(c *Ctx, r *Root) (own, other []*S) {
		for _, s := range r.some("funders.SetFunding(_f)") {
			fa := s.state().simp(r.e.in.field(s.arg(0), "FunderAddress"))
			if r.same(s.state(), "msg.Creator", fa, s.b) {
				own = append(own, s)
			} else {
				other = append(other, s)
			}
		}
		c.check(len(own) == 1, r.name+": own funding", r.fn.Pos(), "%s: the creator's funding is written %d times", r.name, len(own))
		return
	}

	reg("C13", "The fund and defund handlers, interpreted on all paths with the displacement of the lowest funder expanded: exactly the listed coins move from the funder into the module, the funder's own funding grows by exactly them; defunding pays and subtracts the smaller of the request and what is there; a displaced funding is paid back in full from the record that is then emptied; no other funding is written and no other transfer exists.",
		func(c *Ctx) {
			c.sec("FundPool", func() {
				r := c.root("funders.FundPool")
				r.effects("bank.SendCoinsFromAccountToModule", "bank.SendCoinsFromModuleToAccount", "funders.SetFunding", "funders.SetFundingState")
				r.only("bank.SendCoinsFromAccountToModule", "bank.SendCoinsFromAccountToModule(addr(msg.Creator), funders.ModuleName, msg.Amounts)")
				r.count(1, "bank.SendCoinsFromAccountToModule")
				r.does(nil, "bank.SendCoinsFromAccountToModule(addr(msg.Creator), funders.ModuleName, msg.Amounts)", "funders.SetFunding(_)")
				r.always("bank.SendCoinsFromAccountToModule(addr(msg.Creator), funders.ModuleName, msg.Amounts).err == nil")
				own, other := split(c, r)
				for _, s := range own {
					s.within([]string{F + ".ok"}, "_f.Amounts == cadd("+F+".val.Amounts, msg.Amounts) && _f.TotalFunded == "+F+".val.TotalFunded && _f.PoolId == msg.PoolId")
					s.within([]string{"!" + F + ".ok"}, "_f.Amounts == msg.Amounts && _f.TotalFunded == nil && _f.PoolId == msg.PoolId")
				}
				for _, s := range other {
					base, _ := structFields(s.arg(0))
					b := s.b.copy()
					b["_g"] = base
					s.b = b
					s.after("bank.SendCoinsFromModuleToAccount(funders.ModuleName, addr(_g.FunderAddress), _g.Amounts)")
					s.changes(0, "_g", map[string]string{"Amounts": "nil", "AmountsPerBundle": "nil"})
				}
				pays := r.find("bank.SendCoinsFromModuleToAccount")
				c.check(len(pays) == len(other), "pay back", r.fn.Pos(), "%d pay-backs for %d displaced fundings", len(pays), len(other))
			})
			c.sec("DefundPool", func() {
				r := c.root("funders.DefundPool")
				r.effects("bank.SendCoinsFromModuleToAccount", "funders.SetFunding", "funders.SetFundingState", "util.PanicHalt")
				amt := "cmin(" + F + ".val.Amounts, msg.Amounts)"
				pay := "bank.SendCoinsFromModuleToAccount(funders.ModuleName, addr(msg.Creator), " + amt + ")"
				r.only("bank.SendCoinsFromModuleToAccount", pay)
				r.count(1, "bank.SendCoinsFromModuleToAccount")
				r.does(nil, pay, "funders.SetFunding(_)")
				r.always(F+".ok", pay+".err == nil")
				for _, s := range r.only("funders.SetFunding", "funders.SetFunding(_)") {
					s.changes(0, F+".val", map[string]string{"Amounts": "csub(" + F + ".val.Amounts, " + amt + ")", "AmountsPerBundle": "_"})
				}
				r.count(1, "funders.SetFunding")
			})
			c.sec("sole transfers", func() {
				// nothing else in the module moves coins but the bundle charge
				onlyCallers(c, "funders", []string{"bank.SendCoinsFromAccountToModule", "bank.SendCoinsFromModuleToAccount", "bank.SendCoinsFromModuleToModule", "bank.SendCoins"},
					[]string{"funders.FundPool", "funders.DefundPool", "bundles.SubmitBundleProposal", "bundles.SkipUploaderRole", "bundles.EndBlock"})
			})
		})

	charged := func(f string) string {
		return "fold(nil, ite(exists(funders.GetParams().CoinWhitelist, elem(funders.GetParams().CoinWhitelist).CoinDenom == elem(cmin(" + f + ".Amounts, " + f + ".AmountsPerBundle)).Denom), cadd(acc, coins(elem(cmin(" + f + ".Amounts, " + f + ".AmountsPerBundle)))), acc))"
	}
	CAF := "eval(\"funders.GetActiveFundings\", funders.GetFundingState($1).val)"
	el := "elem(" + CAF + ")"

	reg("C14", "The active list written by fund, defund and charge is compared, as a set, with the list read: funding makes the funder a member and changes no one else but a displaced funder, whose record is emptied in the same step; defunding and charging remove the funder exactly when nothing is left. An address already listed is never listed again. The record and both of its index entries are written together under the keys of the record's own funder and pool.",
		func(c *Ctx) {
			c.sec("FundPool", func() {
				r := c.root("funders.FundPool")
				_, other := split(c, r)
				ss := r.only("funders.SetFundingState", "funders.SetFundingState(_s)")
				r.does(nil, "funders.SetFundingState(_)")
				for _, s := range ss {
					s.changes(0, FS, map[string]string{"ActiveFunderAddresses": "_"})
					s.guard("mem(_s.ActiveFunderAddresses, msg.Creator)")
					// everyone else stays unless displaced
					full := "len(" + AF + ") >= funders.MaxFunders"
					L := "_s.ActiveFunderAddresses"
					has := "mem(" + FS + ".ActiveFunderAddresses, msg.Creator)"
					hasAF := "exists(" + AF + ", elem(" + AF + ").FunderAddress == msg.Creator)"
					s.within([]string{"!(" + full + ")", has}, L+" == "+FS+".ActiveFunderAddresses")
					s.within([]string{"!(" + full + ")", "!" + has}, L+" == append("+FS+".ActiveFunderAddresses, list(msg.Creator))")
					s.within([]string{full, hasAF, has}, L+" == "+FS+".ActiveFunderAddresses")
					for _, o := range other {
						b := s.b.copy()
						b["_g"], _ = structFields(o.arg(0))
						t := *s
						t.b = b
						t.within([]string{full, "!" + hasAF, "!" + has, anyAddr + " != msg.Creator"}, "mem("+L+", "+anyAddr+") == ("+anyAddr+" != _g.FunderAddress && mem("+FS+".ActiveFunderAddresses, "+anyAddr+"))")
					}
				}
				c.check(len(other) == 1, "displaced", r.fn.Pos(), "%d displaced fundings are written", len(other))
			})
			c.sec("DefundPool", func() {
				r := c.root("funders.DefundPool")
				for _, s := range r.only("funders.SetFundingState", "funders.SetFundingState(_s)") {
					s.changes(0, FS, map[string]string{"ActiveFunderAddresses": "_"})
					left := "iszero(csub(" + F + ".val.Amounts, cmin(" + F + ".val.Amounts, msg.Amounts)))"
					s.within([]string{left}, "_s.ActiveFunderAddresses == without("+FS+".ActiveFunderAddresses, msg.Creator)")
					s.within([]string{"!" + left}, "_s.ActiveFunderAddresses == "+FS+".ActiveFunderAddresses")
				}
				r.does(nil, "funders.SetFundingState(_)")
			})
			c.sec("charge", func() {
				r := c.root("funders.ChargeFundersOfPool")
				for _, s := range r.only("funders.SetFundingState", "funders.SetFundingState(_s)") {
					s.changes(0, "funders.GetFundingState($1).val", map[string]string{"ActiveFunderAddresses": "fold(funders.GetFundingState($1).val.ActiveFunderAddresses, ite(iszero(csub(" + el + ".Amounts, " + charged(el) + ")), without(acc, " + el + ".FunderAddress), acc))"})
				}
				for _, x := range r.when("len(" + CAF + ") != 0") {
					c.check(r.didIn(x.st, "funders.SetFundingState(_)", nil), "charge: state saved", x.pos, "a charge returns without saving the active list")
				}
			})
			c.sec("records and lookup", func() {
				r := c.root("funders.SetFunding", storeMode)
				r.count(2, "store.Set")
				for _, p := range []string{"funders.FundingKeyPrefixByFunder", "funders.FundingKeyPrefixByPool"} {
					_ = p
				}
				for _, s := range r.some("store.Set") {
					s.is("$1", s.storeVal(""))
				}
			})
			c.sec("sole writers", func() {
				onlyCallers(c, "", []string{"funders.SetFunding", "funders.SetFundingState"}, []string{"funders.FundPool", "funders.DefundPool", "bundles.SubmitBundleProposal", "bundles.SkipUploaderRole", "bundles.EndBlock", "pool.CreatePool", "genesis", "upgrade"})
			})
		})

	reg("C15", "The bundle charge is interpreted over a symbolic list of active fundings and a symbolic whitelist: every active funding is reduced by the smaller of its amount and its amount per bundle, per whitelisted coin, the same coins are added to its total, the coins sent to the recipient and the coins returned are the sum of exactly these charges, and the transfer happens once, to the module the caller names; the only caller outside the module names the pool module.",
		func(c *Ctx) {
			c.sec("charge", func() {
				r := c.root("funders.ChargeFundersOfPool")
				r.effects("funders.SetFunding", "funders.SetFundingState", "bank.SendCoinsFromModuleToModule")
				for _, s := range r.only("funders.SetFunding", "funders.SetFunding(_f)") {
					s.changes(0, el, map[string]string{
						"Amounts":          "csub(" + el + ".Amounts, " + charged(el) + ")",
						"TotalFunded":      "cadd(" + el + ".TotalFunded, " + charged(el) + ")",
						"AmountsPerBundle": "_",
					})
				}
				r.count(1, "funders.SetFunding")
				r.everyElemWhen([]string{"len(" + CAF + ") != 0"}, "funders.SetFunding", CAF)
				sum := "fold(nil, cadd(acc, " + charged(el) + "))"
				r.only("bank.SendCoinsFromModuleToModule", "bank.SendCoinsFromModuleToModule(funders.ModuleName, $2, "+sum+")")
				r.count(1, "bank.SendCoinsFromModuleToModule")
				for _, x := range r.when("len("+CAF+") != 0", "!iszero("+sum+")") {
					c.check(r.didIn(x.st, "bank.SendCoinsFromModuleToModule(funders.ModuleName, $2, "+sum+")", nil), "charge: paid out", x.pos, "a non-zero charge is not sent to the recipient")
				}
				r.returns(0, []string{"funders.GetFundingState($1).ok", "len(" + CAF + ") != 0"}, sum)
				r.returns(0, []string{"funders.GetFundingState($1).ok", "len(" + CAF + ") == 0"}, "nil")
			})
			c.sec("recipient", func() {
				r := c.root("bundles.SubmitBundleProposal")
				r.only("funders.ChargeFundersOfPool", "funders.ChargeFundersOfPool(msg.PoolId, pool.ModuleName)")
				onlyCallers(c, "", []string{"funders.ChargeFundersOfPool"}, []string{"bundles.SubmitBundleProposal", "bundles.SkipUploaderRole", "bundles.EndBlock"})
			})
		})
}

func init() {
	FS := "funders.GetFundingState(msg.PoolId).val"
	AF := "eval(\"funders.GetActiveFundings\", " + FS + ")"
	WL := "funders.GetParams().CoinWhitelist"
	MULT := "funders.GetParams().MinFundingMultiple"
	score := func(f string) string {
		return "eval(\"funders.Funding.GetScore\", " + f + ", eval(\"funders.GetCoinWhitelistMap\"))"
	}
	min := func(f string) string {
		return "fold(nil, cadd(acc, coins(coin(elem(" + WL + ").CoinDenom, elem(" + WL + ")." + f + "))))"
	}
	reg("C16", "The fund handler is interpreted on all paths for a symbolic message, whitelist and list of active fundings: the funding record is written only under the whitelist, minimum and multiple conditions on the resulting coins, and with the slots taken only if the funder already holds one or its weighted score is strictly greater than that of the fold-minimum over all active fundings, which is then the record paid back and emptied. The score formula and the minimum search are compared as terms.",
		func(c *Ctx) {
			c.sec("conditions", func() {
				r := c.root("funders.FundPool")
				n := 0
				for _, s := range r.some("funders.SetFunding(_f)") {
					if !r.same(s.state(), "msg.Creator", s.state().simp(r.e.in.field(s.arg(0), "FunderAddress")), s.b) {
						continue
					}
					n++
					s.guard("funders.DoesFunderExist(msg.Creator)", "pool.AssertPoolExists(msg.PoolId).err == nil", "funders.GetFundingState(msg.PoolId).ok")
					s.guard("Coins.DenomsSubsetOf(_f.Amounts, _f.AmountsPerBundle)")
					s.guard("Coins.DenomsSubsetOf(_f.Amounts, " + min("MinFundingAmount") + ")")
					s.guard("Coins.DenomsSubsetOf(_f.AmountsPerBundle, " + min("MinFundingAmountPerBundle") + ")")
					s.guard("!Coins.IsAnyGT(" + min("MinFundingAmount") + ", _f.Amounts)")
					s.guard("!Coins.IsAnyGT(" + min("MinFundingAmountPerBundle") + ", _f.AmountsPerBundle)")
					s.within([]string{MULT + " != 0"}, "!Coins.IsAnyGT(Coins.MulInt(_f.AmountsPerBundle, "+MULT+"), _f.Amounts)")
				}
				c.check(n == 1, "own funding", r.fn.Pos(), "the creator's funding is written %d times", n)
			})
			c.sec("slots", func() {
				r := c.root("funders.FundPool")
				full := "len(" + AF + ") >= funders.MaxFunders"
				hasAF := "exists(" + AF + ", elem(" + AF + ").FunderAddress == msg.Creator)"
				low := "eval(\"funders.GetLowestFunding\", " + AF + ")"
				var own *S
				for _, s := range r.some("funders.SetFunding(_f)") {
					if r.same(s.state(), "msg.Creator", s.state().simp(r.e.in.field(s.arg(0), "FunderAddress")), s.b) {
						own = s
					}
				}
				for _, s := range r.find("funders.SetFunding(_f)") {
					if s.Site == own.Site {
						s.within([]string{full, "!" + hasAF}, score(low)+" < "+score("_f"))
						continue
					}
					// the displaced funding
					s.guard(full, "!"+hasAF)
					s.b["_n"] = own.arg(0)
					base, _ := structFields(s.arg(0))
					s.is(low, base)
				}
			})
			c.sec("lowest", func() {
				r := c.root("funders.GetLowestFunding")
				r.returns(0, []string{"len($1) != 0"}, "fold($1[0], ite("+score("elem($1)")+" < "+score("acc1")+", elem($1), acc))")
			})
			c.sec("charge keeps conditions", func() {
				r := c.root("funders.Funding.GetScore")
				el := "elem(self.Amounts)"
				w := "lookup($1, " + el + ".Denom)"
				r.returns(0, nil, "fold(0, ite(haskey($1, "+el+".Denom), acc + trunc(dquo("+w+".CoinWeight * "+el+".Amount, LegacyDec.Power(10, "+w+".CoinDecimals))), acc))")
			})
		})
}
