package main

// ---- what the queries promise and what the messages accept

func init() {
	reg("C46", "The admission queries are interpreted with their assertions expanded: they answer yes exactly under an explicit list of conditions, every negation answers no, and the same conditions are shown to guard every successful path of the message they announce. The announced redelegation slots are the free slots the redelegation message counts.",
		func(c *Ctx) {
			yesExactly := func(r *Root, conds []string) {
				r.returnsField(0, "Possible", conds, "true")
				for _, x := range conds {
					r.returnsField(0, "Possible", []string{"!(" + x + ")"}, "false")
				}
			}
			admission := func(id, staker, sender string) []string {
				return []string{"pool.GetPoolWithError(" + id + ").err == nil", runs(id), "stakers.AssertValaccountAuthorized(" + id + ", " + staker + ", " + sender + ").err == nil"}
			}
			propose := func(id, staker, sender, from string) []string {
				bp, pe := "bundles.GetBundleProposal("+id+").val", "pool.GetPoolWithError("+id+").val"
				return append(admission(id, staker, sender), bp+".NextUploader == "+staker, "now >= "+bp+".UpdatedAt + "+pe+".UploadInterval", from+" == "+pe+".CurrentIndex + "+bp+".BundleSize")
			}
			vote := func(id, staker, sender, storage string) []string {
				bp := "bundles.GetBundleProposal(" + id + ").val"
				return append(admission(id, staker, sender), bp+".StorageId != \"\"", storage+" == "+bp+".StorageId", "!contains("+bp+".VotersValid, "+staker+")", "!contains("+bp+".VotersInvalid, "+staker+")")
			}
			asserts := expand("bundles.AssertCanPropose", "bundles.AssertCanVote", "bundles.AssertPoolCanRun")
			c.sec("propose", func() {
				r := c.root("query.CanPropose", asserts)
				yesExactly(r, propose("req.PoolId", "req.Staker", "req.Proposer", "req.FromIndex"))
				c.bundlesRoot("bundles.SubmitBundleProposal").always(propose("msg.PoolId", "msg.Staker", "msg.Creator", "msg.FromIndex")...)
			})
			c.sec("vote", func() {
				r := c.root("query.CanVote", asserts)
				conds := vote("req.PoolId", "req.Staker", "req.Voter", "req.StorageId")
				yesExactly(r, conds)
				abstained := "contains(bundles.GetBundleProposal(req.PoolId).val.VotersAbstain, req.Staker)"
				r.returnsField(0, "Reason", append(conds, abstained), "\"KYVE_VOTE_NO_ABSTAIN_ALLOWED\"")
				r.returnsField(0, "Reason", append(conds, "!"+abstained), "\"\"")
				v := c.bundlesRoot("bundles.VoteBundleProposal")
				v.always(vote("msg.PoolId", "msg.Staker", "msg.Creator", "msg.StorageId")...)
				v.doesNot([]string{"contains(bundles.GetBundleProposal(msg.PoolId).val.VotersAbstain, msg.Staker)", "msg.Vote == bundles.VOTE_TYPE_ABSTAIN"}, "bundles.SetBundleProposal")
			})
			c.sec("validate", func() {
				r := c.root("query.CanValidate")
				pe := "pool.GetPoolWithError(req.PoolId).err == nil"
				members := "stakers.GetAllValaccountsOfPool(req.PoolId)"
				m := "elem(" + members + ")"
				is := "exists(" + members + ", " + m + ".Valaddress == req.Valaddress)"
				r.returnsField(0, "Possible", []string{pe, is, m + ".Valaddress == req.Valaddress", m + ".Staker != \"\""}, "true")
				r.returnsField(0, "Reason", []string{pe, is, m + ".Valaddress == req.Valaddress", m + ".Staker != \"\""}, m+".Staker")
				r.returnsField(0, "Possible", []string{"!(" + pe + ")"}, "false")
				r.returnsField(0, "Possible", []string{"!" + is}, "false")
			})
			c.sec("redelegation slots", func() {
				r := c.root("query.AccountRedelegation")
				L := "delegation.GetRedelegationCooldownEntries(req.Address)"
				ends := "elem(" + L + ") + " + dlP + ".RedelegationCooldown"
				used := "fold(0, ite(" + ends + " >= now, acc + 1, acc))"
				max := dlP + ".RedelegationMaxAmount"
				r.returnsField(0, "AvailableSlots", nil, "ite("+max+" > "+used+", "+max+" - "+used+", 0)")
				r.returnsField(0, "RedelegationCooldownEntries", nil, "fold(nil, ite("+ends+" >= now, append(acc, list(rec(\"CreationDate\", elem("+L+"), \"FinishDate\", "+ends+"))), acc))")
			})
		})
}
