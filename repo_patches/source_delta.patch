From 7dfb2ff91445ca41f20463b7db1bbd504a201ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:12 +0000
Subject: [PATCH 01/22] fix: compare team allocations without overflow when
 creating a vesting account

---
 .../keeper/msg_server_create_team_vesting_account.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/x/team/keeper/msg_server_create_team_vesting_account.go b/x/team/keeper/msg_server_create_team_vesting_account.go
index f9924a6..3a4c579 100644
--- a/x/team/keeper/msg_server_create_team_vesting_account.go
+++ b/x/team/keeper/msg_server_create_team_vesting_account.go
@@ -20,9 +20,15 @@ func (k msgServer) CreateTeamVestingAccount(goCtx context.Context, msg *types.Ms
 		return nil, errors.Wrapf(errorsTypes.ErrLogic, "total allocation %v or commencement %v invalid", msg.TotalAllocation, msg.Commencement)
 	}
 
-	// check if new team vesting account still has allocation left
-	if k.GetIssuedTeamAllocation(ctx)+msg.TotalAllocation > types.TEAM_ALLOCATION {
-		return nil, errors.Wrapf(errorsTypes.ErrLogic, types.ErrAvailableFundsTooLow.Error(), types.TEAM_ALLOCATION-k.GetIssuedTeamAllocation(ctx), msg.TotalAllocation)
+	// check if new team vesting account still has allocation left. The available allocation is compared
+	// instead of the sum because the sum could overflow for very large allocations
+	available := uint64(0)
+	if issued := k.GetIssuedTeamAllocation(ctx); issued < types.TEAM_ALLOCATION {
+		available = types.TEAM_ALLOCATION - issued
+	}
+
+	if msg.TotalAllocation > available {
+		return nil, errors.Wrapf(errorsTypes.ErrLogic, types.ErrAvailableFundsTooLow.Error(), available, msg.TotalAllocation)
 	}
 
 	id := k.AppendTeamVestingAccount(ctx, types.TeamVestingAccount{
-- 
2.43.0


From eb751574aa7ee17ed82ed5bd36c16f64214a5cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:58 +0000
Subject: [PATCH 02/22] fix: refuse a clawback reset that would exceed the team
 allocation

---
 x/team/keeper/msg_server_clawback.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/x/team/keeper/msg_server_clawback.go b/x/team/keeper/msg_server_clawback.go
index ddebb46..28bff7b 100644
--- a/x/team/keeper/msg_server_clawback.go
+++ b/x/team/keeper/msg_server_clawback.go
@@ -31,6 +31,20 @@ func (k msgServer) Clawback(goCtx context.Context, msg *types.MsgClawback) (*typ
 		return nil, errors.Wrapf(sdkErrors.ErrLogic, types.ErrInvalidClawbackDate.Error())
 	}
 
+	// resetting or postponing a clawback issues allocation again, which therefore still has to be available
+	updated := account
+	updated.Clawback = msg.Clawback
+	if getVestingMaxAmount(updated) > getVestingMaxAmount(account) {
+		available := uint64(0)
+		if issued := k.GetIssuedTeamAllocation(ctx); issued < types.TEAM_ALLOCATION {
+			available = types.TEAM_ALLOCATION - issued
+		}
+
+		if required := getVestingMaxAmount(updated) - getVestingMaxAmount(account); required > available {
+			return nil, errors.Wrapf(sdkErrors.ErrLogic, types.ErrAvailableFundsTooLow.Error(), available, required)
+		}
+	}
+
 	account.Clawback = msg.Clawback
 	k.SetTeamVestingAccount(ctx, account)
 
-- 
2.43.0


From befae682874af800e5630c1f5220d0c5fbc02095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:11 +0000
Subject: [PATCH 03/22] fix: report the paid back amounts when a funder loses
 its funding slot

---
 x/funders/keeper/logic_funders.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x/funders/keeper/logic_funders.go b/x/funders/keeper/logic_funders.go
index 7b1f245..fa736c0 100644
--- a/x/funders/keeper/logic_funders.go
+++ b/x/funders/keeper/logic_funders.go
@@ -222,6 +222,7 @@ func (k Keeper) ensureFreeSlot(ctx sdk.Context, newFunding *types.Funding, fundi
 		return err
 	}
 
+	defundedAmounts := lowestFunding.Amounts
 	lowestFunding.Amounts = sdk.NewCoins()
 	lowestFunding.AmountsPerBundle = sdk.NewCoins()
 	fundingState.SetInactive(lowestFunding)
@@ -231,7 +232,7 @@ func (k Keeper) ensureFreeSlot(ctx sdk.Context, newFunding *types.Funding, fundi
 	_ = ctx.EventManager().EmitTypedEvent(&types.EventDefundPool{
 		PoolId:  fundingState.PoolId,
 		Address: lowestFunding.FunderAddress,
-		Amounts: lowestFunding.Amounts.String(),
+		Amounts: defundedAmounts.String(),
 	})
 
 	return nil
-- 
2.43.0


From e125ac2b90289f4f9556861958190eca52ac7267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:11 +0000
Subject: [PATCH 04/22] fix: keep all funding slots when an already active
 funder funds again

---
 x/funders/keeper/logic_funders.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/x/funders/keeper/logic_funders.go b/x/funders/keeper/logic_funders.go
index fa736c0..cd98ac5 100644
--- a/x/funders/keeper/logic_funders.go
+++ b/x/funders/keeper/logic_funders.go
@@ -199,16 +199,18 @@ func (k Keeper) ensureFreeSlot(ctx sdk.Context, newFunding *types.Funding, fundi
 		return nil
 	}
 
+	for _, activeFunding := range activeFundings {
+		if activeFunding.FunderAddress == newFunding.FunderAddress {
+			// Funder already has a funding slot
+			return nil
+		}
+	}
+
 	lowestFunding, err := k.GetLowestFunding(ctx, activeFundings)
 	if err != nil {
 		return err
 	}
 
-	if lowestFunding.FunderAddress == newFunding.FunderAddress {
-		// Funder already has a funding slot
-		return nil
-	}
-
 	whitelist := k.GetCoinWhitelistMap(ctx)
 
 	// Check if lowest funding is lower than new funding based on amount (amount per bundle is ignored)
-- 
2.43.0


From 546c2a47bab8e874c9f4c2a4d8ef2b5d4623ba01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:11 +0000
Subject: [PATCH 05/22] fix: only displace the lowest funder with a strictly
 higher funding

---
 x/funders/keeper/logic_funders.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/funders/keeper/logic_funders.go b/x/funders/keeper/logic_funders.go
index cd98ac5..a6cdd20 100644
--- a/x/funders/keeper/logic_funders.go
+++ b/x/funders/keeper/logic_funders.go
@@ -214,7 +214,7 @@ func (k Keeper) ensureFreeSlot(ctx sdk.Context, newFunding *types.Funding, fundi
 	whitelist := k.GetCoinWhitelistMap(ctx)
 
 	// Check if lowest funding is lower than new funding based on amount (amount per bundle is ignored)
-	if newFunding.GetScore(whitelist) < lowestFunding.GetScore(whitelist) {
+	if newFunding.GetScore(whitelist) <= lowestFunding.GetScore(whitelist) {
 		return errors.Wrapf(errorsTypes.ErrLogic, types.ErrFundsTooLow.Error(), lowestFunding.GetScore(whitelist))
 	}
 
-- 
2.43.0


From f0191a0a2dc64292a606d2e3121a3bb25e37eb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:11 +0000
Subject: [PATCH 06/22] fix: detect duplicates when validating the funders
 genesis

---
 x/funders/types/genesis.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/x/funders/types/genesis.go b/x/funders/types/genesis.go
index 9529939..d243269 100644
--- a/x/funders/types/genesis.go
+++ b/x/funders/types/genesis.go
@@ -20,6 +20,7 @@ func (gs GenesisState) Validate() error {
 		if _, ok := fundersIndexMap[string(index)]; ok {
 			return fmt.Errorf("duplicated funder id for %v", funder)
 		}
+		fundersIndexMap[string(index)] = struct{}{}
 	}
 
 	fundingByFunderIndexMap := make(map[string]struct{})
@@ -29,10 +30,12 @@ func (gs GenesisState) Validate() error {
 		if _, ok := fundingByFunderIndexMap[string(byFunderIndex)]; ok {
 			return fmt.Errorf("duplicated funding id for %v", funding)
 		}
+		fundingByFunderIndexMap[string(byFunderIndex)] = struct{}{}
 		byPoolIndex := FundingKeyByPool(funding.FunderAddress, funding.PoolId)
 		if _, ok := fundingByPoolIndexMap[string(byPoolIndex)]; ok {
 			return fmt.Errorf("duplicated funding id for %v", funding)
 		}
+		fundingByPoolIndexMap[string(byPoolIndex)] = struct{}{}
 	}
 
 	fundingStateIndexMap := make(map[string]struct{})
@@ -41,6 +44,7 @@ func (gs GenesisState) Validate() error {
 		if _, ok := fundingStateIndexMap[string(index)]; ok {
 			return fmt.Errorf("duplicated funding state id for %v", fundingState)
 		}
+		fundingStateIndexMap[string(index)] = struct{}{}
 	}
 	return gs.Params.Validate()
 }
-- 
2.43.0


From 1a65a2ba9040ef319311f1951972fc7330076955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:35 +0000
Subject: [PATCH 07/22] fix: never choose an excluded validator as next
 uploader

---
 x/bundles/keeper/logic_round_robin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/bundles/keeper/logic_round_robin.go b/x/bundles/keeper/logic_round_robin.go
index 56366f7..0ea5e11 100644
--- a/x/bundles/keeper/logic_round_robin.go
+++ b/x/bundles/keeper/logic_round_robin.go
@@ -249,7 +249,7 @@ func (vs *RoundRobinValidatorSet) NextProposer(excludedAddresses ...string) stri
 	currentMaxValidator := vs.Validators[0].Address
 	for _, validator := range vs.Validators {
 		if !mapExcludedAddresses[validator.Address] {
-			if vs.Progress[validator.Address] > vs.Progress[currentMaxValidator] {
+			if mapExcludedAddresses[currentMaxValidator] || vs.Progress[validator.Address] > vs.Progress[currentMaxValidator] {
 				currentMaxValidator = validator.Address
 			}
 		}
-- 
2.43.0


From 2d6e359b07eb63eb49f49dd5e233aa94a6171496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:01 +0000
Subject: [PATCH 08/22] fix: close every opened store iterator in the bundles
 module

---
 x/bundles/keeper/getters_bundles.go     | 5 ++++-
 x/bundles/keeper/getters_round_robin.go | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/x/bundles/keeper/getters_bundles.go b/x/bundles/keeper/getters_bundles.go
index 17f222d..dce99f9 100644
--- a/x/bundles/keeper/getters_bundles.go
+++ b/x/bundles/keeper/getters_bundles.go
@@ -50,6 +50,7 @@ func (k Keeper) GetAllBundleProposals(ctx sdk.Context) (list []types.BundlePropo
 	storeAdapter := runtime.KVStoreAdapter(k.storeService.OpenKVStore(ctx))
 	store := prefix.NewStore(storeAdapter, types.BundleKeyPrefix)
 	iterator := storeTypes.KVStorePrefixIterator(store, []byte{})
+	defer iterator.Close()
 
 	for ; iterator.Valid(); iterator.Next() {
 		var val types.BundleProposal
@@ -91,6 +92,7 @@ func (k Keeper) GetAllFinalizedBundles(ctx sdk.Context) (list []types.FinalizedB
 	storeAdapter := runtime.KVStoreAdapter(k.storeService.OpenKVStore(ctx))
 	store := prefix.NewStore(storeAdapter, types.FinalizedBundlePrefix)
 	iterator := storeTypes.KVStorePrefixIterator(store, []byte{})
+	defer iterator.Close()
 
 	for ; iterator.Valid(); iterator.Next() {
 		var val types.FinalizedBundle
@@ -105,6 +107,7 @@ func (k Keeper) GetFinalizedBundlesByPool(ctx sdk.Context, poolId uint64) (list
 	storeAdapter := runtime.KVStoreAdapter(k.storeService.OpenKVStore(ctx))
 	store := prefix.NewStore(storeAdapter, types.FinalizedBundlePrefix)
 	iterator := storeTypes.KVStorePrefixIterator(store, util.GetByteKey(poolId))
+	defer iterator.Close()
 
 	for ; iterator.Valid(); iterator.Next() {
 		var val types.FinalizedBundle
@@ -257,6 +260,7 @@ func (k Keeper) GetPaginatedFinalizedBundleQuery(ctx sdk.Context, pagination *qu
 	} else {
 		iterator = store.Iterator(pagination.Key, nil)
 	}
+	defer iterator.Close()
 
 	var data []queryTypes.FinalizedBundle
 	versionMap := k.GetBundleVersionMap(ctx).GetMap()
@@ -283,7 +287,6 @@ func (k Keeper) GetPaginatedFinalizedBundleQuery(ctx sdk.Context, pagination *qu
 	} else {
 		pageResponse.NextKey = nil
 	}
-	_ = iterator.Close()
 
 	return data, &pageResponse, nil
 }
diff --git a/x/bundles/keeper/getters_round_robin.go b/x/bundles/keeper/getters_round_robin.go
index 11221c5..67acc3b 100644
--- a/x/bundles/keeper/getters_round_robin.go
+++ b/x/bundles/keeper/getters_round_robin.go
@@ -36,6 +36,7 @@ func (k Keeper) GetAllRoundRobinProgress(ctx sdk.Context) (list []types.RoundRob
 	storeAdapter := runtime.KVStoreAdapter(k.storeService.OpenKVStore(ctx))
 	store := prefix.NewStore(storeAdapter, types.RoundRobinProgressPrefix)
 	iterator := storeTypes.KVStorePrefixIterator(store, []byte{})
+	defer iterator.Close()
 
 	for ; iterator.Valid(); iterator.Next() {
 		var val types.RoundRobinProgress
-- 
2.43.0


From e1ab2036d413e8930903829047a77ab047e6763f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:55 +0000
Subject: [PATCH 09/22] fix: compute storage rewards of bundles with a data
 size above int64

---
 x/bundles/keeper/logic_bundles.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/bundles/keeper/logic_bundles.go b/x/bundles/keeper/logic_bundles.go
index a9b30c7..a11a01b 100644
--- a/x/bundles/keeper/logic_bundles.go
+++ b/x/bundles/keeper/logic_bundles.go
@@ -280,7 +280,7 @@ func (k Keeper) calculatePayouts(ctx sdk.Context, poolId uint64, totalPayout sdk
 	wantedStorageRewards := sdk.NewCoins()
 	// storageCostPerCoin is the storage cost in $USD for each coin. This implies that each coin contributes the same
 	// amount of value to the storage rewards
-	storageCostPerCoin := k.GetStorageCost(ctx, bundleProposal.StorageProviderId).MulInt64(int64(bundleProposal.DataSize)).QuoInt64(int64(totalPayout.Len()))
+	storageCostPerCoin := k.GetStorageCost(ctx, bundleProposal.StorageProviderId).MulInt(math.NewIntFromUint64(bundleProposal.DataSize)).QuoInt64(int64(totalPayout.Len()))
 	for _, coin := range totalPayout {
 		weight := whitelist[coin.Denom].CoinWeight
 		if weight.IsZero() {
-- 
2.43.0


From af3fd074b26d121181c4dc9108d80b5444828ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:04 +0000
Subject: [PATCH 10/22] fix: first page of stakers by pool count was skipped
 and short lists panicked

---
 x/delegation/keeper/getters_index_stakers.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/x/delegation/keeper/getters_index_stakers.go b/x/delegation/keeper/getters_index_stakers.go
index 4974608..7fdd92d 100644
--- a/x/delegation/keeper/getters_index_stakers.go
+++ b/x/delegation/keeper/getters_index_stakers.go
@@ -28,11 +28,13 @@ func arrayPagination(slice []string, pagination *query.PageRequest) ([]string, *
 		return nil, nil, err
 	}
 
-	resultLength := util.MinInt(limit, len(slice)-page*limit)
+	// pages are counted from one
+	minIndex := util.MinInt((page-1)*limit, len(slice))
+	resultLength := util.MinInt(limit, len(slice)-minIndex)
 	result := make([]string, resultLength)
 
 	for i := 0; i < resultLength; i++ {
-		result[i] = slice[page*limit+i]
+		result[i] = slice[minIndex+i]
 	}
 
 	pageRes := &query.PageResponse{
-- 
2.43.0


From 534d45c0b5e17697070ec40719b4b4a67be78a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 11/22] fix: reverse page of finalized bundles with an offset
 behind the end

---
 x/bundles/keeper/getters_bundles.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/bundles/keeper/getters_bundles.go b/x/bundles/keeper/getters_bundles.go
index dce99f9..5e20d14 100644
--- a/x/bundles/keeper/getters_bundles.go
+++ b/x/bundles/keeper/getters_bundles.go
@@ -247,7 +247,7 @@ func (k Keeper) GetPaginatedFinalizedBundleQuery(ctx sdk.Context, pagination *qu
 	// Translate offset to next page keys
 	if len(key) == 0 {
 		if reverse {
-			pagination.Key = util.GetByteKey(pageResponse.Total - offset)
+			pagination.Key = util.GetByteKey(pageResponse.Total - util.MinUInt64(offset, pageResponse.Total))
 		} else {
 			pagination.Key = util.GetByteKey(offset)
 		}
-- 
2.43.0


From 9ecc99b9359ba1826779dde66ce0e87007087636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:38 +0000
Subject: [PATCH 12/22] fix: free redelegation slots wrapped around when the
 maximum is below the slots in use

---
 x/query/keeper/grpc_account_redelegation.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/x/query/keeper/grpc_account_redelegation.go b/x/query/keeper/grpc_account_redelegation.go
index d6bac7d..f43a85d 100644
--- a/x/query/keeper/grpc_account_redelegation.go
+++ b/x/query/keeper/grpc_account_redelegation.go
@@ -31,8 +31,14 @@ func (k Keeper) AccountRedelegation(goCtx context.Context, req *types.QueryAccou
 		}
 	}
 
+	// The maximum can be lowered below the number of slots already in use
+	availableSlots := uint64(0)
+	if maxSlots := k.delegationKeeper.GetRedelegationMaxAmount(ctx); maxSlots > usedSlots {
+		availableSlots = maxSlots - usedSlots
+	}
+
 	return &types.QueryAccountRedelegationResponse{
 		RedelegationCooldownEntries: redelegationEntries,
-		AvailableSlots:              k.delegationKeeper.GetRedelegationMaxAmount(ctx) - usedSlots,
+		AvailableSlots:              availableSlots,
 	}, nil
 }
-- 
2.43.0


From 1ee203aafff710d4d6f33f2e03fd82d6dc2ebd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:34 +0000
Subject: [PATCH 13/22] fix: skipping the uploader role without an open
 proposal gave every member a point

---
 x/bundles/keeper/msg_server_skip_uploader_role.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/x/bundles/keeper/msg_server_skip_uploader_role.go b/x/bundles/keeper/msg_server_skip_uploader_role.go
index bc5d41e..91f818a 100644
--- a/x/bundles/keeper/msg_server_skip_uploader_role.go
+++ b/x/bundles/keeper/msg_server_skip_uploader_role.go
@@ -20,10 +20,17 @@ func (k msgServer) SkipUploaderRole(goCtx context.Context, msg *types.MsgSkipUpl
 	// reset points of uploader as node has proven to be active
 	k.resetPoints(ctx, msg.PoolId, msg.Staker)
 
-	// Previous round contains a bundle which needs to be validated now
-	result, err := k.tallyBundleProposal(ctx, bundleProposal, msg.PoolId)
-	if err != nil {
-		return nil, err
+	// If the previous bundle was dropped there is no round to evaluate, and nobody
+	// missed a vote.
+	result := types.TallyResult{Status: types.TallyResultNoQuorum}
+
+	if bundleProposal.StorageId != "" {
+		// Previous round contains a bundle which needs to be validated now
+		var err error
+		result, err = k.tallyBundleProposal(ctx, bundleProposal, msg.PoolId)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	// Get next uploader, except the one who skipped
-- 
2.43.0


From f12aef54b48840f2163dd8a6133fbf944c91dbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:30 +0000
Subject: [PATCH 14/22] fix: drop a pending pool leave when the staker is
 removed from the pool

---
 x/stakers/keeper/exported_functions.go |  2 ++
 x/stakers/keeper/logic_leave.go        | 14 ++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/x/stakers/keeper/exported_functions.go b/x/stakers/keeper/exported_functions.go
index c661b45..e2e3af6 100644
--- a/x/stakers/keeper/exported_functions.go
+++ b/x/stakers/keeper/exported_functions.go
@@ -19,8 +19,10 @@ import (
 // LeavePool removes a staker from a pool and emits the corresponding event.
 // The staker is no longer able to participate in the given pool.
 // All points the staker had in that pool are deleted.
+// A leave the staker ordered earlier is dropped, it must not end a later membership.
 func (k Keeper) LeavePool(ctx sdk.Context, staker string, poolId uint64) {
 	k.RemoveValaccountFromPool(ctx, poolId, staker)
+	k.cancelLeavePool(ctx, staker, poolId)
 
 	_ = ctx.EventManager().EmitTypedEvent(&types.EventLeavePool{
 		PoolId: poolId,
diff --git a/x/stakers/keeper/logic_leave.go b/x/stakers/keeper/logic_leave.go
index 108f5f6..d4996ff 100644
--- a/x/stakers/keeper/logic_leave.go
+++ b/x/stakers/keeper/logic_leave.go
@@ -27,6 +27,20 @@ func (k Keeper) orderLeavePool(ctx sdk.Context, staker string, poolId uint64) er
 	return nil
 }
 
+// cancelLeavePool removes the pending leave of the given staker in the given pool, if there is one.
+func (k Keeper) cancelLeavePool(ctx sdk.Context, staker string, poolId uint64) {
+	if !k.DoesLeavePoolEntryExistByIndex2(ctx, staker, poolId) {
+		return
+	}
+
+	for _, entry := range k.GetAllLeavePoolEntries(ctx) {
+		if entry.Staker == staker && entry.PoolId == poolId {
+			k.RemoveLeavePoolEntry(ctx, &entry)
+			return
+		}
+	}
+}
+
 // ProcessLeavePoolQueue ...
 func (k Keeper) ProcessLeavePoolQueue(ctx sdk.Context) {
 	k.processQueue(ctx, types.QUEUE_IDENTIFIER_LEAVE, func(index uint64) bool {
-- 
2.43.0


From 2a0a5f53bd9cdabdde2c82525a634ee7b712bff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:40 +0000
Subject: [PATCH 15/22] fix: charge a fee grant only once

The refund decorator called UseGrantedFees to find the account that paid the
fee, although the fee decorator had already charged the grant. Every refundable
transaction paid by a granter used up twice its fee, and one that exhausted the
grant failed.
---
 x/global/post.go  |  5 +----
 x/global/utils.go | 18 ++++++------------
 2 files changed, 7 insertions(+), 16 deletions(-)

diff --git a/x/global/post.go b/x/global/post.go
index a4a7073..c324f05 100644
--- a/x/global/post.go
+++ b/x/global/post.go
@@ -70,10 +70,7 @@ func (rfd RefundFeeDecorator) PostHandle(ctx sdk.Context, tx sdk.Tx, simulate bo
 	}
 
 	// Send the refund back to this transaction's fee payer.
-	account, err := GetFeeAccount(ctx, feeTx, rfd.feeGrantKeeper)
-	if err != nil {
-		return ctx, err
-	}
+	account := GetFeeAccount(feeTx)
 	err = rfd.bankKeeper.SendCoinsFromModuleToAccount(ctx, authTypes.FeeCollectorName, account, refund)
 	if err != nil {
 		return ctx, err
diff --git a/x/global/utils.go b/x/global/utils.go
index 3584957..0c7d02b 100644
--- a/x/global/utils.go
+++ b/x/global/utils.go
@@ -12,30 +12,24 @@ import (
 
 	// Auth
 	"github.com/cosmos/cosmos-sdk/x/auth/ante"
-	// FeeGrant
-	feeGrantKeeper "cosmossdk.io/x/feegrant/keeper"
 	// Global
 	"github.com/KYVENetwork/chain/x/global/keeper"
 	// Staking
 	stakingKeeper "github.com/cosmos/cosmos-sdk/x/staking/keeper"
 )
 
-func GetFeeAccount(ctx sdk.Context, tx sdk.FeeTx, feeGrantKeeper feeGrantKeeper.Keeper) (sdk.AccAddress, error) {
-	fee := tx.GetFee()
+// GetFeeAccount returns the account that paid the fee of a transaction. The
+// fee itself, including the allowance of a fee granter, has already been
+// charged by the DeductFeeDecorator.
+func GetFeeAccount(tx sdk.FeeTx) sdk.AccAddress {
 	feePayer := tx.FeePayer()
 	feeGranter := tx.FeeGranter()
 
-	account := feePayer
 	if feeGranter != nil && !bytes.Equal(feeGranter, feePayer) {
-		err := feeGrantKeeper.UseGrantedFees(ctx, feeGranter, feePayer, fee, tx.GetMsgs())
-		if err != nil {
-			return nil, sdkErrors.Wrapf(err, "%s does not not allow to pay fees for %s", feeGranter, feePayer)
-		}
-
-		account = feeGranter
+		return feeGranter
 	}
 
-	return account, nil
+	return feePayer
 }
 
 // BuildTxFeeChecker ensures that the configured minimum gas price is met.
-- 
2.43.0


From 070d103eaf139441cf2ec8e47d58f5744c713935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:49 +0000
Subject: [PATCH 16/22] fix: read addresses of any length from store keys

---
 x/delegation/keeper/getters_delegator.go               | 2 +-
 x/delegation/keeper/getters_index_stakers.go           | 4 ++--
 x/delegation/keeper/getters_redelegation.go            | 7 +++++--
 x/query/keeper/grpc_account_assets.go                  | 2 +-
 x/query/keeper/grpc_delegation_stakers_by_delegator.go | 2 +-
 x/stakers/keeper/getters_valaccount.go                 | 2 +-
 6 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/x/delegation/keeper/getters_delegator.go b/x/delegation/keeper/getters_delegator.go
index 67c1a57..82b0279 100644
--- a/x/delegation/keeper/getters_delegator.go
+++ b/x/delegation/keeper/getters_delegator.go
@@ -105,7 +105,7 @@ func (k Keeper) GetStakersByDelegator(ctx sdk.Context, delegator string) (list [
 	defer iterator.Close()
 
 	for ; iterator.Valid(); iterator.Next() {
-		staker := string(iterator.Key()[43 : 43+43])
+		staker := string(iterator.Key()[len(delegator):])
 		list = append(list, staker)
 	}
 	return
diff --git a/x/delegation/keeper/getters_index_stakers.go b/x/delegation/keeper/getters_index_stakers.go
index 7fdd92d..039dcf6 100644
--- a/x/delegation/keeper/getters_index_stakers.go
+++ b/x/delegation/keeper/getters_index_stakers.go
@@ -100,7 +100,7 @@ func (k Keeper) GetPaginatedStakersByDelegation(ctx sdk.Context, pagination *que
 	store := prefix.NewStore(storeAdapter, types.StakerIndexKeyPrefix)
 
 	pageRes, err := query.FilteredPaginate(store, pagination, func(key []byte, value []byte, accumulate bool) (bool, error) {
-		address := string(key[8 : 8+43])
+		address := string(key[8:])
 		return accumulator(address, accumulate), nil
 	})
 	if err != nil {
@@ -134,7 +134,7 @@ func (k Keeper) GetPaginatedInactiveStakersByDelegation(ctx sdk.Context, paginat
 	store := prefix.NewStore(storeAdapter, types.StakerIndexKeyPrefix)
 
 	pageRes, err := query.FilteredPaginate(store, pagination, func(key []byte, value []byte, accumulate bool) (bool, error) {
-		address := string(key[8 : 8+43])
+		address := string(key[8:])
 		if k.stakersKeeper.GetPoolCount(ctx, address) > 0 {
 			return false, nil
 		}
diff --git a/x/delegation/keeper/getters_redelegation.go b/x/delegation/keeper/getters_redelegation.go
index f439933..011f064 100644
--- a/x/delegation/keeper/getters_redelegation.go
+++ b/x/delegation/keeper/getters_redelegation.go
@@ -53,9 +53,12 @@ func (k Keeper) GetAllRedelegationCooldownEntries(ctx sdk.Context) (list []types
 	defer iterator.Close()
 
 	for ; iterator.Valid(); iterator.Next() {
+		key := iterator.Key()
+		// the key ends with the creation date, addresses differ in their length
+		addressLength := len(key) - 8
 		val := types.RedelegationCooldown{
-			Address:      string(iterator.Key()[0:43]),
-			CreationDate: binary.BigEndian.Uint64(iterator.Key()[43:51]),
+			Address:      string(key[:addressLength]),
+			CreationDate: binary.BigEndian.Uint64(key[addressLength:]),
 		}
 		list = append(list, val)
 	}
diff --git a/x/query/keeper/grpc_account_assets.go b/x/query/keeper/grpc_account_assets.go
index 064cf24..44015e7 100644
--- a/x/query/keeper/grpc_account_assets.go
+++ b/x/query/keeper/grpc_account_assets.go
@@ -53,7 +53,7 @@ func (k Keeper) AccountAssets(goCtx context.Context, req *types.QueryAccountAsse
 
 	for ; delegatorIterator.Valid(); delegatorIterator.Next() {
 
-		staker := string(delegatorIterator.Key()[0:43])
+		staker := string(delegatorIterator.Key())
 
 		response.ProtocolDelegation += k.delegationKeeper.GetDelegationAmountOfDelegator(ctx, staker, req.Address)
 		response.ProtocolRewards = response.ProtocolRewards.Add(k.delegationKeeper.GetOutstandingRewards(ctx, staker, req.Address)...)
diff --git a/x/query/keeper/grpc_delegation_stakers_by_delegator.go b/x/query/keeper/grpc_delegation_stakers_by_delegator.go
index ff91996..3f6e8d3 100644
--- a/x/query/keeper/grpc_delegation_stakers_by_delegator.go
+++ b/x/query/keeper/grpc_delegation_stakers_by_delegator.go
@@ -28,7 +28,7 @@ func (k Keeper) StakersByDelegator(goCtx context.Context, req *types.QueryStaker
 
 	pageRes, err := query.FilteredPaginate(delegatorStore, req.Pagination, func(key []byte, value []byte, accumulate bool) (bool, error) {
 		if accumulate {
-			staker := string(key[0:43])
+			staker := string(key)
 
 			stakers = append(stakers, types.DelegationForStakerResponse{
 				Staker:           k.GetFullStaker(ctx, staker),
diff --git a/x/stakers/keeper/getters_valaccount.go b/x/stakers/keeper/getters_valaccount.go
index ac461a5..18dbff1 100644
--- a/x/stakers/keeper/getters_valaccount.go
+++ b/x/stakers/keeper/getters_valaccount.go
@@ -62,7 +62,7 @@ func (k Keeper) GetValaccountsFromStaker(ctx sdk.Context, stakerAddress string)
 	defer iterator.Close()
 
 	for ; iterator.Valid(); iterator.Next() {
-		poolId := binary.BigEndian.Uint64(iterator.Key()[43 : 43+8])
+		poolId := binary.BigEndian.Uint64(iterator.Key()[len(stakerAddress):])
 		valaccount, valaccountFound := k.GetValaccount(ctx, poolId, stakerAddress)
 
 		if valaccountFound {
-- 
2.43.0


From 3e9198151d61a85704b3605bc077834e4a471cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:20 +0000
Subject: [PATCH 17/22] fix: refuse duplicate stakers, leave entries and round
 robin records in a genesis

---
 x/bundles/types/genesis.go | 10 ++++++++++
 x/stakers/types/genesis.go | 17 +++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/x/bundles/types/genesis.go b/x/bundles/types/genesis.go
index 499f26e..b1f57b1 100644
--- a/x/bundles/types/genesis.go
+++ b/x/bundles/types/genesis.go
@@ -48,5 +48,15 @@ func (gs GenesisState) Validate() error {
 		}
 	}
 
+	// Round robin progress
+	roundRobinProgressKey := make(map[string]struct{})
+	for _, elem := range gs.RoundRobinProgressList {
+		index := string(RoundRobinProgressKey(elem.PoolId))
+		if _, ok := roundRobinProgressKey[index]; ok {
+			return fmt.Errorf("duplicated pool-id for round robin progress %v", elem)
+		}
+		roundRobinProgressKey[index] = struct{}{}
+	}
+
 	return gs.Params.Validate()
 }
diff --git a/x/stakers/types/genesis.go b/x/stakers/types/genesis.go
index dc1f54b..244d436 100644
--- a/x/stakers/types/genesis.go
+++ b/x/stakers/types/genesis.go
@@ -14,6 +14,15 @@ func DefaultGenesis() *GenesisState {
 // Validate performs basic genesis state validation returning an error upon any failure.
 func (gs GenesisState) Validate() error {
 	// Staker
+	stakerMap := make(map[string]struct{})
+	for _, elem := range gs.StakerList {
+		index := string(StakerKey(elem.Address))
+		if _, ok := stakerMap[index]; ok {
+			return fmt.Errorf("duplicated index for staker %v", elem)
+		}
+		stakerMap[index] = struct{}{}
+	}
+
 	stakerLeaving := make(map[string]bool)
 
 	// Valaccounts
@@ -46,7 +55,15 @@ func (gs GenesisState) Validate() error {
 	}
 
 	// Leave Pool
+	leavePoolMap := make(map[string]struct{})
+
 	for _, elem := range gs.LeavePoolEntries {
+		index := string(LeavePoolEntryKey(elem.Index))
+		if _, ok := leavePoolMap[index]; ok {
+			return fmt.Errorf("duplicated index for leave pool entry %v", elem)
+		}
+		leavePoolMap[index] = struct{}{}
+
 		if elem.Index > gs.QueueStateLeave.HighIndex {
 			return fmt.Errorf("unbonding stake entry index too high: %v", elem)
 		}
-- 
2.43.0


From 686ba70094e3862c4c7d81ea57a8ef858c18d8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:36 +0000
Subject: [PATCH 18/22] fix: report the parameters before an update unaltered

The new parameters were decoded into a copy which shared its lists with
the old ones, so lists of the old parameters were overwritten before
they were put into the event.
---
 x/bundles/keeper/msg_server_update_params.go | 2 +-
 x/funders/keeper/msg_server_update_params.go | 2 +-
 x/global/keeper/msg_server_update_params.go  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/x/bundles/keeper/msg_server_update_params.go b/x/bundles/keeper/msg_server_update_params.go
index 9e67e99..d1e3848 100644
--- a/x/bundles/keeper/msg_server_update_params.go
+++ b/x/bundles/keeper/msg_server_update_params.go
@@ -22,7 +22,7 @@ func (k msgServer) UpdateParams(goCtx context.Context, msg *types.MsgUpdateParam
 	ctx := sdk.UnwrapSDKContext(goCtx)
 	oldParams := k.GetParams(ctx)
 
-	newParams := oldParams
+	newParams := k.GetParams(ctx)
 	_ = json.Unmarshal([]byte(msg.Payload), &newParams)
 	k.SetParams(ctx, newParams)
 
diff --git a/x/funders/keeper/msg_server_update_params.go b/x/funders/keeper/msg_server_update_params.go
index 0872cc6..dcaa4d4 100644
--- a/x/funders/keeper/msg_server_update_params.go
+++ b/x/funders/keeper/msg_server_update_params.go
@@ -21,7 +21,7 @@ func (k msgServer) UpdateParams(goCtx context.Context, msg *types.MsgUpdateParam
 	ctx := sdk.UnwrapSDKContext(goCtx)
 	oldParams := k.GetParams(ctx)
 
-	newParams := oldParams
+	newParams := k.GetParams(ctx)
 	_ = json.Unmarshal([]byte(msg.Payload), &newParams)
 	k.SetParams(ctx, newParams)
 
diff --git a/x/global/keeper/msg_server_update_params.go b/x/global/keeper/msg_server_update_params.go
index 4189a23..7be341e 100644
--- a/x/global/keeper/msg_server_update_params.go
+++ b/x/global/keeper/msg_server_update_params.go
@@ -21,7 +21,7 @@ func (k msgServer) UpdateParams(goCtx context.Context, msg *types.MsgUpdateParam
 	ctx := sdk.UnwrapSDKContext(goCtx)
 	oldParams := k.GetParams(ctx)
 
-	newParams := oldParams
+	newParams := k.GetParams(ctx)
 	_ = json.Unmarshal([]byte(msg.Payload), &newParams)
 	k.SetParams(ctx, newParams)
 
-- 
2.43.0


From 7720a2a2528623f38437da04bd0ff7e41baac48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:49 +0000
Subject: [PATCH 19/22] fix: do not store funders params without the native
 coin

The payload of an update is validated on top of the default parameters
but stored on top of the current ones. Entries of the coin whitelist are
completed with different values in both cases, so an update which passed
the validation could remove the native coin from the whitelist.
---
 x/funders/keeper/msg_server_update_params.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/x/funders/keeper/msg_server_update_params.go b/x/funders/keeper/msg_server_update_params.go
index dcaa4d4..eae39fe 100644
--- a/x/funders/keeper/msg_server_update_params.go
+++ b/x/funders/keeper/msg_server_update_params.go
@@ -23,6 +23,13 @@ func (k msgServer) UpdateParams(goCtx context.Context, msg *types.MsgUpdateParam
 
 	newParams := k.GetParams(ctx)
 	_ = json.Unmarshal([]byte(msg.Payload), &newParams)
+
+	// list entries of the payload are completed with the current ones, so the result
+	// differs from what was validated when the message was submitted
+	if err := newParams.Validate(); err != nil {
+		return nil, errors.Wrap(err, "invalid params")
+	}
+
 	k.SetParams(ctx, newParams)
 
 	_ = ctx.EventManager().EmitTypedEvent(&types.EventUpdateParams{
-- 
2.43.0


From 1b84e2d0e43c74a43227ad61c3d26f709576867b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:38 +0000
Subject: [PATCH 20/22] fix: index stakers without delegation when the staker
 order is rebuilt

After a restart the in-memory staker index was only rebuilt from the
delegation data, so stakers nobody has delegated to were missing from it
until their next delegation.
---
 x/delegation/genesis.go                | 3 ++-
 x/delegation/keeper/keeper.go          | 5 +++++
 x/delegation/types/expected_keepers.go | 1 +
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/x/delegation/genesis.go b/x/delegation/genesis.go
index eaf9867..c3c971a 100644
--- a/x/delegation/genesis.go
+++ b/x/delegation/genesis.go
@@ -37,7 +37,8 @@ func InitGenesis(ctx sdk.Context, k keeper.Keeper, genState types.GenesisState)
 		k.SetRedelegationCooldown(ctx, entry)
 	}
 
-	k.InitMemStore(ctx)
+	// The in-memory staker index is built in the first begin-block, when the
+	// stakers are imported too.
 }
 
 // ExportGenesis returns the capability module's exported genesis.
diff --git a/x/delegation/keeper/keeper.go b/x/delegation/keeper/keeper.go
index 7f54a34..d67a25b 100644
--- a/x/delegation/keeper/keeper.go
+++ b/x/delegation/keeper/keeper.go
@@ -79,6 +79,11 @@ func (k Keeper) InitMemStore(gasCtx sdk.Context) {
 			k.SetStakerIndex(noGasCtx, entry.Staker)
 		}
 
+		// stakers nobody has delegated to yet have no delegation data
+		for _, staker := range k.stakersKeeper.GetAllStakers(noGasCtx) {
+			k.SetStakerIndex(noGasCtx, staker.Address)
+		}
+
 		memStoreInitialized = true
 	}
 }
diff --git a/x/delegation/types/expected_keepers.go b/x/delegation/types/expected_keepers.go
index 4597599..6c02f98 100644
--- a/x/delegation/types/expected_keepers.go
+++ b/x/delegation/types/expected_keepers.go
@@ -31,4 +31,5 @@ type StakersKeeper interface {
 	GetValaccountsFromStaker(ctx sdk.Context, stakerAddress string) (val []*stakerstypes.Valaccount)
 	GetPoolCount(ctx sdk.Context, stakerAddress string) (poolCount uint64)
 	GetActiveStakers(ctx sdk.Context) []string
+	GetAllStakers(ctx sdk.Context) []stakerstypes.Staker
 }
-- 
2.43.0


From b8a59bd487419bfa59758ca58340bbecc777e6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:09 +0000
Subject: [PATCH 21/22] fix: report the scheduled time of a runtime upgrade
 that was stored

A plan scheduled in the past is moved to the current block, the event still
named the requested time.
---
 x/pool/keeper/msg_server_schedule_runtime_upgrade.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/pool/keeper/msg_server_schedule_runtime_upgrade.go b/x/pool/keeper/msg_server_schedule_runtime_upgrade.go
index 3b8f1ab..a6a7951 100644
--- a/x/pool/keeper/msg_server_schedule_runtime_upgrade.go
+++ b/x/pool/keeper/msg_server_schedule_runtime_upgrade.go
@@ -61,7 +61,7 @@ func (k msgServer) ScheduleRuntimeUpgrade(
 	_ = ctx.EventManager().EmitTypedEvent(&types.EventRuntimeUpgradeScheduled{
 		Runtime:       req.Runtime,
 		Version:       req.Version,
-		ScheduledAt:   req.ScheduledAt,
+		ScheduledAt:   scheduledAt,
 		Duration:      req.Duration,
 		Binaries:      req.Binaries,
 		AffectedPools: affectedPools,
-- 
2.43.0


From b7df2fb9d1eebb9961d7ccf84253a8e924059c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:46 +0000
Subject: [PATCH 22/22] fix: report no protocol validator without delegation to
 the governance tally

---
 x/stakers/keeper/exported_functions.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/x/stakers/keeper/exported_functions.go b/x/stakers/keeper/exported_functions.go
index e2e3af6..4731d04 100644
--- a/x/stakers/keeper/exported_functions.go
+++ b/x/stakers/keeper/exported_functions.go
@@ -94,6 +94,7 @@ func (k Keeper) TotalBondedTokens(ctx context.Context) math.Int {
 
 // GetActiveValidators returns all protocol-node information which
 // are needed by the governance to calculate the voting powers.
+// Protocol-nodes without any delegation have no voting power and are left out.
 // The interface needs to correspond to github.com/cosmos/cosmos-sdk/x/gov/types/v1.ValidatorGovInfo
 // But as there is no direct dependency in the cosmos-sdk-fork this value is passed as an interface{}
 func (k Keeper) GetActiveValidators(ctx context.Context) (validators []interface{}) {
@@ -101,6 +102,12 @@ func (k Keeper) GetActiveValidators(ctx context.Context) (validators []interface
 	for _, address := range k.getAllActiveStakers(sdkCtx) {
 		delegation := int64(k.delegationKeeper.GetDelegationAmount(sdkCtx, address))
 
+		// The tally divides by the shares of every validator that voted. Without any
+		// delegation there is no voting power and nothing to divide by.
+		if delegation == 0 {
+			continue
+		}
+
 		validator := govV1Types.NewValidatorGovInfo(
 			sdk.ValAddress(sdk.MustAccAddressFromBech32(address)),
 			math.NewInt(delegation),
-- 
2.43.0

