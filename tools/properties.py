#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the properties are edited here)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))

IN, HI, CO, SC = "inputs", "histories", "configurations", "schedules"

p("C01", "Governance actions are accepted from the governance account only",
  "Creating, updating, disabling or enabling a pool, scheduling or cancelling a runtime upgrade and changing the parameters of any KYVE module succeed only when the authority named in the message is the chain's governance account. With any other authority the message fails and nothing in the state changes. A parameter update stores only parameters that passed that module's validation.",
  [IN, HI], "every message, every authority string, every prior state",
  "the suite tries one or two wrong authorities on some of the messages; the guarantee is over all authorities, all governance messages and all paths to a write",
  ["x/pool/keeper/msg_server_create_pool.go", "x/pool/keeper/msg_server_update_pool.go", "x/bundles/keeper/msg_server_update_params.go", "x/global/keeper/msg_server_update_params.go"],
  [("authority comparison at the top of each handler", "x/*/keeper/msg_server_*.go")], ["message result", "module state"])

p("C02", "Team funds move only on the order of a team authority",
  "Creating a team account, clawing it back, claiming unlocked tokens and claiming account rewards succeed only for one of the two configured team authorities, and the authority's own rewards only for the foundation. With any other sender the message fails without changing state or moving tokens.",
  [IN, HI], "every message and sender, every state of the team accounts",
  "tests send from one foreign address per message; a path that reaches the transfer without the check would pass them",
  ["x/team/keeper/msg_server_clawback.go", "x/team/keeper/msg_server_claim_unlocked.go", "x/team/keeper/msg_server_claim_authority_rewards.go", "x/team/keeper/msg_server_claim_account_rewards.go", "x/team/keeper/msg_server_create_team_vesting_account.go"],
  [("authority comparison before any effect", "x/team/keeper/msg_server_*.go")], ["message result", "team module balance"])

p("C03", "Only a staker's registered protocol node acts for it in a pool",
  "Submitting a bundle proposal, voting on one, skipping the upload and claiming the uploader role change state only if the acting node address is exactly the one the named staker registered for that pool when joining it. Any other sender, and a staker that is not a member of the pool, is refused before any state changes.",
  [IN, HI], "every (staker, pool, sender) combination in every state",
  "tests exercise a handful of fixed stakers and node addresses",
  ["x/bundles/keeper/logic_bundles.go", "x/stakers/keeper/getters_valaccount.go", "x/bundles/keeper/msg_server_submit_bundle_proposal.go", "x/bundles/keeper/msg_server_vote_bundle_proposal.go", "x/bundles/keeper/msg_server_skip_uploader_role.go", "x/bundles/keeper/msg_server_claim_uploader_role.go"],
  [("membership and node-address assertion before any effect", "x/stakers/keeper/exported_functions.go AssertValaccountAuthorized")], ["message result", "bundle proposal state"])

p("C04", "A user message only debits and changes its own sender's records",
  "Delegating, undelegating, redelegating and withdrawing rewards, creating and editing a staker, joining and leaving a pool, claiming commission, and creating, updating, funding and defunding as a funder act on the records and the balance of the account that sent the message and of no other. Tokens released by such a message go to its sender.",
  [IN, HI], "every message content and every state",
  "tests check that the sender's record changed; they cannot show that no other record is keyed by message content",
  ["x/delegation/keeper", "x/stakers/keeper", "x/funders/keeper"],
  [("every keyed write and every transfer in the handlers uses the sender field", "x/{delegation,stakers,funders}/keeper/msg_server_*.go")], ["records of other accounts", "balances"])

p("C05", "Every message is signed by its actor, validated, routed and decodable",
  "Each transaction message names as its required signer the same account the handler treats as the actor. Every message of every KYVE service is handled by a message server that is registered with the application, and its type is registered with the interface registry so that transactions and governance proposals can carry it. Before execution every message with a malformed signer address is refused, and so is one with malformed user input: an empty funder moniker, an empty or invalid coin set where one is needed, an invalid staker or valaddress, a commission outside 0 to 1, metadata longer than 255 bytes or an identity that is not 8 hex bytes, a pool with a zero upload interval or bundle size or a negative inflation share weight.",
  [IN, "programs"], "every message type of every module",
  "a missing registration or a wrong signer field appears only for the one message and path concerned, which keeper tests bypass",
  ["x/*/types/codec.go", "x/*/types/message_*.go", "x/*/types/tx.pb.go", "x/*/module.go"],
  [("signer option, codec registration and service registration", "x/*/types/codec.go, x/*/module.go")], ["transaction decoding", "required signers"])

p("C06", "Team claims pay at most the entitlement and are booked exactly",
  "A claim of unlocked tokens, account rewards or authority rewards pays exactly the requested amount to the requested recipient, and only if it does not exceed what is unlocked and unclaimed (respectively earned and unclaimed) at that moment. The same amount is then added to what has been claimed and nothing else of the record changes except the time of the last claim of unlocked tokens. A claim within the entitlement is not refused.",
  [IN, HI], "every account record, every time, every requested amount, every sequence of claims",
  "tests claim a few amounts at a few dates",
  ["x/team/keeper/msg_server_claim_unlocked.go", "x/team/keeper/msg_server_claim_account_rewards.go", "x/team/keeper/msg_server_claim_authority_rewards.go", "x/team/keeper/logic_team.go"],
  [("entitlement test, transfer, bookkeeping", "x/team/keeper/msg_server_claim_*.go")], ["team module balance", "claimed amounts"])

p("C07", "Team vesting and unlocking follow the published schedule at every time",
  "At any time an account has vested nothing before one year of membership, then linearly by time over three years, then everything, with the membership ending at the clawback date if one is set. Unlocking starts one year after the later of commencement and token generation, runs linearly over two years on the vested amount and ends at the maximum the account can vest; what is claimable is the unlocked amount minus what was claimed, never below zero. A clawback cannot be dated before commencement or before the last claim.",
  [IN], "every account (commencement, clawback, allocation) and every time",
  "the tests sample about a dozen dates on fixed accounts",
  ["x/team/keeper/logic_team.go", "x/team/keeper/msg_server_clawback.go"],
  [("vesting status and plan computation", "x/team/keeper/logic_team.go")], ["vesting status and plan queries"])

p("C08", "Team inflation is fully attributed and issued allocation stays capped",
  "In each block the team module receives its share of minted tokens by the tokens it must hold, pays exactly that amount from the team pool of minted tokens into the team module, credits each account in proportion to its vested and unclaimed allocation and the authority with the entire remainder. Creating an account or resetting a clawback never raises the total issued allocation above the team allocation.",
  [IN, HI], "every set of accounts, every allocation amount, every block",
  "tests use few accounts and round numbers; remainders, overflow and clawback resets are not sampled",
  ["x/team/abci.go", "x/team/keeper/logic_team.go", "x/team/keeper/msg_server_create_team_vesting_account.go", "x/team/keeper/msg_server_clawback.go"],
  [("team inflation distribution", "x/team/abci.go"), ("issued allocation cap", "x/team/keeper/msg_server_create_team_vesting_account.go")], ["authority and account rewards", "team info query"])

p("C09", "Delegation ledger changes and token transfers always match",
  "Delegating moves exactly the stated amount from the delegator into the module and raises the delegator's and the staker's totals by it; finishing an undelegation lowers both and pays exactly the released amount back; redelegating lowers one staker's totals and raises the other's by the same amount without moving tokens. A staker total is the sum of its delegators' amounts through every such step, and a slash lowers the staker total by exactly the tokens it sends to the community pool.",
  [IN, HI], "every amount, every delegator and staker, every sequence of messages",
  "tests check specific amounts after specific sequences",
  ["x/delegation/keeper/logic_delegation.go", "x/delegation/keeper/logic_f1distribution.go", "x/delegation/keeper/msg_server_delegate.go", "x/delegation/keeper/msg_server_redelegate.go", "x/delegation/keeper/logic_slashing.go", "x/delegation/keeper/exported_functions.go"],
  [("paired transfer and ledger update", "x/delegation/keeper")], ["delegation amounts", "module balance"])

p("C10", "Delegation rewards are accounted per period without loss or double pay",
  "Every change of a delegator's stake ends the running reward period first, pays out or carries what the delegator earned up to then, and restarts the delegator at the new period; withdrawing pays the earned amount once and resets it. A period's record is removed only when no delegator refers to it.",
  [IN, HI], "every interleaving of delegations, rewards, slashes and withdrawals",
  "tests follow a few interleavings with round numbers",
  ["x/delegation/keeper/logic_f1distribution.go", "x/delegation/keeper/logic_delegation.go"],
  [("period bookkeeping", "x/delegation/keeper/logic_f1distribution.go")], ["outstanding rewards", "withdrawn amounts"])

p("C11", "Undelegations are released in order, after the unbonding time, once",
  "An undelegation request creates one queue entry with the requested amount, the creation time and a fresh position at the end of the queue, never more than the delegator holds at that moment. Entries are released strictly from the front, each only after the unbonding time has passed, each pays at most what the delegation is still worth, and is then deleted together with its lookup entry.",
  [IN, HI, SC], "every queue content, block time and parameter value",
  "tests use one or two entries and one unbonding time",
  ["x/delegation/keeper/logic_unbonding.go", "x/delegation/keeper/msg_server_undelegate.go", "x/delegation/keeper/getters_undelegation_queue.go", "util/logic_queue.go"],
  [("unbonding queue", "x/delegation/keeper/logic_unbonding.go")], ["queue entries", "delegator balance"])

p("C12", "Redelegation slots are limited and expire only after the cooldown",
  "A redelegation succeeds only if the delegator has used fewer slots than allowed and has not used a slot in the same block; it always occupies one slot with the current time. A slot is freed only once the cooldown time has fully passed. The target must be an existing staker that is active in at least one pool.",
  [IN, HI], "every number of used slots, every time, every parameter value",
  "tests use the default limit and step time in fixed increments",
  ["x/delegation/keeper/msg_server_redelegate.go", "x/delegation/keeper/logic_redelegation.go", "x/delegation/keeper/getters_redelegation_spells.go"],
  [("cooldown consumption", "x/delegation/keeper/logic_redelegation.go")], ["message result", "cooldown entries"])

p("C13", "Funding and defunding move exactly the amounts they book",
  "Funding transfers exactly the listed coins from the funder into the funders module and adds them to the funder's funding of that pool; defunding pays exactly the returned coins back and subtracts them, never more than is there. Amounts per coin never become negative and no other funding of the funder or pool changes.",
  [IN, HI], "every coin list, every existing funding, every pool",
  "tests use one to three coins and fixed amounts",
  ["x/funders/keeper/msg_server_fund_pool.go", "x/funders/keeper/msg_server_defund_pool.go", "x/funders/types/funders.go"],
  [("paired transfer and funding update", "x/funders/keeper/msg_server_*.go")], ["funding records", "module balance"])

p("C14", "A funding is listed as active exactly while it has funds",
  "After any funding, defunding or charge, a funder appears in a pool's list of active fundings if and only if its funding still has coins left, and appears at most once. The funding records and their lookup by pool and by funder always describe the same set.",
  [IN, HI], "every sequence of fund, defund, replace and charge operations",
  "tests check the list after a few sequences",
  ["x/funders/keeper/logic_funders.go", "x/funders/keeper/msg_server_fund_pool.go", "x/funders/keeper/msg_server_defund_pool.go", "x/funders/types/funders.go", "x/funders/keeper/getters_funding_state.go"],
  [("active list maintenance", "x/funders/types/funders.go")], ["funding state"])

p("C15", "Each valid bundle charges each active funder its agreed amount at most",
  "Paying for a finalised bundle takes from every active funder, per coin, the smaller of the agreed amount per bundle and what is left, adds it to the funder's total paid, and sends the sum of these charges to the pool account and to nobody else. Funders left without coins are taken off the active list, and the reported payout is exactly that sum.",
  [IN, HI], "every set of active funders, every coin mix",
  "tests use up to three funders and few coins",
  ["x/funders/keeper/logic_funders.go", "x/funders/keeper/exported_functions.go", "x/funders/types/funders.go"],
  [("charge of all active funders", "x/funders/keeper/exported_functions.go ChargeFundersOfPool")], ["funding records", "pool account"])

p("C16", "Funding minimums, coin whitelist and the funder limit are enforced",
  "A funding is accepted only if every coin is whitelisted, the resulting amount and amount per bundle reach the whitelist minimums, and the amount covers the required multiple of the per-bundle amount. A pool never has more active funders than the limit: when it is full, a new funder enters only by strictly exceeding the lowest active funding by weighted value, which is then paid back in full and deactivated; a funder that is already active needs no free slot.",
  [IN, HI, CO], "every coin list, whitelist, parameter set and list of active funders",
  "tests use one whitelist and a few fundings",
  ["x/funders/keeper/msg_server_fund_pool.go", "x/funders/keeper/logic_funders.go", "x/funders/types/params.go"],
  [("funding acceptance checks", "x/funders/keeper/logic_funders.go")], ["message result", "funding state"])

p("C17", "Bundles finalise only with a valid majority, in sequence, and never change",
  "A bundle is stored as finalised only when the votes that count for it exceed half of the pool's voting power, with its id equal to the number of bundles so far and its range starting where the previous one ended, and the pool's counters advance by exactly that bundle. A stored bundle is never overwritten or removed by ordinary operation, and the finalised record carries the proposal's own data.",
  [IN, HI], "every distribution of votes and stake, every history of a pool",
  "tests reach a few vote distributions with equal stakes",
  ["x/bundles/keeper/logic_bundles.go", "x/bundles/keeper/logic_votes.go", "x/bundles/keeper/getters_bundles.go", "x/pool/keeper/exported_functions.go"],
  [("tally and finalisation", "x/bundles/keeper/logic_bundles.go")], ["finalised bundles", "pool counters"])

p("C18", "Each vote outcome has exactly its consequences",
  "The outcome of a round follows from the voting power of the pool alone: valid above half valid votes, invalid at half or more invalid, no quorum otherwise, and no decision at all while one staker exceeds the maximum voting power of the pool. A valid round pays and finalises; an invalid round slashes the uploader and those who voted for the bundle, drops the proposal and removes the uploader from the pool; a round without quorum waits or drops without paying. Voters against a valid bundle are slashed, and members that did not vote on an open proposal collect a point, before the votes of the round are counted.",
  [IN, HI], "every split of voting power over valid, invalid, abstain and non-voters",
  "tests reach a handful of splits",
  ["x/bundles/keeper/logic_bundles.go", "x/bundles/keeper/logic_votes.go", "x/bundles/keeper/msg_server_submit_bundle_proposal.go"],
  [("tally", "x/bundles/keeper/logic_votes.go"), ("consequences", "x/bundles/keeper/logic_bundles.go tallyBundleProposal")], ["slashes, points, payouts, finalised bundles"])

p("C19", "A staker votes at most once per round, and only on the current proposal",
  "A vote is accepted only on the proposal currently open in a running pool, from a registered node of a staker other than its uploader, for exactly that proposal's storage id, and if the staker has not voted yet, except to change an abstention into a decision. The vote is recorded in exactly one list and a vote with no valid type is refused.",
  [IN, HI], "every staker, vote type, proposal and earlier vote",
  "tests try each rule once",
  ["x/bundles/keeper/msg_server_vote_bundle_proposal.go", "x/bundles/keeper/logic_bundles.go"],
  [("vote admission and recording", "x/bundles/keeper/msg_server_vote_bundle_proposal.go")], ["vote lists", "message result"])

p("C20", "Only the designated uploader submits, in time order, a bundle that fits",
  "A bundle proposal is accepted only from the staker designated as uploader, after the upload interval, if it starts at the pool's next index, is no larger than the pool allows, is not empty, and names its storage, its data hash, its size and its first and last key. It replaces the open proposal with the uploader's own vote counted as valid; claiming a free uploader role and skipping an owned one are accepted exactly when their conditions hold.",
  [IN, HI], "every message content and every proposal state",
  "tests vary one field at a time from one good message",
  ["x/bundles/keeper/msg_server_submit_bundle_proposal.go", "x/bundles/keeper/logic_bundles.go", "x/bundles/types/message_submit_bundle_proposal.go", "x/bundles/keeper/msg_server_skip_uploader_role.go", "x/bundles/keeper/msg_server_claim_uploader_role.go"],
  [("proposal admission", "x/bundles/keeper/logic_bundles.go AssertCanPropose"), ("registration", "x/bundles/keeper/logic_bundles.go")], ["bundle proposal", "message result"])

p("C21", "A pool works only while it may run, and reports the reason truthfully",
  "Proposals and votes are accepted only in a pool that is not disabled, not upgrading, meets the minimum stake, has no staker above the maximum voting power per pool, and has not reached its end key. The pool status shown to users reports exactly the first obstacle that would also block the operation, if none does whether the pool has no funds, and running only otherwise.",
  [IN, HI, CO], "every pool state, stake distribution and parameter set",
  "tests set each obstacle once; agreement between the status query and the admission rule is not tested across combinations",
  ["x/bundles/keeper/logic_bundles.go", "x/query/keeper/helper.go", "x/pool/keeper/exported_functions.go"],
  [("pool gate", "x/bundles/keeper/logic_bundles.go AssertPoolCanRun"), ("status query", "x/query/keeper/helper.go")], ["pool status query", "message result"])

p("C22", "A bundle payout is split into network fee, uploader and delegators exactly",
  "The coins collected for a valid bundle plus the inflation share are divided into the network fee for the community pool, the storage cost and commission for the uploader and the remainder for its delegators, and the parts always sum to the whole, with everything going to the uploader's reward if it has no delegation. Each share is taken at the configured rate, the storage cost never exceeds what is left after the fee, and the pool account pays out exactly what was computed.",
  [IN, CO], "every payout, stake, commission, fee rate, bundle size and storage price",
  "tests compute a few payouts with round numbers",
  ["x/bundles/keeper/logic_bundles.go", "x/bundles/keeper/msg_server_submit_bundle_proposal.go"],
  [("payout computation", "x/bundles/keeper/logic_bundles.go calculatePayouts"), ("payout transfers", "x/bundles/keeper/logic_bundles.go")], ["rewards", "community pool", "pool account"])

p("C23", "An uploader that misses its deadline is replaced, and only then",
  "At the end of a block, a pool whose upload interval has passed drops an open proposal that has no quorum, with a point for those who did not vote, and a pool whose upload timeout has passed as well settles the open proposal, gives the late uploader a point, which may remove it, and chooses a new uploader. Before the interval has passed nothing changes, and a pool that may not run only has its uploader cleared, a disabled pool also its open proposal.",
  [IN, HI, SC], "every pool, block time and proposal state",
  "tests pass the deadline in a few states",
  ["x/bundles/keeper/abci.go", "x/bundles/keeper/logic_bundles.go"],
  [("upload timeout", "x/bundles/keeper/abci.go HandleUploadTimeout")], ["next uploader", "points", "pool membership"])

p("C24", "Uploader selection is weighted, deterministic and only from pool members",
  "The next uploader is always chosen from those members of the pool that may be chosen and remain in it after the round's removals, by a progress score to which each of them adds its voting power each round and from which the chosen one pays their total; the member with the highest score wins with a fixed tie order. Nobody is excluded by default; a staker that skips its turn is not chosen again at once while there are others, and after a valid round only those who voted for it may be chosen, if anyone did. The saved progress is cleaned of stakers that left and re-centred, so that no member's score grows without bound.",
  [IN, HI], "every set of members, stakes and saved progress",
  "tests follow a few rounds with few members",
  ["x/bundles/keeper/logic_round_robin.go"],
  [("round robin", "x/bundles/keeper/logic_round_robin.go")], ["next uploader", "saved progress"])

p("C25", "Pool membership rules hold on every way in and out",
  "A staker joins a pool only if it exists, the pool exists and is not disabled, it is not already a member, its node address is not the staker itself, is used for none of the staker's other pools and by no other member of the pool, and a full pool gives way only to more stake than its smallest member, which is removed. Leaving is possible at any time, takes effect only after the leave time, and one staker can leave one pool only once at a time. Every removal updates the membership record, the pool's stake lists and the member count together.",
  [IN, HI, SC], "every staker, pool, node address, membership state and block time",
  "tests walk through a few joins and leaves",
  ["x/stakers/keeper/msg_server_join_pool.go", "x/stakers/keeper/msg_server_leave_pool.go", "x/stakers/keeper/logic_stakers.go", "x/stakers/keeper/logic_leave.go", "x/stakers/keeper/getters_staker.go", "x/stakers/keeper/exported_functions.go"],
  [("join and leave logic", "x/stakers/keeper")], ["pool members", "queue"])

p("C26", "Commission changes take effect only after their delay; rewards pay out once",
  "A commission change is stored as a queue entry, replaces an earlier pending one, and is applied only after the change time has passed, in order, and then removed. A staker's commission is always between zero and one. Claiming commission rewards pays exactly the claimed coins to the staker, never more than accrued, and reduces the accrued rewards by them.",
  [IN, HI, SC], "every commission value, claim and block time",
  "tests use one pending change and fixed claims",
  ["x/stakers/keeper/msg_server_update_commission.go", "x/stakers/keeper/logic_commission.go", "x/stakers/keeper/msg_server_claim_commission_rewards.go", "x/stakers/keeper/exported_functions.go"],
  [("commission queue", "x/stakers/keeper/logic_commission.go"), ("commission rewards", "x/stakers/keeper/msg_server_claim_commission_rewards.go")], ["commission", "rewards", "balance"])

p("C27", "Inactivity points lead to a timeout slash exactly at the limit",
  "Each missed duty adds exactly one point to the staker's membership in that pool; reaching the limit slashes the staker by the timeout fraction, removes it from the pool and only then clears its points. Taking part again clears the points.",
  [IN, HI], "every point count, limit and sequence of missed and performed duties",
  "tests run one sequence to the default limit",
  ["x/bundles/keeper/logic_bundles.go", "x/stakers/keeper/exported_functions.go"],
  [("points", "x/bundles/keeper/logic_bundles.go addPoint/resetPoints")], ["points", "pool membership", "slashes"])

p("C28", "Pool configuration changes exactly as ordered and ids never repeat",
  "Creating a pool stores exactly the given configuration under a fresh id with empty counters and a funding list; updating changes only the fields that are given. Disabling and enabling succeed only in the opposite state and change only that flag, and disabling also removes all members. No operation lowers or reuses a pool id.",
  [IN, HI], "every configuration and update payload",
  "tests use a few payloads",
  ["x/pool/keeper/msg_server_create_pool.go", "x/pool/keeper/msg_server_update_pool.go", "x/pool/keeper/msg_server_disable_pool.go", "x/pool/keeper/msg_server_enable_pool.go", "x/pool/keeper/getters_pool.go"],
  [("pool governance handlers", "x/pool/keeper/msg_server_*.go")], ["pool records"])

p("C29", "Runtime upgrades apply once, after their time, to all pools of the runtime",
  "Scheduling an upgrade sets the plan on every pool of the named runtime that has none pending and on no other; a time in the past means now, and a plan without version or binaries is refused. Cancelling removes a plan only where one is pending. At the scheduled time the version and binaries become the planned ones, while the upgrade runs the pool does not work, and the plan is removed after its duration and not before.",
  [IN, HI, SC], "every runtime, pool set, plan and block time",
  "tests schedule one upgrade on two pools",
  ["x/pool/keeper/msg_server_schedule_runtime_upgrade.go", "x/pool/keeper/msg_server_cancel_runtime_upgrade.go", "x/pool/keeper/abci.go"],
  [("upgrade schedule and application", "x/pool/keeper")], ["pool protocol and upgrade plan"])

p("C30", "Protocol inflation is split over running pools only, and never overpaid",
  "In each block the protocol's share of the minted tokens is divided between the pools that can run by their operating cost weight, each pool account receives exactly its share, and what is left over from rounding goes to at most one pool that can run. No pool that cannot run receives anything and the total paid never exceeds the share.",
  [IN, HI, CO], "every set of pools, weights and minted amounts",
  "tests use weights that divide evenly, so the remainder is never placed",
  ["x/bundles/keeper/abci.go"],
  [("inflation split", "x/bundles/keeper/abci.go SplitInflation")], ["pool account balances"])

p("C31", "Secondary indexes always match the primary records",
  "Every record that can be found through a second key (by pool, by funder, by delegator, by staker, by stake order, by height) is written, moved and deleted together with that second entry, under the key computed from the record's own data. No operation leaves an entry without a record or a record without its entry.",
  [IN, HI], "every write and delete of every indexed record",
  "tests read through one of the keys after a few operations",
  ["x/delegation/keeper/getters_delegator.go", "x/delegation/keeper/getters_undelegation_queue.go", "x/stakers/keeper/getters_valaccount.go", "x/stakers/keeper/getters_queue_commission.go", "x/funders/keeper/getters_funding.go", "x/bundles/keeper/getters_bundles.go"],
  [("paired writes in the record setters", "x/*/keeper/getters_*.go")], ["lookups by each key"])

p("C32", "Store keys of different kinds of records never collide",
  "Within each module no two kinds of records share a key or a key prefix that lets one be read, iterated or deleted as the other, and the key of a record determines the identifying fields it was built from. Every part of a key has a fixed length, is an account address, or stands last.",
  [IN], "every pair of record kinds and every identifier value",
  "a collision needs particular identifiers that tests do not use",
  ["x/*/types/keys.go", "util/logic_keys.go"],
  [("prefix and key construction", "x/*/types/keys.go")], ["stored keys"])

p("C33", "Exporting and importing genesis loses no state",
  "Every kind of record a module stores persistently is written to its exported genesis and restored from it on import, from the same source it was exported from, including counters, queues and indexes. Records derived from others are rebuilt on import.",
  [HI, "programs"], "every reachable state of every module",
  "tests export states in which most kinds of records are empty",
  ["x/bundles/genesis.go", "x/delegation/genesis.go", "x/funders/genesis.go", "x/global/genesis.go", "x/pool/genesis.go", "x/stakers/genesis.go", "x/team/genesis.go"],
  [("InitGenesis and ExportGenesis of each module", "x/*/genesis.go")], ["exported genesis", "state after import"])

p("C34", "An inconsistent genesis is rejected",
  "Genesis validation of every module refuses duplicate records of each kind it lists, queue entries outside the queue's own bounds, counters below an existing id, and parameters that the module's own validation refuses.",
  [IN], "every genesis document",
  "tests validate a few default and broken documents, mostly empty",
  ["x/*/types/genesis.go"],
  [("Validate of each module's genesis", "x/*/types/genesis.go")], ["genesis validation result"])

p("C35", "Every parameter has its documented bounds and is validated where it enters",
  "Each module's parameter validation covers every parameter it stores: fractions and rates stay between zero and one, numbers that must not be negative or zero are refused when they are, and nothing acceptable is refused. Defaults pass validation.",
  [IN, CO], "every parameter value",
  "tests try one bad value for some parameters",
  ["x/*/types/params.go", "util/logic_validation.go"],
  [("Validate of each parameter set", "x/*/types/params.go")], ["parameter validation result"])

p("C36", "Consensus code is deterministic",
  "No result of message handling, block processing, genesis or state migration depends on the iteration order of unordered collections, wall-clock time, randomness, floating point arithmetic, concurrency, environment, memory addresses or mutable process-wide variables. Replaying the same blocks gives the same state on every node.",
  ["programs", SC, CO], "every function reachable from consensus entry points",
  "a test runs on one machine once; divergence shows only between nodes",
  ["x", "util", "app"],
  [("absence of nondeterministic operations in the code reachable from consensus", "x/*/keeper, util, app")], ["state after replay"])

p("C37", "Store iterators are always closed and never modify what they iterate",
  "Every iterator over the store that is opened is closed on every path, including early returns, in message handling, block processing and queries. Code that changes records while iterating collects them first or uses a safe order.",
  ["programs", IN], "every path through every function that opens an iterator",
  "tests use stores in which an open iterator has no visible effect",
  ["x/*/keeper/getters_*.go"],
  [("deferred or explicit close", "x/*/keeper/getters_*.go")], ["iterator life cycle"])

p("C38", "A failed step is never treated as a success",
  "When a token transfer, a store access or another operation that can fail reports an error during a message, the message fails or the failure is handled; no handler or block step goes on to book the effect of an operation that failed. Block processing reacts to failures of its own transfers by the emergency path.",
  ["programs", "fault_sequences"], "every call that can fail in consensus code",
  "the failures (insufficient module balance, blocked recipient, malformed data) hardly occur in tests",
  ["x/*/keeper", "x/*/abci.go", "util/logic_transfer.go"],
  [("error propagation", "x/*/keeper")], ["message result", "state after failure"])

p("C39", "Queries never change state and report what is stored",
  "No query of any module writes to the store, moves tokens or emits consensus events on any path, except within a discarded context. Every query of the published services is served by a handler.",
  ["programs", IN], "every query and every path through it",
  "tests look at the answer, not at the store afterwards",
  ["x/query/keeper", "x/*/keeper/grpc_*.go"],
  [("query handlers use read accessors only", "x/query/keeper")], ["state after a query"])

p("C40", "Transaction fees follow the global fee rules",
  "A transaction pays at least the minimum gas price times its gas limit, and at check time also the node's own minimum; extra gas is charged per message type as configured. After success a single-message transaction gets back at most the configured fraction of its own fee, from collected fees, and at the end of each block the configured fraction of collected fees, and never more, is burned.",
  [IN, CO], "every fee, gas limit, message type and parameter set",
  "tests use a few configurations of one message type",
  ["x/global/ante.go", "x/global/post.go", "x/global/abci.go", "x/global/gas_meter.go"],
  [("fee decorators", "x/global/ante.go"), ("refund", "x/global/post.go"), ("burn", "x/global/abci.go")], ["deducted and refunded fees", "burned amount"])

p("C41", "The application is assembled so that every guarantee above is in force",
  "All KYVE modules take part in genesis, block processing and upgrades in an order where minting precedes every consumer of minted tokens and pool upgrades precede bundle handling; the transaction checks run in an order that sets up gas and fees before charging and verifies signatures; module accounts have only the permissions they need, and module accounts cannot be paid by ordinary transfers.",
  [CO, "programs"], "the application's configuration",
  "keeper tests never build the whole application in its final order",
  ["app/app_config.go", "app/ante.go", "app/app.go", "x/*/module.go"],
  [("module order, ante chain, permissions", "app/app_config.go, app/ante.go")], ["block and transaction processing"])

p("C42", "No operation overwrites another update of the same record",
  "Within one message or block step, a record that was read is not written back after another part of the same step has updated it, unless it is read again first, and a record that the step has removed is not read any more. Every update therefore survives the step in which it was made.",
  ["programs", IN], "every path of every handler and block step",
  "a lost update shows only for a particular combination of conditions in one step",
  ["x/*/keeper"],
  [("re-reading of records after calls that may write them", "x/*/keeper")], ["records after a step"])

p("C43", "Events report what actually happened",
  "Every state-changing message emits its event on success and only on success (a queued leave or commission change when it is carried out), and so does every payment, slash, point and removal in a block step; the event's ids, accounts and amounts are those that were booked or transferred in the same step.",
  [IN, HI], "every message and path",
  "tests hardly look at events",
  ["x/*/keeper/msg_server_*.go", "x/*/keeper/logic_*.go"],
  [("event emission next to the effect", "x/*/keeper")], ["emitted events"])

p("C44", "Limit checks and subtractions cannot be defeated by integer wrap-around",
  "No acceptance check on an amount supplied by a user can be passed by letting an unsigned sum or product wrap, and no unsigned difference is stored, paid or compared without the order of its operands being established on that path or by an invariant of the stored records.",
  [IN], "every numeric message field over its full range",
  "tests use small numbers",
  ["x/*/keeper/msg_server_*.go", "x/*/keeper/logic_*.go"],
  [("order of comparison and subtraction", "x/*/keeper")], ["message result"])

p("C45", "The v1.5 upgrade carries every stored record over",
  "The upgrade from the previous release rewrites every record kind whose format changed into the new format, under the key it had: every field that exists in both formats is copied and amounts are converted one to one (the pools' inflation weight, which is reset to one, and the single storage cost, which becomes one cost per storage provider, excepted), the newly introduced parameters are set, pool creations inside stored governance proposals are converted with all their fields, and the module migrations run once and their result is returned. No record is dropped or duplicated and no store of a module in use is deleted.",
  [HI], "every pre-upgrade state",
  "the upgrade has no test on states with all kinds of records",
  ["app/upgrades/v1_5/upgrade.go"],
  [("migration functions", "app/upgrades/v1_5")], ["state after upgrade"])

p("C46", "What users are told they may do is what the chain accepts",
  "The queries telling a node whether it may propose, vote or upload answer yes exactly when the corresponding message would pass the same admission rules in the same state; the displayed stake, points, pending leave, funding and reward amounts are those the protocol uses.",
  [IN, HI], "every state and query argument",
  "tests compare a few situations",
  ["x/query/keeper/grpc_query_can_propose.go", "x/query/keeper/grpc_query_can_vote.go", "x/query/keeper/helper.go"],
  [("shared admission assertions", "x/bundles/keeper/logic_bundles.go")], ["query answers"])

p("C51", "Protocol stake has exactly its weight in governance",
  "For the governance tally every protocol staker that is a member of at least one pool and has delegations counts as a validator with its total delegation, and nobody else does: stakers without any delegation are not reported (the tally would divide by zero and halt the chain). The bonded total is the sum of the delegations of all active stakers, and the vote of a delegator weighs its current delegation, after slashes, with each active staker.",
  [IN, HI], "every set of stakers, memberships and delegations",
  "no test holds a governance vote with protocol stake, let alone with a staker nobody delegates to",
  ["x/stakers/keeper/exported_functions.go", "x/stakers/keeper/getters_staker.go", "x/delegation/keeper/exported_functions.go"],
  [("functions called by the governance tally", "x/stakers/keeper/exported_functions.go")], ["voting power", "end of a voting period"])

p("C52", "Lookups return exactly what is stored",
  "Looking a record up by its key reports it as found exactly when one is stored, and returns it as it was stored; asking whether it exists gives the same answer. Listing the records of a pool, a staker, a funder or a delegator, or all of a kind, returns every one that is stored, without leaving out, repeating, cutting off or altering any, and counting them counts each. Parameters, counters and queue states that are stored are returned as stored.",
  [IN, HI], "every content of the store and every key",
  "tests look up a handful of records, whose fields seldom have the values a wrong condition depends on",
  ["x/stakers/keeper/getters_valaccount.go", "x/funders/keeper/getters_funding.go", "x/delegation/keeper/getters_delegator.go", "x/bundles/keeper/getters_bundles.go", "x/pool/keeper/getters_pool.go", "x/team/keeper/getters_team_vesting_account.go"],
  [("getters of the keepers", "x/stakers/keeper/getters_valaccount.go")], ["values returned by getters", "length of listings"])

p("C47", "Delegation rewards are numerically exact to the last unit",
  "Summed over all delegators, the rewards that can be withdrawn never exceed what was paid in and fall short of it by less than one unit per delegator and period.",
  [IN, HI], "every history of stakes, slashes and rewards",
  "needs unbounded histories of decimal divisions",
  ["x/delegation/keeper/logic_f1distribution.go"], [("decimal arithmetic", "x/delegation/keeper/logic_f1distribution.go")], ["withdrawn amounts"])

p("C48", "Over time every member uploads in proportion to its stake",
  "Over any long enough window a pool member is chosen as uploader in proportion to its share of the pool's stake.",
  [HI], "every long history of rounds", "needs long runs",
  ["x/bundles/keeper/logic_round_robin.go"], [("round robin", "x/bundles/keeper/logic_round_robin.go")], ["uploader sequence"])

p("C49", "Module accounts can always cover what they owe",
  "At every block, each module account holds at least the sum of all amounts recorded as owed from it.",
  [HI], "every history of the chain", "needs the sum over all records through all histories",
  ["x/delegation", "x/funders", "x/stakers", "x/team"], [("paired transfers", "x/*/keeper")], ["module balances"])

p("C50", "A pool with an honest majority keeps finalising bundles",
  "As long as the honest majority of a pool's stake stays online and the pool is funded, bundles keep being finalised.",
  [HI, SC], "every fair schedule", "liveness over unbounded schedules",
  ["x/bundles/keeper"], [("upload timeout and uploader rotation", "x/bundles/keeper")], ["finalised bundles"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
