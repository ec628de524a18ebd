import json
P=[]
def p(id,title,statement,over,text,why,files,mech):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=mech,where=', '.join(files))])))
ST="dex/src/state.rs"; MA="dex/src/matching.rs"; CB="dex/src/critbit.rs"; FE="dex/src/fees.rs"; IN="dex/src/instruction.rs"
p("C01","Vaults always hold exactly what the market owes",
 "After every committed transaction each market's coin vault holds exactly the recorded coin deposits, and its pc vault exactly the recorded pc deposits plus accrued fees plus accrued referrer rebates (plus tokens strangers sent there). The recorded deposits always equal the sum of all users' claims once the unconsumed fill events are applied. No sequence of orders, takes, cancels, cranks, settlements, sweeps or failed token transfers can create or destroy a token.",
 ["histories","schedules","fault_sequences"],"every interleaving of all users' and cranks' transactions on a market, any lot sizes and fee tiers, with failed, duplicated, reordered and rolled-back transactions",
 "The tests drive a handful of fixed order sequences with the token program called directly and check a few balances; conservation has to hold over every history, including partly cranked queues and failing transfers.",
 [ST,MA,FE],"process_new_order_v3, process_send_take, process_settle_funds, process_sweep_fees and process_consume_events each move both a token balance and the market/open-orders totals; matching adjusts deposits by the net fee")
p("C02","Per-user balances follow only the user's own orders, fills and settlements",
 "Every user's free and total coin and pc balance changes only by that user's own deposits, order locks, fills of that user's orders at the traded amounts, releases of that user's own locked funds and that user's settlements, each by exactly the right amount. Free never exceeds total, and what is locked always equals the value of the user's resting orders plus what their unconsumed events will still pay out or release. Settling pays exactly the free balances to the wallets the owner names and leaves exactly the locked part behind.",
 ["histories","schedules","inputs"],"all sequences of instructions by any set of users sharing a market, with events consumed at arbitrary later times in arbitrary batches",
 "Unit tests check single fills with immediate consumption; the ledger is split between instant taker effects and deferred maker events, so errors appear only for particular interleavings of fills, cancels, cranks and settlements.",
 [ST,MA],"OpenOrders native_*_free/total updated in new order, cancel, consume events and settle; RequestProceeds credits, debits and unlocks")
p("C03","Strict price-time priority at the resting order's price",
 "An incoming order or take trades only against the best-priced resting order on the opposite side, and among equal prices against the oldest one, until it is filled, out of budget, out of its match limit or no longer crosses. Every trade executes at the resting order's price and never at a price worse than the incoming order's limit. A resting order's place in the queue is not changed by partial fills, other users' orders, cancels or cranking.",
 ["histories","inputs"],"all book contents reachable by any history of posts, partial fills, cancels and evictions, and any incoming order on either side",
 "Tests build books of two or three orders; priority depends on the tree shape, ids and quantities produced by long histories.",
 [MA,CB,ST],"find_bbo over the critbit slab, order ids of price and (inverted for bids) sequence number, new_bid/new_ask loops")
p("C04","The order book holds exactly the live orders and is never crossed",
 "After every committed transaction the book contains exactly the orders that were posted and not yet filled, cancelled, pruned or evicted, each with its owner, price, client id and remaining quantity, and each backed by a slot of its owner's account. The best bid is always below the best ask, order ids are never reused, and the book never loses, duplicates or corrupts an order or leaks storage however orders are inserted and removed.",
 ["histories","inputs"],"all insert/remove sequences over both sides up to and beyond book capacity",
 "The critbit tests use random keys on a bare tree; they do not check the book against what users posted, nor across matching, eviction, prune and cancel histories.",
 [CB,MA,ST],"Slab insert_leaf/remove_by_key/free list, LeafNode contents, OpenOrders slots")
p("C05","Orders never exceed their limits and obey their order type",
 "An order never spends more pc (fees included) or coin than its stated maximum, never receives more than its maximum quantity, and takes from the payer exactly the part not covered by the owner's free balance. Immediate-or-cancel orders and takes never rest; post-only orders never trade; a limit order's unmatched, uncrossed remainder rests at its limit price, and everything not spent or resting is unlocked at once. A take either meets its minimum output or has no effect at all, and a match limit is never exceeded.",
 ["inputs","histories"],"all order types, sides, limits, budgets and book states, including zero and tiny match limits and budgets that only cover part of a lot",
 "Tests cover a few hand-picked orders; the bounds interact with fee rounding, lot sizes, match limits and the current book.",
 [MA,ST],"new_order limit loop, new_bid budget after fees, post_allowed/post_only, process_send_take minimum check, deposit computation in process_new_order_v3")
p("C06","Every event is applied exactly once, in order, to its own account",
 "Each fill or out event produced by matching is applied exactly once, in the order produced, and only to the account it names, no matter who cranks, in which batches, with which extra, missing, duplicate or unsorted accounts, or how often a crank transaction is retried, duplicated or rolled back. A crank applies the longest prefix it has the accounts for, up to its limit, and never skips, drops or reorders an event, including when the queue wraps around. Event sequence numbers count every event ever produced.",
 ["schedules","fault_sequences","histories"],"all crank schedules, batch limits, account lists and queue positions, with duplicated, reordered, dropped and rolled-back crank transactions",
 "Tests consume the whole queue in one call with the right accounts; wrap-around, partial prefixes and competing cranks are schedule-dependent.",
 [ST],"Queue push/pop/peek ring buffer, process_consume_events and its account lookup")
p("C07","Cancel removes exactly the named order and frees exactly its funds",
 "A successful cancel by order id or client id removes exactly the named resting order of the signing owner, at once makes exactly its unfilled value available to that owner, and that order never trades afterwards; nobody else's order or balance changes. Cancelling an order that is absent, already filled or owned by someone else fails and changes nothing. The order's slot becomes reusable only after its final event is consumed.",
 ["histories","schedules"],"all races between cancels, fills, cranks, prunes and re-posts, including cancels delayed, duplicated or based on stale views",
 "Tests cancel an untouched order directly; races with partial fills, pending events and slot reuse are not sampled.",
 [ST,MA],"cancel_order_v2, cancel_leaf_node, process_cancel_order_by_client_id_v2, owner/slot checks")
p("C08","Users can always get everything out once faults stop",
 "From any reachable state of a market, enabled or disabled, once faults stop, every user can within a bounded number of cancel, crank, settle and close transactions withdraw every token they are owed and recover their account's rent. No user, crank or event can wedge the queue or block another user's exit. What is then left in the vaults is exactly the unswept fees, unclaimed referrer rebates and donated tokens.",
 ["histories","fault_sequences"],"all states reached by random histories with faults, full queues, full books, disabled markets and byzantine users",
 "Liveness over every reachable state cannot be sampled by fixed scenarios; no test drains a market.",
 [ST,MA],"process_consume_events assertions, slot release on fully-out events, close preconditions, allow_disabled loading")
p("C09","Failed transfers and aborted calls leave no trace and never count as success",
 "If any token transfer an instruction makes fails, moves a different amount into the vault than requested, or the call is aborted at any point, the instruction fails and the market, accounts and balances are as if it never ran. An instruction that reports success has performed all of its transfers in full, and executing it again after a rollback gives the same result.",
 ["crash_points","fault_sequences"],"a failure or short transfer at any token call, and an abort at any system call, of any instruction in any reachable state",
 "The existing tests never make a token transfer fail.",
 [ST],"invoke_spl_token error mapping, balance_before/after check on deposits, send_from_vault")
p("C10","Only the account owner can trade, cancel, settle or close",
 "Placing, replacing, cancelling, settling and closing succeed only when the owner of the open-orders account signs, and a payer's tokens move only with the authority of that payer's owner or delegate. No instruction signed by other parties changes which user owns an account or moves a user's funds to anyone but the destinations that user signed for. A fee discount applies only if the discount tokens belong to the order's owner.",
 ["inputs","histories"],"all instructions in any state with any signer missing or any user's accounts substituted by another's",
 "Tests pass well-formed accounts; the space of substituted or unsigned accounts is not sampled.",
 [ST],"account_parser SignerAccount checks, load_orders_mut owner check, load_fee_tier owner check, cancel owner checks")
p("C11","Privileged operations need the right authority's signature",
 "Fees are swept only with the fee sweeper's signature, a market is disabled only with the disable authority's, orders are pruned only with that market's prune authority's, events of a market with a crank authority are consumed only with that authority's, and accounts on a permissioned market are opened only with its open-orders authority's signature. Everyone else's attempt fails without effect, and these authorities gain nothing beyond their one operation.",
 ["inputs","configurations","histories"],"all market configurations (plain, permissioned, with prune and crank authorities) and all wrong, missing or swapped signers, in any state",
 "Tests check at most one wrong signer in one configuration.",
 [ST],"SigningFeeSweeper, SigningDisableAuthority, PruneArgs, ConsumeEventsArgs permissioned variant, load_orders_mut open_orders_authority")
p("C12","A disabled market stops trading but never traps funds",
 "Once a market is disabled no instruction can place or replace an order, take, open an account, prune or sweep on it, and it can never be enabled again. Cancelling, consuming events, settling and closing keep working on it exactly as before. Disabling changes no balance, order or event.",
 ["histories","configurations"],"disabling at any point of any history on every kind of market",
 "Disable is exercised by at most one fixed scenario.",
 [ST],"Market::load allow_disabled, check_flags, process_disable_market")
p("C13","Fees are charged, split, rebated and swept exactly",
 "Each taker fill charges exactly the rate of the taker's fee tier rounded up, where the tier follows from the (M)SRM balance of an account the taker owns; makers pay nothing. One fifth of each fee is set aside as referrer rebate and the rest accrues to the market; a rebate is paid out once, to the referrer named at settlement, or otherwise goes to the market. A sweep pays exactly the accrued fees to the named account and resets them, and never touches deposits or rebates.",
 ["inputs","histories"],"all fill sizes, tiers, holdings at and around tier thresholds, settle/sweep interleavings",
 "Fee tests check the pure formulas, not where the money goes over a history.",
 [FE,MA,ST],"FeeTier, fee accounting at the end of new_bid/new_ask, referrer rebates in consume and settle, process_sweep_fees")
p("C14","An owner never trades with itself; the chosen self-trade rule applies",
 "No trade ever has the same account on both sides. With decrement-take both orders shrink by the overlapping quantity, with cancel-provide the resting order is removed in full and the incoming order continues, and with abort the transaction fails without effect; the owner keeps exactly the cancelled value, with no fee. Other users' orders keep their priority and are matched as usual.",
 ["inputs","histories"],"all books mixing own and foreign orders at several prices, all rules, limits and budgets",
 "Tests check one self-trade per rule on an otherwise empty book.",
 [MA],"self-trade branches of new_bid and new_ask")
p("C15","Full books and queues degrade safely",
 "When a side of the book is full, a newly posted order displaces exactly the least aggressive resting order of that side, whose owner gets all of its locked value back; nothing else is lost. When the event queue has no room for the events an instruction would produce, the instruction fails without effect, and works again once events are consumed.",
 ["configurations","histories"],"all queue and book sizes, at and around the full boundary and any queue head position",
 "No test fills a book or queue through the instruction interface.",
 [MA,ST,CB],"OutOfSpace eviction in new_bid/new_ask, EventQueueFull mapping, Queue::full")
p("C16","Open-orders accounts are opened once, closed empty and never resurrected",
 "An open-orders account is bound on first use to one market and one owner, only if rent-exempt and freshly zeroed, and that binding and its balances are never reset by a later initialisation. It can hold 128 orders at once and no more. It can be closed only by its owner when it has no balance, no order and no unconsumed event; closing sends all of its lamports to the named account and the account is unusable afterwards, also within the same transaction.",
 ["histories","schedules"],"all sequences of init, use, close and re-init, in one or several transactions, racing with fills and cranks",
 "Tests close one empty account once.",
 [ST],"load_orders_mut init path, OpenOrders::init, CloseOpenOrdersArgs, process_close_open_orders, add_order")
p("C17","An order is never accepted after its expiry time",
 "An order or replacement carrying a maximum timestamp is rejected without effect whenever the cluster clock is past that timestamp and treated like any other order up to and including it, under any clock skew, jump or delivery delay; without a timestamp the clock never matters. If the clock cannot be read the order is not accepted. Orders already resting are not affected by the clock.",
 ["schedules","fault_sequences","inputs"],"all clock values including jumps backwards and forwards, delays between signing and execution, unreadable clock",
 "Under test the clock is a constant.",
 [ST,IN],"max_ts check in process_new_order_v3, 46/54-byte decoding")
p("C18","Batch cancel and replace act like their single steps, all or nothing",
 "Cancelling several client ids cancels every resting order of the signer that carries one of the ids, ignores ids with nothing resting, and touches nothing else. Replacing one or several orders first does exactly that for the given ids and then places the new orders in the given sequence as if sent separately. If any part fails the whole instruction has no effect.",
 ["inputs","histories"],"all id lists with duplicates, zeros, unknown ids and ids of filled or pending orders, racing with fills and cranks",
 "Tests cover one small batch.",
 [ST,IN],"process_cancel_orders_by_client_ids, process_replace_orders_by_client_ids, ReplaceOrdersByClientIdsArgs")
p("C19","Markets are isolated and account substitution is rejected",
 "An instruction on one market changes only that market's own accounts, the open-orders accounts of that market it names, the vaults of that market and the wallets it names. Passing another market's queue, book, vault, open-orders account or vault signer, a wallet of the wrong mint, a fake token program or an account not owned by the program makes the instruction fail without effect.",
 ["inputs","configurations"],"all instructions with any one account replaced by any other account in the system, over several markets sharing mints and users",
 "Tests create one market.",
 [ST],"load_*_mut key checks, check_coin_vault/check_pc_vault, VaultSigner, load_orders_mut market check, token account validation")
p("C20","Market creation is safe and happens once",
 "A market is created only from zeroed, rent-exempt program accounts of sufficient size and from vaults of the right mints controlled solely by the market's derived signer, with no delegate and no close authority. A created market starts empty with the given parameters and authorities, and neither it nor any of its queues, books or vaults can ever be initialised again or rebound to another market. Its parameters, mints, vaults and authorities never change.",
 ["inputs","histories","configurations"],"all malformed or reused account sets and parameters, re-initialisation at any later point",
 "Tests create one well-formed market.",
 [ST],"InitializeMarketArgs, process_initialize_market")
p("C21","Balances do not depend on how or by whom the queue is cranked",
 "From any state, consuming all outstanding events leads to the same balances, slots and claims whatever the batch limits, account sets, order of crankers, and however cranking interleaves with settlements and sweeps; only the timing differs. Without further orders, a crank that is offered the needed accounts always makes progress, and the queue drains in as many events as it holds.",
 ["schedules","fault_sequences"],"all partitions of the queue into crank calls, all crank account sets, lost, duplicated and delayed crank transactions",
 "Tests crank in one fixed way.",
 [ST],"process_consume_events, settle rebates handling")
p("C22","Pool shares are created and redeemed fairly; holders are never diluted",
 "Creating pool tokens costs at least, and redeeming them pays at most, the proportional share of every pool asset, rounded in the pool's favour to the unit, so no sequence of creations and redemptions by others lowers what a remaining pool token is worth. A pool implementation may compute its baskets itself, swaps included. The stated fee is charged on every creation and redemption and split between the configured fee accounts (a fee account is not charged the part it would pay to itself). Tokens minted, burned and moved match the basket the pool computes exactly, or the transaction fails without effect.",
 ["histories","inputs","fault_sequences"],"all sequences of create and redeem by several users with arbitrary sizes, donations to the vaults and failing token calls",
 "The pool has almost no tests of its processor.",
 ["pool/src/context.rs","pool/src/lib.rs","pool/src/pool.rs","pool/schema/src/lib.rs"],"get_creation/redemption/swap basket, transfer_basket_*, mint_tokens, burn_tokens_and_collect_fees, get_fees")
p("C23","Pool vaults and settings change only by the rules and by their admin",
 "A pool is initialised once, only with distinct vaults its derived signer can spend from, a mint only that signer can issue and a fee account of the protocol, and afterwards an instruction is accepted only with exactly that pool's own mint, vaults and fee accounts and the further accounts that pool demands, and a pool implementation finds its own state as it left it. In the admin-controlled pool only the current admin's signature can pause, unpause, change fee, assets, delegate or admin, each within its stated limits; while paused nothing can be created or redeemed. Everyone else's attempt fails without effect.",
 ["inputs","histories","configurations"],"all account substitutions, missing signers and admin operations in any order, interleaved with users",
 "No test covers pool account checks or the admin state machine.",
 ["pool/src/lib.rs","pool/src/context.rs","pool/examples/admin-controlled/src/lib.rs"],"initialize_pool checks, PoolContext account validation, AdminControlledPool::process_creation/custom instruction")
p("C24","The permissioned proxy acts only for the signing user and leaves nothing behind",
 "Through the proxy an order, cancel, settle or close affects only the account derived for the user who signed, with exactly the effect the exchange itself would have, and fails if that user did not sign or the account is another's. The temporary spending approval never exceeds the order's maximum and is gone after every call; settlement pays referral fees only to the configured referrer, and accounts on the market can be opened only through the proxy. What a middleware changes in a request is what is relayed, its after-call hook runs once the call has succeeded, and a request nobody recognises has no effect.",
 ["inputs","histories","fault_sequences"],"all proxied instructions with any signer missing or account substituted, in any market state, with failing inner calls",
 "The proxy's tests need a live validator and are not run.",
 ["dex/permissioned/src/proxy.rs","dex/permissioned/src/middleware.rs"],"MarketProxy::run, OpenOrdersPda, ReferralFees")
p("C25","The crank client drains the queue despite RPC faults and restarts",
 "Once started, the crank never stops, whether an RPC response fails, is empty, stale or late or a transaction is lost, late or fails, and once faults stop the queue empties within a bounded time, also after the process is killed and restarted. Every transaction it sends fits in a packet, names only the market, queue, its own fee account and the open-orders accounts of the events at the head of the queue in the order the exchange needs, and, landing on the queue it was built from, consumes as many of the next events as its account and event limits allow. A queue shorter than the configured length is left alone until the configured delay has passed, a slot already cranked successfully is not cranked again, and no more transactions are sent at once than there are workers.",
 ["schedules","fault_sequences"],"all RPC response schedules (stale slots, errors, empty answers, lost, late and duplicated sends), thread schedules, crashes, queue contents and command-line limits",
 "No test covers the crank.",
 ["dex/crank/src/lib.rs","common/src/client/rpc.rs"],"consume_events_loop, consume_events_wrapper, consume_events")
p("C26","What the client asks for is what the exchange does",
 "For every instruction and client library call (orders, cancels, settling, opening and closing accounts, consuming events, listing a market, token accounts, mints and transfers) the bytes and accounts produced mean exactly the operation asked for; every instruction decodes to exactly what was encoded, and bytes that are not an instruction are refused and change nothing. A call that reports success has had exactly that effect, once, and returns the keys of the accounts it made; with nothing wrong between client and node, a call fails only when the exchange refuses the operation, and then has had no effect. When RPC calls fail, are answered late or lose the transaction, a call that reports failure has had all of its effect once or none.",
 ["inputs","histories","fault_sequences"],"all operations, parameters, byte strings, market states and RPC faults at every call","Tests sample encodings; none runs the client.",
 [IN,"dex/crank/src/lib.rs","common/src/client/rpc.rs"],"MarketInstruction::pack/unpack and builders; place_order, settle_funds, list_market, init_open_orders, close_open_orders, cancel_*; rpc helpers")
p("C27","A transaction guarded by an ownership assertion lands only if it holds",
 "A transaction containing ownership assertions takes effect exactly when, at the point each assertion executes, the account it names first is owned by exactly the program it states (and the rest of the transaction succeeds); otherwise nothing of it takes effect. This holds whatever other parties did to the account between signing and landing: created, closed, re-created or handed over, also earlier in the same transaction. An assertion without an account or without a well-formed owner never holds, and an assertion changes nothing.",
 ["histories","inputs","schedules"],"all histories of account creation, closing and hand-over between signing and landing, delayed, duplicated and reordered transactions, all owners and encodings","There is no test.",
 ["assert-owner/src/lib.rs"],"entry, reached through the exported entrypoint")
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
