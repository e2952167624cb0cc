import json
P=[]
def p(id,title,stmt,over,q,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})
S="src/invariant_service.rs"; ST="src/invariant_storage.rs"; C="src/contracts/"; M="calc/math/"
svc="the deployed contract's public methods, replies, queries and events"
p("C01","The exchange can always pay everyone back",
 "At every moment, for every honest token, the tokens the contract holds cover the sum of all users' internal balances plus everything its pools owe (position principal, uncollected LP fees, protocol fees). If all users then remove all positions, all fee receivers collect, and everybody withdraws everything, in any order, every payout succeeds in full.",
 ["histories","inputs","configurations"],"every history of deposits, positions, swaps, claims, transfers and withdrawals by any users over any pools sharing tokens, and every order of the final close-out",
 "Solvency is a sum over all accounts and pools after an arbitrary history; the 741 tests check single functions on fixed numbers and never run the service with several accounts, and the service itself is in no stable test.",
 [S,ST,C+"storage/position.rs",C+"storage/pool.rs",M+"clamm.rs",M+"types/fee_growth.rs"],
 [("rounding of every amount in the pool's favour",M+"clamm.rs get_delta_x/get_delta_y/compute_swap_step"),("internal ledger debit/credit",ST+" increase_token_balance/decrease_token_balance"),("fee split and fee growth",C+"storage/pool.rs add_fee")],
 [("user balances","per user and token internal ledger",ST),("pools, positions, ticks","liabilities of the exchange",ST)],[svc,"the token contracts' own balances of the exchange"])
p("C02","A token transfer is credited exactly once, whatever the token replies",
 "A deposit raises the caller's internal balance by exactly the amount the token contract reports as moved and by nothing otherwise; a withdrawal lowers it by exactly the amount moved, and a withdrawal the token did not perform is credited back in full. This holds once per transfer for single and paired calls under every answer of a token (true, false, panic, out of gas, unavailable, any other error), every reply order, every interleaving with other messages and every point where the caller's own gas runs out, for replies that arrive while the call still waits and bring the gas deposited for them; a late, repeated, forged or malformed reply never credits anything twice nor creates balance. The call succeeds exactly when every transfer was performed; otherwise it ends with the error that tells whether part of it took effect.",
 ["schedules","fault_sequences","crash_points","histories"],"every token outcome per leg, every interleaving of replies, wake-ups and other users' messages, every point where a message runs out of gas",
 "The async reply paths need a running Gear runtime with a misbehaving token; no stable test executes them, and the outcome depends on the order and kind of replies.",
 [S,ST,C+"storage/awaiting_transfers.rs"],
 [("pending-transfer record consumed by the reply hook",S+" send_transfer_token_message/reply_handler/handle_valid_reply/handle_panic"),("post-wake result check",S+" handle_transfer_result")],
 [("awaiting transfers","transfers sent and not yet answered",ST)],["messages sent to the token","replies and reply codes delivered","get_user_balances"])
p("C03","A quote equals the swap it predicts, and queries change nothing",
 "A quote for a pool returns the same input amount, output amount, final price and crossed ticks as the swap executed next with the same arguments, or fails with the same error exactly when that swap fails for a pool reason. A route quote equals the executed route's output for routes that do not visit a pool twice. No query changes any later observable result.",
 ["inputs","histories"],"every reachable pool state and every pool, direction, amount, exact-in/exact-out mode and price limit",
 "Equality must hold in every reachable state and for every argument; tests exercise neither entry point in the stable suite.",
 [S,ST],[("shared swap computation",ST+" calculate_swap"),("quote and route paths",S+" quote/quote_route/route/swap")],None,[svc])
p("C04","A swap stays inside the limits its caller set",
 "An exact-input swap never takes more than the given amount and an exact-output swap never pays out more than requested, the price moves only in the swap's direction and never passes the caller's price limit or the supported price range, and a swap that pays nothing out, gets a limit on the wrong side or cannot complete before its limit fails. A successful exact-input swap consumes the whole input, and a successful exact-output swap pays what was asked except for a rest too small to move the price.",
 ["inputs","histories"],"every reachable liquidity layout, amount from one unit to the largest, limit, direction and mode",
 "Needs all liquidity layouts with crossings and limits; tests sample single steps of the swap formula.",
 [ST,C+"storage/pool.rs",M+"clamm.rs"],[("swap loop and limit checks",ST+" calculate_swap"),("per-step target choice",M+"clamm.rs compute_swap_step"),("limit selection",C+"collections/tickmap.rs get_closer_limit")],None,["swap/quote results","pool price before and after"])
p("C05","Swap amounts follow the concentrated-liquidity curve, rounded against the trader",
 "For every swap, the input net of fees is at least, and the output at most, what the exact curve gives for the price path through the liquidity actually in range, with at least the pool's fee rate charged on top of the net input of every step. The difference from the exact amounts stays within the few units rounding allows per tick crossed, so no trader can gain by splitting, reversing or repeating swaps.",
 ["inputs","histories"],"every reachable liquidity layout, price, amount, direction, mode and fee tier",
 "Comparison with an exact rational curve over all layouts; tests compare single formulas with precomputed constants.",
 [M+"clamm.rs",ST,C+"storage/pool.rs",C+"storage/tick.rs"],[("delta and next-price formulas",M+"clamm.rs"),("liquidity change on crossing",C+"storage/tick.rs cross")],None,["swap results, pool and ticks before and after"])
p("C06","Active liquidity is the sum of the positions in range",
 "After every operation the pool's active liquidity equals the sum of the liquidity of the existing positions whose range contains the pool's current tick (lower bound included, upper bound excluded). When no position is in range it is zero.",
 ["histories","inputs"],"every history of creating, removing, transferring positions and swapping across ticks in both directions",
 "A global invariant over all positions and crossings; tests update one pool object in isolation.",
 [C+"storage/pool.rs",C+"storage/tick.rs",C+"storage/position.rs"],[("liquidity update on modify",C+"storage/pool.rs update_liquidity"),("liquidity update on cross",C+"storage/tick.rs cross")],None,["get_pool","get_all_positions"])
p("C07","Ticks and the tick index mirror the open positions",
 "A tick is reported initialised, appears in the tick map and exists as a record exactly when at least one open position of that pool starts or ends there. Its net and gross liquidity equal the sums over those positions, and the tick map listing and initialised-tick count agree with that set.",
 ["histories","inputs","configurations"],"every history of positions over every tick spacing and every tick of the range, including the outermost ones",
 "Needs the set of all positions after an arbitrary history, and whole-range coverage of spacings; tests flip a few ticks.",
 [C+"collections/tickmap.rs",C+"collections/ticks.rs",C+"storage/tick.rs",ST,S],[("tick creation and removal",ST+" add_tick/remove_tick"),("net and gross update",C+"storage/tick.rs update"),("listing and count",S+" get_tickmap; "+ST+" liquidity_ticks_count")],None,["get_tick, is_tick_initialized, get_tickmap, get_liquidity_ticks_amount, get_liquidity_ticks"])
p("C08","The pool's tick always matches its price",
 "After every operation the pool's current tick is a multiple of the tick spacing, and the pool's price lies between the price of that tick and the price of the next one; it may equal the upper end only right after a downward crossing stopped exactly there. Price and tick change only through swaps.",
 ["histories","inputs","configurations"],"every initial price and tick, spacing and swap history",
 "Depends on how every swap ended; tests check a handful of update steps.",
 [C+"storage/pool.rs",M+"log.rs",M+"types/sqrt_price.rs"],[("tick update after a step",C+"storage/pool.rs update_tick"),("tick from price",M+"log.rs get_tick_at_sqrt_price"),("initial price check",C+"storage/pool.rs create")],None,["get_pool"])
p("C09","Swap fees reach exactly the positions that were in range, once",
 "The fee of every swap step, minus the protocol's share, is owed to the positions in range at that step in proportion to their liquidity, rounded down by at most one unit per collection plus the accumulator's resolution. A position collects each fee once, never collects fees earned before it was opened or while out of range, and collecting or removing by others does not change what it is owed.",
 ["histories","inputs"],"every interleaving of swaps, crossings, position creations, claims, removals and transfers",
 "Needs an independent per-position fee ledger over long histories; tests check the growth formulas pointwise.",
 [C+"storage/position.rs",C+"storage/tick.rs",C+"storage/pool.rs",M+"types/fee_growth.rs"],[("fee growth accumulation",C+"storage/pool.rs add_fee"),("growth inside a range",M+"types/fee_growth.rs calculate_fee_growth_inside"),("growth outside flip",C+"storage/tick.rs cross"),("collection",C+"storage/position.rs update/claim_fee")],None,["claim_fee and remove_position results, positions' owed amounts"])
p("C10","The protocol fee is the configured share and goes to the fee receiver once",
 "Each swap adds to the pool's uncollected protocol fee the configured percentage of the fee charged (rounded up by at most one unit per step), taken from the traders' fee and never from anyone's principal. Only the pool's fee receiver can collect it, receives exactly the recorded amount of both tokens, and the record is zero afterwards; later rate changes do not alter what was already accrued.",
 ["histories","inputs","configurations"],"every protocol fee rate, rate change, swap history and receiver change",
 "A running total over histories with changing configuration; tests check one addition.",
 [C+"storage/pool.rs",S],[("split",C+"storage/pool.rs add_fee"),("collection",S+" withdraw_protocol_fee; "+C+"storage/pool.rs withdraw_protocol_fee")],None,["get_pool, withdraw_protocol_fee, get_user_balances"])
p("C11","Only the entitled account can act",
 "Only the administrator can change the protocol fee, fee tiers or fee receivers; only a pool's fee receiver can collect protocol fees; only a position's owner can remove, transfer or collect from it; and nobody's operation lowers another account's internal balance or takes its positions. The administrator fixed at creation never changes.",
 ["inputs","histories"],"every caller for every operation in every reachable state, including guesses of foreign positions, self transfers and calls while transfers are pending",
 "Quantifies over all callers and states; authorisation lives in the service, which no stable test runs.",
 [S,C+"collections/positions.rs"],[("admin check",S+" is_caller_admin"),("owner-keyed position lookup",C+"collections/positions.rs"),("fee receiver check",S+" withdraw_protocol_fee")],None,[svc])
p("C12","Every position has one owner and survives others' removals",
 "The set of open positions is exactly those created and not removed, each listed once under its current owner; transfer moves it with identical contents and removal reorders but never loses or duplicates another position. Position contents change only by their owner's collection.",
 ["histories","inputs"],"every sequence of creations, removals in any index order, transfers (including to oneself) and claims",
 "A multiset property over histories of swap-remove style lists; tests do a few operations.",
 [C+"collections/positions.rs",S],[("position lists",C+"collections/positions.rs add/remove/transfer/get_slice")],None,["get_all_positions, get_position, get_user_position_amount"])
p("C13","Pools and fee tiers are unique and permanent records",
 "There is at most one pool per unordered token pair and fee tier, tokens are always in canonical order with both argument orders naming the same pool, and a created pool is never lost or re-initialised, even if its fee tier is removed. Fee tiers are listed exactly while added and not removed; pools can only be created for listed tiers with a price matching the tick.",
 ["histories","inputs","configurations"],"every history of tier additions and removals and pool creations over any tokens, including equal tokens and reversed pairs",
 "Registry invariants over histories through the service; collection tests use two or three entries.",
 [S,C+"collections/pools.rs",C+"collections/pool_keys.rs",C+"collections/fee_tiers.rs",C+"storage/pool_key.rs"],[("canonical key",C+"storage/pool_key.rs new"),("registries",C+"collections/"),("creation checks",S+" create_pool/add_fee_tier")],None,["get_pool, get_pool_keys, get_all_pools_for_pair, get_fee_tiers, fee_tier_exists"])
p("C14","A failed call changes nothing",
 "When an operation that involves no token transfer fails, whether by a rejected argument, an arithmetic error or running out of gas at any point, no balance, pool, tick, position, tier or setting differs from before and no event is emitted. Invalid arguments (unknown pool, bad tick or spacing, zero or oversized amounts, insufficient balance, malformed payload) are always rejected this way.",
 ["inputs","crash_points","histories"],"every operation, every invalid or boundary argument, every point of gas exhaustion, in every reachable state",
 "Needs a whole-state comparison around every failing call and gas exhaustion at each host call; tests assert error values on pure functions.",
 [S,ST],[("errors abort the message","src/invariant_service.rs panicking!/panicking_async!"),("validation order",S)],None,["whole public state before and after, events"])
p("C15","Slippage protection is never violated",
 "A position is created only if the pool price lies within the price limits its creator gave (bounds included). A routed swap succeeds only if its output is at least the expected amount reduced by the given slippage, rounded up, and otherwise nothing is swapped.",
 ["inputs","schedules"],"every price movement between quoting and execution, limit, slippage percentage and expected amount",
 "Depends on all orderings of price-moving messages before the call, and on all percentages and amounts; tests check a few values of the formula.",
 [S,C+"storage/position.rs",M+"clamm.rs"],[("price window",C+"storage/position.rs create"),("minimum output",M+"clamm.rs calculate_min_amount_out; "+S+" swap_route")],None,["create_position, swap_route"])
p("C16","Opening and closing a position costs the exact amounts and nobody profits",
 "Opening a position charges, and closing it returns, the curve amounts of both tokens for its liquidity and range at the current price: the charge is never below and the refund never above the exact amount, each within two units of it. Opening and at once closing never returns more than was paid and at most a few units less.",
 ["inputs","histories"],"every range relative to the price, liquidity from one unit to the per-tick maximum, price and tick spacing",
 "Exact comparison over the whole argument space; tests use a few fixed ranges.",
 [C+"storage/pool.rs",M+"clamm.rs",C+"storage/position.rs"],[("amount formulas",M+"clamm.rs calculate_amount_delta/get_delta_x/get_delta_y"),("charge and refund",S+" create_position/remove_position")],None,["create_position, remove_position, get_user_balances"])
p("C17","Tick and price conversions are monotone, accurate and mutually inverse",
 "The price of a tick is within the format's precision of 1.0001^(tick/2), strictly increases with the tick, and the tick of a price is the largest spaced tick whose price does not exceed it. This holds for every tick and spacing and every price in range; values outside are rejected.",
 ["inputs","configurations"],"all 443637 ticks, all spacings 1..100, every price including those adjacent to tick prices",
 "The domain is far beyond the sampled ticks of the unit tests; agreement must hold at each boundary.",
 [M+"log.rs",M+"types/sqrt_price.rs"],[("price by binary factors",M+"types/sqrt_price.rs calculate_sqrt_price"),("logarithm and correction",M+"log.rs get_tick_at_sqrt_price")],None,["calculate_sqrt_price, get_tick_at_sqrt_price"])
p("C18","Fixed-point arithmetic is exact up to its declared rounding and never wraps",
 "Every fixed-point multiplication, division, conversion and cast returns the exact rational result rounded in the declared direction, or an error when it does not fit; it never returns a wrapped or truncated value. Narrowing casts of wide integers fail exactly when the value does not fit.",
 ["inputs"],"all operand values of all scales and widths, including limb boundaries and maxima",
 "All operand pairs of 128 to 512 bit integers; tests use small constants.",
 ["calc/decimal/decimal_core/src/ops.rs","calc/decimal/decimal_core/src/big_ops.rs","calc/decimal/decimal_core/src/checked_ops.rs","calc/decimal/decimal_core/src/by_number.rs","calc/decimal/decimal_core/src/factories.rs","calc/decimal/decimal_core/src/uint_casts.rs","calc/decimal/src/uint.rs"],
 [("generated decimal operations","calc/decimal/decimal_core/src"),("wide integer casts","calc/decimal/decimal_core/src/uint_casts.rs")],None,["public operations of the decimal types"])
p("C19","Tick search finds the nearest initialised tick",
 "For every tick map, start tick, spacing and direction, the search returns the nearest initialised tick within the search range (downwards including the start, upwards excluding it) and nothing if there is none. The swap step limit derived from it never jumps over an initialised tick, the range end or the caller's limit.",
 ["inputs","configurations"],"every bitmap content, start, direction and tick spacing, across chunk borders and at both ends of the range",
 "Bitmap contents are exponential in number; tests cover a few hand-written maps.",
 [C+"collections/tickmap.rs"],[("bit scanning",C+"collections/tickmap.rs next_initialized/prev_initialized"),("search limit",C+"collections/tickmap.rs get_search_limit/get_closer_limit")],None,["tick map functions; swap crossings"])
p("C20","The SDK's swap simulation and valuations agree with the contract",
 "On every state the exchange reaches: given its pool, ticks and tick map, the SDK's swap simulation reports the input, output, fee, final price and crossed ticks of the contract's quote and swap, or flags the failure the contract raises; given too few ticks it notices. The SDK's cost of a new position, worth of an existing one with its claimable fees, pool key order and initial price equal what the contract charges, pays and stores.",
 ["inputs","histories"],"every reachable pool state and every request on it",
 "Two implementations must agree on all states; SDK tests need a live node and compare one example each.",
 ["sdk/src/wasm/swap.rs","sdk/src/wasm/storage","sdk/src/wasm/custom.rs"],[("SDK swap simulation","sdk/src/wasm/swap.rs"),("SDK fees and validity","sdk/src/wasm/custom.rs")],None,["SDK functions on queried state against the contract's calls"])
p("C33","The SDK's calculations equal the contract's on every argument",
 "Every calculation the SDK duplicates (swap step, amounts between prices, position amounts, liquidity from amounts, minimum output, tick and price conversion, tick validity, tick-map positions and searches, fee growth and seconds accumulators, fees, fee tiers, pool keys, limits) returns exactly what the contract's own function returns for the same arguments, and refuses what that one refuses (where no price can absorb an amount, the SDK may answer with the price limit instead).",
 ["inputs"],"every argument of every duplicated function",
 "The duplicated code can drift apart anywhere; tests of each copy sample different points.",
 ["sdk/src/wasm/clamm.rs","sdk/src/wasm/math.rs","sdk/src/wasm/log.rs","sdk/src/wasm/types","sdk/src/wasm/collections/tickmap.rs"],[("SDK arithmetic","sdk/src/wasm/clamm.rs"),("SDK liquidity and conversions","sdk/src/wasm/math.rs, sdk/src/wasm/log.rs"),("SDK tick map","sdk/src/wasm/collections/tickmap.rs")],None,["return values of both copies on the same arguments"])
p("C21","Liquidity estimates never overpromise",
 "For every token amount, range and price, the liquidity computed from one token's amount can be deposited with at most that amount of the token and the reported amount of the other one, and is the largest such within rounding. Ranges on the wrong side of the price are rejected.",
 ["inputs"],"every amount, range, price, spacing and rounding flag",
 "Inverse relation over all arguments; tests use a few ranges.",
 [C+"logic/liquidity_result.rs"],[("inverse formulas",C+"logic/liquidity_result.rs get_liquidity/get_liquidity_by_x/get_liquidity_by_y")],None,["get_liquidity, get_liquidity_by_x, get_liquidity_by_y against the deposit amounts"])
p("C22","Events report exactly what happened",
 "Every successful position creation, position removal and swap emits exactly one event of its kind with the acting account, pool, range, liquidity, amounts, prices and block timestamp of the effect; a swap that crosses initialised ticks additionally emits one event listing exactly those ticks in crossing order. Nothing else emits events.",
 ["histories","inputs"],"every operation, including every hop of a route and every failing one",
 "Event content must match the effect in every history; no stable test observes events.",
 [S,"io/src"],[("notifications",S+" notify_on in create_position/remove_position/swap")],None,["event messages"])
p("C23","Paged and grouped queries partition the data",
 "For every page size and offset, the pages of pools and of an account's positions return exactly the requested slice of the full listing with correct totals and indices, so walking the pages yields every item once (a page whose end does not fit the argument type is refused). Tick queries for positions and lists of ticks return the matching ticks in order, bounded by their documented limits, and composite queries agree with the single-item ones.",
 ["inputs","histories"],"every size and offset including zero, beyond the end and maximal values, every population",
 "All size/offset combinations over all populations; tests take a few slices of collections.",
 [S,C+"collections/positions.rs",C+"collections/pool_keys.rs"],[("slicing",C+"collections/positions.rs get_slice; "+C+"collections/pool_keys.rs get_all"),("grouping",S+" get_positions"),("position ticks",S+" get_position_ticks")],None,["get_positions, get_pool_keys, get_position_ticks, get_liquidity_ticks, get_position_with_associates, get_all_pools_for_pair"])
p("C24","Time records are truthful",
 "A pool's creation time never changes and its last-update time is the block time of the last position creation, collection or removal on it or of the last swap that crossed an initialised tick; a position records the block it was opened in. A tick's outside-time starts at the elapsed pool time if created at or below the price and zero otherwise, and each crossing replaces it by the elapsed time minus itself.",
 ["histories"],"every sequence of operations at non-decreasing block times, including several in one block",
 "Time-dependent state over histories; tests use fixed timestamps on single objects.",
 [C+"storage/tick.rs",C+"storage/pool.rs",C+"storage/position.rs"],[("timestamps",C+"storage/pool.rs update_tick; "+C+"storage/position.rs modify"),("outside time",C+"storage/tick.rs create/cross")],None,["get_pool, get_tick, get_position"])
p("C25","Native VARA deposits and withdrawals move exactly the attached value",
 "Depositing VARA credits exactly the value attached to the message, and withdrawing debits the internal balance and returns exactly that value to the caller in the reply; the contract's native balance always covers all internal VARA balances. VARA cannot be moved through the token deposit and withdrawal calls, and no token call can mint or drain a VARA balance.",
 ["histories","inputs","fault_sequences"],"every sequence of native and token deposits and withdrawals with and without explicit amounts, attached values and failures",
 "Value accounting needs a runtime; the native paths are in no stable test.",
 [S,ST],[("native deposit/withdraw",S+" deposit_vara/withdraw_vara"),("zero address guard",S+" transfer_single_token/transfer_token_pair")],None,["message values, replies with value, get_user_balances"])
p("C26","Extreme amounts are rejected or handled exactly, never wrapped",
 "For operands up to the largest representable amounts, liquidities, prices, rates, ticks and page arguments, every call of the deployed contract (built without overflow checks) either fails or gives the same result as arithmetic without wrap-around. Only the fee-growth accumulators may wrap, as they are designed to.",
 ["inputs","histories"],"boundary and random values of the whole domain of every argument in reachable states",
 "Wrap-around appears only at extremes and only in the deployed profile; tests run with overflow checks on and small values.",
 [M+"clamm.rs",M+"types/sqrt_price.rs","calc/decimal/decimal_core/src/ops.rs",S],[("checked operations",M),("deployed build profile","src/wasm")],None,["lockstep execution of the deployed and the overflow-checked build"])
p("C27","Pools, users and tokens do not interfere",
 "An operation changes only the pool(s) it names, the ticks and positions involved in it, and the balances of its caller in the tokens of that pool. Every other pool, tick, position, balance and setting reads the same before and after.",
 ["histories","inputs"],"every operation in every population of pools sharing tokens and fee tiers and of users sharing ticks",
 "A frame condition over the whole state around each operation; tests hold one pool and one user.",
 [ST,S,C+"collections/"],[("keyed storage",C+"collections/ticks.rs, tickmap.rs, pools.rs, positions.rs")],None,["whole public state before and after each operation"])
p("C28","Internal balances move by exactly the reported amounts",
 "Every trading operation changes the caller's internal balances by exactly what it reports: creation debits the charged amounts, removal and collection credit the returned amounts, a swap debits the input and credits the output, a route debits only the first input and credits only the last output. An operation the balance cannot cover fails, and zero balances disappear from the listing.",
 ["histories","inputs"],"every operation, population of balances (missing, exact, one short, large) and route",
 "Ledger equality around every operation in every state; the ledger code is in no stable test.",
 [ST,S],[("ledger",ST+" increase_token_balance/decrease_token_balance")],[("balances","internal ledger",ST)],["get_user_balances around each operation"])
p("C29","An owner can always leave",
 "In every reachable state, whatever other users and the administrator did, an account can claim the fees of, transfer, and remove any position it owns and withdraw any internal balance of a working token. No sequence of other accounts' operations can make these calls fail.",
 ["histories","inputs"],"every reachable state, including prices at the range ends, removed fee tiers, wrapped fee accumulators, changed rates and shared ticks",
 "Absence of blocking states over all histories; tests never combine actors.",
 [S,C+"storage/position.rs",C+"storage/tick.rs"],[("removal path",S+" remove_position"),("wrapping fee growth",M+"types/fee_growth.rs")],None,["claim_fee, transfer_position, remove_position, withdraw_* outcomes"])
p("C30","Every swap step moves price and amounts along the curve, inside its target",
 "A swap step never passes its target price and never moves away from it; its input covers and its output does not exceed what the exact curve gives for the move, its fee is at least the rate on the input charged, and an exact-input step never takes more than offered while an exact-output step never pays more than asked. A step whose amount cannot reach the target uses the whole amount, and every request within the number formats succeeds; the amount formulas for a price move, for a position and for the slippage minimum are the exact values rounded the declared way.",
 ["inputs"],"every pair of prices, liquidity, amount, fee, mode and rounding direction",
 "Seven-argument arithmetic with several roundings that must err on the same side; tests fix a few dozen argument sets.",
 [M+"clamm.rs"],[("one step of a swap",M+"clamm.rs compute_swap_step"),("amounts for a price move",M+"clamm.rs get_delta_x/get_delta_y"),("next price from an amount",M+"clamm.rs get_next_sqrt_price_*"),("dust test",M+"clamm.rs is_enough_amount_to_change_price"),("position amounts",M+"clamm.rs calculate_amount_delta"),("minimum output",M+"clamm.rs calculate_min_amount_out")],None,["results of the public functions of the clamm module"])
p("C31","Fee and time accumulators are right from any starting value, across wrap-around",
 "What a position is owed depends only on how much the counters grew while the price was in its range, never on their absolute values: the same history started from any counter values, including ones about to wrap, pays the same fees, and the growth inside a range is the total minus the growth below and above it modulo the counter's width. Growth per unit of liquidity is rounded down when accrued and when paid.",
 ["inputs","histories"],"every starting value of the wrapping counters, every history of accruals, crossings, updates and collections around them",
 "A relation between whole histories with different counter values; tests subtract a few fixed counters.",
 [M+"types/fee_growth.rs",M+"types/seconds_per_liquidity.rs",C+"storage/tick.rs",C+"storage/pool.rs",C+"storage/position.rs"],[("growth inside a range",M+"types/fee_growth.rs calculate_fee_growth_inside"),("conversion",M+"types/fee_growth.rs from_fee/to_fee"),("outside values flip",C+"storage/tick.rs cross"),("collection",C+"storage/position.rs update/claim_fee")],None,["Pool, Tick and Position structures driven directly"])
p("C32","Valid requests are honoured",
 "A request that meets the documented conditions succeeds: a swap the balance covers and the liquidity before the caller's limit can absorb or supply, a position on valid ticks the balances cover, a pool for a listed tier whose price belongs to its tick, an owner's or entitled account's operation, and a transfer the token carries out. The exceptions are amounts beyond the number formats, outputs that round to zero and prices at the outermost ticks.",
 ["inputs","histories"],"every valid request in every reachable state",
 "Refusals appear only in particular states (layouts, prices, rounding); tests assert success on a handful of calls to pure functions.",
 [S,ST,C+"storage/pool.rs",M+"clamm.rs"],[("swap loop",ST+" calculate_swap"),("crossing decision",C+"storage/pool.rs update_tick"),("step arithmetic",M+"clamm.rs compute_swap_step"),("validation",S)],None,["outcomes of all public methods"])
p("C34","The TypeScript client sends what it was asked and reports what happened",
 "Every call of the client's classes reaches the contract with exactly the method, arguments, gas, value and sender asked for, and nothing is sent when the client refuses. What it returns, for calls, queries and listings that it assembles from several pages, equals what the contract answered, in the declared types and at full width; a refused call is rejected with the contract's own error and a batch names exactly the failed requests. Listeners receive every event of theirs once, decoded exactly, and none after they are removed. Arguments are never changed.",
 ["inputs","histories"],"every sequence of client calls, every reachable contract state behind it, every page layout, number up to the full width, failure and event order",
 "The client's tests need a live node and sample one happy path per method; wrong widths, pages, orders and error paths show only against a contract in the matching state.",
 ["sdk/src/invariant.ts","sdk/src/erc20.ts","sdk/src/utils.ts","sdk/src/invariant-contract.ts","sdk/src/erc20-token.ts"],
 [("transaction construction and reply decoding","sdk/src/invariant.ts *Tx"),("paging","sdk/src/invariant.ts getAllPositions/getAllPoolKeys/getFullTickmap/getAllLiquidityTicks"),("batches","sdk/src/utils.ts batchTxs"),("event decoding","sdk/src/utils.ts parseEvent")],None,["messages reaching the contract","values and errors the client returns","listener callbacks"])
p("C35","The TypeScript client's own computations agree with the contract",
 "What the client computes by itself - fees and amounts of a position, simulated swaps, liquidity for an amount, amounts within a slippage, prices, price impact, ticks, pool keys, scaled numbers, concentration, tick and tick-map filters, and the encodings handed to its wasm module - equals what the contract would answer or the exact value rounded the declared way, in the declared types, for every argument; inputs are never changed, and values with no answer are refused.",
 ["inputs","histories"],"every argument of every exported helper and every reachable pool and position",
 "An equality over all arguments across three languages (TypeScript, the SDK's wasm, the contract); the client's tests compare single samples and need a live node.",
 ["sdk/src/utils.ts","sdk/src/wasm-serializer.ts","sdk/src/consts.ts","sdk/src/computed-consts.ts","sdk/src/wasm/"],
 [("helpers","sdk/src/utils.ts"),("encoding for wasm","sdk/src/wasm-serializer.ts"),("exports","sdk/src/wasm/wasm_wrapper")],None,["results of the client's exported functions"])
p("C36","The token contract keeps its roles, supply and balances exactly",
 "In the token contract (extended-vft) only a current minter mints, only a current burner burns and only a current administrator grants or revokes a role; the deployer starts with all three, and the role lists name every holder once. A mint or burn of a positive amount changes exactly the named balance and the total supply by it and emits exactly its event; of zero it answers false and does nothing; more than the supply's width or the balance is refused; anything refused leaves no trace. The total supply is always the sum of the balances, and transfers, allowances and the token's description behave as the token interface says. Forced transfer failures exist only in the test build, where only an administrator switches them. Exchange deposits and withdrawals in such tokens succeed exactly when all their transfers took place, and move token and exchange balances together.",
 ["histories","inputs"],"every sequence of calls by every caller on the token, every amount up to 2^256-1, every exhaustion of gas, and every interleaving with exchange deposits and withdrawals",
 "Its tests need an unavailable node or a built program and walk one happy path; role, supply and overflow rules only show in long histories with changing roles and extreme amounts.",
 ["extended-vft/app/src/services/extended_vft/mod.rs","extended-vft/app/src/services/extended_vft/funcs.rs","extended-vft/app/src/services/utils.rs","extended-vft/app/src/lib.rs","src/invariant_service.rs"],
 [("mint and burn","extended-vft/app/src/services/extended_vft/funcs.rs"),("roles and forced failures","extended-vft/app/src/services/extended_vft/mod.rs"),("deposits and withdrawals","src/invariant_service.rs transfer_single_token/transfer_token_pair")],None,["replies and events of the token","role, balance, supply and allowance queries","exchange balances"])
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
