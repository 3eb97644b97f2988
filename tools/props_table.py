prop("P01", "Only the admin changes global settings or a pool's fee receiver",
     "In every state and for every message, the contract's configuration (admin, protocol fee, fee tiers) and the fee receiver of an existing pool change only when the sender is the stored admin. "
     "Each administrative message changes exactly the setting it names and moves no tokens.",
     ["inputs", "histories"], "every message kind with arbitrary fields, sender, attached coins, block and stored state",
     "Tests try one unauthorised sender per message; the property is about every path through every message that can reach a configuration or pool write.",
     ["entrypoints/execute.rs", "contract.rs", "storage/config.rs", "storage/pool.rs"],
     [("admin comparison before each write", C + "entrypoints/execute.rs"), ("message dispatch", C + "contract.rs")],
     ["stored configuration and pools after each message", "acceptance or refusal of the message"],
     "Every success path of every execute message variant is analysed with all inputs and storage symbolic; holds modulo arithmetic overflow (which aborts the message).")
prop("P02", "Protocol-fee withdrawal pays the fee receiver in full, once",
     "A protocol-fee withdrawal succeeds exactly when the sender is the pool's fee receiver, pays that sender the full accrued amount of each of the pool's two tokens, and resets exactly those two counters.",
     ["inputs", "histories"], "every pool, sender, accrued amounts and token kinds",
     "Tests withdraw once from one pool; they do not cover every combination of token kinds, amounts and receivers or prove that nothing else changes.",
     ["entrypoints/execute.rs", "storage/pool.rs", "interface.rs"],
     [("withdrawal", C + "entrypoints/execute.rs"), ("counter reset", C + "storage/pool.rs")],
     ["messages in the response", "stored pool"],
     "Exact comparison of acceptance, stored pool and payout messages with the specification.")
prop("P03", "Positions move or are destroyed only with their owner's authority",
     "A stored position is transferred, burned, removed or has its fees claimed only by its owner, by a spender holding an unexpired approval for that very position, or by an unexpired operator of its owner. "
     "The position affected is the one named, proceeds go to its owner, and no other owner's position is changed; a contract that is sent a position is told its true sender, token id and payload.",
     ["inputs", "histories"], "every message, token id, sender, block time/height, approval list and operator record",
     "Authority depends on combinations of approval lists, expiries and indices that tests sample in a few places only.",
     ["entrypoints/common.rs", "entrypoints/execute.rs", "state.rs"],
     [("send authority", C + "entrypoints/common.rs"), ("burn and transfer", C + "entrypoints/execute.rs")],
     ["stored positions by owner and index", "payout messages"],
     "All position-affecting messages are compared against the authority rule; other messages are shown to leave positions alone.")
prop("P04", "Approvals and operator grants follow their lifecycle",
     "Only the owner or an unexpired operator of the owner can approve or revoke a spender for a position, and only an account itself can grant or revoke its operators; already-expired grants are refused. "
     "At most one approval per spender exists, revocation removes it, and a transferred position carries no approvals.",
     ["inputs", "histories"], "every approval list, operator record, expiry and sender",
     "Stale approvals surface only after multi-step sequences of grant, transfer and use.",
     ["entrypoints/common.rs", "entrypoints/execute.rs", "state.rs"],
     [("approval update", C + "entrypoints/common.rs"), ("operator grant", C + "entrypoints/execute.rs")],
     ["stored approvals and operator records"],
     "Exact comparison of stored approvals/operators after each message with the specification.")
prop("P05", "Each owner's positions stay a dense, lossless list",
     "Every owner's positions occupy exactly the indices below the owner's recorded count: adding appends one, removing one moves the last into its place and drops the count by one, and no operation loses, duplicates or alters an unrelated position.",
     ["inputs", "histories"], "every owner, index and count, including self-transfer",
     "Loss or duplication appears only for particular index/count relations and sequences.",
     ["state.rs", "entrypoints/execute.rs", "entrypoints/common.rs"],
     [("append and swap-remove", C + "state.rs")],
     ["stored positions and counts"],
     "Inductive step over every message: density before implies density after, with exact contents.")
prop("P07", "Liquidity accounting of positions, ticks and pool agrees",
     "Opening, closing and claiming change each boundary tick's gross liquidity by exactly the position's liquidity, its signed net by +L at the lower and -L at the upper bound, and the pool's active liquidity by L exactly when the range contains the current tick. "
     "Ticks whose gross liquidity reaches zero disappear, and claiming changes no liquidity at all; no other non-swap message touches ticks.",
     ["inputs", "histories"], "every range, liquidity, pool state and pre-existing tick",
     "Agreement must hold for every overlap pattern of ranges and current tick, and over any history of openings and closings.",
     ["storage/tick.rs", "storage/pool.rs", "storage/position.rs", "entrypoints/execute.rs"],
     [("tick liquidity update", C + "storage/tick.rs"), ("active liquidity update", C + "storage/pool.rs"), ("position modify", C + "storage/position.rs")],
     ["stored ticks, pools and positions"],
     "Final storage compared with a reference value for every successful path; overflow aborts.")
prop("P09", "Positions earn exactly the fee growth inside their range",
     "The fee owed to a position is its stored remainder plus its liquidity times the growth inside its range since its checkpoint, rounded down; claiming or closing pays exactly that to the owner, and claiming re-checkpoints so nothing is paid twice. "
     "A new position is checkpointed at the current inside growth and owes nothing; a newly created tick counts all past growth as outside exactly when it lies at or below the current tick.",
     ["inputs", "histories"], "every range, current tick, growth counters (including wrap-around) and liquidity",
     "Double payment or loss depends on the relation of ticks, current tick and wrapped counters over a history of swaps and claims.",
     ["storage/position.rs", "storage/tick.rs", "math/types/fee_growth.rs", "entrypoints/execute.rs"],
     [("claim", C + "storage/position.rs"), ("growth inside", C + "math/types/fee_growth.rs")],
     ["stored positions and ticks", "payout messages"],
     "Inside-growth arithmetic and payouts compared with a closed-form reference, wrapping included.")
prop("P08", "A crossed tick flips its outside counters and moves active liquidity",
     "Each time a swap moves the price across an initialized tick, active liquidity changes by exactly that tick's net liquidity in the direction of travel, and the tick's outside fee growths and outside seconds become the current globals minus their old values; nothing else of the tick changes. "
     "Ticks the price does not cross are left untouched, and every crossed tick is saved under its own pool and index.",
     ["inputs", "histories"], "every swap, direction, pool state and tick, for any number of crossings",
     "Which ticks are crossed depends on amounts, liquidity and spacing; tests cross a handful of ticks in fixed setups.",
     ["storage/tick.rs", "entrypoints/common.rs", "entrypoints/execute.rs"],
     [("tick cross", C + "storage/tick.rs"), ("pool tick update", C + "storage/pool.rs")],
     ["stored ticks and active liquidity after a swap"],
     "One symbolic iteration of the swap loop stands for all iterations (loop-carried values left arbitrary); transfer function compared with a reference.")
prop("P10", "A swap settles exactly the amounts of its steps",
     "A swap takes from the sender exactly the input consumed by its steps (fees included) and pays out exactly the output of its steps, in the pool's two tokens according to direction; the stored pool ends with the price, tick, liquidity and fee counters the last step left. "
     "It consumes no more than the requested amount, fails when nothing is received, and touches no other pool and no position.",
     ["inputs", "histories"], "every swap amount, direction, mode, pool state and number of steps",
     "The totals are sums over an unbounded number of steps whose splits depend on runtime liquidity.",
     ["entrypoints/common.rs", "entrypoints/execute.rs", "storage/pool.rs"],
     [("swap loop", C + "entrypoints/common.rs"), ("settlement", C + "entrypoints/execute.rs")],
     ["response messages", "stored pool"],
     "Loop invariants checked inductively on the analysed loop body; the step function itself is covered by its own property.")
prop("P11", "Swaps stay within price limit, tick range and slippage",
     "A swap starts only if its price limit lies on the right side of the current price and within the global price range; each step is bounded by that limit, and a swap that reaches the limit with input left, or leaves the tick range, is refused. "
     "A zero amount or a missing pool is refused.",
     ["inputs", "histories"], "every limit, direction, pool price and amount",
     "Limit handling depends on exact equality and ordering of prices that tests only sample.",
     ["entrypoints/common.rs", "state.rs"],
     [("limit checks", C + "entrypoints/common.rs"), ("limiting tick", C + "state.rs")],
     ["acceptance or refusal of swaps"],
     "Refusal conditions compared in both directions, modulo arithmetic overflow.")
prop("P12", "Price arithmetic is exact and rounds in the pool's favour",
     "Token amounts over a price interval, the price after an amount is added or taken out, and the input, output and fee of a swap step equal their closed formulas with the documented rounding: what a user pays is rounded up, what a user receives is rounded down, and the price is rounded against the trader. "
     "A step stops exactly at its target when the amount suffices, never yields more than was asked for, and charges the whole remainder as fee when the input is used up before the target.",
     ["inputs"], "every price, liquidity, amount, fee and direction",
     "A unit of rounding error shows only at particular residues of 256-bit products; tests sample a handful of magnitudes.",
     ["math/clamm.rs", "math/types/sqrt_price.rs", "math/types/liquidity.rs"],
     [("amounts and next prices", C + "math/clamm.rs"), ("fixed-point products and quotients", C + "math/types/sqrt_price.rs")],
     ["returned amounts, prices and fees"],
     "Values compared as normal forms of integer terms with floor division; the rounding side of every value is derived separately from the term.")
prop("P14", "Quotes predict the swap that would execute",
     "In every state a quote returns the input, output, resulting price and crossed ticks that the same swap executed in that state would produce, and is refused when the swap would be; a quote changes no state.",
     ["inputs", "histories"], "every pool state, amount, direction, mode and limit",
     "Agreement must hold in every state and for every amount, not for sampled ones.",
     ["entrypoints/query.rs", "entrypoints/common.rs"],
     [("quote", C + "entrypoints/query.rs"), ("shared computation", C + "entrypoints/common.rs")],
     ["query responses against executed swaps"],
     "Both loops are compared with the same reference transfer function.")
prop("P26", "A swap route chains its hops and enforces the minimum",
     "A route executes its hops in order, each an exact-input swap of the previous hop's whole output in the listed pool and direction; every hop settles its own input and output with the sender, attached coins being counted once. "
     "The route is refused when the final output is below the expected amount less the allowed slippage, or when any hop fails. A route quote over pairwise different pools reports the same final output.",
     ["inputs", "histories"], "every route length, pool list, directions and amounts",
     "Routes of every length and mixture of token kinds cannot be sampled exhaustively.",
     ["entrypoints/common.rs", "entrypoints/execute.rs", "entrypoints/query.rs"],
     [("route", C + "entrypoints/common.rs"), ("swap route message", C + "entrypoints/execute.rs")],
     ["response messages", "final amount", "query result"],
     "The hop loop is checked inductively; quotes do not see earlier hops' writes, hence the restriction to different pools.")
prop("P27", "Swap fees are split between protocol and liquidity without loss",
     "The fee of every swap step is credited only to the input token: the protocol's share rounded up goes to the pool's protocol counter and the rest raises that token's global fee growth per unit of active liquidity, rounded down. "
     "Nothing accrues without active liquidity, and no other message changes these counters except the protocol withdrawal.",
     ["inputs", "histories"], "every fee, protocol rate, liquidity and counter value including wrap-around",
     "Rounding and wrap-around hold for all magnitudes; tests use a few.",
     ["storage/pool.rs", "math/types/fee_growth.rs", "entrypoints/common.rs"],
     [("fee split", C + "storage/pool.rs"), ("growth from fee", C + "math/types/fee_growth.rs")],
     ["stored pool counters"],
     "Closed-form comparison of counters after one arbitrary step.")
prop("P06", "The tick bitmap marks exactly the ticks that exist",
     "Opening a position sets the bitmap bit of each boundary tick that did not exist before, closing one clears the bit of each boundary tick it removes, always in the position's own pool and at the bit belonging to that tick; no other bit changes. "
     "A tick whose bit is already set is never created again, a tick whose bit is clear is never removed, and no other message touches the bitmap.",
     ["inputs", "histories"], "every range on the spacing grid, every spacing, any earlier bitmap contents, both bounds in the same or different words",
     "A wrong or missing bit only shows up in later swaps that skip or miss a tick; tests check a few ticks.",
     ["storage/tickmap.rs", "state.rs", "entrypoints/common.rs", "entrypoints/execute.rs"],
     [("bit flip", C + "state.rs"), ("bit position of a tick", C + "storage/tickmap.rs"), ("tick creation and removal", C + "entrypoints/common.rs")],
     ["stored bitmap words", "tick map query"],
     "Word contents compared with a reference bitmap for every successful path; the tick bounds are taken on the grid, others being refused (P17).")
prop("P13", "Opening a position collects exactly its two token amounts",
     "Opening a position takes from the sender exactly the amounts of the two pool tokens its liquidity requires: cw20 tokens through an allowance transfer, native coins from the attached funds with the excess returned; it is refused when the attached coins do not suffice. "
     "Messages other than swaps, openings, closings, fee claims and protocol withdrawals move no tokens.",
     ["inputs"], "every pool, range, liquidity, token kind and set of attached coins",
     "The combinations of token kinds, zero amounts and attached coins exceed what tests enumerate.",
     ["interface.rs", "entrypoints/execute.rs", "entrypoints/common.rs"],
     [("token collection", C + "interface.rs"), ("position opening", C + "entrypoints/execute.rs")],
     ["messages in the response", "acceptance or refusal"],
     "Response messages compared with the reference settlement over every successful path.")
prop("P15", "Pools are created only validly and start empty",
     "A pool is created exactly when its fee tier is listed, its tokens differ, no pool exists for that unordered token pair and tier, and the start tick is a valid tick whose price interval contains the start price. "
     "It starts with that price and tick, no liquidity, no accrued fees, the current time and the admin as fee receiver; no message ever deletes a pool or creates one in another way.",
     ["inputs", "histories"], "every token order, tier list, start tick, start price and stored state",
     "Duplicate pools under swapped token order or inconsistent price and tick need particular inputs and histories.",
     ["entrypoints/execute.rs", "storage/pool.rs", "storage/pool_key.rs", "math/types/sqrt_price.rs"],
     [("pool creation", C + "entrypoints/execute.rs"), ("token ordering", C + "storage/pool_key.rs"), ("tick and price consistency", C + "math/types/sqrt_price.rs")],
     ["stored pools", "acceptance or refusal"],
     "Acceptance is compared in both directions with the specification, stored record exactly.")
prop("P16", "Fee tiers are managed only by the admin and stay valid",
     "A fee tier is added only by the admin, with a spacing between 1 and 100, a fee below 100% and not already listed, and is appended to the list; removal takes out exactly the named listed tier. "
     "No other message changes the list.",
     ["inputs", "histories"], "every sender, tier and tier list",
     "Invalid or duplicate tiers and removals of the wrong entry need particular lists.",
     ["entrypoints/execute.rs", "storage/fee_tier.rs", "storage/config.rs"],
     [("tier addition and removal", C + "entrypoints/execute.rs")],
     ["stored configuration", "acceptance or refusal"],
     "Acceptance in both directions and exact list contents.")
prop("P17", "Positions open exactly under their validity conditions",
     "A position opens only with non-zero liquidity in an existing pool, over a lower bound below the upper bound, each bound an existing tick or on the spacing grid inside the tick range, with the pool price within the given limits and neither bound's gross liquidity reaching the per-tick maximum. "
     "Every such opening with clear bitmap bits that the sender funds is accepted. No message other than opening, closing or transferring changes the liquidity, range or pool of a stored position.",
     ["inputs", "histories"], "every range, liquidity, limit, spacing and stored state",
     "Boundary values of ticks, limits and per-tick maxima are not enumerable by tests.",
     ["entrypoints/execute.rs", "entrypoints/common.rs", "storage/position.rs", "storage/tick.rs", "math/clamm.rs"],
     [("position creation", C + "storage/position.rs"), ("tick validation", C + "math/clamm.rs"), ("per-tick maximum", C + "math/clamm.rs")],
     ["acceptance or refusal", "stored positions"],
     "Acceptance compared in both directions, modulo arithmetic overflow.")
prop("P28", "The tick search finds the nearest initialised tick and never skips one",
     "For every bitmap, tick and spacing, each step of a swap is limited by the nearest initialised tick in the direction of the price: strictly above the current tick when the price rises, at or below it when the price falls. "
     "If none lies within 256 spacings (clipped to the tick range) the limit is the price at that distance, and a tighter caller limit wins.",
     ["inputs", "histories"], "every bitmap content, tick on the grid, spacing and direction",
     "A skipped tick needs an initialised tick at a particular bit of a particular word relative to the start; tests place a handful.",
     ["state.rs", "storage/tickmap.rs"],
     [("bitmap search", C + "state.rs"), ("search limit and bit position", C + "storage/tickmap.rs")],
     ["tick at which a swap step stops", "price limit of a swap step"],
     "Word-by-word search loop compared inductively with the closed form (first set bit at or beyond the start).")
prop("P25", "Single-record queries report exactly what is stored",
     "Asking for the admin, the protocol fee, a pool, a tick, a position, a fee tier's existence, a tick's flag, or a position token's owner, approvals and data succeeds exactly when the record exists and returns it unchanged. "
     "Approval lists hold every stored approval, expired ones only on request, and counts equal the stored counts.",
     ["inputs", "histories"], "every stored state and every query argument",
     "Answers depend on the whole stored state and on expiry against the block; tests ask about a few records they just wrote.",
     ["entrypoints/query.rs", "entrypoints/common.rs", "state.rs"],
     [("queries", C + "entrypoints/query.rs"), ("approval humanising", C + "entrypoints/common.rs")],
     ["query answers"],
     "Each query's success condition and answer compared with the stored record field by field.")
prop("P31", "Listings are complete, ordered and bounded",
     "Every listing query (positions, tokens, operators, pools, pools of a pair, fee tiers, position ticks, tick map, liquidity ticks and their number) returns, in key order and without gaps, the stored entries from the given start up to the requested number, never more than the fixed maximum, and no others. "
     "No limit or offset makes it fail or skip an entry.",
     ["inputs", "histories"], "every stored state, start, limit and tick range",
     "Missing entries and overflow need long lists, large limits or edge bits that tests do not build.",
     ["entrypoints/query.rs", "entrypoints/common.rs", "state.rs", "storage/tickmap.rs", "storage/pool_key.rs"],
     [("listing queries", C + "entrypoints/query.rs"), ("storage iteration", C + "state.rs"), ("tick map slices", C + "entrypoints/common.rs")],
     ["query answers"],
     "Each answer brought to the form source, filter, cap, element and compared part by part.")
prop("P35", "Liquidity estimates from a token amount are exact",
     "The liquidity estimated from an amount of one token (by ticks or by prices) is that amount's worth over the part of the range the token funds, rounded down, and the returned companion amount is this liquidity's worth over the rest of the range in the other token, rounded up or down as asked and zero when the price lies outside. "
     "Estimates are refused exactly for ticks outside the tick range, an empty range, or a price beyond the range on the side where the token is not needed.",
     ["inputs"], "every amount, tick range, current price and rounding direction (results that fit their type)",
     "Wrong operand choice or rounding shows only for particular price/range relations; tests sample three.",
     ["logic/math.rs"],
     [("estimates by x and by y", C + "logic/math.rs")],
     ["liquidity and companion amount returned to the caller"],
     "Both estimators compared as terms with the closed formulas for every region of the price.")
prop("P29", "Ticks and prices determine each other exactly",
     "The price of a tick is within one part in ten million of 1.0001^(tick/2), strictly increases with the tick, and exists exactly inside the tick range. "
     "The tick of any price in the global price range is the largest tick whose price does not exceed it, rounded down to a multiple of the spacing; prices outside the range are refused.",
     ["inputs"], "every tick, every price in range and every spacing",
     "There are 443,637 ticks and about 6e28 prices; tests compare a few dozen, and an off-by-one only shows next to a tick boundary.",
     ["math/types/sqrt_price.rs", "math/log.rs"],
     [("price of a tick", C + "math/types/sqrt_price.rs"), ("tick of a price", C + "math/log.rs")],
     ["tick and price of pools", "price limits"],
     "Structure compared with the reference, then exact error bounds (80 digits) show that the candidate ticks always bracket the price.")
prop("P22", "The client library computes what the contract computes",
     "For every input, each computation the client library shares with the contract (prices, ticks, swap steps, token amounts, liquidity for an amount, fee growth and unclaimed fees, keys, tick checks, bitmap positions, minimum outputs) succeeds exactly when the contract's does and gives the identical result. "
     "The limits and number scales it publishes are the contract's.",
     ["inputs"], "every argument of every shared computation",
     "The two copies are maintained separately and are compared by no test; a divergence shows only for inputs that reach the changed branch.",
     ["wasm/clamm.rs", "wasm/log.rs", "wasm/math.rs", "wasm/custom.rs", "wasm/types/sqrt_price.rs", "wasm/types/fee_growth.rs", "math/clamm.rs", "math/log.rs", "logic/math.rs"],
     [("client-side computations", "wasm/clamm.rs"), ("contract computations", C + "math/clamm.rs")],
     ["results of the client library's exported functions"],
     "Both functions of each pair are analysed on the same symbolic arguments; success conditions and results must coincide.")
prop("P23", "The client-side swap simulation follows the contract's swap",
     "Given the pool, its tick bitmap and ticks, the simulation walks the same steps as an executed swap: it reports no problem exactly when the whole amount can be swapped, and then its input, output, fee, final price and crossed ticks are those of the contract. "
     "Otherwise it raises the flag that names the reason (liquidity or limit exhausted, ticks missing, too many crossings), and it refuses zero amounts and limits on the wrong side of the price.",
     ["inputs", "histories"], "every pool, bitmap, tick list, amount, direction and limit, over any number of steps",
     "Steps, crossings and limits combine over unbounded loops; the few simulated swaps in tests do not compare with the contract.",
     ["wasm/swap.rs", "wasm/collections/tickmap.rs", "wasm/storage/pool.rs", "wasm/storage/tick.rs"],
     [("simulated swap loop", "wasm/swap.rs"), ("bitmap search", "wasm/collections/tickmap.rs")],
     ["result of the simulation"],
     "Inductive: start values, one iteration and every exit of the loop compared with the reference that the contract's loop is compared with.")
prop("P19", "Arithmetic overflow aborts and never alters an outcome",
     "If any calculation in a message, a swap quote or a price, amount or fee formula exceeds the range of its number type, the whole call fails: a successful call never stores, pays, pulls or reports a saturated, truncated, defaulted or wrapped-around amount, liquidity, price, fee or count. "
     "Only the cumulative fee-growth and seconds counters wrap, by design.",
     ["inputs", "histories"], "every message, stored state and argument, for every arithmetic operation on the way",
     "Each overflow needs values near the limits of a type at one particular operation; tests reach a handful of them.",
     ["math/clamm.rs", "math/types/fee_growth.rs", "math/types/sqrt_price.rs", "storage/tick.rs", "storage/pool.rs", "storage/position.rs", "packages/decimal-core/src/ops.rs"],
     [("checked arithmetic of the decimal types", "packages/decimal-core/src/ops.rs"), ("fee and amount formulas", C + "math/types/fee_growth.rs"), ("liquidity bookkeeping", C + "storage/tick.rs")],
     ["success of every message", "stored state", "payments and quotes"],
     "Overflow conditions stay free decisions in the analysis; whenever the call succeeds, nothing it stores, sends or returns may depend on them, and no value may be reduced or clamped to a word size.")
prop("P21", "Fixed-point operations are exact up to the stated rounding",
     "For every pair of fixed-point values, each operation of the decimal library returns the exact mathematical result rounded down, or rounded up for the operations that say so, in the scale of its type; conversions keep the represented value. "
     "It is refused exactly for a division by zero, a negative difference or a result that does not fit, and the wide variants fail for no other reason.",
     ["inputs"], "every operation of every fixed-point type and every pair of operands",
     "The library's own tests use a few small operands per type; rounding and overflow differ only for particular remainders and very large values.",
     ["packages/decimal-core/src/ops.rs", "packages/decimal-core/src/big_ops.rs", "packages/decimal-core/src/by_number.rs", "packages/decimal-core/src/factories.rs", "packages/decimal-core/src/others.rs",
      "packages/decimal-core/src/checked_ops.rs", "packages/decimal/src/uint.rs"],
     [("generated operations", "packages/decimal-core/src/big_ops.rs"), ("conversions", "packages/decimal-core/src/factories.rs"), ("wide integers", "packages/decimal/src/uint.rs")],
     ["result of every operation"],
     "Every instantiated operation (a probe crate instantiates the whole library) compared with exact integer division, including its refusals.")
prop("P18", "Different pools, ticks, positions and approvals never share a record",
     "Whatever the token names, addresses, tick indexes and numbers, no two different pools, ticks, bitmap words, positions, position counters or operator approvals are ever stored under the same key. "
     "Every message and query uses one key layout per table, which contains the whole identity of the thing it stores.",
     ["inputs", "histories"], "every storage access of every message and query, for all identities",
     "A collision needs two particular names or numbers (one token name a prefix of another, an index that loses bits); tests use a few short names.",
     ["state.rs", "storage/pool_key.rs", "storage/fee_tier.rs", "entrypoints/execute.rs"],
     [("key construction", C + "state.rs"), ("pool key bytes", C + "storage/pool_key.rs"), ("fee tier bytes", C + "storage/fee_tier.rs")],
     ["records found by queries after any history"],
     "Every key that reaches the storage layer is reduced to its sequence of fixed-width, length-prefixed and open parts; unique decodability is decided on that sequence.")
prop("P30", "A fresh contract belongs to its deployer; upgrading changes nothing",
     "Instantiation always succeeds and stores exactly the sender as admin, the requested protocol fee and an empty list of fee tiers, with no pools, positions or approvals and no tokens moved. "
     "Migration to a new code version leaves every stored record as it is and sends nothing.",
     ["inputs", "histories"], "every sender, requested fee and stored state",
     "Tests instantiate with one account and never migrate a populated contract.",
     ["contract.rs", "storage/config.rs", "state.rs"],
     [("instantiate and migrate entry points", C + "contract.rs")],
     ["stored configuration after instantiation", "all records after migration"],
     "Both entry points analysed with sender, message and storage symbolic.")
prop("P20", "Closing pays what a position is worth, never more than opening costs",
     "Closing a position pays its owner exactly the two token amounts its liquidity is worth over its range at the pool's current price, rounded down, plus the owed fees; opening collects the same two amounts rounded up. "
     "Opening and closing at the same price therefore never returns more principal than was paid.",
     ["inputs", "histories"], "every position, range, liquidity, pool price and token kind",
     "Tests open and close a few round positions; a rounding or branch error of one unit shows only for particular prices and can be repeated without limit.",
     ["storage/pool.rs", "math/clamm.rs", "entrypoints/execute.rs", "storage/position.rs"],
     [("amounts of a liquidity change", C + "math/clamm.rs"), ("closing", C + "storage/position.rs")],
     ["payout messages when closing", "collection messages when opening"],
     "Both directions compared with one reference whose two roundings are shown to be the same exact rational rounded to opposite sides.")
prop("P24", "A holder can always claim, close and pass on a position",
     "In every state the contract can reach, a fee claim, closing or transfer of a stored position requested by its owner (or an authorised spender or operator, where those are allowed) is accepted. "
     "Only a missing position, missing authority, an invalid recipient address or arithmetic overflow refuses it; no setting, price, fee tier or other account's action locks a position in.",
     ["inputs", "histories"], "every stored position, pool price and tick, approval state and sender, under the invariants the other properties maintain",
     "A locked position appears only for particular prices, tick states or removed fee tiers; tests close positions in a handful of states.",
     ["entrypoints/execute.rs", "entrypoints/common.rs", "storage/position.rs", "storage/tick.rs", "state.rs"],
     [("claim and closing", C + "storage/position.rs"), ("transfer", C + "entrypoints/common.rs")],
     ["acceptance or refusal of claim, closing and transfer"],
     "The acceptance condition is computed exactly and shown equal to existence plus authority under the invariants proven inductively by P05, P06, P07, P15, P17 and P29; arithmetic overflow and failure of the receiving token contract are outside.")
not_applicable("P32", "The contract always holds enough tokens for everything it owes",
     "After any history of messages, the contract's balance of every token is at least the sum of all positions' principal at the current price, all owed fees and all accrued protocol fees in pools using that token.",
     ["histories"], "every sequence of messages over any number of pools, positions and swaps",
     "Tests compare balances after a few short scenarios.",
     ["storage/pool.rs", "storage/position.rs", "math/clamm.rs", "entrypoints/execute.rs"],
     [("rounding in the pool's favour", C + "math/clamm.rs"), ("fee growth accounting", C + "storage/pool.rs")],
     ["token balances of the contract against the sum of claims"],
     "The claim is an inequality between an external balance and a sum over an unbounded set of positions of products of run-time quantities, accumulated over whole histories; no static argument in reach relates that sum to single messages. "
     "The step-wise facts it rests on (each message collects and pays exactly, each rounding favours the pool, fees are split without loss) are decided in P07-P10, P12, P13, P20 and P27.")
not_applicable("P33", "Splitting a swap never gives more than doing it at once",
     "For every pool state, executing an exact-input swap in several consecutive parts yields at most the output of executing it as one swap.",
     ["inputs", "histories"], "every pool state, amount and way of splitting it",
     "Tests compare one or two splits.",
     ["math/clamm.rs", "storage/pool.rs"],
     [("swap step", C + "math/clamm.rs")],
     ["total output of the parts against the output of the whole"],
     "A monotonicity statement about compositions of rounded non-linear formulas over run-time prices and liquidity; value-flow facts give each step's exact formula and rounding side (P12, P27) but not an inequality between two differently rounded step sequences.")
not_applicable("P34", "Every accepted swap finishes within the block's gas limit",
     "A swap or quote performs a number of steps bounded independently of the stored ticks, so that it never exhausts the gas of a block.",
     ["inputs", "histories"], "every tick distribution and amount",
     "Tests swap through a few hundred ticks.",
     ["entrypoints/common.rs", "storage/tickmap.rs"],
     [("swap loop", C + "entrypoints/common.rs")],
     ["steps taken by a swap"],
     "The number of steps depends on the initialised ticks between two run-time prices and the gas price of each on the host; the code has no such bound for executed swaps, and gas is not visible in the source. That each search step is bounded to 256 spacings and each step moves towards the limit is decided in P28 and P11.")
VF = "static analysis: gated interprocedural value-flow over type-checked MIR"
TECHNIQUE = {
    "P01": VF + ", guard dominance of every configuration and receiver write in every message",
    "P02": VF + ", exact comparison of acceptance, stored pool and payout messages",
    "P03": VF + ", authority guard of every position write; framing of all other messages",
    "P04": VF + ", typestate of approval and operator records",
    "P05": VF + ", inductive invariant of the per-owner index lists over every message",
    "P06": VF + ", bit-level effect analysis of the tick bitmap",
    "P07": VF + ", effect analysis of tick, pool and position liquidity",
    "P08": VF + ", inductive loop summary of one swap step compared with a reference step",
    "P09": VF + ", exact comparison of fee formulas, checkpoints and payouts",
    "P10": VF + ", inductive loop summary of the swap totals and settlement",
    "P11": VF + ", guard analysis of the swap's entry and exit conditions",
    "P12": VF + ", term comparison with closed formulas and a rounding-direction analysis",
    "P13": VF + ", effect analysis of token movements in every message",
    "P14": VF + ", the quote's and the swap's loop summaries compared with one reference step",
    "P15": VF + ", exact acceptance condition and initial record; framing of all other messages",
    "P16": VF + ", exact acceptance condition and list effect; framing of all other messages",
    "P17": VF + ", exact acceptance condition of an opening",
    "P18": "static analysis: storage keys of every access reduced to segment layouts, unique decodability per table",
    "P19": "static analysis: overflow decisions kept as free atoms, taint of wrapped and clamped values to storage, messages and answers",
    "P20": VF + ", rounding-direction analysis of the collected and the paid amount",
    "P21": VF + ", every instantiated fixed-point operation compared with exact integer arithmetic",
    "P22": VF + ", contract and client functions compared term by term (equivalence of two programs)",
    "P23": VF + ", the simulation's loop summary compared with the contract's reference step",
    "P24": VF + ", exact acceptance condition under the inductive invariants",
    "P25": VF + ", query answers compared with the stored record",
    "P26": VF + ", inductive summary of the hop loop",
    "P27": VF + ", fee split in the swap loop summary; framing of all other messages",
    "P28": VF + ", inductive summary of the bitmap search loops over bit-vector terms",
    "P29": VF + ", table constants recomputed exactly and accumulated rounding bounded by interval arithmetic",
    "P30": VF + ", complete storage effect of instantiation and migration",
    "P35": VF + ", term comparison of both estimators with closed formulas per price region",
    "P31": VF + ", iteration shape (start, order, filter, bound) of every listing",
}
P[:] = [(p, n, TECHNIQUE.get(p["id"], t)) for p, n, t in P]
P.sort(key=lambda x: x[0]["id"])
