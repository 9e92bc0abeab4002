#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is maintained here, one call per property)."""
import json, os
P = []
PAIR = "contracts/halo-pair/src/contract.rs"
FAC = "contracts/halo-factory/src/contract.rs"
FST = "contracts/halo-factory/src/state.rs"
ROU = "contracts/halo-router/src/contract.rs"
ROP = "contracts/halo-router/src/operations.rs"
TOK = "contracts/halo-token/src/contract.rs"
ASS = "packages/haloswap/src/asset.rs"
QUE = "packages/haloswap/src/querier.rs"
TKM = "packages/haloswap/src/token.rs"
BIG = "packages/bignumber/src/math.rs"

def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)

p("C01", "Swap price follows constant product with 0.3% fee; reserves never drained",
  "For reserves x (offered asset) and y (asked asset) before a swap and an offered amount a, the swap prices the output before commission at exactly floor(y*a/(x+a)), keeps floor(0.3%) of it in the pool as commission and pays out the rest; the reported spread is the ideal output floor(a*y/x) minus the output before commission, or at most one less (the price is truncated to 18 digits), never below zero. Hence no completed swap ever lowers the product of the two reserves or takes a non-empty reserve to zero. A swap with a positive output and no price limit goes through whenever these quantities fit in 128 bits.",
  ["inputs"], "every pair of reserves and every offered amount over the whole 128-bit range, both swap directions, token/token and token/native pairs, every decimals setting",
  "The existing tests price a handful of amounts around one pool size with the same formula as the code; they never reach unbalanced pools, 18-decimal magnitudes or the rounding edges.",
  [PAIR, BIG], [("compute_swap", PAIR), ("COMMISSION_RATE", PAIR)],
  ["pair swap hook outcome and attributes", "pair Simulation query", "asset balances of the pair"])
p("C02", "A swap moves exactly the offered input in and the quoted output out",
  "A completed swap moves exactly the offered amount from the trader to the pair and exactly the amount it reports as returned from the pair to the named recipient (or to the trader when none is named), in the other asset of the pair. No other balance of any account, and no token supply, changes.",
  ["inputs", "histories"], "all histories of operations on a deployment with several pairs, tokens and native coins, for every trader, recipient, direction and amount",
  "The unit tests look at the emitted message of one swap in one direction with a mocked querier; they never settle it against real balances, nor look at third parties.",
  [PAIR, ASS], [("swap", PAIR), ("Asset::into_msg", ASS)], ["balances of all accounts before and after", "swap attributes"])
p("C03", "A pair's swap simulation equals the outcome of executing the swap",
  "In any reachable state, the simulation query for an offered asset and amount returns exactly the return, spread and commission amounts that a swap of that amount executed next reports and pays. Simulating never changes state, and an asset that is not in the pair is refused.",
  ["inputs", "histories"], "all reachable pool states, both assets of the pair, all amounts",
  "Tests simulate once after swapping once, from a hand-built pool; agreement must hold for every state and amount, and simulation and execution derive the reserves in different ways.",
  [PAIR, QUE], [("query_simulation", PAIR), ("swap", PAIR)], ["Simulation query", "swap execution in the same state"])
p("C04", "Reverse simulation quotes a sufficient and tight offer",
  "For an asked amount obtainable from the pool, offering one unit more than the reverse-simulated offer yields at least the asked amount (up to the 18-digit precision of the fee inverse), and offering the quoted amount itself yields at most one unit more than asked. The quoted commission and spread belong to that same trade, and an asset that is not in the pair is refused.",
  ["inputs"], "all reserves and all asked amounts below what the pool can pay, both directions",
  "One hand-computed example is tested; sufficiency and tightness quantify over all reserves and amounts and involve the composition with the forward formula.",
  [PAIR], [("compute_offer_amount", PAIR), ("query_reverse_simulation", PAIR)], ["ReverseSimulation query", "Simulation query at the quoted amount"])
p("C05", "Liquidity provision mints the fair share and never dilutes holders",
  "With outstanding supply S and reserves r0, r1, providing d0 and d1 mints exactly min(floor(d0*S/r0), floor(d1*S/r1)) pool tokens to the receiver; the first provision mints floor(sqrt(d0*d1)), for any amounts. A provision that would mint nothing is refused, neither reserve per outstanding share ever decreases, and the order in which the two assets are listed does not matter.",
  ["inputs", "histories"], "all deposits, reserves and supplies over the 128-bit range, in any reachable history, both listing orders, token and native assets",
  "The tests use equal deposits with a 1:1 pool, where min/max, floor/ceil and swapped operands cannot be told apart.",
  [PAIR], [("provide_liquidity share computation", PAIR)], ["pool-token balances and supply before and after a provision"])
p("C06", "Withdrawal pays the pro-rata share, never more, and burns what was sent",
  "Returning an amount of pool tokens burns exactly that amount and pays its sender, of each asset, at most the pro-rata share of the reserve and less than it by under one unit plus a 1e-18 fraction of the reserve; returning the whole supply pays out the reserves completely. No other account's balance changes.",
  ["inputs", "histories"], "all reserves, supplies and withdrawn amounts in any reachable history, token and native assets",
  "One withdrawal from one mocked pool is tested, and its burn and payments are never executed against real balances.",
  [PAIR], [("withdraw_liquidity", PAIR)], ["balances and supplies before and after a withdrawal"])
p("C07", "Pool value per share never falls and no round trip profits",
  "Over any history of provisions, withdrawals, swaps, routed swaps, donations and rejected calls, by any users, the geometric mean of a pair's reserves per outstanding pool token never decreases as long as tokens are outstanding, and both reserves stay positive while they are. In particular no sequence of operations on a pair by one user returns more of both assets than it put in.",
  ["histories"], "all interleavings of user operations on one or more pairs, from any initial funding",
  "It is a history property: every step must round in favour of the pool; the tests execute at most one operation after the set-up and compare single numbers.",
  [PAIR], [("compute_swap", PAIR), ("provide_liquidity", PAIR), ("withdraw_liquidity", PAIR)], ["reserves and pool-token supply after every step"])
p("C08", "First liquidity is gated by whitelist and minimums; later liquidity is open",
  "While a pair has no outstanding pool tokens, a provision succeeds only if its sender is on the whitelist given at creation and each deposit is at least the minimum given for that asset, and a funded provision meeting these requirements is accepted with or without a slippage tolerance. Once tokens are outstanding, anyone may provide any amounts that mint a positive share; after everything has been withdrawn the gate applies again.",
  ["inputs", "histories", "configurations"], "all whitelists, minimums, senders, deposits and listing orders, including pairs refilled after having been emptied",
  "Tests cover one whitelisted sender and one failing minimum at a time, never the per-asset assignment under reversed listing, the boundary values or a second life of the pool.",
  [PAIR, FAC], [("provide_liquidity requirements check", PAIR), ("CreatePairRequirements", ASS)], ["success or refusal of a provision"])
p("C09", "Deposits are exactly what the provider declares and funds",
  "A provision succeeds only if each declared native amount equals the native coins sent with it and each declared token amount can be pulled from the sender under its allowance; it then moves exactly these amounts of the two assets from the sender to the pair, whatever the receiver. Declaring assets that are not the pair's two assets, declaring native coins that were not sent, or sending a different amount is refused and changes no balance.",
  ["inputs", "histories"], "all declared amounts, attached funds, allowances, listing orders and asset substitutions",
  "Tests check a few mismatches one at a time; the guarantee is over the combination of declared assets, attached coins and allowances, and over all balances.",
  [PAIR, ASS], [("assert_sent_native_token_balance", ASS), ("provide_liquidity deposits", PAIR)], ["balances of all accounts", "success or refusal"])
p("C10", "Slippage tolerance bounds the price deviation of a provision",
  "With slippage tolerance t on a pool holding liquidity, a provision is refused when either deposit ratio, reduced by the factor 1-t, exceeds the corresponding ratio of the reserves before the deposit (at 18-digit precision), and is not refused for slippage otherwise; a tolerance above 1 is always refused. Without a tolerance no ratio is refused.",
  ["inputs"], "all reserves, deposits and tolerances, both skew directions, native and token assets",
  "Tests try a few tolerances around a 1:1 pool in two directions; swapped operands or reserves taken after the deposit are invisible there.",
  [PAIR], [("assert_slippage_tolerance", PAIR)], ["success or refusal of a provision with a tolerance"])
p("C11", "Maximum spread and belief price bound every swap",
  "A swap given a maximum spread is refused exactly when its loss exceeds it: against the belief price when one is given (relative shortfall of the return, in decimals-normalised units, from offer divided by belief price), otherwise against the pool price (reported spread over return plus spread), at 18-digit precision. Without a maximum spread neither limit refuses a swap, and asset decimals of both assets are taken into account in the right direction.",
  ["inputs", "configurations"], "all reserves, offers, belief prices and maximum spreads, all decimals of both assets, both directions",
  "Tests call the check with three hand-picked amounts per case and decimals 18/6 only; the execution path that feeds it is tested with equal decimals only.",
  [PAIR], [("assert_max_spread", PAIR), ("swap decimals selection", PAIR)], ["success or refusal of a swap with limits"],
  [("asset_decimals", "decimals of both assets in pair order", ASS)])
p("C12", "Only genuine token transfers can trigger swaps and withdrawals",
  "The pair executes a swap only when notified by one of its own asset tokens about a transfer of that token, and a withdrawal only when notified by its own pool token; a notification from any other account or token contract, whatever it claims, is refused and changes no balance. The asset sold and the amount are those of the actual transfer, never the caller's claim.",
  ["inputs", "histories"], "all senders (users, foreign tokens, other pairs' pool tokens, asset tokens, the pool token), all claimed senders, amounts and hook messages, in any reachable state",
  "Tests try one unauthorised sender per hook; they do not cover wrong-kind but related tokens such as an asset token asking for a withdrawal or the pool token asking for a swap.",
  [PAIR], [("receive_cw20", PAIR)], ["success or refusal of notifications", "balances of all accounts"])
p("C13", "Assets are conserved and pool tokens are backed",
  "Every operation conserves each asset: what leaves one account arrives in another, and token supplies equal the sum of balances. The supply of a pair's pool token changes only by provisions and withdrawals on that very pair or by a holder burning its own tokens; nobody but the pair can mint it.",
  ["histories"], "all histories over several pairs, routes, tokens and users, including attempts to mint",
  "Tests never total balances across accounts, and mint attempts on the pool token are not tried.",
  [PAIR, TOK, ROP], [("LP token instantiation with the pair as minter", PAIR), ("mint and burn messages", PAIR)], ["sum of balances per asset", "token supplies"])
p("C14", "One pair per unordered asset set, found regardless of order",
  "At most one pair is ever registered for an unordered set of two distinct assets, in whichever order they are given, and an asset cannot be paired with itself, however its address is written. Looking up the two assets in either order returns that pair, whose registered address, assets, pool token, decimals and requirements agree with what the pair itself reports; assets without a pair yield an error rather than another pair.",
  ["inputs", "histories"], "all sets of tokens and native denominations (including ones that are prefixes of each other), all creation orders and lookup orders",
  "Tests create one pair and retry it once reversed; they cover neither many coexisting pairs nor denominations of varying length, where keys could collide.",
  [FST, FAC, ASS], [("pair_key", FST), ("execute_create_pair", FAC), ("reply", FAC)], ["Pair query in both orders", "CreatePair outcome", "Pair query of the pair contract"],
  [("PAIRS", "registered pairs by sorted asset key", FST)])
p("C15", "Paging through pairs lists every pair exactly once",
  "For any page size, following pages from the last entry of the previous one lists every registered pair exactly once in one fixed order. A page holds as many entries as remain up to the requested limit, never more than 30, and 10 when no limit is given; the order in which the two cursor assets are given does not matter.",
  ["inputs", "histories"], "all sets of registered pairs, all limits and all cursors",
  "The tests page through three pairs; the caps and key-boundary effects need tens of pairs with keys that extend each other.",
  [FST, FAC], [("read_pairs", FST), ("calc_range_start", FST)], ["Pairs query with cursors and limits"])
p("C16", "Only the factory owner can change configuration, decimals or migrate",
  "Updating the configuration, registering native decimals and migrating a pair succeed only for the current owner; calls by anyone else are refused and change nothing. An update changes exactly the fields that were given, and after a transfer of ownership the new owner and only the new owner holds these rights.",
  ["inputs", "histories"], "all callers and all histories of configuration updates and ownership transfers",
  "Tests try one unauthorised caller per message right after set-up and never act as a former or new owner afterwards.",
  [FAC], [("permission checks", FAC)], ["Config query", "success or refusal", "native decimals query", "code id of the pair"])
p("C17", "Pair decimals are the true decimals of its assets, in asset order",
  "A pair is created only when both assets exist: a token that answers its token information, a native coin whose decimals the owner registered while the factory held a positive balance of it. The pair then records, for each asset in the given order, the decimals the token reports or the decimals last registered for the native coin, and later registrations do not change existing pairs.",
  ["inputs", "histories", "configurations"], "all combinations of token and native assets with all decimals, unknown assets, and all registration histories",
  "Tests use mostly 6-decimal assets, so exchanged or stale decimals are invisible.",
  [FAC, ASS, QUE], [("query_decimals", ASS), ("execute_add_native_token_decimals", FAC), ("execute_create_pair", FAC)], ["Pair query asset_decimals", "NativeTokenDecimals query", "CreatePair outcome"])
p("C18", "Migrating a pair preserves its liquidity, configuration and registration",
  "A migration commanded by the owner moves exactly the named pair to the given code (or to the configured pair code when none is given) and leaves its assets, decimals, requirements, pool token, reserves, outstanding shares and factory record unchanged, and the pair keeps working as before. New pairs always use the pair and token code configured at their creation.",
  ["histories"], "all histories of creations, operations, configuration updates and migrations",
  "Tests only look at the migrate message emitted with a mocked factory; no pair is ever migrated and used afterwards.",
  [FAC, PAIR], [("execute_migrate_pair", FAC), ("migrate", PAIR)], ["contract code id", "Pair and Pool queries before and after"])
p("C19", "A routed swap delivers the chained output to the recipient, keeping nothing",
  "A routed swap completes when every hop can be carried out, and takes the trader's tokens through the named pairs in order, each hop selling the router's entire holding of the hop's offered asset, and pays the full output of the last hop to the named recipient (or to the trader). Intermediate outputs never reach anyone but the router, the router ends up holding none of the assets offered along the route, and any failing hop undoes the whole route.",
  ["inputs", "histories"], "all routes over deployed pairs (including cyclic ones and repeated pairs), amounts, recipients and prior router holdings",
  "The router tests only compare emitted messages under a mocked querier; no route is ever executed over real pairs.",
  [ROU, ROP, PAIR], [("execute_swap_operations", ROU), ("execute_swap_operation", ROP), ("asset_into_swap_msg", ROP)], ["balances of all accounts before and after"])
p("C20", "A routed swap delivers at least the minimum receive or nothing happens",
  "When a minimum is given, a routed swap completes only if the recipient's balance of the final asset rises by at least that minimum through the route, and otherwise fails with all balances as before; it does not fail on account of the minimum when the output reaches it. What the recipient held beforehand never counts towards the minimum.",
  ["inputs", "histories"], "all routes, amounts, minimums around the true output, recipients and prior balances, native and token outputs",
  "The tests call the final assertion with hand-made balances; the balance that the route records at its start is never combined with real execution.",
  [ROU], [("AssertMinimumReceive", ROU), ("execute_swap_operations", ROU)], ["success or refusal", "recipient's balance change"])
p("C21", "Router internals are closed and malformed routes are refused",
  "Nobody but the router itself can run a single hop, so no caller can direct the router's holdings through the internal step; such calls are refused. Empty routes and routes that leave more than one final asset are refused before anything is swapped, and so are messages to the router that are not a route.",
  ["inputs", "histories"], "all callers, all operation lists over known and unknown assets, and router holdings",
  "Tests try one outsider and two well-formed lists; the refusal is over all lists.",
  [ROU, ROP], [("sender check of execute_swap_operation", ROP), ("assert_operations", ROU)], ["success or refusal", "balances"])
p("C22", "Route quotes equal the fold of the pair quotes",
  "The router's simulation of a route equals applying the pairs' simulations one after the other, and its reverse simulation equals applying the reverse simulations from the last hop to the first; for routes visiting distinct pairs the forward quote is exactly what execution delivers. A route through an unregistered pair, or an empty one, yields an error.",
  ["inputs", "histories"], "all routes of all lengths over registered and unregistered pairs, all amounts and pool states, native and token legs",
  "The tests quote fixed routes against mocked replies that do not depend on the hop's direction.",
  [ROU, QUE], [("simulate_swap_operations", ROU), ("reverse_simulate_swap_operations", ROU)], ["SimulateSwapOperations", "ReverseSimulateSwapOperations", "execution of the route"])
p("C23", "The token contract keeps an exact CW20 ledger",
  "For any history of transfers, sends, burns, mints and allowance operations, every balance, allowance and the total supply equal those of a plain ledger applying the CW20 rules: nobody spends more than they own or were allowed, only the minter mints and never beyond the cap, and the supply is the sum of all balances. Refused operations change nothing.",
  ["histories", "inputs"], "all operation sequences by several accounts, all amounts, with and without minter, cap and allowance expiry",
  "One transfer and one mint are tested.",
  [TOK], [("execute", TOK), ("query", TOK)], ["Balance, Allowance, TokenInfo and Minter queries"])
p("C24", "Token creation validates metadata and respects the cap",
  "A token is created exactly when its name has 3 to 50 bytes, its symbol has 3 to 12 ASCII letters or hyphens, its decimals are at most 18, its initial holders are distinct valid addresses and the initial supply does not exceed the cap. It then reports exactly the given metadata, minter, cap and balances, with the supply equal to the sum of the initial balances.",
  ["inputs"], "all names, symbols, decimals, initial balances, minters and caps, including the boundary lengths and characters",
  "Tests try one bad value per field, away from the boundaries.",
  [TOK, TKM], [("InstantiateMsg::validate", TKM), ("instantiate", TOK)], ["instantiation outcome", "TokenInfo, Minter, Balance queries"])
p("C25", "256-bit arithmetic is exact, floors, and never wraps",
  "Addition, subtraction, multiplication, division, ratio and comparison on the 256-bit integers and 18-digit decimals return the mathematically exact result rounded down to the type's precision. When the exact result or an intermediate product of the definition does not fit in 256 bits, or a divisor is zero, they abort instead of returning a wrong value.",
  ["inputs"], "all operand pairs over the full 256-bit range, with emphasis on word and type boundaries",
  "Tests use a few small operands; carries across 64-bit words and overflow boundaries are barely sampled.",
  [BIG], [("Uint256 and Decimal256 operators", BIG)], ["operator results"])
p("C26", "Numbers survive text, JSON and type conversion unchanged",
  "Printing a 256-bit integer or decimal and parsing it back yields the same value, as does a JSON round trip and conversion from and to the 128-bit integer and decimal types; values that do not fit the smaller type abort. Parsing accepts exactly decimal digits with at most one dot and at most 18 fractional digits, never rounds, and rejects everything else, out-of-range values included, without returning a wrong value.",
  ["inputs"], "all values of both types and all strings",
  "Tests parse a fixed list of strings and print a dozen values.",
  [BIG], [("FromStr, Display, Serialize, Deserialize, From conversions", BIG)], ["parse/format/serde results"])
p("C27", "Asset identity, canonical form and message building are faithful",
  "Two asset descriptions are equal exactly when they have the same kind and the same name, a token and a native coin never being equal; converting an asset or pair record to canonical form and back returns it unchanged, and balance and decimals lookups go to the ledger of that very asset and account. A payment message for an asset transfers exactly that asset and amount to exactly that recipient, and the sent-coins check accepts exactly when the declared native amount equals the attached one.",
  ["inputs"], "all token addresses and denominations (including equal strings of different kind and different case), amounts, recipients and lists of attached coins",
  "Tests compare two or three fixed assets; equal strings across kinds and multi-coin funds are not tried.",
  [ASS, QUE], [("AssetInfo::equal / to_raw / to_normal", ASS), ("assert_sent_native_token_balance", ASS), ("into_msg", ASS)], ["library calls"])
p("C28", "Pair identity is immutable and its pool query reports the truth",
  "Over any history a pair's assets and their order, decimals, requirements and pool token address never change. At any time its pool query reports exactly its actual holdings of both assets in that order and the outstanding pool-token supply.",
  ["histories"], "all histories of operations, donations and rejected calls over several pairs",
  "The tests query a pool once, from mocked balances.",
  [PAIR, ASS], [("query_pool", PAIR), ("query_pair_info", PAIR), ("PairInfoRaw::query_pools", ASS)], ["Pair and Pool queries after every step", "real balances"])

p("C29", "Upgrading the factory or router keeps registry and configuration",
  "Upgrading the factory or the router to a new code by its chain administrator is accepted and changes no state: configuration, registered native decimals, every registered pair and the order in which pairs are listed, the router's factory and every quote are as before, and every later operation, by anyone, has the same outcome as it would have had without the upgrade.",
  ["histories"], "all histories of creations, registrations, configuration updates, swaps and routes with upgrades at any point",
  "No test upgrades a deployed factory or router; the entry points are not called at all in the suite.",
  [FAC, ROU], [("migrate", FAC), ("migrate", ROU)], ["Config, NativeTokenDecimals, Pair and Pairs queries", "router Config and simulations", "later operations compared with a twin history"])
p("C30", "Only the factory can migrate pairs; pool tokens belong to their pair",
  "A pair created through the factory can be migrated by the factory alone (the factory is its chain administrator), and its pool token can be minted by the pair alone, has no supply cap, starts with no supply and no holder, and has no chain administrator at all. Every attempt of any other account to migrate either of them, to take over their administration, or to mint pool tokens is refused and changes nothing.",
  ["histories", "inputs"], "all pairs created through the factory by any account, all callers (creator, factory owner, liquidity provider, strangers), at any point of a history",
  "The tests look at the instantiate message that creation emits; who really controls the resulting contracts shows only on a chain that enforces it.",
  [FAC, PAIR], [("admin of the pair in execute_create_pair", FAC), ("pool token instantiation", PAIR)], ["contract administrators", "Minter and TokenInfo queries", "refusal of migrate and mint"])
p("C31", "Emitted events report exactly what happened",
  "The attributes emitted by a completed operation are true. A swap, alone or as a hop of a route, reports its sender, its recipient, the offered and asked assets, the amount that left the trader, the amount paid out, and the spread and commission of that trade; a provision reports its sender, receiver, both deposited assets with their amounts and the minted share; a withdrawal its sender, the burned share and the refunded assets; a creation the two assets and the address and pool token of the created pair; a registration of decimals the coin and its decimals.",
  ["histories", "inputs"], "all completed operations in all histories, all senders and recipients, both directions, token and native assets",
  "The unit tests compare the attributes of single calls to literals computed by the same code; they are never compared with the balances that really moved.",
  [PAIR, FAC], [("attributes of swap, provide_liquidity, withdraw_liquidity", PAIR), ("reply", FAC)], ["events of the transaction", "balances before and after"])
p("C32", "Messages, queries and answers keep their documented JSON form",
  "Every message, query and answer of the factory, pair, router and token reads and writes exactly the documented JSON: lower snake case names, amounts as decimal strings, optional parts absent or null, keys in any order. What was written reads back unchanged; unknown or missing message parts, unknown message names and amounts given as JSON numbers are refused instead of being ignored.",
  ["inputs"], "all values of every message, query and answer type, and all mutations of their JSON",
  "The unit tests build Rust values and never look at the JSON which wallets, front ends and other contracts depend on.",
  ["packages/haloswap/src/pair.rs", "packages/haloswap/src/factory.rs", "packages/haloswap/src/router.rs", ASS, TKM],
  [("message, query and answer types", "packages/haloswap/src"), ("Asset, AssetInfo, PairInfo", ASS)], ["to_json / from_json of every type"])

p("C33", "Every holder can always leave with the fair share",
  "At any point of any history, whatever other users, the factory owner or the chain administrator did before (provisions, swaps, donations, refused attacks, changes of configuration or ownership, migrations, upgrades), every holder of a pair's pool tokens can return any amount of them at once and without anyone's consent: as long as each payment comes to at least one unit, the withdrawal is accepted and pays the pro-rata share of both reserves, in whichever order and in however many steps the holders leave.",
  ["histories"], "all histories over all operations of all users, owner and chain administrator, followed by any order of exits, reserves and supplies over the 128-bit range",
  "The tests withdraw right after a single provision; that funds are never locked must hold after every history.",
  [PAIR], [("withdraw_liquidity", PAIR), ("receive_cw20", PAIR)], ["acceptance of the withdrawal", "payments of both assets", "balances of everybody else"])
p("C34", "State written by the released version stays usable",
  "The contracts read the state that the released version of factory, router, pair and token stores (storage keys and JSON layout). When the whole stored state of a deployment is replaced by the same contents in the released layout, with or without a migration, every query answers as before and every later operation, by anyone, has the same outcome as without the replacement: an upgrade of deployed contracts loses no configuration, registration, pair, balance or allowance.",
  ["histories"], "all reachable states of a deployment, at any point of all histories",
  "Every test writes and reads its state with the same code, so a change of the layout goes unnoticed although it cuts deployed contracts off from their state.",
  [FST, "contracts/halo-pair/src/state.rs", "contracts/halo-router/src/state.rs", ASS], [("CONFIG, PAIRS, ALLOW_NATIVE_TOKENS, pair_key", FST), ("PAIR_INFO", "contracts/halo-pair/src/state.rs"), ("CONFIG", "contracts/halo-router/src/state.rs"), ("AssetInfoRaw, PairInfoRaw", ASS)], ["all queries before and after", "later operations compared with a twin history"])
p("C35", "The token contract behaves exactly like the reference CW20",
  "For the same creation and the same history of messages and queries, the token contract and the reference CW20 contract cannot be told apart: they accept and refuse the same messages, emit the same events, notify receiving contracts identically and answer every query with the same JSON. This includes the handover of the minter, marketing and logo messages, and the paged lists of accounts and allowances.",
  ["histories", "inputs"], "all creations without marketing data, all sequences of messages of all kinds by any account, well-formed or not, all queries with all paging arguments",
  "The suite sends the token one transfer and one mint; that wallets, indexers and receiving contracts can treat it as any CW20 holds for all messages and queries or not at all.",
  [TOK, TKM], [("execute", TOK), ("query", TOK), ("instantiate", TOK)], ["success or refusal", "events", "notifications of receivers", "answers of all queries"])
p("C36", "Markets are neutral: names, roles and listing order do not matter",
  "The outcome of provisions, withdrawals, swaps, routes and quotes depends on amounts, reserves, supply and decimals only. It is the same for every account in the same position (factory owner, pair creator and contracts included; only the whitelist of an empty pool distinguishes accounts, by membership, not by order), for every name of the coins and address of the tokens, and for either order in which the two assets of a pair were listed at its creation.",
  ["histories", "inputs"], "all deployments and histories, compared under all renamings of accounts, coins and tokens and all listing orders",
  "The tests use one trader, one coin name and one listing order per case and never compare two runs.",
  [PAIR, ASS, ROU], [("swap, provide_liquidity, withdraw_liquidity", PAIR), ("simulation queries", PAIR), ("execute_swap_operations", ROU)], ["success or refusal", "all balances and supplies", "all quotes"])
p("C37", "A pair is affected only by what is done to it",
  "Provisions, withdrawals, swaps, donations, creations and migrations of other pairs, registrations of decimals, configuration and ownership changes, upgrades of factory and router, other deployments and the mere passing of time have no influence on a pair which they do not touch: later operations and quotes at that pair have the same outcome as if nothing of it had happened, and the holdings of the accounts that took no part stay the same.",
  ["histories"], "all histories at one pair interleaved in all ways with operations elsewhere, pairs sharing assets included",
  "No test has two pairs that share an asset, or does anything between two operations at a pair.",
  [PAIR, FAC, ASS], [("swap, provide_liquidity, withdraw_liquidity, queries", PAIR), ("execute", FAC)], ["success or refusal", "balances, reserves and supply", "quotes"])
p("C38", "Nobody can spend what the contracts hold, and no right outlives its gift",
  "Pairs, pool tokens, router and factory never let anybody spend the tokens they hold: whatever happens, no allowance over the holdings of a contract of the exchange exists. Rights over a user's tokens are exactly those that user gave in the token contract, reduced by what was really moved with them: a provision uses up its deposit and no more, refused operations use up nothing, and no operation at a pair, the router or the factory creates, widens, moves or removes any other right.",
  ["histories"], "all histories over all operations by all accounts, also through agents that hold an allowance, at every point",
  "No test looks at allowances after an operation; a right left behind shows only when somebody uses it, much later.",
  [PAIR, ROU, FAC, TOK], [("provide_liquidity, withdraw_liquidity, swap", PAIR), ("execute_swap_operations", ROU), ("execute", TOK)], ["allowances of every account over every token after every operation"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
