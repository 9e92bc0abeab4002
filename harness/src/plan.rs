//! Which engines decide which property, and with what mix of operations.
use crate::factory::{self, FProfile, FK};
use crate::run::{engine, Acc, Ctx};
use crate::world::{self, Profile, K};
use crate::token;
#[cfg(feature = "asset")]
use crate::libasset;
#[cfg(feature = "num")]
use crate::libnum;
#[cfg(feature = "wire")]
use crate::libwire;

fn pool(weights: Vec<(K, u32)>) -> Profile {
    Profile {
        users: (1, 2),
        toks: (1, 2),
        nats: (1, 2),
        pairs: (1, 1),
        ops: (2, 6),
        bits: 125,
        seeded: 100,
        lims: 0,
        weights,
        gated: 0,
        odd: 0,
        eq_dec: false,
        nn: 12,
        lp: 0,
    }
}

fn wide(weights: Vec<(K, u32)>) -> Profile {
    Profile {
        users: (2, 4),
        toks: (2, 4),
        nats: (1, 2),
        pairs: (2, 4),
        ops: (4, 14),
        bits: 110,
        seeded: 90,
        lims: 4,
        weights,
        gated: 20,
        odd: 15,
        eq_dec: false,
        nn: 10,
        lp: 12,
    }
}

/// all kinds of operations
fn mix() -> Vec<(K, u32)> {
    vec![
        (K::Provide, 6),
        (K::Withdraw, 5),
        (K::Swap, 8),
        (K::Route, 5),
        (K::RouterDirect, 1),
        (K::RouterBad, 1),
        (K::RouterInternal, 1),
        (K::Donate, 3),
        (K::Forge, 1),
        (K::WrongSend, 1),
        (K::LpMint, 1),
        (K::LpBurn, 2),
        (K::LpXfer, 1),
        (K::Migrate, 1),
        (K::UpdCfg, 1),
    ]
}

fn world_engine(ctx: &Ctx, acc: &mut Acc, name: &str, cases: u64, pf: Profile) {
    let p = ctx.prop.clone();
    engine(ctx, acc, name, cases, || world::case_strategy(&pf), move |c: &world::Case| world::check(c, &p));
}

fn factory_engine(ctx: &Ctx, acc: &mut Acc, name: &str, cases: u64, pf: FProfile) {
    let p = ctx.prop.clone();
    engine(ctx, acc, name, cases, || factory::fcase(&pf), move |c: &factory::FCase| factory::check(c, &p));
}

fn fprof(bulk: (u8, u8), ops: (usize, usize), weights: Vec<(FK, u32)>) -> FProfile {
    FProfile { toks: (2, 4), nats: (2, 6), bulk, ops, weights }
}

/// None: unknown property. Otherwise the rule by which cases are made and counted.
pub fn run(ctx: &Ctx, acc: &mut Acc) -> Option<&'static str> {
    use K::*;
    Some(match ctx.prop.as_str() {
        "C01" => {
            world_engine(ctx, acc, "pool", 24_000, pool(vec![(Quote, 6), (Swap, 4), (Donate, 1), (Provide, 1), (Withdraw, 1)]));
            world_engine(ctx, acc, "world", 2_500, wide(vec![(Swap, 10), (Route, 3), (Provide, 2), (Withdraw, 2), (Donate, 2), (Quote, 3)]));
            "generated pools (reserves log-uniform up to 125 bits) and histories; non-trivial: at least one swap or quote with a positive output was compared with the exact formula"
        }
        "C02" => {
            world_engine(ctx, acc, "pool", 10_000, pool(vec![(Swap, 8), (Donate, 1), (Provide, 1), (Withdraw, 1)]));
            world_engine(ctx, acc, "world", 5_000, wide(vec![(Swap, 12), (Provide, 2), (Withdraw, 2), (Donate, 2), (LpXfer, 1)]));
            "generated deployments and histories; non-trivial: at least one executed swap with positive output whose effect on every balance and supply was predicted"
        }
        "C03" => {
            world_engine(ctx, acc, "pool", 10_000, pool(vec![(Swap, 8), (Quote, 3), (Donate, 1), (Provide, 1), (Withdraw, 1)]));
            let mut w = wide(vec![(Swap, 10), (Quote, 5), (Route, 1), (Provide, 2), (Withdraw, 2), (Donate, 2), (Migrate, 1)]);
            w.odd = 30;
            world_engine(ctx, acc, "world", 4_000, w);
            "generated pools and histories, each swap simulated right before; non-trivial: at least one executed swap with positive output compared with its simulation"
        }
        "C04" => {
            world_engine(ctx, acc, "pool", 30_000, pool(vec![(RevQuote, 10), (Swap, 1), (Donate, 1), (Provide, 1)]));
            let mut w = wide(vec![(RevQuote, 10), (Swap, 2), (Provide, 1), (Withdraw, 1), (Donate, 1)]);
            w.odd = 20;
            world_engine(ctx, acc, "world", 3_000, w);
            "generated pools and asked amounts; non-trivial: at least one positive amount was quoted and the quote fed back through the exact formula and the simulation"
        }
        "C05" => {
            let mut p = pool(vec![(Provide, 10), (Swap, 1), (Donate, 2), (Withdraw, 1), (LpBurn, 1)]);
            p.seeded = 75;
            world_engine(ctx, acc, "pool", 10_000, p);
            world_engine(ctx, acc, "world", 4_000, wide(vec![(Provide, 12), (Swap, 3), (Donate, 2), (Withdraw, 3), (LpBurn, 1), (Route, 1)]));
            "generated pools, deposits (proportional, skewed, tiny, huge) and histories; non-trivial: at least one well-funded provision whose share fits was predicted"
        }
        "C06" => {
            world_engine(ctx, acc, "pool", 10_000, pool(vec![(Withdraw, 10), (Swap, 2), (Donate, 2), (Provide, 2), (LpXfer, 2), (LpBurn, 1)]));
            world_engine(ctx, acc, "world", 4_000, wide(vec![(Withdraw, 12), (Provide, 4), (Swap, 3), (Donate, 2), (LpXfer, 2), (LpBurn, 1)]));
            "generated pools and histories; non-trivial: at least one executed withdrawal whose payments were bounded and whose other effects were predicted"
        }
        "C07" => {
            let mut solo = pool(vec![(Swap, 10), (Provide, 5), (Withdraw, 5)]);
            solo.users = (1, 1);
            solo.ops = (3, 16);
            solo.bits = 60;
            world_engine(ctx, acc, "solo", 4_000, solo);
            let mut long = wide(vec![(Swap, 12), (Provide, 6), (Withdraw, 6), (Route, 4), (Donate, 2), (LpBurn, 1), (Forge, 1), (LpMint, 1), (WrongSend, 1)]);
            long.ops = (8, 40);
            world_engine(ctx, acc, "history", 1_600, long);
            "histories of up to 40 operations (16 by one user); non-trivial: at least one step changed the reserves or supply of a pair with outstanding tokens"
        }
        "C08" => {
            let mut p = pool(vec![(Provide, 8), (Withdraw, 4), (Donate, 1), (LpBurn, 1)]);
            p.users = (1, 3);
            p.seeded = 40;
            p.gated = 85;
            p.lims = 5;
            p.bits = 100;
            world_engine(ctx, acc, "pool", 9_000, p.clone());
            p.pairs = (2, 3);
            p.toks = (2, 3);
            p.ops = (3, 12);
            world_engine(ctx, acc, "world", 3_000, p);
            "whitelists, minimums, emptied and donated pools; non-trivial: at least one well-funded provision to an empty pool, or by an outsider to a live one"
        }
        "C09" => {
            let mut p = pool(vec![(Provide, 10), (Swap, 1), (Donate, 1), (Withdraw, 1)]);
            p.toks = (1, 3);
            p.nats = (1, 3);
            p.odd = 60;
            p.bits = 100;
            world_engine(ctx, acc, "pool", 8_000, p.clone());
            p.pairs = (2, 3);
            p.odd = 45;
            p.gated = 10;
            world_engine(ctx, acc, "world", 4_000, p);
            "provisions with wrong coins, allowances, assets, orders and receivers; non-trivial: at least one provision judged"
        }
        "C10" => {
            let mut p = pool(vec![(Provide, 10), (Swap, 1), (Donate, 2)]);
            p.lims = 18;
            world_engine(ctx, acc, "pool", 14_000, p);
            let mut w = wide(vec![(Provide, 10), (Swap, 2), (Withdraw, 1), (Donate, 1)]);
            w.lims = 16;
            w.odd = 0;
            world_engine(ctx, acc, "world", 2_000, w);
            "tolerances around the exact deviation of generated deposits; non-trivial: at least one provision with a tolerance on a live pool"
        }
        "C11" => {
            let mut p = pool(vec![(Swap, 10), (Donate, 1), (Provide, 1)]);
            p.lims = 18;
            world_engine(ctx, acc, "pool", 12_000, p.clone());
            p.bits = 75;
            p.toks = (2, 2);
            world_engine(ctx, acc, "moderate", 8_000, p);
            "limits and belief prices around the exact loss of generated swaps, decimals 0..18 on both sides; non-trivial: at least one funded swap with a limit"
        }
        "C12" => {
            let mut w = wide(vec![(Forge, 10), (WrongSend, 8), (Swap, 3), (Withdraw, 3), (Provide, 2), (Donate, 1), (LpXfer, 1)]);
            w.seeded = 100;
            world_engine(ctx, acc, "world", 5_000, w);
            "notifications forged by every account and token contract, hooks sent with the wrong token; non-trivial: at least one such attempt on a pair holding liquidity"
        }
        "C13" => {
            let mut w = wide(mix());
            w.ops = (6, 24);
            world_engine(ctx, acc, "world", 3_500, w);
            "histories over all operations; non-trivial: at least one operation moved balances, or a mint attempt was made"
        }
        "C14" => {
            factory_engine(ctx, acc, "registry", 2_000, fprof((0, 20), (4, 14), vec![(FK::Create, 12), (FK::CreateOdd, 1), (FK::Lookup, 1), (FK::AddNative, 2), (FK::Fund, 1), (FK::UpdCfg, 1), (FK::Migrate, 1)]));
            engine(ctx, acc, "spelling", 6_000, factory::spelling, factory::check_spelling);
            if ctx.replay.is_none() {
                match factory::known_collision() {
                    Ok(Some(m)) => println!("KNOWN-FINDING: property=C14 pair-key-collision: {}", m),
                    Ok(None) => println!("note: the recorded finding pair-key-collision no longer shows"),
                    Err(e) => println!("note: the probe of the finding pair-key-collision could not run: {}", e),
                }
            }
            "registries of up to 20 bulk-created pairs plus generated creations and lookups in both orders, tokens spelled in mixed case; non-trivial: at least one creation or a lookup over several pairs"
        }
        "C15" => {
            factory_engine(
                ctx,
                acc,
                "paging",
                1_200,
                FProfile { toks: (2, 4), nats: (4, 8), bulk: (0, 48), ops: (3, 9), weights: vec![(FK::Page, 8), (FK::Create, 2), (FK::Migrate, 1)] },
            );
            "registries of up to 48 pairs over names sharing prefixes, page limits 0..2^32-1; non-trivial: at least one listing that needed several pages"
        }
        "C16" => {
            factory_engine(ctx, acc, "owner", 4_000, fprof((0, 3), (4, 20), vec![(FK::UpdCfg, 10), (FK::AddNative, 5), (FK::Migrate, 5), (FK::Fund, 2), (FK::Create, 2)]));
            "calls by the owner, former owners, users and contracts; non-trivial: at least one privileged call judged"
        }
        "C17" => {
            factory_engine(ctx, acc, "decimals", 4_000, fprof((0, 4), (5, 20), vec![(FK::Create, 8), (FK::CreateOdd, 3), (FK::AddNative, 6), (FK::Fund, 4), (FK::UpdCfg, 1), (FK::Migrate, 1)]));
            "registrations (funded or not, repeated with other decimals) and creations over tokens and natives; non-trivial: a registration, or a creation over unequal or missing decimals"
        }
        "C18" => {
            factory_engine(ctx, acc, "migrate", 2_500, fprof((1, 5), (4, 16), vec![(FK::Migrate, 10), (FK::Use, 5), (FK::UpdCfg, 5), (FK::Create, 3), (FK::AddNative, 4), (FK::Fund, 1)]));
            let mut w = wide(vec![(Migrate, 8), (Swap, 5), (Provide, 4), (Withdraw, 3), (Donate, 1), (UpdCfg, 3), (Route, 1)]);
            w.odd = 5;
            world_engine(ctx, acc, "world", 1_500, w.clone());
            engine(ctx, acc, "twin", 1_200, || world::case_strategy(&w), |c: &world::Case| world::check_twin(c, world::K::Migrate));
            "migrations between two pair codes in the middle of generated histories; a second deployment runs the same history without the migrations; non-trivial: at least one migration ordered by the owner or one creation"
        }
        "C19" => {
            let mut w = wide(vec![(Route, 12), (RouterDirect, 3), (Donate, 3), (Swap, 2), (Provide, 2), (Withdraw, 1)]);
            w.toks = (3, 5);
            w.pairs = (3, 5);
            w.seeded = 95;
            w.lims = 2;
            world_engine(ctx, acc, "routes", 5_000, w);
            "routes of 0..6 hops over generated pair graphs, router holdings, odd recipients; non-trivial: at least one completed route whose effect on every balance was predicted"
        }
        "C20" => {
            let mut w = wide(vec![(Route, 12), (RouterDirect, 3), (Donate, 3), (Swap, 2), (Provide, 1)]);
            w.toks = (3, 5);
            w.pairs = (3, 4);
            w.seeded = 97;
            w.lims = 16;
            w.odd = 8;
            world_engine(ctx, acc, "routes", 5_000, w);
            "minimums around the exact output of generated routes; non-trivial: at least one route with a minimum was judged against the measured rise of the recipient"
        }
        "C21" => {
            let mut w = wide(vec![(RouterInternal, 8), (RouterBad, 8), (Route, 4), (Donate, 5), (RouterDirect, 1)]);
            w.toks = (3, 4);
            w.pairs = (3, 4);
            world_engine(ctx, acc, "router", 5_000, w);
            "single hops by every account, empty and forked routes, other messages; non-trivial: at least one such call (single hops: with router holdings to lose)"
        }
        "C22" => {
            let mut w = wide(vec![(RouteQuote, 12), (Route, 5), (Swap, 1), (Donate, 1), (Provide, 1)]);
            w.toks = (3, 5);
            w.pairs = (3, 5);
            w.seeded = 97;
            w.lims = 0;
            w.odd = 25;
            world_engine(ctx, acc, "quotes", 5_000, w);
            "forward and reverse quotes of 0..6 hops (natives included), and executed routes; non-trivial: at least one positive quote compared with the fold over the pairs"
        }
        "C23" => {
            engine(ctx, acc, "ledger", 8_000, || token::ledger(30), token::check_ledger);
            "histories of up to 30 token operations with block time advancing; non-trivial: at least one accepted operation with a positive amount"
        }
        "C36" => {
            let neutral = |ctx: &Ctx, acc: &mut Acc, name: &str, cases: u64, pf: Profile| {
                engine(ctx, acc, name, cases, || proptest::strategy::Strategy::boxed((world::case_strategy(&pf), proptest::arbitrary::any::<u64>())), |c: &(world::Case, u64)| world::check_neutral(&c.0, c.1))
            };
            let mut p = pool(vec![(Quote, 2), (RevQuote, 2), (Swap, 5), (Provide, 4), (Withdraw, 2), (Donate, 1)]);
            p.seeded = 75;
            p.lims = 12;
            p.gated = 40;
            neutral(ctx, acc, "pool", 4_000, p);
            let mut w = wide(vec![(Provide, 6), (Withdraw, 3), (Swap, 7), (Route, 4), (Quote, 2), (RevQuote, 2), (RouteQuote, 2), (Donate, 2), (LpXfer, 1), (LpBurn, 1), (RouterDirect, 1), (WrongSend, 1), (Upgrade, 1)]);
            w.gated = 40;
            w.seeded = 80;
            w.lims = 10;
            neutral(ctx, acc, "world", 1_500, w);
            // nothing but amounts, reserves, supply and decimals counts: what else a contract may have noted is erased
            let mut m = wide(mix());
            m.weights.push((Rewrite, 10));
            engine(ctx, acc, "memory", 700, || world::case_strategy(&m), |c: &world::Case| world::check_twin(c, world::K::Rewrite));
            "generated deployments and histories, run again with other users, coins, token addresses and listing orders, or with everything but the documented state erased in between; non-trivial: at least one call or quote after the set-up was answered"
        }
        "C37" => {
            let mut w = wide(vec![(Provide, 5), (Withdraw, 3), (Swap, 7), (Quote, 2), (RevQuote, 2), (Donate, 2), (LpXfer, 1), (LpBurn, 1), (RouteQuote, 1), (Migrate, 1), (UpdCfg, 1), (Upgrade, 1)]);
            w.gated = 25;
            w.seeded = 85;
            w.ops = (6, 24);
            w.lims = 6;
            w.pairs = (1, 4);
            engine(ctx, acc, "apart", 2_500, || world::case_strategy(&w), |c: &world::Case| world::check_apart(c));
            "generated deployments; a history at one pair with and without what another user, the owner and the chain do elsewhere; non-trivial: at least one accepted call at the pair and one operation elsewhere"
        }
        "C35" => {
            engine(ctx, acc, "reference", 3_000, || token::reference(24), token::check_reference);
            "the same messages and queries, as JSON, to the token and to the reference contract on two identical chains; non-trivial: at least two accepted messages"
        }
        "C24" => {
            engine(ctx, acc, "metadata", 60_000, token::meta, token::check_meta);
            "token metadata, holders and caps around the limits; non-trivial: valid, or invalid for exactly one reason"
        }
        #[cfg(feature = "num")]
        "C25" => {
            engine(ctx, acc, "arith", 2_000_000, libnum::arith, libnum::check_arith);
            "operations and operands at word and overflow boundaries; non-trivial: no zero operand (comparison: different operands)"
        }
        #[cfg(feature = "num")]
        "C26" => {
            engine(ctx, acc, "text", 1_200_000, libnum::text, libnum::check_text);
            "256-bit values and texts (digits, dots, separators, out of range); non-trivial: a value above 9, or a text longer than one character"
        }
        #[cfg(feature = "asset")]
        "C27" => {
            engine(ctx, acc, "asset", 400_000, libasset::asset_case, libasset::check_asset);
            "assets with equal, near and kind-swapped names, ledgers answering by name, coins around the declared amount; non-trivial: names with a canonical form and a positive amount"
        }
        "C28" => {
            let mut w = wide(mix());
            w.seeded = 97;
            w.ops = (5, 18);
            world_engine(ctx, acc, "world", 3_000, w);
            factory_engine(ctx, acc, "registry", 800, fprof((0, 8), (3, 10), vec![(FK::Create, 6), (FK::Lookup, 2), (FK::AddNative, 3), (FK::Migrate, 3), (FK::Fund, 1)]));
            "histories over all operations, records and pool queries read after each; non-trivial: at least one pool query over unequal positive reserves compared with the ledgers"
        }
        "C29" => {
            let f = fprof((0, 40), (4, 16), vec![(FK::Upgrade, 6), (FK::Create, 6), (FK::AddNative, 4), (FK::UpdCfg, 4), (FK::Migrate, 3), (FK::Page, 2), (FK::Fund, 1), (FK::Use, 2)]);
            factory_engine(ctx, acc, "registry", 700, f.clone());
            engine(ctx, acc, "registry-twin", 700, || factory::fcase(&f), |c: &factory::FCase| factory::check_twin(c, FK::Upgrade));
            let mut w = wide(mix());
            w.weights.push((Upgrade, 10));
            world_engine(ctx, acc, "world", 1_000, w.clone());
            engine(ctx, acc, "twin", 1_500, || world::case_strategy(&w), |c: &world::Case| world::check_twin(c, world::K::Upgrade));
            "migrations of factory and router by the chain admin in the middle of generated histories; a second deployment runs the same history without them; non-trivial: at least one such migration, in the twins followed by another operation"
        }
        "C38" => {
            let mut w = wide(mix());
            w.weights.extend([(Provide, 8), (LpXfer, 1), (Seize, 1), (Upgrade, 1)]);
            w.odd = 25;
            w.ops = (5, 18);
            world_engine(ctx, acc, "world", 3_000, w);
            "histories over all operations, also by agents of the owners; every spending right of every account over every token read after each; non-trivial: a contract held tokens at some such point"
        }
        "C30" => {
            let mut w = wide(mix());
            w.weights.extend([(Seize, 25), (Upgrade, 1)]);
            world_engine(ctx, acc, "world", 3_000, w);
            factory_engine(ctx, acc, "registry", 1_500, fprof((0, 4), (4, 14), vec![(FK::Create, 10), (FK::UpdCfg, 4), (FK::Migrate, 4), (FK::AddNative, 1), (FK::Use, 2)]));
            "attempts by every account to migrate, take over or mint, in the middle of generated histories; non-trivial: at least one such attempt, or a creation"
        }
        "C31" => {
            world_engine(ctx, acc, "pool", 6_000, pool(vec![(Provide, 5), (Swap, 6), (Withdraw, 5), (Donate, 1)]));
            let mut w = wide(vec![(Provide, 6), (Swap, 8), (Withdraw, 5), (Route, 6), (Donate, 2), (LpXfer, 1), (Migrate, 1)]);
            w.odd = 25;
            world_engine(ctx, acc, "world", 4_000, w);
            factory_engine(ctx, acc, "registry", 1_000, fprof((0, 4), (3, 10), vec![(FK::Create, 10), (FK::UpdCfg, 2), (FK::AddNative, 1)]));
            "histories of provisions, withdrawals, direct and routed swaps and creations; non-trivial: at least one accepted operation whose report was compared with its measured effect"
        }
        "C33" => {
            let mut w = wide(mix());
            w.weights.extend([(Seize, 2), (Upgrade, 1), (LpXfer, 3), (Provide, 5)]);
            world_engine(ctx, acc, "world", 3_000, w);
            let mut p = pool(vec![(Provide, 5), (Swap, 5), (Donate, 4), (Withdraw, 2), (LpXfer, 3), (LpBurn, 1), (Migrate, 1), (UpdCfg, 1)]);
            p.users = (2, 4);
            world_engine(ctx, acc, "pool", 5_000, p);
            "histories over all operations, then every holder of pool tokens leaves, in turn; non-trivial: at least one holder left after other operations"
        }
        "C34" => {
            let f = fprof((0, 30), (3, 12), vec![(FK::Rewrite, 6), (FK::Create, 6), (FK::AddNative, 4), (FK::UpdCfg, 4), (FK::Migrate, 3), (FK::Page, 2), (FK::Fund, 1), (FK::Use, 2), (FK::Upgrade, 1)]);
            engine(ctx, acc, "registry-twin", 300, || factory::fcase(&f), |c: &factory::FCase| factory::check_twin(c, FK::Rewrite));
            factory_engine(ctx, acc, "registry", 250, f);
            let mut w = wide(mix());
            w.weights.push((Rewrite, 10));
            engine(ctx, acc, "twin", 1_500, || world::case_strategy(&w), |c: &world::Case| world::check_twin(c, world::K::Rewrite));
            world_engine(ctx, acc, "world", 600, w);
            "stored state rewritten in the released layout in the middle of generated histories; a second deployment runs the same history untouched; non-trivial: at least one rewriting, in the twins followed by another operation"
        }
        #[cfg(feature = "wire")]
        "C32" => {
            engine(ctx, acc, "wire", 400_000, libwire::wire, libwire::check_wire);
            "every message, query and answer with generated contents, optional parts absent, null or given, keys in any order, and spoilt variants; non-trivial: the message has contents"
        }
        _ => return None,
    })
}
