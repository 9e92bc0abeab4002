//! Stateful engine: generated deployments and operation histories on a real multi-contract chain.
//! Every operation is judged against predictions computed from the observed state before it.
//! Divergences carry the property they break; only those of the property under check are kept.
use crate::big::B;
use crate::chain::*;
use crate::run::Outcome;
use crate::spec::{self, SwapQ, Verdict};
use cosmwasm_std::{Addr, Decimal, Uint128};
use cw20::{Cw20ExecuteMsg, Cw20ReceiveMsg};
use haloswap::asset::{Asset, AssetInfo, CreatePairRequirements, PairInfo};
use haloswap::pair::{
    Cw20HookMsg as PairHook, ExecuteMsg as PairExec, PoolResponse, QueryMsg as PairQuery,
    ReverseSimulationResponse, SimulationResponse,
};
use haloswap::router::{
    Cw20HookMsg as RouterHook, ExecuteMsg as RouterExec, QueryMsg as RouterQuery, SimulateSwapOperationsResponse,
    SwapOperation,
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Clone, Debug, Hash, PartialEq)]
pub enum Amt {
    Abs(u128),
    /// parts per million of the actor's balance
    Bal(u32),
    /// parts per million of the reserve (or supply)
    Pool(u32),
    /// balance plus k
    BalPlus(i8),
    /// not clamped to the balance
    Over(u128),
    /// some balance, reserve or supply of the deployment, plus k, at most the balance
    Cell(u16, i8),
}

#[derive(Serialize, Deserialize, Clone, Debug, Hash, PartialEq)]
pub enum Lim {
    None,
    Raw(u128),
    /// the measured ratio plus k units of 1e-18
    At(i32),
    /// the measured ratio times ppm/1e6
    AtPpm(u32),
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, Hash, PartialEq, Eq)]
pub enum K {
    Provide,
    Withdraw,
    Swap,
    Quote,
    RevQuote,
    Route,
    RouteQuote,
    RouterBad,
    RouterInternal,
    RouterDirect,
    Donate,
    Forge,
    WrongSend,
    LpMint,
    LpBurn,
    LpXfer,
    Migrate,
    UpdCfg,
    /// the chain admin migrates factory or router
    Upgrade,
    /// attempts to take over a pair or its pool token
    Seize,
    /// the stored state is rewritten as the released version writes it
    Rewrite,
}

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub struct Op {
    pub k: K,
    pub u: u8,
    pub p: u8,
    pub side: bool,
    pub x: u8,
    pub y: u8,
    pub fl: u16,
    pub amt: [Amt; 2],
    pub lim: Lim,
    pub bel: Lim,
    pub to: Option<u8>,
    pub list: Vec<u8>,
}

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub struct PairCfg {
    pub a: u8,
    pub b: u8,
    pub wl: u8,
    /// other entries of the whitelist (low 6 bits) and where they stand (top bits)
    #[serde(default)]
    pub decoys: u8,
    pub min: [u128; 2],
    /// first provision by the owner (who is then whitelisted)
    pub seed: Option<[u128; 2]>,
    /// extra reserves donated right after the seed
    pub extra: [u128; 2],
}

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub struct Cfg {
    pub users: u8,
    pub tok_dec: Vec<u8>,
    pub nat_dec: Vec<u8>,
    pub den: Vec<String>,
    pub bal: Vec<u128>,
    pub pairs: Vec<PairCfg>,
}

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub struct Case {
    pub cfg: Cfg,
    pub ops: Vec<Op>,
}

// ---------------------------------------------------------------- strategies

pub fn mag(lo: u32, hi: u32) -> BoxedStrategy<u128> {
    (lo..=hi, any::<u128>())
        .prop_map(|(b, m)| {
            if b == 0 {
                0
            } else {
                let top = 1u128 << (b - 1);
                top | (m & (top - 1))
            }
        })
        .boxed()
}

/// log-uniform, with round numbers and powers of two mixed in
pub fn amount(hi: u32) -> BoxedStrategy<u128> {
    prop_oneof![
        6 => mag(0, hi),
        1 => (0u32..hi, 0u32..3).prop_map(|(b, d)| ((1u128 << b) - 1).saturating_add(d as u128)),
        1 => (0u32..(hi * 3 / 10), 1u128..10).prop_map(|(e, m)| m * 10u128.pow(e)),
        1 => 0u128..20,
        1 => crate::dict::num(hi),
    ]
    .boxed()
}

pub fn amt_strategy() -> BoxedStrategy<Amt> {
    prop_oneof![
        3 => amount(120).prop_map(Amt::Abs),
        3 => (0u32..=1_000_000).prop_map(Amt::Bal),
        5 => prop_oneof![0u32..100_000, 0u32..3_000_000, Just(1_000_000u32)].prop_map(Amt::Pool),
        1 => prop_oneof![Just(0i8), Just(1), Just(-1)].prop_map(Amt::BalPlus),
        1 => (any::<u16>(), -1i8..=1).prop_map(|(i, k)| Amt::Cell(i, k)),
        1 => prop::sample::select(vec![500_000u32, 333_333, 250_000, 1_000_000, 2_000_000]).prop_map(Amt::Pool),
    ]
    .boxed()
}

pub fn any_amt() -> BoxedStrategy<Amt> {
    prop_oneof![12 => amt_strategy(), 1 => amount(128).prop_map(Amt::Over)].boxed()
}

fn lim_strategy(on: u32) -> BoxedStrategy<Lim> {
    let e18 = 1_000_000_000_000_000_000u128;
    prop_oneof![
        (20 - on.min(19)) => Just(Lim::None),
        on => prop_oneof![
            2 => (-40i32..40).prop_map(Lim::At),
            3 => (900_000u32..1_100_000).prop_map(Lim::AtPpm),
            2 => (0u32..3_000_000).prop_map(Lim::AtPpm),
            1 => prop_oneof![Just(0u128), Just(1), Just(e18), Just(e18 - 1), Just(e18 + 1), Just(e18 / 2), Just(e18 / 100)].prop_map(Lim::Raw),
            2 => (0u128..e18).prop_map(Lim::Raw),
            1 => mag(0, 128).prop_map(Lim::Raw),
        ],
    ]
    .boxed()
}

/// two deposits: independent, equal, almost equal, or of a given ratio
fn seed_amounts(bits: u32) -> BoxedStrategy<[u128; 2]> {
    prop_oneof![
        8 => [amount(bits), amount(bits)],
        1 => amount(bits).prop_map(|a| [a, a]),
        1 => (amount(bits), 0u128..3).prop_map(|(a, d)| [a, a.saturating_add(d)]),
        1 => (amount(bits.saturating_sub(14).max(2)), 1u128..10_000, any::<bool>()).prop_map(|(a, k, s)| if s { [a, a * k] } else { [a * k, a] }),
    ]
    .boxed()
}

#[derive(Clone)]
pub struct Profile {
    pub users: (u8, u8),
    pub toks: (usize, usize),
    pub nats: (usize, usize),
    pub pairs: (usize, usize),
    pub ops: (usize, usize),
    pub bits: u32,
    /// percentage of pairs seeded
    pub seeded: u32,
    /// chance (of 20) of limits
    pub lims: u32,
    pub weights: Vec<(K, u32)>,
    /// how often whitelist/minimum matter (percent)
    pub gated: u32,
    /// chance (percent) that flags deviate from a well-formed call
    pub odd: u32,
    pub eq_dec: bool,
    /// chance (percent) of a pair of two native coins where the choice falls on them
    pub nn: u32,
    /// chance (percent) of a pair trading the pool token of an earlier pair
    pub lp: u32,
}

pub fn case_strategy(pf: &Profile) -> BoxedStrategy<Case> {
    let pf = pf.clone();
    let pf2 = pf.clone();
    let cfg = (
        pf.users.0..=pf.users.1,
        pf.toks.0..=pf.toks.1,
        pf.nats.0..=pf.nats.1,
        pf.pairs.0..=pf.pairs.1,
    )
        .prop_flat_map(move |(users, t, n, np)| {
            let pf = pf.clone();
            let dec = if pf.eq_dec {
                Just(6u8).boxed()
            } else {
                prop_oneof![2 => Just(6u8), 2 => Just(18u8), 1 => Just(8u8), 3 => 0u8..=18].boxed()
            };
            let nat = if pf.eq_dec { dec.clone() } else { prop_oneof![8 => dec.clone(), 1 => 19u8..=40].boxed() };
            let nd = t + n;
            let bits = pf.bits;
            let (nn, lpp) = (pf.nn, pf.lp);
            let one = move |_| {
                (
                    0u8..nd as u8,
                    0u8..nd as u8,
                    (prop_oneof![3 => Just(0xffu8), 2 => any::<u8>()], prop_oneof![3 => Just(0u8), 1 => any::<u8>()]),
                    prop_oneof![3 => Just([0u128, 0]), 2 => [amount(70), amount(70)]],
                    0u32..100,
                    seed_amounts(bits),
                    prop_oneof![
                        1 => Just([0u128, 0]).boxed(),
                        1 => [prop_oneof![Just(0u128).boxed(), amount(bits)], prop_oneof![Just(0u128).boxed(), amount(bits)]].boxed(),
                    ],
                    0u32..100,
                    (0u32..100, 0u32..100, any::<u8>()),
                )
            };
            let pairs: Vec<_> = (0..np).map(one).collect();
            (
                Just(users),
                prop::collection::vec(dec.clone(), t),
                prop::collection::vec(nat, n),
                prop::collection::vec(prop::option::weighted(0.25, prop_oneof![3 => crate::dict::denom(), 2 => prop::sample::select(vec!["contract2".to_string(), "contract3".to_string(), "contract5".to_string()])]), n),
                prop::collection::vec(prop_oneof![2 => mag(bits.saturating_sub(10).max(1), bits), 1 => mag(20.min(bits), bits)], nd),
                pairs,
            )
                .prop_map(move |(users, tok_dec, nat_dec, words, bal, pairs)| {
                    // names that contain each other or differ in case only, now and then a literal of the code
                    let names = ["unat0", "ibc/unat0", "unat", "UNAT0"];
                    let mut den: Vec<String> = vec![];
                    for (i, w) in words.into_iter().enumerate() {
                        let fixed = names[i % 4].to_string() + if i > 3 { "x" } else { "" };
                        den.push(w.filter(|w| !den.contains(w) && !names.contains(&w.as_str())).unwrap_or(fixed));
                    }
                    let pairs = pairs
                        .into_iter()
                        .map(|(a, b, (wl, decoys), min, sd, seed, extra, g, (nr, lr, lx))| {
                            // a native/native pair cannot be traded: mostly pull the second asset towards a token
                            let b = if b == a { (a + 1) % nd as u8 } else { b };
                            let both = (a as usize) >= t && (b as usize) >= t;
                            let (a, b) = if n >= 2 && nr < nn {
                                let i = a % n as u8;
                                let j = (i + 1 + b % (n as u8 - 1)) % n as u8;
                                (t as u8 + i, t as u8 + j)
                            } else if both {
                                (a, b % t as u8)
                            } else {
                                (a, b)
                            };
                            let (a, b) = match (lr < lpp, lx & 1) {
                                (false, _) => (a, b),
                                (_, 0) => (a, nd as u8 + lx / 2),
                                _ => (nd as u8 + lx / 2, b),
                            };
                            let gated = g < pf.gated;
                            PairCfg {
                                a,
                                b,
                                wl: if gated { wl } else { 0xff },
                                decoys: if gated { decoys } else { 0 },
                                min: if gated { min } else { [0, 0] },
                                seed: if sd < pf.seeded { Some(seed) } else { None },
                                extra,
                            }
                        })
                        .collect();
                    Cfg { users, tok_dec, nat_dec, den, bal, pairs }
                })
        });
    let kinds: Vec<(u32, BoxedStrategy<K>)> = pf2.weights.iter().map(|(k, w)| (*w, Just(*k).boxed())).collect();
    let odd = pf2.odd;
    let op = (
        (proptest::strategy::Union::new_weighted(kinds), any::<u8>(), any::<u8>(), any::<bool>(), any::<u8>(), any::<u8>()),
        (0u32..100, any::<u16>()).prop_map(move |(o, f)| if o < odd { f } else { f & 0x00ff }),
        [any_amt(), any_amt()],
        lim_strategy(pf2.lims),
        lim_strategy(pf2.lims / 2),
        prop::option::weighted(0.4, any::<u8>()),
        prop_oneof![9 => prop::collection::vec(any::<u8>(), 1..6), 1 => prop::collection::vec(any::<u8>(), 6..16)],
    )
        .prop_map(|((k, u, p, side, x, y), fl, amt, lim, bel, to, list)| Op { k, u, p, side, x, y, fl, amt, lim, bel, to, list });
    (cfg, prop::collection::vec(op, pf2.ops.0..=pf2.ops.1)).prop_map(|(cfg, ops)| Case { cfg, ops }).boxed()
}

// ---------------------------------------------------------------- the world

#[derive(Clone, PartialEq, Debug)]
struct Snap {
    bal: Vec<u128>,
    sup: Vec<u128>,
}

#[derive(Default)]
struct Delta {
    cells: BTreeMap<(usize, usize), (B_, B_)>,
}
type B_ = Bz;
#[derive(Clone, Copy)]
struct Bz(B);
impl Default for Bz {
    fn default() -> Self {
        Bz(B::ZERO)
    }
}
impl Delta {
    fn add(&mut self, acc: usize, asset: usize, a: u128) {
        let c = self.cells.entry((acc, asset)).or_default();
        c.0 = Bz(c.0 .0 + B::new(a));
    }
    fn sub(&mut self, acc: usize, asset: usize, a: u128) {
        let c = self.cells.entry((acc, asset)).or_default();
        c.1 = Bz(c.1 .0 + B::new(a));
    }
}

struct PairW {
    a: [usize; 2],
    addr: String,
    lp: String,
    lp_ix: usize,
    acc: usize,
    info: PairInfo,
    code: u64,
}

pub struct World {
    ch: Chain,
    want: String,
    cfg: Cfg,
    infos: Vec<AssetInfo>,
    dec: Vec<u8>,
    accs: Vec<String>,
    nusers: usize,
    router: usize,
    pairs: Vec<PairW>,
    snap: Snap,
    owner: String,
    cfg_codes: (u64, u64),
    fail: Option<String>,
    trace: Vec<String>,
    hits: u32,
    labels: BTreeMap<&'static str, u32>,
    solo: Option<(Vec<u128>, u128, u128)>,
    /// who sends the tokens of the present operation on their owner's behalf
    agent: Option<usize>,
    /// spending rights given by users: (owner, token, spender)
    rights: BTreeMap<(usize, String, String), u128>,
    /// answers to the quotes of a history that is compared with its twin
    notes: std::cell::RefCell<Vec<String>>,
}

/// Another way to name and list the same deployment.
#[derive(Default)]
pub struct Names {
    users: Vec<String>,
    den: Vec<String>,
    /// contracts created before the tokens
    pad: u8,
    /// pairs whose assets are listed the other way round
    flip: u64,
    /// whitelists in reverse order
    rev: bool,
    /// seeded pairs: only the seeding account is on the whitelist (to be compared while the pools are not empty)
    bare: bool,
}

fn dec18(raw: u128) -> Decimal {
    Decimal::new(Uint128::new(raw))
}

const E18: u128 = 1_000_000_000_000_000_000;

impl World {
    fn want(&self, t: &str) -> bool {
        self.want == t
    }
    fn diverge(&mut self, t: &str, m: impl Into<String>) {
        if self.want == t && self.fail.is_none() {
            self.fail = Some(m.into());
        }
    }
    fn hit(&mut self, t: &str) {
        if self.want == t {
            self.hits += 1;
        }
    }
    fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_default() += 1;
    }

    fn na(&self) -> usize {
        self.infos.len()
    }
    fn b(&self, acc: usize, asset: usize) -> u128 {
        self.snap.bal[acc * self.na() + asset]
    }
    fn reserves(&self, p: usize) -> [u128; 2] {
        let pr = &self.pairs[p];
        [self.b(pr.acc, pr.a[0]), self.b(pr.acc, pr.a[1])]
    }
    fn lp_supply(&self, p: usize) -> u128 {
        self.snap.sup[self.pairs[p].lp_ix]
    }

    fn take(&self) -> Result<Snap, String> {
        let mut bal = Vec::with_capacity(self.accs.len() * self.na());
        for acc in &self.accs {
            for i in &self.infos {
                bal.push(self.ch.balance(i, acc)?);
            }
        }
        let mut sup = vec![];
        for (ix, i) in self.infos.iter().enumerate() {
            sup.push(match i {
                AssetInfo::Token { contract_addr } => self.ch.supply(contract_addr)?,
                AssetInfo::NativeToken { .. } => {
                    let mut t = 0u128;
                    for a in 0..self.accs.len() {
                        t = t.saturating_add(bal[a * self.na() + ix]);
                    }
                    t
                }
            });
        }
        Ok(Snap { bal, sup })
    }

    /// Builds the deployment. Err((property, message)) when the contracts refuse a legitimate set-up.
    pub fn new(cfg: &Cfg, want: &str) -> Result<World, (&'static str, String)> {
        let users = std::iter::once(OWNER.to_string()).chain((0..cfg.users).map(|i| format!("user{}", i))).collect();
        World::named(cfg, want, &Names { users, den: cfg.den.clone(), ..Names::default() })
    }

    /// The first account provides the seeds; `OWNER` owns the factory and creates tokens and pairs.
    pub fn named(cfg: &Cfg, want: &str, names: &Names) -> Result<World, (&'static str, String)> {
        let nusers = cfg.users as usize + 1;
        let users = names.users.clone();
        let t = cfg.tok_dec.len();
        let denoms = names.den.clone();
        let natives: Vec<(String, Vec<cosmwasm_std::Coin>)> = users
            .iter()
            .map(|u| (u.clone(), denoms.iter().enumerate().map(|(i, d)| coin(d, cfg.bal[t + i])).collect::<Vec<_>>()))
            .collect();
        let mut ch = Chain::new(&natives).map_err(|e| ("C16", format!("set-up of factory and router failed: {}", e)))?;
        // the factory must hold some of every native coin
        let f = ch.factory.clone();
        let f_coins: Vec<_> = denoms.iter().map(|d| coin(d, 7)).collect();
        ch.set_natives(&f, f_coins);
        for (i, d) in denoms.iter().enumerate() {
            ch.add_native(OWNER, d, cfg.nat_dec[i]).map_err(|e| ("C17", format!("registering native decimals failed: {}", e)))?;
        }
        let mut infos = vec![];
        for i in 0..names.pad {
            ch.new_token(&format!("other{}", i), 6, vec![], None).map_err(|e| ("C24", format!("creating a token failed: {}", e)))?;
        }
        for (i, d) in cfg.tok_dec.iter().enumerate() {
            let a = ch
                .new_token(&format!("token{}", i), *d, users.iter().map(|u| (u.clone(), cfg.bal[i])).collect(), Some(OWNER))
                .map_err(|e| ("C24", format!("creating a token failed: {}", e)))?;
            infos.push(token_info(&a));
        }
        for d in &denoms {
            infos.push(native_info(d));
        }
        let mut dec = cfg.tok_dec.clone();
        dec.extend(&cfg.nat_dec);
        let mut accs = users.clone();
        accs.push(ch.router.clone());
        accs.push(ch.factory.clone());
        if let Some(AssetInfo::Token { contract_addr }) = infos.first() {
            accs.push(contract_addr.clone());
        }
        let router = nusers;
        let nbase = infos.len();
        let mut pairs: Vec<PairW> = vec![];
        let mut seeds = vec![];
        for pc in &cfg.pairs {
            let pick = |x: u8| {
                let x = x as usize;
                if x < nbase || pairs.is_empty() {
                    x
                } else {
                    nbase + (x - nbase) % pairs.len()
                }
            };
            let ab = [pick(pc.a), pick(pc.b)];
            if ab[0] == ab[1] || ab[0] >= nbase + pairs.len() || ab[1] >= nbase + pairs.len() {
                continue;
            }
            if pairs.iter().any(|p| (p.a[0] == ab[0] && p.a[1] == ab[1]) || (p.a[0] == ab[1] && p.a[1] == ab[0])) {
                continue;
            }
            let mut whitelist: Vec<Addr> =
                users.iter().enumerate().skip(1).filter(|(i, _)| pc.wl >> (i % 8) & 1 == 1).map(|(_, u)| Addr::unchecked(u)).collect();
            if pc.seed.is_some() || pc.wl & 1 == 1 {
                whitelist.push(Addr::unchecked(&users[0]));
            }
            if pc.decoys > 0 {
                // strangers, some of them named much like the users
                let d: Vec<Addr> = (0..pc.decoys & 63)
                    .map(|i| match i % 4 {
                        0 => format!("stranger{}", i),
                        1 => format!("user{}0", i / 4),
                        2 => format!("xuser{}", i / 4),
                        _ => format!("user1{}", i / 4),
                    })
                    .map(Addr::unchecked)
                    .collect();
                let at = match pc.decoys >> 6 {
                    0 => 0,
                    1 => d.len(),
                    _ => d.len() / 2,
                };
                let (x, y) = d.split_at(at);
                whitelist = [x, &whitelist, y].concat();
            }
            if names.bare && pc.seed.is_some() {
                whitelist = vec![Addr::unchecked(&users[0])];
            }
            if names.rev {
                whitelist.reverse();
            }
            let flip = names.flip >> (pairs.len() % 64) & 1 == 1;
            let (x, y) = if flip { (1, 0) } else { (0, 1) };
            let req = CreatePairRequirements {
                whitelist,
                first_asset_minimum: Uint128::new(pc.min[x]),
                second_asset_minimum: Uint128::new(pc.min[y]),
            };
            let ai = [infos[ab[x]].clone(), infos[ab[y]].clone()];
            ch.create_pair(OWNER, &ai, &req).map_err(|e| ("C14", format!("creating a new pair failed: {}", e)))?;
            let pi = ch.factory_pair(&ai).map_err(|e| ("C14", format!("a created pair is not found: {}", e)))?;
            let own: PairInfo = ch
                .query(&pi.contract_addr, &PairQuery::Pair {})
                .map_err(|e| ("C14", format!("a created pair does not answer: {}", e)))?;
            let expect = PairInfo {
                asset_infos: ai.clone(),
                contract_addr: pi.contract_addr.clone(),
                liquidity_token: own.liquidity_token.clone(),
                asset_decimals: [dec[ab[x]], dec[ab[y]]],
                requirements: req,
            };
            if own.asset_decimals != expect.asset_decimals {
                return Err(("C17", format!("pair records decimals {:?}, assets have {:?}", own.asset_decimals, expect.asset_decimals)));
            }
            if own != expect {
                return Err(("C28", format!("a new pair reports {:?}, created as {:?}", own, expect)));
            }
            // from here on in the order of the case
            let mut expect = expect;
            if flip {
                expect.asset_infos.reverse();
                expect.asset_decimals.reverse();
                let r = &mut expect.requirements;
                std::mem::swap(&mut r.first_asset_minimum, &mut r.second_asset_minimum);
            }
            infos.push(token_info(&own.liquidity_token));
            dec.push(6);
            accs.push(pi.contract_addr.clone());
            pairs.push(PairW {
                a: ab,
                addr: pi.contract_addr.clone(),
                lp: own.liquidity_token.clone(),
                lp_ix: infos.len() - 1,
                acc: accs.len() - 1,
                info: expect,
                code: ch.codes.pair,
            });
            if pairs.len() == 1 {
                accs.push(own.liquidity_token.clone());
            }
            seeds.push((pc.seed, pc.extra));
        }
        let cc = (ch.codes.pair, ch.codes.token);
        let mut w = World {
            ch,
            want: want.to_string(),
            cfg: cfg.clone(),
            infos,
            dec,
            accs,
            nusers,
            router,
            pairs,
            snap: Snap { bal: vec![], sup: vec![] },
            owner: OWNER.to_string(),
            cfg_codes: cc,
            fail: None,
            trace: vec![],
            hits: 0,
            labels: BTreeMap::new(),
            solo: None,
            agent: None,
            rights: BTreeMap::new(),
            notes: Default::default(),
        };
        w.snap = w.take().map_err(|e| ("C13", format!("balances cannot be read: {}", e)))?;
        for (i, (s, x)) in seeds.into_iter().enumerate() {
            if let Some(s) = s {
                let min = [w.pairs[i].info.requirements.first_asset_minimum.u128(), w.pairs[i].info.requirements.second_asset_minimum.u128()];
                let f = |v: u128, m: u128, bal: u128| v.max(m).max(1).min(bal);
                let s = [f(s[0], min[0], w.b(0, w.pairs[i].a[0])), f(s[1], min[1], w.b(0, w.pairs[i].a[1]))];
                w.provide(0, i, s, false, None, None, 0, 0);
                for j in 0..2 {
                    let ix = w.pairs[i].a[j];
                    let a = x[j].min(w.b(0, ix));
                    if a > 0 {
                        let acc = w.pairs[i].acc;
                        w.transfer(0, acc, ix, a);
                    }
                }
            }
        }
        if w.pairs.len() == 1 && w.cfg.users == 1 {
            let own = (0..w.na()).map(|x| w.b(1, x)).collect();
            let lp = w.pairs[0].lp_ix;
            w.solo = Some((own, w.b(1, lp), w.snap.sup[lp]));
        }
        Ok(w)
    }

    // ------------------------------------------------------------ helpers

    fn resolve(&self, a: &Amt, bal: u128, pool: u128) -> u128 {
        let ppm = |v: u128, p: u32| (B::new(v) * B::new(p as u128)).div(&B::new(1_000_000)).u128().unwrap_or(u128::MAX);
        match a {
            Amt::Abs(v) => {
                if *v > bal && bal < u128::MAX {
                    v % (bal + 1)
                } else {
                    *v
                }
            }
            Amt::Bal(p) => ppm(bal, *p),
            Amt::Pool(p) => ppm(pool, *p).min(bal),
            Amt::BalPlus(k) => {
                if *k >= 0 {
                    bal.saturating_add(*k as u128)
                } else {
                    bal.saturating_sub(k.unsigned_abs() as u128)
                }
            }
            Amt::Over(v) => *v,
            Amt::Cell(i, k) => self.cell(*i, *k).min(bal),
        }
    }

    fn cell(&self, i: u16, k: i8) -> u128 {
        let cells: Vec<u128> = self.snap.bal.iter().chain(&self.snap.sup).copied().filter(|v| *v > 0).collect();
        let v = if cells.is_empty() { 0 } else { cells[i as usize % cells.len()] };
        if k < 0 {
            v.saturating_sub(1)
        } else {
            v.saturating_add(k as u128)
        }
    }

    fn acct_name(&self, i: usize) -> &str {
        &self.accs[i]
    }

    fn pick_acc(&self, x: Option<u8>) -> Option<usize> {
        x.map(|v| v as usize % self.accs.len())
    }

    /// Compares the state after an operation with the prediction; `tag(acc, asset)` names the property.
    fn settle(&mut self, what: &str, d: &Delta, sup: &[(usize, bool, u128)], tags: &[&str], lp_tag: Option<&str>) {
        let post = match self.take() {
            Ok(s) => s,
            Err(e) => {
                self.diverge("C13", format!("{}: balances cannot be read any more: {}", what, e));
                self.fail.get_or_insert_with(String::new);
                return;
            }
        };
        let na = self.na();
        let nlp = na - self.pairs.len();
        for acc in 0..self.accs.len() {
            for a in 0..na {
                let (p, m) = d.cells.get(&(acc, a)).copied().unwrap_or_default();
                let pre = self.snap.bal[acc * na + a];
                let exp = (B::new(pre) + p.0).checked_sub(&m.0);
                let got = post.bal[acc * na + a];
                if exp != Some(B::new(got)) {
                    let msg = format!(
                        "{}: balance of {} in {} was {}, expected {} afterwards, is {}",
                        what,
                        self.acct_name(acc),
                        self.infos[a],
                        pre,
                        exp.map(|e| e.to_string()).unwrap_or("(negative)".into()),
                        got
                    );
                    match lp_tag {
                        Some(t) if a >= nlp => self.diverge(t, msg),
                        _ => {
                            for t in tags {
                                self.diverge(t, msg.clone());
                            }
                        }
                    }
                }
            }
        }
        for a in 0..na {
            let mut exp = Some(B::new(self.snap.sup[a]));
            for (ix, up, v) in sup {
                if *ix == a {
                    exp = if *up { exp.map(|e| e + B::new(*v)) } else { exp.and_then(|e| e.checked_sub(&B::new(*v))) };
                }
            }
            if exp != Some(B::new(post.sup[a])) {
                let msg = format!(
                    "{}: supply of {} was {}, expected {:?} afterwards, is {}",
                    what, self.infos[a], self.snap.sup[a], exp, post.sup[a]
                );
                match lp_tag {
                    Some(t) if a >= nlp => self.diverge(t, msg.clone()),
                    _ => {
                        for t in tags {
                            self.diverge(t, msg.clone());
                        }
                    }
                }
            }
        }
        self.finish_step(what, post, sup);
    }

    fn unchanged(&mut self, what: &str, tags: &[&str]) {
        self.settle(what, &Delta::default(), &[], tags, None)
    }

    /// Invariants over consecutive states, then moves to the new state.
    fn finish_step(&mut self, what: &str, post: Snap, sup: &[(usize, bool, u128)]) {
        let na = self.na();
        if self.want("C13") {
            for a in 0..na {
                let mut sum = B::ZERO;
                for acc in 0..self.accs.len() {
                    sum = sum + B::new(post.bal[acc * na + a]);
                }
                if sum != B::new(post.sup[a]) {
                    let m = format!("{}: balances of {} add up to {}, supply is {}", what, self.infos[a], sum, post.sup[a]);
                    self.diverge("C13", m);
                }
                if post.sup[a] != self.snap.sup[a] && !sup.iter().any(|(ix, _, _)| *ix == a) {
                    let m = format!("{}: supply of {} changed from {} to {}", what, self.infos[a], self.snap.sup[a], post.sup[a]);
                    self.diverge("C13", m);
                }
            }
            if post != self.snap {
                self.hit("C13");
            }
        }
        if self.want("C07") || self.want("C05") {
            for p in 0..self.pairs.len() {
                let (s0, r0) = (self.lp_supply(p), self.reserves(p));
                let pr = &self.pairs[p];
                let s1 = post.sup[pr.lp_ix];
                let r1 = [post.bal[pr.acc * na + pr.a[0]], post.bal[pr.acc * na + pr.a[1]]];
                if s1 == 0 {
                    continue;
                }
                if r1[0] == 0 || r1[1] == 0 {
                    let m = format!("{}: a reserve is empty ({:?}) while {} pool tokens are outstanding", what, r1, s1);
                    self.diverge("C07", m);
                    continue;
                }
                let (b, e) = (|x: u128| B::new(x), ());
                let _ = e;
                if s0 == 0 {
                    if b(r1[0]) * b(r1[1]) < b(s1) * b(s1) {
                        let m = format!("{}: first provision minted {} for reserves {:?}", what, s1, r1);
                        self.diverge("C07", m);
                    }
                    continue;
                }
                if (r0, s0) != (r1, s1) {
                    self.hit("C07");
                    if s1 != s0 {
                        self.label("supply_changed");
                    } else if b(r1[0]) * b(r1[1]) == b(r0[0]) * b(r0[1]) {
                        self.label("k_equal");
                    }
                }
                if b(r1[0]) * b(r1[1]) * b(s0) * b(s0) < b(r0[0]) * b(r0[1]) * b(s1) * b(s1) {
                    let m = format!("{}: pool value per share fell: reserves {:?} supply {} -> reserves {:?} supply {}", what, r0, s0, r1, s1);
                    self.diverge("C07", m);
                }
                if s1 > s0 {
                    for i in 0..2 {
                        if b(r1[i]) * b(s0) < b(r0[i]) * b(s1) {
                            let m = format!("{}: provision diluted holders: reserves {:?} supply {} -> reserves {:?} supply {}", what, r0, s0, r1, s1);
                            self.diverge("C05", m);
                        }
                    }
                }
            }
        }
        self.snap = post;
        if self.want("C30") {
            self.control(what);
        }
        if self.want("C38") {
            if (self.nusers..self.accs.len()).any(|c| (0..na).any(|i| !self.infos[i].is_native_token() && self.b(c, i) > 0)) {
                self.hit("C38");
            }
            self.spending(what);
        }
        if self.want("C28") {
            for p in 0..self.pairs.len() {
                let addr = self.pairs[p].addr.clone();
                let r = self.reserves(p);
                let s = self.lp_supply(p);
                match self.ch.query::<_, PoolResponse>(&addr, &PairQuery::Pool {}) {
                    Err(e) => self.diverge("C28", format!("{}: Pool query failed: {}", what, e)),
                    Ok(q) => {
                        let exp = PoolResponse {
                            assets: [
                                asset(&self.infos[self.pairs[p].a[0]], r[0]),
                                asset(&self.infos[self.pairs[p].a[1]], r[1]),
                            ],
                            total_share: Uint128::new(s),
                        };
                        if q != exp {
                            self.diverge("C28", format!("{}: Pool query reports {:?}, actual {:?}", what, q, exp));
                        }
                        if r[0] != r[1] && s > 0 {
                            self.hit("C28");
                        }
                    }
                }
            }
        }
        if self.want("C28") || self.want("C18") {
            for p in 0..self.pairs.len() {
                let addr = self.pairs[p].addr.clone();
                let t = if self.want("C28") { "C28" } else { "C18" };
                match self.ch.query::<_, PairInfo>(&addr, &PairQuery::Pair {}) {
                    Err(e) => self.diverge(t, format!("{}: Pair query failed: {}", what, e)),
                    Ok(q) if q != self.pairs[p].info => {
                        let m = format!("{}: pair record changed from {:?} to {:?}", what, self.pairs[p].info, q);
                        self.diverge(t, m)
                    }
                    _ => {}
                }
                if self.want("C18") {
                    match self.ch.factory_pair(&self.pairs[p].info.asset_infos) {
                        Err(e) => self.diverge("C18", format!("{}: factory lost the pair: {}", what, e)),
                        Ok(q) if q != self.pairs[p].info => {
                            let m = format!("{}: factory record changed from {:?} to {:?}", what, self.pairs[p].info, q);
                            self.diverge("C18", m)
                        }
                        _ => {}
                    }
                    match self.ch.code_of(&addr) {
                        Ok((c, _)) if c == self.pairs[p].code => {}
                        x => {
                            let m = format!("{}: pair {} should run code {}, is {:?}", what, addr, self.pairs[p].code, x);
                            self.diverge("C18", m)
                        }
                    }
                }
            }
        }
        if let (true, Some((own, lp, sup))) = (self.want("C07"), self.solo.clone()) {
            let p = &self.pairs[0];
            if self.b(1, p.lp_ix) == lp && self.snap.sup[p.lp_ix] == sup && sup > 0 {
                let g = |i: usize| (self.b(1, p.a[i]), own[p.a[i]]);
                let (x, y) = (g(0), g(1));
                if x.0 >= x.1 && y.0 >= y.1 && (x.0 > x.1 || y.0 > y.1) {
                    let m = format!("{}: a single user profited: balances {} -> {} and {} -> {}", what, x.1, x.0, y.1, y.0);
                    self.diverge("C07", m);
                }
            }
        }
    }

    fn reported(&mut self, what: &str, e: Result<(), String>, label: &'static str) {
        self.hit("C31");
        self.label(label);
        if let Err(m) = e {
            self.diverge("C31", format!("{}: {}", what, m));
        }
    }

    fn surface(&self) -> Vec<String> {
        let mut v = self.ch.surface(&self.infos, &self.cfg.den);
        for p in &self.pairs {
            v.push(format!("{} {:?}", p.addr, self.ch.query::<_, PairInfo>(&p.addr, &PairQuery::Pair {})));
            v.push(format!("{} {:?}", p.addr, self.ch.query::<_, PoolResponse>(&p.addr, &PairQuery::Pool {})));
            v.push(format!("{} {:?}", p.addr, self.ch.code_of(&p.addr)));
        }
        v
    }

    /// C30: who controls the pairs and their pool tokens
    fn control(&mut self, what: &str) {
        for p in 0..self.pairs.len() {
            let (addr, lp) = (self.pairs[p].addr.clone(), self.pairs[p].lp.clone());
            match self.ch.code_of(&addr) {
                Ok((_, Some(a))) if a == self.ch.factory => {}
                x => self.diverge("C30", format!("{}: the chain admin of pair {} is {:?}, not the factory", what, p, x)),
            }
            match self.ch.code_of(&lp) {
                Ok((_, None)) => {}
                x => self.diverge("C30", format!("{}: the pool token of pair {} has a chain admin: {:?}", what, p, x)),
            }
            let m: Result<Option<cw20::MinterResponse>, String> = self.ch.query(&lp, &cw20::Cw20QueryMsg::Minter {});
            let exp = cw20::MinterResponse { minter: addr, cap: None };
            if m != Ok(Some(exp)) {
                self.diverge("C30", format!("{}: the minter of the pool token of pair {} is {:?}", what, p, m));
            }
        }
    }

    // ------------------------------------------------------------ operations

    fn transfer(&mut self, u: usize, to: usize, ix: usize, a: u128) {
        let (from, dest) = (self.accs[u].clone(), self.accs[to].clone());
        let what = format!("transfer of {} {} from {} to {}", a, self.infos[ix], from, dest);
        self.trace.push(what.clone());
        let res = match self.infos[ix].clone() {
            AssetInfo::Token { contract_addr } => self.ch.exec(
                &from,
                &contract_addr,
                &Cw20ExecuteMsg::Transfer { recipient: dest, amount: Uint128::new(a) },
                &[],
            ),
            AssetInfo::NativeToken { denom } => self.ch.bank_send(&from, &dest, &[coin(&denom, a)]),
        };
        let mut d = Delta::default();
        if res.is_ok() {
            d.add(to, ix, a);
            d.sub(u, ix, a);
        }
        self.settle(&what, &d, &[], &["C13"], None);
    }

    /// a right of `u`'s was used
    fn spent(&mut self, u: usize, token: &str, spender: &str, a: u128) {
        let k = (u, token.to_string(), spender.to_string());
        if let Some(v) = self.rights.get_mut(&k) {
            *v = v.saturating_sub(a);
            if *v == 0 {
                self.rights.remove(&k);
            }
        }
    }

    /// the account that acts for `u` in the present operation
    fn acting(&self, u: usize) -> usize {
        self.agent.unwrap_or(u)
    }

    /// sends tokens of `u`, by itself or through the one who acts for it
    fn send<M: Serialize>(&mut self, u: usize, token: &str, to: &str, a: u128, hook: &M) -> Result<cw_multi_test::AppResponse, String> {
        let g = self.acting(u);
        let (owner, by) = (self.accs[u].clone(), self.accs[g].clone());
        if g == u {
            return self.ch.send_cw20(&by, token, to, a, hook);
        }
        self.set_allowance(u, token, &by, a)?;
        let msg = cosmwasm_std::to_binary(hook).unwrap();
        let r = self.ch.exec(&by, token, &Cw20ExecuteMsg::SendFrom { owner, contract: to.to_string(), amount: Uint128::new(a), msg }, &[]);
        if r.is_ok() {
            self.spent(u, token, &by, a);
            self.label("sent_by_agent");
        }
        r
    }

    /// C38: nobody may spend what a contract holds; rights over a user's tokens are the ones it gave
    fn spending(&mut self, what: &str) {
        let toks: Vec<String> = self.infos.iter().filter(|i| !i.is_native_token()).map(|i| i.to_string()).collect();
        let mut owners: Vec<(Option<usize>, String)> = self.accs.iter().enumerate().map(|(i, a)| ((i < self.nusers).then_some(i), a.clone())).collect();
        for p in &self.pairs {
            if !self.accs.contains(&p.lp) {
                owners.push((None, p.lp.clone()));
            }
        }
        for t in &toks {
            for (u, o) in &owners {
                let q: Result<cw20::AllAllowancesResponse, String> = self.ch.query(t, &cw20::Cw20QueryMsg::AllAllowances { owner: o.clone(), start_after: None, limit: Some(30) });
                let got: BTreeMap<String, u128> = match q {
                    Ok(q) => q.allowances.into_iter().filter(|w| !w.allowance.is_zero()).map(|w| (w.spender, w.allowance.u128())).collect(),
                    Err(e) => {
                        self.diverge("C38", format!("{}: the allowances of {} in {} cannot be read: {}", what, o, t, e));
                        return;
                    }
                };
                let exp: BTreeMap<String, u128> = match u {
                    Some(u) => self.rights.iter().filter(|(k, v)| k.0 == *u && k.1 == *t && **v > 0).map(|(k, v)| (k.2.clone(), *v)).collect(),
                    None => BTreeMap::new(),
                };
                if !exp.is_empty() {
                    self.label("right_outstanding");
                }
                if got != exp {
                    self.diverge("C38", format!("{}: rights over {}'s {} are {:?}, given by itself and not yet used: {:?}", what, o, t, got, exp));
                }
            }
        }
    }

    fn set_allowance(&mut self, u: usize, token: &str, spender: &str, a: u128) -> Result<(), String> {
        let from = self.accs[u].clone();
        let q: cw20::AllowanceResponse = self.ch.query(
            token,
            &cw20::Cw20QueryMsg::Allowance { owner: from.clone(), spender: spender.to_string() },
        )?;
        if q.allowance.u128() > 0 {
            self.ch.exec(
                &from,
                token,
                &Cw20ExecuteMsg::DecreaseAllowance { spender: spender.to_string(), amount: q.allowance, expires: None },
                &[],
            )?;
            self.rights.remove(&(u, token.to_string(), spender.to_string()));
        }
        if a > 0 {
            self.ch.exec(
                &from,
                token,
                &Cw20ExecuteMsg::IncreaseAllowance { spender: spender.to_string(), amount: Uint128::new(a), expires: None },
                &[],
            )?;
            self.rights.insert((u, token.to_string(), spender.to_string()), a);
        }
        Ok(())
    }

    /// `am`: declared amounts in pair order. `odd`: deviations from a well-formed call
    /// (1 wrong funds, 2 short allowance, 3 no allowance, 4 foreign asset, 5 duplicate asset, 6 native declared
    /// but not sent / sent but declared as other kind, 7 extra unrelated coin, 8 long allowance, 9 another coin in place of the declared one).
    #[allow(clippy::too_many_arguments)]
    fn provide(&mut self, u: usize, p: usize, am: [u128; 2], rev: bool, slip: Option<u128>, recv: Option<usize>, odd: u8, sel: u8) {
        let ix = self.pairs[p].a;
        let paddr = self.pairs[p].addr.clone();
        let sender = self.accs[u].clone();
        let mut decl = [asset(&self.infos[ix[0]], am[0]), asset(&self.infos[ix[1]], am[1])];
        let mut funds: Vec<(usize, u128)> = vec![];
        let mut funds_bad = false;
        let mut assets_bad = false;
        let mut allow_bad = false;
        let which = (sel & 1) as usize;
        match odd {
            4 => {
                // replace one declared asset by another one
                let other = (sel >> 1) as usize % self.na();
                let repl = if sel & 0x80 != 0 {
                    // same name, other kind
                    match &decl[which].info {
                        AssetInfo::Token { contract_addr } => native_info(contract_addr),
                        AssetInfo::NativeToken { denom } => token_info(denom),
                    }
                } else {
                    self.infos[other].clone()
                };
                if !ix.iter().any(|i| self.infos[*i] == repl) {
                    assets_bad = true;
                    decl[which].info = repl;
                }
            }
            5 => {
                decl[which].info = decl[1 - which].info.clone();
                assets_bad = true;
            }
            _ => {}
        }
        for i in 0..2 {
            if let AssetInfo::NativeToken { .. } = &self.infos[ix[i]] {
                let mut f = am[i];
                if i == which || ix.iter().filter(|x| matches!(self.infos[**x], AssetInfo::NativeToken { .. })).count() == 1 {
                    match odd {
                        1 => f = if sel & 2 == 0 { f.saturating_add(1 + (sel >> 4) as u128) } else { f.saturating_sub(1 + (sel >> 4) as u128) },
                        6 => f = 0,
                        _ => {}
                    }
                }
                if f != am[i] {
                    funds_bad = true;
                }
                if f > 0 {
                    funds.push((ix[i], f));
                }
            }
        }
        if odd == 9 {
            // another native coin in place of the declared one
            let nats: Vec<usize> = (0..self.na()).filter(|i| matches!(self.infos[*i], AssetInfo::NativeToken { .. })).collect();
            let k = (sel >> 4) as usize % funds.len().max(1);
            if let Some(f) = funds.get_mut(k) {
                let other = nats[(sel >> 5) as usize % nats.len()];
                if !ix.contains(&other) {
                    f.0 = other;
                }
            }
        }
        if odd == 7 {
            let other = (sel >> 1) as usize % self.na();
            if matches!(self.infos[other], AssetInfo::NativeToken { .. }) && !ix.contains(&other) && self.b(u, other) > 0 {
                funds.push((other, 1 + self.b(u, other) / 3));
            }
        }
        // declared natives must be attached in the declared amount
        for d in &decl {
            if let AssetInfo::NativeToken { denom } = &d.info {
                let att = funds.iter().find(|(i, _)| matches!(&self.infos[*i], AssetInfo::NativeToken{denom: x} if x == denom)).map(|f| f.1).unwrap_or(0);
                if att != d.amount.u128() {
                    funds_bad = true;
                }
            }
        }
        let mut prep_failed = false;
        for i in 0..2 {
            if let AssetInfo::Token { contract_addr } = self.infos[ix[i]].clone() {
                let al = match odd {
                    2 if i == which => am[i].saturating_sub(1 + (sel >> 5) as u128),
                    3 if i == which => 0,
                    8 => am[i].saturating_add(1 + sel as u128),
                    _ => am[i],
                };
                if al < am[i] {
                    allow_bad = true;
                }
                if self.set_allowance(u, &contract_addr, &paddr, al).is_err() {
                    prep_failed = true;
                }
            }
        }
        if prep_failed {
            self.label("allowance_prep_failed");
            return;
        }
        let funded = (0..2).all(|i| self.b(u, ix[i]) >= am[i]);
        let coins_ok = funds.iter().all(|(i, a)| self.b(u, *i) >= *a);
        let s = self.lp_supply(p);
        let r = self.reserves(p);
        let req = self.pairs[p].info.requirements.clone();
        let mins = [req.first_asset_minimum.u128(), req.second_asset_minimum.u128()];
        let gate = s > 0 || (req.whitelist.contains(&Addr::unchecked(&sender)) && am[0] >= mins[0] && am[1] >= mins[1]);
        let slipv = if s == 0 {
            match slip {
                Some(t) if t > E18 => Verdict::Refuse,
                _ => Verdict::Accept,
            }
        } else {
            spec::slippage(am, r, slip)
        };
        let share = spec::share(am, r, s);
        let fits = share.map(|v| v > 0 && s.checked_add(v).is_some()).unwrap_or(false)
            && (0..2).all(|i| r[i].checked_add(am[i]).is_some());
        let receiver = recv.unwrap_or(u);
        if rev {
            decl.swap(0, 1);
        }
        let coins: Vec<cosmwasm_std::Coin> = {
            let mut v: Vec<(String, u128)> = funds
                .iter()
                .map(|(i, a)| match &self.infos[*i] {
                    AssetInfo::NativeToken { denom } => (denom.clone(), *a),
                    _ => unreachable!(),
                })
                .collect();
            if sel & 4 != 0 {
                v.reverse();
            } else {
                v.sort();
            }
            v.iter().map(|(d, a)| coin(d, *a)).collect()
        };
        let what = format!(
            "provide {:?} by {} to pair {} (reserves {:?}, supply {}, receiver {:?}, tolerance {:?}, coins {:?}, oddity {})",
            decl.iter().map(|d| d.to_string()).collect::<Vec<_>>(),
            sender,
            p,
            r,
            s,
            recv.map(|x| self.accs[x].clone()),
            slip.map(|x| dec18(x).to_string()),
            coins,
            odd
        );
        self.trace.push(what.clone());
        let msg = |slip: Option<u128>, decl: &[Asset; 2], rc: Option<String>| PairExec::ProvideLiquidity {
            assets: decl.clone(),
            slippage_tolerance: slip.map(dec18),
            receiver: rc,
        };
        let rc = recv.map(|x| self.accs[x].clone());
        let m = msg(slip, &decl, rc.clone());
        let mut res = self.ch.exec(&sender, &paddr, &m, &coins);
        let well = !assets_bad && !funds_bad && !allow_bad && funded && coins_ok;
        if res.is_ok() {
            self.label("provide_ok");
            if assets_bad || funds_bad || allow_bad || !funded {
                let why = if assets_bad { "assets" } else if funds_bad { "attached coins" } else { "allowance or balance" };
                self.diverge("C09", format!("{}: accepted although the {} do not match", what, why));
            }
            if !gate {
                self.diverge("C08", format!("{}: first provision accepted, whitelist {:?} minimums {:?}", what, req.whitelist, mins));
            }
            if slipv == Verdict::Refuse {
                self.diverge("C10", format!("{}: accepted beyond the tolerance", what));
            }
            if well && share == Some(0) {
                self.diverge("C05", format!("{}: accepted although the share is zero", what));
            }
        } else {
            self.label("provide_refused");
        }
        if well {
            if s == 0 {
                self.hit("C08");
                if !gate {
                    self.label("gate_closed");
                } else {
                    self.label("gate_open");
                }
            } else if self.want("C08") && !req.whitelist.contains(&Addr::unchecked(&sender)) {
                self.hit("C08");
                self.label("outsider_later");
            }
            if s > 0 && slip.is_some() && am[0] > 0 && am[1] > 0 {
                self.hit("C10");
                self.label(match slipv {
                    Verdict::Accept => "slip_accept",
                    Verdict::Refuse => "slip_refuse",
                    Verdict::Either => "slip_band",
                });
            }
            if fits && gate {
                self.hit("C05");
                if s > 0 && share != Some(0) && r[0] != r[1] {
                    self.label("share_nontrivial");
                }
            }
        }
        self.hit("C09");
        if well && gate && fits && slipv == Verdict::Accept && res.is_err() {
            // find out who refuses: repeat without tolerance
            let e = res.as_ref().err().cloned().unwrap_or_default();
            if slip.is_some() {
                let m2 = msg(None, &decl, rc.clone());
                let again = self.ch.exec(&sender, &paddr, &m2, &coins);
                if again.is_ok() {
                    let tag = if s == 0 { "C08" } else { "C10" };
                    self.diverge(tag, format!("{}: refused ({}) only because a tolerance was given", what, e));
                    res = again;
                }
            }
            if res.is_err() {
                self.diverge("C08", format!("{}: funded provision refused: {}", what, e));
                self.diverge("C05", format!("{}: funded provision refused: {}", what, e));
            }
        }
        let mut d = Delta::default();
        let mut sup = vec![];
        if res.is_ok() {
            let acc = self.pairs[p].acc;
            for i in 0..2 {
                d.sub(u, ix[i], am[i]);
                d.add(acc, ix[i], am[i]);
            }
            for (i, a) in &funds {
                if !ix.contains(i) {
                    d.sub(u, *i, *a);
                    d.add(acc, *i, *a);
                }
            }
            for i in 0..2 {
                if let AssetInfo::Token { contract_addr } = self.infos[ix[i]].clone() {
                    self.spent(u, &contract_addr, &paddr, am[i]);
                }
            }
            let lp = self.pairs[p].lp_ix;
            let sh = share.unwrap_or(0);
            d.add(receiver, lp, sh);
            sup.push((lp, true, sh));
            if self.want("C09") {
                for i in 0..2 {
                    if let AssetInfo::Token { contract_addr } = self.infos[ix[i]].clone() {
                        let q: Result<cw20::AllowanceResponse, String> = self.ch.query(
                            &contract_addr,
                            &cw20::Cw20QueryMsg::Allowance { owner: sender.clone(), spender: paddr.clone() },
                        );
                        let exp = if odd == 8 { am[i].saturating_add(1 + sel as u128) - am[i] } else { 0 };
                        if let Ok(q) = q {
                            if q.allowance.u128() != exp {
                                self.diverge("C09", format!("{}: allowance left {}, expected {}", what, q.allowance, exp));
                            }
                        }
                    }
                }
            }
            if let (true, Ok(r)) = (self.want("C31"), &res) {
                let exp = [
                    ("sender", sender.clone()),
                    ("receiver", self.accs[receiver].clone()),
                    ("assets", format!("{}, {}", decl[0], decl[1])),
                    ("share", self.ch.supply(&self.pairs[p].lp).map(|v| v.saturating_sub(s)).unwrap_or(0).to_string()),
                ];
                let e = expect_report(r, &paddr, "action", Some("provide_liquidity"), &exp);
                self.reported(&what, e, "event_provide");
            }
            self.label("provided");
        }
        let tags: &[&str] = &["C09"];
        self.settle(&what, &d, &sup, tags, Some("C05"));
    }

    /// C33: at the end of a history every holder leaves, in some order, some of them in two steps
    fn exits(&mut self, turn: usize) {
        let (np, nu) = (self.pairs.len(), self.cfg.users as usize + 1);
        for i in 0..np {
            let p = (i + turn) % np;
            for j in 0..nu {
                let u = (j + turn) % nu;
                let have = self.b(u, self.pairs[p].lp_ix);
                if have == 0 || self.fail.is_some() {
                    continue;
                }
                if (i + j + turn) % 3 == 0 && have > 1 {
                    self.withdraw(u, p, have / 2);
                }
                let rest = self.b(u, self.pairs[p].lp_ix);
                if rest > 0 && self.fail.is_none() {
                    self.withdraw(u, p, rest);
                }
            }
        }
    }

    fn withdraw(&mut self, u: usize, p: usize, a: u128) {
        let act = self.acting(u);
        let (sender, lp, paddr) = (self.accs[act].clone(), self.pairs[p].lp.clone(), self.pairs[p].addr.clone());
        let r = self.reserves(p);
        let s = self.lp_supply(p);
        let lpx = self.pairs[p].lp_ix;
        let have = self.b(u, lpx);
        let what = format!("withdraw {} of {} pool tokens by {} (held by {}) from pair {} (reserves {:?})", a, s, sender, self.accs[u], p, r);
        self.trace.push(what.clone());
        let res = self.send(u, &lp, &paddr, a, &PairHook::WithdrawLiquidity {});
        let sure = a > 0 && have >= a && (0..2).all(|i| a == s && r[i] > 0 || spec::refund_surely_positive(r[i], a, s));
        match res {
            Err(e) => {
                if sure {
                    self.diverge("C06", format!("{}: refused: {}", what, e));
                    self.diverge("C33", format!("{}: refused: {}", what, e));
                }
                self.label("withdraw_refused");
                self.unchanged(&what, &["C06"]);
            }
            Ok(resp) => {
                if have < a || a == 0 {
                    self.diverge("C06", format!("{}: accepted with {} pool tokens", what, have));
                }
                self.label(if a == s { "withdraw_all" } else { "withdraw_part" });
                let (acc, ix) = (self.pairs[p].acc, self.pairs[p].a);
                // the pair's own loss defines the payments; they must be admissible and go to the sender
                let mut d = Delta::default();
                let mut refunds = vec![];
                for i in 0..2 {
                    let now = self.ch.balance(&self.infos[ix[i]], &paddr).unwrap_or(u128::MAX);
                    if now > r[i] {
                        self.diverge("C06", format!("{}: reserve {} grew to {}", what, i, now));
                        continue;
                    }
                    let paid = r[i] - now;
                    if let Err(m) = spec::refund_ok(r[i], a, s, paid) {
                        self.diverge("C06", format!("{}: {}", what, m));
                        self.diverge("C33", format!("{}: {}", what, m));
                    }
                    d.sub(acc, ix[i], paid);
                    d.add(act, ix[i], paid);
                    refunds.push(asset(&self.infos[ix[i]], paid).to_string());
                }
                d.sub(u, lpx, a);
                if self.want("C31") {
                    let exp = [("sender", sender.clone()), ("withdrawn_share", a.to_string()), ("refund_assets", refunds.join(", "))];
                    let e = expect_report(&resp, &paddr, "action", Some("withdraw_liquidity"), &exp);
                    self.reported(&what, e, "event_withdraw");
                }
                self.hit("C06");
                if self.trace.len() > 1 {
                    self.hit("C33");
                }
                self.settle(&what, &d, &[(lpx, false, a)], &["C06", "C33"], None);
            }
        }
    }

    fn simulate(&self, p: usize, info: &AssetInfo, a: u128) -> Result<SwapQ, String> {
        self.ch
            .query::<_, SimulationResponse>(&self.pairs[p].addr, &PairQuery::Simulation { offer_asset: asset(info, a) })
            .map(|r| SwapQ { ret: r.return_amount.u128(), spread: r.spread_amount.u128(), comm: r.commission_amount.u128() })
            .map_err(|e| {
                self.note(|| format!("quote of {} on pair {}: refused", a, p));
                e
            })
            .map(|q| {
                self.note(|| format!("quote of {} on pair {}: {:?}", a, p, q));
                q
            })
    }
    fn note(&self, s: impl FnOnce() -> String) {
        if self.want("twin") {
            self.notes.borrow_mut().push(s());
        }
    }
    fn rev_simulate(&self, p: usize, info: &AssetInfo, a: u128) -> Result<(u128, u128, u128), String> {
        self.ch
            .query::<_, ReverseSimulationResponse>(&self.pairs[p].addr, &PairQuery::ReverseSimulation { ask_asset: asset(info, a) })
            .map(|r| (r.offer_amount.u128(), r.spread_amount.u128(), r.commission_amount.u128()))
            .map_err(|e| {
                self.note(|| format!("reverse quote of {} on pair {}: refused", a, p));
                e
            })
            .map(|q| {
                self.note(|| format!("reverse quote of {} on pair {}: {:?}", a, p, q));
                q
            })
    }

    #[allow(clippy::too_many_arguments)]
    fn swap(&mut self, u: usize, p: usize, o: usize, a: u128, to: Option<usize>, belief: &Lim, max: &Lim) {
        let ix = self.pairs[p].a;
        let (oi, ki) = (ix[o], ix[1 - o]);
        let token = match self.infos[oi].clone() {
            AssetInfo::Token { contract_addr } => contract_addr,
            _ => return,
        };
        let act = self.acting(u);
        let (sender, paddr) = (self.accs[act].clone(), self.pairs[p].addr.clone());
        let r = self.reserves(p);
        let (x, y) = (r[o], r[1 - o]);
        let (od, rd) = (self.dec[oi], self.dec[ki]);
        let sp = spec::swap(x, y, a);
        let sim = self.simulate(p, &self.infos[oi].clone(), a);
        // the figures limits are judged on: what the pair itself reports
        let judge = match (&sim, &sp) {
            (Ok(q), _) => Some(spec::SwapSpec { gross: q.ret.saturating_add(q.comm), comm: q.comm, ret: q.ret, spread: B::new(q.spread) }),
            (_, Some(s)) => Some(*s),
            _ => None,
        };
        // resolve limits around the actual loss
        let k = B::pow10(od.abs_diff(rd) as u32);
        let (ka, kr) = if od > rd { (B::one(), k) } else { (k, B::one()) };
        let belief = match (belief, &judge) {
            (Lim::None, _) => None,
            (Lim::Raw(v), _) => Some(*v),
            (Lim::At(d), Some(j)) if j.ret > 0 => {
                let fair = (B::new(a) * ka * B::e18()).div(&(B::new(j.ret) * kr)).u128();
                fair.map(|f| if *d >= 0 { f.saturating_add(*d as u128) } else { f.saturating_sub(d.unsigned_abs() as u128) })
            }
            (Lim::AtPpm(m), Some(j)) if j.ret > 0 => {
                (B::new(a) * ka * B::e18() * B::new(*m as u128)).div(&(B::new(j.ret) * kr * B::new(1_000_000))).u128()
            }
            _ => None,
        };
        let ratio = |belief: Option<u128>| -> Option<B> {
            let j = judge?;
            let ret = B::new(j.ret) * kr;
            let (loss, base) = match belief {
                Some(0) => return None,
                Some(b) => {
                    let e = (B::new(a) * ka * B::e18()).div(&B::new(b));
                    (e.sat_sub(&ret), e)
                }
                None => (j.spread * kr, ret + j.spread * kr),
            };
            if base.is_zero() {
                None
            } else {
                Some((loss * B::e18()).div(&base))
            }
        };
        let max = match max {
            Lim::None => None,
            Lim::Raw(v) => Some(*v),
            Lim::At(d) => ratio(belief).and_then(|v| v.u128()).map(|f| if *d >= 0 { f.saturating_add((*d / 8) as u128) } else { f.saturating_sub((d / 8).unsigned_abs() as u128) }),
            Lim::AtPpm(m) => ratio(belief).and_then(|v| (v * B::new(*m as u128)).div(&B::new(1_000_000)).u128()),
        };
        let verdict = judge.map(|j| spec::max_spread(&j, a, belief, max, od, rd)).unwrap_or(Verdict::Either);
        let have = self.b(u, oi);
        let fits = sp.map(|s| s.fits()).unwrap_or(false);
        let positive = sp.map(|s| s.ret > 0).unwrap_or(false);
        let rcv = to.unwrap_or(act);
        let what = format!(
            "swap {} {} of {} by {} on pair {} (reserves offered {} asked {}, decimals {}/{}, to {:?}, belief {:?}, max spread {:?})",
            a,
            self.infos[oi],
            self.accs[u],
            sender,
            p,
            x,
            y,
            od,
            rd,
            to.map(|t| self.accs[t].clone()),
            belief.map(|b| dec18(b).to_string()),
            max.map(|b| dec18(b).to_string())
        );
        self.trace.push(what.clone());
        let to_s = to.map(|t| self.accs[t].clone());
        let hook = |b: Option<u128>, m: Option<u128>| PairHook::Swap { belief_price: b.map(dec18), max_spread: m.map(dec18), to: to_s.clone() };
        let mut res = self.send(u, &token, &paddr, a, &hook(belief, max));
        let funded = a > 0 && have >= a && x > 0 && y > 0;
        if funded && (max.is_some() || belief.is_some()) && sp.is_some() && fits {
            self.hit("C11");
            self.label(match (verdict, max.is_some(), belief.is_some()) {
                (_, false, _) => "lim_belief_only",
                (Verdict::Accept, _, true) => "lim_belief_accept",
                (Verdict::Refuse, _, true) => "lim_belief_refuse",
                (Verdict::Accept, _, false) => "lim_accept",
                (Verdict::Refuse, _, false) => "lim_refuse",
                (Verdict::Either, _, _) => "lim_band",
            });
            if od != rd {
                self.label("lim_decimals_differ");
            }
        }
        if res.is_ok() && verdict == Verdict::Refuse {
            self.diverge("C11", format!("{}: accepted although the loss exceeds the limit ({:?})", what, judge));
        }
        if let (Err(e), true, true, true, Verdict::Accept) = (&res, funded, positive, fits, verdict) {
            let e = e.clone();
            if belief.is_some() || max.is_some() {
                let again = self.send(u, &token, &paddr, a, &hook(None, None));
                if again.is_ok() {
                    self.diverge("C11", format!("{}: refused ({}) although within the limit ({:?})", what, e, judge));
                    res = again;
                }
            }
            if res.is_err() {
                self.diverge("C01", format!("{}: refused: {}", what, e));
                if sim.is_ok() {
                    self.diverge("C11", format!("{}: quoted, but refused without any limit: {}", what, e));
                }
            }
        }
        let mut d = Delta::default();
        match &res {
            Err(_) => self.label("swap_refused"),
            Ok(resp) => {
                self.label("swap_ok");
                let ev = swap_events(resp);
                let ev = ev.last().cloned();
                let rep = ev.as_ref().and_then(|e| Some(SwapQ { ret: e.ret?, spread: e.spread?, comm: e.comm? }));
                if a > have {
                    self.diverge("C02", format!("{}: accepted with a balance of {}", what, have));
                }
                if let Some(s) = &sp {
                    if s.gross > 0 {
                        self.hit("C01");
                        self.hit("C02");
                        self.hit("C03");
                    }
                    if let Some(q) = &rep {
                        if let Err(m) = s.agrees(q) {
                            self.diverge("C01", format!("{}: {}", what, m));
                        }
                    }
                    if s.comm > 0 {
                        self.label("swap_with_fee");
                    }
                }
                if y > 0 && x > 0 {
                    // measured on the pair itself
                    let now = [
                        self.ch.balance(&self.infos[oi], &paddr).unwrap_or(0),
                        self.ch.balance(&self.infos[ki], &paddr).unwrap_or(0),
                    ];
                    if now[1] == 0 {
                        self.diverge("C01", format!("{}: the asked reserve is drained", what));
                    }
                    if rcv != self.pairs[p].acc && B::new(now[0]) * B::new(now[1]) < B::new(x) * B::new(y) {
                        self.diverge("C01", format!("{}: product of reserves fell, now {:?}", what, now));
                    }
                    if let (Some(s), true) = (&sp, rcv != self.pairs[p].acc) {
                        if y.checked_sub(now[1]) != Some(s.ret) {
                            self.diverge("C01", format!("{}: reserve of the asked asset went to {}, exact payment {}", what, now[1], s.ret));
                        }
                    }
                }
                match (&sim, &rep) {
                    (Err(e), _) => self.diverge("C03", format!("{}: executed, but simulation failed: {}", what, e)),
                    (Ok(q), Some(r)) if q != r => self.diverge("C03", format!("{}: simulated {:?}, executed {:?}", what, q, r)),
                    (Ok(q), _) => {
                        let na = self.na();
                        let now = self.ch.balance(&self.infos[ki], &self.accs[rcv].clone()).unwrap_or(0);
                        let before = self.snap.bal[rcv * na + ki];
                        if now.checked_sub(before) != Some(q.ret) && rcv != self.pairs[p].acc {
                            self.diverge("C03", format!("{}: simulated return {}, recipient went from {} to {}", what, q.ret, before, now));
                        }
                    }
                }
                if let Some(Some(off)) = ev.as_ref().map(|e| e.offer) {
                    if off != a {
                        self.diverge("C12", format!("{}: pair reports an offer of {}", what, off));
                    }
                }
                if self.want("C31") {
                    // the payment as the pair's own loss shows it; the fee and spread belong to that payment
                    let paid = y.saturating_sub(self.ch.balance(&self.infos[ki], &paddr).unwrap_or(0));
                    let mut exp = vec![
                        ("sender", sender.clone()),
                        ("receiver", self.accs[rcv].clone()),
                        ("offer_asset", self.infos[oi].to_string()),
                        ("ask_asset", self.infos[ki].to_string()),
                        ("offer_amount", a.to_string()),
                    ];
                    if rcv != self.pairs[p].acc {
                        exp.push(("return_amount", paid.to_string()));
                    }
                    let mut e = expect_report(resp, &paddr, "action", Some("swap"), &exp);
                    if let (Ok(()), Some(s), Some(q)) = (&e, &sp, &rep) {
                        e = s.agrees(q);
                    } else if e.is_ok() && rep.is_none() {
                        e = Err("no return, spread and commission amounts reported".into());
                    }
                    self.reported(&what, e, "event_swap");
                }
                let ret = rep.map(|q| q.ret).or(sp.map(|s| s.ret)).unwrap_or(0);
                let acc = self.pairs[p].acc;
                d.sub(u, oi, a);
                d.add(acc, oi, a);
                d.sub(acc, ki, ret);
                d.add(rcv, ki, ret);
            }
        }
        self.settle(&what, &d, &[], &["C02"], None);
    }

    fn quote(&mut self, p: usize, o: usize, a: u128, fl: u16) {
        let ix = self.pairs[p].a;
        if fl & 0x300 == 0x300 {
            // an asset that is not in the pair
            let other = (fl & 0xff) as usize % self.na();
            let info = if fl & 0x400 != 0 {
                match &self.infos[ix[o]] {
                    AssetInfo::Token { contract_addr } => native_info(contract_addr),
                    AssetInfo::NativeToken { denom } => token_info(denom),
                }
            } else {
                self.infos[other].clone()
            };
            if ix.iter().any(|i| self.infos[*i] == info) {
                return;
            }
            let what = format!("simulate {} {:?} on pair {}", a, info, p);
            self.trace.push(what.clone());
            self.label("quote_foreign");
            if let Ok(q) = self.simulate(p, &info, a) {
                self.diverge("C03", format!("{}: foreign asset quoted {:?}", what, q));
            }
            if let Ok(q) = self.rev_simulate(p, &info, a) {
                self.diverge("C04", format!("{}: foreign asset quoted in reverse {:?}", what, q));
            }
            return;
        }
        let r = self.reserves(p);
        let (x, y) = (r[o], r[1 - o]);
        let what = format!("simulate {} of asset {} on pair {} (reserves offered {} asked {})", a, o, p, x, y);
        self.trace.push(what.clone());
        let got = self.simulate(p, &self.infos[ix[o]].clone(), a);
        if x == 0 || y == 0 {
            return;
        }
        let s = spec::swap(x, y, a).unwrap();
        match got {
            Ok(q) => {
                if let Err(m) = s.agrees(&q) {
                    self.diverge("C01", format!("{}: {}", what, m));
                }
                if s.gross > 0 {
                    self.hit("C01");
                    self.label("quote_positive");
                }
            }
            Err(e) => {
                if s.fits() {
                    self.diverge("C01", format!("{}: failed: {}", what, e));
                }
                self.label("quote_overflow");
            }
        }
        if self.want("C03") {
            self.unchanged(&what, &["C03"]);
        }
    }

    /// C04
    fn rev_quote(&mut self, p: usize, o: usize, b: u128) {
        let ix = self.pairs[p].a;
        let r = self.reserves(p);
        let (x, y) = (r[o], r[1 - o]);
        if x == 0 || y == 0 {
            return;
        }
        let what = format!("reverse simulate {} of the asked asset on pair {} (reserves offered {} asked {})", b, p, x, y);
        self.trace.push(what.clone());
        let e18 = B::e18();
        // ceil(b/0.997 at 18 digits) must stay below the reserve
        let inv = (e18 * e18).div(&(B::new(997) * B::pow10(15)));
        let need = (B::new(b) * inv).ceil_div(&e18);
        let obtainable = need + B::one() < B::new(y);
        let got = self.rev_simulate(p, &self.infos[ix[1 - o]].clone(), b);
        // exact offer: x*gross/(y-gross)
        let gross = (B::new(b) * inv).div(&e18);
        let approx = (B::new(x) * B::new(y)).div(&(B::new(y).sat_sub(&gross).max(B::one())));
        match got {
            Err(e) => {
                let offer_fits = approx.u128().is_some();
                // the spread of the quoted trade has to fit as well
                let spread_fits = ((approx.sat_sub(&B::new(x)) + B::one()) * B::new(y)).div(&B::new(x)).u128().is_some();
                if obtainable && offer_fits && spread_fits {
                    self.diverge("C04", format!("{}: failed: {}", what, e));
                }
                self.label("rev_refused");
            }
            Ok((o1, spread, comm)) => {
                if B::new(b) * B::new(1000) > B::new(y) * B::new(997) + B::new(1000) {
                    self.diverge("C04", format!("{}: more than the pool can pay is quoted {}", what, o1));
                    return;
                }
                if b > 0 {
                    self.hit("C04");
                }
                self.label(if b == 0 { "rev_zero" } else { "rev_quoted" });
                // tight: selling the quoted amount yields at most one more than asked
                let s0 = spec::swap(x, y, o1).unwrap();
                if B::new(s0.ret) > B::new(b) + B::one() {
                    self.diverge("C04", format!("{}: quoted offer {} is not tight, it yields {}", what, o1, s0.ret));
                }
                // sufficient
                if let Some(o2) = o1.checked_add(1) {
                    let s1 = spec::swap(x, y, o2).unwrap();
                    let slack = if b < 3_000_000_000_000_000 { B::ZERO } else { B::one() + B::new(b).ceil_div(&e18) };
                    if B::new(s1.ret) + slack < B::new(b) {
                        self.diverge("C04", format!("{}: quoted offer {} plus one yields only {}", what, o1, s1.ret));
                    }
                }
                // The quoted commission and spread are those of this trade: the exact offer lies
                // between the quoted integer and the next, and so do its gross and commission.
                let s1 = spec::swap(x, y, o1.saturating_add(1)).unwrap();
                let slack = B::new(2) + B::new(b).ceil_div(&e18);
                if B::new(comm) > B::new(s1.comm) + slack || B::new(comm) + slack < B::new(s0.comm) {
                    self.diverge(
                        "C04",
                        format!("{}: quoted commission {}, the trade of {} has {}, of one more {}", what, comm, o1, s0.comm, s1.comm),
                    );
                }
                let slack = B::new(3) + B::new(o1).ceil_div(&e18) + B::new(b).ceil_div(&e18);
                let ideal = s0.spread + B::new(s0.gross);
                let (lo, hi) = (ideal.sat_sub(&B::new(s1.gross)), s0.spread);
                if B::new(spread) > hi + slack || B::new(spread) + slack < lo {
                    self.diverge("C04", format!("{}: quoted spread {}, the trade of {} has {} to {}", what, spread, o1, lo, hi));
                }
                // the same through the pair's own simulation
                if let (true, Ok(q)) = (self.want("C04"), self.simulate(p, &self.infos[ix[o]].clone(), o1.saturating_add(1))) {
                    let slack = if b < 3_000_000_000_000_000 { B::ZERO } else { B::one() + B::new(b).ceil_div(&e18) };
                    if B::new(q.ret) + slack < B::new(b) {
                        self.diverge("C04", format!("{}: simulating the quoted offer {} plus one yields only {}", what, o1, q.ret));
                    }
                }
            }
        }
    }

    fn find_pair(&self, o: usize, k: usize) -> Option<usize> {
        self.pairs.iter().position(|p| (p.a[0] == o && p.a[1] == k) || (p.a[1] == o && p.a[0] == k))
    }

    /// A route as a walk over existing pairs.
    fn walk(&self, start: usize, list: &[u8], allow_native: bool) -> Vec<(usize, usize)> {
        let mut cur = start;
        let mut out = vec![];
        for sel in list {
            let c: Vec<usize> = self
                .pairs
                .iter()
                .filter_map(|p| if p.a[0] == cur { Some(p.a[1]) } else if p.a[1] == cur { Some(p.a[0]) } else { None })
                .collect();
            if c.is_empty() {
                break;
            }
            let n = c[*sel as usize % c.len()];
            out.push((cur, n));
            cur = n;
            if !allow_native && matches!(self.infos[cur], AssetInfo::NativeToken { .. }) {
                break;
            }
        }
        out
    }

    fn ops_of(&self, hops: &[(usize, usize)]) -> Vec<SwapOperation> {
        hops.iter()
            .map(|(o, k)| SwapOperation::HaloSwap {
                offer_asset_info: self.infos[*o].clone(),
                ask_asset_info: self.infos[*k].clone(),
            })
            .collect()
    }

    /// fold of the pairs' own simulations
    fn fold(&self, hops: &[(usize, usize)], a: u128) -> Result<u128, String> {
        let mut a = a;
        for (o, k) in hops {
            let p = self.find_pair(*o, *k).ok_or("no such pair")?;
            a = self.simulate(p, &self.infos[*o], a)?.ret;
        }
        Ok(a)
    }
    fn rev_fold(&self, hops: &[(usize, usize)], a: u128) -> Result<u128, String> {
        let mut a = a;
        for (o, k) in hops.iter().rev() {
            let p = self.find_pair(*o, *k).ok_or("no such pair")?;
            a = self.rev_simulate(p, &self.infos[*k], a)?.0;
        }
        Ok(a)
    }

    fn route_quote(&mut self, hops: &[(usize, usize)], a: u128) {
        let ops = self.ops_of(hops);
        let what = format!("route quote of {} over {:?}", a, hops.iter().map(|(o, k)| format!("{}>{}", self.infos[*o], self.infos[*k])).collect::<Vec<_>>());
        self.trace.push(what.clone());
        for rev in [false, true] {
            let r = self.ch.router.clone();
            let got = if rev {
                self.ch.query::<_, SimulateSwapOperationsResponse>(&r, &RouterQuery::ReverseSimulateSwapOperations { ask_amount: Uint128::new(a), operations: ops.clone() })
            } else {
                self.ch.query::<_, SimulateSwapOperationsResponse>(&r, &RouterQuery::SimulateSwapOperations { offer_amount: Uint128::new(a), operations: ops.clone() })
            }
            .map(|x| x.amount.u128());
            self.note(|| format!("route quote of {} over {:?} (reverse: {}): {:?}", a, hops, rev, got.as_ref().ok()));
            let exp = if hops.is_empty() {
                Err("empty".to_string())
            } else if rev {
                self.rev_fold(hops, a)
            } else {
                self.fold(hops, a)
            };
            match (&got, &exp) {
                (Ok(g), Ok(e)) => {
                    if g != e {
                        self.diverge("C22", format!("{} (reverse: {}): router quotes {}, pairs fold to {}", what, rev, g, e));
                    }
                    if *g > 0 {
                        self.hit("C22");
                        self.label(if hops.len() > 1 { "multi_hop_quote" } else { "single_hop_quote" });
                        if rev {
                            self.label("reverse_quote");
                        }
                    }
                }
                (Err(_), Err(_)) => self.label("quote_error"),
                (Ok(g), Err(e)) => self.diverge("C22", format!("{} (reverse: {}): router quotes {}, pairs fail: {}", what, rev, g, e)),
                (Err(e), Ok(v)) => self.diverge("C22", format!("{} (reverse: {}): router fails ({}), pairs fold to {}", what, rev, e, v)),
            }
        }
    }

    /// Routed swap. `sent`: token asset and amount sent along (None: called directly on the router's holdings).
    #[allow(clippy::too_many_arguments)]
    fn route(&mut self, u: usize, sent: Option<(usize, u128)>, hops: &[(usize, usize)], to: Option<usize>, min: &Lim, claim: Option<usize>) {
        let act = if sent.is_some() { self.acting(u) } else { u };
        let sender = self.accs[act].clone();
        let router = self.accs[self.router].clone();
        // who receives by default
        let default_rcv = claim.unwrap_or(act);
        let rcv = to.unwrap_or(default_rcv);
        let ops = self.ops_of(hops);
        let last = hops.last().map(|h| h.1);
        // reference fold over copies of reserves and router holdings
        let mut hold: Vec<u128> = (0..self.na()).map(|a| self.b(self.router, a)).collect();
        let mut res: Vec<[u128; 2]> = (0..self.pairs.len()).map(|p| self.reserves(p)).collect();
        let mut sure = true;
        let mut must_fail = hops.is_empty();
        let mut in_ok = true;
        if let Some((ix, a)) = sent {
            if a == 0 || self.b(u, ix) < a {
                must_fail = true;
                in_ok = false;
            } else {
                hold[ix] = hold[ix].saturating_add(a);
            }
        }
        let mut malformed = hops.is_empty();
        {
            let mut m: BTreeMap<usize, ()> = BTreeMap::new();
            for (o, k) in hops {
                m.remove(o);
                m.insert(*k, ());
            }
            if m.len() > 1 {
                malformed = true;
            }
        }
        let mut out = 0u128;
        let mut distinct = true;
        let mut used = vec![];
        for (n, (o, k)) in hops.iter().enumerate() {
            let p = match self.find_pair(*o, *k) {
                Some(p) => p,
                None => {
                    must_fail = true;
                    sure = false;
                    break;
                }
            };
            if used.contains(&p) {
                distinct = false;
            }
            used.push(p);
            if matches!(self.infos[*o], AssetInfo::NativeToken { .. }) {
                sure = false;
                break;
            }
            let a = hold[*o];
            if a == 0 {
                must_fail = true;
                sure = false;
                break;
            }
            let oi = usize::from(self.pairs[p].a[1] == *o);
            let s = spec::swap(res[p][oi], res[p][1 - oi], a);
            match s {
                Some(s) if s.ret > 0 && s.fits() => {
                    hold[*o] = 0;
                    res[p][oi] = res[p][oi].saturating_add(a);
                    res[p][1 - oi] -= s.ret;
                    if n + 1 < hops.len() {
                        hold[*k] = hold[*k].saturating_add(s.ret);
                    }
                    out = s.ret;
                }
                _ => {
                    sure = false;
                    break;
                }
            }
        }
        let special = rcv == self.router || self.pairs.iter().any(|p| p.acc == rcv);
        let min = match min {
            Lim::None => None,
            Lim::Raw(v) => Some(*v),
            Lim::At(d) => Some(if *d >= 0 { out.saturating_add((*d / 10) as u128) } else { out.saturating_sub((d / 10).unsigned_abs() as u128) }),
            Lim::AtPpm(m) => (B::new(out) * B::new(*m as u128)).div(&B::new(1_000_000)).u128(),
        };
        let clean = distinct
            && sent.map(|(ix, _)| Some(ix) == hops.first().map(|h| h.0)).unwrap_or(false)
            && hops.iter().all(|(o, _)| self.b(self.router, *o) == 0);
        let quote = if clean && self.want("C22") {
            Some(self.ch.query::<_, SimulateSwapOperationsResponse>(
                &router,
                &RouterQuery::SimulateSwapOperations { offer_amount: Uint128::new(sent.unwrap().1), operations: ops.clone() },
            ))
        } else {
            None
        };
        let what = format!(
            "route {:?} sent {:?} of {} by {} (claimed {:?}) to {:?} minimum {:?}",
            hops.iter().map(|(o, k)| format!("{}>{}", self.infos[*o], self.infos[*k])).collect::<Vec<_>>(),
            sent.map(|(i, a)| format!("{}{}", a, self.infos[i])),
            self.accs[u],
            sender,
            claim.map(|c| self.accs[c].clone()),
            to.map(|t| self.accs[t].clone()),
            min
        );
        self.trace.push(what.clone());
        let to_s = to.map(|t| self.accs[t].clone());
        let infos = self.infos.clone();
        let accs = self.accs.clone();
        let mut go = |m: Option<u128>| {
            let hook = RouterHook::ExecuteSwapOperations { operations: ops.clone(), minimum_receive: m.map(Uint128::new), to: to_s.clone() };
            match (sent, claim) {
                (Some((ix, a)), _) => match &infos[ix] {
                    AssetInfo::Token { contract_addr } => self.send(u, contract_addr, &router, a, &hook),
                    _ => Err("native".into()),
                },
                (None, Some(c)) => self.ch.exec(
                    &sender,
                    &router,
                    &RouterExec::Receive(Cw20ReceiveMsg { sender: accs[c].clone(), amount: Uint128::new(1), msg: cosmwasm_std::to_binary(&hook).unwrap() }),
                    &[],
                ),
                (None, None) => self.ch.exec(
                    &sender,
                    &router,
                    &RouterExec::ExecuteSwapOperations { operations: ops.clone(), minimum_receive: m.map(Uint128::new), to: to_s.clone() },
                    &[],
                ),
            }
        };
        let mut resp = go(min);
        let mut used_min = min;
        let mut refused_by_min = None;
        if let (Err(e), true, Some(_), false, true) = (&resp, sure, min, malformed, in_ok) {
            // who refuses? repeat without the minimum
            let e = e.clone();
            let again = go(None);
            if again.is_ok() {
                refused_by_min = Some(e);
                resp = again;
                used_min = None;
            }
        }
        if malformed {
            self.hit("C21");
            self.label(if hops.is_empty() { "route_empty" } else { "route_multi_output" });
        }
        let mut d = Delta::default();
        match &resp {
            Err(e) => {
                self.label("route_refused");
                if sure && !must_fail && !malformed && min.is_none() {
                    // only when the first hop is really possible according to the pair itself
                    let (o, k) = hops[0];
                    let a0 = self.b(self.router, o).saturating_add(sent.filter(|s| s.0 == o).map(|s| s.1).unwrap_or(0));
                    let p = self.find_pair(o, k).unwrap();
                    if self.simulate(p, &self.infos[o].clone(), a0).is_ok() {
                        self.diverge("C19", format!("{}: refused: {}", what, e));
                        if clean {
                            self.diverge("C22", format!("{}: quoted {:?} but refused: {}", what, quote.as_ref().map(|q| q.as_ref().map(|x| x.amount).ok()), e));
                        }
                    }
                }
            }
            Ok(r) => {
                self.label("route_ok");
                if hops.len() > 1 {
                    self.label("route_multi_hop");
                }
                if !distinct {
                    self.label("route_revisits");
                }
                if malformed {
                    self.diverge("C21", format!("{}: malformed route accepted", what));
                }
                if must_fail {
                    self.diverge("C19", format!("{}: accepted although it cannot be carried out", what));
                }
                let evs = swap_events(r);
                // rebuild from the pairs' reports
                let mut hold: Vec<u128> = (0..self.na()).map(|a| self.b(self.router, a)).collect();
                if let Some((ix, a)) = sent {
                    d.sub(u, ix, a);
                    d.add(self.router, ix, a);
                    hold[ix] = hold[ix].saturating_add(a);
                }
                let have_ev = evs.len() == hops.len();
                if !evs.is_empty() && !have_ev {
                    self.diverge("C19", format!("{}: {} swaps executed", what, evs.len()));
                }
                let mut res: Vec<[u128; 2]> = (0..self.pairs.len()).map(|p| self.reserves(p)).collect();
                let mut final_out = 0;
                let on: Vec<Option<usize>> = hops.iter().map(|(o, k)| self.find_pair(*o, *k)).collect();
                let each_once = (0..on.len()).all(|i| !on[..i].contains(&on[i]));
                for (n, (o, k)) in hops.iter().enumerate() {
                    let p = match self.find_pair(*o, *k) {
                        Some(p) => p,
                        None => {
                            self.diverge("C22", format!("{}: executed through a missing pair", what));
                            break;
                        }
                    };
                    let a = hold[*o];
                    let oi = usize::from(self.pairs[p].a[1] == *o);
                    let sp = spec::swap(res[p][oi], res[p][1 - oi], a);
                    let ev = if have_ev { Some(evs[n].clone()) } else { None };
                    if let Some(e) = &ev {
                        if e.pair != self.pairs[p].addr {
                            let m = format!("{}: hop {} went to {} instead of {}", what, n, e.pair, self.pairs[p].addr);
                            self.diverge("C19", m);
                        }
                        if let Some(off) = e.offer {
                            if off != a {
                                self.diverge("C19", format!("{}: hop {} sold {} of the router's {}", what, n, off, a));
                            }
                        }
                    }
                    if self.want("C31") && each_once {
                        let now = self.ch.balance(&self.infos[*k], &self.pairs[p].addr.clone()).unwrap_or(0);
                        let mut exp = vec![
                            ("sender", router.clone()),
                            ("offer_asset", self.infos[*o].to_string()),
                            ("ask_asset", self.infos[*k].to_string()),
                            ("offer_amount", a.to_string()),
                        ];
                        if !special {
                            exp.push(("return_amount", res[p][1 - oi].saturating_sub(now).to_string()));
                        }
                        if n + 1 == hops.len() {
                            exp.push(("receiver", self.accs[rcv].clone()));
                        }
                        let e = expect_report(r, &self.pairs[p].addr.clone(), "action", Some("swap"), &exp);
                        self.reported(&what, e, "event_hop");
                    }
                    let ret = ev.and_then(|e| e.ret).or(sp.map(|s| s.ret)).unwrap_or(0);
                    let acc = self.pairs[p].acc;
                    d.sub(self.router, *o, a);
                    d.add(acc, *o, a);
                    d.sub(acc, *k, ret);
                    hold[*o] = 0;
                    res[p][oi] = res[p][oi].saturating_add(a);
                    res[p][1 - oi] = res[p][1 - oi].saturating_sub(ret);
                    if n + 1 == hops.len() {
                        d.add(rcv, *k, ret);
                        final_out = ret;
                    } else {
                        d.add(self.router, *k, ret);
                        hold[*k] = hold[*k].saturating_add(ret);
                    }
                }
                if final_out > 0 {
                    self.hit("C19");
                }
                if let (Some(lx), Some(m)) = (last, used_min) {
                    // measured rise of the recipient through the route
                    let now = self.ch.balance(&self.infos[lx], &self.accs[rcv].clone()).unwrap_or(0);
                    let mut before = B::new(self.b(rcv, lx));
                    if let Some((ix, a)) = sent {
                        if ix == lx && rcv == u {
                            before = before.sat_sub(&B::new(a));
                        }
                        if ix == lx && rcv == self.router {
                            before = before + B::new(a);
                        }
                    }
                    self.hit("C20");
                    self.label("min_met");
                    if B::new(now) < before + B::new(m) {
                        self.diverge("C20", format!("{}: completed, but the recipient only went from {} to {}", what, before, now));
                    }
                }
                if let (Some(lx), Some(e)) = (last, refused_by_min) {
                    let m = min.unwrap();
                    let now = self.ch.balance(&self.infos[lx], &self.accs[rcv].clone()).unwrap_or(0);
                    let mut before = B::new(self.b(rcv, lx));
                    if let Some((ix, a)) = sent {
                        if ix == lx && rcv == u {
                            before = before.sat_sub(&B::new(a));
                        }
                    }
                    self.hit("C20");
                    self.label("min_refused");
                    if !special && B::new(now) >= before + B::new(m) {
                        self.diverge("C20", format!("{}: refused ({}) although the output reaches the minimum: recipient {} -> {} without it", what, e, before, now));
                    }
                }
                if let (Some(q), true) = (&quote, clean) {
                    match q {
                        Ok(q) if q.amount.u128() != final_out => {
                            self.diverge("C22", format!("{}: quoted {} but delivered {}", what, q.amount, final_out))
                        }
                        Err(e) => self.diverge("C22", format!("{}: executed but the quote failed: {}", what, e)),
                        _ => {
                            self.hit("C22");
                            self.label("quote_vs_execution");
                        }
                    }
                }
            }
        }
        self.settle(&what, &d, &[], &["C19"], None);
    }

    /// a second, an hour, months or ten years go by
    fn wait(&mut self, y: u8) {
        let s = [1u64, 3_600, 86_400 * 31 * (1 + y as u64 / 4), 315_576_000][y as usize % 4];
        self.ch.app.update_block(|b| {
            b.height += 1 + s / 5;
            b.time = b.time.plus_seconds(s);
        });
    }

    fn step(&mut self, op: &Op) {
        let np = self.pairs.len();
        if np == 0 {
            return;
        }
        if op.list.first().map(|x| x % 6 == 0).unwrap_or(false) {
            self.wait(op.y);
        }
        let u = op.u as usize % self.nusers;
        let u = if self.cfg.users == 1 && self.solo.is_some() && op.u < 220 { 1 } else { u };
        if u != 1 {
            self.solo = None;
        }
        let p = op.p as usize % np;
        let o = usize::from(op.side);
        let ix = self.pairs[p].a;
        let to = self.pick_acc(op.to);
        // now and then somebody acts for the owner of the tokens
        self.agent = None;
        if let (K::Swap | K::Withdraw | K::Route, Some(g)) = (op.k, op.list.get(1).filter(|g| **g % 8 == 0)) {
            self.agent = Some(*g as usize / 8 % self.nusers);
            if self.agent != Some(u) {
                self.solo = None;
            }
        }
        match op.k {
            K::Provide => {
                let r = self.reserves(p);
                let mut am = [0u128; 2];
                for i in 0..2 {
                    am[i] = self.resolve(&op.amt[i], self.b(u, ix[i]), r[i]);
                }
                if op.fl & 0x3 != 0 && r[0] > 0 && r[1] > 0 {
                    // proportional, possibly off by a little
                    let v = (B::new(am[0]) * B::new(r[1])).div(&B::new(r[0])).u128().unwrap_or(u128::MAX);
                    let v = match op.fl & 0x3 {
                        1 => v,
                        2 => v.saturating_add((op.x & 3) as u128),
                        _ => (B::new(v) * B::new(900_000 + (op.x as u128) * 800)).div(&B::new(1_000_000)).u128().unwrap_or(v),
                    };
                    let v = v.min(self.b(u, ix[1]));
                    am[1] = v;
                }
                if self.want("C08") && self.lp_supply(p) == 0 && op.fl & 0x10 == 0 {
                    // near the minimums
                    let req = &self.pairs[p].info.requirements;
                    let mins = [req.first_asset_minimum.u128(), req.second_asset_minimum.u128()];
                    for i in 0..2 {
                        let k = (op.x >> (4 * i)) & 7;
                        am[i] = match k {
                            0 => mins[i].saturating_sub(1),
                            1 | 2 | 5 => mins[i],
                            3 | 6 => mins[i].saturating_add(1),
                            4 => mins[1 - i],
                            _ => am[i],
                        }
                        .min(self.b(u, ix[i]));
                    }
                }
                let rev = op.fl & 0x4 != 0;
                let slip = match &op.lim {
                    Lim::None => None,
                    Lim::Raw(v) => Some(*v),
                    l => {
                        // the exact tolerance: 1 - min over directions of (p_i*d_j)/(p_j*d_i)
                        let (n, d) = (B::new(r[0]) * B::new(am[1]), B::new(r[1]) * B::new(am[0]));
                        if n.is_zero() || d.is_zero() {
                            Some(E18 / 100)
                        } else {
                            let keep = if n <= d { (n * B::e18()).div(&d) } else { (d * B::e18()).div(&n) };
                            let t = E18 - keep.u128().unwrap_or(0).min(E18);
                            Some(match l {
                                Lim::At(k) if *k >= 0 => t.saturating_add((*k / 8) as u128),
                                Lim::At(k) => t.saturating_sub((k / 8).unsigned_abs() as u128),
                                Lim::AtPpm(m) => (B::new(t) * B::new(*m as u128)).div(&B::new(1_000_000)).u128().unwrap_or(t),
                                _ => t,
                            })
                        }
                    }
                };
                let odd = if op.fl & 0xff00 != 0 { ((op.fl >> 8) % 10) as u8 } else { 0 };
                let recv = if op.fl & 0x8 != 0 { to } else { None };
                self.provide(u, p, am, rev, slip, recv, odd, op.y);
            }
            K::Withdraw => {
                let s = self.lp_supply(p);
                // prefer a holder
                let lpx = self.pairs[p].lp_ix;
                let u = if self.b(u, lpx) == 0 && self.solo.is_none() { (0..self.nusers).find(|v| self.b(*v, lpx) > 0).unwrap_or(u) } else { u };
                let have = self.b(u, lpx);
                let a = if op.fl & 0x3 == 0 { have } else { self.resolve(&op.amt[0], have, s) };
                self.withdraw(u, p, a);
            }
            K::Swap => {
                let o = if matches!(self.infos[ix[o]], AssetInfo::Token { .. }) { o } else { 1 - o };
                let a = self.resolve(&op.amt[0], self.b(u, ix[o]), self.reserves(p)[o]);
                self.swap(u, p, o, a, to, &op.bel, &op.lim);
            }
            K::Quote => {
                let r = self.reserves(p)[o];
                let a = match &op.amt[0] {
                    Amt::Abs(v) | Amt::Over(v) => *v,
                    x => self.resolve(x, u128::MAX, r),
                };
                self.quote(p, o, a, op.fl);
            }
            K::RevQuote => {
                if op.fl & 0x300 == 0x300 {
                    self.quote(p, o, 5, op.fl);
                    return;
                }
                let y = self.reserves(p)[1 - o];
                let b = match &op.amt[0] {
                    Amt::Over(v) => *v,
                    Amt::Abs(v) if y > 0 => v % y,
                    Amt::Abs(v) => *v,
                    Amt::Cell(i, k) => self.cell(*i, *k) % y.max(1),
                    Amt::Pool(q) | Amt::Bal(q) => (B::new(y) * B::new((q % 1_000_000) as u128)).div(&B::new(1_000_000)).u128().unwrap(),
                    Amt::BalPlus(k) => {
                        // around the largest obtainable amount
                        let m = (B::new(y) * B::new(997)).div(&B::new(1000)).u128().unwrap();
                        if *k >= 0 {
                            m.saturating_add(*k as u128)
                        } else {
                            m.saturating_sub(k.unsigned_abs() as u128 + (op.x as u128))
                        }
                    }
                };
                self.rev_quote(p, o, b);
            }
            K::Route | K::RouteQuote => {
                let toks: Vec<usize> = (0..self.na() - np).filter(|i| op.k == K::RouteQuote || matches!(self.infos[*i], AssetInfo::Token { .. })).collect();
                let start = if matches!(self.infos[ix[o]], AssetInfo::Token { .. }) || op.k == K::RouteQuote { ix[o] } else { ix[1 - o] };
                let mut hops = self.walk(start, &op.list, op.k == K::RouteQuote || op.fl & 0xf000 != 0);
                if op.fl & 0xff00 != 0 {
                    // arbitrary hop inserted or replaced
                    let h = (toks[op.x as usize % toks.len()], op.y as usize % self.na());
                    match op.fl & 0x0700 {
                        0x0100 => hops.push(h),
                        0x0200 => {
                            let i = op.x as usize % (hops.len() + 1);
                            hops.insert(i, h)
                        }
                        0x0300 if !hops.is_empty() => {
                            let i = op.x as usize % hops.len();
                            hops[i] = h
                        }
                        0x0400 => hops.reverse(),
                        0x0500 => hops.clear(),
                        _ => {}
                    }
                }
                if op.k == K::RouteQuote {
                    let r = self.reserves(p)[o];
                    let a = match &op.amt[0] {
                        Amt::Abs(v) | Amt::Over(v) => *v,
                        x => self.resolve(x, u128::MAX, r),
                    };
                    self.route_quote(&hops, a);
                    return;
                }
                let a = self.resolve(&op.amt[0], self.b(u, start), self.reserves(p)[usize::from(start == ix[1])]);
                let start = if op.fl & 0x8000 != 0 && op.fl & 0x0800 != 0 { toks[op.y as usize % toks.len()] } else { start };
                self.route(u, Some((start, a)), &hops, to, &op.lim, None);
            }
            K::RouterDirect => {
                // the router's own holdings, called by anyone
                let held: Vec<usize> = (0..self.na()).filter(|i| self.b(self.router, *i) > 0 && matches!(self.infos[*i], AssetInfo::Token { .. })).collect();
                let start = if held.is_empty() { ix[o] } else { held[op.x as usize % held.len()] };
                let hops = self.walk(start, &op.list, false);
                let claim = if op.fl & 1 == 1 { Some(op.y as usize % self.accs.len()) } else { None };
                self.route(u, None, &hops, to, &op.lim, claim);
            }
            K::RouterBad => {
                let router = self.ch.router.clone();
                let toks: Vec<usize> = (0..self.na() - np).filter(|i| matches!(self.infos[*i], AssetInfo::Token { .. })).collect();
                let ti = toks[op.x as usize % toks.len()];
                let a = self.resolve(&op.amt[0], self.b(u, ti), 1000);
                match op.fl & 3 {
                    0 => self.route(u, Some((ti, a)), &[], to, &op.lim, None),
                    1 => {
                        // two walks from different starts, usually more than one final asset
                        let mut hops = self.walk(ti, &op.list[..1], false);
                        let t2 = toks[op.y as usize % toks.len()];
                        hops.extend(self.walk(t2, &op.list, false));
                        self.route(u, Some((ti, a)), &hops, to, &op.lim, None);
                    }
                    _ => {
                        // not a route at all
                        let msgs: [&[u8]; 6] = [b"", b"{}", b"{\"swap\":{}}", b"{\"withdraw_liquidity\":{}}", b"null", b"{\"execute_swap_operation\":{\"operation\":{\"halo_swap\":{}},\"to\":null}}"];
                        let m = msgs[op.y as usize % msgs.len()];
                        let token = self.infos[ti].to_string();
                        let sender = self.accs[u].clone();
                        let what = format!("{} sends {} {} to the router with message {:?}", sender, a, token, String::from_utf8_lossy(m));
                        self.trace.push(what.clone());
                        let r = self.ch.send_cw20_raw(&sender, &token, &router, a, m.into());
                        self.hit("C21");
                        self.label("router_not_a_route");
                        if r.is_ok() {
                            self.diverge("C21", format!("{}: accepted", what));
                            self.snap = match self.take() {
                                Ok(s) => s,
                                Err(_) => return,
                            };
                        } else {
                            self.unchanged(&what, &["C21"]);
                        }
                    }
                }
            }
            K::RouterInternal => {
                let router = self.ch.router.clone();
                let c: Vec<usize> = (0..self.accs.len()).filter(|i| *i != self.router).collect();
                let s = c[op.x as usize % c.len()];
                let held: Vec<usize> = (0..self.na()).filter(|i| self.b(self.router, *i) > 0).collect();
                let start = if held.is_empty() { ix[o] } else { held[op.y as usize % held.len()] };
                let hops = self.walk(start, &op.list[..1], true);
                if hops.is_empty() {
                    return;
                }
                let operation = self.ops_of(&hops)[0].clone();
                let sender = self.accs[s].clone();
                let what = format!("{} runs the single hop {:?} on the router (to {:?})", sender, hops[0], to.map(|t| self.accs[t].clone()));
                self.trace.push(what.clone());
                let funded = self.b(self.router, hops[0].0) > 0;
                let r = self.ch.exec(&sender, &router, &RouterExec::ExecuteSwapOperation { operation, to: to.map(|t| self.accs[t].clone()) }, &[]);
                if funded {
                    self.hit("C21");
                    self.label("internal_with_holdings");
                }
                if r.is_ok() {
                    self.diverge("C21", format!("{}: accepted", what));
                    self.snap = match self.take() {
                        Ok(s) => s,
                        Err(_) => return,
                    };
                } else {
                    self.unchanged(&what, &["C21"]);
                }
            }
            K::Donate => {
                let d = if op.fl & 1 == 1 { self.router } else { to.unwrap_or(self.pairs[p].acc) };
                let i = if op.fl & 2 == 0 { ix[o] } else { op.x as usize % self.na() };
                let a = self.resolve(&op.amt[0], self.b(u, i), self.reserves(p)[o]);
                self.solo = None;
                self.transfer(u, d, i, a);
            }
            K::Forge => {
                let paddr = self.pairs[p].addr.clone();
                // candidate senders: every account and every token contract
                let mut c: Vec<String> = self.accs.clone();
                c.extend(self.infos.iter().filter(|i| matches!(i, AssetInfo::Token { .. })).map(|i| i.to_string()));
                let s = c[op.x as usize % c.len()].clone();
                let legit_swap = ix.iter().any(|i| matches!(&self.infos[*i], AssetInfo::Token{contract_addr} if *contract_addr == s));
                let legit_wd = self.pairs[p].lp == s;
                let wd = op.fl & 1 == 1;
                if (wd && legit_wd) || (!wd && legit_swap) {
                    return;
                }
                let claimed = self.accs[op.y as usize % self.accs.len()].clone();
                let r = self.reserves(p)[o];
                let a = match &op.amt[0] {
                    Amt::Pool(q) | Amt::Bal(q) => (B::new(if wd { self.lp_supply(p) } else { r }) * B::new(*q as u128)).div(&B::new(1_000_000)).u128().unwrap_or(1),
                    Amt::Abs(v) | Amt::Over(v) => *v,
                    Amt::BalPlus(k) => k.unsigned_abs() as u128,
                    Amt::Cell(i, k) => self.cell(*i, *k),
                };
                let msg = if wd {
                    cosmwasm_std::to_binary(&PairHook::WithdrawLiquidity {}).unwrap()
                } else {
                    cosmwasm_std::to_binary(&PairHook::Swap { belief_price: None, max_spread: None, to: to.map(|t| self.accs[t].clone()) }).unwrap()
                };
                let what = format!("{} notifies pair {} of {} tokens from {} ({})", s, p, a, claimed, if wd { "withdraw" } else { "swap" });
                self.trace.push(what.clone());
                if self.lp_supply(p) > 0 {
                    self.hit("C12");
                    self.label(if wd { "forged_withdraw" } else { "forged_swap" });
                }
                let r = self.ch.exec(&s, &paddr, &PairExec::Receive(Cw20ReceiveMsg { sender: claimed, amount: Uint128::new(a), msg }), &[]);
                if r.is_ok() {
                    self.diverge("C12", format!("{}: accepted", what));
                    self.snap = match self.take() {
                        Ok(s) => s,
                        Err(_) => return,
                    };
                } else {
                    self.unchanged(&what, &["C12"]);
                }
            }
            K::WrongSend => {
                let toks: Vec<usize> = (0..self.na()).filter(|i| matches!(self.infos[*i], AssetInfo::Token { .. })).collect();
                let held: Vec<usize> = toks.iter().copied().filter(|i| self.b(u, *i) > 0).collect();
                let c = if held.is_empty() { toks } else { held };
                let ti = c[op.x as usize % c.len()];
                let kind = op.fl & 3;
                let legit_swap = ix.contains(&ti);
                let legit_wd = self.pairs[p].lp_ix == ti;
                if (kind == 0 && legit_wd) || ((kind == 1 || kind == 2) && legit_swap) {
                    return;
                }
                let msg: cosmwasm_std::Binary = match kind {
                    0 => cosmwasm_std::to_binary(&PairHook::WithdrawLiquidity {}).unwrap(),
                    1 | 2 => cosmwasm_std::to_binary(&PairHook::Swap { belief_price: None, max_spread: None, to: to.map(|t| self.accs[t].clone()) }).unwrap(),
                    _ => {
                        let l: [&[u8]; 4] = [b"", b"{}", b"{\"provide_liquidity\":{}}", b"{\"withdraw\":{}}"];
                        l[op.y as usize % 4].into()
                    }
                };
                let a = self.resolve(&op.amt[0], self.b(u, ti), 1000).max(1);
                let (sender, token, paddr) = (self.accs[u].clone(), self.infos[ti].to_string(), self.pairs[p].addr.clone());
                let what = format!("{} sends {} of {} to pair {} with {}", sender, a, token, p, String::from_utf8_lossy(msg.as_slice()));
                self.trace.push(what.clone());
                if self.b(u, ti) >= a && self.lp_supply(p) > 0 {
                    self.hit("C12");
                    self.label(match kind {
                        0 => "wrong_withdraw",
                        1 | 2 => "wrong_swap",
                        _ => "garbage_hook",
                    });
                }
                let r = self.ch.send_cw20_raw(&sender, &token, &paddr, a, msg);
                if r.is_ok() {
                    self.diverge("C12", format!("{}: accepted", what));
                    self.snap = match self.take() {
                        Ok(s) => s,
                        Err(_) => return,
                    };
                } else {
                    self.unchanged(&what, &["C12"]);
                }
            }
            K::LpMint => {
                // mint attempts by everyone but the pair
                let c: Vec<usize> = (0..self.accs.len()).filter(|i| *i != self.pairs[p].acc).collect();
                let s = c[op.x as usize % c.len()];
                let lp = self.pairs[p].lp.clone();
                let sender = self.accs[s].clone();
                let rcp = self.accs[to.unwrap_or(s)].clone();
                let a = match &op.amt[0] {
                    Amt::Abs(v) | Amt::Over(v) => (*v).max(1),
                    _ => 1000,
                };
                let what = format!("{} mints {} pool tokens of pair {} to {}", sender, a, p, rcp);
                self.trace.push(what.clone());
                self.hit("C13");
                self.label("mint_attempt");
                let r = self.ch.exec(&sender, &lp, &Cw20ExecuteMsg::Mint { recipient: rcp, amount: Uint128::new(a) }, &[]);
                if r.is_ok() {
                    self.diverge("C13", format!("{}: accepted", what));
                    self.snap = match self.take() {
                        Ok(s) => s,
                        Err(_) => return,
                    };
                } else {
                    self.unchanged(&what, &["C13"]);
                }
            }
            K::LpBurn => {
                let lpx = self.pairs[p].lp_ix;
                let u = if self.b(u, lpx) == 0 && self.solo.is_none() { (0..self.nusers).find(|v| self.b(*v, lpx) > 0).unwrap_or(u) } else { u };
                let have = self.b(u, lpx);
                // leave something most of the time
                let a = if op.fl & 7 == 0 { have } else { self.resolve(&op.amt[0], have, have / 3) / 3 };
                self.solo = None;
                let (lp, sender) = (self.pairs[p].lp.clone(), self.accs[u].clone());
                let what = format!("{} burns {} of {} pool tokens of pair {}", sender, a, have, p);
                self.trace.push(what.clone());
                let r = self.ch.exec(&sender, &lp, &Cw20ExecuteMsg::Burn { amount: Uint128::new(a) }, &[]);
                let mut d = Delta::default();
                let mut sup = vec![];
                if r.is_ok() {
                    d.sub(u, lpx, a);
                    sup.push((lpx, false, a));
                }
                self.settle(&what, &d, &sup, &["C13"], None);
            }
            K::LpXfer => {
                let lpx = self.pairs[p].lp_ix;
                let u = if self.b(u, lpx) == 0 { (0..self.nusers).find(|v| self.b(*v, lpx) > 0).unwrap_or(u) } else { u };
                let a = self.resolve(&op.amt[0], self.b(u, lpx), self.lp_supply(p));
                self.solo = None;
                let t = to.unwrap_or(op.x as usize % self.nusers);
                self.transfer(u, t, lpx, a);
            }
            K::Migrate => {
                let f = self.ch.factory.clone();
                let sender = if op.fl & 3 == 0 { self.accs[op.x as usize % self.accs.len()].clone() } else { self.owner.clone() };
                let code = match op.y % 5 {
                    0 => None,
                    1 => Some(self.ch.codes.pair),
                    2 | 3 => Some(self.ch.codes.pair2),
                    _ => Some(9999),
                };
                let paddr = self.pairs[p].addr.clone();
                let what = format!("{} migrates pair {} to {:?}", sender, p, code);
                self.trace.push(what.clone());
                let r = self.ch.exec(&sender, &f, &haloswap::factory::ExecuteMsg::MigratePair { contract: paddr, code_id: code }, &[]);
                let auth = sender == self.owner;
                let target = code.unwrap_or(self.cfg_codes.0);
                if auth {
                    self.hit("C18");
                }
                self.hit("C16");
                self.label(if auth { "migrate_owner" } else { "migrate_outsider" });
                match r {
                    Ok(_) => {
                        if !auth {
                            self.diverge("C16", format!("{}: accepted, owner is {}", what, self.owner));
                        }
                        self.pairs[p].code = target;
                    }
                    Err(e) => {
                        if auth && target != 9999 {
                            self.diverge("C18", format!("{}: refused: {}", what, e));
                            self.diverge("C16", format!("{}: refused: {}", what, e));
                        }
                    }
                }
                self.unchanged(&what, &["C18"]);
            }
            K::Rewrite => {
                let what = "the stored state is rewritten in the released layout".to_string();
                self.trace.push(what.clone());
                let before = self.surface();
                let toks: Vec<String> = self.infos.iter().filter(|i| !i.is_native_token()).map(|i| i.to_string()).collect();
                if let Err(e) = self.ch.rewrite_state(&self.cfg.den, &toks, &self.accs) {
                    self.diverge("C34", format!("{}: the present state cannot be read: {}", what, e));
                    return;
                }
                self.hit("C34");
                self.label("state_rewritten");
                if op.fl & 3 == 0 {
                    // as a real upgrade would
                    let (f, r, c) = (self.ch.factory.clone(), self.ch.router.clone(), self.ch.codes);
                    for (n, x) in [("factory", self.ch.migrate(GOV, &f, &haloswap::factory::MigrateMsg {}, c.factory2)), ("router", self.ch.migrate(GOV, &r, &haloswap::router::MigrateMsg {}, c.router2))] {
                        if let Err(e) = x {
                            self.diverge("C34", format!("{}: the {} cannot be upgraded: {}", what, n, e));
                        }
                    }
                }
                let after = self.surface();
                if let Some(i) = (0..before.len().max(after.len())).find(|i| before.get(*i) != after.get(*i)) {
                    self.diverge("C34", format!("{}: before: {:?}; after: {:?}", what, before.get(i), after.get(i)));
                }
                self.unchanged(&what, &["C34"]);
            }
            K::Upgrade => {
                let c = self.ch.codes;
                let (name, addr, code) = match op.x & 3 {
                    0 => ("factory", self.ch.factory.clone(), c.factory),
                    1 => ("factory", self.ch.factory.clone(), c.factory2),
                    2 => ("router", self.ch.router.clone(), c.router2),
                    _ => ("router", self.ch.router.clone(), c.router),
                };
                let what = format!("the chain admin migrates the {} to code {}", name, code);
                self.trace.push(what.clone());
                let before = self.surface();
                let r = if name == "factory" {
                    self.ch.migrate(GOV, &addr, &haloswap::factory::MigrateMsg {}, code)
                } else {
                    self.ch.migrate(GOV, &addr, &haloswap::router::MigrateMsg {}, code)
                };
                self.hit("C29");
                self.label(if name == "factory" { "upgrade_factory" } else { "upgrade_router" });
                if let Err(e) = r {
                    self.diverge("C29", format!("{}: refused: {}", what, e));
                }
                let after = self.surface();
                if let Some(i) = (0..before.len().max(after.len())).find(|i| before.get(*i) != after.get(*i)) {
                    self.diverge("C29", format!("{}: before: {:?}; after: {:?}", what, before.get(i), after.get(i)));
                }
                self.unchanged(&what, &["C29"]);
            }
            K::Seize => {
                // everyone but the pair itself and, for the pair, the factory
                let (addr, lp) = (self.pairs[p].addr.clone(), self.pairs[p].lp.clone());
                let c: Vec<String> = self.accs.iter().chain(self.pairs.iter().map(|q| &q.lp)).filter(|a| **a != addr).cloned().collect();
                let s = c[op.x as usize % c.len()].clone();
                let gain = self.accs[to.unwrap_or(0)].clone();
                let codes = self.ch.codes;
                let (what, r) = match op.y % 7 {
                    0 if s != self.ch.factory => ("migrates the pair", self.ch.migrate(&s, &addr, &haloswap::pair::MigrateMsg {}, codes.pair2)),
                    1 if s != self.ch.factory => ("takes over the admin of the pair", self.ch.set_admin(&s, &addr, if op.side { Some(&gain) } else { None })),
                    2 => ("migrates the pool token", self.ch.migrate(&s, &lp, &haloswap::pair::MigrateMsg {}, if op.side { codes.token2 } else { codes.pair2 })),
                    3 => ("takes over the admin of the pool token", self.ch.set_admin(&s, &lp, Some(&gain))),
                    4 => ("becomes the minter of the pool token", self.ch.exec(&s, &lp, &Cw20ExecuteMsg::UpdateMinter { new_minter: if op.side { Some(gain) } else { None } }, &[])),
                    5 => ("mints pool tokens", self.ch.exec(&s, &lp, &Cw20ExecuteMsg::Mint { recipient: gain, amount: Uint128::new(1 + op.fl as u128) }, &[])),
                    _ => ("creates the pool token again", self.ch.exec(&s, &addr, &haloswap::pair::InstantiateMsg {
                        asset_infos: self.pairs[p].info.asset_infos.clone(),
                        token_code_id: codes.token2,
                        asset_decimals: self.pairs[p].info.asset_decimals,
                        requirements: self.pairs[p].info.requirements.clone(),
                    }, &[])),
                };
                let what = format!("{} {} of pair {}", s, what, p);
                self.trace.push(what.clone());
                self.hit("C30");
                self.label(["seize_migrate_pair", "seize_admin_pair", "seize_migrate_lp", "seize_admin_lp", "seize_minter", "seize_mint", "seize_init"][op.y as usize % 7]);
                if r.is_ok() {
                    self.diverge("C30", format!("{}: accepted", what));
                }
                self.unchanged(&what, &["C30"]);
            }
            K::UpdCfg => {
                let f = self.ch.factory.clone();
                let sender = if op.fl & 3 == 0 { self.accs[op.x as usize % self.accs.len()].clone() } else { self.owner.clone() };
                let owner = if op.fl & 4 != 0 { Some(self.accs[op.y as usize % self.accs.len()].clone()) } else { None };
                let pair_code_id = if op.fl & 8 != 0 { Some(if op.side { self.ch.codes.pair } else { self.ch.codes.pair2 }) } else { None };
                let token_code_id = if op.fl & 16 != 0 { Some(if op.p & 1 == 0 { self.ch.codes.token } else { self.ch.codes.token2 }) } else { None };
                let what = format!("{} updates the configuration: owner {:?} pair code {:?} token code {:?}", sender, owner, pair_code_id, token_code_id);
                self.trace.push(what.clone());
                let r = self.ch.exec(&sender, &f, &haloswap::factory::ExecuteMsg::UpdateConfig { owner: owner.clone(), token_code_id, pair_code_id }, &[]);
                let auth = sender == self.owner;
                self.hit("C16");
                match r {
                    Ok(_) => {
                        if !auth {
                            self.diverge("C16", format!("{}: accepted, owner is {}", what, self.owner));
                        }
                        if let Some(o) = owner {
                            self.owner = o;
                        }
                        if let Some(c) = pair_code_id {
                            self.cfg_codes.0 = c;
                        }
                        if let Some(c) = token_code_id {
                            self.cfg_codes.1 = c;
                        }
                    }
                    Err(e) => {
                        if auth {
                            self.diverge("C16", format!("{}: refused: {}", what, e));
                        }
                    }
                }
                match self.ch.query::<_, haloswap::factory::ConfigResponse>(&f, &haloswap::factory::QueryMsg::Config {}) {
                    Ok(c) => {
                        if c.owner != self.owner || (c.pair_code_id, c.token_code_id) != self.cfg_codes {
                            let m = format!("{}: configuration is {:?}, expected owner {} codes {:?}", what, c, self.owner, self.cfg_codes);
                            self.diverge("C16", m);
                        }
                    }
                    Err(e) => self.diverge("C16", format!("{}: Config query failed: {}", what, e)),
                }
                self.unchanged(&what, &["C16"]);
            }
        }
    }
}

/// Runs a case; the outcome concerns property `want` only.
pub fn check(case: &Case, want: &str) -> Outcome {
    let mut w = match World::new(&case.cfg, want) {
        Ok(w) => w,
        Err((tag, m)) => {
            if tag == want {
                return Outcome::fail(m);
            }
            return Outcome { fail: None, nontrivial: false, labels: vec![("setup_refused", 1)] };
        }
    };
    for op in &case.ops {
        if w.fail.is_some() {
            break;
        }
        w.step(op);
    }
    if want == "C33" && w.fail.is_none() {
        w.agent = None;
        w.exits(case.ops.len());
    }
    let fail = w.fail.take().filter(|m| !m.is_empty()).map(|m| {
        let n = w.trace.len();
        let hist: Vec<String> = w.trace.iter().enumerate().map(|(i, t)| format!("  {:>2}. {}", i + 1, t)).collect();
        format!("{}\nhistory ({} operations):\n{}", m, n, hist.join("\n"))
    });
    Outcome { fail, nontrivial: w.hits > 0, labels: w.labels.iter().map(|(k, v)| (*k, *v)).collect() }
}

/// C18, C29: the same history with and without its migrations (of pairs; of factory and router) ends in the same state.
pub fn check_twin(case: &Case, kind: K) -> Outcome {
    let run = |skip: bool| -> Result<(World, u32), (&'static str, String)> {
        let mut w = World::new(&case.cfg, "twin")?;
        let mut migrated = 0;
        for op in &case.ops {
            if op.k == kind {
                if skip {
                    continue;
                }
                let l = w.ch.log.len();
                w.step(op);
                w.ch.log.truncate(l);
                migrated += 1;
                continue;
            }
            w.step(op);
        }
        Ok((w, migrated))
    };
    match (run(false), run(true)) {
        (Ok((a, m)), Ok((b, _))) => {
            let surf = |w: &World| -> Vec<String> {
                if kind == K::Migrate {
                    vec![] // code numbers differ
                } else {
                    w.surface()
                }
            };
            let (sa, sb) = (surf(&a), surf(&b));
            let hist = || a.trace.iter().enumerate().map(|(i, t)| format!("  {:>2}. {}", i + 1, t)).collect::<Vec<_>>().join("\n");
            let fail = if a.ch.log != b.ch.log {
                let i = (0..).find(|i| a.ch.log.get(*i) != b.ch.log.get(*i)).unwrap();
                Some(format!("call {} of a history is {:?} with its migrations and {:?} without (true: accepted)\nhistory:\n{}", i + 1, a.ch.log.get(i), b.ch.log.get(i), hist()))
            } else if let Some(i) = (0..sa.len().max(sb.len())).find(|i| sa.get(*i) != sb.get(*i)) {
                Some(format!("after a history with migrations: {:?}; without: {:?}\nhistory:\n{}", sa.get(i), sb.get(i), hist()))
            } else if a.snap != b.snap {
                let d: Vec<String> = (0..a.snap.bal.len())
                    .filter(|i| a.snap.bal[*i] != b.snap.bal[*i])
                    .map(|i| format!("balance of {} in {}: {} with, {} without", a.accs[i / a.na()], a.infos[i % a.na()], a.snap.bal[i], b.snap.bal[i]))
                    .collect();
                Some(format!("migrations changed the outcome of a history: {:?}\nhistory:\n{}", d, hist()))
            } else {
                None
            };
            Outcome { fail, nontrivial: m > 0 && case.ops.last().map(|o| o.k != kind).unwrap_or(false), labels: vec![("twin_migrations", m)] }
        }
        _ => Outcome { fail: None, nontrivial: false, labels: vec![("setup_refused", 1)] },
    }
}

fn told(w: &World) -> String {
    w.trace.iter().enumerate().map(|(i, t)| format!("  {:>2}. {}", i + 1, t)).collect::<Vec<_>>().join("\n")
}

/// C36: the same deployment under other names, other addresses, other users and other listings has the same history.
pub fn check_neutral(case: &Case, salt: u64) -> Outcome {
    let n = case.cfg.users as usize + 1;
    let pool = ["zoe", "ali", "alice", "user1", "bob", "factory", "alicea", "user0", "treasury", "0xdead"];
    let at = salt as usize % pool.len();
    let users: Vec<String> = (0..n).map(|i| pool[(at + i) % pool.len()].to_string()).collect();
    let coins = ["zcoin", "aa", "ibc/27394FB092D2ECCD56123C74F36E4C1F926001CEADA9CA97EA622B25F41E5EB2", "ibc/27394FB092D2ECCD56123C74F36E4C1F926001CEADA9CA97EA622B25F41E5EB3", "factory/bob/ucoin", "uatom", "Z", "zz"];
    let at = (salt >> 8) as usize % coins.len();
    let den: Vec<String> = (0..case.cfg.den.len()).map(|i| coins[(at + i) % coins.len()].to_string() + if i >= coins.len() { "x" } else { "" }).collect();
    let names = Names { users, den, pad: (salt >> 16) as u8 % 12, flip: salt >> 24, rev: salt >> 20 & 1 == 1, bare: salt >> 21 & 3 == 3 };
    // operations on "an asset of the same name" must be the same ones in both
    let mut cfg = case.cfg.clone();
    for (i, d) in cfg.den.iter_mut().enumerate().filter(|(_, d)| d.starts_with("contract")) {
        *d = format!("contracto{}", i);
    }
    let a = match World::new(&cfg, "twin") {
        Ok(w) => w,
        Err(_) => return Outcome { fail: None, nontrivial: false, labels: vec![("setup_refused", 1)] },
    };
    let b = match World::named(&cfg, "twin", &names) {
        Ok(w) => w,
        Err((_, e)) => return Outcome::fail(format!("a deployment is possible, but not with users {:?}, coins {:?}, listings {:b}: {}", names.users, names.den, names.flip, e)),
    };
    let mut ws = [a, b];
    let mut done = 0;
    for op in &case.ops {
        if names.bare && (0..ws[0].pairs.len()).any(|p| ws[0].lp_supply(p) == 0) {
            break;
        }
        for w in ws.iter_mut() {
            w.step(op);
        }
        let (a, b) = (&ws[0], &ws[1]);
        let show = |m: String| Outcome::fail(format!("{} (users {:?}, coins {:?}, listings {:b})\nhistory:\n{}\nother:\n{}", m, names.users, names.den, names.flip, told(a), told(b)));
        if a.ch.log != b.ch.log {
            let i = (0..).find(|i| a.ch.log.get(*i) != b.ch.log.get(*i)).unwrap();
            return show(format!("call {} of a history is {:?}, under other names {:?} (true: accepted)", i + 1, a.ch.log.get(i), b.ch.log.get(i)));
        }
        let (x, y) = (a.notes.borrow(), b.notes.borrow());
        if *x != *y {
            let i = (0..).find(|i| x.get(*i) != y.get(*i)).unwrap();
            return show(format!("{:?}, under other names {:?}", x.get(i), y.get(i)));
        }
        if a.snap != b.snap {
            let i = (0..a.snap.bal.len()).find(|i| a.snap.bal[*i] != b.snap.bal[*i]);
            return show(match i {
                Some(i) => format!("balance of {} in {} is {}, under other names {}", a.accs[i / a.na()], a.infos[i % a.na()], a.snap.bal[i], b.snap.bal[i]),
                None => format!("the supplies are {:?}, under other names {:?}", a.snap.sup, b.snap.sup),
            });
        }
        done = a.ch.log.iter().filter(|x| **x).count() + x.len();
    }
    let labels: Vec<_> = ws[0].labels.iter().map(|(k, v)| (*k, *v)).collect();
    Outcome { fail: None, nontrivial: done > 2 + 3 * ws[0].pairs.len(), labels }
}

/// C37: what other people do elsewhere has no influence on a pair they leave alone, nor on its users.
/// Pair `t` and all users but the last belong to the history; odd operations are the last user's, elsewhere.
pub fn check_apart(case: &Case) -> Outcome {
    let refused = || Outcome { fail: None, nontrivial: false, labels: vec![("setup_refused", 1)] };
    let run = |with: bool| -> Option<(World, u32, u32, BTreeMap<&'static str, u32>)> {
        let mut w = World::new(&case.cfg, "twin").ok()?;
        let np = w.pairs.len();
        if np == 0 {
            return None;
        }
        let last = w.nusers - 1;
        let t = case.ops.first().map(|o| o.y as usize % np).unwrap_or(0);
        let (mut here, mut there) = (0, 0);
        let mut labels: BTreeMap<&'static str, u32> = BTreeMap::new();
        for op in &case.ops {
            let mut op = op.clone();
            for a in op.amt.iter_mut() {
                if let Amt::Cell(i, _) = a {
                    *a = Amt::Pool(*i as u32 * 15);
                }
            }
            op.list.truncate(1);
            let elsewhere = op.x & 1 == 1 || matches!(op.k, K::Upgrade | K::UpdCfg | K::Migrate | K::RouteQuote);
            if elsewhere {
                if !with {
                    continue;
                }
                let (l, n) = (w.ch.log.len(), w.notes.borrow().len());
                w.elsewhere(&op, t, last);
                w.ch.log.truncate(l);
                w.notes.borrow_mut().truncate(n);
                there += 1;
                continue;
            }
            op.p = t as u8;
            op.u = (op.u as usize % last) as u8;
            if matches!(op.k, K::Withdraw | K::LpBurn | K::LpXfer) && w.b(op.u as usize, w.pairs[t].lp_ix) == 0 {
                op.u = 0;
                if w.b(0, w.pairs[t].lp_ix) == 0 {
                    continue;
                }
            }
            if !matches!(op.k, K::Provide | K::Withdraw | K::Swap | K::Quote | K::RevQuote | K::LpXfer | K::LpBurn | K::Donate) {
                continue;
            }
            let l = w.ch.log.len();
            w.step(&op);
            here += w.ch.log[l..].iter().filter(|x| **x).count() as u32;
            *labels.entry(match op.k {
                K::Provide => "provide",
                K::Withdraw => "withdraw",
                K::Swap => "swap",
                K::Quote | K::RevQuote => "quote",
                _ => "other",
            })
            .or_default() += 1;
        }
        Some((w, here, there, labels))
    };
    let (Some((a, here, there, labels)), Some((b, ..))) = (run(true), run(false)) else { return refused() };
    let fail = {
        let (x, y) = (a.notes.borrow(), b.notes.borrow());
        let t = case.ops.first().map(|o| o.y as usize % a.pairs.len()).unwrap_or(0);
        let watched: Vec<usize> = (0..a.nusers - 1).chain([a.pairs[t].acc]).collect();
        let moved = watched.iter().flat_map(|c| (0..a.na()).map(move |i| (*c, i))).find(|(c, i)| a.b(*c, *i) != b.b(*c, *i));
        let lp = a.pairs[t].lp_ix;
        let m = if a.ch.log != b.ch.log {
            let i = (0..).find(|i| a.ch.log.get(*i) != b.ch.log.get(*i)).unwrap();
            Some(format!("call {} at pair {} is {:?}, without the operations elsewhere {:?} (true: accepted)", i + 1, t, a.ch.log.get(i), b.ch.log.get(i)))
        } else if *x != *y {
            let i = (0..).find(|i| x.get(*i) != y.get(*i)).unwrap();
            Some(format!("{:?}, without the operations elsewhere {:?}", x.get(i), y.get(i)))
        } else if let Some((c, i)) = moved {
            Some(format!("balance of {} in {} is {}, without the operations elsewhere {}", a.accs[c], a.infos[i], a.b(c, i), b.b(c, i)))
        } else if a.snap.sup[lp] != b.snap.sup[lp] {
            Some(format!("the supply of pair {} is {}, without the operations elsewhere {}", t, a.snap.sup[lp], b.snap.sup[lp]))
        } else {
            None
        };
        m.map(|m| format!("{}\nhistory:\n{}", m, told(&a)))
    };
    Outcome { fail, nontrivial: here > 0 && there > 0, labels: labels.into_iter().collect() }
}

impl World {
    /// something that the user `who` does, leaving pair `t` and the other users alone
    fn elsewhere(&mut self, op: &Op, t: usize, who: usize) {
        let mut op = op.clone();
        let np = self.pairs.len();
        let others: Vec<usize> = (0..np).filter(|p| *p != t).collect();
        op.u = who as u8;
        let far = |ix: usize, w: &World| (0..w.na()).map(|d| (ix + d) % w.na()).find(|i| !w.pairs[t].a.contains(i));
        match op.k {
            K::Upgrade | K::RouteQuote => return self.step(&op),
            K::UpdCfg => return self.step(&op),
            _ => {}
        }
        if !others.is_empty() && op.y % 4 != 3 {
            op.p = others[op.p as usize % others.len()] as u8;
            op.to = None;
            let lp = self.pairs[op.p as usize].lp_ix;
            match op.k {
                K::Withdraw | K::LpBurn if self.b(who, lp) == 0 => op.k = K::Provide,
                K::LpXfer | K::Route | K::RouterDirect | K::RouterBad | K::RouterInternal | K::Forge | K::WrongSend => op.k = K::Swap,
                K::Donate => op.fl &= 0xfffc,
                _ => {}
            }
            return self.step(&op);
        }
        let by = self.accs[who].clone();
        let f = self.ch.factory.clone();
        let pair = self.pairs[t].info.clone();
        let r = match op.y / 4 % 7 {
            0 => {
                // the owner registers other decimals for a coin
                let d = &self.cfg.den[op.x as usize % self.cfg.den.len()].clone();
                let o = self.owner.clone();
                self.trace.push(format!("the decimals of {} become {}", d, op.p % 30));
                self.ch.add_native(&o, d, op.p % 30).is_ok()
            }
            1 => {
                // a new token and a pair of it with one of the pair's assets
                self.trace.push("a new token and a pair of it with one of the pair's assets are created".into());
                let n = self.ch.new_token("another", op.p % 19, vec![(by.clone(), 1_000_000)], Some(&by));
                match n {
                    Ok(n) => self.ch.create_pair(&by, &[token_info(&n), pair.asset_infos[usize::from(op.side)].clone()], &pair.requirements).is_ok(),
                    Err(_) => false,
                }
            }
            2 => {
                // an unregistered pair of the same assets
                let c = self.ch.codes;
                self.trace.push("a pair of the same assets is instantiated by a user".into());
                let m = haloswap::pair::InstantiateMsg { asset_infos: pair.asset_infos.clone(), token_code_id: c.token2, asset_decimals: [op.p % 19, 6], requirements: pair.requirements.clone() };
                self.ch.instantiate(c.pair2, &by, &m, "pair").is_ok()
            }
            3 => {
                self.trace.push("time passes".into());
                let (h, s) = (1 + op.p as u64 * op.p as u64, op.x as u64 * 40_000);
                self.ch.app.update_block(|b| {
                    b.height += h;
                    b.time = b.time.plus_seconds(s);
                });
                true
            }
            4 => {
                // a duplicate of the pair is refused
                self.trace.push("the same pair is asked for again".into());
                let mut a = pair.asset_infos.clone();
                if op.side {
                    a.reverse();
                }
                self.ch.create_pair(&by, &a, &pair.requirements).is_ok()
            }
            5 => {
                // gifts to factory and router
                let d = if op.side { f } else { self.ch.router.clone() };
                let Some(ix) = far(op.p as usize, self) else { return };
                let a = self.b(who, ix) / 3;
                let dest = self.accs.iter().position(|x| *x == d).unwrap();
                self.transfer(who, dest, ix, a);
                true
            }
            _ => {
                // a second exchange
                let c = self.ch.codes;
                self.trace.push("another factory is instantiated".into());
                self.ch.instantiate(c.factory, &by, &haloswap::factory::InstantiateMsg { pair_code_id: c.pair2, token_code_id: c.token2 }, "factory").is_ok()
            }
        };
        let _ = r;
        if let Ok(s) = self.take() {
            self.snap = s;
        }
    }
}
