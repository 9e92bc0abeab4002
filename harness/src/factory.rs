//! C14-C18: the factory on a real chain against a plain registry model, and address spelling.
use crate::chain::*;
use crate::run::Outcome;
use crate::world::amount;
use cosmwasm_std::{Addr, Api, Uint128};
use cw20::Cw20ExecuteMsg;
use haloswap::asset::{AssetInfo, CreatePairRequirements, PairInfo};
use haloswap::factory::{ConfigResponse, ExecuteMsg, NativeTokenDecimalsResponse, PairsResponse, QueryMsg};
use haloswap::pair::{Cw20HookMsg as PairHook, ExecuteMsg as PairExec, PoolResponse, QueryMsg as PairQuery, SimulationResponse};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Clone, Copy, Debug, Hash, PartialEq, Eq)]
pub enum FK {
    Create,
    CreateOdd,
    Lookup,
    Page,
    AddNative,
    Fund,
    UpdCfg,
    Migrate,
    Use,
    /// the chain admin migrates factory or router
    Upgrade,
    /// the stored state is rewritten as the released version writes it
    Rewrite,
}

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub struct FOp {
    pub k: FK,
    pub s: u8,
    pub a: u8,
    pub b: u8,
    pub x: u8,
    pub fl: u16,
    pub min: [u128; 2],
    pub n: u32,
}

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub struct FCase {
    pub tok_dec: Vec<u8>,
    pub denoms: Vec<String>,
    /// registered at the start with these decimals
    pub nat_dec: Vec<Option<u8>>,
    /// pairs created up front (in an order depending on `perm`)
    pub bulk: u8,
    pub perm: u8,
    pub ops: Vec<FOp>,
}

#[derive(Clone)]
pub struct FProfile {
    pub toks: (usize, usize),
    pub nats: (usize, usize),
    pub bulk: (u8, u8),
    pub ops: (usize, usize),
    pub weights: Vec<(FK, u32)>,
}

pub fn fcase(pf: &FProfile) -> BoxedStrategy<FCase> {
    let denom = prop_oneof![
        6 => "u[a-c]{1,4}",
        2 => "[a-c]{2,3}",
        2 => "u[a-z]{3,8}",
        1 => "contract[0-9]",
        1 => "ibc/[0-9A-F]{12}",
        1 => "[a-zA-Z][a-zA-Z0-9/:._-]{2,12}",
        1 => crate::dict::denom(),
    ];
    let kinds: Vec<(u32, BoxedStrategy<FK>)> = pf.weights.iter().map(|(k, w)| (*w, Just(*k).boxed())).collect();
    let op = (
        proptest::strategy::Union::new_weighted(kinds),
        any::<u8>(),
        any::<u8>(),
        any::<u8>(),
        any::<u8>(),
        any::<u16>(),
        [amount(100), amount(100)],
        prop_oneof![1 => 0u32..45, 1 => crate::dict::num(32).prop_map(|v| v as u32), 2 => prop::sample::select(vec![0u32, 1, 2, 3, 7, 9, 10, 11, 29, 30, 31, 32, 40, 255, u32::MAX])],
    )
        .prop_map(|(k, s, a, b, x, fl, min, n)| FOp { k, s, a, b, x, fl, min, n });
    let dec = || prop_oneof![2 => Just(6u8), 1 => Just(18u8), 3 => 0u8..=18, 1 => crate::dict::num(5).prop_map(|v| (v as u8).min(18))];
    (
        prop::collection::vec(dec(), pf.toks.0..=pf.toks.1),
        prop::collection::vec((denom, prop::option::weighted(0.75, prop_oneof![5 => 0u8..=18, 1 => any::<u8>()])), pf.nats.0..=pf.nats.1),
        pf.bulk.0..=pf.bulk.1,
        any::<u8>(),
        prop::collection::vec(op, pf.ops.0..=pf.ops.1),
        prop::option::weighted(0.12, ("a[b-z]{7,9}", 3usize..=4, 0usize..=1)),
    )
        .prop_map(|(tok_dec, mut nats, bulk, perm, ops, run_together)| {
            if let Some((w, i, j)) = run_together {
                // two pairs of names that read the same when written one after the other
                let j = i + 1 + j.min(w.len() - i - 2);
                for (k, n) in [&w[..i], &w[i..], &w[..j], &w[j..]].into_iter().enumerate() {
                    let new = (n.to_string(), Some((5 + k) as u8));
                    if k < nats.len() {
                        nats[k] = new;
                    } else {
                        nats.push(new);
                    }
                }
            }
            let mut seen = std::collections::HashSet::new();
            let nats: Vec<_> = nats.into_iter().filter(|(d, _)| seen.insert(d.clone())).collect();
            FCase { tok_dec, denoms: nats.iter().map(|n| n.0.clone()).collect(), nat_dec: nats.iter().map(|n| n.1).collect(), bulk, perm, ops }
        })
        .boxed()
}

#[derive(Clone, Debug)]
struct Rec {
    info: PairInfo,
    code: u64,
    key: Vec<u8>,
}

struct FW {
    ch: Chain,
    want: String,
    infos: Vec<AssetInfo>,
    ntok: usize,
    tok_dec: Vec<u8>,
    owner: String,
    codes: (u64, u64),
    nat_dec: BTreeMap<String, u8>,
    funded: BTreeMap<String, u128>,
    pairs: BTreeMap<(usize, usize), Rec>,
    order: Vec<PairInfo>,
    fail: Option<String>,
    trace: Vec<String>,
    hits: u32,
    labels: BTreeMap<&'static str, u32>,
}

const MONEY: u128 = 1 << 100;

impl FW {
    fn diverge(&mut self, t: &str, m: impl Into<String>) {
        if self.want == t && self.fail.is_none() {
            self.fail = Some(m.into());
        }
    }
    fn hit(&mut self, t: &str) {
        if self.want == t {
            self.hits += 1;
        }
    }
    fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_default() += 1;
    }
    fn dec(&self, i: usize) -> Option<u8> {
        match &self.infos[i] {
            AssetInfo::Token { .. } => Some(self.tok_dec[i]),
            AssetInfo::NativeToken { denom } => self.nat_dec.get(denom).copied(),
        }
    }
    /// What the registry is known to confuse (recorded finding): the two names in byte order, joined.
    fn joined(&self, a: usize, b: usize) -> Vec<u8> {
        let api = cosmwasm_std::testing::MockApi::default();
        let bytes = |i: usize| match &self.infos[i] {
            AssetInfo::Token { contract_addr } => api.addr_canonicalize(contract_addr).map(|c| c.as_slice().to_vec()).unwrap_or_default(),
            AssetInfo::NativeToken { denom } => denom.as_bytes().to_vec(),
        };
        let mut v = [bytes(a), bytes(b)];
        v.sort();
        v.concat()
    }
    fn collides(&self, a: usize, b: usize) -> bool {
        let k = self.joined(a, b);
        let id = (a.min(b), a.max(b));
        self.pairs.iter().any(|(x, r)| *x != id && r.key == k)
    }

    fn new(c: &FCase, want: &str) -> Result<FW, (&'static str, String)> {
        let users = [OWNER, "user0", "user1"];
        let natives: Vec<_> = users.iter().map(|u| (u.to_string(), c.denoms.iter().map(|d| coin(d, MONEY)).collect::<Vec<_>>())).collect();
        let mut ch = Chain::new(&natives).map_err(|e| ("C16", format!("set-up of factory and router failed: {}", e)))?;
        let mut infos = vec![];
        for (i, d) in c.tok_dec.iter().enumerate() {
            let a = ch
                .new_token(&format!("token{}", i), *d, users.iter().map(|u| (u.to_string(), MONEY)).collect(), Some(OWNER))
                .map_err(|e| ("C24", format!("creating a token failed: {}", e)))?;
            infos.push(token_info(&a));
        }
        for d in &c.denoms {
            infos.push(native_info(d));
        }
        let codes = (ch.codes.pair, ch.codes.token);
        let mut w = FW {
            ch,
            want: want.into(),
            infos,
            ntok: c.tok_dec.len(),
            tok_dec: c.tok_dec.clone(),
            owner: OWNER.into(),
            codes,
            nat_dec: BTreeMap::new(),
            funded: BTreeMap::new(),
            pairs: BTreeMap::new(),
            order: vec![],
            fail: None,
            trace: vec![],
            hits: 0,
            labels: BTreeMap::new(),
        };
        for (d, x) in c.denoms.iter().zip(&c.nat_dec) {
            if let Some(x) = x {
                w.fund(OWNER, d, 1);
                w.add_native(OWNER.into(), d, *x);
            }
        }
        let n = w.infos.len();
        let mut combos: Vec<(usize, usize)> = (0..n).flat_map(|a| (0..a).map(move |b| (a, b))).collect();
        if !combos.is_empty() {
            let k = c.perm as usize % combos.len();
            combos.rotate_left(k);
            if c.perm & 1 == 1 {
                combos.reverse();
            }
        }
        let req = CreatePairRequirements { whitelist: vec![Addr::unchecked(OWNER)], first_asset_minimum: Uint128::zero(), second_asset_minimum: Uint128::zero() };
        for (i, (a, b)) in combos.into_iter().filter(|(a, b)| w.dec(*a).is_some() && w.dec(*b).is_some()).take(c.bulk as usize).enumerate().collect::<Vec<_>>() {
            let (a, b) = if (i + c.perm as usize) % 3 == 0 { (b, a) } else { (a, b) };
            w.create("user0".into(), a, b, req.clone());
        }
        Ok(w)
    }

    fn fund(&mut self, who: &str, d: &str, a: u128) {
        let f = self.ch.factory.clone();
        if self.ch.bank_send(who, &f, &[coin(d, a)]).is_ok() {
            *self.funded.entry(d.to_string()).or_default() += a;
        }
    }

    fn cfg_check(&mut self, what: &str) {
        let f = self.ch.factory.clone();
        match self.ch.query::<_, ConfigResponse>(&f, &QueryMsg::Config {}) {
            Ok(c) if c.owner == self.owner && (c.pair_code_id, c.token_code_id) == self.codes => {}
            x => {
                let m = format!("{}: configuration is {:?}, expected owner {} codes {:?}", what, x, self.owner, self.codes);
                self.diverge("C16", m)
            }
        }
    }

    fn dec_check(&mut self, what: &str) {
        let f = self.ch.factory.clone();
        for i in self.ntok..self.infos.len() {
            let d = self.infos[i].to_string();
            let exp = self.nat_dec.get(&d).copied();
            let got = self.ch.query::<_, NativeTokenDecimalsResponse>(&f, &QueryMsg::NativeTokenDecimals { denom: d.clone() }).ok().map(|r| r.decimals);
            if got != exp {
                let m = format!("{}: registered decimals of {} are {:?}, expected {:?}", what, d, got, exp);
                self.diverge("C17", m.clone());
                self.diverge("C16", m);
            }
        }
    }

    fn add_native(&mut self, sender: String, d: &str, x: u8) {
        let what = format!("{} registers {} decimals for {} (factory holds {})", sender, x, d, self.funded.get(d).copied().unwrap_or(0));
        self.trace.push(what.clone());
        let r = self.ch.add_native(&sender, d, x);
        let auth = sender == self.owner;
        let ok = auth && self.funded.get(d).copied().unwrap_or(0) > 0;
        self.hit("C16");
        self.hit("C17");
        self.label(if ok { "register_ok" } else if auth { "register_unfunded" } else { "register_outsider" });
        match (&r, ok) {
            (Ok(_), false) => {
                if auth {
                    self.diverge("C17", format!("{}: accepted", what));
                } else {
                    self.diverge("C16", format!("{}: accepted, the owner is {}", what, self.owner));
                }
            }
            (Err(e), true) => {
                self.diverge("C17", format!("{}: refused: {}", what, e));
                self.diverge("C16", format!("{}: refused: {}", what, e));
            }
            _ => {}
        }
        if let (true, Ok(resp)) = (self.want == "C31" && ok, &r) {
            self.hit("C31");
            self.label("event_register");
            let f = self.ch.factory.clone();
            let exp = [("denom", d.to_string()), ("decimals", x.to_string())];
            if let Err(m) = expect_report(resp, &f, "denom", None, &exp) {
                self.diverge("C31", format!("{}: {}", what, m));
            }
        }
        if r.is_ok() {
            self.nat_dec.insert(d.to_string(), x);
        }
        self.dec_check(&what);
    }

    fn create(&mut self, sender: String, a: usize, b: usize, req: CreatePairRequirements) {
        let ai = [self.infos[a].clone(), self.infos[b].clone()];
        let id = (a.min(b), a.max(b));
        let what = format!("{} creates the pair {:?} (pair code {}, token code {})", sender, ai, self.codes.0, self.codes.1);
        self.trace.push(what.clone());
        let decs = (self.dec(a), self.dec(b));
        let exists = decs.0.is_some() && decs.1.is_some();
        let cc = self.ch.codes;
        let codes_ok = [cc.pair, cc.pair2].contains(&self.codes.0) && [cc.token, cc.token2].contains(&self.codes.1);
        let dup = self.pairs.contains_key(&id);
        let r = self.ch.create_pair(&sender, &ai, &req);
        self.label(if a == b {
            "create_same_asset"
        } else if dup {
            "create_duplicate"
        } else if !exists {
            "create_unknown_asset"
        } else if !codes_ok {
            "create_bad_code"
        } else {
            "create_ok"
        });
        self.hit("C14");
        if decs.0 != decs.1 || !exists {
            self.hit("C17");
        }
        match r {
            Err(e) => {
                if a != b && self.collides(a, b) {
                    // the recorded finding pair-key-collision
                    self.label("collision_refused");
                } else if a != b && exists && codes_ok && !dup {
                    self.diverge("C14", format!("{}: refused: {}", what, e));
                    self.diverge("C17", format!("{}: refused: {}", what, e));
                }
            }
            Ok(r) => {
                if a == b {
                    self.diverge("C14", format!("{}: an asset is paired with itself", what));
                    return;
                }
                if dup {
                    self.diverge("C14", format!("{}: a second pair for the same assets", what));
                    return;
                }
                if !exists {
                    self.diverge("C17", format!("{}: created although the decimals are {:?}", what, decs));
                    return;
                }
                let resp = r;
                let rec = match self.ch.factory_pair(&ai) {
                    Ok(p) => p,
                    Err(e) => {
                        self.diverge("C14", format!("{}: not found afterwards: {}", what, e));
                        return;
                    }
                };
                let own: Result<PairInfo, String> = self.ch.query(&rec.contract_addr, &PairQuery::Pair {});
                if own.as_ref() != Ok(&rec) {
                    self.diverge("C14", format!("{}: the registry has {:?}, the pair reports {:?}", what, rec, own));
                    self.diverge("C28", format!("{}: the registry has {:?}, the pair reports {:?}", what, rec, own));
                }
                if rec.asset_infos != ai || rec.requirements != req {
                    self.diverge("C14", format!("{}: registered as {:?}, requirements given {:?}", what, rec, req));
                }
                let exp = [decs.0.unwrap(), decs.1.unwrap()];
                if rec.asset_decimals != exp || own.as_ref().map(|o| o.asset_decimals) != Ok(exp) {
                    self.diverge("C17", format!("{}: records decimals {:?} (pair {:?}), the assets have {:?}", what, rec.asset_decimals, own.as_ref().map(|o| o.asset_decimals), exp));
                }
                if self.pairs.values().any(|p| p.info.contract_addr == rec.contract_addr || p.info.liquidity_token == rec.liquidity_token) {
                    self.diverge("C14", format!("{}: shares the address or pool token of another pair: {:?}", what, rec));
                }
                let code = self.ch.code_of(&rec.contract_addr);
                let lcode = self.ch.code_of(&rec.liquidity_token);
                self.hit("C18");
                if code.as_ref().map(|c| c.0) != Ok(self.codes.0) || lcode.as_ref().map(|c| c.0) != Ok(self.codes.1) {
                    let m = format!("{}: runs pair code {:?} and token code {:?}", what, code, lcode);
                    self.diverge("C18", m);
                }
                if self.want == "C31" {
                    self.hit("C31");
                    self.label("event_create");
                    let f = self.ch.factory.clone();
                    let exp = [("pair_contract_addr", rec.contract_addr.clone()), ("liquidity_token_addr", rec.liquidity_token.clone())];
                    if let Err(m) = expect_report(&resp, &f, "pair_contract_addr", None, &exp) {
                        self.diverge("C31", format!("{}: {}", what, m));
                    }
                    let named = |i: usize| [("pair", format!("{}-{}", ai[i], ai[1 - i]))];
                    if let Err(m) = expect_report(&resp, &f, "action", Some("create_pair"), &named(0)) {
                        if expect_report(&resp, &f, "action", Some("create_pair"), &named(1)).is_err() {
                            self.diverge("C31", format!("{}: {}", what, m));
                        }
                    }
                }
                if self.want == "C30" {
                    self.hit("C30");
                    self.label("created");
                    let admin = self.ch.code_of(&rec.contract_addr).map(|c| c.1);
                    if admin != Ok(Some(self.ch.factory.clone())) {
                        self.diverge("C30", format!("{}: the chain admin of the pair is {:?}", what, admin));
                    }
                    let admin = self.ch.code_of(&rec.liquidity_token).map(|c| c.1);
                    if admin != Ok(None) {
                        self.diverge("C30", format!("{}: the chain admin of the pool token is {:?}", what, admin));
                    }
                    let m: Result<Option<cw20::MinterResponse>, String> = self.ch.query(&rec.liquidity_token, &cw20::Cw20QueryMsg::Minter {});
                    if m != Ok(Some(cw20::MinterResponse { minter: rec.contract_addr.clone(), cap: None })) {
                        self.diverge("C30", format!("{}: the minter of the pool token is {:?}", what, m));
                    }
                    let t: Result<cw20::TokenInfoResponse, String> = self.ch.query(&rec.liquidity_token, &cw20::Cw20QueryMsg::TokenInfo {});
                    let h: Result<cw20::AllAccountsResponse, String> = self.ch.query(&rec.liquidity_token, &cw20::Cw20QueryMsg::AllAccounts { start_after: None, limit: None });
                    if t.as_ref().map(|t| t.total_supply.u128()) != Ok(0) || h.as_ref().map(|h| h.accounts.len()) != Ok(0) {
                        self.diverge("C30", format!("{}: the pool token starts with {:?} held by {:?}", what, t, h));
                    }
                }
                let key = self.joined(a, b);
                let code = self.codes.0;
                self.pairs.insert(id, Rec { info: rec, code, key });
            }
        }
    }

    /// every lookup gives exactly the model's answer
    fn registry(&mut self, what: &str, only: Option<(usize, usize)>) {
        let n = self.infos.len();
        for a in 0..n {
            for b in 0..n {
                let id = (a.min(b), a.max(b));
                if only.map(|o| o != id).unwrap_or(false) {
                    continue;
                }
                let got = self.ch.factory_pair(&[self.infos[a].clone(), self.infos[b].clone()]);
                let exp = self.pairs.get(&id).map(|r| r.info.clone());
                if exp.is_none() && self.collides(a, b) {
                    self.label("collision_lookup");
                }
                match (got, exp) {
                    (Ok(g), Some(e)) if g == e => {}
                    (Err(_), None) => {}
                    (g, e) => {
                        let m = format!("{}: looking up {} and {} gives {:?}, expected {:?}", what, self.infos[a], self.infos[b], g, e);
                        self.diverge("C14", m.clone());
                        self.diverge("C18", m);
                    }
                }
            }
        }
        // and the pairs still say the same
        if only.is_none() {
            for r in self.pairs.values().cloned().collect::<Vec<_>>() {
                let own: Result<PairInfo, String> = self.ch.query(&r.info.contract_addr, &PairQuery::Pair {});
                if own.as_ref() != Ok(&r.info) {
                    let m = format!("{}: the pair {} reports {:?}, registered {:?}", what, r.info.contract_addr, own, r.info);
                    for t in ["C14", "C17", "C18", "C28"] {
                        self.diverge(t, m.clone());
                    }
                }
            }
        }
    }

    fn code_check(&mut self, what: &str) {
        for r in self.pairs.values().cloned().collect::<Vec<_>>() {
            let c = self.ch.code_of(&r.info.contract_addr).map(|c| c.0);
            if c != Ok(r.code) {
                let m = format!("{}: pair {} runs code {:?}, expected {}", what, r.info.contract_addr, c, r.code);
                self.diverge("C18", m.clone());
                self.diverge("C16", m);
            }
        }
    }

    fn pages(&mut self, limit: Option<u32>, flip: bool) {
        let f = self.ch.factory.clone();
        let what = format!("listing {} pairs by pages of {:?} (cursor reversed: {})", self.pairs.len(), limit, flip);
        self.trace.push(what.clone());
        let lim = limit.unwrap_or(10).min(30) as usize;
        let mut seen: Vec<PairInfo> = vec![];
        let mut after: Option<[AssetInfo; 2]> = None;
        for _ in 0..200 {
            let r = self.ch.query::<_, PairsResponse>(&f, &QueryMsg::Pairs { start_after: after.clone(), limit });
            let page = match r {
                Ok(p) => p.pairs,
                Err(e) => {
                    self.diverge("C15", format!("{}: failed: {}", what, e));
                    return;
                }
            };
            let left = self.pairs.len().saturating_sub(seen.len());
            if page.len() != left.min(lim) {
                self.diverge("C15", format!("{}: a page after {} entries has {} entries, {} remain", what, seen.len(), page.len(), left));
                return;
            }
            if page.is_empty() {
                break;
            }
            let l = page.last().unwrap();
            after = Some(if flip { [l.asset_infos[1].clone(), l.asset_infos[0].clone()] } else { l.asset_infos.clone() });
            seen.extend(page);
        }
        if lim == 0 {
            self.label("page_zero");
            return;
        }
        self.label(if self.pairs.len() > 30 { "paged_over_30" } else if self.pairs.len() > lim { "several_pages" } else { "one_page" });
        if self.pairs.len() > lim {
            self.hit("C15");
        }
        for r in self.pairs.values().cloned().collect::<Vec<_>>() {
            let k = seen.iter().filter(|p| **p == r.info).count();
            if k != 1 {
                self.diverge("C15", format!("{}: {:?} is listed {} times", what, r.info, k));
            }
        }
        // one fixed order: what was listed before keeps its relative order
        let old: Vec<&PairInfo> = self.order.iter().collect();
        let now: Vec<&PairInfo> = seen.iter().filter(|p| old.contains(p)).collect();
        if old != now {
            let m = format!("{}: the order of the listing changed", what);
            self.diverge("C15", m);
        }
        self.order = seen;
    }

    fn everyone(&self) -> Vec<String> {
        let mut v: Vec<String> = vec![OWNER.into(), "user0".into(), "user1".into(), self.ch.router.clone(), self.ch.factory.clone()];
        v.extend(self.pairs.values().take(2).flat_map(|p| [p.info.contract_addr.clone(), p.info.liquidity_token.clone()]));
        if !v.contains(&self.owner) {
            v.push(self.owner.clone());
        }
        v
    }

    fn state_of(&self, r: &Rec) -> (Result<PoolResponse, String>, Vec<Result<SimulationResponse, String>>, Result<PairInfo, String>, Result<PairInfo, String>, Vec<Result<u128, String>>) {
        let a = &r.info.contract_addr;
        let sims = (0..2)
            .map(|i| self.ch.query(a, &PairQuery::Simulation { offer_asset: asset(&r.info.asset_infos[i], 12345) }))
            .collect();
        let lp = token_info(&r.info.liquidity_token);
        let bals = [OWNER, "user0", "user1", self.ch.router.as_str(), self.ch.factory.as_str(), a.as_str()]
            .iter()
            .flat_map(|w| [&lp, &r.info.asset_infos[0], &r.info.asset_infos[1]].into_iter().map(move |i| self.ch.balance(i, w)))
            .collect();
        (self.ch.query(a, &PairQuery::Pool {}), sims, self.ch.query(a, &PairQuery::Pair {}), self.ch.factory_pair(&r.info.asset_infos), bals)
    }

    fn surface(&self) -> Vec<String> {
        let denoms: Vec<String> = self.infos[self.ntok..].iter().map(|d| d.to_string()).chain(["unregistered".to_string()]).collect();
        let mut v = self.ch.surface(&self.infos, &denoms);
        for r in self.pairs.values() {
            v.push(format!("{:?} {:?}", self.ch.code_of(&r.info.contract_addr), self.state_of(r)));
        }
        v
    }

    /// provide, swap and withdraw on one pair; they have to work
    fn use_pair(&mut self, id: (usize, usize), am: [u128; 2], tag: &str) {
        let r = self.pairs[&id].clone();
        let paddr = r.info.contract_addr.clone();
        if !r.info.requirements.whitelist.contains(&Addr::unchecked(OWNER)) {
            return;
        }
        let pool: PoolResponse = match self.ch.query(&paddr, &PairQuery::Pool {}) {
            Ok(p) => p,
            Err(e) => {
                self.diverge(tag, format!("pool query of {} failed: {}", paddr, e));
                return;
            }
        };
        let mut amt = [0u128; 2];
        let min = [r.info.requirements.first_asset_minimum.u128(), r.info.requirements.second_asset_minimum.u128()];
        for i in 0..2 {
            amt[i] = am[i].max(min[i]).max(1000);
            if !pool.total_share.is_zero() {
                amt[i] = pool.assets[i].amount.u128();
            }
            if amt[i] > (1 << 96) || self.ch.balance(&r.info.asset_infos[i], OWNER).unwrap_or(0) < amt[i] {
                return;
            }
        }
        self.trace.push(format!("owner provides {:?} to {}, swaps and withdraws", amt, paddr));
        let mut coins = vec![];
        for i in 0..2 {
            match &r.info.asset_infos[i] {
                AssetInfo::Token { contract_addr } => {
                    let _ = self.ch.exec(OWNER, contract_addr, &Cw20ExecuteMsg::IncreaseAllowance { spender: paddr.clone(), amount: Uint128::new(amt[i]), expires: None }, &[]);
                }
                AssetInfo::NativeToken { denom } => coins.push(coin(denom, amt[i])),
            }
        }
        coins.sort_by(|a, b| a.denom.cmp(&b.denom));
        let assets = [asset(&r.info.asset_infos[0], amt[0]), asset(&r.info.asset_infos[1], amt[1])];
        let res = self.ch.exec(OWNER, &paddr, &PairExec::ProvideLiquidity { assets, slippage_tolerance: None, receiver: None }, &coins);
        if let Err(e) = res {
            self.diverge(tag, format!("providing {:?} to {} ({:?}) failed: {}", amt, paddr, pool, e));
            return;
        }
        self.label("used_pair");
        if let Some(i) = (0..2).find(|i| matches!(r.info.asset_infos[*i], AssetInfo::Token { .. })) {
            let t = r.info.asset_infos[i].to_string();
            let (x, y) = if i == 0 { (0, 1) } else { (1, 0) };
            let p: PoolResponse = match self.ch.query(&paddr, &PairQuery::Pool {}) {
                Ok(p) => p,
                Err(e) => {
                    self.diverge(tag, format!("pool query of {} failed: {}", paddr, e));
                    return;
                }
            };
            let s = crate::spec::swap(p.assets[x].amount.u128(), p.assets[y].amount.u128(), 500);
            if s.map(|s| s.ret > 0 && s.fits()).unwrap_or(false) {
                let before = self.ch.balance(&r.info.asset_infos[y], "user1").unwrap_or(0);
                let res = self.ch.send_cw20("user0", &t, &paddr, 500, &PairHook::Swap { belief_price: None, max_spread: None, to: Some("user1".into()) });
                let after = self.ch.balance(&r.info.asset_infos[y], "user1").unwrap_or(0);
                if res.is_err() || after - before != s.unwrap().ret {
                    self.diverge(tag, format!("swapping 500 {} on {} ({:?}): {:?}, recipient {} -> {}", t, paddr, p, res.err(), before, after));
                }
            }
        }
        let lp = r.info.liquidity_token.clone();
        let have = self.ch.token_balance(&lp, OWNER).unwrap_or(0);
        if have > 10_000 {
            let res = self.ch.send_cw20(OWNER, &lp, &paddr, have / 4, &PairHook::WithdrawLiquidity {});
            if let Err(e) = res {
                let ok = crate::spec::refund_surely_positive(amt[0], have / 4, have) && crate::spec::refund_surely_positive(amt[1], have / 4, have);
                if ok {
                    self.diverge(tag, format!("withdrawing {} of {} from {} failed: {}", have / 4, have, paddr, e));
                }
            }
        }
    }

    fn pick_pair(&self, x: u8) -> Option<(usize, usize)> {
        let k: Vec<_> = self.pairs.keys().copied().collect();
        if k.is_empty() {
            None
        } else {
            Some(k[x as usize % k.len()])
        }
    }

    fn step(&mut self, op: &FOp) {
        let n = self.infos.len();
        if n < 2 {
            return;
        }
        if op.s % 7 == 0 {
            // time goes by
            let t = [1u64, 3_600, 86_400 * 31, 315_576_000][op.x as usize % 4];
            self.ch.app.update_block(|b| {
                b.height += 1 + t / 5;
                b.time = b.time.plus_seconds(t);
            });
        }
        let every = self.everyone();
        let sender = if op.s < 128 { self.owner.clone() } else { every[op.s as usize % every.len()].clone() };
        let (a, b) = (op.a as usize % n, op.b as usize % n);
        match op.k {
            FK::Create => {
                let mut wl = vec![];
                for (i, u) in [OWNER, "user0", "user1"].iter().enumerate() {
                    if op.fl >> i & 1 == 1 {
                        wl.push(Addr::unchecked(*u));
                    }
                }
                let req = CreatePairRequirements { whitelist: wl, first_asset_minimum: Uint128::new(op.min[0]), second_asset_minimum: Uint128::new(op.min[1]) };
                // sometimes an existing pair again, in either order
                let (a, b) = match (op.fl >> 4 & 7, self.pick_pair(op.x)) {
                    (0, Some(id)) => {
                        if op.fl & 8 == 0 {
                            id
                        } else {
                            (id.1, id.0)
                        }
                    }
                    _ => (a, b),
                };
                let who = every[op.s as usize % every.len()].clone();
                self.create(who, a, b, req);
                self.registry("after creation", Some((a.min(b), a.max(b))));
            }
            FK::CreateOdd => {
                let other = match op.fl % 5 {
                    0 => token_info(&self.ch.factory.clone()),
                    1 => token_info("user1"),
                    2 => native_info("unregistered"),
                    3 => match &self.infos[a] {
                        AssetInfo::Token { contract_addr } => native_info(contract_addr),
                        AssetInfo::NativeToken { denom } => token_info(denom),
                    },
                    _ => token_info(&self.ch.router.clone()),
                };
                if self.infos.contains(&other) {
                    return;
                }
                let ai = if op.fl & 32 == 0 { [self.infos[b].clone(), other.clone()] } else { [other.clone(), self.infos[b].clone()] };
                let what = format!("{} creates the pair {:?}", sender, ai);
                self.trace.push(what.clone());
                let req = CreatePairRequirements { whitelist: vec![], first_asset_minimum: Uint128::zero(), second_asset_minimum: Uint128::zero() };
                // the odd asset may exist: a denom that spells a token address of the chain
                let real = match &other {
                    AssetInfo::Token { contract_addr } => self.ch.supply(contract_addr).is_ok(),
                    _ => false,
                };
                self.hit("C17");
                self.label("create_nonexistent");
                if !real && self.ch.create_pair(&sender, &ai, &req).is_ok() {
                    self.diverge("C17", format!("{}: created although {} does not exist", what, other));
                }
                self.registry(&what, None);
            }
            FK::Lookup => {
                self.trace.push("all lookups".into());
                self.registry("lookup", None);
                if self.pairs.len() > 1 {
                    self.hit("C14");
                }
            }
            FK::Page => {
                let l = if op.fl & 7 == 0 { None } else { Some(op.n) };
                self.pages(l, op.fl & 8 != 0);
            }
            FK::AddNative => {
                if self.ntok < n {
                    let d = self.infos[self.ntok + op.a as usize % (n - self.ntok)].to_string();
                    let x = if op.fl & 3 == 0 { op.x } else { op.x % 19 };
                    self.add_native(sender, &d, x);
                }
            }
            FK::Fund => {
                if self.ntok < n {
                    let d = self.infos[self.ntok + op.a as usize % (n - self.ntok)].to_string();
                    self.trace.push(format!("the factory receives {}", d));
                    self.fund("user1", &d, 1 + (op.x as u128 >> 5));
                }
            }
            FK::UpdCfg => {
                let f = self.ch.factory.clone();
                let owner = match op.fl & 7 {
                    0 | 1 | 2 => None,
                    3 => Some(if op.x & 1 == 0 { "X".to_string() } else { "Mixed Case".into() }),
                    4 => Some(self.owner.clone()),
                    _ => Some(every[op.a as usize % every.len()].clone()),
                };
                let c = self.ch.codes;
                let pc = match op.fl >> 3 & 7 {
                    0 | 1 | 2 => None,
                    3 | 4 => Some(c.pair2),
                    5 | 6 => Some(c.pair),
                    _ => Some(if op.x & 2 == 0 { 9999 } else { c.token }),
                };
                let tc = match op.fl >> 6 & 7 {
                    0 | 1 | 2 => None,
                    3 | 4 => Some(c.token2),
                    5 | 6 => Some(c.token),
                    _ => Some(if op.x & 4 == 0 { 9999 } else { c.pair }),
                };
                let what = format!("{} updates the configuration: owner {:?} pair code {:?} token code {:?}", sender, owner, pc, tc);
                self.trace.push(what.clone());
                let auth = sender == self.owner;
                let ok = auth && op.fl & 7 != 3;
                let r = self.ch.exec(&sender, &f, &ExecuteMsg::UpdateConfig { owner: owner.clone(), token_code_id: tc, pair_code_id: pc }, &[]);
                self.hit("C16");
                self.label(if !auth { "config_outsider" } else if owner.is_some() { "config_owner_change" } else { "config_update" });
                match (&r, ok) {
                    (Ok(_), false) => {
                        let m = format!("{}: accepted, the owner is {}", what, self.owner);
                        self.diverge("C16", m)
                    }
                    (Err(e), true) => self.diverge("C16", format!("{}: refused: {}", what, e)),
                    _ => {}
                }
                if r.is_ok() && ok {
                    if let Some(o) = owner {
                        self.owner = o;
                    }
                    self.codes = (pc.unwrap_or(self.codes.0), tc.unwrap_or(self.codes.1));
                }
                self.cfg_check(&what);
                self.dec_check(&what);
                self.code_check(&what);
            }
            FK::Migrate => {
                let id = match self.pick_pair(op.x) {
                    Some(i) => i,
                    None => return,
                };
                let rec = self.pairs[&id].clone();
                let c = self.ch.codes;
                let code = match op.fl & 7 {
                    0 | 1 => None,
                    2 | 3 => Some(c.pair2),
                    4 | 5 => Some(c.pair),
                    6 => Some(9999),
                    _ => Some(c.token),
                };
                let target = code.unwrap_or(self.codes.0);
                let odd = op.fl >> 3 & 7;
                let contract = match odd {
                    0 => rec.info.liquidity_token.clone(),
                    1 if op.fl & 64 != 0 => "nobody".to_string(),
                    _ => rec.info.contract_addr.clone(),
                };
                let is_pair = contract == rec.info.contract_addr;
                let what = format!("{} migrates {} to code {:?} (configured {})", sender, contract, code, self.codes.0);
                self.trace.push(what.clone());
                let before: Vec<_> = self.pairs.values().map(|r| self.state_of(r)).collect();
                let f = self.ch.factory.clone();
                let r = self.ch.exec(&sender, &f, &ExecuteMsg::MigratePair { contract: contract.clone(), code_id: code }, &[]);
                let auth = sender == self.owner;
                let good = [c.pair, c.pair2].contains(&target) && is_pair;
                self.hit("C16");
                if auth {
                    self.hit("C18");
                }
                self.label(if !auth { "migrate_outsider" } else if good { "migrate_ok" } else { "migrate_bad_target" });
                match (&r, auth) {
                    (Ok(_), false) => {
                        let m = format!("{}: accepted, the owner is {}", what, self.owner);
                        self.diverge("C16", m)
                    }
                    (Err(e), true) if good => {
                        self.diverge("C18", format!("{}: refused: {}", what, e));
                        self.diverge("C16", format!("{}: refused: {}", what, e));
                    }
                    _ => {}
                }
                if r.is_ok() && auth && is_pair {
                    self.pairs.get_mut(&id).unwrap().code = target;
                }
                self.code_check(&what);
                let after: Vec<_> = self.pairs.values().map(|r| self.state_of(r)).collect();
                if before != after {
                    let i = (0..before.len()).find(|i| before[*i] != after[*i]).unwrap();
                    self.diverge("C18", format!("{}: the state of a pair changed from {:?} to {:?}", what, before[i], after[i]));
                }
                if r.is_ok() && good && self.fail.is_none() {
                    self.use_pair(id, op.min, "C18");
                }
            }
            FK::Rewrite => {
                let what = "the stored state is rewritten in the released layout".to_string();
                self.trace.push(what.clone());
                let before = self.surface();
                let names: Vec<String> = self.infos.iter().map(|i| i.to_string()).collect();
                let (toks, dens) = names.split_at(self.ntok);
                let accs: Vec<String> = [OWNER, "user0", "user1"].iter().map(|s| s.to_string()).collect();
                if let Err(e) = self.ch.rewrite_state(dens, toks, &accs) {
                    self.diverge("C34", format!("{}: the present state cannot be read: {}", what, e));
                    return;
                }
                self.hit("C34");
                self.label("state_rewritten");
                let after = self.surface();
                if let Some(i) = (0..before.len().max(after.len())).find(|i| before.get(*i) != after.get(*i)) {
                    self.diverge("C34", format!("{}: before: {:?}; after: {:?}", what, before.get(i), after.get(i)));
                }
            }
            FK::Upgrade => {
                let c = self.ch.codes;
                let (name, addr, code) = match op.x & 3 {
                    0 => ("factory", self.ch.factory.clone(), c.factory),
                    1 | 3 => ("factory", self.ch.factory.clone(), c.factory2),
                    _ => ("router", self.ch.router.clone(), c.router2),
                };
                let what = format!("the chain admin migrates the {} to code {}", name, code);
                self.trace.push(what.clone());
                let before = self.surface();
                let r = if name == "factory" {
                    self.ch.migrate(GOV, &addr, &haloswap::factory::MigrateMsg {}, code)
                } else {
                    self.ch.migrate(GOV, &addr, &haloswap::router::MigrateMsg {}, code)
                };
                self.hit("C29");
                self.label(if name == "factory" { "upgrade_factory" } else { "upgrade_router" });
                if let Err(e) = r {
                    self.diverge("C29", format!("{}: refused: {}", what, e));
                }
                let after = self.surface();
                if let Some(i) = (0..before.len().max(after.len())).find(|i| before.get(*i) != after.get(*i)) {
                    self.diverge("C29", format!("{}: before: {:?}; after: {:?}", what, before.get(i), after.get(i)));
                }
            }
            FK::Use => {
                if let Some(id) = self.pick_pair(op.x) {
                    self.use_pair(id, op.min, "C18");
                }
            }
        }
        if !matches!(op.k, FK::Lookup | FK::Page) && (self.want == "C16") {
            self.cfg_check("afterwards");
        }
    }
}

pub fn check(c: &FCase, want: &str) -> Outcome {
    let mut w = match FW::new(c, want) {
        Ok(w) => w,
        Err((t, m)) => {
            if t == want {
                return Outcome::fail(m);
            }
            return Outcome { fail: None, nontrivial: false, labels: vec![("setup_refused", 1)] };
        }
    };
    for op in &c.ops {
        if w.fail.is_some() {
            break;
        }
        w.step(op);
    }
    if w.fail.is_none() && matches!(want, "C14" | "C17" | "C18") {
        w.trace.push("final lookups".into());
        w.registry("at the end", None);
    }
    if w.fail.is_none() && want == "C15" {
        w.pages(Some(30), false);
        w.pages(None, true);
        if w.pairs.len() <= 45 {
            w.pages(Some(1), false);
        }
    }
    let fail = w.fail.take().map(|m| format!("{}\nhistory:\n{}", m, w.trace.iter().enumerate().map(|(i, t)| format!("  {:>2}. {}", i + 1, t)).collect::<Vec<_>>().join("\n")));
    Outcome { fail, nontrivial: w.hits > 0, labels: w.labels.into_iter().collect() }
}

/// C29, C34: the same history with and without upgrades of factory and router; rewritings of the stored state.
pub fn check_twin(c: &FCase, kind: FK) -> Outcome {
    let run = |skip: bool| -> Result<(FW, u32), (&'static str, String)> {
        let mut w = FW::new(c, "twin")?;
        let mut n = 0;
        for op in &c.ops {
            if op.k == kind {
                n += 1;
                if skip {
                    continue;
                }
            }
            w.step(op);
        }
        Ok((w, n))
    };
    match (run(false), run(true)) {
        (Ok((a, n)), Ok((b, _))) => {
            let (sa, sb) = (a.surface(), b.surface());
            let hist = || a.trace.iter().enumerate().map(|(i, t)| format!("  {:>2}. {}", i + 1, t)).collect::<Vec<_>>().join("\n");
            let fail = if a.ch.log != b.ch.log {
                let i = (0..).find(|i| a.ch.log.get(*i) != b.ch.log.get(*i)).unwrap();
                Some(format!("call {} of a history is {:?} with upgrades or rewritten state and {:?} without (true: accepted)\nhistory:\n{}", i + 1, a.ch.log.get(i), b.ch.log.get(i), hist()))
            } else {
                (0..sa.len().max(sb.len()))
                    .find(|i| sa.get(*i) != sb.get(*i))
                    .map(|i| format!("after a history with upgrades or rewritten state: {:?}; without: {:?}\nhistory:\n{}", sa.get(i), sb.get(i), hist()))
            };
            Outcome { fail, nontrivial: n > 0 && c.ops.last().map(|o| o.k != kind).unwrap_or(false), labels: vec![("twin_steps", n)] }
        }
        _ => Outcome { fail: None, nontrivial: false, labels: vec![("setup_refused", 1)] },
    }
}

/// The recorded finding. Some(text) while the registry still confuses the two sets.
pub fn known_collision() -> Result<Option<String>, String> {
    let denoms = ["aatomx", "uosmo", "aatom", "xuosmo"];
    let mut ch = Chain::new(&[(OWNER.to_string(), denoms.iter().map(|d| coin(d, 100)).collect())])?;
    let f = ch.factory.clone();
    for d in denoms {
        ch.bank_send(OWNER, &f, &[coin(d, 1)])?;
        ch.add_native(OWNER, d, 6)?;
    }
    let req = CreatePairRequirements { whitelist: vec![], first_asset_minimum: Uint128::zero(), second_asset_minimum: Uint128::zero() };
    let s1 = [native_info("aatomx"), native_info("uosmo")];
    let s2 = [native_info("aatom"), native_info("xuosmo")];
    ch.create_pair(OWNER, &s1, &req)?;
    Ok(ch
        .create_pair(OWNER, &s2, &req)
        .err()
        .map(|e| format!("after creating {{aatomx, uosmo}}, creating {{aatom, xuosmo}} fails: {}", e.rsplit(": ").next().unwrap_or_default())))
}

// ------------------------------------------------------------ spelling

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub struct SpellCase {
    pub a: String,
    pub b: String,
    pub same: bool,
    pub native: bool,
    /// bit masks of upper-case letters: first creation, second creation
    pub up: [u64; 4],
    pub rev: bool,
    pub dec: [u8; 2],
}

pub fn spelling() -> BoxedStrategy<SpellCase> {
    let mask = || prop_oneof![1 => Just(0u64), 1 => Just(u64::MAX), 1 => any::<u64>(), 1 => (0u32..40).prop_map(|b| 1u64 << b)];
    ("[a-z][a-z0-9]{3,40}", "[a-z][a-z0-9]{3,40}", any::<bool>(), prop::bool::weighted(0.3), [mask(), mask(), mask(), mask()], any::<bool>(), [0u8..19, 0u8..19])
        .prop_map(|(a, b, same, native, up, rev, dec)| SpellCase { a, b, same, native, up, rev, dec })
        .boxed()
}

struct AnyCase<'a>(&'a SpellCase);
impl cosmwasm_std::Querier for AnyCase<'_> {
    fn raw_query(&self, bin: &[u8]) -> cosmwasm_std::QuerierResult {
        use cosmwasm_std::{from_binary, from_slice, to_binary, ContractResult, Empty, QueryRequest, SystemError, SystemResult, WasmQuery};
        let ok = |b| SystemResult::Ok(ContractResult::Ok(b));
        let q: QueryRequest<Empty> = from_slice(bin).unwrap();
        if let QueryRequest::Wasm(WasmQuery::Smart { contract_addr, msg }) = q {
            if let Ok(cw20::Cw20QueryMsg::TokenInfo {}) = from_binary(&msg) {
                let l = contract_addr.to_lowercase();
                let dec = if l == self.0.a { self.0.dec[0] } else { self.0.dec[1] };
                return ok(to_binary(&cw20::TokenInfoResponse { name: l, symbol: "TOK".into(), decimals: dec, total_supply: Uint128::new(1) }).unwrap());
            }
            if let Ok(QueryMsg::NativeTokenDecimals { .. }) = from_binary(&msg) {
                return ok(to_binary(&NativeTokenDecimalsResponse { decimals: self.0.dec[1] }).unwrap());
            }
            if let Ok(PairQuery::Pair {}) = from_binary(&msg) {
                return ok(to_binary(&PairInfo {
                    asset_infos: [token_info(&self.0.a), token_info(&self.0.b)],
                    contract_addr,
                    liquidity_token: "liquidity0000".into(),
                    asset_decimals: self.0.dec,
                    requirements: CreatePairRequirements { whitelist: vec![], first_asset_minimum: Uint128::zero(), second_asset_minimum: Uint128::zero() },
                })
                .unwrap());
            }
        }
        SystemResult::Err(SystemError::UnsupportedRequest { kind: "other".into() })
    }
}

pub fn check_spelling(c: &SpellCase) -> Outcome {
    use cosmwasm_std::testing::{mock_env, mock_info, MockApi, MockStorage};
    use cosmwasm_std::{Binary, Deps, DepsMut, Env, QuerierWrapper, Reply, SubMsgResponse, SubMsgResult};
    let mut storage = MockStorage::new();
    let api = MockApi::default();
    let q = AnyCase(c);
    let env: Env = mock_env();
    let spell = |s: &str, m: u64| -> String { s.chars().enumerate().map(|(i, ch)| if m >> (i % 64) & 1 == 1 { ch.to_ascii_uppercase() } else { ch }).collect() };
    let (na, nb) = (c.a.clone(), if c.same { c.a.clone() } else { c.b.clone() });
    // where the address codec does not accept upper case at all there is nothing to check
    let set = |i: usize, flip: bool| -> [AssetInfo; 2] {
        let x = token_info(&spell(&na, c.up[2 * i]));
        let y = if c.native { native_info(&nb) } else { token_info(&spell(&nb, c.up[2 * i + 1])) };
        if flip {
            [y, x]
        } else {
            [x, y]
        }
    };
    let canon = |i: &AssetInfo| match i {
        AssetInfo::Token { contract_addr } => api.addr_canonicalize(contract_addr).ok().map(|c| (false, c.as_slice().to_vec())),
        AssetInfo::NativeToken { denom } => Some((true, denom.clone().into_bytes())),
    };
    fn deps<'a>(s: &'a mut MockStorage, api: &'a MockApi, q: &'a AnyCase) -> DepsMut<'a> {
        DepsMut { storage: s, api, querier: QuerierWrapper::new(q) }
    }
    let info = mock_info("anyone", &[]);
    if halo_factory::contract::instantiate(deps(&mut storage, &api, &q), env.clone(), info.clone(), haloswap::factory::InstantiateMsg { pair_code_id: 1, token_code_id: 2 }).is_err() {
        return Outcome { fail: None, nontrivial: false, labels: vec![("setup_refused", 1)] };
    }
    let req = CreatePairRequirements { whitelist: vec![], first_asset_minimum: Uint128::zero(), second_asset_minimum: Uint128::zero() };
    let (s1, s2) = (set(0, false), set(1, c.rev));
    let (k1, k2) = ([canon(&s1[0]), canon(&s1[1])], [canon(&s2[0]), canon(&s2[1])]);
    if k1.iter().chain(&k2).any(|k| k.is_none()) {
        return Outcome { fail: None, nontrivial: false, labels: vec![("codec_refuses", 1)] };
    }
    let create = |st: &mut MockStorage, s: &[AssetInfo; 2]| {
        guard(|| {
            halo_factory::contract::execute(deps(st, &api, &q), env.clone(), info.clone(), ExecuteMsg::CreatePair { asset_infos: s.clone(), requirements: req.clone() })
                .map(|_| ())
                .map_err(|e| e.to_string())
        })
    };
    let r1 = create(&mut storage, &s1);
    if k1[0] == k1[1] {
        let fail = r1.is_ok().then(|| format!("one token is paired with itself as {:?}", s1));
        return Outcome { fail, nontrivial: s1[0] != s1[1], labels: vec![("same_token", 1)] };
    }
    if let Err(e) = r1 {
        return Outcome::fail(format!("the pair {:?} is refused: {}", s1, e));
    }
    let addr = "pair0000";
    let mut data = vec![0x0a, addr.len() as u8];
    data.extend(addr.as_bytes());
    let rep = Reply { id: 1, result: SubMsgResult::Ok(SubMsgResponse { events: vec![], data: Some(Binary(data)) }) };
    if let Err(e) = guard(|| halo_factory::contract::reply(deps(&mut storage, &api, &q), env.clone(), rep).map(|_| ()).map_err(|e| e.to_string())) {
        return Outcome::fail(format!("registering the pair {:?} failed: {}", s1, e));
    }
    for s in [&s1, &s2, &[s2[1].clone(), s2[0].clone()]] {
        let got = guard(|| {
            let b = halo_factory::contract::query(Deps { storage: &storage, api: &api, querier: QuerierWrapper::new(&q) }, env.clone(), QueryMsg::Pair { asset_infos: s.clone() }).map_err(|e| e.to_string())?;
            cosmwasm_std::from_binary::<PairInfo>(&b).map_err(|e| e.to_string())
        });
        match got {
            Ok(p) if p.contract_addr == addr && p.liquidity_token == "liquidity0000" && p.asset_infos.iter().map(canon).collect::<Vec<_>>() == k1.to_vec() => {}
            g => return Outcome::fail(format!("created {:?}; looking up {:?} gives {:?}", s1, s, g)),
        }
    }
    if create(&mut storage, &s2).is_ok() {
        return Outcome::fail(format!("created {:?} and again as {:?}", s1, s2));
    }
    Outcome { fail: None, nontrivial: s1 != s2, labels: vec![("respelled_pair", 1)] }
}
