//! C32: the JSON of every message and answer, against text written from the documented format.
use crate::chain::guard;
use crate::run::Outcome;
use crate::world::amount;
use cosmwasm_std::{Addr, Binary, Decimal, Uint128};
use cw20::{Cw20Coin, Cw20ReceiveMsg, MinterResponse};
use haloswap::asset::{Asset, AssetInfo, CreatePairRequirements, PairInfo};
use haloswap::{factory, pair, router, token};
use proptest::prelude::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::fmt::Debug;

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub struct WireCase {
    pub kind: u8,
    pub s: Vec<String>,
    pub a: Vec<u128>,
    pub n: Vec<u64>,
    pub b: [u8; 4],
    /// which optional parts are there, which asset kinds
    pub mask: u16,
    pub len: u8,
    pub turn: u8,
    pub wreck: u8,
    pub how: u8,
    pub word: String,
    pub raw: Vec<u8>,
}

pub fn wire() -> BoxedStrategy<WireCase> {
    let st = || prop_oneof![4 => "[a-z0-9/]{1,20}", 1 => "\\PC{0,12}", 1 => "[\"\\\\/a-c\\n\\t{}\\[\\]:, é😀]{0,10}", 1 => crate::dict::word()];
    let n = || prop_oneof![2 => 0u64..100, 1 => any::<u64>(), 1 => any::<u32>().prop_map(|v| v as u64)];
    (
        0u8..KINDS,
        prop::collection::vec(st(), 8),
        prop::collection::vec(amount(128), 8),
        prop::collection::vec(n(), 4),
        any::<[u8; 4]>(),
        any::<u16>(),
        0u8..4,
        any::<u8>(),
        (any::<u8>(), any::<u8>(), prop_oneof![4 => crate::dict::ident(), 1 => "[a-z_]{1,12}", 1 => Just("extra".to_string())]),
        prop::collection::vec(any::<u8>(), 0..12),
    )
        .prop_map(|(kind, s, a, n, b, mask, len, turn, (wreck, how, word), raw)| WireCase { kind, s, a, n, b, mask, len, turn, wreck, how, word, raw })
        .boxed()
}

// ---------------------------------------------------------------- plain JSON

#[derive(Clone, Debug, PartialEq)]
enum J {
    Null,
    Num(u64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
use J::*;

fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// `turn` rotates the keys of every object; `omit` leaves fields without a value out
fn text(j: &J, turn: usize, omit: bool) -> String {
    match j {
        Null => "null".into(),
        Num(n) => n.to_string(),
        Str(s) => quote(s),
        Arr(v) => format!("[{}]", v.iter().map(|x| text(x, turn, omit)).collect::<Vec<_>>().join(",")),
        Obj(f) => {
            let mut f: Vec<&(String, J)> = f.iter().filter(|(_, v)| !(omit && *v == Null)).collect();
            if !f.is_empty() {
                let k = turn % f.len();
                f.rotate_left(k);
            }
            format!("{{{}}}", f.iter().map(|(k, v)| format!("{}:{}", quote(k), text(v, turn, omit))).collect::<Vec<_>>().join(","))
        }
    }
}

fn from_value(v: &serde_json::Value) -> Option<J> {
    use serde_json::Value as V;
    Some(match v {
        V::Null => Null,
        V::Number(n) => Num(n.as_u64()?),
        V::String(s) => Str(s.clone()),
        V::Array(a) => Arr(a.iter().map(from_value).collect::<Option<_>>()?),
        V::Object(o) => Obj(o.iter().map(|(k, v)| Some((k.clone(), from_value(v)?))).collect::<Option<_>>()?),
        V::Bool(_) => return None,
    })
}

/// equal up to key order and absent or null optional parts
fn same(a: &J, b: &J) -> bool {
    match (a, b) {
        (Obj(x), Obj(y)) => {
            let f = |v: &Vec<(String, J)>| {
                let mut v: Vec<(String, J)> = v.iter().filter(|e| e.1 != Null).cloned().collect();
                v.sort_by(|p, q| p.0.cmp(&q.0));
                v
            };
            let (x, y) = (f(x), f(y));
            x.len() == y.len() && x.iter().zip(&y).all(|(p, q)| p.0 == q.0 && same(&p.1, &q.1))
        }
        (Arr(x), Arr(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q)),
        _ => a == b,
    }
}

/// Paths of all objects.
fn objects(j: &J, at: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    match j {
        Arr(v) => {
            for (i, x) in v.iter().enumerate() {
                at.push(i);
                objects(x, at, out);
                at.pop();
            }
        }
        Obj(f) => {
            out.push(at.clone());
            for (i, (_, x)) in f.iter().enumerate() {
                at.push(i);
                objects(x, at, out);
                at.pop();
            }
        }
        _ => {}
    }
}

fn object_at<'a>(j: &'a mut J, p: &[usize]) -> &'a mut Vec<(String, J)> {
    match (j, p.split_first()) {
        (Obj(f), None) => f,
        (Obj(f), Some((i, r))) => object_at(&mut f[*i].1, r),
        (Arr(v), Some((i, r))) => object_at(&mut v[*i], r),
        _ => unreachable!(),
    }
}

/// Another way to write a name: shortened, cut, in camel case, in the plural, or any word of the source.
fn respell(name: &str, how: u8, word: &str) -> String {
    let seg: Vec<&str> = name.split('_').collect();
    let cap = |t: &str| t[..1].to_uppercase() + &t[1..];
    match how % 10 {
        0 => format!("{}_", name),
        1 if seg.len() > 1 => seg[1..].join("_"),
        2 if seg.len() > 1 => seg[..seg.len() - 1].join("_"),
        3 if seg.len() > 1 => seg[0].to_string() + &seg[1..].iter().map(|t| cap(t)).collect::<String>(),
        4 => seg.iter().map(|t| cap(t)).collect(),
        5 => name.strip_suffix('s').map(|t| t.to_string()).unwrap_or(format!("{}s", name)),
        6 => name.to_uppercase(),
        7 if seg.len() > 1 => seg.concat(),
        8 => name[..name.len() - 1].to_string(),
        9 => seg.iter().map(|t| &t[..1]).collect(),
        _ => word.to_string(),
    }
}

/// One defect: an unknown field, a missing or misspelled one, one left null, or an amount written as a number.
fn wrecked(j: &J, w: u8, how: u8, word: &str) -> Option<(String, J)> {
    let mut objs = vec![];
    objects(j, &mut vec![], &mut objs);
    let p = objs[(w as usize / 5) % objs.len().max(1)].clone();
    let mut j = j.clone();
    let f = object_at(&mut j, &p);
    let full: Vec<usize> = (0..f.len()).filter(|i| f[*i].1 != Null).collect();
    let pick = |v: &Vec<usize>| if v.is_empty() { None } else { Some(v[(how as usize / 10) % v.len()]) };
    let what = match w % 5 {
        0 => {
            if NAMES.contains(&word) {
                return None;
            }
            f.push((word.to_string(), Num(1)));
            format!("with an unknown field {}", word)
        }
        1 => {
            let i = pick(&full)?;
            if OPTIONAL.contains(&f[i].0.as_str()) {
                return None;
            }
            if how & 1 == 1 {
                f[i].1 = Null;
                format!("with {} null", f[i].0)
            } else {
                format!("without {}", f.remove(i).0)
            }
        }
        2 | 3 => {
            let i = pick(&full)?;
            let k = f[i].0.clone();
            f[i].0 = respell(&k, how, word);
            if NAMES.contains(&f[i].0.as_str()) {
                return None;
            }
            format!("with {} misspelled", k)
        }
        _ => {
            let c: Vec<usize> = full
                .into_iter()
                .filter(|i| matches!(&f[*i].1, Str(s) if AMOUNTS.contains(&f[*i].0.as_str()) && s.parse::<u64>().is_ok()))
                .collect();
            let i = pick(&c)?;
            if let Str(s) = &f[i].1 {
                f[i].1 = Num(s.parse().unwrap());
            }
            format!("with {} as a number", f[i].0)
        }
    };
    Some((what, j))
}

/// every name of the format
const NAMES: [&str; 73] = [
    "add_native_token_decimals", "address", "amount", "ask_amount", "ask_asset", "ask_asset_info", "assert_minimum_receive", "asset_decimals", "asset_info", "asset_infos", "assets", "belief_price", "cap", "code_id", "commission_amount", "config", "contract", "contract_addr", "create_pair", "decimals", "denom", "execute_swap_operation", "execute_swap_operations", "first_asset_minimum", "halo_factory", "halo_swap", "info", "initial_balances", "limit", "liquidity_token", "max_spread", "migrate_pair", "minimum_receive", "mint", "minter", "msg", "name", "native_token", "native_token_decimals", "offer_amount", "offer_asset", "offer_asset_info", "operation", "operations", "owner", "pair", "pair_code_id", "pairs", "pool", "prev_balance", "provide_liquidity", "receive", "receiver", "requirements", "return_amount", "reverse_simulate_swap_operations", "reverse_simulation", "second_asset_minimum", "sender", "simulate_swap_operations", "simulation", "slippage_tolerance", "spread_amount", "start_after", "swap", "symbol", "to", "token", "token_code_id", "total_share", "update_config", "whitelist", "withdraw_liquidity",
];
const OPTIONAL: [&str; 14] = [
    "owner", "token_code_id", "pair_code_id", "code_id", "start_after", "limit", "slippage_tolerance", "receiver", "belief_price", "max_spread", "to", "minimum_receive", "mint", "cap",
];
const AMOUNTS: [&str; 12] = [
    "amount", "first_asset_minimum", "second_asset_minimum", "return_amount", "spread_amount", "commission_amount", "offer_amount", "total_share", "minimum_receive", "prev_balance", "ask_amount", "cap",
];

fn o(f: Vec<(&str, J)>) -> J {
    Obj(f.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}
fn s(x: &str) -> J {
    Str(x.to_string())
}
fn am(x: u128) -> J {
    Str(x.to_string())
}
fn dec(raw: u128) -> J {
    let e = 1_000_000_000_000_000_000u128;
    let mut t = format!("{}", raw / e);
    let f = format!("{:018}", raw % e);
    let f = f.trim_end_matches('0');
    if !f.is_empty() {
        t.push('.');
        t.push_str(f);
    }
    Str(t)
}
fn base64(b: &[u8]) -> J {
    let t = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut r = String::new();
    for c in b.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            r.push(if i <= c.len() { t[(v >> (18 - 6 * i) & 63) as usize] as char } else { '=' });
        }
    }
    Str(r)
}

// ---------------------------------------------------------------- the messages

const KINDS: u8 = 40;

struct Ck<'a> {
    c: &'a WireCase,
    fail: Option<String>,
    labels: Vec<(&'static str, u32)>,
}

impl Ck<'_> {
    fn judge<T: Serialize + DeserializeOwned + PartialEq + Debug>(&mut self, name: &'static str, strict: bool, v: T, j: J) {
        self.labels.push((name, 1));
        let de = |t: &str| guard(|| cosmwasm_std::from_slice::<T>(t.as_bytes()).map_err(|e| e.to_string()));
        for omit in [false, true] {
            let t = text(&j, self.c.turn as usize, omit);
            let got = de(&t);
            if got.as_ref() != Ok(&v) {
                self.fail = Some(format!("{} is read as {:?} instead of {:?}", t, got, v));
                return;
            }
        }
        let out = guard(|| cosmwasm_std::to_vec(&v).map_err(|e| e.to_string()));
        let parsed = out.as_ref().ok().and_then(|b| serde_json::from_slice::<serde_json::Value>(b).ok()).and_then(|v| from_value(&v));
        if !parsed.as_ref().map(|p| same(p, &j)).unwrap_or(false) {
            let shown = out.map(|b| String::from_utf8_lossy(&b).to_string());
            self.fail = Some(format!("{:?} is written as {:?} instead of {}", v, shown, text(&j, 0, false)));
            return;
        }
        if strict {
            if let Some((what, w)) = wrecked(&j, self.c.wreck, self.c.how, &self.c.word) {
                self.labels.push(("wrecked", 1));
                let t = text(&w, self.c.turn as usize, false);
                if let Ok(got) = de(&t) {
                    self.fail = Some(format!("a message {} is accepted: {} is read as {:?}", what, t, got));
                }
            }
        }
    }
}

pub fn check_wire(c: &WireCase) -> Outcome {
    let mut k = Ck { c, fail: None, labels: vec![] };
    let st = |i: usize| c.s[i].clone();
    let u = |i: usize| Uint128::new(c.a[i]);
    let on = |i: u32| c.mask >> i & 1 == 1;
    let oj = |i: u32, j: J| if on(i) { j } else { Null };
    let info = |i: usize| if on(12 + (i as u32 & 3)) { AssetInfo::Token { contract_addr: st(i) } } else { AssetInfo::NativeToken { denom: st(i) } };
    let info_j = |i: usize| {
        if on(12 + (i as u32 & 3)) {
            o(vec![("token", o(vec![("contract_addr", s(&c.s[i]))]))])
        } else {
            o(vec![("native_token", o(vec![("denom", s(&c.s[i]))]))])
        }
    };
    let ass = |i: usize| Asset { info: info(i), amount: u(i) };
    let ass_j = |i: usize| o(vec![("info", info_j(i)), ("amount", am(c.a[i]))]);
    let req = || CreatePairRequirements {
        whitelist: c.s[2..2 + c.len as usize].iter().map(Addr::unchecked).collect(),
        first_asset_minimum: u(2),
        second_asset_minimum: u(3),
    };
    let req_j = || {
        o(vec![
            ("whitelist", Arr(c.s[2..2 + c.len as usize].iter().map(|x| s(x)).collect())),
            ("first_asset_minimum", am(c.a[2])),
            ("second_asset_minimum", am(c.a[3])),
        ])
    };
    let ops = || (0..c.len as usize).map(|i| router::SwapOperation::HaloSwap { offer_asset_info: info(i), ask_asset_info: info(i + 1) }).collect::<Vec<_>>();
    let ops_j = || Arr((0..c.len as usize).map(|i| o(vec![("halo_swap", o(vec![("offer_asset_info", info_j(i)), ("ask_asset_info", info_j(i + 1))]))])).collect());
    let pi = |i: usize| PairInfo {
        asset_infos: [info(i), info(i + 1)],
        contract_addr: st(i + 2),
        liquidity_token: st(i + 3),
        asset_decimals: [c.b[0], c.b[1]],
        requirements: req(),
    };
    let pi_j = |i: usize| {
        o(vec![
            ("asset_infos", Arr(vec![info_j(i), info_j(i + 1)])),
            ("contract_addr", s(&c.s[i + 2])),
            ("liquidity_token", s(&c.s[i + 3])),
            ("asset_decimals", Arr(vec![Num(c.b[0] as u64), Num(c.b[1] as u64)])),
            ("requirements", req_j()),
        ])
    };
    let rcv = || Cw20ReceiveMsg { sender: st(0), amount: u(0), msg: Binary(c.raw.clone()) };
    let rcv_j = || o(vec![("receive", o(vec![("sender", s(&c.s[0])), ("amount", am(c.a[0])), ("msg", base64(&c.raw))]))]);
    let d = |i: usize| Decimal::new(u(i));
    let ostr = |b: u32, i: usize| if on(b) { Some(st(i)) } else { None };
    let infos = || [info(0), info(1)];
    let infos_j = || Arr(vec![info_j(0), info_j(1)]);
    match c.kind {
        0 => k.judge("factory_instantiate", true, factory::InstantiateMsg { pair_code_id: c.n[0], token_code_id: c.n[1] }, o(vec![("pair_code_id", Num(c.n[0])), ("token_code_id", Num(c.n[1]))])),
        1 => k.judge(
            "update_config",
            true,
            factory::ExecuteMsg::UpdateConfig { owner: ostr(0, 0), token_code_id: on(1).then(|| c.n[0]), pair_code_id: on(2).then(|| c.n[1]) },
            o(vec![("update_config", o(vec![("owner", oj(0, s(&c.s[0]))), ("token_code_id", oj(1, Num(c.n[0]))), ("pair_code_id", oj(2, Num(c.n[1])))]))]),
        ),
        2 => k.judge(
            "create_pair",
            true,
            factory::ExecuteMsg::CreatePair { asset_infos: infos(), requirements: req() },
            o(vec![("create_pair", o(vec![("asset_infos", infos_j()), ("requirements", req_j())]))]),
        ),
        3 => k.judge(
            "add_native_token_decimals",
            true,
            factory::ExecuteMsg::AddNativeTokenDecimals { denom: st(0), decimals: c.b[0] },
            o(vec![("add_native_token_decimals", o(vec![("denom", s(&c.s[0])), ("decimals", Num(c.b[0] as u64))]))]),
        ),
        4 => k.judge(
            "migrate_pair",
            true,
            factory::ExecuteMsg::MigratePair { contract: st(0), code_id: on(0).then(|| c.n[0]) },
            o(vec![("migrate_pair", o(vec![("contract", s(&c.s[0])), ("code_id", oj(0, Num(c.n[0])))]))]),
        ),
        5 => k.judge("factory_config", true, factory::QueryMsg::Config {}, o(vec![("config", o(vec![]))])),
        6 => k.judge("factory_pair", true, factory::QueryMsg::Pair { asset_infos: infos() }, o(vec![("pair", o(vec![("asset_infos", infos_j())]))])),
        7 => k.judge(
            "factory_pairs",
            true,
            factory::QueryMsg::Pairs { start_after: on(0).then(infos), limit: on(1).then(|| c.n[0] as u32) },
            o(vec![("pairs", o(vec![("start_after", oj(0, infos_j())), ("limit", oj(1, Num(c.n[0] as u32 as u64)))]))]),
        ),
        8 => k.judge("native_token_decimals", true, factory::QueryMsg::NativeTokenDecimals { denom: st(0) }, o(vec![("native_token_decimals", o(vec![("denom", s(&c.s[0]))]))])),
        9 => k.judge(
            "factory_config_response",
            false,
            factory::ConfigResponse { owner: st(0), pair_code_id: c.n[0], token_code_id: c.n[1] },
            o(vec![("owner", s(&c.s[0])), ("pair_code_id", Num(c.n[0])), ("token_code_id", Num(c.n[1]))]),
        ),
        10 => k.judge(
            "pairs_response",
            false,
            factory::PairsResponse { pairs: (0..c.len as usize).map(pi).collect() },
            o(vec![("pairs", Arr((0..c.len as usize).map(pi_j).collect()))]),
        ),
        11 => k.judge("decimals_response", false, factory::NativeTokenDecimalsResponse { decimals: c.b[0] }, o(vec![("decimals", Num(c.b[0] as u64))])),
        12 => k.judge("pair_info", false, pi(0), pi_j(0)),
        13 => k.judge(
            "pair_instantiate",
            true,
            pair::InstantiateMsg { asset_infos: infos(), token_code_id: c.n[0], asset_decimals: [c.b[0], c.b[1]], requirements: req() },
            o(vec![
                ("asset_infos", infos_j()),
                ("token_code_id", Num(c.n[0])),
                ("asset_decimals", Arr(vec![Num(c.b[0] as u64), Num(c.b[1] as u64)])),
                ("requirements", req_j()),
            ]),
        ),
        14 => k.judge("pair_receive", true, pair::ExecuteMsg::Receive(rcv()), rcv_j()),
        15 | 16 => k.judge(
            "provide_liquidity",
            true,
            pair::ExecuteMsg::ProvideLiquidity { assets: [ass(0), ass(1)], slippage_tolerance: on(0).then(|| d(2)), receiver: ostr(1, 2) },
            o(vec![("provide_liquidity", o(vec![("assets", Arr(vec![ass_j(0), ass_j(1)])), ("slippage_tolerance", oj(0, dec(c.a[2]))), ("receiver", oj(1, s(&c.s[2])))]))]),
        ),
        17 | 18 => k.judge(
            "swap_hook",
            true,
            pair::Cw20HookMsg::Swap { belief_price: on(0).then(|| d(0)), max_spread: on(1).then(|| d(1)), to: ostr(2, 0) },
            o(vec![("swap", o(vec![("belief_price", oj(0, dec(c.a[0]))), ("max_spread", oj(1, dec(c.a[1]))), ("to", oj(2, s(&c.s[0])))]))]),
        ),
        19 => k.judge("withdraw_hook", true, pair::Cw20HookMsg::WithdrawLiquidity {}, o(vec![("withdraw_liquidity", o(vec![]))])),
        20 => k.judge("pair_pair", true, pair::QueryMsg::Pair {}, o(vec![("pair", o(vec![]))])),
        21 => k.judge("pair_pool", true, pair::QueryMsg::Pool {}, o(vec![("pool", o(vec![]))])),
        22 => k.judge("simulation", true, pair::QueryMsg::Simulation { offer_asset: ass(0) }, o(vec![("simulation", o(vec![("offer_asset", ass_j(0))]))])),
        23 => k.judge("reverse_simulation", true, pair::QueryMsg::ReverseSimulation { ask_asset: ass(0) }, o(vec![("reverse_simulation", o(vec![("ask_asset", ass_j(0))]))])),
        24 => k.judge(
            "pool_response",
            false,
            pair::PoolResponse { assets: [ass(0), ass(1)], total_share: u(2) },
            o(vec![("assets", Arr(vec![ass_j(0), ass_j(1)])), ("total_share", am(c.a[2]))]),
        ),
        25 => k.judge(
            "simulation_response",
            false,
            pair::SimulationResponse { return_amount: u(0), spread_amount: u(1), commission_amount: u(2) },
            o(vec![("return_amount", am(c.a[0])), ("spread_amount", am(c.a[1])), ("commission_amount", am(c.a[2]))]),
        ),
        26 => k.judge(
            "reverse_simulation_response",
            false,
            pair::ReverseSimulationResponse { offer_amount: u(0), spread_amount: u(1), commission_amount: u(2) },
            o(vec![("offer_amount", am(c.a[0])), ("spread_amount", am(c.a[1])), ("commission_amount", am(c.a[2]))]),
        ),
        27 => k.judge("router_instantiate", true, router::InstantiateMsg { halo_factory: st(0) }, o(vec![("halo_factory", s(&c.s[0]))])),
        28 => k.judge("router_receive", true, router::ExecuteMsg::Receive(rcv()), rcv_j()),
        29 => k.judge(
            "execute_swap_operations",
            true,
            router::ExecuteMsg::ExecuteSwapOperations { operations: ops(), minimum_receive: on(0).then(|| u(4)), to: ostr(1, 4) },
            o(vec![("execute_swap_operations", o(vec![("operations", ops_j()), ("minimum_receive", oj(0, am(c.a[4]))), ("to", oj(1, s(&c.s[4])))]))]),
        ),
        30 | 31 => k.judge(
            "route_hook",
            true,
            router::Cw20HookMsg::ExecuteSwapOperations { operations: ops(), minimum_receive: on(0).then(|| u(4)), to: ostr(1, 4) },
            o(vec![("execute_swap_operations", o(vec![("operations", ops_j()), ("minimum_receive", oj(0, am(c.a[4]))), ("to", oj(1, s(&c.s[4])))]))]),
        ),
        32 => k.judge("router_config", true, router::QueryMsg::Config {}, o(vec![("config", o(vec![]))])),
        33 => k.judge(
            "simulate_route",
            true,
            router::QueryMsg::SimulateSwapOperations { offer_amount: u(4), operations: ops() },
            o(vec![("simulate_swap_operations", o(vec![("offer_amount", am(c.a[4])), ("operations", ops_j())]))]),
        ),
        34 => k.judge(
            "reverse_simulate_route",
            true,
            router::QueryMsg::ReverseSimulateSwapOperations { ask_amount: u(4), operations: ops() },
            o(vec![("reverse_simulate_swap_operations", o(vec![("ask_amount", am(c.a[4])), ("operations", ops_j())]))]),
        ),
        35 => {
            k.judge("router_config_response", false, router::ConfigResponse { halo_factory: st(0) }, o(vec![("halo_factory", s(&c.s[0]))]));
            if k.fail.is_none() {
                k.judge("route_response", false, router::SimulateSwapOperationsResponse { amount: u(0) }, o(vec![("amount", am(c.a[0]))]));
            }
        }
        36 => {
            k.judge("factory_migrate", true, factory::MigrateMsg {}, o(vec![]));
            if k.fail.is_none() {
                k.judge("pair_migrate", true, pair::MigrateMsg {}, o(vec![]));
            }
            if k.fail.is_none() {
                k.judge("router_migrate", true, router::MigrateMsg {}, o(vec![]));
            }
        }
        37 => k.judge(
            "execute_swap_operation",
            true,
            router::ExecuteMsg::ExecuteSwapOperation {
                operation: router::SwapOperation::HaloSwap { offer_asset_info: info(0), ask_asset_info: info(1) },
                to: ostr(1, 4),
            },
            o(vec![(
                "execute_swap_operation",
                o(vec![("operation", o(vec![("halo_swap", o(vec![("offer_asset_info", info_j(0)), ("ask_asset_info", info_j(1))]))])), ("to", oj(1, s(&c.s[4])))]),
            )]),
        ),
        38 => k.judge(
            "assert_minimum_receive",
            true,
            router::ExecuteMsg::AssertMinimumReceive { asset_info: info(0), prev_balance: u(1), minimum_receive: u(2), receiver: st(3) },
            o(vec![(
                "assert_minimum_receive",
                o(vec![("asset_info", info_j(0)), ("prev_balance", am(c.a[1])), ("minimum_receive", am(c.a[2])), ("receiver", s(&c.s[3]))]),
            )]),
        ),
        _ => k.judge(
            "token_instantiate",
            true,
            token::InstantiateMsg {
                name: st(0),
                symbol: st(1),
                decimals: c.b[0],
                initial_balances: (2..2 + c.len as usize).map(|i| Cw20Coin { address: st(i), amount: u(i) }).collect(),
                mint: on(0).then(|| MinterResponse { minter: st(7), cap: on(1).then(|| u(7)) }),
            },
            o(vec![
                ("name", s(&c.s[0])),
                ("symbol", s(&c.s[1])),
                ("decimals", Num(c.b[0] as u64)),
                ("initial_balances", Arr((2..2 + c.len as usize).map(|i| o(vec![("address", s(&c.s[i])), ("amount", am(c.a[i]))])).collect())),
                ("mint", oj(0, o(vec![("minter", s(&c.s[7])), ("cap", oj(1, am(c.a[7])))]))),
            ]),
        ),
    }
    let bare = matches!(c.kind, 5 | 19 | 20 | 21 | 32 | 36);
    Outcome { fail: k.fail, nontrivial: !bare, labels: k.labels }
}
