//! C27: asset identity, canonical form, ledger lookups and payment messages.
use crate::chain::{guard, native_info, token_info};
use crate::run::Outcome;
use crate::world::{amount, mag};
use cosmwasm_std::testing::{mock_info, MockApi};
use cosmwasm_std::{
    from_binary, from_slice, to_binary, Addr, Api, BalanceResponse, BankMsg, BankQuery, Coin, ContractResult, CosmosMsg, Empty, Querier, QuerierResult,
    QuerierWrapper, QueryRequest, SystemError, SystemResult, Uint128, WasmMsg, WasmQuery,
};
use cw20::{Cw20ExecuteMsg, Cw20QueryMsg};
use haloswap::asset::{Asset, AssetInfo, AssetInfoRaw, CreatePairRequirements, PairInfoRaw};
use haloswap::factory::{NativeTokenDecimalsResponse, QueryMsg as FactoryQuery};
use haloswap::pair::{QueryMsg as PairQuery, ReverseSimulationResponse, SimulationResponse};
use haloswap::querier;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug, Hash, PartialEq, Eq)]
pub struct A {
    pub native: bool,
    pub name: String,
}
impl A {
    fn info(&self) -> AssetInfo {
        if self.native {
            native_info(&self.name)
        } else {
            token_info(&self.name)
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub struct AssetCase {
    pub a: A,
    pub b: A,
    pub pair: String,
    pub lp: String,
    pub who: String,
    pub other: String,
    pub am: [u128; 2],
    pub dec: [u8; 2],
    pub funds: Vec<(String, u128)>,
    /// 0: take the attached amount as declared one, 1: one more, 2: one less, else `am[0]`
    pub near: u8,
    /// ledger entries: (contract, None for the bank), account, denom or "", amount
    pub ledger: Vec<(u8, u8, u8, u128)>,
}

fn addr() -> BoxedStrategy<String> {
    prop_oneof![3 => "[a-z0-9]{3,44}", 1 => "contract[0-9]{1,3}", 1 => "[a-z0-9]{54}", 1 => "[a-z]{3}"].boxed()
}
fn denom() -> BoxedStrategy<String> {
    prop_oneof![3 => "u[a-z]{2,8}", 1 => "ibc/[0-9A-F]{8,64}", 1 => "[a-zA-Z][a-zA-Z0-9/:._-]{2,20}", 1 => addr(), 1 => crate::dict::denom()].boxed()
}
fn an_asset() -> BoxedStrategy<A> {
    prop_oneof![
        denom().prop_map(|name| A { native: true, name }),
        addr().prop_map(|name| A { native: false, name }),
    ]
    .boxed()
}

pub fn asset_case() -> BoxedStrategy<AssetCase> {
    (
        (an_asset(), an_asset(), 0u8..10, any::<prop::sample::Index>()),
        (addr(), addr(), addr(), addr()),
        [amount(128), amount(128)],
        [any::<u8>(), any::<u8>()],
        prop::collection::vec((denom(), amount(128)), 0..4),
        0u8..7,
        any::<bool>(),
        prop::collection::vec((0u8..6, 0u8..4, 0u8..5, mag(1, 128)), 0..12),
    )
        .prop_map(|((a, b, rel, ix), (pair, lp, who, other), am, dec, funds, near, attach, ledger)| {
            let mut b = match rel {
                0 => a.clone(),
                1 => A { native: !a.native, name: a.name.clone() },
                2 => {
                    // one character apart, or a prefix
                    let mut n: Vec<char> = a.name.chars().collect();
                    let i = ix.index(n.len());
                    n[i] = if n[i] == 'q' { 'w' } else { 'q' };
                    A { native: a.native, name: n.into_iter().collect() }
                }
                3 => A { native: a.native, name: format!("{}q", a.name) },
                4 => {
                    // case apart only
                    let n: String = if ix.index(2) == 0 { a.name.to_uppercase() } else { a.name.chars().enumerate().map(|(i, c)| if i == ix.index(a.name.len()) { c.to_ascii_uppercase() } else { c }).collect() };
                    A { native: a.native, name: n }
                }
                5 => A { native: a.native, name: format!("ibc/{}", a.name) },
                _ => b,
            };
            if b.name.len() > 54 {
                b.name.truncate(54);
            }
            let mut funds = funds;
            if rel % 2 == 1 && a.native {
                // coins under similar names
                for (i, n) in [format!("ibc/{}", a.name), a.name.rsplit('/').next().unwrap().to_string(), a.name.to_uppercase()].into_iter().enumerate() {
                    if n != a.name && ix.index(3) != i {
                        funds.push((n, am[1]));
                    }
                }
            }
            if attach && a.native {
                let i = ix.index(funds.len() + 1);
                funds.insert(i, (a.name.clone(), am[1]));
            }
            let mut seen = std::collections::HashSet::new();
            funds.retain(|(d, _)| seen.insert(d.clone()));
            AssetCase { a, b, pair, lp, who, other, am, dec, funds, near, ledger }
        })
        .boxed()
}

/// Answers by name only: every (contract, account, denom) has its own number.
struct Ledger<'a> {
    tokens: Vec<&'a str>,
    accounts: Vec<&'a str>,
    denoms: Vec<&'a str>,
    entries: &'a [(u8, u8, u8, u128)],
    dec: [u8; 2],
    factory: &'a str,
}

impl Ledger<'_> {
    fn get(&self, contract: Option<&str>, account: &str, denom: &str) -> u128 {
        // contract index 0 is the bank; an unknown name holds nothing
        let c = match contract {
            None => 0,
            Some(c) => match self.tokens.iter().position(|t| *t == c) {
                Some(i) => i as u8 + 1,
                None => return 0,
            },
        };
        let a = match self.accounts.iter().position(|t| *t == account) {
            Some(i) => i as u8,
            None => return 0,
        };
        let d = if c == 0 {
            match self.denoms.iter().position(|t| *t == denom) {
                Some(i) => i as u8,
                None => return 0,
            }
        } else {
            0
        };
        let base = 1000 + (c as u128) * 100 + (a as u128) * 10 + d as u128;
        self.entries.iter().rev().find(|e| e.0 % 3 == c % 3 && e.1 % 4 == a % 4 && (c > 0 || e.2 % 5 == d % 5)).map(|e| e.3).unwrap_or(base)
    }
    fn decimals_of_native(&self, d: &str) -> u8 {
        self.dec[0].wrapping_add(d.len() as u8)
    }
    fn decimals_of_token(&self, t: &str) -> u8 {
        self.dec[1].wrapping_add(3 * t.len() as u8)
    }
}

impl Querier for Ledger<'_> {
    fn raw_query(&self, bin: &[u8]) -> QuerierResult {
        let q: QueryRequest<Empty> = match from_slice(bin) {
            Ok(q) => q,
            Err(e) => return SystemResult::Err(SystemError::InvalidRequest { error: e.to_string(), request: bin.into() }),
        };
        let ok = |b: cosmwasm_std::Binary| SystemResult::Ok(ContractResult::Ok(b));
        match q {
            QueryRequest::Bank(BankQuery::Balance { address, denom }) => {
                let amount = Uint128::new(self.get(None, &address, &denom));
                ok(to_binary(&BalanceResponse { amount: Coin { denom, amount } }).unwrap())
            }
            QueryRequest::Wasm(WasmQuery::Smart { contract_addr, msg }) => {
                if contract_addr == self.factory {
                    if let Ok(FactoryQuery::NativeTokenDecimals { denom }) = from_binary(&msg) {
                        return ok(to_binary(&NativeTokenDecimalsResponse { decimals: self.decimals_of_native(&denom) }).unwrap());
                    }
                }
                match from_binary::<PairQuery>(&msg) {
                    Ok(PairQuery::Simulation { offer_asset }) => {
                        return ok(to_binary(&SimulationResponse {
                            return_amount: offer_asset.amount,
                            spread_amount: Uint128::new(contract_addr.len() as u128),
                            commission_amount: Uint128::new(offer_asset.info.to_string().len() as u128),
                        })
                        .unwrap())
                    }
                    Ok(PairQuery::ReverseSimulation { ask_asset }) => {
                        return ok(to_binary(&ReverseSimulationResponse {
                            offer_amount: ask_asset.amount,
                            spread_amount: Uint128::new(contract_addr.len() as u128),
                            commission_amount: Uint128::new(1000 + ask_asset.info.to_string().len() as u128),
                        })
                        .unwrap())
                    }
                    _ => {}
                }
                match from_binary::<Cw20QueryMsg>(&msg) {
                    Ok(Cw20QueryMsg::Balance { address }) => {
                        ok(to_binary(&cw20::BalanceResponse { balance: Uint128::new(self.get(Some(&contract_addr), &address, "")) }).unwrap())
                    }
                    Ok(Cw20QueryMsg::TokenInfo {}) => ok(to_binary(&cw20::TokenInfoResponse {
                        name: contract_addr.clone(),
                        symbol: "SYM".into(),
                        decimals: self.decimals_of_token(&contract_addr),
                        total_supply: Uint128::new(7 + contract_addr.len() as u128),
                    })
                    .unwrap()),
                    _ => SystemResult::Err(SystemError::InvalidRequest { error: "unexpected query".into(), request: msg }),
                }
            }
            _ => SystemResult::Err(SystemError::UnsupportedRequest { kind: "other".into() }),
        }
    }
}

pub fn check_asset(t: &AssetCase) -> Outcome {
    let api = MockApi::default();
    let (ia, ib) = (t.a.info(), t.b.info());
    let mut fails: Vec<String> = vec![];
    let mut labels: Vec<(&'static str, u32)> = vec![];
    macro_rules! want {
        ($c:expr, $($m:tt)*) => { if !($c) { fails.push(format!($($m)*)); } };
    }
    let same = t.a == t.b;
    labels.push((if same { "same_asset" } else if t.a.name == t.b.name { "same_name_other_kind" } else { "different" }, 1));
    want!(guard(|| Ok(ia.equal(&ib))) == Ok(same), "{:?} equal {:?}: expected {}", ia, ib, same);
    want!(guard(|| Ok(ib.equal(&ia))) == Ok(same), "{:?} equal {:?}: expected {}", ib, ia, same);
    want!((ia == ib) == same, "{:?} == {:?}: expected {}", ia, ib, same);
    want!(ia.is_native_token() == t.a.native, "{:?} is_native_token", ia);
    let aa = Asset { info: ia.clone(), amount: Uint128::new(t.am[0]) };
    let bb = Asset { info: ib.clone(), amount: Uint128::new(t.am[1]) };
    want!(aa.is_native_token() == t.a.native, "{:?} is_native_token", aa);
    want!(ia.to_string() == t.a.name, "{:?} prints as {}", ia, ia);
    // canonical form (the amounts and names must survive)
    let valid = |x: &A| x.native || (x.name.len() >= 3 && x.name.len() <= 54 && x.name == x.name.to_lowercase());
    let raw = |i: &AssetInfo| guard(|| i.to_raw(&api).map_err(|e| e.to_string()));
    if valid(&t.a) {
        match raw(&ia) {
            Err(e) => fails.push(format!("{:?} has no canonical form: {}", ia, e)),
            Ok(r) => {
                let exp = if t.a.native {
                    AssetInfoRaw::NativeToken { denom: t.a.name.clone() }
                } else {
                    AssetInfoRaw::Token { contract_addr: api.addr_canonicalize(&t.a.name).unwrap() }
                };
                want!(r == exp, "{:?}: canonical form {:?}, expected {:?}", ia, r, exp);
                let bytes: &[u8] = match &exp {
                    AssetInfoRaw::NativeToken { denom } => denom.as_bytes(),
                    AssetInfoRaw::Token { contract_addr } => contract_addr.as_slice(),
                };
                want!(r.as_bytes() == bytes, "{:?}: bytes {:?}", ia, r.as_bytes());
                let back = guard(|| r.to_normal(&api).map_err(|e| e.to_string()));
                want!(back.as_ref() == Ok(&ia), "{:?} to canonical form and back: {:?}", ia, back);
                if valid(&t.b) {
                    if let Ok(rb) = raw(&ib) {
                        want!(guard(|| Ok(r.equal(&rb))) == Ok(same), "canonical {:?} equal {:?}: expected {}", r, rb, same);
                        want!(guard(|| Ok(rb.equal(&r))) == Ok(same), "canonical {:?} equal {:?}: expected {}", rb, r, same);
                    }
                }
            }
        }
        let back = guard(|| aa.to_raw(&api).and_then(|r| r.to_normal(&api)).map_err(|e| e.to_string()));
        want!(back.as_ref() == Ok(&aa), "{:?} to canonical form and back: {:?}", aa, back);
    }
    let all_valid = valid(&t.a) && valid(&t.b);
    if all_valid {
        if let (Ok(ra), Ok(rb)) = (raw(&ia), raw(&ib)) {
            let rec = PairInfoRaw {
                asset_infos: [ra, rb],
                contract_addr: api.addr_canonicalize(&t.pair).unwrap(),
                liquidity_token: api.addr_canonicalize(&t.lp).unwrap(),
                asset_decimals: t.dec,
                requirements: CreatePairRequirements {
                    whitelist: vec![Addr::unchecked(&t.who), Addr::unchecked(&t.other)],
                    first_asset_minimum: Uint128::new(t.am[0]),
                    second_asset_minimum: Uint128::new(t.am[1]),
                },
            };
            match guard(|| rec.to_normal(&api).map_err(|e| e.to_string())) {
                Err(e) => fails.push(format!("record {:?} has no readable form: {}", rec, e)),
                Ok(n) => {
                    want!(n.asset_infos == [ia.clone(), ib.clone()], "record assets {:?}, expected {:?}", n.asset_infos, [&ia, &ib]);
                    want!(n.contract_addr == t.pair && n.liquidity_token == t.lp, "record addresses {} {}, expected {} {}", n.contract_addr, n.liquidity_token, t.pair, t.lp);
                    want!(n.asset_decimals == t.dec, "record decimals {:?}, expected {:?}", n.asset_decimals, t.dec);
                    want!(n.requirements == rec.requirements, "record requirements {:?}, expected {:?}", n.requirements, rec.requirements);
                }
            }
            // lookups
            let mut tokens: Vec<&str> = vec![];
            let mut denoms: Vec<&str> = vec![];
            for x in [&t.a, &t.b] {
                let l = if x.native { &mut denoms } else { &mut tokens };
                if !l.contains(&x.name.as_str()) {
                    l.push(&x.name);
                }
            }
            let mut accounts: Vec<&str> = vec![];
            for x in [&t.pair, &t.who, &t.other, &t.lp] {
                if !accounts.contains(&x.as_str()) {
                    accounts.push(x);
                }
            }
            let led = Ledger { tokens, accounts, denoms, entries: &t.ledger, dec: t.dec, factory: "thefactory" };
            let w = QuerierWrapper::<Empty>::new(&led);
            let exp = |x: &A, who: &str| if x.native { led.get(None, who, &x.name) } else { led.get(Some(&x.name), who, "") };
            for (x, i) in [(&t.a, &ia), (&t.b, &ib)] {
                for who in [&t.pair, &t.who] {
                    let got = guard(|| i.query_pool(&w, &api, Addr::unchecked(who)).map(|v| v.u128()).map_err(|e| e.to_string()));
                    want!(got == Ok(exp(x, who)), "balance of {} in {:?}: {:?}, its ledger says {}", who, i, got, exp(x, who));
                    let got = if x.native {
                        guard(|| querier::query_balance(&w, Addr::unchecked(who), x.name.clone()).map(|v| v.u128()).map_err(|e| e.to_string()))
                    } else {
                        guard(|| querier::query_token_balance(&w, Addr::unchecked(&x.name), Addr::unchecked(who)).map(|v| v.u128()).map_err(|e| e.to_string()))
                    };
                    want!(got == Ok(exp(x, who)), "looked up balance of {} in {:?}: {:?}, its ledger says {}", who, i, got, exp(x, who));
                }
                let dexp = if x.native { led.decimals_of_native(&x.name) } else { led.decimals_of_token(&x.name) };
                let got = guard(|| i.query_decimals(Addr::unchecked("thefactory"), &w).map_err(|e| e.to_string()));
                want!(x.name == "thefactory" || got == Ok(dexp), "decimals of {:?}: {:?}, expected {}", i, got, dexp);
                if !x.native {
                    let got = guard(|| querier::query_token_info(&w, Addr::unchecked(&x.name)).map_err(|e| e.to_string()));
                    want!(got.as_ref().map(|r| (r.name.as_str(), r.total_supply.u128())) == Ok((x.name.as_str(), 7 + x.name.len() as u128)), "token info of {:?}: {:?}", i, got);
                }
                let oa = Asset { info: i.clone(), amount: Uint128::new(t.am[1]) };
                let got = guard(|| querier::simulate(&w, Addr::unchecked(&t.pair), &oa).map_err(|e| e.to_string()));
                want!(
                    got.as_ref().map(|r| (r.return_amount.u128(), r.spread_amount.u128(), r.commission_amount.u128())) == Ok((t.am[1], t.pair.len() as u128, x.name.len() as u128)),
                    "simulation lookup of {:?} on {}: {:?}", oa, t.pair, got
                );
                let got = guard(|| querier::reverse_simulate(&w, Addr::unchecked(&t.pair), &oa).map_err(|e| e.to_string()));
                want!(
                    got.as_ref().map(|r| (r.offer_amount.u128(), r.spread_amount.u128(), r.commission_amount.u128())) == Ok((t.am[1], t.pair.len() as u128, 1000 + x.name.len() as u128)),
                    "reverse simulation lookup of {:?} on {}: {:?}", oa, t.pair, got
                );
            }
            let got = guard(|| rec.query_pools(&w, &api, Addr::unchecked(&t.pair)).map_err(|e| e.to_string()));
            let expp = [Asset { info: ia.clone(), amount: Uint128::new(exp(&t.a, &t.pair)) }, Asset { info: ib.clone(), amount: Uint128::new(exp(&t.b, &t.pair)) }];
            want!(got.as_ref() == Ok(&expp), "pools {:?}, expected {:?}", got, expp);
            labels.push(("lookups", 1));
        }
    }
    // payment messages
    for (xa, x) in [(&t.a, &aa), (&t.b, &bb)] {
    let msgs = [
        guard(|| x.clone().into_msg(Addr::unchecked(&t.who)).map_err(|e| e.to_string())),
        guard(|| x.clone().into_submsg(Addr::unchecked(&t.who)).map(|s| s.msg).map_err(|e| e.to_string())),
    ];
    for m in msgs {
        match m {
            Err(e) => fails.push(format!("no payment message for {:?}: {}", x, e)),
            Ok(CosmosMsg::Bank(BankMsg::Send { to_address, amount })) => {
                want!(
                    xa.native && to_address == t.who && amount == vec![Coin { denom: xa.name.clone(), amount: Uint128::new(x.amount.u128()) }],
                    "paying {:?} to {} sends {:?} to {}", x, t.who, amount, to_address
                );
                labels.push(("bank_payment", 1));
            }
            Ok(CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds })) => {
                let dec = from_binary::<Cw20ExecuteMsg>(&msg);
                let expm = Cw20ExecuteMsg::Transfer { recipient: t.who.clone(), amount: Uint128::new(x.amount.u128()) };
                want!(
                    !xa.native && contract_addr == xa.name && funds.is_empty() && dec.as_ref().ok() == Some(&expm),
                    "paying {:?} to {} executes {:?} on {} with {:?}", x, t.who, dec, contract_addr, funds
                );
                labels.push(("token_payment", 1));
            }
            Ok(m) => fails.push(format!("paying {:?} to {}: {:?}", x, t.who, m)),
        }
    }
    }
    // sent coins
    let funds: Vec<Coin> = t.funds.iter().map(|(d, a)| Coin { denom: d.clone(), amount: Uint128::new(*a) }).collect();
    let att = t.funds.iter().find(|(d, _)| *d == t.a.name).map(|f| f.1).unwrap_or(0);
    let decl = match t.near {
        0 | 1 => att,
        2 => att.saturating_add(1),
        3 => att.saturating_sub(1),
        4 => 0,
        6 => t.am[1],
        _ => t.am[0],
    };
    let da = Asset { info: ia.clone(), amount: Uint128::new(decl) };
    let got = guard(|| Ok(da.assert_sent_native_token_balance(&mock_info(&t.who, &funds)).is_ok()));
    let expect = !t.a.native || decl == att;
    want!(got == Ok(expect), "declaring {:?} with {:?} attached: accepted {:?}, expected {}", da, funds, got, expect);
    if t.a.native && att > 0 {
        labels.push((if expect { "coins_match" } else { "coins_mismatch" }, 1));
    }
    Outcome { fail: fails.into_iter().next(), nontrivial: all_valid && t.am[0] > 0, labels }
}
