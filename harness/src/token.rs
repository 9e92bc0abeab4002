//! C23, C24: the token contract against a plain ledger.
use crate::chain::guard;
use crate::run::Outcome;
use crate::world::{amount, mag};
use cosmwasm_std::{Addr, Binary, Deps, DepsMut, Empty, Env, MessageInfo, Response, StdError, StdResult, Uint128};
use cw20::{AllAccountsResponse, AllowanceResponse, BalanceResponse, Cw20Coin, Cw20ExecuteMsg, Cw20QueryMsg, Cw20ReceiveMsg, Expiration, MinterResponse, TokenInfoResponse};
use cw_multi_test::{App, AppBuilder, Contract, ContractWrapper, Executor};
use proptest::prelude::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::BTreeMap;

// ------------------------------------------------------------ a receiving contract

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum SinkMsg {
    Receive(Cw20ReceiveMsg),
}
fn sink_exec(deps: DepsMut, _e: Env, info: MessageInfo, msg: SinkMsg) -> StdResult<Response> {
    let SinkMsg::Receive(m) = msg;
    if m.msg.as_slice() == b"refuse" {
        return Err(StdError::generic_err("refused by the receiver"));
    }
    deps.storage.set(b"last", &cosmwasm_std::to_vec(&(info.sender.to_string(), m))?);
    Ok(Response::new())
}
fn sink_inst(_d: DepsMut, _e: Env, _i: MessageInfo, _m: Empty) -> StdResult<Response> {
    Ok(Response::new())
}
fn sink_query(deps: Deps, _e: Env, _m: Empty) -> StdResult<Binary> {
    Ok(Binary(deps.storage.get(b"last").unwrap_or_else(|| b"null".to_vec())))
}
fn sink_code() -> Box<dyn Contract<Empty>> {
    Box::new(ContractWrapper::new(sink_exec, sink_inst, sink_query))
}
fn token_code() -> Box<dyn Contract<Empty>> {
    use halo_token::contract as c;
    Box::new(ContractWrapper::new(c::execute, c::instantiate, c::query))
}

struct T {
    app: App,
    token: String,
    sink: String,
}
impl T {
    fn query<R: DeserializeOwned>(&self, q: &Cw20QueryMsg) -> Result<R, String> {
        guard(|| self.app.wrap().query_wasm_smart(&self.token, q).map_err(|e| e.to_string()))
    }
}

fn new_token(m: &haloswap::token::InstantiateMsg) -> Result<T, String> {
    let mut app = AppBuilder::new().build(|_, _, _| {});
    let tc = app.store_code(token_code());
    let sc = app.store_code(sink_code());
    let sink = app.instantiate_contract(sc, Addr::unchecked("anyone"), &Empty {}, &[], "sink", None).map_err(|e| format!("HARNESS {}", e))?.to_string();
    let token = guard(|| app.instantiate_contract(tc, Addr::unchecked("anyone"), m, &[], "token", None).map(|a| a.to_string()).map_err(|e| format!("{:#}", e)))?;
    Ok(T { app, token, sink })
}

// ------------------------------------------------------------ C24

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub struct MetaCase {
    pub name: String,
    pub symbol: String,
    pub decimals: u8,
    pub balances: Vec<(String, u128)>,
    /// minter and cap
    pub mint: Option<(String, Option<u128>)>,
}

fn holder() -> BoxedStrategy<String> {
    prop_oneof![40 => "[a-z0-9]{3,20}", 10 => "holder[0-9]", 1 => "[a-z]{0,2}", 1 => "[a-z]{1,4}[A-Z][a-z]{2,4}", 1 => "[a-z]{55,60}", 1 => "[a-z]{54}"].boxed()
}

pub fn meta() -> BoxedStrategy<MetaCase> {
    let name = prop_oneof![
        8 => "[a-zA-Z ]{3,30}",
        2 => prop_oneof!["[a-z]{0,4}", "[a-z]{48,52}"],
        1 => "[a-zé€😀]{1,4}",
        1 => "[é€]{15,27}",
        1 => "\\PC{0,60}",
        1 => crate::dict::word(),
    ];
    let symbol = prop_oneof![
        10 => "[a-zA-Z-]{3,12}",
        2 => prop_oneof!["[A-Z]{0,4}", "[A-Z]{11,14}"],
        3 => ("[a-zA-Z-]{2,11}", any::<prop::sample::Index>(), prop::sample::select(vec!['@', '[', '`', '{', '0', '9', ' ', '_', ',', '.', '/', 'é', '\n', 'A', 'Z', 'a', 'z', '-'])).prop_map(|(s, i, c)| {
            let p = i.index(s.len() + 1);
            let mut s = s;
            s.insert(p, c);
            s
        }),
    ];
    let decimals = prop_oneof![8 => 0u8..=18, 1 => Just(18u8), 1 => Just(19u8), 1 => any::<u8>()];
    let balances = prop_oneof![
        6 => prop::collection::vec((holder(), mag(0, 120)), 0..6),
        1 => prop::collection::vec((holder(), mag(120, 128)), 0..4),
        2 => prop::collection::vec(("holder[0-9]", mag(0, 100)), 2..6),
    ];
    (name, symbol, decimals, balances, prop::option::weighted(0.7, (holder(), 0u8..6, amount(128))), any::<u8>())
        .prop_map(|(name, symbol, decimals, mut balances, mint, dedup)| {
            if dedup % 8 != 0 {
                let mut seen = std::collections::HashSet::new();
                balances.retain(|b: &(String, u128)| seen.insert(b.0.clone()));
            }
            let sum = balances.iter().fold(0u128, |s, b| s.saturating_add(b.1));
            let mint = mint.map(|(m, k, v)| {
                (
                    m,
                    match k {
                        0 => None,
                        1 => Some(sum),
                        2 => Some(sum.saturating_sub(1)),
                        3 => Some(sum.saturating_add(1)),
                        4 => Some(v),
                        _ => Some(sum.saturating_add(v)),
                    },
                )
            });
            MetaCase { name, symbol, decimals, balances, mint }
        })
        .boxed()
}

fn valid_addr(a: &str) -> bool {
    a.len() >= 3 && a.len() <= 54 && a == a.to_lowercase()
}

pub fn check_meta(c: &MetaCase) -> Outcome {
    let msg = haloswap::token::InstantiateMsg {
        name: c.name.clone(),
        symbol: c.symbol.clone(),
        decimals: c.decimals,
        initial_balances: c.balances.iter().map(|(a, v)| Cw20Coin { address: a.clone(), amount: Uint128::new(*v) }).collect(),
        mint: c.mint.as_ref().map(|(m, cap)| MinterResponse { minter: m.clone(), cap: cap.map(Uint128::new) }),
    };
    let sum = c.balances.iter().try_fold(0u128, |s, b| s.checked_add(b.1));
    let mut reasons: Vec<&'static str> = vec![];
    if c.name.len() < 3 || c.name.len() > 50 {
        reasons.push("bad_name");
    }
    if c.symbol.len() < 3 || c.symbol.len() > 12 || !c.symbol.bytes().all(|b| b.is_ascii_alphabetic() || b == b'-') {
        reasons.push("bad_symbol");
    }
    if c.decimals > 18 {
        reasons.push("bad_decimals");
    }
    let distinct = c.balances.iter().map(|b| &b.0).collect::<std::collections::HashSet<_>>().len() == c.balances.len();
    if !distinct {
        reasons.push("duplicate_holder");
    }
    if !c.balances.iter().all(|b| valid_addr(&b.0)) {
        reasons.push("bad_holder");
    }
    let cap = c.mint.as_ref().and_then(|m| m.1);
    match (sum, cap) {
        (None, _) => reasons.push("supply_overflow"),
        (Some(s), Some(k)) if s > k => reasons.push("beyond_cap"),
        _ => {}
    }
    let minter_ok = c.mint.as_ref().map(|m| valid_addr(&m.0)).unwrap_or(true);
    let nontrivial = reasons.len() <= 1;
    let one_reason = *reasons.first().unwrap_or(&"valid");
    let labels = vec![(if reasons.len() > 1 { "several_reasons" } else { one_reason }, 1)];
    let got = new_token(&msg);
    if let Err(e) = &got {
        if e.starts_with("HARNESS") {
            panic!("{}", e);
        }
    }
    let fail = (|| {
        match &got {
            Err(e) => {
                if reasons.is_empty() && minter_ok {
                    return Some(format!("valid token refused: {} ({:?})", e, c));
                }
            }
            Ok(t) => {
                if !reasons.is_empty() {
                    return Some(format!("token created although {:?}: {:?}", reasons, c));
                }
                if !minter_ok {
                    return Some(format!("token created with an invalid minter: {:?}", c));
                }
                let ti: Result<TokenInfoResponse, String> = t.query(&Cw20QueryMsg::TokenInfo {});
                let exp = TokenInfoResponse { name: c.name.clone(), symbol: c.symbol.clone(), decimals: c.decimals, total_supply: Uint128::new(sum.unwrap()) };
                if ti.as_ref() != Ok(&exp) {
                    return Some(format!("token reports {:?}, created as {:?}", ti, exp));
                }
                let m: Result<Option<MinterResponse>, String> = t.query(&Cw20QueryMsg::Minter {});
                if m.as_ref() != Ok(&msg.mint) {
                    return Some(format!("token reports the minter {:?}, created with {:?}", m, msg.mint));
                }
                for (a, v) in &c.balances {
                    let b: Result<BalanceResponse, String> = t.query(&Cw20QueryMsg::Balance { address: a.clone() });
                    if b.as_ref().map(|b| b.balance.u128()) != Ok(*v) {
                        return Some(format!("initial balance of {} is {:?}, created with {}", a, b, v));
                    }
                }
                let all: Result<AllAccountsResponse, String> = t.query(&Cw20QueryMsg::AllAccounts { start_after: None, limit: Some(30) });
                let mut want: Vec<String> = c.balances.iter().map(|b| b.0.clone()).collect();
                want.sort();
                match all {
                    Ok(mut a) => {
                        a.accounts.sort();
                        if a.accounts != want {
                            return Some(format!("holders {:?}, created with {:?}", a.accounts, want));
                        }
                    }
                    Err(e) => return Some(format!("holders cannot be listed: {}", e)),
                }
            }
        }
        None
    })();
    Outcome { fail, nontrivial, labels }
}

// ------------------------------------------------------------ C23

#[derive(Serialize, Deserialize, Clone, Copy, Debug, Hash, PartialEq, Eq)]
pub enum TK {
    Transfer,
    Send,
    Burn,
    Mint,
    Inc,
    Dec,
    TransferFrom,
    SendFrom,
    BurnFrom,
    SetMinter,
    Wait,
    Garbage,
}

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub enum TA {
    Abs(u128),
    /// of the balance
    Bal(u32),
    /// balance + k
    BalPlus(i8),
    /// allowance + k
    AllowPlus(i8),
    Allow(u32),
    /// to the cap, plus k
    CapPlus(i8),
}

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub struct TOp {
    pub k: TK,
    pub s: u8,
    pub o: u8,
    pub r: u8,
    pub a: TA,
    /// none, never, height +d, time +d seconds
    pub exp: (u8, i8),
}

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub struct TCase {
    pub balances: Vec<u128>,
    pub minter: Option<(u8, Option<u128>)>,
    pub ops: Vec<TOp>,
}

pub fn ledger(ops: usize) -> BoxedStrategy<TCase> {
    let ta = prop_oneof![
        2 => amount(122).prop_map(TA::Abs),
        4 => (0u32..1_000_000).prop_map(TA::Bal),
        3 => (-2i8..3).prop_map(TA::BalPlus),
        4 => (-2i8..3).prop_map(TA::AllowPlus),
        3 => (0u32..1_500_000).prop_map(TA::Allow),
        2 => (-2i8..3).prop_map(TA::CapPlus),
        1 => (0i8..3).prop_map(|k| TA::Abs(u128::MAX - k as u128)),
    ];
    let k = prop_oneof![
        4 => Just(TK::Transfer), 2 => Just(TK::Send), 2 => Just(TK::Burn), 3 => Just(TK::Mint), 5 => Just(TK::Inc), 2 => Just(TK::Dec),
        5 => Just(TK::TransferFrom), 3 => Just(TK::SendFrom), 3 => Just(TK::BurnFrom), 1 => Just(TK::SetMinter), 2 => Just(TK::Wait), 1 => Just(TK::Garbage),
    ];
    let op = (k, any::<u8>(), any::<u8>(), any::<u8>(), ta, (0u8..6, -2i8..6)).prop_map(|(k, s, o, r, a, exp)| TOp { k, s, o, r, a, exp });
    (
        prop::collection::vec(prop_oneof![3 => mag(1, 110), 1 => mag(0, 126), 1 => 0u128..50], 4),
        prop::option::weighted(0.8, (0u8..6, prop::option::weighted(0.6, amount(118)))),
        prop::collection::vec(op, 2..=ops),
    )
        .prop_map(|(balances, minter, ops)| {
            let sum = balances.iter().fold(0u128, |s, b| s.saturating_add(*b));
            TCase { minter: minter.map(|(m, c)| (m, c.map(|c| sum.saturating_add(c)))), balances, ops }
        })
        .boxed()
}

pub fn check_ledger(c: &TCase) -> Outcome {
    // users 0..4, the receiving contract, a bad address
    let names: Vec<String> = (0..4).map(|i| format!("user{}", i)).collect();
    let mut labels: BTreeMap<&'static str, u32> = BTreeMap::new();
    if c.balances.iter().try_fold(0u128, |s, b| s.checked_add(*b)).is_none() {
        return Outcome::ok(false);
    }
    let minter0 = c.minter.as_ref().map(|(m, cap)| (names[*m as usize % 4].clone(), *cap));
    let msg = haloswap::token::InstantiateMsg {
        name: "ledger".into(),
        symbol: "LED".into(),
        decimals: 6,
        initial_balances: names.iter().zip(&c.balances).map(|(a, v)| Cw20Coin { address: a.clone(), amount: Uint128::new(*v) }).collect(),
        mint: minter0.as_ref().map(|(m, cap)| MinterResponse { minter: m.clone(), cap: cap.map(Uint128::new) }),
    };
    let mut t = match new_token(&msg) {
        Ok(t) => t,
        Err(e) if e.starts_with("HARNESS") => panic!("{}", e),
        Err(_) => return Outcome { fail: None, nontrivial: false, labels: vec![("setup_refused", 1)] },
    };
    let mut acc = names.clone();
    acc.push(t.sink.clone());
    let mut bal: Vec<u128> = c.balances.clone();
    bal.push(0);
    let mut supply: u128 = bal.iter().sum();
    let mut minter = minter0;
    let mut allow: BTreeMap<(usize, usize), (u128, Expiration)> = BTreeMap::new();
    let mut trace: Vec<String> = vec![];
    let mut hits = 0;
    let mut fail = None;
    let mut last: Option<(String, Cw20ReceiveMsg)> = None;
    for op in &c.ops {
        let s = op.s as usize % 4;
        let o = op.o as usize % 4;
        let r = op.r as usize % 5;
        let blk = t.app.block_info();
        if op.k == TK::Wait {
            let d = op.r as u64 % 4;
            let dt = op.s as u64 % 9;
            t.app.update_block(|b| {
                b.height += d;
                b.time = b.time.plus_seconds(dt);
            });
            trace.push(format!("{} blocks and {} seconds pass", d, dt));
        }
        let blk = if op.k == TK::Wait { t.app.block_info() } else { blk };
        let from_kind = matches!(op.k, TK::TransferFrom | TK::SendFrom | TK::BurnFrom);
        // prefer an existing allowance
        let (o, s) = if from_kind && op.exp.0 < 5 && !allow.is_empty() {
            let k: Vec<_> = allow.keys().copied().collect();
            k[op.o as usize % k.len()]
        } else {
            (o, s)
        };
        let payer = if from_kind { o } else { s };
        let al = allow.get(&if from_kind { (o, s) } else { (s, r) }).map(|a| a.0).unwrap_or(0);
        let off = |v: u128, k: i8| if k >= 0 { v.saturating_add(k as u128) } else { v.saturating_sub(k.unsigned_abs() as u128) };
        let frac = |v: u128, p: u32| (crate::big::B::new(v) * crate::big::B::new(p as u128)).div(&crate::big::B::new(1_000_000)).u128().unwrap_or(u128::MAX);
        let cap = minter.as_ref().and_then(|m| m.1);
        let a = match &op.a {
            TA::Abs(v) => *v,
            TA::Bal(p) => frac(bal[payer], *p),
            TA::BalPlus(k) => off(bal[payer], *k),
            TA::AllowPlus(k) => off(al, *k),
            TA::Allow(p) => frac(al, *p),
            TA::CapPlus(k) => off(cap.unwrap_or(u128::MAX).saturating_sub(supply), *k),
        };
        let amt = Uint128::new(a);
        let exp = match op.exp.0 {
            0 | 1 => None,
            2 => Some(Expiration::Never {}),
            3 | 4 => Some(Expiration::AtHeight((blk.height as i64 + op.exp.1 as i64) as u64)),
            _ => Some(Expiration::AtTime(if op.exp.1 >= 0 { blk.time.plus_seconds(op.exp.1 as u64) } else { blk.time.minus_seconds(op.exp.1.unsigned_abs() as u64) })),
        };
        let expired = |e: &Expiration| match e {
            Expiration::Never {} => false,
            Expiration::AtHeight(h) => blk.height >= *h,
            Expiration::AtTime(x) => blk.time >= *x,
        };
        let hook: Binary = if op.r % 7 == 6 { Binary::from(b"refuse".to_vec()) } else { Binary::from(format!("m{}", op.o).into_bytes()) };
        let to_sink = op.r % 3 != 0; // otherwise sent to a plain account, which cannot receive
        let sent_to = if to_sink { 4 } else { r % 4 };
        // model: does the call succeed?
        let zero = a == 0;
        let (msg, ok): (Cw20ExecuteMsg, bool) = match op.k {
            TK::Wait => {
                agree(&t, &acc, &bal, supply, &minter, &allow, &last, &trace, &mut fail);
                if fail.is_some() {
                    break;
                }
                continue;
            }
            TK::Garbage => {
                // an address nobody can own, or an unknown message
                let m = match op.r % 3 {
                    0 => Cw20ExecuteMsg::Transfer { recipient: "X".into(), amount: amt },
                    1 => Cw20ExecuteMsg::Mint { recipient: "Not An Address".into(), amount: amt },
                    _ => Cw20ExecuteMsg::IncreaseAllowance { spender: "UPPER".into(), amount: amt, expires: None },
                };
                (m, false)
            }
            TK::Transfer => (Cw20ExecuteMsg::Transfer { recipient: acc[r].clone(), amount: amt }, !zero && bal[s] >= a),
            TK::Burn => (Cw20ExecuteMsg::Burn { amount: amt }, !zero && bal[s] >= a),
            TK::Send => (
                Cw20ExecuteMsg::Send { contract: acc[sent_to].clone(), amount: amt, msg: hook.clone() },
                !zero && bal[s] >= a && to_sink && hook.as_slice() != b"refuse",
            ),
            TK::Mint => {
                let s_ok = minter.as_ref().map(|m| m.0 == acc[s]).unwrap_or(false);
                let room = supply.checked_add(a).map(|v| cap.map(|k| v <= k).unwrap_or(true)).unwrap_or(false);
                (Cw20ExecuteMsg::Mint { recipient: acc[r].clone(), amount: amt }, !zero && s_ok && room)
            }
            TK::Inc => {
                let cur = allow.get(&(s, r)).map(|x| x.0).unwrap_or(0);
                (
                    Cw20ExecuteMsg::IncreaseAllowance { spender: acc[r].clone(), amount: amt, expires: exp },
                    r != s && cur.checked_add(a).is_some() && !exp.as_ref().map(&expired).unwrap_or(false),
                )
            }
            TK::Dec => {
                let cur = allow.get(&(s, r));
                let ok = match cur {
                    None => false,
                    Some((v, _)) => a >= *v || !exp.as_ref().map(&expired).unwrap_or(false),
                };
                (Cw20ExecuteMsg::DecreaseAllowance { spender: acc[r].clone(), amount: amt, expires: exp }, r != s && ok)
            }
            TK::TransferFrom | TK::SendFrom | TK::BurnFrom => {
                let al_ok = allow.get(&(o, s)).map(|(v, e)| *v >= a && !expired(e)).unwrap_or(false);
                let ok = al_ok && bal[o] >= a;
                match op.k {
                    TK::TransferFrom => (Cw20ExecuteMsg::TransferFrom { owner: acc[o].clone(), recipient: acc[r].clone(), amount: amt }, ok),
                    TK::BurnFrom => (Cw20ExecuteMsg::BurnFrom { owner: acc[o].clone(), amount: amt }, ok),
                    _ => (
                        Cw20ExecuteMsg::SendFrom { owner: acc[o].clone(), contract: acc[sent_to].clone(), amount: amt, msg: hook.clone() },
                        ok && to_sink && hook.as_slice() != b"refuse",
                    ),
                }
            }
            TK::SetMinter => {
                let s_ok = minter.as_ref().map(|m| m.0 == acc[s]).unwrap_or(false);
                (Cw20ExecuteMsg::UpdateMinter { new_minter: if op.r % 5 == 4 { None } else { Some(acc[r % 4].clone()) } }, s_ok)
            }
        };
        trace.push(format!("{}: {:?}", acc[s], msg));
        let (app, token, sender) = (&mut t.app, t.token.clone(), acc[s].clone());
        let res = guard(|| app.execute_contract(Addr::unchecked(&sender), Addr::unchecked(&token), &msg, &[]).map(|_| ()).map_err(|e| format!("{:#}", e)));
        // moving nothing: the rules leave it open whether that is an error
        let open = zero && !matches!(op.k, TK::SetMinter | TK::Garbage);
        let ok = if open { res.is_ok() } else { ok };
        if res.is_ok() != ok {
            let st = format!("balances {:?}, supply {}, minter {:?}, allowances {:?}, height {} time {}", bal, supply, minter, allow, blk.height, blk.time);
            fail = Some(format!("{}: {:?} is {}, a plain ledger {} it ({})", acc[s], msg, match &res { Ok(_) => "accepted".to_string(), Err(e) => format!("refused ({})", e) }, if ok { "accepts" } else { "refuses" }, st));
            break;
        }
        if ok {
            if !zero {
                hits += 1;
            }
            let mv = |bal: &mut Vec<u128>, f: usize, t: usize| {
                bal[f] = bal[f].saturating_sub(a);
                bal[t] = bal[t].saturating_add(a);
            };
            match op.k {
                TK::Transfer => mv(&mut bal, s, r),
                TK::Send => mv(&mut bal, s, sent_to),
                TK::Burn => {
                    bal[s] -= a;
                    supply -= a;
                }
                TK::Mint => {
                    bal[r] += a;
                    supply += a;
                }
                TK::Inc => {
                    let e = allow.entry((s, r)).or_insert((0, Expiration::Never {}));
                    e.0 += a;
                    if let Some(x) = exp {
                        e.1 = x;
                    }
                }
                TK::Dec => {
                    if let Some(e) = allow.get_mut(&(s, r)) {
                        if a < e.0 {
                            e.0 -= a;
                            if let Some(x) = exp {
                                e.1 = x;
                            }
                        } else {
                            allow.remove(&(s, r));
                        }
                    }
                }
                TK::TransferFrom | TK::SendFrom | TK::BurnFrom => {
                    if let Some(e) = allow.get_mut(&(o, s)) {
                        e.0 -= a;
                    }
                    match op.k {
                        TK::TransferFrom => mv(&mut bal, o, r),
                        TK::SendFrom => mv(&mut bal, o, sent_to),
                        _ => {
                            bal[o] -= a;
                            supply -= a;
                        }
                    }
                    *labels.entry("spent_allowance").or_default() += 1;
                }
                TK::SetMinter => {
                    let cap = minter.as_ref().and_then(|m| m.1);
                    minter = if op.r % 5 == 4 { None } else { Some((acc[r % 4].clone(), cap)) };
                }
                TK::Wait | TK::Garbage => {}
            }
            if let TK::Send | TK::SendFrom = op.k {
                last = Some((t.token.clone(), Cw20ReceiveMsg { sender: acc[s].clone(), amount: amt, msg: hook }));
                *labels.entry("notified").or_default() += 1;
            }
            *labels.entry("accepted").or_default() += 1;
        } else {
            *labels.entry("refused").or_default() += 1;
            if from_kind && allow.get(&(o, s)).map(|(v, e)| *v >= a && expired(e) && bal[o] >= a).unwrap_or(false) {
                *labels.entry("expired_allowance").or_default() += 1;
            }
            if op.k == TK::Mint && !zero && minter.as_ref().map(|m| m.0 == acc[s]).unwrap_or(false) {
                *labels.entry("cap_reached").or_default() += 1;
            }
        }
        agree(&t, &acc, &bal, supply, &minter, &allow, &last, &trace, &mut fail);
        if fail.is_some() {
            break;
        }
    }
    let fail = fail.map(|m| format!("{}\nhistory:\n{}", m, trace.iter().enumerate().map(|(i, t)| format!("  {:>2}. {}", i + 1, t)).collect::<Vec<_>>().join("\n")));
    Outcome { fail, nontrivial: hits > 0, labels: labels.into_iter().collect() }
}

#[allow(clippy::too_many_arguments)]
fn agree(
    t: &T,
    acc: &[String],
    bal: &[u128],
    supply: u128,
    minter: &Option<(String, Option<u128>)>,
    allow: &BTreeMap<(usize, usize), (u128, Expiration)>,
    last: &Option<(String, Cw20ReceiveMsg)>,
    trace: &[String],
    fail: &mut Option<String>,
) {
    let what = trace.last().cloned().unwrap_or_default();
    for (i, a) in acc.iter().enumerate() {
        let b: Result<BalanceResponse, String> = t.query(&Cw20QueryMsg::Balance { address: a.clone() });
        if b.as_ref().map(|b| b.balance.u128()) != Ok(bal[i]) {
            *fail = Some(format!("{}: balance of {} is {:?}, the ledger has {}", what, a, b, bal[i]));
            return;
        }
        for (j, s) in acc.iter().enumerate() {
            let al: Result<AllowanceResponse, String> = t.query(&Cw20QueryMsg::Allowance { owner: a.clone(), spender: s.clone() });
            let exp = allow.get(&(i, j)).copied().unwrap_or((0, Expiration::Never {}));
            match al {
                Ok(x) if x.allowance.u128() == exp.0 && (exp.0 == 0 || x.expires == exp.1) => {}
                x => {
                    *fail = Some(format!("{}: allowance of {} for {} is {:?}, the ledger has {:?}", what, s, a, x, exp));
                    return;
                }
            }
        }
    }
    let ti: Result<TokenInfoResponse, String> = t.query(&Cw20QueryMsg::TokenInfo {});
    if ti.as_ref().map(|x| x.total_supply.u128()) != Ok(supply) {
        *fail = Some(format!("{}: supply is {:?}, the ledger has {}", what, ti, supply));
        return;
    }
    let sum = bal.iter().fold(crate::big::B::ZERO, |s, b| s + crate::big::B::new(*b));
    assert!(sum == crate::big::B::new(supply), "the model itself is inconsistent");
    let m: Result<Option<MinterResponse>, String> = t.query(&Cw20QueryMsg::Minter {});
    let exp = minter.as_ref().map(|(m, c)| MinterResponse { minter: m.clone(), cap: c.map(Uint128::new) });
    if m.as_ref() != Ok(&exp) {
        *fail = Some(format!("{}: minter is {:?}, the ledger has {:?}", what, m, exp));
        return;
    }
    let got: Result<Option<(String, Cw20ReceiveMsg)>, String> = guard(|| t.app.wrap().query_wasm_smart(&t.sink, &Empty {}).map_err(|e| e.to_string()));
    if got.as_ref() != Ok(last) {
        *fail = Some(format!("{}: the receiver was last notified of {:?}, expected {:?}", what, got, last));
    }
}

// ------------------------------------------------------------ C35: against the reference implementation

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub struct ROp {
    pub k: u8,
    pub s: u8,
    pub o: u8,
    pub r: u8,
    pub n: u8,
    pub amt: TA,
    pub exp: (u8, i8),
    pub text: Option<String>,
}

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub struct RCase {
    pub name: String,
    pub symbol: String,
    pub decimals: u8,
    pub balances: Vec<u128>,
    /// further holders
    pub crowd: u8,
    pub minter: Option<(u8, Option<u128>)>,
    pub ops: Vec<ROp>,
}

pub fn reference(ops: usize) -> BoxedStrategy<RCase> {
    let ta = prop_oneof![
        2 => amount(122).prop_map(TA::Abs),
        5 => (0u32..700_000).prop_map(TA::Bal),
        2 => (-2i8..3).prop_map(TA::BalPlus),
        4 => (-2i8..1).prop_map(TA::AllowPlus),
        4 => (0u32..1_000_000).prop_map(TA::Allow),
        1 => (-2i8..3).prop_map(TA::CapPlus),
    ];
    let text = prop::option::weighted(0.7, prop_oneof![2 => "[a-z0-9:/.]{0,20}", 1 => "user[0-3]", 1 => "[A-Z]{1,3}", 1 => crate::dict::word()]);
    // kinds: see `message`
    let kinds: Vec<u8> = vec![0, 0, 0, 0, 1, 1, 1, 2, 2, 3, 3, 4, 4, 4, 4, 5, 5, 6, 6, 6, 7, 7, 8, 8, 9, 10, 10, 11, 12, 12, 12, 12, 12, 13, 13, 14, 14, 15];
    let op = (prop::sample::select(kinds), any::<u8>(), any::<u8>(), any::<u8>(), any::<u8>(), ta, (0u8..6, -1i8..8), text)
        .prop_map(|(k, s, o, r, n, amt, exp, text)| ROp { k, s, o, r, n, amt, exp, text });
    (
        ("[a-zA-Z ]{3,30}", "[a-zA-Z-]{3,12}", 0u8..=18),
        prop::collection::vec(prop_oneof![3 => mag(1, 110), 1 => 1u128..50], 4),
        prop_oneof![3 => 0u8..8, 2 => 8u8..45],
        prop::option::weighted(0.85, (0u8..6, prop::option::weighted(0.5, amount(118)))),
        prop::collection::vec(op, 2..=ops),
    )
        .prop_map(|((name, symbol, decimals), balances, crowd, minter, ops)| {
            let sum = balances.iter().fold(255u128 * 45, |s, b| s.saturating_add(*b));
            RCase { name, symbol, decimals, minter: minter.map(|(m, c)| (m, c.map(|c| sum.saturating_add(c)))), balances, crowd, ops }
        })
        .boxed()
}

fn reference_code() -> Box<dyn Contract<Empty>> {
    use cw20_base::contract as c;
    Box::new(ContractWrapper::new(c::execute, c::instantiate, c::query))
}

/// a call with a message given as JSON text: its events (or that it was refused)
fn call(app: &mut App, sender: &str, to: &str, json: &str) -> Result<Vec<(String, Vec<(String, String)>)>, String> {
    let m = cosmwasm_std::WasmMsg::Execute { contract_addr: to.to_string(), msg: Binary::from(json.as_bytes().to_vec()), funds: vec![] };
    let r = guard(|| app.execute(Addr::unchecked(sender), m.into()).map_err(|e| format!("{:#}", e)))?;
    Ok(r.events
        .into_iter()
        .map(|e| {
            let mut a: Vec<(String, String)> = e.attributes.into_iter().map(|a| (a.key, a.value)).collect();
            a.sort();
            (e.ty, a)
        })
        .collect())
}

fn ask(app: &App, to: &str, json: &str) -> Result<serde_json::Value, String> {
    use cosmwasm_std::{Empty as E, Querier, QueryRequest, WasmQuery};
    let q: QueryRequest<E> = QueryRequest::Wasm(WasmQuery::Smart { contract_addr: to.to_string(), msg: Binary::from(json.as_bytes().to_vec()) });
    let q = cosmwasm_std::to_vec(&q).unwrap();
    let b = guard(|| app.raw_query(&q).into_result().map_err(|e| e.to_string())?.into_result())?;
    serde_json::from_slice(&b).map_err(|e| format!("the answer is not JSON: {}", e))
}

pub fn check_reference(c: &RCase) -> Outcome {
    let names: Vec<String> = (0..4).map(|i| format!("user{}", i)).collect();
    let crowd: Vec<String> = (0..c.crowd).map(|i| format!("holder{:02}", (i as u32 * 37) % 97)).collect();
    let mut holders: Vec<Cw20Coin> = names.iter().zip(&c.balances).map(|(a, v)| Cw20Coin { address: a.clone(), amount: Uint128::new(*v) }).collect();
    holders.extend(crowd.iter().enumerate().map(|(i, a)| Cw20Coin { address: a.clone(), amount: Uint128::new(1 + i as u128) }));
    let mint = c.minter.as_ref().map(|(m, cap)| MinterResponse { minter: names[*m as usize % 4].clone(), cap: cap.map(Uint128::new) });
    let ours = haloswap::token::InstantiateMsg { name: c.name.clone(), symbol: c.symbol.clone(), decimals: c.decimals, initial_balances: holders.clone(), mint: mint.clone() };
    let theirs = cw20_base::msg::InstantiateMsg { name: c.name.clone(), symbol: c.symbol.clone(), decimals: c.decimals, initial_balances: holders, mint, marketing: None };
    let mut t = match new_token(&ours) {
        Ok(t) => t,
        Err(e) if e.starts_with("HARNESS") => panic!("{}", e),
        Err(_) => return Outcome { fail: None, nontrivial: false, labels: vec![("setup_refused", 1)] },
    };
    // the same chain with the reference contract in its place
    let mut app = AppBuilder::new().build(|_, _, _| {});
    let tc = app.store_code(reference_code());
    let sc = app.store_code(sink_code());
    let sink = app.instantiate_contract(sc, Addr::unchecked("anyone"), &Empty {}, &[], "sink", None).unwrap().to_string();
    let token = app.instantiate_contract(tc, Addr::unchecked("anyone"), &theirs, &[], "token", None).unwrap().to_string();
    assert!(token == t.token && sink == t.sink, "the two chains differ");
    let mut acc = names.clone();
    acc.push(sink.clone());
    let mut labels: BTreeMap<&'static str, u32> = BTreeMap::new();
    let mut trace: Vec<String> = vec![];
    let mut accepted = 0;
    let mut fail = None;
    let num = |v: &serde_json::Value, k: &str| v[k].as_str().and_then(|s| s.parse::<u128>().ok()).unwrap_or(0);
    let lit = |s: &str| serde_json::to_string(s).unwrap();
    'ops: for op in &c.ops {
        let (s, o, r) = (op.s as usize % 4, op.o as usize % 4, op.r as usize % 5);
        let from = matches!(op.k, 6..=8);
        let (owner, spender) = if from { (o, s) } else { (s, r) };
        let bal = ask(&app, &token, &format!("{{\"balance\":{{\"address\":{}}}}}", lit(&acc[owner]))).map(|v| num(&v, "balance")).unwrap_or(0);
        let al = ask(&app, &token, &format!("{{\"allowance\":{{\"owner\":{},\"spender\":{}}}}}", lit(&acc[owner]), lit(&acc[spender]))).map(|v| num(&v, "allowance")).unwrap_or(0);
        let off = |v: u128, k: i8| if k >= 0 { v.saturating_add(k as u128) } else { v.saturating_sub(k.unsigned_abs() as u128) };
        let frac = |v: u128, p: u32| (crate::big::B::new(v) * crate::big::B::new(p as u128)).div(&crate::big::B::new(1_000_000)).u128().unwrap_or(u128::MAX);
        let supply = ask(&app, &token, "{\"token_info\":{}}").map(|v| num(&v, "total_supply")).unwrap_or(0);
        let cap = c.minter.as_ref().and_then(|m| m.1).unwrap_or(u128::MAX);
        let a = match &op.amt {
            TA::Abs(v) => *v,
            TA::Bal(p) => frac(bal, *p),
            TA::BalPlus(k) => off(bal, *k),
            TA::AllowPlus(k) => off(if al > 0 { al.min(bal) } else { bal }, *k),
            TA::Allow(p) => frac(if al > 0 { al.min(bal) } else { bal }, *p),
            TA::CapPlus(k) => off(cap.saturating_sub(supply), *k),
        };
        let amt = Uint128::new(a);
        let blk = app.block_info();
        let expires = match op.exp.0 {
            0..=2 => None,
            3 => Some(Expiration::Never {}),
            4 => Some(Expiration::AtHeight((blk.height as i64 + op.exp.1 as i64) as u64)),
            _ => Some(Expiration::AtTime(if op.exp.1 >= 0 { blk.time.plus_seconds(op.exp.1 as u64) } else { blk.time.minus_seconds(1) })),
        };
        let hook: Binary = Binary::from(if op.n % 9 == 8 { b"refuse".to_vec() } else { format!("m{}", op.n).into_bytes() });
        let dest = if op.n % 4 == 3 { 4 } else { r };
        let hooked = if op.n % 5 == 4 { r } else { 4 };
        let text = op.text.clone();
        let to = |x: &cosmwasm_std::StdResult<Binary>| String::from_utf8(x.as_ref().unwrap().to_vec()).unwrap();
        let js = |m: &Cw20ExecuteMsg| to(&cosmwasm_std::to_binary(m));
        let recipient = if op.n == 255 { "X".to_string() } else { acc[dest].clone() };
        let sends: Vec<(String, String)> = match op.k {
            0 => vec![(acc[s].clone(), js(&Cw20ExecuteMsg::Transfer { recipient, amount: amt }))],
            1 => vec![(acc[s].clone(), js(&Cw20ExecuteMsg::Send { contract: acc[hooked].clone(), amount: amt, msg: hook }))],
            2 => vec![(acc[s].clone(), js(&Cw20ExecuteMsg::Burn { amount: amt }))],
            3 => vec![(acc[if op.n % 4 == 0 { s } else { c.minter.as_ref().map(|m| m.0 as usize % 4).unwrap_or(s) }].clone(), js(&Cw20ExecuteMsg::Mint { recipient, amount: amt }))],
            4 => vec![(acc[s].clone(), js(&Cw20ExecuteMsg::IncreaseAllowance { spender: acc[r].clone(), amount: amt, expires }))],
            5 => vec![(acc[s].clone(), js(&Cw20ExecuteMsg::DecreaseAllowance { spender: acc[r].clone(), amount: amt, expires }))],
            6 => vec![(acc[s].clone(), js(&Cw20ExecuteMsg::TransferFrom { owner: acc[o].clone(), recipient, amount: amt }))],
            7 => vec![(acc[s].clone(), js(&Cw20ExecuteMsg::SendFrom { owner: acc[o].clone(), contract: acc[hooked].clone(), amount: amt, msg: hook }))],
            8 => vec![(acc[s].clone(), js(&Cw20ExecuteMsg::BurnFrom { owner: acc[o].clone(), amount: amt }))],
            9 => {
                let new_minter = if op.n % 6 == 5 { None } else { Some(acc[r].clone()) };
                vec![(acc[s].clone(), js(&Cw20ExecuteMsg::UpdateMinter { new_minter }))]
            }
            10 => vec![(
                acc[s].clone(),
                js(&Cw20ExecuteMsg::UpdateMarketing {
                    project: text.clone(),
                    description: if op.n & 1 == 0 { text.clone() } else { None },
                    marketing: if op.n & 2 == 0 { Some(acc[r].clone()) } else { text.clone() },
                }),
            )],
            11 => {
                let logo = match op.n % 3 {
                    0 => cw20::Logo::Url(text.clone().unwrap_or_default()),
                    1 => cw20::Logo::Embedded(cw20::EmbeddedLogo::Svg(Binary::from(b"<?xml version=\"1.0\"?><svg></svg>".to_vec()))),
                    _ => cw20::Logo::Embedded(cw20::EmbeddedLogo::Png(Binary::from(vec![0x89, 0x50, 0x4e, 0x47, 0x0d, 0x0a, 0x1a, 0x0a, op.n]))),
                };
                vec![(acc[s].clone(), js(&Cw20ExecuteMsg::UploadLogo(logo)))]
            }
            // many accounts allow, or are allowed by, one
            12 => (0..(op.n % 36) as u32)
                .map(|i| {
                    let x = format!("holder{:02}", (i * 37 + op.o as u32) % 97);
                    let (who, whom) = if op.n & 0x80 == 0 { (acc[s].clone(), x) } else { (x, acc[s].clone()) };
                    (who, js(&Cw20ExecuteMsg::IncreaseAllowance { spender: whom, amount: Uint128::new(a.wrapping_add(i as u128) % 1_000_000), expires }))
                })
                .collect(),
            13 => {
                let (d, dt) = (op.o as u64 % 6, op.r as u64 % 9);
                for app in [&mut app, &mut t.app] {
                    app.update_block(|b| {
                        b.height += d;
                        b.time = b.time.plus_seconds(dt);
                    });
                }
                trace.push(format!("{} blocks and {} seconds pass", d, dt));
                vec![]
            }
            14 => (0..(op.n % 34) as u32)
                .map(|i| {
                    let x = format!("h{:02}older", (i * 53 + op.r as u32) % 97);
                    (acc[s].clone(), js(&Cw20ExecuteMsg::Transfer { recipient: x, amount: Uint128::new(1 + i as u128) }))
                })
                .collect(),
            _ => {
                let w = text.clone().unwrap_or_default();
                let junk = match op.n % 6 {
                    0 => format!("{{\"transfer\":{{\"recipient\":\"user1\",\"amount\":{}}}}}", a),
                    1 => "{\"transfer\":{\"recipient\":\"user1\"}}".to_string(),
                    2 => "{\"burn\":{\"amount\":\"-1\"}}".to_string(),
                    3 => format!("{{{}:{{}}}}", lit(&w)),
                    4 => format!("{{\"mint\":{{\"recipient\":{},\"amount\":\"1\"}}}}", lit(&w)),
                    _ => format!("{{\"transfer\":{{\"recipient\":{},\"amount\":\"1\"}}}}", lit(&w)),
                };
                vec![(acc[s].clone(), junk)]
            }
        };
        for (who, m) in sends {
            trace.push(format!("{}: {}", who, m));
            let x = call(&mut t.app, &who, &token, &m);
            let y = call(&mut app, &who, &token, &m);
            match (&x, &y) {
                (Ok(a), Ok(b)) if a == b => {
                    accepted += 1;
                    *labels.entry("accepted").or_default() += 1;
                }
                (Err(_), Err(_)) => *labels.entry("refused").or_default() += 1,
                _ => {
                    fail = Some(format!("{} by {}: the token answers {:?}, the reference {:?}", m, who, x, y));
                    break 'ops;
                }
            }
        }
        // what the two report
        let mut qs: Vec<String> = vec!["{\"token_info\":{}}".into(), "{\"minter\":{}}".into()];
        let limit = |n: u8| match n % 5 {
            0 => String::new(),
            1 => ",\"limit\":null".into(),
            2 => format!(",\"limit\":{}", n % 7),
            3 => format!(",\"limit\":{}", n % 40),
            _ => ",\"limit\":4294967295".to_string(),
        };
        let after = |n: u8| match n % 4 {
            0 | 1 => String::new(),
            2 => format!(",\"start_after\":\"holder{:02}\"", n % 97),
            _ => format!(",\"start_after\":{}", lit(&acc[n as usize % 4])),
        };
        for (i, who) in acc.iter().enumerate() {
            qs.push(format!("{{\"balance\":{{\"address\":{}}}}}", lit(who)));
            let k = op.n.wrapping_add(i as u8 * 17);
            qs.push(format!("{{\"allowance\":{{\"owner\":{},\"spender\":{}}}}}", lit(who), lit(&acc[k as usize % 5])));
            if k % 3 == 0 {
                qs.push(format!("{{\"all_allowances\":{{\"owner\":{}{}{}}}}}", lit(who), after(op.o ^ k), limit(op.r ^ k)));
                qs.push(format!("{{\"all_spender_allowances\":{{\"spender\":{}{}{}}}}}", lit(who), after(op.r ^ k), limit(op.o ^ k)));
            }
        }
        let list = format!("{{\"all_accounts\":{{{}}}}}", format!("{}{}", after(op.s ^ op.n), limit(op.o)).trim_start_matches(','));
        qs.push(list);
        qs.push("{\"marketing_info\":{}}".into());
        qs.push("{\"download_logo\":{}}".into());
        if op.k == 15 {
            qs.push(format!("{{\"balance\":{{\"address\":{}}}}}", lit(text.as_deref().unwrap_or(""))));
            qs.push(format!("{{{}:{{}}}}", lit(text.as_deref().unwrap_or(""))));
            qs.push("{\"allowance\":{\"owner\":\"user1\"}}".into());
        }
        for q in qs {
            let (x, y) = (ask(&t.app, &token, &q), ask(&app, &token, &q));
            match (&x, &y) {
                (Ok(a), Ok(b)) if a == b => {
                    if q.starts_with("{\"all_") {
                        *labels.entry("listed").or_default() += 1;
                        if a.as_object().and_then(|o| o.values().next()).and_then(|l| l.as_array()).map(|l| l.len() >= 10).unwrap_or(false) {
                            *labels.entry("listed_ten_or_more").or_default() += 1;
                        }
                    }
                }
                (Err(_), Err(_)) => *labels.entry("query_refused").or_default() += 1,
                _ => {
                    fail = Some(format!("query {}: the token answers {:?}, the reference {:?}", q, x, y));
                    break 'ops;
                }
            }
        }
        let n = (ask(&t.app, &sink, "{}"), ask(&app, &sink, "{}"));
        if n.0 != n.1 {
            fail = Some(format!("the receiving contract was told {:?}, by the reference {:?}", n.0, n.1));
            break;
        }
    }
    let fail = fail.map(|m| format!("{}\nhistory:\n{}", m, trace.iter().enumerate().map(|(i, t)| format!("  {:>2}. {}", i + 1, t)).collect::<Vec<_>>().join("\n")));
    Outcome { fail, nontrivial: accepted >= 2, labels: labels.into_iter().collect() }
}
