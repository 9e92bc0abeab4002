//! A real multi-contract chain (cw-multi-test) around the contracts under test.
use cosmwasm_std::{
    to_binary, Addr, Binary, Coin, ContractInfoResponse, Empty, QueryRequest, Uint128, WasmQuery,
};
use cw20::{Cw20Coin, Cw20ExecuteMsg, Cw20QueryMsg, MinterResponse};
use cw_multi_test::{App, AppBuilder, AppResponse, Contract, ContractWrapper, Executor};
use haloswap::asset::{Asset, AssetInfo, CreatePairRequirements, PairInfo};
use serde::{de::DeserializeOwned, Serialize};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const OWNER: &str = "owner";
/// chain admin of factory and router; holds nothing and calls nothing else
pub const GOV: &str = "governance";

#[derive(Clone, Copy, Debug)]
pub struct Codes {
    pub token: u64,
    pub token2: u64,
    pub pair: u64,
    pub pair2: u64,
    pub factory: u64,
    pub router: u64,
    pub factory2: u64,
    pub router2: u64,
}

pub struct Chain {
    pub app: App,
    pub codes: Codes,
    pub factory: String,
    pub router: String,
    /// whether each call so far was accepted
    pub log: Vec<bool>,
}

fn token_code() -> Box<dyn Contract<Empty>> {
    use halo_token::contract as c;
    Box::new(ContractWrapper::new(c::execute, c::instantiate, c::query))
}
fn pair_code() -> Box<dyn Contract<Empty>> {
    use halo_pair::contract as c;
    Box::new(ContractWrapper::new(c::execute, c::instantiate, c::query).with_reply(c::reply).with_migrate(c::migrate))
}
fn factory_code() -> Box<dyn Contract<Empty>> {
    use halo_factory::contract as c;
    Box::new(ContractWrapper::new(c::execute, c::instantiate, c::query).with_reply(c::reply).with_migrate(c::migrate))
}
fn router_code() -> Box<dyn Contract<Empty>> {
    use halo_router::contract as c;
    Box::new(ContractWrapper::new(c::execute, c::instantiate, c::query).with_migrate(c::migrate))
}

pub fn token_info(a: &str) -> AssetInfo {
    AssetInfo::Token { contract_addr: a.to_string() }
}
pub fn native_info(d: &str) -> AssetInfo {
    AssetInfo::NativeToken { denom: d.to_string() }
}
pub fn asset(info: &AssetInfo, amount: u128) -> Asset {
    Asset { info: info.clone(), amount: Uint128::new(amount) }
}
pub fn coin(d: &str, a: u128) -> Coin {
    Coin { denom: d.to_string(), amount: Uint128::new(a) }
}

/// storage key: length-prefixed name spaces, then the key
fn joined(spaces: &[&[u8]], key: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    for s in spaces {
        v.extend_from_slice(&(s.len() as u16).to_be_bytes());
        v.extend_from_slice(s);
    }
    v.extend_from_slice(key);
    v
}

/// Calls into the code under test: a panic is a refusal, as on chain.
pub fn guard<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(e) => Err(format!(
            "panic: {}",
            e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
        )),
    }
}

impl Chain {
    /// Fresh chain with factory and router. Natives: (account, coins).
    pub fn new(natives: &[(String, Vec<Coin>)]) -> Result<Chain, String> {
        let mut app = AppBuilder::new().build(|router, _, storage| {
            for (a, coins) in natives {
                router.bank.init_balance(storage, &Addr::unchecked(a), coins.clone()).unwrap();
            }
        });
        let codes = Codes {
            token: app.store_code(token_code()),
            token2: app.store_code(token_code()),
            pair: app.store_code(pair_code()),
            pair2: app.store_code(pair_code()),
            factory: app.store_code(factory_code()),
            router: app.store_code(router_code()),
            factory2: app.store_code(factory_code()),
            router2: app.store_code(router_code()),
        };
        let mut c = Chain { app, codes, factory: String::new(), router: String::new(), log: vec![] };
        c.factory = c.instantiate_adm(
            codes.factory,
            OWNER,
            &haloswap::factory::InstantiateMsg { pair_code_id: codes.pair, token_code_id: codes.token },
            "factory",
            Some(GOV),
        )?;
        let f = c.factory.clone();
        c.router =
            c.instantiate_adm(codes.router, OWNER, &haloswap::router::InstantiateMsg { halo_factory: f }, "router", Some(GOV))?;
        Ok(c)
    }

    pub fn instantiate<M: Serialize + std::fmt::Debug>(&mut self, code: u64, sender: &str, msg: &M, label: &str) -> Result<String, String> {
        self.instantiate_adm(code, sender, msg, label, None)
    }

    fn instantiate_adm<M: Serialize + std::fmt::Debug>(&mut self, code: u64, sender: &str, msg: &M, label: &str, admin: Option<&str>) -> Result<String, String> {
        let app = &mut self.app;
        guard(|| {
            app.instantiate_contract(code, Addr::unchecked(sender), msg, &[], label, admin.map(|a| a.to_string()))
                .map(|a| a.to_string())
                .map_err(|e| format!("{:#}", e))
        })
    }

    /// a migration ordered directly on the chain
    pub fn migrate<M: Serialize>(&mut self, sender: &str, contract: &str, msg: &M, code: u64) -> Result<AppResponse, String> {
        let app = &mut self.app;
        guard(|| {
            app.migrate_contract(Addr::unchecked(sender), Addr::unchecked(contract), msg, code).map_err(|e| format!("{:#}", e))
        })
    }

    /// the chain admin hands over, or gives up, a contract
    pub fn set_admin(&mut self, sender: &str, contract: &str, admin: Option<&str>) -> Result<AppResponse, String> {
        use cosmwasm_std::{CosmosMsg, WasmMsg};
        let app = &mut self.app;
        let m: CosmosMsg<Empty> = match admin {
            Some(a) => WasmMsg::UpdateAdmin { contract_addr: contract.into(), admin: a.into() }.into(),
            None => WasmMsg::ClearAdmin { contract_addr: contract.into() }.into(),
        };
        guard(|| app.execute(Addr::unchecked(sender), m).map_err(|e| format!("{:#}", e)))
    }

    /// All factory and router state readable by queries.
    pub fn surface(&self, infos: &[AssetInfo], denoms: &[String]) -> Vec<String> {
        use haloswap::factory::QueryMsg as FQ;
        use haloswap::router::{QueryMsg as RQ, SwapOperation};
        let (f, r) = (&self.factory, &self.router);
        let mut v = vec![];
        v.push(format!("config {:?}", self.query::<_, haloswap::factory::ConfigResponse>(f, &FQ::Config {})));
        for d in denoms {
            v.push(format!(
                "decimals {} {:?}",
                d,
                self.query::<_, haloswap::factory::NativeTokenDecimalsResponse>(f, &FQ::NativeTokenDecimals { denom: d.clone() })
            ));
        }
        for a in infos {
            for b in infos {
                let p = self.factory_pair(&[a.clone(), b.clone()]);
                if p.is_ok() {
                    for (rev, amt) in [(false, 1000u128), (false, 987_654_321), (true, 777)] {
                        let operations = vec![SwapOperation::HaloSwap { offer_asset_info: a.clone(), ask_asset_info: b.clone() }];
                        let m = if rev {
                            RQ::ReverseSimulateSwapOperations { ask_amount: Uint128::new(amt), operations }
                        } else {
                            RQ::SimulateSwapOperations { offer_amount: Uint128::new(amt), operations }
                        };
                        v.push(format!("quote {} {} {} {} {:?}", rev, amt, a, b, self.query::<_, haloswap::router::SimulateSwapOperationsResponse>(r, &m).ok()));
                    }
                }
                v.push(format!("pair {} {} {:?}", a, b, p.ok()));
            }
        }
        let mut after = None;
        for _ in 0..20 {
            let p = self.query::<_, haloswap::factory::PairsResponse>(f, &FQ::Pairs { start_after: after.clone(), limit: Some(30) });
            after = p.as_ref().ok().and_then(|p| p.pairs.last()).map(|p| p.asset_infos.clone());
            v.push(format!("page {:?}", p));
            if after.is_none() {
                break;
            }
        }
        v.push(format!("router {:?}", self.query::<_, haloswap::router::ConfigResponse>(r, &RQ::Config {})));
        v
    }

    /// Rewrites the stored state of factory, router, pairs and tokens in the layout of the released version, with the
    /// contents the contracts answer to queries. Err: some answer is missing, and nothing was rewritten.
    pub fn rewrite_state(&mut self, denoms: &[String], tokens: &[String], accs: &[String]) -> Result<(), String> {
        use haloswap::factory as f;
        let (fa, ra) = (self.factory.clone(), self.router.clone());
        let q = |s: &str| serde_json::to_string(s).unwrap();
        let canon = |c: &Chain, a: &str| -> Result<(String, Vec<u8>), String> {
            let v = c.app.read_module(|_, api, _| api.addr_canonicalize(a)).map_err(|e| e.to_string())?;
            Ok((q(&v.0.to_base64()), v.to_vec()))
        };
        let version = |n: &str| (b"contract_info".to_vec(), format!("{{\"contract\":\"crates.io:{}\",\"version\":\"0.1.0\"}}", n));
        let mut todo: Vec<(String, Vec<(Vec<u8>, String)>)> = vec![];

        // factory
        let cfg: f::ConfigResponse = self.query(&fa, &f::QueryMsg::Config {})?;
        let mut recs = vec![version("halo-factory")];
        recs.push((
            b"config".to_vec(),
            format!("{{\"owner\":{},\"pair_code_id\":{},\"token_code_id\":{}}}", canon(self, &cfg.owner)?.0, cfg.pair_code_id, cfg.token_code_id),
        ));
        for d in denoms {
            if let Ok(r) = self.query::<_, f::NativeTokenDecimalsResponse>(&fa, &f::QueryMsg::NativeTokenDecimals { denom: d.clone() }) {
                recs.push((joined(&[b"allow_native_token"], d.as_bytes()), r.decimals.to_string()));
            }
        }
        let mut pairs: Vec<PairInfo> = vec![];
        loop {
            let after = pairs.last().map(|p| p.asset_infos.clone());
            let page: f::PairsResponse = self.query(&fa, &f::QueryMsg::Pairs { start_after: after, limit: Some(30) })?;
            if page.pairs.is_empty() || pairs.len() > 3000 {
                break;
            }
            pairs.extend(page.pairs);
        }
        let record = |c: &Chain, p: &PairInfo| -> Result<(Vec<u8>, String), String> {
            let (mut names, mut infos) = (vec![], vec![]);
            for i in &p.asset_infos {
                match i {
                    AssetInfo::Token { contract_addr } => {
                        let (b64, raw) = canon(c, contract_addr)?;
                        infos.push(format!("{{\"token\":{{\"contract_addr\":{}}}}}", b64));
                        names.push(raw);
                    }
                    AssetInfo::NativeToken { denom } => {
                        infos.push(format!("{{\"native_token\":{{\"denom\":{}}}}}", q(denom)));
                        names.push(denom.as_bytes().to_vec());
                    }
                }
            }
            names.sort();
            let wl: Vec<String> = p.requirements.whitelist.iter().map(|a| q(a.as_str())).collect();
            Ok((
                names.concat(),
                format!(
                    "{{\"asset_infos\":[{}],\"contract_addr\":{},\"liquidity_token\":{},\"asset_decimals\":[{},{}],\"requirements\":{{\"whitelist\":[{}],\"first_asset_minimum\":\"{}\",\"second_asset_minimum\":\"{}\"}}}}",
                    infos.join(","),
                    canon(c, &p.contract_addr)?.0,
                    canon(c, &p.liquidity_token)?.0,
                    p.asset_decimals[0],
                    p.asset_decimals[1],
                    wl.join(","),
                    p.requirements.first_asset_minimum,
                    p.requirements.second_asset_minimum
                ),
            ))
        };
        for p in &pairs {
            let (k, v) = record(self, p)?;
            recs.push((joined(&[b"pair_info"], &k), v));
        }
        todo.push((fa, recs));

        // router
        let rc: haloswap::router::ConfigResponse = self.query(&ra, &haloswap::router::QueryMsg::Config {})?;
        todo.push((ra, vec![version("halo-router"), (b"config".to_vec(), format!("{{\"halo_factory\":{}}}", canon(self, &rc.halo_factory)?.0))]));

        // pairs
        let mut toks: Vec<String> = tokens.to_vec();
        for p in &pairs {
            let own: PairInfo = self.query(&p.contract_addr, &haloswap::pair::QueryMsg::Pair {})?;
            todo.push((p.contract_addr.clone(), vec![version("halo-pair"), (b"pair_info".to_vec(), record(self, &own)?.1)]));
            if !toks.contains(&p.liquidity_token) {
                toks.push(p.liquidity_token.clone());
            }
        }

        // tokens
        for t in &toks {
            let mut recs = vec![version("cw20-base")];
            let i: cw20::TokenInfoResponse = self.query(t, &Cw20QueryMsg::TokenInfo {})?;
            let m: Option<MinterResponse> = self.query(t, &Cw20QueryMsg::Minter {})?;
            let mint = match m {
                None => "null".to_string(),
                Some(m) => format!("{{\"minter\":{},\"cap\":{}}}", q(&m.minter), m.cap.map(|c| format!("\"{}\"", c)).unwrap_or("null".into())),
            };
            recs.push((
                b"token_info".to_vec(),
                format!("{{\"name\":{},\"symbol\":{},\"decimals\":{},\"total_supply\":\"{}\",\"mint\":{}}}", q(&i.name), q(&i.symbol), i.decimals, i.total_supply, mint),
            ));
            let mut after: Option<String> = None;
            for _ in 0..50 {
                let page: cw20::AllAccountsResponse = self.query(t, &Cw20QueryMsg::AllAccounts { start_after: after.clone(), limit: Some(30) })?;
                if page.accounts.is_empty() {
                    break;
                }
                after = page.accounts.last().cloned();
                for a in page.accounts {
                    recs.push((joined(&[b"balance"], a.as_bytes()), format!("\"{}\"", self.token_balance(t, &a)?)));
                }
            }
            for a in accs {
                let all: cw20::AllAllowancesResponse = self.query(t, &Cw20QueryMsg::AllAllowances { owner: a.clone(), start_after: None, limit: Some(30) })?;
                for w in all.allowances {
                    let v = format!("{{\"allowance\":\"{}\",\"expires\":{}}}", w.allowance, serde_json::to_string(&w.expires).unwrap());
                    recs.push((joined(&[b"allowance", a.as_bytes()], w.spender.as_bytes()), v.clone()));
                    recs.push((joined(&[b"allowance_spender", w.spender.as_bytes()], a.as_bytes()), v));
                }
            }
            todo.push((t.clone(), recs));
        }

        self.app.init_modules(|_, _, storage| {
            for (contract, recs) in todo {
                let prefix = joined(&[b"wasm", format!("contract_data/{}", contract).as_bytes()], b"");
                let mut end = prefix.clone();
                *end.last_mut().unwrap() += 1;
                let old: Vec<Vec<u8>> = storage.range(Some(&prefix), Some(&end), cosmwasm_std::Order::Ascending).map(|(k, _)| k).collect();
                for k in old {
                    storage.remove(&k);
                }
                for (k, v) in recs {
                    storage.set(&[prefix.clone(), k].concat(), v.as_bytes());
                }
            }
        });
        Ok(())
    }

    pub fn exec<M: Serialize + std::fmt::Debug>(&mut self, sender: &str, contract: &str, msg: &M, funds: &[Coin]) -> Result<AppResponse, String> {
        let app = &mut self.app;
        let r = guard(|| {
            app.execute_contract(Addr::unchecked(sender), Addr::unchecked(contract), msg, funds)
                .map_err(|e| format!("{:#}", e))
        });
        self.log.push(r.is_ok());
        r
    }

    pub fn query<M: Serialize, R: DeserializeOwned>(&self, contract: &str, msg: &M) -> Result<R, String> {
        let app = &self.app;
        guard(|| app.wrap().query_wasm_smart(contract, msg).map_err(|e| e.to_string()))
    }

    pub fn bank_send(&mut self, from: &str, to: &str, coins: &[Coin]) -> Result<AppResponse, String> {
        let app = &mut self.app;
        guard(|| {
            app.send_tokens(Addr::unchecked(from), Addr::unchecked(to), coins).map_err(|e| format!("{:#}", e))
        })
    }

    /// Overwrites the native balances of an account.
    pub fn set_natives(&mut self, acc: &str, coins: Vec<Coin>) {
        self.app.init_modules(|router, _, storage| {
            router.bank.init_balance(storage, &Addr::unchecked(acc), coins).unwrap();
        })
    }

    pub fn new_token(&mut self, name: &str, decimals: u8, balances: Vec<(String, u128)>, minter: Option<&str>) -> Result<String, String> {
        let code = self.codes.token;
        self.instantiate(
            code,
            OWNER,
            &haloswap::token::InstantiateMsg {
                name: name.to_string(),
                symbol: "TOK".to_string(),
                decimals,
                initial_balances: balances
                    .into_iter()
                    .map(|(address, a)| Cw20Coin { address, amount: Uint128::new(a) })
                    .collect(),
                mint: minter.map(|m| MinterResponse { minter: m.to_string(), cap: None }),
            },
            name,
        )
    }

    pub fn native_balance(&self, acc: &str, denom: &str) -> u128 {
        self.app.wrap().query_balance(acc, denom).map(|c| c.amount.u128()).unwrap_or(0)
    }

    pub fn token_balance(&self, token: &str, acc: &str) -> Result<u128, String> {
        self.query::<_, cw20::BalanceResponse>(token, &Cw20QueryMsg::Balance { address: acc.to_string() })
            .map(|r| r.balance.u128())
    }

    pub fn supply(&self, token: &str) -> Result<u128, String> {
        self.query::<_, cw20::TokenInfoResponse>(token, &Cw20QueryMsg::TokenInfo {}).map(|r| r.total_supply.u128())
    }

    pub fn code_of(&self, contract: &str) -> Result<(u64, Option<String>), String> {
        let r: ContractInfoResponse = self
            .app
            .wrap()
            .query(&QueryRequest::<Empty>::Wasm(WasmQuery::ContractInfo { contract_addr: contract.to_string() }))
            .map_err(|e| e.to_string())?;
        Ok((r.code_id, r.admin))
    }

    pub fn balance(&self, info: &AssetInfo, acc: &str) -> Result<u128, String> {
        match info {
            AssetInfo::Token { contract_addr } => self.token_balance(contract_addr, acc),
            AssetInfo::NativeToken { denom } => Ok(self.native_balance(acc, denom)),
        }
    }

    pub fn create_pair(&mut self, sender: &str, infos: &[AssetInfo; 2], req: &CreatePairRequirements) -> Result<AppResponse, String> {
        let f = self.factory.clone();
        self.exec(
            sender,
            &f,
            &haloswap::factory::ExecuteMsg::CreatePair { asset_infos: infos.clone(), requirements: req.clone() },
            &[],
        )
    }

    pub fn add_native(&mut self, sender: &str, denom: &str, decimals: u8) -> Result<AppResponse, String> {
        let f = self.factory.clone();
        self.exec(
            sender,
            &f,
            &haloswap::factory::ExecuteMsg::AddNativeTokenDecimals { denom: denom.to_string(), decimals },
            &[],
        )
    }

    pub fn factory_pair(&self, infos: &[AssetInfo; 2]) -> Result<PairInfo, String> {
        self.query(&self.factory, &haloswap::factory::QueryMsg::Pair { asset_infos: infos.clone() })
    }

    pub fn send_cw20<M: Serialize>(&mut self, sender: &str, token: &str, contract: &str, amount: u128, hook: &M) -> Result<AppResponse, String> {
        self.exec(
            sender,
            token,
            &Cw20ExecuteMsg::Send {
                contract: contract.to_string(),
                amount: Uint128::new(amount),
                msg: to_binary(hook).unwrap(),
            },
            &[],
        )
    }

    pub fn send_cw20_raw(&mut self, sender: &str, token: &str, contract: &str, amount: u128, msg: Binary) -> Result<AppResponse, String> {
        self.exec(
            sender,
            token,
            &Cw20ExecuteMsg::Send { contract: contract.to_string(), amount: Uint128::new(amount), msg },
            &[],
        )
    }
}

/// (emitting contract, attributes) of every wasm event, in order
pub fn wasm_events(r: &AppResponse) -> Vec<(String, Vec<(String, String)>)> {
    r.events
        .iter()
        .filter(|e| e.ty == "wasm")
        .map(|e| {
            let c = e
                .attributes
                .iter()
                .find(|a| a.key == "_contract_addr" || a.key == "_contract_address")
                .map(|a| a.value.clone())
                .unwrap_or_default();
            (c, e.attributes.iter().map(|a| (a.key.clone(), a.value.clone())).collect())
        })
        .collect()
}

#[derive(Clone, Debug)]
pub struct SwapEvent {
    pub pair: String,
    pub offer: Option<u128>,
    pub ret: Option<u128>,
    pub spread: Option<u128>,
    pub comm: Option<u128>,
}

/// The swaps pairs report in a response, in order of execution.
pub fn swap_events(r: &AppResponse) -> Vec<SwapEvent> {
    wasm_events(r)
        .into_iter()
        .filter(|(_, a)| a.iter().any(|(k, v)| k == "action" && v == "swap"))
        .map(|(pair, a)| {
            let g = |n: &str| a.iter().find(|(k, _)| k == n).and_then(|(_, v)| v.parse::<u128>().ok());
            SwapEvent {
                pair,
                offer: g("offer_amount"),
                ret: g("return_amount"),
                spread: g("spread_amount"),
                comm: g("commission_amount"),
            }
        })
        .collect()
}

/// What a wasm event of `contract` carrying `key` reports.
pub fn report(r: &AppResponse, contract: &str, key: &str, val: Option<&str>) -> Vec<Vec<(String, String)>> {
    wasm_events(r)
        .into_iter()
        .filter(|(c, a)| c == contract && a.iter().any(|(k, v)| k == key && val.map(|x| x == v).unwrap_or(true)))
        .map(|(_, a)| a)
        .collect()
}

/// Compares the one event of `contract` with the expected attributes. Two comma-separated assets compare as a set.
pub fn expect_report(r: &AppResponse, contract: &str, key: &str, val: Option<&str>, exp: &[(&str, String)]) -> Result<(), String> {
    let e = report(r, contract, key, val);
    if e.len() != 1 {
        return Err(format!("{} events with {} {:?} of {}", e.len(), key, val, contract));
    }
    let parts = |s: &str| {
        let mut v: Vec<String> = s.split(',').map(|x| x.trim().to_string()).collect();
        v.sort();
        v
    };
    for (k, x) in exp {
        let got: Vec<&String> = e[0].iter().filter(|(n, _)| n == k).map(|(_, v)| v).collect();
        let same = got.len() == 1 && (got[0] == x || (k.ends_with("assets") && parts(got[0]) == parts(x)));
        if !same {
            return Err(format!("attribute {} is {:?}, what happened is {}", k, got, x));
        }
    }
    Ok(())
}
