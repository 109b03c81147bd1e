//! A small deterministic chain: bank, tokenfactory, pool manager, wasm dispatch.
//! It executes the real contract entry points and applies the messages they emit.
use cosmwasm_std::testing::MockApi;
use cosmwasm_std::{
    from_json, to_json_binary, Addr, AllBalanceResponse, BalanceResponse, BankMsg, BankQuery,
    Binary, BlockInfo, Coin, ContractInfo, ContractResult, CosmosMsg, Deps, DepsMut, Empty, Env,
    MessageInfo, Order, Querier, QuerierResult, QuerierWrapper, QueryRequest, Record, Reply,
    ReplyOn, Response, Storage, SubMsg, SubMsgResponse, SubMsgResult, SystemError,
    SystemResult, Timestamp, TransactionInfo, Uint512, WasmMsg, WasmQuery,
};
use osmosis_std::types::osmosis::poolmanager::v1beta1 as pm;
use osmosis_std::types::osmosis::tokenfactory::v1beta1 as tf;
use serde_json::json;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

#[derive(Clone, Default, Debug)]
pub struct Store(pub Arc<BTreeMap<Vec<u8>, Vec<u8>>>);

impl Storage for Store {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        self.0.get(key).cloned()
    }
    fn range<'a>(
        &'a self,
        start: Option<&[u8]>,
        end: Option<&[u8]>,
        order: Order,
    ) -> Box<dyn Iterator<Item = Record> + 'a> {
        use std::ops::Bound::*;
        let s = start.map(|v| Included(v.to_vec())).unwrap_or(Unbounded);
        let e = end.map(|v| Excluded(v.to_vec())).unwrap_or(Unbounded);
        if let (Some(a), Some(b)) = (start, end) {
            if a > b {
                return Box::new(std::iter::empty());
            }
        }
        let it = self.0.range((s, e)).map(|(k, v)| (k.clone(), v.clone()));
        match order {
            Order::Ascending => Box::new(it),
            Order::Descending => Box::new(it.rev()),
        }
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        Arc::make_mut(&mut self.0).insert(key.to_vec(), value.to_vec());
    }
    fn remove(&mut self, key: &[u8]) {
        Arc::make_mut(&mut self.0).remove(key);
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Code {
    Core,
    Airdrop,
    Periphery,
}

#[derive(Clone, Debug)]
pub enum Msg {
    Core(ibcx_interface::core::ExecuteMsg),
    Airdrop(ibcx_interface::airdrop::ExecuteMsg),
    Periphery(ibcx_interface::periphery::ExecuteMsg),
}
#[derive(Clone, Debug)]
pub enum Init {
    Core(ibcx_interface::core::InstantiateMsg),
    Airdrop(ibcx_interface::airdrop::InstantiateMsg),
    Periphery(ibcx_interface::periphery::InstantiateMsg),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum PoolKind {
    Weighted,
    Concentrated,
    Stable,
}

#[derive(Clone, Debug)]
pub struct Pool {
    pub id: u64,
    pub kind: PoolKind,
    pub fee: u128, // 1e18 scaled
    pub assets: Vec<(String, u128, u128)>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Transfer { from: String, to: String, denom: String, amount: u128 },
    Mint { to: String, denom: String, amount: u128 },
    Burn { from: String, denom: String, amount: u128 },
    Swap { sender: String, exact_in: bool, din: String, ain: u128, dout: String, aout: u128, limit: u128, pools: Vec<(u64, String)> },
    Call { from: String, to: String },
}

#[derive(Clone)]
pub struct World {
    pub time: u64,
    pub height: u64,
    pub bank: Arc<BTreeMap<(String, String), u128>>,
    pub supply: BTreeMap<String, u128>,
    pub admins: BTreeMap<String, String>,
    pub code: BTreeMap<String, Code>,
    pub store: BTreeMap<String, Store>,
    pub pools: Arc<BTreeMap<u64, Pool>>,
    /// false: a same-denom exact-out hop is understood as an out-listing (see DESIGN.md)
    pub strict_routes: bool,
    /// executed swaps are worse than the estimates by so many base units (taker fees)
    pub slip: u128,
    pub ev: Vec<Ev>,
}

pub type R<T> = Result<T, String>;

fn guard<T>(f: impl FnOnce() -> T) -> R<T> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let s = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "?".into());
        format!("panic: {s}")
    })
}

// ---------- fixed point arithmetic of the chain (18 decimals, rounded half up) ----------
pub const ONE18: u128 = 1_000_000_000_000_000_000;
fn u(v: u128) -> Uint512 {
    Uint512::from(v)
}
fn dmul(a: Uint512, b: Uint512) -> Uint512 {
    (a * b + u(ONE18 / 2)) / u(ONE18)
}
fn dquo(a: Uint512, b: Uint512) -> Uint512 {
    (a * u(ONE18) + b / u(2)) / b
}
fn dpow(base: Uint512, exp: Uint512) -> R<Uint512> {
    let one = u(ONE18);
    if base.is_zero() || base >= one + one {
        return Err("pow: base out of range".into());
    }
    let mut ip = one;
    let n = exp / one;
    if !n.is_zero() {
        // repeated squaring, each product rounded
        let (mut b, mut t, mut i) = (base, one, n);
        while i > u(1) {
            if !(i % u(2)).is_zero() {
                t = dmul(t, b);
            }
            i = i / u(2);
            b = dmul(b, b);
        }
        ip = dmul(b, t);
    }
    let a = exp % one;
    if a.is_zero() {
        return Ok(ip);
    }
    let prec = u(10_000_000_000);
    let (x, xneg) = if base >= one { (base - one, false) } else { (one - base, true) };
    let (mut term, mut sum, mut neg) = (one, one, false);
    let mut i = 1u128;
    while term >= prec {
        let k = u(i) * one;
        let km = k - one;
        let (c, cneg) = if a >= km { (a - km, false) } else { (km - a, true) };
        term = dquo(dmul(dmul(term, c), x), k);
        if term.is_zero() {
            break;
        }
        neg ^= xneg ^ cneg;
        if neg {
            sum -= term
        } else {
            sum += term
        }
        i += 1;
    }
    Ok(dmul(ip, sum))
}
fn to_u128(v: Uint512) -> R<u128> {
    v.to_string().parse::<u128>().map_err(|e| e.to_string())
}

impl Pool {
    fn find(&self, d: &str) -> R<(u128, u128)> {
        self.assets
            .iter()
            .find(|a| a.0 == d)
            .map(|a| (a.1, a.2))
            .ok_or_else(|| format!("pool {} has no {d}", self.id))
    }
    pub fn out_given_in(&self, din: &str, ain: u128, dout: &str) -> R<u128> {
        if din == dout {
            return Err("cannot trade the same denom in and out".into());
        }
        let (bi, wi) = self.find(din)?;
        let (bo, wo) = self.find(dout)?;
        let one = u(ONE18);
        let after = u(ain) * (one - u(self.fee)); // 18 dec
        let y = dquo(u(bi) * one, u(bi) * one + after);
        let p = dpow(y, dquo(u(wi) * one, u(wo) * one))?;
        if p >= one {
            return Err("non-positive output".into());
        }
        let out = to_u128(u(bo) * (one - p) / one)?;
        if out == 0 || ain == 0 {
            return Err("token amount is zero".into());
        }
        Ok(out)
    }
    pub fn in_given_out(&self, din: &str, dout: &str, aout: u128) -> R<u128> {
        if din == dout {
            return Err("cannot trade the same denom in and out".into());
        }
        let (bi, wi) = self.find(din)?;
        let (bo, wo) = self.find(dout)?;
        if aout == 0 || aout >= bo {
            return Err("bad output amount".into());
        }
        let one = u(ONE18);
        let y = dquo(u(bo) * one, u(bo - aout) * one);
        let p = dpow(y, dquo(u(wo) * one, u(wi) * one))?;
        if p <= one {
            return Err("non-positive input".into());
        }
        let net = u(bi) * (p - one);
        let gross = dquo(net, one - u(self.fee));
        to_u128((gross + one - u(1)) / one)
    }
    fn apply(&mut self, din: &str, ain: u128, dout: &str, aout: u128) {
        for a in self.assets.iter_mut() {
            if a.0 == din {
                a.1 += ain
            } else if a.0 == dout {
                a.1 -= aout
            }
        }
    }
    pub fn json(&self) -> String {
        let dec = |v: u128| format!("{}.{:018}", v / ONE18, v % ONE18);
        match self.kind {
            PoolKind::Weighted => {
                let assets: Vec<_> = self
                    .assets
                    .iter()
                    .map(|(d, a, w)| json!({"token":{"denom":d,"amount":a.to_string()},"weight":w.to_string()}))
                    .collect();
                let tw: u128 = self.assets.iter().map(|a| a.2).sum();
                format!(
                    "{{\"pool\":{{\"@type\":\"/osmosis.gamm.v1beta1.Pool\",\"address\":\"pool{}\",\"id\":\"{}\",\"future_pool_governor\":\"\",\"pool_params\":{{\"swap_fee\":\"{}\",\"exit_fee\":\"0.000000000000000000\",\"smooth_weight_change_params\":null}},\"pool_assets\":{},\"total_shares\":{{\"denom\":\"gamm/pool/{}\",\"amount\":\"1000000\"}},\"total_weight\":\"{}\"}}}}",
                    self.id, self.id, dec(self.fee), serde_json::to_string(&assets).unwrap(), self.id, tw
                )
            }
            // proto3 JSON: 64-bit integers are strings, also inside arrays
            PoolKind::Stable => {
                let liq: Vec<_> = self.assets.iter().map(|(d, a, _)| json!({"denom":d,"amount":a.to_string()})).collect();
                let sf: Vec<_> = self.assets.iter().map(|_| "1").collect();
                format!(
                    "{{\"pool\":{{\"@type\":\"/osmosis.gamm.poolmodels.stableswap.v1beta1.Pool\",\"address\":\"pool{}\",\"id\":\"{}\",\"pool_params\":{{\"swap_fee\":\"{}\",\"exit_fee\":\"0.000000000000000000\"}},\"future_pool_governor\":\"\",\"total_shares\":{{\"denom\":\"gamm/pool/{}\",\"amount\":\"1000000\"}},\"pool_liquidity\":{},\"scaling_factors\":{},\"scaling_factor_controller\":\"\"}}}}",
                    self.id, self.id, dec(self.fee), self.id, serde_json::to_string(&liq).unwrap(), serde_json::to_string(&sf).unwrap()
                )
            }
            PoolKind::Concentrated => format!(
                "{{\"pool\":{{\"@type\":\"/osmosis.concentratedliquidity.v1beta1.Pool\",\"address\":\"pool{}\",\"id\":\"{}\",\"incentives_address\":\"\",\"spread_rewards_address\":\"\",\"token0\":\"{}\",\"token1\":\"{}\",\"current_tick_liquidity\":\"1\",\"current_sqrt_price\":\"1\",\"current_tick\":\"0\",\"tick_spacing\":\"1\",\"spread_factor\":\"{}\",\"exponent_at_price_one\":\"-6\",\"last_liquidity_update\":\"\"}}}}",
                self.id, self.id, self.assets[0].0, self.assets[1].0, dec(self.fee)
            ),
        }
    }
}

fn parse_coin(s: &str) -> R<(u128, String)> {
    let n = s.find(|c: char| !c.is_ascii_digit()).ok_or("bad coin")?;
    Ok((s[..n].parse::<u128>().map_err(|e| e.to_string())?, s[n..].to_string()))
}

/// (pool, din, dout) hops in execution order
type Hops = Vec<(u64, String, String)>;

impl World {
    pub fn new(time: u64) -> Self {
        World {
            time,
            height: 100,
            bank: Default::default(),
            supply: BTreeMap::new(),
            admins: BTreeMap::new(),
            code: BTreeMap::new(),
            store: BTreeMap::new(),
            pools: Default::default(),
            strict_routes: false,
            slip: 0,
            ev: vec![],
        }
    }
    pub fn bal(&self, who: &str, denom: &str) -> u128 {
        // BTreeMap<(String,String)> needs owned keys; the map is small
        *self.bank.get(&(who.to_string(), denom.to_string())).unwrap_or(&0)
    }
    pub fn balances(&self, who: &str) -> BTreeMap<String, u128> {
        self.bank
            .iter()
            .filter(|((a, _), v)| a == who && **v > 0)
            .map(|((_, d), v)| (d.clone(), *v))
            .collect()
    }
    pub fn give(&mut self, who: &str, denom: &str, amount: u128) {
        *Arc::make_mut(&mut self.bank).entry((who.into(), denom.into())).or_insert(0) += amount;
        *self.supply.entry(denom.into()).or_insert(0) += amount;
    }
    pub fn add_pool(&mut self, id: u64, kind: PoolKind, fee: u128, assets: &[(&str, u128, u128)]) {
        Arc::make_mut(&mut self.pools).insert(
            id,
            Pool { id, kind, fee, assets: assets.iter().map(|a| (a.0.to_string(), a.1, a.2)).collect() },
        );
    }
    pub fn wait(&mut self, dt: u64) {
        self.time += dt;
        self.height += 1;
    }
    fn mv(&mut self, from: &str, to: &str, denom: &str, amount: u128) -> R<()> {
        let b = Arc::make_mut(&mut self.bank);
        let f = b.entry((from.into(), denom.into())).or_insert(0);
        if *f < amount {
            return Err(format!("insufficient funds: {from} has {f}{denom}, needs {amount}"));
        }
        *f -= amount;
        if *f == 0 {
            b.remove(&(from.to_string(), denom.to_string()));
        }
        *b.entry((to.into(), denom.into())).or_insert(0) += amount;
        self.ev.push(Ev::Transfer { from: from.into(), to: to.into(), denom: denom.into(), amount });
        Ok(())
    }
    fn send_coins(&mut self, from: &str, to: &str, coins: &[Coin]) -> R<()> {
        for c in coins {
            if !c.amount.is_zero() {
                self.mv(from, to, &c.denom, c.amount.u128())?;
            }
        }
        Ok(())
    }
    /// A plain bank transfer by a user.
    pub fn send(&mut self, from: &str, to: &str, denom: &str, amount: u128) -> R<()> {
        self.ev.clear();
        self.mv(from, to, denom, amount)
    }
    pub fn env(&self, contract: &str) -> Env {
        Env {
            block: BlockInfo {
                height: self.height,
                // block times are not whole seconds
                time: Timestamp::from_seconds(self.time).plus_nanos(self.time * 7 % 10 * 100_000_000 + 1),
                chain_id: "osmosis-1".into(),
            },
            transaction: Some(TransactionInfo { index: 0 }),
            contract: ContractInfo { address: Addr::unchecked(contract) },
        }
    }

    // ------------------------------------------------------------ contract calls
    fn with_store<T>(
        &mut self,
        addr: &str,
        f: impl FnOnce(Code, DepsMut, Env) -> R<T>,
    ) -> R<T> {
        let code = *self.code.get(addr).ok_or_else(|| format!("no contract {addr}"))?;
        let mut st = self.store.get(addr).cloned().unwrap_or_default();
        let api = MockApi::default();
        let env = self.env(addr);
        let out = {
            let me: &World = self;
            let q = WQ(me);
            let deps = DepsMut { storage: &mut st, api: &api, querier: QuerierWrapper::new(&q) };
            guard(|| f(code, deps, env))??
        };
        self.store.insert(addr.to_string(), st);
        Ok(out)
    }

    fn call(&mut self, sender: &str, addr: &str, msg: Msg, funds: &[Coin]) -> R<()> {
        self.ev.push(Ev::Call { from: sender.into(), to: addr.into() });
        self.send_coins(sender, addr, funds)?;
        let info = MessageInfo {
            sender: Addr::unchecked(sender),
            funds: funds.iter().filter(|c| !c.amount.is_zero()).cloned().collect(),
        };
        let res = self.with_store(addr, |code, deps, env| match (code, msg) {
            (Code::Core, Msg::Core(m)) => {
                ibcx_core::contract::execute(deps, env, info, m).map_err(|e| e.to_string())
            }
            (Code::Airdrop, Msg::Airdrop(m)) => {
                ibcx_airdrop::contract::execute(deps, env, info, m).map_err(|e| e.to_string())
            }
            (Code::Periphery, Msg::Periphery(m)) => {
                ibcx_periphery::contract::execute(deps, env, info, m).map_err(|e| e.to_string())
            }
            _ => Err("wrong message type".into()),
        })?;
        self.handle(addr, res)?;
        Ok(())
    }

    fn handle(&mut self, addr: &str, res: Response) -> R<Option<Binary>> {
        let mut data = res.data;
        for sm in res.messages {
            if let Some(d) = self.submsg(addr, sm)? {
                data = Some(d);
            }
        }
        Ok(data)
    }

    fn submsg(&mut self, addr: &str, sm: SubMsg) -> R<Option<Binary>> {
        let snap = self.clone();
        let r = self.dispatch(addr, sm.msg);
        let result = match r {
            Ok(data) => {
                if !matches!(sm.reply_on, ReplyOn::Success | ReplyOn::Always) {
                    return Ok(None);
                }
                SubMsgResult::Ok(SubMsgResponse { events: vec![], data })
            }
            Err(e) => {
                *self = snap;
                if !matches!(sm.reply_on, ReplyOn::Error | ReplyOn::Always) {
                    return Err(e);
                }
                SubMsgResult::Err(e)
            }
        };
        let reply = Reply { id: sm.id, result };
        let res = self.with_store(addr, |code, deps, env| match code {
            Code::Core => ibcx_core::contract::reply(deps, env, reply).map_err(|e| e.to_string()),
            Code::Periphery => Err("no reply entry point".into()),
            Code::Airdrop => Err("no reply entry point".into()),
        })?;
        self.handle(addr, res)
    }

    fn dispatch(&mut self, sender: &str, msg: CosmosMsg) -> R<Option<Binary>> {
        match msg {
            CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => {
                if amount.is_empty() {
                    return Ok(None);
                }
                if amount.iter().all(|c| c.amount.is_zero()) {
                    return Err("bank: invalid coins (zero amount)".into());
                }
                self.send_coins(sender, &to_address, &amount)?;
                Ok(None)
            }
            CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) => {
                let code = *self.code.get(&contract_addr).ok_or("no such contract")?;
                let m = match code {
                    Code::Core => Msg::Core(from_json(&msg).map_err(|e| e.to_string())?),
                    Code::Airdrop => Msg::Airdrop(from_json(&msg).map_err(|e| e.to_string())?),
                    Code::Periphery => Msg::Periphery(from_json(&msg).map_err(|e| e.to_string())?),
                };
                self.call(sender, &contract_addr, m, &funds)?;
                Ok(None)
            }
            CosmosMsg::Stargate { type_url, value } => self.stargate_msg(sender, &type_url, value),
            other => Err(format!("unsupported message {other:?}")),
        }
    }

    fn stargate_msg(&mut self, sender: &str, url: &str, value: Binary) -> R<Option<Binary>> {
        fn dec<T: TryFrom<Binary>>(v: Binary) -> R<T>
        where
            <T as TryFrom<Binary>>::Error: std::fmt::Debug,
        {
            T::try_from(v).map_err(|e| format!("{e:?}"))
        }
        let amt = |s: &str| s.parse::<u128>().map_err(|e| e.to_string());
        match url {
            "/osmosis.tokenfactory.v1beta1.MsgCreateDenom" => {
                let m: tf::MsgCreateDenom = dec(value)?;
                if m.sender != sender {
                    return Err("unauthorized".into());
                }
                let denom = format!("factory/{}/{}", sender, m.subdenom);
                if self.admins.contains_key(&denom) {
                    return Err("denom exists".into());
                }
                self.admins.insert(denom.clone(), sender.into());
                Ok(Some(tf::MsgCreateDenomResponse { new_token_denom: denom }.into()))
            }
            "/osmosis.tokenfactory.v1beta1.MsgMint" => {
                let m: tf::MsgMint = dec(value)?;
                let c = m.amount.ok_or("no amount")?;
                let a = amt(&c.amount)?;
                if m.sender != sender || self.admins.get(&c.denom).map(|s| s.as_str()) != Some(sender) {
                    return Err("tokenfactory: unauthorized".into());
                }
                if a == 0 {
                    return Err("tokenfactory: zero amount".into());
                }
                let to = if m.mint_to_address.is_empty() { sender.to_string() } else { m.mint_to_address };
                let s = self.supply.entry(c.denom.clone()).or_insert(0);
                *s = s.checked_add(a).ok_or("supply overflow")?;
                *Arc::make_mut(&mut self.bank).entry((to.clone(), c.denom.clone())).or_insert(0) += a;
                self.ev.push(Ev::Mint { to, denom: c.denom, amount: a });
                Ok(None)
            }
            "/osmosis.tokenfactory.v1beta1.MsgBurn" => {
                let m: tf::MsgBurn = dec(value)?;
                let c = m.amount.ok_or("no amount")?;
                let a = amt(&c.amount)?;
                if m.sender != sender || self.admins.get(&c.denom).map(|s| s.as_str()) != Some(sender) {
                    return Err("tokenfactory: unauthorized".into());
                }
                if a == 0 {
                    return Err("tokenfactory: zero amount".into());
                }
                let from = if m.burn_from_address.is_empty() { sender.to_string() } else { m.burn_from_address };
                let k = (from.clone(), c.denom.clone());
                let b = Arc::make_mut(&mut self.bank);
                let e = b.entry(k.clone()).or_insert(0);
                if *e < a {
                    return Err("burn exceeds balance".into());
                }
                *e -= a;
                if *e == 0 {
                    b.remove(&k);
                }
                *self.supply.get_mut(&c.denom).unwrap() -= a;
                self.ev.push(Ev::Burn { from, denom: c.denom, amount: a });
                Ok(None)
            }
            "/osmosis.poolmanager.v1beta1.MsgSwapExactAmountIn" => {
                let m: pm::MsgSwapExactAmountIn = dec(value)?;
                if m.sender != sender {
                    return Err("unauthorized".into());
                }
                let c = m.token_in.ok_or("no token")?;
                let hops = Self::hops_in(&c.denom, m.routes.iter().map(|r| (r.pool_id, r.token_out_denom.clone())).collect())?;
                let ain = amt(&c.amount)?;
                let min = amt(&m.token_out_min_amount)?;
                let steps = self.run_in(&hops, ain)?;
                self.settle(sender, true, steps, min)
            }
            "/osmosis.poolmanager.v1beta1.MsgSwapExactAmountOut" => {
                let m: pm::MsgSwapExactAmountOut = dec(value)?;
                if m.sender != sender {
                    return Err("unauthorized".into());
                }
                let c = m.token_out.ok_or("no token")?;
                let hops = self.hops_out(&c.denom, m.routes.iter().map(|r| (r.pool_id, r.token_in_denom.clone())).collect())?;
                let aout = amt(&c.amount)?;
                let max = amt(&m.token_in_max_amount)?;
                let steps = self.run_out(&hops, aout)?;
                self.settle(sender, false, steps, max)
            }
            _ => Err(format!("unsupported stargate message {url}")),
        }
    }

    fn hops_in(din: &str, routes: Vec<(u64, String)>) -> R<Hops> {
        if routes.is_empty() {
            return Err("empty routes".into());
        }
        let mut cur = din.to_string();
        let mut h = vec![];
        for (p, d) in routes {
            h.push((p, cur, d.clone()));
            cur = d;
        }
        Ok(h)
    }
    fn hops_out(&self, dout: &str, routes: Vec<(u64, String)>) -> R<Hops> {
        if routes.is_empty() {
            return Err("empty routes".into());
        }
        if routes.last().unwrap().1 == dout && !self.strict_routes {
            // out-listing: hop i yields routes[i].denom; the first input is the pool's other asset
            let p = self.pools.get(&routes[0].0).ok_or("no pool")?;
            if p.assets.len() != 2 {
                return Err("ambiguous route".into());
            }
            let din = p.assets.iter().find(|a| a.0 != routes[0].1).ok_or("ambiguous route")?.0.clone();
            return Self::hops_in(&din, routes);
        }
        let mut h = vec![];
        for i in 0..routes.len() {
            let o = if i + 1 < routes.len() { routes[i + 1].1.clone() } else { dout.to_string() };
            h.push((routes[i].0, routes[i].1.clone(), o));
        }
        Ok(h)
    }
    /// one hop: (pool, din, ain, dout, aout), sequentially applied to a pool copy
    fn run_in(&self, hops: &Hops, ain: u128) -> R<Vec<(u64, String, u128, String, u128)>> {
        let mut pools: BTreeMap<u64, Pool> = BTreeMap::new();
        let mut a = ain;
        let mut out = vec![];
        for (p, di, d) in hops {
            if !pools.contains_key(p) {
                pools.insert(*p, self.pools.get(p).ok_or("no pool")?.clone());
            }
            let pool = pools.get_mut(p).unwrap();
            let o = pool.out_given_in(di, a, d)?;
            pool.apply(di, a, d, o);
            out.push((*p, di.clone(), a, d.clone(), o));
            a = o;
        }
        Ok(out)
    }
    fn run_out(&self, hops: &Hops, aout: u128) -> R<Vec<(u64, String, u128, String, u128)>> {
        let mut a = aout;
        let mut pools: BTreeMap<u64, Pool> = BTreeMap::new();
        let mut out = vec![];
        for (p, di, d) in hops.iter().rev() {
            if !pools.contains_key(p) {
                pools.insert(*p, self.pools.get(p).ok_or("no pool")?.clone());
            }
            let pool = pools.get_mut(p).unwrap();
            let i = pool.in_given_out(di, d, a)?;
            pool.apply(di, i, d, a);
            out.push((*p, di.clone(), i, d.clone(), a));
            a = i;
        }
        out.reverse();
        Ok(out)
    }
    fn settle(&mut self, sender: &str, exact_in: bool, mut steps: Vec<(u64, String, u128, String, u128)>, limit: u128) -> R<Option<Binary>> {
        if self.slip > 0 {
            if exact_in {
                let l = steps.last_mut().unwrap();
                l.4 = l.4.checked_sub(self.slip).filter(|x| *x > 0).ok_or("swap: nothing left after fees")?;
            } else {
                steps[0].2 += self.slip;
            }
        }
        let (din, ain) = (steps[0].1.clone(), steps[0].2);
        let last = steps.last().unwrap();
        let (dout, aout) = (last.3.clone(), last.4);
        if exact_in && aout < limit {
            return Err(format!("swap: {aout} less than minimum {limit}"));
        }
        if !exact_in && ain > limit {
            return Err(format!("swap: {ain} more than maximum {limit}"));
        }
        if din == dout {
            return Err("cannot trade the same denom in and out".into());
        }
        {
            let b = Arc::make_mut(&mut self.bank);
            let f = b.entry((sender.into(), din.clone())).or_insert(0);
            if *f < ain {
                return Err(format!("swap: insufficient funds {f} < {ain}{din}"));
            }
            *f -= ain;
            if *f == 0 {
                b.remove(&(sender.to_string(), din.clone()));
            }
            *b.entry((sender.into(), dout.clone())).or_insert(0) += aout;
        }
        let pools = steps.iter().map(|s| (s.0, s.3.clone())).collect();
        {
            let ps = Arc::make_mut(&mut self.pools);
            for (p, di, ai, d, ao) in steps {
                ps.get_mut(&p).unwrap().apply(&di, ai, &d, ao);
            }
        }
        self.ev.push(Ev::Swap { sender: sender.into(), exact_in, din, ain, dout, aout, limit, pools });
        Ok(None)
    }

    // ------------------------------------------------------------ user-level API
    /// A user swaps directly in the pools: hops in execution order (pool, token out).
    pub fn swap_in(&mut self, who: &str, hops: &[(u64, &str)], din: &str, ain: u128) -> R<u128> {
        let hops = Self::hops_in(din, hops.iter().map(|r| (r.0, r.1.to_string())).collect())?;
        let steps = self.run_in(&hops, ain)?;
        let out = steps.last().unwrap().4;
        self.settle(who, true, steps, 0)?;
        Ok(out)
    }
    /// hops in execution order (pool, token in)
    pub fn swap_out(&mut self, who: &str, hops: &[(u64, &str)], dout: &str, aout: u128) -> R<u128> {
        let mut h = vec![];
        for i in 0..hops.len() {
            let o = if i + 1 < hops.len() { hops[i + 1].1 } else { dout };
            h.push((hops[i].0, hops[i].1.to_string(), o.to_string()));
        }
        let steps = self.run_out(&h, aout)?;
        let i = steps[0].2;
        self.settle(who, false, steps, u128::MAX)?;
        Ok(i)
    }
    /// One transaction: commit on success, no effect on failure.
    pub fn exec(&mut self, sender: &str, addr: &str, msg: Msg, funds: &[Coin]) -> R<()> {
        self.ev.clear();
        // message-level validation of attached coins: sorted, unique, positive
        let snap = self.clone();
        match self.call(sender, addr, msg, funds) {
            Ok(()) => Ok(()),
            Err(e) => {
                *self = snap;
                Err(e)
            }
        }
    }
    pub fn instantiate(&mut self, addr: &str, sender: &str, init: Init) -> R<()> {
        self.ev.clear();
        let snap = self.clone();
        let code = match init {
            Init::Core(_) => Code::Core,
            Init::Airdrop(_) => Code::Airdrop,
            Init::Periphery(_) => Code::Periphery,
        };
        self.code.insert(addr.into(), code);
        self.store.insert(addr.into(), Store::default());
        let info = MessageInfo { sender: Addr::unchecked(sender), funds: vec![] };
        let r = self
            .with_store(addr, |_, deps, env| match init {
                Init::Core(m) => ibcx_core::contract::instantiate(deps, env, info, m).map_err(|e| e.to_string()),
                Init::Airdrop(m) => ibcx_airdrop::contract::instantiate(deps, env, info, m).map_err(|e| e.to_string()),
                Init::Periphery(m) => ibcx_periphery::contract::instantiate(deps, env, info, m).map_err(|e| e.to_string()),
            })
            .and_then(|res| self.handle(addr, res));
        match r {
            Ok(_) => Ok(()),
            Err(e) => {
                *self = snap;
                Err(e)
            }
        }
    }
    pub fn migrate(&mut self, addr: &str, force: Option<bool>) -> R<()> {
        self.ev.clear();
        let snap = self.clone();
        let r = self
            .with_store(addr, |code, deps, env| match code {
                Code::Core => ibcx_core::contract::migrate(deps, env, ibcx_interface::core::MigrateMsg { force }).map_err(|e| e.to_string()),
                Code::Airdrop => ibcx_airdrop::contract::migrate(deps, env, ibcx_interface::airdrop::MigrateMsg { force }).map_err(|e| e.to_string()),
                Code::Periphery => ibcx_periphery::contract::migrate(deps, env, ibcx_interface::periphery::MigrateMsg { force }).map_err(|e| e.to_string()),
            })
            .and_then(|res| self.handle(addr, res));
        match r {
            Ok(_) => Ok(()),
            Err(e) => {
                *self = snap;
                Err(e)
            }
        }
    }
    fn query_bin(&self, addr: &str, msg: &[u8]) -> R<Binary> {
        let code = *self.code.get(addr).ok_or("no such contract")?;
        let st = self.store.get(addr).cloned().unwrap_or_default();
        let api = MockApi::default();
        let q = WQ(self);
        let deps = Deps { storage: &st, api: &api, querier: QuerierWrapper::new(&q) };
        let env = self.env(addr);
        guard(|| match code {
            Code::Core => ibcx_core::contract::query(deps, env, from_json(msg).map_err(|e| e.to_string())?).map_err(|e| e.to_string()),
            Code::Airdrop => ibcx_airdrop::contract::query(deps, env, from_json(msg).map_err(|e| e.to_string())?).map_err(|e| e.to_string()),
            Code::Periphery => ibcx_periphery::contract::query(deps, env, from_json(msg).map_err(|e| e.to_string())?).map_err(|e| e.to_string()),
        })?
    }
    pub fn qcore<T: serde::de::DeserializeOwned>(&self, addr: &str, msg: ibcx_interface::core::QueryMsg) -> R<T> {
        let st = self.store.get(addr).ok_or("no contract")?;
        let api = MockApi::default();
        let q = WQ(self);
        let deps = Deps { storage: st, api: &api, querier: QuerierWrapper::new(&q) };
        let env = self.env(addr);
        let b = guard(|| ibcx_core::contract::query(deps, env, msg).map_err(|e| e.to_string()))??;
        from_json(b).map_err(|e| e.to_string())
    }
    pub fn qair<T: serde::de::DeserializeOwned>(&self, addr: &str, msg: ibcx_interface::airdrop::QueryMsg) -> R<T> {
        let st = self.store.get(addr).ok_or("no contract")?;
        let api = MockApi::default();
        let q = WQ(self);
        let deps = Deps { storage: st, api: &api, querier: QuerierWrapper::new(&q) };
        let env = self.env(addr);
        let b = guard(|| ibcx_airdrop::contract::query(deps, env, msg).map_err(|e| e.to_string()))??;
        from_json(b).map_err(|e| e.to_string())
    }
    pub fn qper<T: serde::de::DeserializeOwned>(&self, addr: &str, msg: ibcx_interface::periphery::QueryMsg) -> R<T> {
        let st = self.store.get(addr).ok_or("no contract")?;
        let api = MockApi::default();
        let q = WQ(self);
        let deps = Deps { storage: st, api: &api, querier: QuerierWrapper::new(&q) };
        let env = self.env(addr);
        let b = guard(|| ibcx_periphery::contract::query(deps, env, msg).map_err(|e| e.to_string()))??;
        from_json(b).map_err(|e| e.to_string())
    }
    /// runs `f` with a querier of this chain state
    pub fn with_deps<T>(&self, f: impl FnOnce(Deps) -> R<T>) -> R<T> {
        let st = Store::default();
        let api = MockApi::default();
        let q = WQ(self);
        let deps = Deps { storage: &st, api: &api, querier: QuerierWrapper::new(&q) };
        guard(|| f(deps))?
    }
    pub fn est_in(&self, pool_routes: &[(u64, &str)], din: &str, ain: u128) -> R<u128> {
        let hops = Self::hops_in(din, pool_routes.iter().map(|r| (r.0, r.1.to_string())).collect())?;
        Ok(self.run_in(&hops, ain)?.last().unwrap().4)
    }
    pub fn est_out(&self, routes: &[(u64, &str)], dout: &str, aout: u128) -> R<u128> {
        let hops = self.hops_out(dout, routes.iter().map(|r| (r.0, r.1.to_string())).collect())?;
        Ok(self.run_out(&hops, aout)?[0].2)
    }

    /// Canonical bytes of everything that can influence the future.
    pub fn canon(&self, h: &mut Canon) {
        h.u64(self.time);
        h.u64(self.height);
        for ((a, d), v) in self.bank.iter() {
            if *v > 0 {
                h.s(a);
                h.s(d);
                h.u128(*v);
            }
        }
        h.s("|");
        for (a, s) in &self.store {
            h.s(a);
            for (k, v) in s.0.iter() {
                h.b(k);
                h.b(v);
            }
        }
        h.s("|");
        for p in self.pools.values() {
            h.u64(p.id);
            h.s(&format!("{:?}", p.kind));
            h.u128(p.fee);
            for a in &p.assets {
                h.s(&a.0);
                h.u128(a.1);
                h.u128(a.2);
            }
        }
        h.s("|");
        for (d, v) in &self.supply {
            h.s(d);
            h.u128(*v);
        }
        for (d, v) in &self.admins {
            h.s(d);
            h.s(v);
        }
        h.u64(self.strict_routes as u64);
        h.u128(self.slip);
    }
}

/// 128-bit canonical hash (two independently seeded SipHash streams)
pub struct Canon(std::collections::hash_map::DefaultHasher, std::collections::hash_map::DefaultHasher);
impl Canon {
    pub fn new() -> Self {
        use std::hash::Hasher;
        let mut a = std::collections::hash_map::DefaultHasher::new();
        let mut b = std::collections::hash_map::DefaultHasher::new();
        a.write(b"left");
        b.write(b"right-hand");
        Canon(a, b)
    }
    pub fn b(&mut self, v: &[u8]) {
        use std::hash::Hasher;
        let n = (v.len() as u64).to_le_bytes();
        self.0.write(&n);
        self.0.write(v);
        self.1.write(&n);
        self.1.write(v);
    }
    pub fn s(&mut self, v: &str) {
        self.b(v.as_bytes())
    }
    pub fn u64(&mut self, v: u64) {
        self.b(&v.to_le_bytes())
    }
    pub fn u128(&mut self, v: u128) {
        self.b(&v.to_le_bytes())
    }
    pub fn end(self) -> u128 {
        use std::hash::Hasher;
        ((self.0.finish() as u128) << 64) | self.1.finish() as u128
    }
}

pub struct WQ<'a>(pub &'a World);
impl Querier for WQ<'_> {
    fn raw_query(&self, bin: &[u8]) -> QuerierResult {
        let req: QueryRequest<Empty> = match from_json(bin) {
            Ok(v) => v,
            Err(e) => {
                return SystemResult::Err(SystemError::InvalidRequest { error: e.to_string(), request: bin.into() })
            }
        };
        match self.handle(req) {
            Ok(b) => SystemResult::Ok(ContractResult::Ok(b)),
            Err(e) => SystemResult::Ok(ContractResult::Err(e)),
        }
    }
}
impl WQ<'_> {
    fn handle(&self, req: QueryRequest<Empty>) -> R<Binary> {
        let w = self.0;
        let enc = |r: Result<Binary, cosmwasm_std::StdError>| r.map_err(|e| e.to_string());
        match req {
            QueryRequest::Bank(BankQuery::Balance { address, denom }) => {
                let amount = Coin::new(w.bal(&address, &denom), denom);
                let mut r = BalanceResponse::default();
                r.amount = amount;
                enc(to_json_binary(&r))
            }
            QueryRequest::Bank(BankQuery::AllBalances { address }) => {
                let mut r = AllBalanceResponse::default();
                r.amount = w.balances(&address).into_iter().map(|(d, a)| Coin::new(a, d)).collect();
                enc(to_json_binary(&r))
            }
            QueryRequest::Wasm(WasmQuery::Smart { contract_addr, msg }) => w.query_bin(&contract_addr, &msg),
            QueryRequest::Wasm(WasmQuery::Raw { contract_addr, key }) => {
                Ok(w.store.get(&contract_addr).and_then(|s| s.get(&key)).unwrap_or_default().into())
            }
            QueryRequest::Stargate { path, data } => {
                let js = |v: serde_json::Value| Ok(Binary::from(serde_json::to_vec(&v).unwrap()));
                match path.as_str() {
                    "/osmosis.poolmanager.v1beta1.Query/Pool" => {
                        let m: pm::PoolRequest = data.try_into().map_err(|e| format!("{e:?}"))?;
                        Ok(w.pools.get(&m.pool_id).ok_or("no pool")?.json().into_bytes().into())
                    }
                    "/osmosis.poolmanager.v1beta1.Query/EstimateSwapExactAmountIn" => {
                        let m: pm::EstimateSwapExactAmountInRequest = data.try_into().map_err(|e| format!("{e:?}"))?;
                        let (a, d) = parse_coin(&m.token_in)?;
                        let r: Vec<_> = m.routes.iter().map(|r| (r.pool_id, r.token_out_denom.as_str())).collect();
                        js(json!({"token_out_amount": w.est_in(&r, &d, a)?.to_string()}))
                    }
                    "/osmosis.poolmanager.v1beta1.Query/EstimateSwapExactAmountOut" => {
                        let m: pm::EstimateSwapExactAmountOutRequest = data.try_into().map_err(|e| format!("{e:?}"))?;
                        let (a, d) = parse_coin(&m.token_out)?;
                        let r: Vec<_> = m.routes.iter().map(|r| (r.pool_id, r.token_in_denom.as_str())).collect();
                        js(json!({"token_in_amount": w.est_out(&r, &d, a)?.to_string()}))
                    }
                    _ => Err(format!("unsupported query {path}")),
                }
            }
            _ => Err("unsupported query".into()),
        }
    }
}
