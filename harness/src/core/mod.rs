//! Properties of the core (index token) contract, explored on the real entry points.
pub use crate::explore::*;
pub use crate::world::*;
pub use cosmwasm_std::{Coin, Decimal, Uint128, Uint256};
pub use ibcx_interface::core::*;
pub use ibcx_interface::types::{RangeOrder, SwapRoute, SwapRoutes};
pub use std::collections::BTreeMap;
pub use std::fmt::Debug;
pub use std::str::FromStr;
pub use std::sync::Arc;

pub mod fees;
pub mod gov;
pub mod ledger;
pub mod misc;
pub mod reb;

pub const CORE: &str = "core";
pub const GOV: &str = "gover";
pub const COL: &str = "colle";
pub const T0: u64 = 1_700_000_000;
pub const YEAR: u64 = 31_536_000;
pub const E18: u128 = ONE18;

pub fn u256(v: u128) -> Uint256 {
    Uint256::from(v)
}
/// floor(dec * n)
pub fn mulf(dec: u128, n: u128) -> u128 {
    to128(u256(dec) * u256(n) / u256(E18))
}
/// ceil(dec * n)
pub fn mulc(dec: u128, n: u128) -> u128 {
    to128((u256(dec) * u256(n) + u256(E18 - 1)) / u256(E18))
}
pub fn to128(v: Uint256) -> u128 {
    Uint128::try_from(v).map(|x| x.u128()).unwrap_or(u128::MAX)
}
pub fn dec(s: &str) -> Decimal {
    Decimal::from_str(s).unwrap()
}
pub fn c(a: u128, d: &str) -> Coin {
    Coin::new(a, d)
}

#[derive(Clone, Debug)]
pub enum Op {
    Exec(&'static str, ExecuteMsg, Vec<Coin>),
    Wait(u64),
    Send(&'static str, &'static str, String, u128),
    Migrate(Option<bool>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Obs {
    pub cfg: GetConfigResponse,
    pub fee: GetFeeResponse,
    pub supply: u128,
    pub units: Vec<(String, u128)>,
    pub assets: Vec<Coin>,
    pub reb: Option<RebalancePayload>,
    pub collected: BTreeMap<String, u128>,
}
impl Obs {
    pub fn of(w: &World) -> R<Obs> {
        let cfg: GetConfigResponse = w.qcore(CORE, QueryMsg::GetConfig { time: None })?;
        let fee: GetFeeResponse = w.qcore(CORE, QueryMsg::GetFee { time: None })?;
        let port: GetPortfolioResponse = w.qcore(CORE, QueryMsg::GetPortfolio { time: None })?;
        let reb: GetRebalanceResponse = w.qcore(CORE, QueryMsg::GetRebalance {})?;
        let collected = collected(&fee);
        Ok(Obs {
            cfg,
            supply: port.total_supply.u128(),
            units: units(&port),
            assets: port.assets,
            fee,
            reb: reb.rebalance,
            collected,
        })
    }
    pub fn unit(&self, d: &str) -> u128 {
        self.units.iter().find(|u| u.0 == d).map(|u| u.1).unwrap_or(0)
    }
    pub fn col(&self, d: &str) -> u128 {
        *self.collected.get(d).unwrap_or(&0)
    }
    pub fn index(&self) -> &str {
        &self.cfg.index_denom
    }
    pub fn paused(&self) -> bool {
        self.cfg.paused.paused
    }
    /// coins required to mint n by the property's formula
    pub fn required(&self, n: u128) -> Vec<Coin> {
        self.units.iter().map(|(d, un)| c(mulc(*un, n).max(1), d)).collect()
    }
    pub fn mint_fee(&self, n: u128) -> u128 {
        self.fee.mint_fee.map(|f| mulf(f.atomics().u128(), n).max(1)).unwrap_or(0)
    }
    pub fn burn_fee(&self, n: u128) -> u128 {
        self.fee.burn_fee.map(|f| mulf(f.atomics().u128(), n)).unwrap_or(0)
    }
}
pub fn units(p: &GetPortfolioResponse) -> Vec<(String, u128)> {
    p.units.iter().map(|(d, u)| (d.clone(), u.atomics().u128())).collect()
}
pub fn collected(f: &GetFeeResponse) -> BTreeMap<String, u128> {
    let mut m = BTreeMap::new();
    if let Some(s) = &f.streaming_fee {
        for x in &s.collected {
            *m.entry(x.denom.clone()).or_insert(0) += x.amount.u128()
        }
    }
    m.retain(|_, v| *v > 0);
    m
}

#[derive(Clone)]
pub struct CS<G> {
    pub w: World,
    pub o: Arc<Obs>,
    pub g: G,
}

pub struct Tx<'a, G> {
    pub pre: &'a CS<G>,
    pub op: &'a Op,
    pub res: &'a R<()>,
    pub w: &'a World,
    pub o: &'a Obs,
}
impl<G> Tx<'_, G> {
    pub fn ok(&self) -> bool {
        self.res.is_ok()
    }
    pub fn exec(&self) -> Option<(&'static str, &ExecuteMsg, &Vec<Coin>)> {
        match self.op {
            Op::Exec(a, b, c) => Some((*a, b, c)),
            _ => None,
        }
    }
}

pub trait Prop: Sync {
    type G: Clone + Send + Sync + Debug;
    fn init(&self, w: &World, o: &Obs) -> Self::G;
    fn ops(&self, s: &CS<Self::G>) -> Vec<Op>;
    fn step(&self, t: &Tx<Self::G>, st: &mut Stat) -> Result<Self::G, V>;
    fn check(&self, _s: &CS<Self::G>, _st: &mut Stat) -> Result<(), V> {
        Ok(())
    }
}

pub struct CM<P: Prop> {
    pub name: String,
    pub inits: Vec<(String, World)>,
    pub p: P,
}

fn kind(op: &Op) -> &'static str {
    match op {
        Op::Wait(_) => "wait",
        Op::Send(..) => "send",
        Op::Migrate(_) => "migrate",
        Op::Exec(_, m, _) => match m {
            ExecuteMsg::Mint { .. } => "mint",
            ExecuteMsg::Burn { .. } => "burn",
            ExecuteMsg::Realize {} => "realize",
            ExecuteMsg::Gov(g) => match g {
                GovMsg::Pause { .. } => "pause",
                GovMsg::Release {} => "release",
                GovMsg::UpdateGov(_) => "update_gov",
                GovMsg::AcceptGov {} => "accept_gov",
                GovMsg::RevokeGov {} => "revoke_gov",
                GovMsg::UpdateFeeStrategy(_) => "update_fee",
                GovMsg::UpdateRebalanceManager(_) => "update_manager",
                GovMsg::UpdateReserveDenom(_) => "update_reserve",
                GovMsg::UpdateTradeInfo { .. } => "update_trade_info",
            },
            ExecuteMsg::Rebalance(r) => match r {
                RebalanceMsg::Init { .. } => "reb_init",
                RebalanceMsg::Trade(RebalanceTradeMsg::Deflate { .. }) => "deflate",
                RebalanceMsg::Trade(RebalanceTradeMsg::Inflate { .. }) => "inflate",
                RebalanceMsg::Finalize {} => "finalize",
            },
        },
    }
}

pub fn apply(w: &mut World, op: &Op) -> R<()> {
    match op {
        Op::Exec(who, m, funds) => w.exec(who, CORE, Msg::Core(m.clone()), funds),
        Op::Wait(d) => {
            w.ev.clear();
            w.wait(*d);
            Ok(())
        }
        Op::Send(a, b, d, n) => w.send(a, b, d, *n),
        Op::Migrate(f) => w.migrate(CORE, *f),
    }
}

impl<P: Prop> Model for CM<P> {
    type S = CS<P::G>;
    type Op = Op;
    fn name(&self) -> String {
        self.name.clone()
    }
    fn inits(&self) -> Vec<(String, Self::S)> {
        self.inits
            .iter()
            .filter_map(|(n, w)| {
                let o = Obs::of(w).ok()?;
                let g = self.p.init(w, &o);
                Some((n.clone(), CS { w: w.clone(), o: Arc::new(o), g }))
            })
            .collect()
    }
    fn ops(&self, s: &Self::S) -> Vec<Op> {
        self.p.ops(s)
    }
    fn step(&self, s: &Self::S, op: &Op, st: &mut Stat) -> Result<Self::S, V> {
        let mut w = s.w.clone();
        let res = apply(&mut w, op);
        let k = kind(op);
        hit(st, format!("{k}:{}", if res.is_ok() { "ok" } else { "refused" }));
        if std::env::var("MC_ERR").is_ok() {
            if let Err(e) = &res {
                hit(st, format!("{k} err {e}"));
            }
        }
        let o = if res.is_ok() {
            match Obs::of(&w) {
                Ok(o) => Arc::new(o),
                Err(e) => {
                    viol!("the state cannot be queried after {op:?}: {e}");
                }
            }
        } else {
            s.o.clone()
        };
        let g = self.p.step(&Tx { pre: s, op, res: &res, w: &w, o: &o }, st)?;
        w.ev.clear();
        Ok(CS { w, o, g })
    }
    fn check(&self, s: &Self::S, st: &mut Stat) -> Result<(), V> {
        self.p.check(s, st)
    }
    fn canon(&self, s: &Self::S, h: &mut Canon) {
        s.w.canon(h);
        h.s(&format!("{:?}", s.g));
    }
}

// ------------------------------------------------------------------ building worlds
pub fn fee(mint: Option<&str>, burn: Option<&str>, stream: Option<(&str, bool)>, col: &str) -> FeePayload {
    FeePayload {
        collector: col.into(),
        mint_fee: mint.map(dec),
        burn_fee: burn.map(dec),
        streaming_fee: stream.map(|s| StreamingFeePayload { rate: dec(s.0), freeze: s.1 }),
    }
}
pub const CAP: &str = "0.000000021979553";
pub fn f0() -> FeePayload {
    fee(None, None, None, COL)
}
pub fn f1() -> FeePayload {
    fee(Some("0.01"), Some("0.015"), Some((CAP, false)), COL)
}
pub fn f2() -> FeePayload {
    fee(Some("0.000001"), Some("0.3"), Some(("0.000000001", false)), COL)
}
pub fn f3() -> FeePayload {
    fee(None, Some("0.999"), Some((CAP, true)), COL)
}

pub type Us = &'static [(&'static str, &'static str)];
pub const U1: Us = &[("uatomo", "1"), ("uatom", "0.5"), ("Uatom", "22.2")];
pub const U2: Us = &[("uatom", "1.234567890123456789"), ("Uatom", "0.333333333333333333"), ("uatomo", "0.000000000000000001")];
pub const U3: Us = &[("uatom", "0.000000000000000001")];
pub const U4: Us = &[("uatom", "3"), ("Uatom", "0.7")];

pub const USERS: [&str; 3] = ["alice", "bobby", "carol"];
pub const DENOMS: [&str; 4] = ["uatomo", "uatom", "Uatom", "ibc/uatom"];
pub const RICH: u128 = 1_000_000_000_000_000_000_000_000_000;

/// chain with users and pools, without contracts
/// pools of every start state
pub fn std_pools(w: &mut World) {
    w.add_pool(1, PoolKind::Weighted, 3_000_000_000_000_000, &[("uatom", 2_000_000_000_000, 1), ("uatomo", 6_000_000_000_000, 1)]);
    w.add_pool(2, PoolKind::Weighted, 0, &[("Uatom", 9_000_000_000_000, 1), ("uatomo", 3_000_000_000_000, 1)]);
    w.add_pool(3, PoolKind::Weighted, 10_000_000_000_000_000, &[("ibc/uatom", 5_000_000_000_000, 1), ("uatomo", 5_000_000_000_000, 4)]);
    w.add_pool(4, PoolKind::Weighted, 2_000_000_000_000_000, &[("uatom", 1_000_000_000_000, 1), ("Uatom", 4_000_000_000_000, 1)]);
    w.add_pool(5, PoolKind::Weighted, 1_000_000_000_000_000, &[("uatom", 3_000_000_000_000, 2), ("uatomo", 9_000_000_000_000, 2)]);
}
pub fn chain() -> World {
    let mut w = World::new(T0);
    for a in USERS.iter().chain([GOV, "manag"].iter()) {
        for d in DENOMS {
            w.give(a, d, RICH);
        }
        w.give(a, "ujunk", RICH);
    }
    std_pools(&mut w);
    w
}
pub fn core_init(units: Us, fee: FeePayload, reserve: &str) -> InstantiateMsg {
    InstantiateMsg {
        gov: GOV.into(),
        fee,
        index_denom: "uibcx".into(),
        index_units: units.iter().map(|(d, u)| (d.to_string(), dec(u))).collect(),
        reserve_denom: reserve.into(),
    }
}
pub fn genesis(units: Us, fee: FeePayload, reserve: &str) -> R<World> {
    let mut w = chain();
    w.instantiate(CORE, "creat", Init::Core(core_init(units, fee, reserve)))?;
    Ok(w)
}
pub fn route(r: &[(u64, &str)]) -> SwapRoutes {
    SwapRoutes(r.iter().map(|(p, d)| SwapRoute::new(*p, d)).collect())
}
pub fn trade_info(denom: &str, r: &[(u64, &str)], cooldown: u64, max: u128) -> ExecuteMsg {
    ExecuteMsg::Gov(GovMsg::UpdateTradeInfo { denom: denom.into(), routes: route(r), cooldown, max_trade_amount: max.into() })
}
pub fn mint(n: u128) -> ExecuteMsg {
    ExecuteMsg::Mint { amount: n.into(), receiver: None, refund_to: None }
}
pub fn burn() -> ExecuteMsg {
    ExecuteMsg::Burn { redeem_to: None }
}
pub fn deflate(d: &str, out: u128, max_in: u128) -> ExecuteMsg {
    ExecuteMsg::Rebalance(RebalanceMsg::Trade(RebalanceTradeMsg::Deflate { target_denom: d.into(), amount_out: out.into(), max_amount_in: max_in.into() }))
}
pub fn inflate(d: &str, ain: u128, min_out: u128) -> ExecuteMsg {
    ExecuteMsg::Rebalance(RebalanceMsg::Trade(RebalanceTradeMsg::Inflate { target_denom: d.into(), amount_in: ain.into(), min_amount_out: min_out.into() }))
}
pub fn finalize() -> ExecuteMsg {
    ExecuteMsg::Rebalance(RebalanceMsg::Finalize {})
}
pub fn reb_init(manager: Option<&str>, defl: &[(&str, &str)], infl: &[(&str, &str)]) -> ExecuteMsg {
    let f = |v: &[(&str, &str)]| v.iter().map(|(d, x)| (d.to_string(), dec(x))).collect();
    ExecuteMsg::Rebalance(RebalanceMsg::Init { manager: manager.map(|s| s.into()), deflation: f(defl), inflation: f(infl) })
}
/// governance routes for every asset <-> reserve "uatomo"
pub fn set_routes(w: &mut World, cooldown: u64, max: u128) -> R<()> {
    for (d, p) in [("uatom", 1), ("Uatom", 2), ("ibc/uatom", 3)] {
        w.exec(GOV, CORE, Msg::Core(trade_info(d, &[(p, "uatomo")], cooldown, max)), &[])?;
        w.exec(GOV, CORE, Msg::Core(trade_info("uatomo", &[(p, d)], cooldown, max)), &[])?;
    }
    Ok(())
}
pub fn do_mint(w: &mut World, who: &str, n: u128) -> R<()> {
    let o = Obs::of(w)?;
    let mut f = o.required(n);
    f.sort_by(|a, b| a.denom.cmp(&b.denom));
    w.exec(who, CORE, Msg::Core(mint(n)), &f)
}
pub fn inits(v: Vec<(&str, R<World>)>) -> Vec<(String, World)> {
    v.into_iter()
        .filter_map(|(n, w)| match w {
            Ok(w) => Some((n.to_string(), w)),
            Err(e) => {
                eprintln!("start state {n} cannot be built: {e}");
                None
            }
        })
        .collect()
}
/// genesis + routes + first mints by two users
pub fn seeded(units: Us, fee: FeePayload, reserve: &str, a: u128, b: u128) -> R<World> {
    let mut w = genesis(units, fee, reserve)?;
    set_routes(&mut w, 0, u128::MAX)?;
    if a > 0 {
        do_mint(&mut w, "alice", a)?;
    }
    if b > 0 {
        do_mint(&mut w, "bobby", b)?;
    }
    Ok(w)
}
/// names of the assets of wide portfolios
pub fn wname(i: usize) -> &'static str {
    static T: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    T.get_or_init(|| (0..64).map(|i| &*Box::leak(format!("{}{:02}", if i % 4 == 0 { "ibc/X" } else { "u" }, (i * 29) % 97).into_boxed_str())).collect())[i]
}
/// a rebalance of an index of n assets: `d` of them are sold for `i` others (three of them new ones,
/// one the reserve), every one over its own pool
pub fn wide_rebalancing(n: usize, supply: u128, manager: Option<&str>, d: usize, i: usize, cooldown: u64, max: u128) -> R<World> {
    let mut w = wide(n, f1(), supply, 7)?;
    for k in 0..n + 3 {
        let x = wname(k);
        w.give("alice", x, 1);
        w.add_pool(100 + k as u64, PoolKind::Weighted, 1_000_000_000_000_000 * (k as u128 % 4), &[(x, 1_000_000_000_000 + 77 * k as u128, 1 + k as u128 % 3), ("uatomo", 900_000_000_000 + k as u128, 1)]);
        w.exec(GOV, CORE, Msg::Core(trade_info(x, &[(100 + k as u64, "uatomo")], cooldown, max)), &[])?;
        w.exec(GOV, CORE, Msg::Core(trade_info("uatomo", &[(100 + k as u64, x)], cooldown, max)), &[])?;
    }
    let o = Obs::of(&w)?;
    let defl: Vec<(String, Decimal)> = (0..d).map(|k| (wname(k).to_string(), Decimal::raw(o.unit(wname(k)) / [3, 2, 7, 1][k % 4] * [1, 1, 0, 1][k % 4]))).collect();
    let mut infl: Vec<(String, Decimal)> = (0..i.saturating_sub(1)).map(|k| (wname(n + 2 - k).to_string(), dec(["1", "0.3", "2.000000000000000007", "17"][k % 4]))).collect();
    infl.insert(infl.len() / 2, ("uatomo".into(), dec("0.7")));
    w.exec(GOV, CORE, Msg::Core(ExecuteMsg::Rebalance(RebalanceMsg::Init { manager: manager.map(|s| s.into()), deflation: defl, inflation: infl })), &[])?;
    Ok(w)
}
/// an index of n assets, minted by two users
pub fn wide(n: usize, fee: FeePayload, a: u128, b: u128) -> R<World> {
    let us: Vec<(&'static str, &'static str)> = (0..n)
        .map(|i| {
            let d = wname(i);
            let u: &'static str = ["0.5", "1", "17.25", "0.000000000000000007", "3.333333333333333333"][i % 5];
            (d, u)
        })
        .collect();
    let us: Us = Box::leak(us.into_boxed_slice());
    let mut w = chain();
    for who in ["alice", "bobby"] {
        for (d, _) in us {
            w.give(who, d, RICH);
        }
    }
    w.instantiate(CORE, "creat", Init::Core(core_init(us, fee, "uatomo")))?;
    for (who, n) in [("alice", a), ("bobby", b)] {
        if n > 0 {
            do_mint(&mut w, who, n)?;
        }
    }
    Ok(w)
}
pub fn wide_inits() -> Vec<(String, World)> {
    inits(vec![("fresh, 11 assets", wide(11, f1(), 0, 0)), ("fresh, 40 assets", wide(40, f2(), 0, 0)), ("11 assets", wide(11, f1(), 1_000_003, 7)), ("32 assets", wide(32, f1(), 777_777, 10)), ("33 assets, other fees", wide(33, f2(), 1_000, 10))])
}
pub fn rebalancing(mut w: World, manager: Option<&str>, defl: &[(&str, &str)], infl: &[(&str, &str)]) -> R<World> {
    w.exec(GOV, CORE, Msg::Core(reb_init(manager, defl, infl)), &[])?;
    Ok(w)
}
pub fn then(w: R<World>, f: impl FnOnce(&mut World) -> R<()>) -> R<World> {
    let mut w = w?;
    f(&mut w)?;
    Ok(w)
}

// ------------------------------------------------------------------ rebalance ghost
/// What a running rebalance has set aside, reconstructed from what swaps really moved.
/// Fractions are scaled by 1e18.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct RG {
    pub total: Uint256,
    pub share: BTreeMap<String, Uint256>,
}
impl RG {
    /// tolerance (in whole base units) between exact shares and 18-decimal units over the supply
    pub fn tol(supply: u128) -> u128 {
        2 + 8 * (supply / E18 + 1)
    }
    /// The same tolerance scaled by 1e18: every trade rounds each share by a few 18-decimal units.
    pub fn tol_e18(supply: u128) -> Uint256 {
        (u256(supply) * u256(64)).min(u256(RG::tol(supply)) * u256(E18))
    }
    pub fn update<G>(&self, t: &Tx<G>) -> RG {
        let mut r = self.clone();
        if t.o.reb.is_none() {
            return RG::default();
        }
        if !t.ok() {
            return r;
        }
        let Some((_, ExecuteMsg::Rebalance(RebalanceMsg::Trade(m)), _)) = t.exec() else { return r };
        let swap = t.w.ev.iter().find_map(|e| match e {
            Ev::Swap { sender, ain, aout, .. } if sender == CORE => Some((*ain, *aout)),
            _ => None,
        });
        let s = u256(t.pre.o.supply);
        match m {
            RebalanceTradeMsg::Deflate { target_denom, .. } => {
                let got = match swap {
                    Some((_, aout)) => u256(aout) * u256(E18),
                    None => u256(t.pre.o.unit(target_denom).saturating_sub(t.o.unit(target_denom))) * s,
                };
                r.total += got;
                if let Some(reb) = &t.pre.o.reb {
                    let tw = reb.inflation.iter().fold(Uint256::zero(), |a, x| a + u256(x.1.atomics().u128()));
                    if !tw.is_zero() {
                        for (d, wgt) in &reb.inflation {
                            *r.share.entry(d.clone()).or_default() += got * u256(wgt.atomics().u128()) / tw;
                        }
                    }
                }
            }
            RebalanceTradeMsg::Inflate { target_denom, .. } => {
                let spent = match swap {
                    Some((ain, _)) => u256(ain) * u256(E18),
                    None => u256(t.o.unit(target_denom).saturating_sub(t.pre.o.unit(target_denom))) * s,
                };
                r.total = r.total.saturating_sub(spent);
                let e = r.share.entry(target_denom.clone()).or_default();
                *e = e.saturating_sub(spent);
            }
        }
        r
    }
    /// share of an asset when 18-decimal rounding may have lifted it to the next whole unit
    pub fn nearly(&self, d: &str, supply: u128) -> u128 {
        self.share.get(d).map(|x| to128((*x + RG::tol_e18(supply)) / u256(E18))).unwrap_or(0)
    }
    pub fn share_units(&self, d: &str) -> u128 {
        to128(self.share.get(d).copied().unwrap_or_default() / u256(E18))
    }
}
/// largest output of the reserve obtainable from `gap` of `d` by the stored default route
pub fn max_out(w: &World, d: &str, gap: u128) -> u128 {
    let p = match d {
        "uatom" => 1,
        "Uatom" => 2,
        "ibc/uatom" => 3,
        _ => w.pools.values().find(|p| p.id >= 100 && p.assets.iter().any(|a| a.0 == d)).map(|p| p.id).unwrap_or(3),
    };
    w.est_in(&[(p, "uatomo")], d, gap).unwrap_or(0)
}
pub fn gap(o: &Obs, d: &str) -> u128 {
    let t = o.reb.as_ref().and_then(|r| r.deflation.iter().find(|x| x.0 == d)).map(|x| x.1.atomics().u128()).unwrap_or(0);
    mulf(o.unit(d).saturating_sub(t), o.supply)
}
pub fn dedup(mut v: Vec<u128>) -> Vec<u128> {
    let mut out = vec![];
    for x in v.drain(..) {
        if !out.contains(&x) {
            out.push(x)
        }
    }
    out
}
pub fn ex(who: &'static str, m: ExecuteMsg, f: Vec<Coin>) -> Op {
    Op::Exec(who, m, f)
}

pub fn run(p: &str, r: &mut Report) -> bool {
    match p {
        "C01" => ledger::c01(r),
        "C02" => ledger::c02(r),
        "C03" => ledger::c03(r),
        "C04" => ledger::c04(r),
        "C05" => fees::c05(r),
        "C06" => fees::c06(r),
        "C07" => gov::c07(r),
        "C08" => gov::c08(r),
        "C09" => reb::c09(r),
        "C10" => reb::c10(r),
        "C11" => reb::c11(r),
        "C12" => misc::c12(r),
        "C13" => misc::c13(r),
        "C14" => misc::c14(r),
        "C15" => misc::c15(r),
        "C16" => misc::c16(r),
        _ => return false,
    }
    true
}
