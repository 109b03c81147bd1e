//! C09 rebalance lifecycle, C10 trades, C11 finalize and completion.
use super::fees::U5;
use super::ledger::*;
use super::*;

fn g(m: GovMsg) -> ExecuteMsg {
    ExecuteMsg::Gov(m)
}
fn mgr(o: &Obs) -> Option<String> {
    o.reb.as_ref().and_then(|r| r.manager.as_ref().map(|a| a.to_string()))
}

// ------------------------------------------------------------------ C09
struct C09;
fn init_legal(o: &Obs, d: &[(String, Decimal)], i: &[(String, Decimal)]) -> Result<(), String> {
    if o.supply == 0 {
        return Err("nothing is minted".into());
    }
    if d.is_empty() || i.is_empty() {
        return Err("an asset list is empty".into());
    }
    let mut seen = vec![];
    for (x, _) in d.iter().chain(i.iter()) {
        if seen.contains(&x) {
            return Err(format!("{x} appears twice"));
        }
        seen.push(x);
    }
    for (x, t) in d {
        match o.units.iter().find(|u| &u.0 == x) {
            None => return Err(format!("{x} is not in the portfolio")),
            Some((_, u)) if t.atomics().u128() > *u => return Err(format!("target of {x} is above its unit")),
            _ => {}
        }
    }
    if let Some((x, _)) = i.iter().find(|x| x.1.is_zero()) {
        return Err(format!("weight of {x} is zero"));
    }
    Ok(())
}
fn raw(n: u128) -> Decimal {
    Decimal::raw(n)
}
fn init_variants(o: &Obs) -> Vec<ExecuteMsg> {
    let mk = |m: Option<&str>, d: Vec<(&str, Decimal)>, i: Vec<(&str, Decimal)>| {
        ExecuteMsg::Rebalance(RebalanceMsg::Init {
            manager: m.map(|s| s.into()),
            deflation: d.into_iter().map(|x| (x.0.to_string(), x.1)).collect(),
            inflation: i.into_iter().map(|x| (x.0.to_string(), x.1)).collect(),
        })
    };
    let one = Decimal::one();
    let a = o.unit("uatom");
    let z = Decimal::zero();
    vec![
        mk(None, vec![("uatomo", dec("0.3"))], vec![("ibc/uatom", one)]),
        mk(Some(o.cfg.gov.as_str()), vec![("uatomo", dec("0.3"))], vec![("ibc/uatom", one)]),
        mk(Some(CORE), vec![("uatomo", dec("0.31"))], vec![("ibc/uatom", one)]),
        mk(Some("manag"), vec![("uatom", raw(a / 2)), ("uatomo", z)], vec![("Uatom", dec("0.1")), ("ibc/uatom", dec("3"))]),
        mk(Some("manag"), vec![("ibc/uatom", z)], vec![("uatomo", one)]),
        mk(None, vec![("uatom", raw(a))], vec![("uatomo", one)]),
        mk(None, vec![("uatom", raw(a + 1))], vec![("uatomo", one)]),
        mk(None, vec![("uatomo", dec("0.3")), ("uatom", raw(a + 1))], vec![("ibc/uatom", one)]),
        mk(None, vec![("uatom", raw(a)), ("uzzz", z)], vec![("uatomo", one)]),
        mk(None, vec![("uzzz", z)], vec![("uatomo", one)]),
        mk(None, vec![], vec![("uatomo", one)]),
        mk(None, vec![("uatom", z)], vec![]),
        mk(None, vec![], vec![]),
        mk(None, vec![("uatom", z), ("uatom", raw(a / 3))], vec![("uatomo", one)]),
        mk(None, vec![("uatom", z), ("uatomo", z), ("uatom", z)], vec![("Uatom", one)]),
        mk(None, vec![("uatom", z)], vec![("ibc/uatom", one), ("ibc/uatom", one)]),
        mk(None, vec![("uatom", z)], vec![("ibc/uatom", one), ("uatomo", one), ("ibc/uatom", dec("2"))]),
        mk(None, vec![("uatom", z)], vec![("uatom", one)]),
        mk(None, vec![("uatom", z), ("uatomo", z)], vec![("Uatom", one), ("uatomo", one)]),
        mk(None, vec![("uatom", z)], vec![("uatomo", z)]),
        mk(None, vec![("uatom", z)], vec![("uatomo", one), ("ibc/uatom", z)]),
        mk(None, vec![("uatom", z)], vec![("ibc/uatom", z), ("uatomo", one)]),
        mk(None, vec![("uatom", z)], vec![("Uatom", raw(1))]),
    ]
}
impl Prop for C09 {
    type G = RG;
    fn init(&self, _: &World, _: &Obs) -> RG {
        RG::default()
    }
    fn ops(&self, s: &CS<RG>) -> Vec<Op> {
        let o = &s.o;
        let mut v = vec![];
        for m in init_variants(o) {
            v.push(ex(GOV, m, vec![]));
        }
        v.push(ex("alice", reb_init(None, &[("uatomo", "0.3")], &[("ibc/uatom", "1")]), vec![]));
        v.push(ex("alice", mint(1000), sorted(o.required(1000))));
        if s.w.bal("alice", o.index()) >= 10 {
            v.push(ex("alice", burn(), vec![c(10, o.index())]));
        }
        v.push(ex(GOV, g(GovMsg::UpdateFeeStrategy(f2())), vec![]));
        if o.reb.is_some() {
            // whatever is asked for, it is refused now
            for f in [f0(), f1(), f3(), fee(None, None, None, COL), fee(Some("0.5"), Some("0.5"), None, "colle2")] {
                v.push(ex(GOV, g(GovMsg::UpdateFeeStrategy(f)), vec![]));
            }
            for d in [o.cfg.reserve_denom.as_str(), "uatom", "ibc/uatom", "ujunk"] {
                v.push(ex(GOV, g(GovMsg::UpdateReserveDenom(d.into())), vec![]));
            }
            for who in [GOV, "bobby", COL, "manag"] {
                for n in [1, 1_000_000] {
                    v.push(ex(who, mint(n), sorted(o.required(n))));
                }
                let b = s.w.bal(who, o.index());
                for n in dedup(vec![1, b]) {
                    if n > 0 && n <= b {
                        v.push(ex(who, burn(), vec![c(n, o.index())]));
                    }
                }
            }
        }
        v.push(ex(GOV, g(GovMsg::UpdateReserveDenom(if o.cfg.reserve_denom == "uatomo" { "uatom" } else { "uatomo" }.into())), vec![]));
        v.push(ex(COL, ExecuteMsg::Realize {}, vec![]));
        for m in [None, Some("manag".to_string()), Some("carol".to_string()), Some(GOV.to_string())] {
            v.push(ex(GOV, g(GovMsg::UpdateRebalanceManager(m)), vec![]));
        }
        if o.reb.is_some() {
            // governance changes hands while a rebalance runs
            v.push(ex(GOV, g(GovMsg::UpdateGov("carol".into())), vec![]));
            v.push(ex("carol", g(GovMsg::AcceptGov {}), vec![]));
            if o.cfg.gov.as_str() == "carol" {
                v.push(ex("carol", g(GovMsg::UpdateRebalanceManager(Some("carol".into()))), vec![]));
                v.push(ex("carol", g(GovMsg::UpdateRebalanceManager(None)), vec![]));
            }
        }
        for who in ["manag", "alice", GOV, "carol"] {
            v.push(ex(who, finalize(), vec![]));
            v.push(ex(who, deflate("uatomo", 5, 5), vec![]));
            v.push(ex(who, inflate("uatomo", 5, 5), vec![]));
            let m = max_out(&s.w, "uatom", gap(o, "uatom")).max(1);
            v.push(ex(who, deflate("uatom", m, u128::MAX), vec![]));
            for d in ["ibc/uatom", "Uatom"] {
                v.push(ex(who, inflate(d, s.g.share_units(d).max(1), 0), vec![]));
            }
        }
        v.push(Op::Wait(86_400));
        v
    }
    fn step(&self, t: &Tx<RG>, st: &mut Stat) -> Result<RG, V> {
        let (a, b) = (&t.pre.o, t.o);
        let running = a.reb.is_some();
        let gov = a.cfg.gov.as_str();
        let gr = t.pre.g.update(t);
        if let Op::Wait(_) = t.op {
            if running {
                hit(st, "time passed in a rebalance");
                ensure!(a.units == b.units && a.collected == b.collected, "streaming fee accrued during a rebalance: units {:?} -> {:?}, fees {:?} -> {:?}", a.units, b.units, a.collected, b.collected);
            }
            return Ok(gr);
        }
        let Some((who, m, _)) = t.exec() else { return Ok(gr) };
        match m {
            ExecuteMsg::Rebalance(RebalanceMsg::Init { manager, deflation, inflation }) => {
                let l = init_legal(a, deflation, inflation);
                hit(st, if l.is_ok() { "legal start" } else { "illegal start" });
                if t.ok() {
                    ensure!(!running, "a second rebalance was started");
                    ensure!(who == gov, "{who} started a rebalance");
                    if let Err(e) = &l {
                        viol!("rebalance started although {e}: {m:?} on {:?}", a.units);
                    }
                    let Some(r) = &b.reb else { viol!("no rebalance runs after its start") };
                    ensure!(
                        r.manager.as_ref().map(|x| x.to_string()) == *manager && &r.deflation == deflation && &r.inflation == inflation,
                        "the started rebalance is {r:?}, requested {m:?}"
                    );
                    ensure!(a.units == b.units && a.collected == b.collected, "starting a rebalance changed units or fees");
                } else if l.is_ok() && who == gov && !running {
                    viol!("a legal rebalance was refused: {m:?}: {:?}", t.res);
                }
            }
            ExecuteMsg::Mint { .. } | ExecuteMsg::Burn { .. } => {
                ensure!(!(running && t.ok()), "{m:?} succeeded during a rebalance");
                if !running {
                    hit(st, "mint/burn outside a rebalance");
                    ensure!(t.ok(), "{m:?} was refused outside a rebalance: {:?}", t.res);
                }
            }
            ExecuteMsg::Gov(GovMsg::UpdateFeeStrategy(_)) | ExecuteMsg::Gov(GovMsg::UpdateReserveDenom(_)) => {
                ensure!(!(running && t.ok()), "{m:?} succeeded during a rebalance");
                if !running && who == gov {
                    ensure!(t.ok(), "{m:?} was refused outside a rebalance: {:?}", t.res);
                }
            }
            ExecuteMsg::Gov(GovMsg::UpdateRebalanceManager(n)) if who == gov && running => {
                ensure!(t.ok(), "the governor could not make {n:?} the manager: {:?}", t.res)
            }
            ExecuteMsg::Rebalance(x) => {
                ensure!(running || !t.ok(), "{m:?} succeeded although no rebalance runs");
                if running {
                    match mgr(a) {
                        Some(mm) => {
                            if who != mm {
                                hit(st, "trade/finalize by someone else than the manager");
                                ensure!(!t.ok(), "{who} executed {m:?}, the manager is {mm}");
                            }
                        }
                        None => {
                            hit(st, "trade/finalize without manager");
                            for other in ["manag", "carol", GOV] {
                                let mut w2 = t.pre.w.clone();
                                let r2 = w2.exec(other, CORE, Msg::Core(m.clone()), &[]);
                                ensure!(r2.is_ok() == t.ok(), "without a manager {who} gets {:?} but {other} gets {r2:?} for {m:?}", t.res);
                            }
                        }
                    }
                }
                if t.ok() {
                    let fin = matches!(x, RebalanceMsg::Finalize {});
                    ensure!(b.reb.is_some() == !fin, "after {m:?} a rebalance is running: {}", b.reb.is_some());
                }
            }
            _ => {}
        }
        if let (ExecuteMsg::Gov(GovMsg::UpdateRebalanceManager(n)), true) = (m, t.ok()) {
            hit(st, "manager replaced");
            let (Some(x), Some(y)) = (&a.reb, &b.reb) else { viol!("{m:?} succeeded although no rebalance runs or ended it") };
            ensure!(y.manager.as_ref().map(|x| x.to_string()) == *n, "{m:?} made {:?} the manager", y.manager);
            ensure!(x.deflation == y.deflation && x.inflation == y.inflation && a.units == b.units, "{m:?} changed the rebalance from {x:?} to {y:?}");
        }
        let may = matches!(m, ExecuteMsg::Rebalance(RebalanceMsg::Init { .. }) | ExecuteMsg::Rebalance(RebalanceMsg::Finalize {}) | ExecuteMsg::Gov(GovMsg::UpdateRebalanceManager(_)));
        ensure!(may || a.reb == b.reb, "{m:?} changed the rebalance from {:?} to {:?}", a.reb, b.reb);
        Ok(gr)
    }
}
fn burn_all(w: &mut World) -> R<()> {
    let d = format!("factory/{CORE}/uibcx");
    let n = w.bal("alice", &d);
    w.exec("alice", CORE, Msg::Core(burn()), &[c(n, &d)])
}
/// a rebalance with a manager and several inflation assets, with nothing left to trade
fn ready() -> R<World> {
    let w = seeded(U5, f1(), "uatomo", 100_000, 70)?;
    let u = Decimal::raw(Obs::of(&w)?.unit("uatom")).to_string();
    rebalancing(w, Some("manag"), &[("uatom", &u)], &[("Uatom", "1"), ("uatomo", "2"), ("uzzz", "1")])
}
/// Every pair of asset lists up to length three, and every combination of targets and weights.
fn start_lists(r: &mut Report) {
    let worlds = inits(vec![
        ("seeded", seeded(U5, f1(), "uatomo", 100_000, 70)),
        ("fees accrued", then(seeded(U5, f1(), "uatom", 1_000_003, 70), |w| {
            w.wait(9_999_999);
            Ok(())
        })),
        ("wide", wide(12, f1(), 1_000_003, 7)),
    ]);
    type L = Vec<(&'static str, i8)>;
    // (world, deflation, inflation); the number selects target or weight
    let mut pts: Vec<(usize, L, L)> = vec![];
    for (wi, (_, w)) in worlds.iter().enumerate() {
        let Ok(o) = Obs::of(w) else { continue };
        let inside: Vec<&'static str> = if wi == 2 { vec![wname(3), wname(7), wname(11)] } else { ["uatomo", "uatom", "Uatom", "ibc/uatom"].into_iter().filter(|d| o.unit(d) > 0).take(3).collect() };
        let names: Vec<&'static str> = inside.iter().copied().chain(["uzzz"]).collect();
        let mut lists: Vec<Vec<&'static str>> = vec![vec![]];
        let mut last = lists.clone();
        for _ in 0..3 {
            last = last.iter().flat_map(|l| names.iter().map(move |n| [l.clone(), vec![*n]].concat())).collect();
            lists.extend(last.clone());
        }
        for d in &lists {
            for i in &lists {
                let v = |l: &Vec<&'static str>| l.iter().map(|x| (*x, 1)).collect::<L>();
                pts.push((wi, v(d), v(i)));
            }
        }
        let others: Vec<&'static str> = vec!["ujunk", "uzzz"];
        for a in 0..5i8 {
            for b in 0..5 {
                for c in 0..5 {
                    for x in 0..4 {
                        for y in 0..4 {
                            let mut d: L = inside.iter().copied().zip([a, b, c]).collect();
                            pts.push((wi, d.clone(), vec![(others[0], x), (others[1], y)]));
                            d.truncate(2);
                            pts.push((wi, d, vec![(others[0], x), (others[1], y), (inside[2], c.min(3))]));
                        }
                    }
                }
            }
        }
    }
    r.grid("start lists", &pts, |(wi, d, i), st| {
        let mut w = worlds[*wi].1.clone();
        let o = Obs::of(&w).map_err(|e| V { key: String::new(), msg: e })?;
        let target = |x: &(&'static str, i8)| {
            let u = o.unit(x.0);
            Decimal::raw([0, u / 2, u, u + 1, u128::MAX][x.1 as usize])
        };
        let weight = |x: &(&'static str, i8)| Decimal::raw([0, E18, 1, u128::MAX][x.1 as usize]);
        let dl: Vec<(String, Decimal)> = d.iter().map(|x| (x.0.to_string(), target(x))).collect();
        let il: Vec<(String, Decimal)> = i.iter().map(|x| (x.0.to_string(), weight(x))).collect();
        let l = init_legal(&o, &dl, &il);
        let m = ExecuteMsg::Rebalance(RebalanceMsg::Init { manager: Some("manag".into()), deflation: dl.clone(), inflation: il.clone() });
        let res = w.exec(GOV, CORE, Msg::Core(m.clone()), &[]);
        hit(st, if l.is_ok() { "legal lists" } else { "illegal lists" });
        ensure!(res.is_ok() == l.is_ok(), "starting with {m:?} on {:?}: {res:?}, expected {l:?}", o.units);
        let o2 = Obs::of(&w).map_err(|e| V { key: String::new(), msg: e })?;
        match (&o2.reb, l.is_ok()) {
            (None, false) => {}
            (Some(r), true) => ensure!(r.deflation == dl && r.inflation == il && r.manager.as_ref().map(|m| m.as_str()) == Some("manag"), "started {m:?}, reported is {r:?}"),
            x => viol!("after {m:?} ({res:?}) the rebalance is reported as {x:?}"),
        }
        Ok(1)
    });
}
pub fn c09(r: &mut Report) {
    let ini = inits(vec![("f1", seeded(U5, f1(), "uatomo", 100_000, 70)), ("reserve outside", seeded(U4, f0(), "uatomo", 100_000, 70)), ("genesis", then(genesis(U5, f2(), "uatomo"), |w| set_routes(w, 0, u128::MAX))), ("ready to finalize", ready()), ("all burned", then(seeded(U5, f0(), "uatomo", 5000, 0), burn_all)), ("one token", seeded(U5, f0(), "uatomo", 1, 0))]);
    let m = CM { name: "lifecycle".into(), inits: ini, p: C09 };
    r.bfs(&m, if r.thorough { 8 } else { 6 });
    start_lists(r);
}

// ------------------------------------------------------------------ C10
#[derive(Clone, Debug)]
pub struct G10 {
    rg: RG,
    info: BTreeMap<(String, String), (u64, u128, Option<u64>, Vec<(u64, String)>)>,
}
struct C10 {
    fine: bool,
    max: u128,
}
fn swaps(w: &World) -> Vec<(String, u128, String, u128, bool, Vec<(u64, String)>)> {
    w.ev.iter()
        .filter_map(|e| match e {
            Ev::Swap { sender, din, ain, dout, aout, exact_in, pools, .. } if sender == CORE => Some((din.clone(), *ain, dout.clone(), *aout, *exact_in, pools.clone())),
            _ => None,
        })
        .collect()
}
/// stored entries for the default pairs, as the lookup reports them
pub fn read_infos(w: &World, more: &[String]) -> BTreeMap<(String, String), (u64, u128, Option<u64>, Vec<(u64, String)>)> {
    let mut m = BTreeMap::new();
    let mut look = |a: &str, b: &str| {
        if let Ok(GetTradeInfoResponse { trade_info: Some(i) }) = w.qcore::<GetTradeInfoResponse>(CORE, QueryMsg::GetTradeInfo { denom_in: a.into(), denom_out: b.into() }) {
            m.insert((a.to_string(), b.to_string()), (i.cooldown, i.max_trade_amount.u128(), i.last_traded_at, i.routes.0.iter().map(|r| (r.pool_id, r.token_denom.clone())).collect()));
        }
    };
    for a in DENOMS {
        for b in DENOMS {
            look(a, b);
        }
    }
    for d in more {
        if !DENOMS.contains(&d.as_str()) {
            look(d, "uatomo");
            look("uatomo", d);
        }
    }
    m
}
/// the assets a running rebalance sells and buys
pub fn traded(o: &Obs) -> Vec<String> {
    o.reb.iter().flat_map(|r| r.deflation.iter().chain(r.inflation.iter()).map(|x| x.0.clone())).collect()
}
impl Prop for C10 {
    type G = G10;
    fn init(&self, w: &World, o: &Obs) -> G10 {
        G10 { rg: RG::default(), info: read_infos(w, &traded(o)) }
    }
    fn ops(&self, s: &CS<G10>) -> Vec<Op> {
        let (w, o) = (&s.w, &s.o);
        let mut v = vec![];
        let Some(reb) = &o.reb else { return v };
        // without a manager anyone trades, the roles included
        let (who, whi): (&'static str, &'static str) = match (&reb.manager, o.supply % 2) {
            (Some(_), _) => ("manag", "manag"),
            (None, 0) => (GOV, COL),
            (None, _) => (COL, GOV),
        };
        let res = o.cfg.reserve_denom.clone();
        let mut names: Vec<String> = DENOMS.iter().map(|d| d.to_string()).collect();
        names.extend(traded(o).into_iter().filter(|d| !DENOMS.contains(&d.as_str())));
        for d in names.iter().map(|d| d.as_str()) {
            let is_d = reb.deflation.iter().any(|x| x.0 == d);
            if d == res {
                v.push(ex(who, deflate(d, 1, 1), vec![]));
                v.push(ex(who, deflate(d, 1_000_000, 0), vec![]));
                v.push(ex(whi, inflate(d, 1, 1), vec![]));
                v.push(ex(whi, inflate(d, 1_000_000_000, 0), vec![]));
                continue;
            }
            let gp = gap(o, d);
            let m = max_out(w, d, gp);
            let mut outs = vec![1, m / 2, m, m + 1, m + 2];
            if self.max < 1 << 100 {
                outs.extend([self.max, self.max + 1]);
            }
            if !is_d {
                outs = vec![1, 100];
            }
            for a in dedup(outs) {
                if a == 0 {
                    continue;
                }
                v.push(ex(who, deflate(d, a, u128::MAX), vec![]));
                if self.fine && is_d {
                    let p = s.g.info.get(&(d.to_string(), res.clone())).map(|i| i.3.clone()).unwrap_or_default();
                    let rr: Vec<(u64, &str)> = p.iter().map(|x| (x.0, x.1.as_str())).collect();
                    if let Ok(sim) = w.est_out(&rr, &res, a) {
                        v.push(ex(who, deflate(d, a, sim), vec![]));
                        v.push(ex(who, deflate(d, a, sim - 1), vec![]));
                    }
                }
            }
            let sh = s.g.rg.share_units(d);
            let mut ins = vec![1, sh / 2, sh, sh + 1, sh + 2, sh + RG::tol(o.supply) + 1, to128(s.g.rg.total / u256(E18))];
            if self.max < 1 << 100 {
                ins.extend([self.max, self.max + 1]);
            }
            for a in dedup(ins) {
                if a == 0 {
                    continue;
                }
                v.push(ex(whi, inflate(d, a, 0), vec![]));
                if self.fine {
                    let p = s.g.info.get(&(res.clone(), d.to_string())).map(|i| i.3.clone()).unwrap_or_default();
                    let rr: Vec<(u64, &str)> = p.iter().map(|x| (x.0, x.1.as_str())).collect();
                    if let Ok(sim) = w.est_in(&rr, &res, a) {
                        v.push(ex(whi, inflate(d, a, sim), vec![]));
                        v.push(ex(whi, inflate(d, a, sim + 1), vec![]));
                    }
                }
            }
        }
        if self.fine {
            v.push(ex(GOV, trade_info("uatom", &[(5, "uatomo")], 10, 40_000), vec![]));
            v.push(ex(GOV, trade_info("uatomo", &[(1, "uatom"), (4, "Uatom")], 10, 40_000), vec![]));
        }
        let cd = s.g.info.values().map(|i| i.0).max().unwrap_or(0).max(100);
        let cd = if cd > 1_000_000_000 { 100 * YEAR } else { cd };
        for d in [1, cd - 1, cd] {
            v.push(Op::Wait(d));
        }
        v
    }
    fn step(&self, t: &Tx<G10>, st: &mut Stat) -> Result<G10, V> {
        let mut n = t.pre.g.clone();
        let (a, b) = (&t.pre.o, t.o);
        let s = a.supply;
        let res = a.cfg.reserve_denom.clone();
        let now = t.pre.w.time;
        if let Some((_, ExecuteMsg::Gov(GovMsg::UpdateTradeInfo { .. }), _)) = t.exec() {
            n.info = read_infos(t.w, &traded(b));
            return Ok(n);
        }
        let Some((_, ExecuteMsg::Rebalance(RebalanceMsg::Trade(m)), _)) = t.exec() else { return Ok(n) };
        let reb = a.reb.as_ref().unwrap();
        let sw = swaps(t.w);
        let delta = bank_delta(&t.pre.w, t.w);
        if !t.ok() {
            // the share of every inflation asset is available to it
            if let RebalanceTradeMsg::Inflate { target_denom: d, amount_in, min_amount_out } = m {
                let sh = n.rg.share_units(d);
                let a_in = amount_in.u128();
                if let Some((cd, mx, last, p)) = n.info.get(&(res.clone(), d.clone())) {
                    let rr: Vec<(u64, &str)> = p.iter().map(|x| (x.0, x.1.as_str())).collect();
                    let out = t.pre.w.est_in(&rr, &res, a_in).unwrap_or(0);
                    let fits = t.pre.w.slip == 0 && u256(a_in) * u256(E18) + RG::tol_e18(s) <= n.rg.share.get(d).copied().unwrap_or_default() && a_in <= *mx && last.map(|l| now >= l.saturating_add(*cd)).unwrap_or(true) && out > 0 && out >= min_amount_out.u128();
                    if fits && d != &res {
                        viol!("{sh} of the reserve are set aside for {d} in proportion to its weight, but spending {a_in} of it was refused: {:?}", t.res);
                    }
                }
            }
            return Ok(n);
        }
        let key;
        let target;
        match m {
            RebalanceTradeMsg::Deflate { target_denom: d, amount_out, max_amount_in } => {
                target = d.clone();
                key = (d.clone(), res.clone());
                let Some((_, tu)) = reb.deflation.iter().find(|x| &x.0 == d) else { viol!("{d} was deflated but is not among the assets to deflate") };
                let (u0, u1, tu) = (a.unit(d), b.unit(d), tu.atomics().u128());
                ensure!(u1 <= u0, "deflating {d} raised its unit from {u0} to {u1}");
                ensure!(u1 >= tu, "deflating {d} brought its unit to {u1}, below the target {tu}");
                if d == &res {
                    hit(st, "reserve deflated");
                    ensure!(sw.is_empty() && delta.is_empty(), "deflating the reserve asset moved coins: {delta:?}");
                } else {
                    hit(st, "deflating swap");
                    ensure!(sw.len() == 1, "{} swaps for one trade", sw.len());
                    let (din, ain, dout, aout, ..) = &sw[0];
                    ensure!(din == d && dout == &res, "deflating {d} swapped {din} to {dout}");
                    ensure!(*aout == amount_out.u128(), "asked for {amount_out}, the swap gave {aout}");
                    ensure!(*ain <= max_amount_in.u128(), "price limit {max_amount_in} exceeded: paid {ain}");
                    let i = n.info.get(&key);
                    ensure!(i.is_some(), "no route for {key:?}");
                    ensure!(*aout <= i.unwrap().1, "trade of {aout} above the maximum {}", i.unwrap().1);
                    let du = u0 - u1;
                    let lo = to128(u256(*ain) * u256(E18) / u256(s));
                    ensure!(du >= lo && du <= lo + 2, "swap took {ain}{d} (unit {lo}), recorded unit change {du}");
                    let mut e = Bank::new();
                    add(&mut e, CORE, d, -(*ain as i128));
                    add(&mut e, CORE, &res, *aout as i128);
                    ensure!(delta == e, "trade moved {delta:?}, expected {e:?}");
                }
            }
            RebalanceTradeMsg::Inflate { target_denom: d, amount_in, min_amount_out } => {
                target = d.clone();
                key = (res.clone(), d.clone());
                ensure!(reb.inflation.iter().any(|x| &x.0 == d), "{d} was inflated but is not among the assets to inflate");
                let (u0, u1) = (a.unit(d), b.unit(d));
                ensure!(u1 >= u0, "inflating {d} lowered its unit");
                let du = u1 - u0;
                let sh = n.rg.share.get(d).copied().unwrap_or_default();
                let lim = sh + RG::tol_e18(s);
                if d == &res {
                    hit(st, "reserve inflated");
                    ensure!(sw.is_empty() && delta.is_empty(), "inflating the reserve asset moved coins: {delta:?}");
                    ensure!(u256(du) * u256(s) <= lim, "unit of {d} grew by {du} over {s}, set aside was {sh}");
                    ensure!(u256(du) * u256(s) + RG::tol_e18(s) >= sh, "unit of {d} grew by {du} over {s} only, set aside was {sh}");
                } else {
                    hit(st, "inflating swap");
                    ensure!(sw.len() == 1, "{} swaps for one trade", sw.len());
                    let (din, ain, dout, aout, ..) = &sw[0];
                    ensure!(din == &res && dout == d, "inflating {d} swapped {din} to {dout}");
                    ensure!(*ain == amount_in.u128(), "asked to spend {amount_in}, the swap took {ain}");
                    ensure!(*aout >= min_amount_out.u128(), "price limit {min_amount_out} not met: got {aout}");
                    ensure!(u256(*ain) * u256(E18) <= lim, "spent {ain} for {d}, set aside was {}", sh / u256(E18));
                    let i = n.info.get(&key);
                    ensure!(i.is_some(), "no route for {key:?}");
                    ensure!(*ain <= i.unwrap().1, "trade of {ain} above the maximum {}", i.unwrap().1);
                    let lo = to128(u256(*aout) * u256(E18) / u256(s));
                    ensure!(du <= lo && du + 2 >= lo, "swap returned {aout}{d} (unit {lo}), recorded unit change {du}");
                    let mut e = Bank::new();
                    add(&mut e, CORE, &res, -(*ain as i128));
                    add(&mut e, CORE, d, *aout as i128);
                    ensure!(delta == e, "trade moved {delta:?}, expected {e:?}");
                }
            }
        }
        for (d, u0) in a.units.iter().chain(b.units.iter()) {
            if d != &target {
                ensure!(a.unit(d) == b.unit(d), "trading {target} changed the unit of {d} ({u0}) from {} to {}", a.unit(d), b.unit(d));
            }
        }
        ensure!(a.supply == b.supply && a.collected == b.collected, "a trade changed supply or fees");
        if target != res {
            if let Some(i) = n.info.get_mut(&key) {
                if let Some(l) = i.2 {
                    ensure!(now >= l.saturating_add(i.0), "traded {key:?} at {now}, last trade was {l} and the cooldown {}", i.0);
                }
                i.2 = Some(now);
            }
        }
        n.rg = n.rg.update(t);
        Ok(n)
    }
}
pub fn c10(r: &mut Report) {
    let t = r.thorough;
    let mk = |n: u128, us: Us, cd: u64, max: u128, d: &[(&str, &str)], i: &[(&str, &str)]| {
        then(seeded(us, f1(), "uatomo", n, 7), |w| set_routes(w, cd, max)).and_then(|w| rebalancing(w, Some("manag"), d, i))
    };
    let free = |n: u128, us: Us, cd: u64, max: u128, d: &[(&str, &str)], i: &[(&str, &str)]| {
        then(seeded(us, f1(), "uatomo", n, 7), |w| set_routes(w, cd, max)).and_then(|w| rebalancing(w, None, d, i))
    };
    let slip = |w: R<World>| {
        then(w, |w| {
            w.slip = 3;
            Ok(())
        })
    };
    let a = &[("uatom", "0.2"), ("uatomo", "0.3")];
    let b = &[("ibc/uatom", "1.3"), ("Uatom", "0.4")];
    let p = &[("uatom", "0"), ("Uatom", "0.1")];
    let q = &[("uatomo", "1"), ("ibc/uatom", "2")];
    let three = &[("ibc/uatom", "0.000000000000000001"), ("Uatom", "0.000000000000000003"), ("uatomo", "0.000000000000000007")];
    let heavy = &[("ibc/uatom", "340282366920938463463.374607431768211455"), ("Uatom", "340282366920938463463"), ("uatomo", "0.000000000000000007")];
    let two_p: &[(&str, &str)] = &[("uatom", "0.333333333333333333")];
    let ini = inits(vec![
        ("a", mk(1_000_003, U1, 100, 50_000, a, b)),
        ("b", mk(777_777, U4, 100, 50_000, p, q)),
        ("three", mk(1_000_003, U4, 100, 50_000, two_p, three)),
        ("a free", free(1_000_003, U1, 3_600, 50_000, a, b)),
        ("b free", free(777_778, U4, 86_400, 50_000, p, q)),
        ("a over two pools, swaps one unit worse", then(free(1_000_003, U1, 100, 50_000, a, b), |w| {
            w.exec(GOV, CORE, Msg::Core(trade_info("uatom", &[(4, "Uatom"), (2, "uatomo")], 100, 50_000)), &[])?;
            w.exec(GOV, CORE, Msg::Core(trade_info("uatomo", &[(1, "uatom"), (4, "Uatom")], 100, 50_000)), &[])?;
            w.slip = 1;
            Ok(())
        })),
        ("a, swaps worse than estimated", slip(mk(1_000_003, U1, 100, 50_000, a, b))),
    ]);
    let m = CM { name: "limits".into(), inits: ini, p: C10 { fine: true, max: 50_000 } };
    r.bfs(&m, if t { 5 } else { 4 });
    // limits at the ends of their ranges
    for (name, cd, max) in [("nothing may be traded", 0, 0u128), ("one unit per trade", 7, 1), ("years between trades", 3 * YEAR + 1, 50_000), ("never again", u64::MAX, 50_000)] {
        let ini = inits(vec![("a", free(1_000_003, U1, cd, max, a, b)), ("b", mk(777_777, U4, cd, max, p, q))]);
        let m = CM { name: format!("limits, {name}"), inits: ini, p: C10 { fine: true, max } };
        r.bfs(&m, if t { 4 } else { 3 });
    }
    let ini = inits(vec![
        ("a", mk(1_000_003, U1, 0, u128::MAX, a, b)),
        ("a small", mk(9, U1, 0, u128::MAX, a, b)),
        ("a huge", mk(3_000_000_000_000_000_007, U1, 0, u128::MAX, a, b)),
        ("b", mk(777_777, U4, 0, u128::MAX, p, q)),
        ("b small", mk(11, U4, 0, u128::MAX, p, q)),
        ("three", mk(77_777_777, U4, 0, u128::MAX, two_p, three)),
        ("heavy", mk(77_777_777, U4, 0, u128::MAX, two_p, heavy)),
    ]);
    let m = CM { name: "amounts".into(), inits: ini, p: C10 { fine: false, max: u128::MAX } };
    r.bfs(&m, if t { 6 } else { 5 });
    let ini = inits(vec![
        ("14 assets, 5 for 8", wide_rebalancing(14, 1_000_003, Some("manag"), 5, 8, 0, u128::MAX)),
        ("33 assets, 9 for 20", wide_rebalancing(33, 777_777, None, 9, 20, 100, 50_000)),
    ]);
    let m = CM { name: "many assets".into(), inits: ini, p: C10 { fine: false, max: 50_000 } };
    r.bfs(&m, if t { 3 } else { 2 });
}

// ------------------------------------------------------------------ C11
struct C11 {
    waits: Vec<u64>,
    probe: bool,
}
pub const K1: &str = "remainder-worth-less-than-one-unit";
pub const K2: &str = "deflate-route-same-denom";
fn drive(s: &mut CS<RG>, op: Op) -> R<()> {
    let mut w = s.w.clone();
    let res = apply(&mut w, &op);
    if res.is_ok() {
        let o = Obs::of(&w)?;
        let g = s.g.update(&Tx { pre: s, op: &op, res: &res, w: &w, o: &o });
        *s = CS { w, o: Arc::new(o), g };
    }
    res
}
fn leak(s: &str) -> &'static str {
    USERS.iter().chain(["manag", GOV, COL].iter()).find(|x| **x == s).copied().unwrap_or("manag")
}
type Routes = Vec<(u64, String)>;
fn est_in(w: &World, r: &Routes, din: &str, a: u128) -> R<u128> {
    let rr: Vec<(u64, &str)> = r.iter().map(|x| (x.0, x.1.as_str())).collect();
    w.est_in(&rr, din, a)
}
fn est_out(w: &World, r: &Routes, dout: &str, a: u128) -> R<u128> {
    let rr: Vec<(u64, &str)> = r.iter().map(|x| (x.0, x.1.as_str())).collect();
    w.est_out(&rr, dout, a)
}
/// the smallest amount of `dout` the route can deliver, and its cost
fn least_out(w: &World, r: &Routes, dout: &str) -> Option<(u128, u128)> {
    let mut hi = 1u128;
    while est_out(w, r, dout, hi).is_err() {
        hi *= 2;
        if hi > 1 << 60 {
            return None;
        }
    }
    let mut lo = hi / 2; // fails (or 0)
    while hi - lo > 1 {
        let m = (hi + lo) / 2;
        if est_out(w, r, dout, m).is_ok() {
            hi = m
        } else {
            lo = m
        }
    }
    est_out(w, r, dout, hi).ok().map(|x| (hi, x))
}
/// Below this distance from the target the last trades are searched for. Whole-unit costs of small
/// trades are close to multiples of c0 plus a rounding of one, so every distance of about c0^2 or
/// more is a sum of such costs. None: too many trades would be needed to search.
fn end_zone(c0: u128) -> Option<u128> {
    if c0 > 16 {
        return None;
    }
    Some(2 * c0 * c0 + 24)
}
#[allow(clippy::too_many_arguments)]
fn hit_target(s: &CS<RG>, d: &str, res: &str, who: &'static str, r: &Routes, mx: u128, cd: u64, zone: u128, memo: &mut std::collections::BTreeSet<u128>) -> Option<(CS<RG>, u32)> {
    let gp = gap(&s.o, d);
    if gp == 0 {
        return Some((s.clone(), 0));
    }
    if gp > zone || !memo.insert(gp) {
        return None;
    }
    let mut costs = vec![];
    for a in 1..=gp.min(mx) {
        match est_out(&s.w, r, res, a) {
            Ok(x) if x > gp => break,
            Ok(x) => costs.push((a, x)),
            Err(_) => {}
        }
    }
    for (a, _) in costs.into_iter().rev() {
        let mut n = s.clone();
        if drive(&mut n, ex(who, deflate(d, a, u128::MAX), vec![])).is_err() {
            continue;
        }
        if cd > 0 {
            let _ = drive(&mut n, Op::Wait(cd));
        }
        if let Some((e, k)) = hit_target(&n, d, res, who, r, mx, cd, zone, memo) {
            return Some((e, k + 1));
        }
    }
    None
}
/// Tries to trade a running rebalance to its end. Err((known class?, explanation)).
/// the state after a rebalance has been traded to its end
pub fn finished(w: R<World>) -> R<World> {
    let w = w?;
    let o = Obs::of(&w)?;
    complete_run(&CS { w, o: Arc::new(o), g: RG::default() }).map(|x| x.1.w).map_err(|e| e.1)
}
fn complete_run(s0: &CS<RG>) -> Result<(u32, CS<RG>), (bool, String)> {
    let mut s = s0.clone();
    let who = leak(mgr(&s.o).as_deref().unwrap_or("manag"));
    let res = s.o.cfg.reserve_denom.clone();
    let mut steps = 0;
    for _round in 0..600 {
        let Some(reb) = s.o.reb.clone() else { return Ok((steps, s)) };
        let last = match drive(&mut s, ex(who, finalize(), vec![])) {
            Ok(()) => return Ok((steps + 1, s)),
            Err(e) => e,
        };
        let mut progress = false;
        let infos = read_infos(&s.w, &traded(&s.o));
        let mut cool = 0;
        for (d, _) in &reb.deflation {
            if d == &res {
                if s.o.unit(d) > reb.deflation.iter().find(|x| &x.0 == d).unwrap().1.atomics().u128() && drive(&mut s, ex(who, deflate(d, 1, u128::MAX), vec![])).is_ok() {
                    progress = true;
                    steps += 1;
                }
                continue;
            }
            let gp = gap(&s.o, d);
            let Some((cd, mx, lt, r)) = infos.get(&(d.clone(), res.clone())) else { continue };
            if gp == 0 {
                continue;
            }
            if lt.map(|l| s.w.time < l + cd).unwrap_or(false) {
                cool = cool.max(*cd);
                continue;
            }
            let Some((a0, c0)) = least_out(&s.w, r, &res) else { continue };
            if c0 > gp {
                continue;
            }
            let small = end_zone(c0);
            if let (Some(t), true) = (small, gp <= small.unwrap_or(0)) {
                // the last base units: search for trades that hit the target exactly
                let mut memo = std::collections::BTreeSet::new();
                if let Some((n, k)) = hit_target(&s, d, &res, who, r, *mx, *cd, t, &mut memo) {
                    s = n;
                    steps += k;
                    progress = true;
                }
                continue;
            }
            let leave = small.map(|t| t * 3 / 4).unwrap_or(0);
            // the pool may be too small for the whole gap at once
            let mut m = 0;
            let mut x = gp - leave.min(gp);
            while x > 0 {
                if let Ok(v) = est_in(&s.w, r, d, x) {
                    m = v;
                    break;
                }
                x /= 2;
            }
            if let (Some(zone), true) = (small, m <= *mx) {
                // one or two large trades into the end zone from which the target can be hit
                let mut done = None;
                for j in 0..8u128 {
                    let mut n = s.clone();
                    let mut k = 0;
                    let mut parts = vec![];
                    if j > 0 {
                        parts.push(m * j / 9);
                    }
                    parts.push(m);
                    for (i, x) in parts.iter().enumerate() {
                        let mut x = *x;
                        if i > 0 || j == 0 {
                            x = est_in(&n.w, r, d, gap(&n.o, d).saturating_sub(leave + j)).unwrap_or(0);
                        }
                        if x > 0 && drive(&mut n, ex(who, deflate(d, x, u128::MAX), vec![])).is_ok() {
                            k += 1;
                        }
                        if *cd > 0 {
                            let _ = drive(&mut n, Op::Wait(*cd));
                        }
                    }
                    if let Some((e, k2)) = hit_target(&n, d, &res, who, r, *mx, *cd, zone, &mut Default::default()) {
                        done = Some((e, k + k2));
                        break;
                    }
                }
                if let Some((e, k)) = done {
                    s = e;
                    steps += k;
                    progress = true;
                    continue;
                }
            }
            let m = m.min(*mx);
            let mut c: Vec<u128> = (0..4).map(|k| m.saturating_sub(k)).collect();
            c.extend([m / 2, m / 8, 1, a0]);
            for a in c {
                if a > 0 && drive(&mut s, ex(who, deflate(d, a, u128::MAX), vec![])).is_ok() {
                    progress = true;
                    steps += 1;
                    break;
                }
            }
        }
        // spend reserves only when nothing is left to sell (all proceeds of a share at once)
        if !progress && cool == 0 {
            let infos = read_infos(&s.w, &traded(&s.o));
            for (d, _) in &reb.inflation {
                let tol = RG::tol(s.o.supply);
                // the contract's 18-decimal share may be whole where the exact one is just below
                let (sh, at_most) = (s.g.share_units(d), s.g.nearly(d, s.o.supply));
                if d == &res {
                    let before = s.o.unit(d);
                    if drive(&mut s, ex(who, inflate(d, 1, 0), vec![])).is_ok() && s.o.unit(d) > before {
                        progress = true;
                        steps += 1;
                    }
                    continue;
                }
                let Some((cd, mx, lt, r)) = infos.get(&(s.o.cfg.reserve_denom.clone(), d.clone())) else { continue };
                if at_most == 0 {
                    continue;
                }
                if lt.map(|l| s.w.time < l + cd).unwrap_or(false) {
                    cool = cool.max(*cd);
                    continue;
                }
                let mut c: Vec<u128> = vec![];
                let top = sh + tol;
                for k in 0..=2 * tol.min(40) {
                    c.push(top.saturating_sub(k).min(*mx));
                }
                c.extend((0..12).map(|j| sh.saturating_sub(tol + (1 << j)).min(*mx)));
                c.extend([sh / 2, sh / 8]);
                let _ = r;
                for a in dedup(c) {
                    if a > 0 && drive(&mut s, ex(who, inflate(d, a, 0), vec![])).is_ok() {
                        progress = true;
                        steps += 1;
                        break;
                    }
                }
            }
        }
        if !progress && cool > 0 {
            let _ = drive(&mut s, Op::Wait(cool));
            progress = true;
        }
        if !progress {
            // stuck: is every obstacle a remainder that no swap can turn into one base unit?
            let mut small = 0;
            let mut other = vec![];
            for (d, _) in &reb.deflation {
                let gp = gap(&s.o, d);
                if gp == 0 || d == &res {
                    continue;
                }
                let r = infos.get(&(d.clone(), res.clone())).map(|i| i.3.clone()).unwrap_or_default();
                match least_out(&s.w, &r, &res) {
                    Some((_, x)) if x > gp => small += 1,
                    // no combination of trades hits the target exactly - and none did when it was
                    // still far enough away
                    Some((_, x)) if end_zone(x).map(|t| gap(&s0.o, d) <= t).unwrap_or(true) => small += 1,
                    x => other.push(format!("{gp}{d} above the target, least trade is {x:?}")),
                }
            }
            for (d, _) in &reb.inflation {
                let (sh, at_most) = (s.g.share_units(d), s.g.nearly(d, s.o.supply));
                if at_most == 0 || d == &res {
                    continue;
                }
                let r = infos.get(&(res.clone(), d.clone())).map(|i| i.3.clone()).unwrap_or_default();
                let at_least = sh.saturating_sub(at_most - sh);
                match est_in(&s.w, &r, &res, at_most).and_then(|x| if at_least > 0 { est_in(&s.w, &r, &res, at_least) } else { Ok(x) }) {
                    Err(_) | Ok(0) => small += 1,
                    // within the rounding between exact shares and 18-decimal units
                    _ if sh <= RG::tol(s.o.supply) => {}
                    x => other.push(format!("{sh}{res} set aside for {d}, worth {x:?}")),
                }
            }
            let class = small > 0 && other.is_empty();
            return Err((class, format!("stuck after {steps} trades: {last}; remainders too small to swap: {small}; other obstacles: {other:?}; set aside (e-18): {:?}", s.g.share.iter().map(|x| format!("{} {}", x.0, x.1)).collect::<Vec<_>>())));
        }
    }
    Err((false, format!("not finished after 600 rounds and {steps} trades")))
}
impl Prop for C11 {
    type G = RG;
    fn init(&self, _: &World, _: &Obs) -> RG {
        RG::default()
    }
    fn ops(&self, s: &CS<RG>) -> Vec<Op> {
        let (w, o) = (&s.w, &s.o);
        let mut v = vec![];
        let Some(reb) = &o.reb else { return v };
        let who = leak(mgr(o).as_deref().unwrap_or("manag"));
        for (d, _) in &reb.deflation {
            let m = max_out(w, d, gap(o, d));
            for a in dedup(vec![1, m / 3, m.saturating_sub(1), m, m + 1]) {
                if a > 0 {
                    v.push(ex(who, deflate(d, a, u128::MAX), vec![]));
                }
                if *d == o.cfg.reserve_denom {
                    break;
                }
            }
        }
        for (d, _) in &reb.inflation {
            let m = s.g.share_units(d);
            for a in dedup(vec![1, m / 2, m.saturating_sub(1), m, m + 1]) {
                if a > 0 {
                    v.push(ex(who, inflate(d, a, 0), vec![]));
                }
                if *d == o.cfg.reserve_denom {
                    break;
                }
            }
        }
        v.push(ex(who, finalize(), vec![]));
        for d in &self.waits {
            v.push(Op::Wait(*d));
        }
        v
    }
    fn step(&self, t: &Tx<RG>, st: &mut Stat) -> Result<RG, V> {
        let (a, b) = (&t.pre.o, t.o);
        if let (true, Some((_, ExecuteMsg::Rebalance(RebalanceMsg::Finalize {}), _))) = (t.ok(), t.exec()) {
            let s = a.supply;
            let reb = a.reb.as_ref().unwrap();
            let dust = |du: u128| u256(du) * u256(s) < u256(E18) && s > 0;
            for (d, tu) in &reb.deflation {
                let (u, tu) = (a.unit(d), tu.atomics().u128());
                ensure!(u <= tu || dust(u - tu), "finalized although {d} has unit {u}, above its target {tu} (supply {s})");
            }
            for (d, sh) in &t.pre.g.share {
                ensure!(*sh < u256(E18) + RG::tol_e18(s), "finalized although {} of the reserve are still set aside for {d}", *sh / u256(E18));
            }
            ensure!(t.pre.g.total < (u256(E18) + RG::tol_e18(s)) * u256(reb.inflation.len() as u128), "finalized although {} of the reserve are unspent", t.pre.g.total / u256(E18));
            for (d, u0) in &a.units {
                let u1 = b.unit(d);
                let sold = reb.deflation.iter().any(|x| &x.0 == d);
                ensure!(u1.abs_diff(*u0) == 0 || (sold && u1 < *u0 && dust(u0 - u1)), "finalize changed the unit of {d} from {u0} to {u1}");
            }
            for (d, u1) in &b.units {
                ensure!(*u1 > 0, "{d} remains in the portfolio with zero unit");
                ensure!(a.units.iter().any(|x| &x.0 == d), "{d} appeared in the portfolio");
            }
            ensure!(bank_delta(&t.pre.w, t.w).is_empty(), "finalize moved coins");
            hit(st, if a.units.len() == b.units.len() { "finalized" } else { "finalized, assets removed" });
        }
        Ok(t.pre.g.update(t))
    }
    fn check(&self, s: &CS<RG>, st: &mut Stat) -> Result<(), V> {
        if !self.probe || s.o.reb.is_none() || s.o.supply == 0 {
            return Ok(());
        }
        match complete_run(s) {
            Ok((n, end)) => {
                for (d, u) in &end.o.units {
                    ensure!(*u > 0, "{d} remains in the portfolio with zero unit after the rebalance was brought to its end");
                }
                hit(st, format!("completed in {} trades", if n > 6 { ">6".into() } else { n.to_string() }));
                Ok(())
            }
            Err((class, e)) => {
                let key = if class {
                    K1
                } else if s.w.strict_routes && e.contains("other obstacles") {
                    K2
                } else {
                    ""
                };
                Err(V { key: key.into(), msg: format!("running rebalance cannot be brought to its end: {e}") })
            }
        }
    }
}
/// assets with units far below those of their neighbours
const US: Us = &[("uatom", "1"), ("Uatom", "0.00000001"), ("ibc/uatom", "0.000000000000000001")];
pub fn c11(r: &mut Report) {
    let t = r.thorough;
    let mk = |n: u128, us: Us, cd: u64, max: u128, d: &[(&str, &str)], i: &[(&str, &str)]| {
        then(seeded(us, f1(), "uatomo", n, 7), |w| set_routes(w, cd, max)).and_then(|w| rebalancing(w, Some("manag"), d, i))
    };
    let idle = |n: u128, us: Us, dt: u64, d: &[(&str, &str)], i: &[(&str, &str)]| {
        then(seeded(us, f1(), "uatomo", n, 7), |w| {
            w.wait(dt);
            Ok(())
        })
        .and_then(|w| rebalancing(w, None, d, i))
    };
    let a: &[(&str, &str)] = &[("uatom", "0.2"), ("uatomo", "0.3")];
    let a_: &[(&str, &str)] = &[("uatom", "0.2")];
    let b: &[(&str, &str)] = &[("ibc/uatom", "1.3"), ("Uatom", "0.4")];
    let p: &[(&str, &str)] = &[("uatom", "0"), ("Uatom", "0.1")];
    let q: &[(&str, &str)] = &[("uatomo", "1"), ("ibc/uatom", "2")];
    let third: &[(&str, &str)] = &[("uatom", "0.333333333333333333")];
    let three: &[(&str, &str)] = &[("ibc/uatom", "0.000000000000000001"), ("Uatom", "0.000000000000000003"), ("uatomo", "0.000000000000000007")];
    let ini = inits(vec![
        ("a", mk(1_000_003, U1, 0, u128::MAX, a, b)),
        ("a only", mk(1_000_003, U1, 0, u128::MAX, a_, b)),
        ("a limits", mk(1_000_003, U1, 100, 120_000, a, b)),
        ("b", mk(777_777, U4, 0, u128::MAX, p, q)),
        ("three", mk(77_777_777, U4, 0, u128::MAX, third, three)),
        ("huge", mk(300_000_000_017, U1, 0, u128::MAX, a, b)),
        ("odd", idle(123_457, U2, 1_000_003, &[("uatom", "0.1"), ("Uatom", "0.0000001")], &[("ibc/uatom", "1"), ("uatomo", "0.000001")])),
        ("idle", idle(1_000_003, U5, 9_999_999, &[("uatom", "0.2"), ("ibc/uatom", "0")], &[("Uatom", "1"), ("uatomo", "1.3")])),
        ("remove all", idle(50_021, U4, 7_777, &[("uatom", "0"), ("Uatom", "0")], &[("uatomo", "1")])),
    ]);
    let m = CM { name: "completion".into(), inits: ini, p: C11 { waits: vec![50], probe: true } };
    r.bfs(&m, if t { 5 } else { 4 });
    // supply above 1e18: one atomic of a unit is worth several base units
    let big = |n: u128, d: &[(&str, &str)], i: &[(&str, &str)], us: Us| {
        then(seeded(us, f0(), "uatomo", n, 7), |w| {
            for (id, x) in [(1, "uatom"), (2, "Uatom"), (3, "ibc/uatom")] {
                w.add_pool(id, PoolKind::Weighted, 3_000_000_000_000_000, &[(x, 1_000_000_000_000_000_000_000_000, 1), ("uatomo", 1_100_000_000_000_000_000_000_000, 1)]);
            }
            Ok(())
        })
        .and_then(|w| rebalancing(w, None, d, i))
    };
    let ini = inits(vec![
        ("3e18", big(3_000_000_000_000_000_007, a, b, U1)),
        ("7e18", big(7_777_777_777_777_777_777, p, q, U4)),
        ("1e18-", big(999_999_999_999_999_989, third, three, U4)),
    ]);
    let m = CM { name: "large supply".into(), inits: ini, p: C11 { waits: vec![], probe: true } };
    r.bfs(&m, if t { 4 } else { 3 });
    let ini = inits(vec![
        ("14 assets, 5 for 8", wide_rebalancing(14, 1_000_003, Some("manag"), 5, 8, 0, u128::MAX)),
        ("33 assets, 9 for 20", wide_rebalancing(33, 777_777, None, 9, 20, 100, 2_000_000)),
    ]);
    let m = CM { name: "many assets".into(), inits: ini, p: C11 { waits: vec![100], probe: true } };
    r.bfs(&m, if t { 2 } else { 1 });
    // every operation sequence down to finalize, without the completion probe
    let ini = inits(vec![
        ("a only", mk(1_000_003, U1, 0, u128::MAX, a_, &[("ibc/uatom", "1")])),
        ("reserve", mk(1_000_003, U1, 0, u128::MAX, &[("uatomo", "0.3")], &[("ibc/uatom", "1")])),
        ("reserve to nothing", mk(1_000_003, U1, 0, u128::MAX, &[("uatomo", "0")], &[("ibc/uatom", "1"), ("Uatom", "3")])),
        ("b", mk(777_777, U4, 0, u128::MAX, p, q)),
        ("small bystanders", mk(1_000_000_000_000, US, 0, u128::MAX, &[("uatom", "0.5")], &[("uatomo", "1")])),
        ("smallest bystander", big(3_000_000_000_000_000_007, &[("uatom", "0.6")], &[("uatomo", "1")], US)),
        ("to next to nothing", mk(1_000_000_000_000, U1, 0, u128::MAX, &[("uatomo", "0.000000000001")], &[("ibc/uatom", "1")])),
        ("to a dust target", mk(10_007, U1, 0, u128::MAX, &[("uatomo", "0.000000000000000001")], &[("ibc/uatom", "1")])),
        ("zero", mk(777_777, U5, 0, u128::MAX, &[("ibc/uatom", "0")], &[("Uatom", "1")])),
        ("zero bystander", mk(777_777, U5, 0, u128::MAX, &[("uatom", "0.2")], &[("uatomo", "1")])),
        ("zero remains zero", mk(777_777, U5, 0, u128::MAX, &[("uatom", "0.49")], &[("ibc/uatom", "0.000000000000000001"), ("uatomo", "1")])),
    ]);
    let m = CM { name: "finalize".into(), inits: ini, p: C11 { waits: vec![], probe: false } };
    r.bfs(&m, if t { 7 } else { 6 });
    // without supply nothing can be traded: a rebalance that starts must be able to end as it is
    let empty = inits(vec![
        ("fresh", then(genesis(U5, f1(), "uatomo"), |w| set_routes(w, 0, u128::MAX))),
        ("fresh, no fees", then(genesis(U1, f0(), "uatom"), |w| set_routes(w, 0, u128::MAX))),
        ("all burned", then(seeded(U5, f0(), "uatomo", 5000, 0), burn_all)),
        ("all burned after a year", then(seeded(U1, f0(), "uatomo", 1, 0), |w| {
            burn_all(w)?;
            w.wait(YEAR);
            Ok(())
        })),
    ]);
    let mut pts = vec![];
    for i in 0..empty.len() {
        for d in ["uatomo", "uatom", "Uatom", "ibc/uatom"] {
            for k in 0..4 {
                for x in ["uatomo", "uatom", "Uatom", "ibc/uatom", "uzzz"] {
                    for m in [None, Some("manag")] {
                        pts.push((i, d, k, x, m));
                    }
                }
            }
        }
    }
    r.grid("without supply", &pts, |(i, d, k, x, m), st| {
        let mut w = empty[*i].1.clone();
        let o = Obs::of(&w).map_err(|e| V { key: String::new(), msg: e })?;
        let u = o.unit(d);
        let tgt = raw([0, u / 2, u, u.saturating_sub(1)][*k]).to_string();
        let started = w.exec(GOV, CORE, Msg::Core(reb_init(*m, &[(d, &tgt)], &[(x, "1")])), &[]).is_ok();
        hit(st, if started { "started without supply" } else { "refused without supply" });
        if started {
            let e = w.exec("manag", CORE, Msg::Core(finalize()), &[]);
            ensure!(e.is_ok(), "a rebalance started without supply can never be finalized: {e:?}");
        }
        let f = sorted(o.required(1_000_003));
        let e = w.exec("alice", CORE, Msg::Core(mint(1_000_003)), &f);
        ensure!(e.is_ok(), "nothing can be minted any more: {e:?}");
        Ok(1)
    });
    // the chain refuses a swap whose routes start with the output denom
    let ini = inits(vec![(
        "strict chain",
        then(mk(1_000_003, U1, 0, u128::MAX, a_, &[("ibc/uatom", "1")]), |w| {
            w.strict_routes = true;
            Ok(())
        }),
    )]);
    let m = CM { name: "strict routes".into(), inits: ini, p: C11 { waits: vec![], probe: true } };
    r.bfs(&m, 1);
}
