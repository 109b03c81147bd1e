//! C12 simulations, C13 trade routes, C14 liveness of redemption, C15 migration.
use super::fees::U5;
use super::ledger::*;
use super::*;

fn q<T: serde::de::DeserializeOwned>(w: &World, m: QueryMsg) -> R<T> {
    w.qcore(CORE, m)
}
fn map(v: &[Coin]) -> BTreeMap<String, u128> {
    let mut m = BTreeMap::new();
    for x in v {
        *m.entry(x.denom.clone()).or_insert(0) += x.amount.u128();
    }
    m.retain(|_, n| *n > 0);
    m
}
fn paid(w: &World, from: &str, to: &str) -> BTreeMap<String, u128> {
    let mut m = BTreeMap::new();
    for e in &w.ev {
        if let Ev::Transfer { from: f, to: t, denom, amount } = e {
            if f == from && t == to {
                *m.entry(denom.clone()).or_insert(0) += amount;
            }
        }
    }
    m.retain(|_, n| *n > 0);
    m
}

// ------------------------------------------------------------------ C12
struct C12 {
    l: LedgerOps,
    amounts: Vec<u128>,
    future: Vec<u64>,
}
impl C12 {
    fn mints(&self, s: &CS<RG>, st: &mut Stat) -> Result<(), V> {
        let (w, o) = (&s.w, &s.o);
        for n in &self.amounts {
            let req = sorted(o.required(*n));
            let mut shapes: Vec<Option<Vec<Coin>>> = vec![None, Some(req.clone()), Some(plus(req.clone(), 3))];
            for i in 0..req.len() {
                let mut f = req.clone();
                f[i].amount -= Uint128::one();
                if !f[i].amount.is_zero() {
                    shapes.push(Some(f));
                }
                let mut f = req.clone();
                f.remove(i);
                shapes.push(Some(f));
                let mut f = req.clone();
                f[i].amount += Uint128::from(1_000_000u128);
                shapes.push(Some(f));
            }
            shapes.push(Some(vec![]));
            shapes.push(Some(sorted([req.clone(), vec![c(1, "ujunk")]].concat())));
            for f in shapes {
                let sim = |w: &World, t: Option<u64>| q::<SimulateMintResponse>(w, QueryMsg::SimulateMint { amount: (*n).into(), funds: f.clone(), time: t });
                let r = sim(w, None);
                let r2 = sim(w, Some(w.time));
                ensure!(r.as_ref().ok() == r2.as_ref().ok(), "mint simulation at the current time differs: {r:?} and {r2:?}");
                if o.paused() || o.reb.is_some() {
                    continue;
                }
                let funds = match (&f, &r) {
                    (Some(f), _) => f.clone(),
                    (None, Ok(r)) => sorted(r.fund_spent.clone()),
                    _ => continue,
                };
                let mut w2 = w.clone();
                let e = w2.exec("alice", CORE, Msg::Core(mint(*n)), &funds);
                match (&r, &e) {
                    (Ok(r), Ok(())) => {
                        hit(st, "mint predicted");
                        let got = w2.bal("alice", o.index()) - w.bal("alice", o.index());
                        ensure!(got == r.mint_amount.u128(), "mint of {n} predicted {} index tokens, gave {got}", r.mint_amount);
                        let back = paid(&w2, CORE, "alice");
                        let mut back = back;
                        back.remove(o.index());
                        ensure!(back == map(&r.refund_amount), "mint of {n} with {funds:?} predicted the refund {:?}, paid {back:?}", r.refund_amount);
                        let mut spent = map(&funds);
                        for (d, x) in &back {
                            *spent.entry(d.clone()).or_insert(0) -= x;
                        }
                        spent.retain(|_, x| *x > 0);
                        ensure!(spent == map(&r.fund_spent), "mint of {n} predicted to spend {:?}, spent {spent:?}", r.fund_spent);
                    }
                    (Ok(r), Err(e)) => {
                        // tokenfactory does not mint zero coins to the receiver
                        if r.mint_amount.is_zero() {
                            hit(st, "mint of nothing after fees");
                            continue;
                        }
                        viol!("mint of {n} with {funds:?} was predicted as {r:?}, execution fails: {e}");
                    }
                    (Err(e), Ok(())) => viol!("mint of {n} with {funds:?} was predicted to fail ({e}), execution succeeds"),
                    (Err(_), Err(_)) => hit(st, "mint failure predicted"),
                }
            }
        }
        Ok(())
    }
    fn burns(&self, s: &CS<RG>, st: &mut Stat) -> Result<(), V> {
        let (w, o) = (&s.w, &s.o);
        for who in ["alice", "bobby", COL] {
            let b = w.bal(who, o.index());
            for n in dedup([vec![1, 2, b / 2, b], self.amounts.clone()].concat()) {
                if n == 0 || n > b {
                    continue;
                }
                let sim = |t: Option<u64>| q::<SimulateBurnResponse>(w, QueryMsg::SimulateBurn { amount: n.into(), time: t });
                let r = sim(None);
                let r2 = sim(Some(w.time));
                ensure!(r.as_ref().ok() == r2.as_ref().ok(), "burn simulation at the current time differs: {r:?} and {r2:?}");
                if o.paused() || o.reb.is_some() {
                    continue;
                }
                let mut w2 = w.clone();
                let e = w2.exec(who, CORE, Msg::Core(burn()), &[c(n, o.index())]);
                match (&r, &e) {
                    (Ok(r), Ok(())) => {
                        hit(st, "burn predicted");
                        let got = paid(&w2, CORE, who);
                        let mut want = map(&r.redeem_amount);
                        let destroyed = chain_supply(w, o.index()) - chain_supply(&w2, o.index());
                        ensure!(destroyed == r.burn_amount.u128(), "burn of {n} predicted to destroy {}, destroyed {destroyed}", r.burn_amount);
                        if who == COL && n > destroyed {
                            // the collector receives the fee of its own burn as well
                            *want.entry(o.index().to_string()).or_insert(0) += n - destroyed;
                        }
                        ensure!(got == want, "burn of {n} predicted to pay {want:?}, paid {got:?}");
                    }
                    (Ok(r), Err(e)) => viol!("burn of {n} by {who} was predicted as {r:?}, execution fails: {e}"),
                    (Err(e), Ok(())) => viol!("burn of {n} by {who} was predicted to fail ({e}), execution succeeds"),
                    _ => hit(st, "burn failure predicted"),
                }
            }
        }
        Ok(())
    }
    fn future(&self, s: &CS<RG>, st: &mut Stat) -> Result<(), V> {
        let (w, o) = (&s.w, &s.o);
        for dt in &self.future {
            let t = w.time + dt;
            let f: R<GetFeeResponse> = q(w, QueryMsg::GetFee { time: Some(t) });
            let p: R<GetPortfolioResponse> = q(w, QueryMsg::GetPortfolio { time: Some(t) });
            let mut w2 = w.clone();
            w2.wait(*dt);
            let (Ok(f), Ok(p)) = (&f, &p) else { viol!("fee or portfolio query for {dt} s ahead fails: {f:?} {p:?}") };
            let f2: GetFeeResponse = q(&w2, QueryMsg::GetFee { time: None }).map_err(|e| V { key: "".into(), msg: e })?;
            let p2: GetPortfolioResponse = q(&w2, QueryMsg::GetPortfolio { time: None }).map_err(|e| V { key: "".into(), msg: e })?;
            ensure!(f == &f2, "fee query for {dt} s ahead: {f:?}, at that time: {f2:?}");
            ensure!(p == &p2, "portfolio query for {dt} s ahead: {p:?}, at that time: {p2:?}");
            for n in &self.amounts {
                let m = |w: &World, t: Option<u64>| q::<SimulateMintResponse>(w, QueryMsg::SimulateMint { amount: (*n).into(), funds: None, time: t });
                let b = |w: &World, t: Option<u64>| q::<SimulateBurnResponse>(w, QueryMsg::SimulateBurn { amount: (*n).into(), time: t });
                let (x, y) = (m(w, Some(t)), m(&w2, None));
                ensure!(x.as_ref().ok() == y.as_ref().ok(), "mint simulation of {n} for {dt} s ahead: {x:?}, at that time: {y:?}");
                let (x, y) = (b(w, Some(t)), b(&w2, None));
                ensure!(x.as_ref().ok() == y.as_ref().ok(), "burn simulation of {n} for {dt} s ahead: {x:?}, at that time: {y:?}");
            }
            let (pu, pc) = (units(p), collected(f));
            // the redemption value the query reports
            for ((d, u), a) in pu.iter().zip(p.assets.iter()) {
                ensure!(&a.denom == d && a.amount.u128() == mulf(*u, p.total_supply.u128()), "portfolio query reports {a} for unit {u} of {d} and supply {}", p.total_supply);
            }
            // every operation that accounts fees
            let col: &'static str = if o.fee.collector.as_str() == COL { COL } else { "colle2" };
            let mut trig: Vec<(&str, &'static str, ExecuteMsg, Vec<Coin>)> = vec![("realize", col, ExecuteMsg::Realize {}, vec![])];
            let next = Obs::of(&w2).map_err(|e| V { key: "".into(), msg: e })?;
            if !next.paused() && next.reb.is_none() {
                trig.push(("mint", "alice", mint(1000), sorted(next.required(1000))));
                if w2.bal("alice", o.index()) > 0 {
                    trig.push(("burn", "alice", burn(), vec![c(1, o.index())]));
                }
            }
            if o.reb.is_none() {
                trig.push(("fee update", GOV, ExecuteMsg::Gov(GovMsg::UpdateFeeStrategy(f2_same(o))), vec![]));
                if let Some((d, _)) = o.units.first() {
                    let other = DENOMS.iter().find(|x| *x != d).unwrap();
                    trig.push(("rebalance start", GOV, reb_init(None, &[(d, "0")], &[(other, "1")]), vec![]));
                }
            }
            for (k, who, m, funds) in trig {
                let mut w3 = w2.clone();
                if w3.exec(who, CORE, Msg::Core(m), &funds).is_err() {
                    hit(st, format!("accounting by {k} refused"));
                    continue;
                }
                hit(st, format!("accounted by {k}"));
                let f3: GetFeeResponse = q(&w3, QueryMsg::GetFee { time: None }).map_err(|e| V { key: "".into(), msg: e })?;
                let p3: GetPortfolioResponse = q(&w3, QueryMsg::GetPortfolio { time: None }).map_err(|e| V { key: "".into(), msg: e })?;
                ensure!(units(&p3) == pu, "query for {dt} s ahead promised units {pu:?}, accounting by {k} then left {:?}", units(&p3));
                if k == "realize" || k == "fee update" {
                    let mut got = paid(&w3, CORE, o.fee.collector.as_str());
                    for (d, x) in collected(&f3) {
                        *got.entry(d).or_insert(0) += x;
                    }
                    ensure!(got == pc, "query for {dt} s ahead promised fees {pc:?}, {k} then paid {got:?}");
                } else {
                    ensure!(collected(&f3) == pc, "query for {dt} s ahead promised fees {pc:?}, accounting by {k} then left {:?}", collected(&f3));
                }
            }
        }
        Ok(())
    }
}
/// the fee settings in force, as an update
fn f2_same(o: &Obs) -> FeePayload {
    FeePayload {
        collector: o.fee.collector.to_string(),
        mint_fee: o.fee.mint_fee,
        burn_fee: o.fee.burn_fee,
        streaming_fee: o.fee.streaming_fee.as_ref().map(|s| StreamingFeePayload { rate: s.rate, freeze: s.freeze }),
    }
}
impl Prop for C12 {
    type G = RG;
    fn init(&self, _: &World, _: &Obs) -> RG {
        RG::default()
    }
    fn ops(&self, s: &CS<RG>) -> Vec<Op> {
        ledger_ops(&s.w, &s.o, &s.g, &self.l)
    }
    fn step(&self, t: &Tx<RG>, _: &mut Stat) -> Result<RG, V> {
        Ok(t.pre.g.update(t))
    }
    fn check(&self, s: &CS<RG>, st: &mut Stat) -> Result<(), V> {
        self.mints(s, st)?;
        self.burns(s, st)?;
        self.future(s, st)
    }
}
pub fn c12(r: &mut Report) {
    let t = r.thorough;
    let mk = |lean: bool| {
        let mut l = std_ops();
        l.lean = lean;
        l.fees.push(f3());
        C12 { l, amounts: vec![1, 2, 99, 1000, 1_000_003], future: vec![0, 1, 86_400, YEAR, 60 * YEAR] }
    };
    let m = CM { name: "ledger".into(), inits: ledger_inits(true), p: mk(true) };
    r.bfs(&m, if t { 4 } else { 3 });
    let mut ri = reb_inits();
    ri.extend(inits(vec![("zero unit", seeded(U5, f2(), "uatomo", 100_003, 2)), ("paused", then(seeded(U1, f1(), "uatomo", 1000, 7), |w| w.exec(GOV, CORE, Msg::Core(ExecuteMsg::Gov(GovMsg::Pause { expires_at: Some(T0 + 50_000) })), &[])))]));
    ri.extend(after_reb_inits());
    let m = CM { name: "many assets".into(), inits: wide_inits(), p: mk(true) };
    r.bfs(&m, if t { 2 } else { 1 });
    let m = CM { name: "rebalance".into(), inits: ri, p: mk(true) };
    r.bfs(&m, if t { 4 } else { 3 });
}

// ------------------------------------------------------------------ C13
type Entry = (u64, u128, Option<u64>, Vec<(u64, String)>);
type Book = BTreeMap<(String, String), Entry>;
struct C13;
fn entry(p: &TradeInfoPayload) -> Entry {
    (p.cooldown, p.max_trade_amount.u128(), p.last_traded_at, p.routes.0.iter().map(|r| (r.pool_id, r.token_denom.clone())).collect())
}
const NAMES: [&str; 10] = ["uatomo", "uatom", "Uatom", "ibc/uatom", "u", "uatomx", "ibc/27", "zzz", "uato", ""];
fn listing(w: &World, book: &Book, st: &mut Stat) -> Result<(), V> {
    let mut ins: Vec<String> = NAMES.iter().map(|s| s.to_string()).collect();
    let mut outs = ins.clone();
    for (a, b) in book.keys() {
        ins.push(a.clone());
        outs.push(b.clone());
    }
    let ins = {
        ins.sort();
        ins.dedup();
        ins
    };
    outs.sort();
    outs.dedup();
    for a in &ins {
        for b in &outs {
            let g: GetTradeInfoResponse = q(w, QueryMsg::GetTradeInfo { denom_in: a.clone(), denom_out: b.clone() }).map_err(|e| V { key: "".into(), msg: format!("lookup fails: {e}") })?;
            let want = book.get(&(a.clone(), b.clone()));
            match (&g.trade_info, want) {
                (None, None) => {}
                (Some(p), Some(e)) => ensure!(&entry(p) == e && &p.denom_in == a && &p.denom_out == b, "lookup of {a}->{b} gives {p:?}, last set was {e:?}"),
                (x, y) => viol!("lookup of {a}->{b} gives {x:?}, last set was {y:?}"),
            }
        }
        let all: Vec<(&String, &Entry)> = book.iter().filter(|((x, _), _)| x == a).map(|((_, y), e)| (y, e)).collect();
        let cursors: Vec<Option<String>> = std::iter::once(None).chain(outs.iter().map(|x| Some(x.clone()))).collect();
        for desc in [None, Some(false), Some(true)] {
            for cur in &cursors {
                if cur.as_deref() == Some("") {
                    continue;
                }
                let mut want: Vec<(&String, &Entry)> = all.clone();
                if desc == Some(true) {
                    want.reverse();
                    want.retain(|x| cur.as_ref().map(|c| x.0 < c).unwrap_or(true));
                } else {
                    want.retain(|x| cur.as_ref().map(|c| x.0 > c).unwrap_or(true));
                }
                let mut limits: Vec<Option<u32>> = vec![None, Some(0), Some(1), Some(2), Some(3), Some(10), Some(29), Some(30)];
                if all.is_empty() {
                    limits = vec![None, Some(30)];
                }
                for lim in limits {
                    let r: R<ListTradeInfoResponse> = q(
                        w,
                        QueryMsg::ListTradeInfo {
                            denom_in: a.clone(),
                            start_after: cur.clone(),
                            limit: lim,
                            order: desc.map(|d| if d { RangeOrder::Desc } else { RangeOrder::Asc }),
                        },
                    );
                    let Ok(r) = r else { viol!("listing {a} after {cur:?} with limit {lim:?} fails: {r:?}") };
                    let n = lim.unwrap_or(10) as usize;
                    let got: Vec<(&String, Entry)> = r.0.iter().map(|p| (&p.denom_out, entry(p))).collect();
                    let ok = got.len() == want.len().min(n) && got.iter().zip(want.iter()).all(|(x, y)| x.0 == y.0 && &x.1 == y.1) && r.0.iter().all(|p| &p.denom_in == a);
                    ensure!(ok, "listing {a} after {cur:?} limit {lim:?} desc {desc:?} gives {got:?}, expected the first {n} of {want:?}");
                }
            }
        }
        hit(st, format!("listings of {} entries", all.len()));
    }
    Ok(())
}
impl C13 {
    fn book(w: &World) -> Book {
        super::reb::read_infos(w, &[])
    }
}
impl Prop for C13 {
    type G = Book;
    fn init(&self, w: &World, _: &Obs) -> Book {
        C13::book(w)
    }
    fn ops(&self, s: &CS<Book>) -> Vec<Op> {
        let mut v = vec![];
        let b = &s.g;
        let wide = b.len() > 12;
        for (d, r, cd, mx) in [
            ("uatom", &[(1, "uatomo")][..], 100u64, 50_000u128),
            ("uatom", &[(4, "Uatom"), (2, "uatomo")], 0, u128::MAX),
            ("uatom", &[(5, "uatomo")], 7, 60_001),
            ("uatom", &[(4, "Uatom")], 0, 5),
            ("uatomo", &[(1, "uatom"), (4, "Uatom")], 100, 40_000),
            ("uatomo", &[(2, "Uatom")], 3, 77_777),
            ("uatomo", &[(3, "ibc/uatom")], 0, 0),
            ("uatomo", &[(3, "u"), (0, "ibc/uatom")], 1, 9),
            ("ibc/uatom", &[(3, "uatomo"), (1, "uatom"), (4, "Uatom"), (2, "uatomo")], u64::MAX / 4, 1),
            ("uatomx", &[(9, "uatom"), (8, "ibc/27")], 1, 1),
        ] {
            if wide && d == "uatom" {
                continue;
            }
            v.push(ex(GOV, trade_info(d, r, cd, mx), vec![]));
        }
        v.push(ex(GOV, trade_info("uatom", &[], 0, 1), vec![]));
        v.push(ex("alice", trade_info("uatom", &[(5, "uatomo")], 8, 60_002), vec![]));
        if let Some(reb) = &s.o.reb {
            for (d, _) in &reb.deflation {
                for n in [5u128, 40_000, 60_001] {
                    v.push(ex("manag", deflate(d, n, u128::MAX), vec![]));
                }
            }
            for (d, _) in &reb.inflation {
                for n in [5u128, 20_000] {
                    v.push(ex("manag", inflate(d, n, 0), vec![]));
                }
            }
            for d in [6, 94] {
                v.push(Op::Wait(d));
            }
        }
        v
    }
    fn step(&self, t: &Tx<Book>, st: &mut Stat) -> Result<Book, V> {
        let mut n = t.pre.g.clone();
        let now = t.pre.w.time;
        let o = &t.pre.o;
        let res = o.cfg.reserve_denom.clone();
        match t.exec() {
            Some((who, ExecuteMsg::Gov(GovMsg::UpdateTradeInfo { denom, routes, cooldown, max_trade_amount }), _)) => {
                if t.ok() {
                    ensure!(who == GOV, "{who} set a trade route");
                    ensure!(!routes.0.is_empty(), "an empty route was stored");
                    let last = routes.0.last().unwrap().token_denom.clone();
                    hit(st, if n.contains_key(&(denom.clone(), last.clone())) { "route replaced" } else { "route added" });
                    n.insert((denom.clone(), last), (*cooldown, max_trade_amount.u128(), None, routes.0.iter().map(|r| (r.pool_id, r.token_denom.clone())).collect()));
                } else {
                    ensure!(who != GOV || routes.0.is_empty(), "governance could not set a trade route: {:?}", t.res);
                }
            }
            Some((_, ExecuteMsg::Rebalance(RebalanceMsg::Trade(m)), _)) => {
                let (key, amount, is_defl) = match m {
                    RebalanceTradeMsg::Deflate { target_denom, amount_out, .. } => ((target_denom.clone(), res.clone()), amount_out.u128(), true),
                    RebalanceTradeMsg::Inflate { target_denom, amount_in, .. } => ((res.clone(), target_denom.clone()), amount_in.u128(), false),
                };
                if key.0 == key.1 {
                    return Ok(n);
                }
                let e = n.get(&key).cloned();
                if t.ok() {
                    let Some(e) = e else { viol!("traded {key:?} without a stored route") };
                    let sw: Vec<_> = t.w.ev.iter().filter_map(|x| match x { Ev::Swap { pools, din, dout, .. } => Some((pools.clone(), din.clone(), dout.clone())), _ => None }).collect();
                    ensure!(sw.len() == 1, "{} swaps in one trade", sw.len());
                    ensure!(sw[0].0 == e.3 && sw[0].1 == key.0 && sw[0].2 == key.1, "trade of {key:?} used {:?}, stored route is {:?}", sw[0], e.3);
                    ensure!(amount <= e.1, "trade of {amount} on {key:?}, stored maximum is {}", e.1);
                    ensure!(e.2.map(|l| now >= l.saturating_add(e.0)).unwrap_or(true), "traded {key:?} at {now}, last {:?}, cooldown {}", e.2, e.0);
                    hit(st, format!("traded over {} pools", e.3.len()));
                    n.insert(key, (e.0, e.1, Some(now), e.3));
                } else if let Some(e) = e {
                    // nothing but the stored entry, targets and shares may stand in the way
                    let free = e.2.map(|l| now >= l.saturating_add(e.0)).unwrap_or(true) && amount <= e.1;
                    let rr: Vec<(u64, &str)> = e.3.iter().map(|x| (x.0, x.1.as_str())).collect();
                    if free && is_defl {
                        if let Ok(cost) = t.pre.w.est_out(&rr, &res, amount) {
                            ensure!(cost > gap(o, &key.0), "trade of {key:?} for {amount} (cost {cost}, gap {}) refused by a free entry {e:?}: {:?}", gap(o, &key.0), t.res);
                        }
                    }
                }
            }
            _ => {}
        }
        Ok(n)
    }
    fn check(&self, s: &CS<Book>, st: &mut Stat) -> Result<(), V> {
        listing(&s.w, &s.g, st)
    }
}
pub fn c13(r: &mut Report) {
    let t = r.thorough;
    let reb = |w: R<World>| w.and_then(|w| rebalancing(w, None, &[("uatom", "0.2")], &[("Uatom", "0.4")]));
    let ini = inits(vec![
        ("no routes", genesis(U1, f1(), "uatomo")),
        ("rebalance", reb(seeded(U1, f1(), "uatomo", 1_000_003, 7))),
    ]);
    let m = CM { name: "routes".into(), inits: ini, p: C13 };
    r.bfs(&m, if t { 5 } else { 4 });
    // pairs traded in both directions
    let mut ini: Vec<(String, World)> = after_reb_inits().into_iter().filter(|x| x.0 == "after two rebalances").collect();
    if let Some((_, w)) = ini.first().cloned() {
        ini.extend(inits(vec![("rebalancing once more", rebalancing(w, None, &[("uatom", "0.3")], &[("Uatom", "0.4"), ("ibc/uatom", "1")]))]));
    }
    let m = CM { name: "routes traded both ways".into(), inits: ini, p: C13 };
    r.bfs(&m, if t { 4 } else { 3 });
    // more entries than one page holds
    let mut w = genesis(U1, f1(), "uatomo").ok();
    let mut book = Book::new();
    if let Some(w) = w.as_mut() {
        for i in (0..37u64).rev() {
            let name = if i % 3 == 0 { format!("d{i}") } else { format!("ibc/{i:03}") };
            for d in ["uatom", "uato"] {
                let rt = [(i, "via"), (i + 1, name.as_str())];
                if w.exec(GOV, CORE, Msg::Core(trade_info(d, &rt, i, 10 + i as u128)), &[]).is_ok() {
                    book.insert((d.into(), name.clone()), (i, 10 + i as u128, None, rt.iter().map(|x| (x.0, x.1.to_string())).collect()));
                }
            }
        }
        let w = w.clone();
        r.grid("long listing", &[book.len()], |_, st| listing(&w, &book, st).map(|_| 1));
    }
}

// ------------------------------------------------------------------ C14
struct C14 {
    l: LedgerOps,
    idle: Vec<u64>,
}
impl Prop for C14 {
    type G = RG;
    fn init(&self, _: &World, _: &Obs) -> RG {
        RG::default()
    }
    fn ops(&self, s: &CS<RG>) -> Vec<Op> {
        let mut v = ledger_ops(&s.w, &s.o, &s.g, &self.l);
        let k = if s.o.paused() { GovMsg::Release {} } else { GovMsg::Pause { expires_at: None } };
        v.push(ex(GOV, ExecuteMsg::Gov(k), vec![]));
        v
    }
    fn step(&self, t: &Tx<RG>, _: &mut Stat) -> Result<RG, V> {
        Ok(t.pre.g.update(t))
    }
    fn check(&self, s: &CS<RG>, st: &mut Stat) -> Result<(), V> {
        for dt in &self.idle {
            let mut w = s.w.clone();
            w.wait(*dt);
            let o = match Obs::of(&w) {
                Ok(o) => o,
                Err(e) => viol!("after {dt} s of idling the state cannot be queried: {e}"),
            };
            let col: &'static str = if o.fee.collector.as_str() == COL { COL } else { "colle2" };
            let mut w2 = w.clone();
            if let Err(e) = w2.exec(col, CORE, Msg::Core(ExecuteMsg::Realize {}), &[]) {
                viol!("after {dt} s of idling the collector cannot realize: {e}");
            }
            if o.paused() || o.reb.is_some() {
                continue;
            }
            hit(st, "redeemable state");
            for who in ["alice", "bobby", "carol", COL, "colle2"] {
                let b = w.bal(who, o.index());
                for n in dedup(vec![1, 2, 3, b / 2, b.saturating_sub(1), b]) {
                    if n == 0 || n > b {
                        continue;
                    }
                    for to in [None, Some("carol".to_string())] {
                        let mut w2 = w.clone();
                        if let Err(e) = w2.exec(who, CORE, Msg::Core(ExecuteMsg::Burn { redeem_to: to }), &[c(n, o.index())]) {
                            viol!("after {dt} s of idling {who} cannot burn {n} of {b}: {e}");
                        }
                    }
                }
            }
            for n in [1u128, 2, 3, 101, 1_000_000_000_000, 20_000_000_000_000_000_000] {
                if n <= o.mint_fee(n) {
                    continue;
                }
                for f in [sorted(o.required(n)), plus(sorted(o.required(n)), 1)] {
                    let mut w2 = w.clone();
                    if let Err(e) = w2.exec("alice", CORE, Msg::Core(mint(n)), &f) {
                        viol!("after {dt} s of idling {n} cannot be minted with {f:?}: {e}");
                    }
                    // and what was minted can be burned, and be followed by others
                    let o2 = match Obs::of(&w2) {
                        Ok(o) => o,
                        Err(e) => viol!("after minting {n} the state cannot be queried: {e}"),
                    };
                    let b = w2.bal("alice", o2.index());
                    if let (1.., Err(e)) = (b, w2.clone().exec("alice", CORE, Msg::Core(burn()), &[c(b, o2.index())])) {
                        viol!("after {dt} s of idling and minting {n}, {b} cannot be burned: {e}");
                    }
                    if n > 101 {
                        if let Err(e) = w2.exec("bobby", CORE, Msg::Core(mint(n)), &sorted(o2.required(n))) {
                            viol!("after {dt} s of idling and minting {n}, another {n} cannot be minted: {e}");
                        }
                    }
                }
            }
        }
        Ok(())
    }
}
pub fn c14(r: &mut Report) {
    let t = r.thorough;
    let lops = || {
        let mut l = std_ops();
        l.lean = true;
        l.fees = vec![fee(Some("0.999999999999999999"), Some("0.999999999999999999"), Some((CAP, false)), "colle2"), f0()];
        l
    };
    let max = || fee(Some("0.5"), Some("0.999999999999999999"), Some((CAP, false)), COL);
    let min = || fee(Some("0.000000000000000001"), Some("0.000000000000000001"), Some(("0.000000000000000001", false)), COL);
    let mut ini = ledger_inits(true);
    ini.extend(inits(vec![
        ("max fees", seeded(U1, max(), "uatomo", 1000, 7)),
        ("max fees odd", seeded(U2, max(), "uatomo", 3, 2)),
        ("min fees", seeded(U4, min(), "uatomo", 1_000_003, 3)),
        ("zero unit", seeded(U5, max(), "uatomo", 100_003, 3)),
        ("tiny", seeded(U3, f2(), "uatomo", 3, 2)),
        ("frozen", seeded(U1, f3(), "uatomo", 1000, 7)),
        ("huge", seeded(U1, f1(), "uatomo", 3_000_000_000_000_000_007, 2)),
    ]));
    let m = CM { name: "ledger".into(), inits: ini, p: C14 { l: lops(), idle: vec![0, 1, YEAR, 31 * YEAR + 1, 100 * YEAR, 500 * YEAR] } };
    r.bfs(&m, if t { 4 } else { 3 });
    let m = CM { name: "many assets".into(), inits: wide_inits(), p: C14 { l: lops(), idle: vec![0, 1, YEAR, 100 * YEAR] } };
    r.bfs(&m, if t { 3 } else { 2 });
    // after rebalances: dust, removed and added assets
    let m = CM { name: "after rebalance".into(), inits: after_reb_inits(), p: C14 { l: lops(), idle: vec![0, YEAR, 100 * YEAR] } };
    r.bfs(&m, if t { 4 } else { 3 });
    let m = CM { name: "over rebalance".into(), inits: reb_inits(), p: C14 { l: lops(), idle: vec![0, YEAR, 100 * YEAR] } };
    r.bfs(&m, if t { 6 } else { 5 });
}

// ------------------------------------------------------------------ C15
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Id {
    N(u64),
    S(String),
}
type Ver = ((u64, u64, u64), Vec<Id>);
/// strict semantic version (precedence only; build metadata is dropped)
fn semver(s: &str) -> Option<Ver> {
    let num = |x: &str| -> Option<u64> {
        if x.is_empty() || !x.bytes().all(|b| b.is_ascii_digit()) || (x.len() > 1 && x.starts_with('0')) {
            return None;
        }
        x.parse().ok()
    };
    let ids_ok = |x: &str| x.split('.').all(|i| !i.is_empty() && i.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-'));
    let (main, build) = match s.split_once('+') {
        Some((a, b)) => (a, Some(b)),
        None => (s, None),
    };
    if build.map(|b| !ids_ok(b)).unwrap_or(false) {
        return None;
    }
    let (core, pre) = match main.split_once('-') {
        Some((a, b)) => (a, Some(b)),
        None => (main, None),
    };
    let p: Vec<&str> = core.split('.').collect();
    if p.len() != 3 {
        return None;
    }
    let v = (num(p[0])?, num(p[1])?, num(p[2])?);
    let mut ids = vec![];
    if let Some(x) = pre {
        if !ids_ok(x) {
            return None;
        }
        for i in x.split('.') {
            if i.bytes().all(|b| b.is_ascii_digit()) {
                ids.push(Id::N(num(i)?))
            } else {
                ids.push(Id::S(i.to_string()))
            }
        }
    }
    Some((v, ids))
}
fn lower(a: &Ver, b: &Ver) -> bool {
    if a.0 != b.0 {
        return a.0 < b.0;
    }
    match (a.1.is_empty(), b.1.is_empty()) {
        (true, _) => false,
        (false, true) => true,
        _ => a.1 < b.1,
    }
}
#[derive(Clone, Debug)]
struct Mig {
    contract: &'static str,
    name: Option<String>,
    version: String,
    force: Option<bool>,
    used: bool,
}
pub fn c15(r: &mut Report) {
    const KEY: &[u8] = b"contract_info";
    let build = |used: bool| -> R<World> {
        let mut w = if used { seeded(U1, f1(), "uatomo", 1000, 7)? } else { genesis(U1, f1(), "uatomo")? };
        w.instantiate("airdr", "creat", Init::Airdrop(ibcx_interface::airdrop::InstantiateMsg {}))?;
        w.instantiate("perip", "creat", Init::Periphery(ibcx_interface::periphery::InstantiateMsg {}))?;
        if used {
            w = rebalancing(w, None, &[("uatom", "0.2")], &[("ibc/uatom", "1")])?;
            w.give("alice", "uatomo", 1000);
            w.exec("alice", "airdr", Msg::Airdrop(ibcx_interface::airdrop::ExecuteMsg::Register(ibcx_interface::airdrop::RegisterPayload::Open { merkle_root: "00".repeat(32), denom: "uatomo".into(), label: Some("lab".into()) })), &[c(100, "uatomo")])?;
        }
        Ok(w)
    };
    let (Ok(w0), Ok(w1)) = (build(false), build(true)) else {
        r.engine_error = Some("start states cannot be built".into());
        return;
    };
    let read = |w: &World, a: &str| -> Option<cw2::ContractVersion> { w.store.get(a).and_then(|s| s.0.get(KEY).and_then(|v| cosmwasm_std::from_json(v).ok())) };
    let mut pts = vec![];
    let mut names = vec![];
    for a in [CORE, "airdr", "perip"] {
        match read(&w0, a) {
            Some(v) => names.push((a, v)),
            None => {
                // instantiation records name and version
                r.grid("instantiated versions", &[a], |a, _| v(format!("{a} records no version on instantiation")));
                return;
            }
        }
    }
    for (a, own) in &names {
        let Some(o) = semver(&own.version) else {
            r.engine_error = Some(format!("own version {} is no semantic version", own.version));
            return;
        };
        let (x, y, z) = o.0;
        let mut vs: Vec<String> = vec![own.version.clone()];
        for (p, q, s) in [(0, 0, 0), (0, 0, 1), (0, 0, 99), (0, 9, 9), (1, 0, 0), (x, y, z), (x, y, z + 1), (x, y, z + 8), (x, y, z + 10), (x, y + 1, 0), (x, y + 9, 0), (x, y + 10, 0), (x + 1, 0, 0), (x + 10, 0, 0), (2, 0, 0), (10, 0, 0), (x, 0, 1_000), (0, 1, 10), (0, 1, 0), (0, 1, 1), (0, 10, 0), (0, 2, 0), (0, 0, 1_000_000), (x, y, z.saturating_sub(1)), (x, y.saturating_sub(1), z + 5)] {
            vs.push(format!("{p}.{q}.{s}"));
            vs.push(format!("{p}.{q}.{s}-alpha"));
            vs.push(format!("{p}.{q}.{s}-rc.10"));
        }
        for s in ["", "v0.0.1", "0.1", "1", "junk", "0.0.01", "0.0.1-", "0.0.1.1", "0.0.-1", " 0.0.1", "0.0.0+build", "0.0.0-a.1+b.2"] {
            vs.push(s.to_string());
        }
        vs.sort();
        vs.dedup();
        let mut ns: Vec<Option<String>> = names.iter().map(|x| Some(x.1.contract.clone())).collect();
        ns.push(None);
        ns.push(Some(String::new()));
        ns.push(Some(format!("{}x", own.contract)));
        ns.push(Some(own.contract.trim_start_matches("crates.io:").to_string()));
        ns.push(Some(own.contract.to_uppercase()));
        ns.sort();
        ns.dedup();
        for n in &ns {
            for ver in &vs {
                for force in [None, Some(false), Some(true)] {
                    for used in [false, true] {
                        pts.push(Mig { contract: a, name: n.clone(), version: ver.clone(), force, used });
                    }
                }
            }
        }
    }
    r.grid("stored versions", &pts, |p, st| {
        let mut w = if p.used { w1.clone() } else { w0.clone() };
        let own = read(&w, p.contract).unwrap();
        {
            let s = w.store.get_mut(p.contract).unwrap();
            let m = Arc::make_mut(&mut s.0);
            match &p.name {
                Some(n) => m.insert(KEY.to_vec(), cosmwasm_std::to_json_vec(&cw2::ContractVersion { contract: n.clone(), version: p.version.clone() }).unwrap()),
                None => m.remove(KEY),
            };
        }
        let pre = w.clone();
        let res = w.migrate(p.contract, p.force);
        let may = p.force == Some(true)
            || (p.name.as_ref() == Some(&own.contract)
                && match (semver(&p.version), semver(&own.version)) {
                    (Some(a), Some(b)) => lower(&a, &b),
                    _ => false,
                });
        hit(st, format!("{} {}", p.contract, if res.is_ok() { "migrated" } else { "refused" }));
        if may {
            ensure!(res.is_ok(), "upgrade to {} was refused: {res:?}", own.version);
            ensure!(read(&w, p.contract) == Some(own.clone()), "after the upgrade to {own:?} the store says {:?}", read(&w, p.contract));
        } else {
            ensure!(res.is_err(), "upgrade from {:?} {} to {own:?} was accepted", p.name, p.version);
            ensure!(pre.store[p.contract].0.get(KEY) == w.store[p.contract].0.get(KEY), "a refused upgrade changed the stored version");
        }
        for (a, s) in &pre.store {
            let strip = |s: &Store| s.0.iter().filter(|(k, _)| a != p.contract || k.as_slice() != KEY).map(|(k, v)| (k.clone(), v.clone())).collect::<Vec<_>>();
            ensure!(strip(s) == strip(&w.store[a]), "migration changed other state of {a}");
        }
        ensure!(pre.bank == w.bank && w.ev.is_empty(), "migration moved coins or sent messages: {:?}", w.ev);
        Ok(1)
    });
}

// ------------------------------------------------------------------ C16
#[derive(Clone, Debug)]
struct Start {
    units: Vec<(String, u128)>,
    fee: FeePayload,
    gov: String,
    reserve: String,
    sub: String,
    who: &'static str,
    time: u64,
}
fn address(a: &str) -> bool {
    a.len() >= 3 && a == a.to_lowercase()
}
fn routes_of(w: &World) -> R<usize> {
    let mut n = 0;
    for d in ["uatomo", "uatom", "Uatom", "ibc/uatom", "ujunk"] {
        let l: ListTradeInfoResponse = q(w, QueryMsg::ListTradeInfo { denom_in: d.into(), start_after: None, limit: None, order: None })?;
        n += l.0.len();
    }
    Ok(n)
}
fn start(p: &Start, st: &mut Stat) -> Result<u64, V> {
    let e = |m: String| V { key: String::new(), msg: m };
    let mut w = chain();
    w.wait(p.time);
    let pre = w.clone();
    let msg = InstantiateMsg {
        gov: p.gov.clone(),
        fee: p.fee.clone(),
        index_denom: p.sub.clone(),
        index_units: p.units.iter().map(|(d, u)| (d.clone(), Decimal::raw(*u))).collect(),
        reserve_denom: p.reserve.clone(),
    };
    let res = w.instantiate(CORE, p.who, Init::Core(msg));
    let mut names: Vec<&str> = p.units.iter().map(|x| x.0.as_str()).collect();
    names.sort();
    let dup = names.windows(2).any(|x| x[0] == x[1]);
    let why = if dup {
        Some("the same asset listed twice")
    } else if !super::fees::legal(&p.fee) {
        Some("an illegal fee")
    } else if !address(&p.gov) {
        Some("an invalid governor")
    } else if !address(&p.fee.collector) {
        Some("an invalid collector")
    } else {
        None
    };
    hit(st, why.unwrap_or("legal instantiation"));
    if let Some(why) = why {
        ensure!(res.is_err(), "an index with {why} was created");
        return Ok(1);
    }
    ensure!(res.is_ok(), "a legal index was refused: {res:?}");
    ensure!(pre.bank == w.bank, "creating an index moved coins: {:?}", w.ev);
    let o = Obs::of(&w).map_err(|x| e(format!("a new index cannot be queried: {x}")))?;
    let mut want = p.units.clone();
    want.sort();
    let mut got = o.units.clone();
    got.sort();
    ensure!(got == want, "the new portfolio is {got:?}, specified {want:?}");
    let denom = format!("factory/{}/{}", CORE, p.sub);
    ensure!(o.index() == denom, "the index denomination is {}, not {denom}", o.index());
    ensure!(w.admins.get(&denom).map(|x| x.as_str()) == Some(CORE), "the index contract does not control {denom}");
    ensure!(o.cfg.gov.as_str() == p.gov && o.cfg.pending_gov.is_none(), "governor {} (pending {:?}), specified {}", o.cfg.gov, o.cfg.pending_gov, p.gov);
    ensure!(!o.paused(), "a new index is paused");
    ensure!(o.cfg.reserve_denom == p.reserve, "the reserve is {}, specified {}", o.cfg.reserve_denom, p.reserve);
    ensure!(o.supply == 0 && chain_supply(&w, &denom) == 0, "a new index has supply {}", o.supply);
    ensure!(o.reb.is_none(), "a new index is being rebalanced");
    ensure!(super::fees::current(&o) == p.fee, "the fees are {:?}, specified {:?}", super::fees::current(&o), p.fee);
    ensure!(o.collected.values().all(|x| *x == 0), "a new index has collected {:?}", o.collected);
    if let Some(s) = &o.fee.streaming_fee {
        ensure!(s.last_collected_at == w.time, "fees accrue from {} on, the index was created at {}", s.last_collected_at, w.time);
    }
    let n = routes_of(&w).map_err(|x| e(format!("the routes of a new index cannot be listed: {x}")))?;
    ensure!(n == 0, "a new index has {n} swap routes");
    // every other account than the governor is an outsider, the governor is in charge
    for who in ["creat", "alice", CORE] {
        if who == p.gov {
            continue;
        }
        let mut w2 = w.clone();
        ensure!(w2.exec(who, CORE, Msg::Core(ExecuteMsg::Gov(GovMsg::Pause { expires_at: None })), &[]).is_err(), "{who} paused a new index");
    }
    let g: &'static str = Box::leak(p.gov.clone().into_boxed_str());
    let mut w2 = w.clone();
    ensure!(w2.exec(g, CORE, Msg::Core(ExecuteMsg::Gov(GovMsg::Pause { expires_at: None })), &[]).is_ok(), "the governor cannot pause a new index");
    // the first mint: proportional, in the index denomination
    let n = 1_000_003u128;
    if p.units.iter().all(|x| x.1 < 1_000 * E18 && DENOMS.contains(&x.0.as_str())) && n > o.mint_fee(n) {
        let f = sorted(o.required(n));
        let mut w2 = w.clone();
        let r = w2.exec("alice", CORE, Msg::Core(mint(n)), &f);
        ensure!(r.is_ok(), "the first mint of a new index is refused: {r:?}");
        ensure!(w2.bal("alice", &denom) == n - o.mint_fee(n), "the first mint paid {} {denom}", w2.bal("alice", &denom));
        hit(st, "first mint");
    }
    Ok(1)
}
struct C16 {
    l: LedgerOps,
}
impl Prop for C16 {
    type G = RG;
    fn init(&self, _: &World, _: &Obs) -> RG {
        RG::default()
    }
    fn ops(&self, s: &CS<RG>) -> Vec<Op> {
        let mut v = ledger_ops(&s.w, &s.o, &s.g, &self.l);
        for d in ["uatomo", "ibc/uatom"] {
            v.push(ex(GOV, ExecuteMsg::Gov(GovMsg::UpdateReserveDenom(d.into())), vec![]));
        }
        v.push(ex(GOV, trade_info("uatom", &[(4, "Uatom"), (2, "uatomo")], 60, 5), vec![]));
        v.push(ex(GOV, ExecuteMsg::Gov(if s.o.paused() { GovMsg::Release {} } else { GovMsg::Pause { expires_at: None } }), vec![]));
        v
    }
    fn step(&self, t: &Tx<RG>, st: &mut Stat) -> Result<RG, V> {
        let (a, b) = (&t.pre.o, t.o);
        ensure!(a.index() == b.index(), "the index denomination changed from {} to {}", a.index(), b.index());
        let reb = a.reb.is_some() || b.reb.is_some();
        if reb {
            hit(st, "in a rebalance");
        } else {
            let n = |o: &Obs| {
                let mut v: Vec<String> = o.units.iter().map(|x| x.0.clone()).collect();
                v.sort();
                v
            };
            ensure!(n(a) == n(b), "the assets changed from {:?} to {:?} outside a rebalance", n(a), n(b));
            for (d, u) in &b.units {
                ensure!(*u <= a.unit(d), "the unit of {d} grew from {} to {u} outside a rebalance", a.unit(d));
                let waited = matches!(t.op, Op::Wait(_));
                ensure!(*u == a.unit(d) || waited, "the unit of {d} changed from {} to {u} without time passing", a.unit(d));
            }
            hit(st, "outside a rebalance");
        }
        for x in 0..b.units.len() {
            ensure!(b.units[..x].iter().all(|y| y.0 != b.units[x].0), "the portfolio lists {} twice", b.units[x].0);
        }
        if !matches!(t.exec(), Some((_, ExecuteMsg::Gov(GovMsg::UpdateReserveDenom(_)), _))) {
            ensure!(a.cfg.reserve_denom == b.cfg.reserve_denom, "the reserve changed from {} to {}", a.cfg.reserve_denom, b.cfg.reserve_denom);
        }
        Ok(t.pre.g.update(t))
    }
}
pub fn c16(r: &mut Report) {
    let t = r.thorough;
    let base = || Start {
        units: vec![("uatomo".into(), E18), ("uatom".into(), E18 / 2), ("Uatom".into(), 22 * E18)],
        fee: f1(),
        gov: GOV.into(),
        reserve: "uatomo".into(),
        sub: "uibcx".into(),
        who: "creat",
        time: 0,
    };
    let mut pts = vec![];
    // every list of up to five (six) assets out of four (duplicates included), one and a half portfolios long
    let vals = [E18, 1, 3 * E18 + 1, 0, E18 / 3, 7 * E18];
    let mut last: Vec<Vec<&'static str>> = vec![vec![]];
    let mut lists = last.clone();
    for _ in 0..if t { 8 } else { 6 } {
        last = last.iter().flat_map(|l| DENOMS.iter().map(move |n| [l.clone(), vec![*n]].concat())).collect();
        lists.extend(last.clone());
    }
    for l in &lists {
        let units = l.iter().enumerate().map(|(i, d)| (d.to_string(), vals[i % 6])).collect();
        pts.push(Start { units, ..base() });
    }
    // long lists with one asset repeated, at every pair of positions
    for n in [2usize, 3, 6, 11, 24, 40] {
        let units: Vec<(String, u128)> = (0..n).map(|i| (wname(i).to_string(), vals[i % 3])).collect();
        pts.push(Start { units: units.clone(), ..base() });
        for i in 0..n {
            for j in 0..i {
                let mut u = units.clone();
                u[i].0 = u[j].0.clone();
                pts.push(Start { units: u.clone(), ..base() });
                u[i].1 = u[j].1;
                pts.push(Start { units: u, ..base() });
            }
        }
    }
    // names that differ little are different assets
    for (a, b) in [("uatom", "Uatom"), ("uatom", "uatom "), ("uatom", "uatomm"), ("ibc/A", "ibc/a"), ("a", "b"), ("factory/index/uibcx", "uibcx")] {
        pts.push(Start { units: vec![(a.into(), E18), (b.into(), E18)], ..base() });
    }
    // units
    for x in [0, 1, 999_999_999_999_999_999, E18, E18 + 1, 1000 * E18 - 1, 1_000_000 * E18, u128::MAX / 2, u128::MAX] {
        for y in [0, 1, E18, u128::MAX] {
            pts.push(Start { units: vec![("uatom".into(), x), ("uatomo".into(), y)], ..base() });
        }
    }
    // fees, governors, collectors, reserves, denominations, creators and times
    let rs = super::fees::rates();
    for m in &rs {
        for b in &rs {
            for s in &rs {
                for freeze in [false, true] {
                    let fee = FeePayload { collector: COL.into(), mint_fee: *m, burn_fee: *b, streaming_fee: s.map(|rate| StreamingFeePayload { rate, freeze }) };
                    pts.push(Start { fee, ..base() });
                }
            }
        }
    }
    for gov in [GOV, "creat", "alice", CORE, "abc", "ab", "", "GOVERN", "Govern"] {
        for col in [COL, GOV, CORE, "creat", "colle2", "ab", "", "Colle"] {
            for reserve in ["uatomo", "uatom", " uatom", "Uatom", "UATOM", "ibc/uatom", "factory/index/uibcx"] {
                for sub in ["uibcx", "x", "a/b", "uatom", "UIBCX"] {
                    for who in ["creat", GOV] {
                        for time in [0, 1, 31 * YEAR + 7] {
                            pts.push(Start { gov: gov.into(), fee: FeePayload { collector: col.into(), ..f1() }, reserve: reserve.into(), sub: sub.into(), who, time, ..base() });
                        }
                    }
                }
            }
        }
    }
    r.grid("instantiations", &pts, start);
    let mut ini = ledger_inits(true);
    ini.extend(reb_inits());
    ini.extend(after_reb_inits());
    ini.extend(wide_inits());
    let mut l = std_ops();
    l.lean = true;
    let m = CM { name: "over time".into(), inits: ini, p: C16 { l } };
    r.bfs(&m, if t { 6 } else { 5 });
}
