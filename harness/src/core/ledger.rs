//! C01 collateral, C02 supply, C03 mint, C04 burn.
use super::*;

pub fn chain_supply(w: &World, d: &str) -> u128 {
    *w.supply.get(d).unwrap_or(&0)
}
pub fn holders_sum(w: &World, d: &str) -> u128 {
    w.bank.iter().filter(|((_, x), _)| x == d).map(|(_, v)| *v).sum()
}
pub fn sorted(mut f: Vec<Coin>) -> Vec<Coin> {
    f.sort_by(|a, b| a.denom.cmp(&b.denom));
    f
}
/// a few base units of everything on top
pub fn plus(mut f: Vec<Coin>, n: u128) -> Vec<Coin> {
    for x in f.iter_mut() {
        x.amount += Uint128::from(n)
    }
    f
}

pub struct LedgerOps {
    pub mints: Vec<u128>,
    pub waits: Vec<u64>,
    pub fees: Vec<FeePayload>,
    pub deflation: Vec<(&'static str, &'static str)>,
    pub inflation: Vec<(&'static str, &'static str)>,
    pub lean: bool,
}

/// the generic money-moving alphabet
pub fn ledger_ops(w: &World, o: &Obs, rg: &RG, l: &LedgerOps) -> Vec<Op> {
    let mut v = vec![];
    let idx = o.index().to_string();
    if o.reb.is_none() {
        for n in &l.mints {
            let f = sorted(o.required(*n));
            v.push(ex("alice", mint(*n), f.clone()));
            if !l.lean {
                v.push(ex("bobby", ExecuteMsg::Mint { amount: (*n).into(), receiver: Some("alice".into()), refund_to: Some("carol".into()) }, plus(f, 5)));
            }
        }
        // the roles and the contract itself as payer or receiver
        if let (Some(n), false) = (l.mints.last(), l.lean) {
            let f = sorted(o.required(*n));
            v.push(ex(GOV, mint(*n), f.clone()));
            for to in [o.fee.collector.as_str(), CORE] {
                v.push(ex("bobby", ExecuteMsg::Mint { amount: (*n).into(), receiver: Some(to.into()), refund_to: None }, f.clone()));
            }
        }
        // short by one
        if let Some(n) = l.mints.last() {
            let mut f = sorted(o.required(*n));
            if let Some(x) = f.first_mut() {
                if x.amount.u128() > 1 {
                    x.amount -= Uint128::one();
                    v.push(ex("alice", mint(*n), f));
                }
            }
        }
        let b = w.bal("alice", &idx);
        for n in dedup(vec![1, b / 3, b]) {
            if n > 0 && n <= b {
                v.push(ex("alice", burn(), vec![c(n, &idx)]));
            }
        }
        let bb = w.bal("bobby", &idx);
        if bb > 0 {
            v.push(ex("bobby", ExecuteMsg::Burn { redeem_to: Some("carol".into()) }, vec![c(bb, &idx)]));
        }
        let cb = w.bal(COL, &idx);
        if cb > 0 && !l.lean {
            v.push(ex(COL, burn(), vec![c(cb, &idx)]));
        }
        for f in &l.fees {
            v.push(ex(GOV, ExecuteMsg::Gov(GovMsg::UpdateFeeStrategy(f.clone())), vec![]));
        }
        v.push(ex(GOV, reb_init(None, &l.deflation, &l.inflation), vec![]));
    } else {
        let reb = o.reb.as_ref().unwrap();
        for (d, _) in &reb.deflation {
            let m = max_out(w, d, gap(o, d));
            for a in dedup(vec![1, m / 3, m, m + 1]) {
                if a > 0 {
                    v.push(ex("manag", deflate(d, a, u128::MAX), vec![]));
                }
                if *d == o.cfg.reserve_denom {
                    break;
                }
            }
        }
        for (d, _) in &reb.inflation {
            let m = rg.share_units(d);
            for a in dedup(vec![m / 2, m, m + 1, m + 3]) {
                if a > 0 {
                    v.push(ex("manag", inflate(d, a, 0), vec![]));
                }
                if *d == o.cfg.reserve_denom {
                    break;
                }
            }
        }
        v.push(ex("manag", finalize(), vec![]));
        v.push(ex("alice", mint(1), sorted(o.required(1))));
        if w.bal("alice", &idx) > 0 {
            v.push(ex("alice", burn(), vec![c(1, &idx)]));
        }
    }
    if w.bal("alice", &idx) > 1 {
        v.push(Op::Send("alice", "bobby", idx.clone(), w.bal("alice", &idx) / 2));
    }
    if !l.lean {
        v.push(Op::Send("carol", CORE, "uatom".into(), 1));
    }
    v.push(ex(COL, ExecuteMsg::Realize {}, vec![]));
    if !l.lean {
        v.push(ex("colle2", ExecuteMsg::Realize {}, vec![]));
    }
    for d in &l.waits {
        v.push(Op::Wait(*d));
    }
    v
}

pub fn std_ops() -> LedgerOps {
    LedgerOps {
        mints: vec![1, 1000],
        waits: vec![1, YEAR],
        fees: vec![fee(Some("0.5"), None, Some(("0.000000001", false)), "colle2")],
        deflation: vec![("uatom", "0.2")],
        inflation: vec![("ibc/uatom", "1.3"), ("Uatom", "0.4")],
        lean: false,
    }
}

/// start states shared by the ledger properties
pub fn ledger_inits(big: bool) -> Vec<(String, World)> {
    let mut v = vec![
        ("genesis f1", genesis(U1, f1(), "uatomo")),
        ("seeded f1", seeded(U1, f1(), "uatomo", 1000, 7)),
        ("seeded f0 odd units", seeded(U2, f0(), "uatomo", 10_007, 3)),
        ("seeded f2 odd units", seeded(U2, f2(), "uatomo", 1_000_003, 2)),
        ("seeded large", seeded(U1, f1(), "uatomo", 3_000_000_000_000, 2)),
        ("seeded beyond 64 bits", seeded(U1, f1(), "uatomo", 40_000_000_000_000_000_000_003, 30_000_000_000_000_000_000)),
    ];
    if big {
        v.push(("seeded f3", seeded(U1, f3(), "uatomo", 100_000, 77)));
        v.push(("seeded tiny unit", seeded(U3, f1(), "uatomo", 1_000, 1_000_000)));
    }
    inits(v)
}
/// Somebody sent index tokens and portfolio coins to the contract, and the roles hold index tokens.
fn donated(w: R<World>) -> R<World> {
    then(w, |w| {
        let idx = Obs::of(w)?.index().to_string();
        for who in [GOV, "manag"] {
            w.send("alice", who, &idx, 50)?;
        }
        for (d, n) in [(idx.as_str(), 777), ("uatom", 31), ("uatomo", 5)] {
            w.send("alice", CORE, d, n)?;
        }
        Ok(())
    })
}
/// states in the middle of a rebalance
pub fn reb_inits() -> Vec<(String, World)> {
    let a = |n: u128| {
        seeded(U1, f1(), "uatomo", n, 7)
            .and_then(|w| rebalancing(w, None, &[("uatom", "0.2"), ("uatomo", "0.3")], &[("ibc/uatom", "1.3"), ("Uatom", "0.4")]))
    };
    let b = |n: u128| {
        seeded(U4, f1(), "uatomo", n, 7)
            .and_then(|w| rebalancing(w, Some("manag"), &[("uatom", "0"), ("Uatom", "0.1")], &[("uatomo", "1"), ("ibc/uatom", "2")]))
    };
    let odd = |n: u128| {
        then(seeded(U2, f1(), "uatomo", n, 3), |w| {
            w.wait(1_000_003);
            Ok(())
        })
        .and_then(|w| rebalancing(w, None, &[("uatom", "0.1"), ("Uatom", "0.0000001")], &[("ibc/uatom", "1"), ("uatomo", "0.000001")]))
    };
    inits(vec![
        ("reb reserve deflated", a(1_000_003)),
        ("reb reserve inflated", b(777_777)),
        ("reb small supply", a(10)),
        ("reb odd", odd(123_457)),
        ("reb huge supply", a(3_000_000_000_000_000_007)),
        ("reb reserve inflated huge", b(3_000_000_000_000_000_007)),
        ("reb supply beyond 64 bits", b(40_000_000_000_000_000_000_003)),
    ])
}

/// portfolios that went through rebalances: added, removed and dusty assets
pub fn after_reb_inits() -> Vec<(String, World)> {
    let mut v = vec![];
    for (n, w) in reb_inits() {
        if let Ok(w) = super::reb::finished(Ok(w)) {
            v.push((format!("after {n}"), w));
        }
    }
    let twice = |n: u128| {
        let w = seeded(U1, f1(), "uatomo", n, 7).and_then(|w| rebalancing(w, None, &[("uatom", "0.2"), ("uatomo", "0.3")], &[("ibc/uatom", "1.3"), ("Uatom", "0.4")]));
        let w = super::reb::finished(w).map(|mut w| {
            w.wait(7_777_777);
            w
        })?;
        let o = Obs::of(&w)?;
        let k = Decimal::raw(o.unit("ibc/uatom") / 3).to_string();
        super::reb::finished(rebalancing(w, Some("manag"), &[("ibc/uatom", &k), ("Uatom", "0")], &[("uatom", "1"), ("uatomo", "7.7")]))
    };
    v.extend(inits(vec![("after two rebalances", twice(1_000_003)), ("after two rebalances, large", twice(55_555_555_557))]));
    v
}

// ------------------------------------------------------------------ C01
struct C01(LedgerOps);
pub fn covered(w: &World, o: &Obs, rg: &RG) -> Result<(), V> {
    let mut ds: Vec<String> = o.units.iter().map(|u| u.0.clone()).collect();
    ds.extend(o.collected.keys().cloned());
    ds.push(o.cfg.reserve_denom.clone());
    ds.sort();
    ds.dedup();
    for d in ds {
        let mut owed = u256(o.unit(&d)) * u256(o.supply);
        if d == o.cfg.reserve_denom {
            owed += rg.total;
        }
        let need = to128(owed / u256(E18)) + o.col(&d);
        let have = w.bal(CORE, &d);
        ensure!(
            have >= need,
            "undercollateralised: contract holds {have}{d}, needs {need} (units*supply + reserve = {}, fees {})",
            owed / u256(E18),
            o.col(&d)
        );
    }
    // the bank-facing total must equal what the portfolio query reports as assets
    Ok(())
}
impl Prop for C01 {
    type G = RG;
    fn init(&self, _: &World, _: &Obs) -> RG {
        RG::default()
    }
    fn ops(&self, s: &CS<RG>) -> Vec<Op> {
        ledger_ops(&s.w, &s.o, &s.g, &self.0)
    }
    fn step(&self, t: &Tx<RG>, _: &mut Stat) -> Result<RG, V> {
        if t.res.is_err() {
            let (mut a, mut b) = (Canon::new(), Canon::new());
            t.pre.w.canon(&mut a);
            t.w.canon(&mut b);
            ensure!(a.end() == b.end(), "a failed transaction changed the chain");
        }
        Ok(t.pre.g.update(t))
    }
    fn check(&self, s: &CS<RG>, _: &mut Stat) -> Result<(), V> {
        covered(&s.w, &s.o, &s.g)
    }
}
pub fn c01(r: &mut Report) {
    let t = r.thorough;
    let m = CM { name: "ledger".into(), inits: ledger_inits(t), p: C01(std_ops()) };
    r.bfs(&m, if t { 5 } else { 4 });
    // also on a chain where swaps execute worse than they were estimated
    let mut ri = reb_inits();
    let worse: Vec<_> = ri
        .iter()
        .map(|(n, w)| {
            let mut w = w.clone();
            w.slip = 50;
            (format!("{n}, swaps worse than estimated"), w)
        })
        .collect();
    ri.extend(worse);
    let m = CM { name: "rebalance".into(), inits: ri, p: C01(std_ops()) };
    r.bfs(&m, if t { 6 } else { 4 });
    let m = CM { name: "after rebalance".into(), inits: after_reb_inits(), p: C01(std_ops()) };
    r.bfs(&m, if t { 5 } else { 3 });
    let mut l = std_ops();
    l.lean = true;
    let m = CM { name: "many assets".into(), inits: wide_inits(), p: C01(l) };
    r.bfs(&m, if t { 4 } else { 3 });
    // long idling, fee switching and rebuilt portfolios
    let mut l = std_ops();
    l.lean = true;
    l.mints = vec![3];
    l.waits = vec![7, 13_000_000, 100 * YEAR];
    l.fees = vec![f0(), f1(), fee(None, Some("0.999999999999999999"), Some(("0.000000000000000001", false)), "colle2"), f3()];
    let m = CM { name: "idle".into(), inits: ledger_inits(true), p: C01(l) };
    r.bfs(&m, if t { 5 } else { 4 });
}

// ------------------------------------------------------------------ C02
struct C02(LedgerOps);
impl Prop for C02 {
    type G = RG;
    fn init(&self, _: &World, _: &Obs) -> RG {
        RG::default()
    }
    fn ops(&self, s: &CS<RG>) -> Vec<Op> {
        let mut v = ledger_ops(&s.w, &s.o, &s.g, &self.0);
        let idx = s.o.index().to_string();
        if s.w.bal("bobby", &idx) > 0 {
            // index tokens donated to the contract
            v.push(Op::Send("bobby", CORE, idx, 1));
        }
        v
    }
    fn step(&self, t: &Tx<RG>, _: &mut Stat) -> Result<RG, V> {
        let idx = t.pre.o.index();
        let (a, b) = (chain_supply(&t.pre.w, idx), chain_supply(t.w, idx));
        let up: u128 = t.w.ev.iter().map(|e| match e { Ev::Mint { denom, amount, .. } if denom == idx => *amount, _ => 0 }).sum();
        let down: u128 = t.w.ev.iter().map(|e| match e { Ev::Burn { denom, amount, .. } if denom == idx => *amount, _ => 0 }).sum();
        let (a2, b2) = (t.pre.o.supply, t.o.supply);
        match (t.ok(), t.exec()) {
            (true, Some((_, ExecuteMsg::Mint { amount, receiver, .. }, _))) => {
                ensure!(up == amount.u128() && down == 0, "mint of {amount} minted {up} and destroyed {down} on chain");
                ensure!(b2 == a2 + amount.u128(), "mint of {amount} changed the reported supply from {a2} to {b2}");
                // nothing stays behind unless the contract itself was to receive it
                ensure!(receiver.as_deref() == Some(CORE) || t.w.bal(CORE, idx) == t.pre.w.bal(CORE, idx), "mint changed the contract's own index balance");
            }
            (true, Some((_, ExecuteMsg::Burn { .. }, f))) => {
                let n: u128 = f.iter().filter(|x| x.denom == idx).map(|x| x.amount.u128()).sum();
                ensure!(up == 0 && down <= n, "burn of {n} minted {up} and destroyed {down}");
                ensure!(b2 + down == a2, "burn destroyed {down}, reported supply went from {a2} to {b2}");
                ensure!(t.w.bal(CORE, idx) == t.pre.w.bal(CORE, idx), "burn changed the contract's own index balance");
            }
            _ => ensure!(a2 == b2 && a == b && up == 0 && down == 0, "{:?} changed the supply: reported {a2}->{b2}, chain {a}->{b}", t.op),
        }
        Ok(t.pre.g.update(t))
    }
    fn check(&self, s: &CS<RG>, _: &mut Stat) -> Result<(), V> {
        let idx = s.o.index();
        let rep: Uint128 = s.w.qcore(CORE, QueryMsg::GetTotalSupply {}).map_err(|e| V { key: "".into(), msg: e })?;
        let (ch, sum) = (chain_supply(&s.w, idx), holders_sum(&s.w, idx));
        ensure!(rep.u128() == ch && s.o.supply == ch && ch == sum, "reported supply {rep} / {}, on chain {ch}, sum of holders {sum}", s.o.supply);
        for a in ["alice", "bobby", COL] {
            let q: Uint128 = s.w.qcore(CORE, QueryMsg::GetBalance { account: a.into() }).map_err(|e| V { key: "".into(), msg: e })?;
            ensure!(q.u128() == s.w.bal(a, idx), "reported balance of {a} is {q}, held {}", s.w.bal(a, idx));
        }
        Ok(())
    }
}
pub fn c02(r: &mut Report) {
    let t = r.thorough;
    let m = CM { name: "ledger".into(), inits: ledger_inits(t), p: C02(std_ops()) };
    r.bfs(&m, if t { 6 } else { 5 });
    let m = CM { name: "rebalance".into(), inits: reb_inits(), p: C02(std_ops()) };
    r.bfs(&m, if t { 6 } else { 4 });
    let m = CM { name: "after rebalance".into(), inits: after_reb_inits(), p: C02(std_ops()) };
    r.bfs(&m, if t { 5 } else { 3 });
}

// ------------------------------------------------------------------ C03
pub type Bank = BTreeMap<(String, String), i128>;
pub fn bank_delta(a: &World, b: &World) -> Bank {
    let mut m = Bank::new();
    for (k, v) in b.bank.iter() {
        *m.entry(k.clone()).or_insert(0) += *v as i128;
    }
    for (k, v) in a.bank.iter() {
        *m.entry(k.clone()).or_insert(0) -= *v as i128;
    }
    m.retain(|_, v| *v != 0);
    m
}
pub fn add(m: &mut Bank, who: &str, d: &str, n: i128) {
    *m.entry((who.to_string(), d.to_string())).or_insert(0) += n;
}

struct C03 {
    amounts: Vec<u128>,
    waits: Vec<u64>,
    all_to: bool,
}
/// Why a mint with these funds has to be refused, if it has to.
pub fn must_refuse(o: &Obs, n: u128, funds: &[Coin]) -> Option<String> {
    let req = o.required(n);
    for x in funds {
        if !x.amount.is_zero() && !req.iter().any(|r| r.denom == x.denom) {
            return Some(format!("{} is not in the portfolio", x.denom));
        }
    }
    for r in &req {
        let have: u128 = funds.iter().filter(|x| x.denom == r.denom).map(|x| x.amount.u128()).sum();
        if have < r.amount.u128() {
            return Some(format!("needs {r}, got {have}"));
        }
    }
    None
}
impl Prop for C03 {
    type G = ();
    fn init(&self, _: &World, _: &Obs) {}
    fn ops(&self, s: &CS<()>) -> Vec<Op> {
        let o = &s.o;
        let mut v = vec![];
        let tos: Vec<(&'static str, Option<&str>, Option<&str>)> = if self.all_to {
            vec![("alice", None, None), ("alice", Some("bobby"), None), ("alice", None, Some("carol")), ("bobby", Some("alice"), Some("carol")), (GOV, Some(COL), Some(COL)), ("bobby", Some("bobby"), Some("bobby"))]
        } else {
            vec![("alice", None, None), ("bobby", Some("alice"), Some("carol"))]
        };
        for n in &self.amounts {
            let req = sorted(o.required(*n));
            let mut shapes = vec![req.clone(), plus(req.clone(), 1), plus(req.clone(), 1_000_000_007)];
            for i in 0..req.len() {
                let mut f = req.clone();
                f[i].amount += Uint128::new(3);
                shapes.push(f);
                let mut f = req.clone();
                f[i].amount -= Uint128::new(1);
                f.retain(|x| !x.amount.is_zero());
                shapes.push(f);
                let mut f = plus(req.clone(), 2);
                f.remove(i);
                shapes.push(f);
            }
            // only the first assets, only the last ones, every other one
            for r in [req.clone(), o.required(*n)] {
                for i in 2..r.len().saturating_sub(1) {
                    shapes.push(sorted(r[..i].to_vec()));
                    shapes.push(sorted(r[i..].to_vec()));
                }
            }
            if req.len() > 3 {
                shapes.push(req.iter().step_by(2).cloned().collect());
                shapes.push(req.iter().skip(1).step_by(2).cloned().collect());
            }
            let mut f = req.clone();
            f.push(c(1, "ujunk"));
            shapes.push(sorted(f));
            let mut f = req.clone();
            if f.len() > 1 {
                // a foreign coin in place of a portfolio coin
                f.remove(0);
                f.push(c(1_000_000, "ujunk"));
                shapes.push(sorted(f));
            }
            for d in DENOMS {
                if !req.iter().any(|x| x.denom == d) {
                    let mut f = req.clone();
                    f.push(c(2, d));
                    shapes.push(sorted(f));
                }
            }
            if s.w.bal("alice", o.index()) > 0 {
                let mut f = req.clone();
                f.push(c(1, o.index()));
                shapes.push(sorted(f));
            }
            shapes.push(vec![]);
            for f in shapes {
                for (who, a, b) in &tos {
                    v.push(ex(who, ExecuteMsg::Mint { amount: (*n).into(), receiver: a.map(|s| s.into()), refund_to: b.map(|s| s.into()) }, f.clone()));
                }
            }
        }
        for d in &self.waits {
            v.push(Op::Wait(*d));
        }
        let b = s.w.bal("alice", o.index());
        if b > 1 {
            v.push(ex("alice", burn(), vec![c(b / 2, o.index())]));
        }
        for f in [f0(), f2(), fee(Some("0.999999999999999999"), None, Some((CAP, false)), "alice")] {
            v.push(ex(GOV, ExecuteMsg::Gov(GovMsg::UpdateFeeStrategy(f)), vec![]));
        }
        v
    }
    fn step(&self, t: &Tx<()>, st: &mut Stat) -> Result<(), V> {
        let Some((who, ExecuteMsg::Mint { amount, receiver, refund_to }, funds)) = t.exec() else { return Ok(()) };
        let o = &t.pre.o;
        let n = amount.u128();
        if let Some(why) = must_refuse(o, n, funds) {
            hit(st, "mint that has to be refused");
            ensure!(t.res.is_err(), "mint of {n} was accepted although {why}");
        }
        if t.ok() {
            let mut e = Bank::new();
            let recv = receiver.as_deref().unwrap_or(who);
            let refund = refund_to.as_deref().unwrap_or(who);
            for f in funds {
                let r = o.required(n).iter().find(|x| x.denom == f.denom).map(|x| x.amount.u128()).unwrap_or(0);
                add(&mut e, who, &f.denom, -(f.amount.u128() as i128));
                add(&mut e, CORE, &f.denom, r as i128);
                add(&mut e, refund, &f.denom, (f.amount.u128() - r) as i128);
            }
            let fee = o.mint_fee(n);
            ensure!(fee <= n, "mint fee above the amount");
            add(&mut e, o.fee.collector.as_str(), o.index(), fee as i128);
            add(&mut e, recv, o.index(), (n - fee) as i128);
            e.retain(|_, v| *v != 0);
            let d = bank_delta(&t.pre.w, t.w);
            ensure!(d == e, "mint of {n} with {funds:?} moved {d:?}, expected {e:?}");
        }
        Ok(())
    }
}
pub fn c03(r: &mut Report) {
    let t = r.thorough;
    let base = |big: bool| {
        let mut v = ledger_inits(big);
        v.extend(inits(vec![
            ("f0", seeded(U1, f0(), "uatomo", 3, 0)),
            ("index donated", donated(seeded(U1, f1(), "uatomo", 5000, 7))),
            ("f2", seeded(U4, f2(), "uatomo", 5, 5)),
            ("tiny unit", seeded(U3, f2(), "uatomo", 5, 5)),
            ("half drained", then(seeded(U1, f1(), "uatomo", 1000, 0), |w| {
                w.wait(YEAR / 2);
                Ok(())
            })),
            ("zero unit", seeded(super::fees::U5, f1(), "uatomo", 1000, 7)),
            ("all drained", then(seeded(U1, f1(), "uatomo", 1000, 9), |w| {
                w.wait(100 * YEAR);
                Ok(())
            })),
        ]));
        v.extend(after_reb_inits());
        v
    };
    let m = CM { name: "mint".into(), inits: base(true), p: C03 { amounts: vec![1, 2, 7, 1000, 999_999_999_999, 1_000_000_000_000_000_003], waits: vec![1, 86_400, YEAR], all_to: true } };
    r.bfs(&m, 1);
    let m = CM { name: "mint, many assets".into(), inits: wide_inits(), p: C03 { amounts: vec![1, 1001], waits: vec![YEAR], all_to: false } };
    r.bfs(&m, if t { 2 } else { 1 });
    let m = CM { name: "mint after history".into(), inits: base(t), p: C03 { amounts: if t { vec![1, 3, 1001] } else { vec![3, 1001] }, waits: vec![86_399], all_to: false } };
    r.bfs(&m, if t { 4 } else { 3 });
}

// ------------------------------------------------------------------ C04
struct C04 {
    mints: Vec<u128>,
    waits: Vec<u64>,
    to: bool,
}
impl Prop for C04 {
    type G = ();
    fn init(&self, _: &World, _: &Obs) {}
    fn ops(&self, s: &CS<()>) -> Vec<Op> {
        let o = &s.o;
        let idx = o.index();
        let mut v = vec![];
        for who in ["alice", "bobby", COL, GOV, "manag"] {
            let b = s.w.bal(who, idx);
            for n in dedup(vec![1, 2, 3, 67, b / 3, b / 2, b.saturating_sub(1), b]) {
                if n == 0 || n > b {
                    continue;
                }
                v.push(ex(who, burn(), vec![c(n, idx)]));
                if self.to {
                    for to in ["carol", COL, CORE] {
                        v.push(ex(who, ExecuteMsg::Burn { redeem_to: Some(to.into()) }, vec![c(n, idx)]));
                    }
                }
            }
            if b > 1 && self.to && who == "alice" {
                v.push(ex(who, burn(), sorted(vec![c(1, idx), c(5, "uatom")])));
                v.push(ex(who, burn(), vec![c(5, "uatom")]));
                v.push(ex(who, burn(), vec![]));
            }
        }
        for n in &self.mints {
            v.push(ex("alice", mint(*n), sorted(o.required(*n))));
            v.push(ex("alice", mint(*n), plus(sorted(o.required(*n)), 10)));
        }
        for d in &self.waits {
            v.push(Op::Wait(*d));
        }
        v.push(Op::Send("carol", CORE, "uatom".into(), 2));
        for f in [f0(), fee(Some("0.3"), Some("0.333333333333333333"), Some((CAP, false)), "bobby")] {
            v.push(ex(GOV, ExecuteMsg::Gov(GovMsg::UpdateFeeStrategy(f)), vec![]));
        }
        v
    }
    fn step(&self, t: &Tx<()>, _: &mut Stat) -> Result<(), V> {
        let Some((who, m, funds)) = t.exec() else { return Ok(()) };
        if !t.ok() {
            return Ok(());
        }
        let o = &t.pre.o;
        let idx = o.index();
        let (is_mint, selfish) = match m {
            ExecuteMsg::Burn { redeem_to } => {
                let n: u128 = funds.iter().filter(|x| x.denom == idx).map(|x| x.amount.u128()).sum();
                let fee = o.burn_fee(n);
                let net = n - fee;
                let to = redeem_to.as_deref().unwrap_or(who);
                let mut e = Bank::new();
                // whatever else is attached does not stay here
                add(&mut e, who, &idx, -(n as i128));
                add(&mut e, o.fee.collector.as_str(), idx, fee as i128);
                for (d, un) in &o.units {
                    let p = mulf(*un, net) as i128;
                    add(&mut e, CORE, d, -p);
                    add(&mut e, to, d, p);
                }
                e.retain(|_, v| *v != 0);
                let d = bank_delta(&t.pre.w, t.w);
                ensure!(d == e, "burn of {n} moved {d:?}, expected {e:?}");
                ensure!(t.pre.o.supply == t.o.supply + net, "burn of {n} with fee {fee} destroyed {}", t.pre.o.supply - t.o.supply);
                (false, to == who)
            }
            ExecuteMsg::Mint { receiver, refund_to, .. } => (true, receiver.as_deref().unwrap_or(who) == who && refund_to.as_deref().unwrap_or(who) == who),
            _ => return Ok(()),
        };
        // consequences: units untouched, backing per remaining token never lowered, no gain for the actor
        ensure!(t.o.units == o.units, "units changed from {:?} to {:?}", o.units, t.o.units);
        for (d, un) in &o.units {
            let owed = |w: &World, x: &Obs| (u256(w.bal(CORE, d)) * u256(E18), u256(*un) * u256(x.supply) + u256(x.col(d)) * u256(E18));
            let (h0, o0) = owed(&t.pre.w, o);
            let (h1, o1) = owed(t.w, t.o);
            // h1 - o1 >= h0 - o0
            ensure!(h1 + o0 >= h0 + o1, "{} lowered the backing of the remaining tokens in {d}", if is_mint { "mint" } else { "burn" });
            if selfish && who != o.fee.collector.as_str() {
                let val = |w: &World| u256(w.bal(who, d)) * u256(E18) + u256(*un) * u256(w.bal(who, idx));
                ensure!(val(t.w) <= val(&t.pre.w), "{who} gained {d} from {:?}", t.op);
            }
        }
        Ok(())
    }
}
pub fn c04(r: &mut Report) {
    let t = r.thorough;
    let mut ini = ledger_inits(true);
    ini.extend(inits(vec![
        ("f0 small", seeded(U4, f0(), "uatomo", 11, 5)),
        ("donated", donated(seeded(U1, f1(), "uatomo", 5000, 7))),
        ("f2 small", seeded(U2, f2(), "uatomo", 3, 2)),
        ("drained", then(seeded(U1, f1(), "uatomo", 1000, 9), |w| {
            w.wait(100 * YEAR);
            Ok(())
        })),
    ]));
    ini.extend(inits(vec![("zero unit", seeded(super::fees::U5, f1(), "uatomo", 1000, 7))]));
    ini.extend(after_reb_inits());
    ini.extend(wide_inits());
    let m = CM { name: "burn".into(), inits: ini.clone(), p: C04 { mints: vec![2, 1000], waits: vec![1, YEAR / 3], to: true } };
    r.bfs(&m, if t { 3 } else { 2 });
    let m = CM { name: "burn/mint sequences".into(), inits: ini, p: C04 { mints: vec![1, 3, 333], waits: vec![86_400], to: false } };
    r.bfs(&m, if t { 4 } else { 3 });
}
