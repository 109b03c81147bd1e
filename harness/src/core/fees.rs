//! C05 streaming fee accrual, C06 fee bounds.
use super::ledger::*;
use super::*;
use cosmwasm_std::Uint512;

// ------------------------------------------------------------------ C05
/// ((1+r)^secs - 1) capped at 1, scaled 1e18, computed with 36 decimals
pub fn compound(r: u128, secs: u64) -> u128 {
    let one = Uint512::from(E18) * Uint512::from(E18);
    let two = one + one;
    let mut base = one + Uint512::from(r) * Uint512::from(E18);
    let mut acc = one;
    let mut n = secs;
    while n > 0 {
        if n & 1 == 1 {
            acc = acc * base / one;
            if acc >= two {
                return E18;
            }
        }
        n >>= 1;
        if n > 0 {
            base = base * base / one;
            if base >= two {
                return E18;
            }
        }
    }
    ((acc - one) / Uint512::from(E18)).to_string().parse().unwrap()
}
/// largest deviation an 18-decimal implementation of the power may show
pub fn rate_tol(secs: u64) -> u128 {
    8 * secs as u128 + 20
}

#[derive(Clone, Debug, PartialEq)]
struct Base {
    units: Vec<(String, u128)>,
    time: u64,
    collected: BTreeMap<String, u128>,
}
#[derive(Clone, Debug)]
pub struct G5 {
    rate: Option<u128>,
    frozen: bool,
    cands: Vec<Base>,
    rg: RG,
}
struct C05 {
    ops: LedgerOps,
    mini: bool,
}
impl C05 {
    fn active(&self, g: &G5, o: &Obs) -> bool {
        g.rate.is_some() && !g.frozen && o.reb.is_none()
    }
    /// is the observed state at time t the one this candidate accrues to?
    fn fits(&self, b: &Base, g: &G5, t: u64, o: &Obs, active: bool) -> Result<(), String> {
        let rate = if active { compound(g.rate.unwrap(), t - b.time) } else { 0 };
        let tol = if active { rate_tol(t - b.time) } else { 0 };
        if b.units.len() != o.units.len() {
            return Err("portfolio changed".into());
        }
        for (d, u0) in &b.units {
            let u1 = o.unit(d);
            let want = u0 - to128(u256(*u0) * u256(rate) / u256(E18));
            let slack = if active { to128(u256(*u0) * u256(tol) / u256(E18)) + 2 } else { 0 };
            if u1.abs_diff(want) > slack || u1 > *u0 {
                return Err(format!("unit of {d} was {u0} at {}, expected {want} at {t}, found {u1}", b.time));
            }
            let due = b.collected.get(d).copied().unwrap_or(0) + mulf(u0 - u1, o.supply);
            let got = o.col(d);
            if got.abs_diff(due) > if active { 1 } else { 0 } {
                return Err(format!("collected {d} is {got}, expected {due} (units shrank by {} over supply {})", u0 - u1, o.supply));
            }
        }
        for (d, n) in &b.collected {
            if !b.units.iter().any(|u| &u.0 == d) && o.col(d) != *n {
                return Err(format!("collected {d} changed from {n} to {}", o.col(d)));
            }
        }
        Ok(())
    }
    fn now(&self, w: &World, o: &Obs) -> Base {
        Base { units: o.units.clone(), time: w.time, collected: o.collected.clone() }
    }
}
impl Prop for C05 {
    type G = G5;
    fn init(&self, w: &World, o: &Obs) -> G5 {
        G5 {
            rate: o.fee.streaming_fee.as_ref().map(|s| s.rate.atomics().u128()),
            frozen: o.reb.is_none() && o.fee.streaming_fee.as_ref().map(|s| s.freeze).unwrap_or(false),
            cands: vec![self.now(w, o)],
            rg: RG::default(),
        }
    }
    fn ops(&self, s: &CS<G5>) -> Vec<Op> {
        let mut v = ledger_ops(&s.w, &s.o, &s.g.rg, &self.ops);
        if !self.mini {
            v.push(ex("alice", ExecuteMsg::Realize {}, vec![]));
            v.push(ex("colle2", ExecuteMsg::Realize {}, vec![]));
            v.push(ex(GOV, ExecuteMsg::Realize {}, vec![]));
            if s.o.paused() {
                v.push(ex(GOV, ExecuteMsg::Gov(GovMsg::Release {}), vec![]));
            } else {
                v.push(ex(GOV, ExecuteMsg::Gov(GovMsg::Pause { expires_at: None }), vec![]));
            }
            v.push(Op::Migrate(Some(true)));
            v.push(ex(GOV, trade_info("uatom", &[(1, "uatomo")], 0, u128::MAX), vec![]));
            if s.o.reb.is_none() {
                v.push(ex(GOV, ExecuteMsg::Gov(GovMsg::UpdateReserveDenom("uatomo".into())), vec![]));
            }
        }
        v
    }
    fn step(&self, t: &Tx<G5>, st: &mut Stat) -> Result<G5, V> {
        let mut g = t.pre.g.clone();
        let (o0, o1) = (&t.pre.o, t.o);
        if !t.ok() {
            return Ok(g);
        }
        if let Op::Wait(_) = t.op {
            let act = self.active(&g, o1);
            let mut why = String::new();
            g.cands.retain(|b| match self.fits(b, &g_view(&t.pre.g), t.w.time, o1, act) {
                Ok(()) => true,
                Err(e) => {
                    why = e;
                    false
                }
            });
            hit(st, if act { "time passed while accruing" } else { "time passed without accrual" });
            ensure!(!g.cands.is_empty(), "after {:?} ({}): {why}", t.op, if act { "fees accrue" } else { "no fee may accrue" });
            return Ok(g);
        }
        g.rg = g.rg.update(t);
        let delta = bank_delta(&t.pre.w, t.w);
        let col0 = o0.fee.collector.to_string();
        let was = self.active(&t.pre.g, o0);
        // the payout expected from this transaction
        let mut payout = Bank::new();
        for (d, n) in &o0.collected {
            add(&mut payout, &col0, d, *n as i128);
            add(&mut payout, CORE, d, -(*n as i128));
        }
        payout.retain(|_, v| *v != 0);
        let mut must_account = true;
        match t.exec() {
            Some((who, ExecuteMsg::Realize {}, _)) => {
                ensure!(who == col0, "{who} could trigger a payout, the collector is {col0}");
                // without a streaming fee there is nothing to pay
                ensure!(delta == payout, "realize moved {delta:?}, collected were {:?}", o0.collected);
                ensure!(o1.collected.is_empty(), "fees {:?} are still payable after payout", o1.collected);
                hit(st, if payout.is_empty() { "empty payout" } else { "payout" });
            }
            Some((_, ExecuteMsg::Gov(GovMsg::UpdateFeeStrategy(f)), _)) => {
                let kept = delta.is_empty() && o1.collected == o0.collected && f.collector == col0 && f.streaming_fee.is_some();
                ensure!(
                    kept || (delta == payout && o1.collected.is_empty()),
                    "fee update moved {delta:?} and left {:?}; {:?} had been collected for {col0}",
                    o1.collected,
                    o0.collected
                );
                g.rate = f.streaming_fee.as_ref().map(|s| s.rate.atomics().u128());
                g.frozen = f.streaming_fee.as_ref().map(|s| s.freeze).unwrap_or(false);
                hit(st, if payout.is_empty() { "fee update without payout" } else { "fee update with payout" });
            }
            Some((_, ExecuteMsg::Mint { .. }, _)) | Some((_, ExecuteMsg::Burn { .. }, _)) => {
                ensure!(o1.collected == o0.collected, "{:?} changed the payable fees from {:?} to {:?}", t.op, o0.collected, o1.collected);
            }
            _ => {
                must_account = o1.reb.is_some() != o0.reb.is_some();
                ensure!(o1.collected == o0.collected, "{:?} changed the payable fees from {:?} to {:?}", t.op, o0.collected, o1.collected);
            }
        }
        let trade = matches!(t.exec(), Some((_, ExecuteMsg::Rebalance(_), _)));
        if !trade {
            ensure!(o1.units == o0.units, "{:?} changed the units from {:?} to {:?}", t.op, o0.units, o1.units);
        }
        if o0.reb.is_some() && o1.reb.is_none() {
            // fees accrue again from the end of the rebalance; a freeze by governance may or may not survive it
            g.frozen = g.frozen && o1.fee.streaming_fee.as_ref().map(|s| s.freeze).unwrap_or(false);
        }
        let act = self.active(&g, o1);
        let mut nc = vec![self.now(t.w, o1)];
        if !must_account && was && act && !trade {
            for b in &t.pre.g.cands {
                if !nc.contains(b) {
                    nc.push(b.clone())
                }
            }
        }
        g.cands = nc;
        Ok(g)
    }
}
fn g_view(g: &G5) -> G5 {
    G5 { rate: g.rate, frozen: g.frozen, cands: vec![], rg: RG::default() }
}
pub const U5: Us = &[("uatomo", "1"), ("uatom", "0.5"), ("Uatom", "22.2"), ("ibc/uatom", "0")];
pub fn c05(r: &mut Report) {
    let t = r.thorough;
    let fees = vec![
        fee(Some("0.5"), None, Some(("0.000000001", false)), "colle2"),
        fee(None, None, Some((CAP, true)), COL),
        fee(None, Some("0.1"), Some((CAP, false)), COL),
        f0(),
    ];
    let ini = || {
        inits(vec![
            ("genesis", genesis(U1, f1(), "uatomo")),
            ("seeded", seeded(U5, f1(), "uatomo", 1_000_003, 7)),
            ("seeded slow rate", seeded(U2, f2(), "uatomo", 1_000_000_000_000, 10)),
            ("seeded frozen", seeded(U5, f3(), "uatomo", 100_000, 7)),
            ("seeded without fee", seeded(U5, f0(), "uatomo", 100_000, 7)),
            ("accrued", then(seeded(U5, f1(), "uatomo", 1_000_003, 7), |w| {
                w.wait(1000);
                do_mint(w, "carol", 12_345)?;
                w.wait(77_777);
                w.exec(COL, CORE, Msg::Core(ExecuteMsg::Realize {}), &[])
            })),
        ])
    };
    // a zero-unit asset as deflation target lets a rebalance start and end at once
    let l = LedgerOps { mints: vec![1000], waits: vec![1, 100_003, YEAR], fees: fees.clone(), deflation: vec![("ibc/uatom", "0")], inflation: vec![("Uatom", "0.4")], lean: true };
    let m = CM { name: "accrual".into(), inits: ini(), p: C05 { ops: l, mini: false } };
    r.bfs(&m, if t { 5 } else { 4 });
    let l = LedgerOps { mints: vec![1000], waits: vec![3600, 3 * YEAR], fees: vec![fees[0].clone(), fees[1].clone()], deflation: vec![("ibc/uatom", "0")], inflation: vec![("Uatom", "0.4")], lean: true };
    let m = CM { name: "accrual, longer".into(), inits: ini(), p: C05 { ops: l, mini: true } };
    r.bfs(&m, if t { 7 } else { 5 });
    let l = LedgerOps { mints: vec![1000], waits: vec![86_400, 3 * YEAR], fees: fees.clone(), deflation: vec![("u29", "0.3")], inflation: vec![("u58", "0.4")], lean: true };
    let m = CM { name: "many assets".into(), inits: wide_inits(), p: C05 { ops: l, mini: true } };
    r.bfs(&m, if t { 4 } else { 3 });
    // generations between two transactions
    let slow = |rate| fee(None, Some("0.1"), Some((rate, false)), COL);
    let l = LedgerOps { mints: vec![1000], waits: vec![61 * YEAR, 149 * YEAR + 1], fees: vec![slow("0.0000000001"), slow(CAP)], deflation: vec![("ibc/uatom", "0")], inflation: vec![("Uatom", "0.4")], lean: true };
    let ri = inits(vec![
        ("slowest", seeded(U5, slow("0.000000000000000001"), "uatomo", 1_000_000_007, 7)),
        ("slow", seeded(U5, slow("0.0000000001"), "uatomo", 1_000_000_007, 7)),
        ("fastest", seeded(U5, slow(CAP), "uatomo", 1_000_000_007, 7)),
    ]);
    let m = CM { name: "lifetimes".into(), inits: ri, p: C05 { ops: l, mini: true } };
    r.bfs(&m, 3); // block times end in 2554
    // rebalances with trades in between
    let l = LedgerOps { mints: vec![1000], waits: vec![86_400, 30 * YEAR], fees: vec![fees[0].clone()], deflation: vec![("uatomo", "0.3")], inflation: vec![("ibc/uatom", "0.4")], lean: true };
    let mut ri = reb_inits();
    ri.extend(ini());
    let m = CM { name: "rebalance window".into(), inits: ri, p: C05 { ops: l, mini: true } };
    r.bfs(&m, if t { 7 } else { 5 });
    // portfolios whose assets came and went while fees were pending
    let l = LedgerOps { mints: vec![1000], waits: vec![86_400, YEAR], fees: vec![fees[0].clone(), fees[2].clone()], deflation: vec![("uatomo", "0.3")], inflation: vec![("ibc/uatom", "0.4")], lean: true };
    let m = CM { name: "after rebalances".into(), inits: after_reb_inits(), p: C05 { ops: l, mini: true } };
    r.bfs(&m, if t { 5 } else { 4 });
}

// ------------------------------------------------------------------ C06
pub fn rates() -> Vec<Option<Decimal>> {
    ["0", "0.000000000000000001", "0.000000021979552", "0.000000021979553", "0.000000021979553001", "0.000000021979554", "0.01", "0.5", "0.999999999999999999", "1", "1.000000000000000001", "2", "340282366920938463463"]
        .iter()
        .map(|s| Decimal::from_str(s).unwrap_or(Decimal::MAX))
        .map(Some)
        .chain([None])
        .collect()
}
pub fn legal(f: &FeePayload) -> bool {
    let ok = |r: &Option<Decimal>| r.map(|x| x > Decimal::zero() && x < Decimal::one()).unwrap_or(true);
    let cap = dec(CAP);
    ok(&f.mint_fee) && ok(&f.burn_fee) && f.streaming_fee.as_ref().map(|s| s.rate > Decimal::zero() && s.rate <= cap).unwrap_or(true)
}
pub fn current(o: &Obs) -> FeePayload {
    FeePayload {
        collector: o.fee.collector.to_string(),
        mint_fee: o.fee.mint_fee,
        burn_fee: o.fee.burn_fee,
        streaming_fee: o.fee.streaming_fee.as_ref().map(|s| StreamingFeePayload { rate: s.rate, freeze: s.freeze }),
    }
}
struct C06 {
    payloads: Vec<FeePayload>,
}
impl Prop for C06 {
    type G = ();
    fn init(&self, _: &World, _: &Obs) {}
    fn ops(&self, s: &CS<()>) -> Vec<Op> {
        let mut v: Vec<Op> = self.payloads.iter().map(|f| ex(GOV, ExecuteMsg::Gov(GovMsg::UpdateFeeStrategy(f.clone())), vec![])).collect();
        v.push(ex("alice", ExecuteMsg::Gov(GovMsg::UpdateFeeStrategy(f2())), vec![]));
        v.push(ex("alice", mint(1000), sorted(s.o.required(1000))));
        v.push(ex(COL, ExecuteMsg::Realize {}, vec![]));
        v.push(ex(GOV, reb_init(None, &[("ibc/uatom", "0")], &[("Uatom", "1")]), vec![]));
        v.push(ex(GOV, finalize(), vec![]));
        v.push(Op::Wait(1000));
        v
    }
    fn step(&self, t: &Tx<()>, st: &mut Stat) -> Result<(), V> {
        let (a, b) = (current(&t.pre.o), current(t.o));
        if let Some((who, ExecuteMsg::Gov(GovMsg::UpdateFeeStrategy(f)), _)) = t.exec() {
            let l = legal(f);
            hit(st, if l { "legal update" } else { "illegal update" });
            if t.ok() {
                ensure!(l, "illegal fee settings {f:?} were accepted");
                ensure!(b == *f, "fee update to {f:?} made {b:?} current");
            } else if l && who == GOV && t.pre.o.reb.is_none() {
                viol!("legal fee settings {f:?} were refused: {:?}", t.res);
            }
            return Ok(());
        }
        // only a rebalance may touch the freeze flag
        let strip = |f: &FeePayload| {
            let mut f = f.clone();
            if let Some(s) = f.streaming_fee.as_mut() {
                s.freeze = false
            }
            f
        };
        if matches!(t.exec(), Some((_, ExecuteMsg::Rebalance(_), _))) {
            ensure!(strip(&a) == strip(&b), "{:?} changed the fee settings from {a:?} to {b:?}", t.op);
        } else {
            ensure!(a == b, "{:?} changed the fee settings from {a:?} to {b:?}", t.op);
        }
        Ok(())
    }
    fn check(&self, s: &CS<()>, _: &mut Stat) -> Result<(), V> {
        let f = current(&s.o);
        ensure!(legal(&f), "fee settings in force are illegal: {f:?}");
        Ok(())
    }
}
pub fn c06(r: &mut Report) {
    let t = r.thorough;
    let rs = rates();
    let mut all = vec![];
    for m in &rs {
        for b in &rs {
            for s in &rs {
                for freeze in [false, true] {
                    if s.is_none() && freeze {
                        continue;
                    }
                    all.push(FeePayload { collector: COL.into(), mint_fee: *m, burn_fee: *b, streaming_fee: s.map(|rate| StreamingFeePayload { rate, freeze }) });
                }
            }
        }
    }
    r.grid("instantiate", &all, |f, st| {
        let w = genesis(U1, f.clone(), "uatomo");
        let l = legal(f);
        hit(st, if l { "legal instantiation" } else { "illegal instantiation" });
        match w {
            Ok(w) => {
                ensure!(l, "instantiation with illegal fees {f:?} was accepted");
                let o = Obs::of(&w).map_err(|e| V { key: "".into(), msg: e })?;
                ensure!(current(&o) == *f, "instantiation with {f:?} made {:?} current", current(&o));
            }
            Err(e) => ensure!(!l, "instantiation with legal fees {f:?} was refused: {e}"),
        }
        Ok(1)
    });
    let ini = || inits(vec![("f1", seeded(U5, f1(), "uatomo", 1000, 7)), ("f0", seeded(U5, f0(), "uatomo", 1000, 7)), ("f3", seeded(U5, f3(), "uatomo", 100_000, 7))]);
    let m = CM { name: "update".into(), inits: ini(), p: C06 { payloads: all.clone() } };
    r.bfs(&m, 1);
    // sequences of updates: one deviation per field, two collectors
    let mut few = vec![f0(), f1(), f2(), f3()];
    for x in &rs {
        few.push(FeePayload { mint_fee: *x, ..fee(None, Some("0.2"), Some(("0.000000001", false)), "colle2") });
        few.push(FeePayload { burn_fee: *x, ..fee(Some("0.1"), None, None, "colle2") });
        if let Some(rate) = x {
            few.push(FeePayload { streaming_fee: Some(StreamingFeePayload { rate: *rate, freeze: true }), ..f0() });
        }
    }
    let m = CM { name: "update sequences".into(), inits: ini(), p: C06 { payloads: few } };
    r.bfs(&m, if t { 3 } else { 2 });
}
