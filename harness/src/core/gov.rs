//! C07 governance, C08 pause.
use super::fees::U5;
use super::ledger::*;
use super::*;

fn g(m: GovMsg) -> ExecuteMsg {
    ExecuteMsg::Gov(m)
}
const PEOPLE: [&str; 5] = [GOV, "alice", "bobby", "manag", COL];
fn named(s: &str) -> &'static str {
    PEOPLE.iter().chain(["carol", "colle2"].iter()).find(|p| **p == s).copied().unwrap_or(GOV)
}

// ------------------------------------------------------------------ C07
#[derive(Clone, Debug, PartialEq)]
pub struct G7 {
    gov: String,
    pending: Option<String>,
}
struct C07;
impl Prop for C07 {
    type G = G7;
    fn init(&self, _: &World, _: &Obs) -> G7 {
        G7 { gov: GOV.into(), pending: None }
    }
    fn ops(&self, s: &CS<G7>) -> Vec<Op> {
        let mut v = vec![];
        for p in PEOPLE {
            for m in [
                g(GovMsg::Pause { expires_at: None }),
                g(GovMsg::Pause { expires_at: Some(s.w.time + 5) }),
                g(GovMsg::Release {}),
                g(GovMsg::UpdateGov("bobby".into())),
                g(GovMsg::UpdateGov("alice".into())),
                g(GovMsg::AcceptGov {}),
                g(GovMsg::RevokeGov {}),
                g(GovMsg::UpdateFeeStrategy(f2())),
                g(GovMsg::UpdateRebalanceManager(Some("alice".into()))),
                g(GovMsg::UpdateRebalanceManager(None)),
                g(GovMsg::UpdateRebalanceManager(Some(GOV.into()))),
                g(GovMsg::UpdateReserveDenom("uatom".into())),
                trade_info("uatom", &[(5, "uatomo")], 3, 77),
                reb_init(Some("manag"), &[("ibc/uatom", "0")], &[("Uatom", "1")]),
            ] {
                v.push(ex(p, m, vec![]));
            }
        }
        for p in [s.g.gov.as_str(), "alice", "manag"] {
            // values that change nothing, or serve the sender
            let p = named(p);
            v.push(ex(p, g(GovMsg::UpdateReserveDenom(s.o.cfg.reserve_denom.clone())), vec![]));
            v.push(ex(p, g(GovMsg::UpdateReserveDenom(s.o.index().into())), vec![]));
            v.push(ex(p, g(GovMsg::UpdateRebalanceManager(s.o.reb.as_ref().and_then(|r| r.manager.clone()).map(|x| x.to_string()))), vec![]));
            v.push(ex(p, g(GovMsg::UpdateFeeStrategy(fee(None, None, None, p))), vec![]));
            v.push(ex(p, trade_info("uzzz", &[(5, "uzzy")], 0, 0), vec![]));
        }
        v.push(ex(GOV, g(GovMsg::UpdateGov(GOV.into())), vec![]));
        v.push(ex(GOV, g(GovMsg::UpdateGov("X".into())), vec![]));
        v.push(ex("manag", finalize(), vec![]));
        v.push(ex("alice", mint(1000), sorted(s.o.required(1000))));
        v.push(ex("alice", burn(), vec![c(10, s.o.index())]));
        v.push(Op::Migrate(Some(true)));
        v.push(Op::Wait(10));
        v
    }
    fn step(&self, t: &Tx<G7>, st: &mut Stat) -> Result<G7, V> {
        let mut n = t.pre.g.clone();
        let idle = t.pre.o.reb.is_none();
        if let Some((who, m, _)) = t.exec() {
            let governed = matches!(m, ExecuteMsg::Gov(x) if !matches!(x, GovMsg::AcceptGov {})) || matches!(m, ExecuteMsg::Rebalance(RebalanceMsg::Init { .. }));
            let is_gov = who == n.gov;
            if governed && !is_gov {
                hit(st, "governed message by an outsider");
                ensure!(!t.ok(), "{who} is not the governor ({}) and could execute {m:?}", n.gov);
            }
            match m {
                ExecuteMsg::Gov(GovMsg::AcceptGov {}) => {
                    let entitled = n.pending.as_deref() == Some(who);
                    ensure!(t.ok() == entitled, "{who} accepting governance: {:?}, pending proposal is {:?}", t.res, n.pending);
                    if t.ok() {
                        hit(st, "handover");
                        n.gov = who.into();
                        n.pending = None;
                    }
                }
                ExecuteMsg::Gov(GovMsg::UpdateGov(x)) => {
                    if t.ok() {
                        ensure!(n.pending.is_none(), "a second proposal was opened while {:?} is pending", n.pending);
                        n.pending = Some(x.clone());
                    } else if is_gov && x.len() > 3 {
                        ensure!(n.pending.is_some(), "the governor could not propose {x}: {:?}", t.res);
                    }
                }
                ExecuteMsg::Gov(GovMsg::RevokeGov {}) => {
                    if t.ok() {
                        n.pending = None;
                    } else if is_gov {
                        ensure!(n.pending.is_none(), "the governor could not revoke: {:?}", t.res);
                    }
                }
                ExecuteMsg::Gov(GovMsg::Pause { .. }) if is_gov && !t.pre.o.paused() => ensure!(t.ok(), "the governor {who} could not pause: {:?}", t.res),
                ExecuteMsg::Gov(GovMsg::Release {}) if is_gov && t.pre.o.paused() => ensure!(t.ok(), "the governor {who} could not release: {:?}", t.res),
                ExecuteMsg::Gov(GovMsg::UpdateFeeStrategy(_)) | ExecuteMsg::Gov(GovMsg::UpdateReserveDenom(_)) if is_gov && idle => {
                    ensure!(t.ok(), "the governor {who} was refused {m:?}: {:?}", t.res)
                }
                ExecuteMsg::Gov(GovMsg::UpdateTradeInfo { .. }) if is_gov => ensure!(t.ok(), "the governor {who} was refused {m:?}: {:?}", t.res),
                ExecuteMsg::Gov(GovMsg::UpdateRebalanceManager(_)) if is_gov && !idle => ensure!(t.ok(), "the governor {who} was refused {m:?}: {:?}", t.res),
                _ => {}
            }
            if t.ok() {
                match m {
                    ExecuteMsg::Gov(GovMsg::UpdateReserveDenom(d)) => ensure!(&t.o.cfg.reserve_denom == d, "reserve asset is {} after setting {d}", t.o.cfg.reserve_denom),
                    ExecuteMsg::Gov(GovMsg::UpdateRebalanceManager(x)) => {
                        let got = t.o.reb.as_ref().and_then(|r| r.manager.clone()).map(|a| a.to_string());
                        ensure!(&got == x, "manager is {got:?} after setting {x:?}");
                    }
                    _ => ensure!(t.o.cfg.reserve_denom == t.pre.o.cfg.reserve_denom, "{m:?} changed the reserve asset"),
                }
            }
        }
        let by_rebalance = matches!(t.exec(), Some((_, ExecuteMsg::Rebalance(_) | ExecuteMsg::Gov(GovMsg::UpdateRebalanceManager(_)), _)));
        ensure!(by_rebalance || t.o.reb == t.pre.o.reb, "{:?} changed the rebalance from {:?} to {:?}", t.op, t.pre.o.reb, t.o.reb);
        let (gv, pd) = (t.o.cfg.gov.to_string(), t.o.cfg.pending_gov.as_ref().map(|a| a.to_string()));
        ensure!(gv == n.gov && pd == n.pending, "after {:?} governor/pending are {gv}/{pd:?}, expected {}/{:?}", t.op, n.gov, n.pending);
        Ok(n)
    }
}
pub fn c07(r: &mut Report) {
    let ini = inits(vec![("idle", seeded(U5, f1(), "uatomo", 1000, 7)), ("rebalancing", seeded(U5, f1(), "uatomo", 1000, 7).and_then(|w| rebalancing(w, Some("manag"), &[("uatom", "0.1")], &[("Uatom", "1")])))]);
    let m = CM { name: "governance".into(), inits: ini, p: C07 };
    r.bfs(&m, if r.thorough { 8 } else { 6 });
}

// ------------------------------------------------------------------ C08
#[derive(Clone, Debug)]
pub struct G8 {
    pause: Option<Option<u64>>,
}
impl G8 {
    fn at(&self, t: u64) -> bool {
        match self.pause {
            None => false,
            Some(None) => true,
            Some(Some(e)) => t < e,
        }
    }
}
struct C08;
impl Prop for C08 {
    type G = G8;
    fn init(&self, _: &World, _: &Obs) -> G8 {
        G8 { pause: None }
    }
    fn ops(&self, s: &CS<G8>) -> Vec<Op> {
        let now = s.w.time;
        let gv = named(s.o.cfg.gov.as_str());
        let mut v = vec![];
        for e in [None, Some(now - 1), Some(now), Some(now + 1), Some(now + 10), Some(now + 1000), Some(0), Some(u64::MAX)] {
            v.push(ex(gv, g(GovMsg::Pause { expires_at: e }), vec![]));
        }
        v.push(ex(gv, g(GovMsg::Release {}), vec![]));
        v.push(ex("alice", g(GovMsg::Release {}), vec![]));
        v.push(ex("alice", mint(1000), sorted(s.o.required(1000))));
        v.push(ex("bobby", ExecuteMsg::Mint { amount: 50u128.into(), receiver: Some("carol".into()), refund_to: Some("alice".into()) }, plus(sorted(s.o.required(50)), 3)));
        for (who, n) in [("alice", 10), ("bobby", 1), (gv, 2), (COL, 2)] {
            if s.w.bal(who, s.o.index()) >= n {
                v.push(ex(who, burn(), vec![c(n, s.o.index())]));
            }
        }
        // the governor is not exempt
        v.push(ex(gv, mint(77), sorted(s.o.required(77))));
        for m in [
            g(GovMsg::UpdateGov("manag".into())),
            g(GovMsg::UpdateFeeStrategy(f2())),
            g(GovMsg::UpdateReserveDenom("uatomo".into())),
            trade_info("uatom", &[(1, "uatomo")], 3, 77),
            reb_init(None, &[("ibc/uatom", "0")], &[("Uatom", "1")]),
            finalize(),
        ] {
            v.push(ex(gv, m, vec![]));
        }
        v.push(ex("manag", g(GovMsg::AcceptGov {}), vec![]));
        v.push(ex(COL, ExecuteMsg::Realize {}, vec![]));
        for d in [1, 9, 10, 990, YEAR] {
            v.push(Op::Wait(d));
        }
        v
    }
    fn step(&self, t: &Tx<G8>, st: &mut Stat) -> Result<G8, V> {
        let mut n = t.pre.g.clone();
        let now = t.pre.w.time;
        let force = n.at(now);
        let gv = t.pre.o.cfg.gov.to_string();
        if let Some((who, m, _)) = t.exec() {
            match m {
                ExecuteMsg::Mint { .. } | ExecuteMsg::Burn { .. } => {
                    if force {
                        hit(st, "mint/burn while paused");
                        ensure!(!t.ok(), "{m:?} succeeded at {now} while paused ({:?})", n.pause);
                    } else if t.pre.o.reb.is_none() {
                        hit(st, "mint/burn while not paused");
                        ensure!(t.ok(), "{m:?} was refused at {now} although no pause is in force ({:?}): {:?}", n.pause, t.res);
                    }
                }
                ExecuteMsg::Gov(GovMsg::Pause { expires_at }) => {
                    let may = who == gv && !force && expires_at.map(|e| e > now).unwrap_or(true);
                    ensure!(t.ok() == may, "pause by {who} until {expires_at:?} at {now} (in force: {:?}): {:?}", n.pause, t.res);
                    if t.ok() {
                        n.pause = Some(*expires_at);
                    }
                }
                ExecuteMsg::Gov(GovMsg::Release {}) => {
                    let may = who == gv && force;
                    ensure!(t.ok() == may, "release by {who} at {now} (in force: {:?}): {:?}", n.pause, t.res);
                    if t.ok() {
                        n.pause = None;
                    }
                }
                _ => {}
            }
        }
        Ok(n)
    }
    fn check(&self, s: &CS<G8>, _: &mut Stat) -> Result<(), V> {
        let now = s.w.time;
        let mut ts = vec![None, Some(0), Some(now - 100), Some(now - 1), Some(now), Some(now + 1), Some(now + YEAR)];
        if let Some(Some(e)) = s.g.pause {
            for x in [e.saturating_sub(1), e, e.saturating_add(1)] {
                if x < 10_000_000_000 {
                    ts.push(Some(x));
                }
            }
        }
        for x in ts {
            let at = x.unwrap_or(now);
            let q: GetConfigResponse = s.w.qcore(CORE, QueryMsg::GetConfig { time: x }).map_err(|e| V { key: "".into(), msg: e })?;
            let want = s.g.at(at);
            let exp = if want { s.g.pause.unwrap() } else { None };
            ensure!(
                q.paused.paused == want && (!want || q.paused.expires_at == exp),
                "at {now} the configuration for time {at} reports {:?}, in force is {:?}",
                q.paused,
                s.g.pause
            );
        }
        Ok(())
    }
}
pub fn c08(r: &mut Report) {
    let held = |w: R<World>| {
        then(w, |w| {
            let idx = Obs::of(w)?.index().to_string();
            for who in [GOV, COL] {
                do_mint(w, "alice", 44)?;
                w.send("alice", who, &idx, 40)?;
            }
            Ok(())
        })
    };
    let ini = inits(vec![("f1", held(seeded(U5, f1(), "uatomo", 1000, 70))), ("f0", held(seeded(U1, f0(), "uatomo", 1000, 70)))]);
    let m = CM { name: "pause".into(), inits: ini, p: C08 };
    r.bfs(&m, if r.thorough { 6 } else { 5 });
}
