//! Properties of the swap router (periphery contract).
use crate::core::*;
use std::collections::BTreeSet;
use ibcx_interface::periphery::{self as per, SwapInfoCompact, SwapInfosCompact};
use per::{ExecuteMsg as PX, QueryMsg as PQ};
use per::{SimulateBurnExactAmountInResponse as BInQ, SimulateBurnExactAmountOutResponse as BOutQ, SimulateMintExactAmountInResponse as MInQ, SimulateMintExactAmountOutResponse as MOutQ};

pub const PER: &str = "perip";
type Hop = (u64, &'static str, &'static str);

pub const MIXES: [&str; 9] = ["weighted", "unequal", "shared", "delegated", "long", "crossed", "weighted+", "delegated+", "crossed+"];
/// A mix with a plus has the same routes, in a table which lists others as well.
fn base(mix: &str) -> &str {
    mix.trim_end_matches('+')
}
/// entries for pairs that the operation has no use for
fn decoys(mix: &str, used: &dyn Fn(&str, &str) -> bool, mint: bool, front: bool) -> Vec<SwapInfoCompact> {
    let mut v = vec![];
    if base(mix) == mix {
        return v;
    }
    for (i, a) in DENOMS.iter().enumerate() {
        for (j, b) in DENOMS.iter().enumerate() {
            if a != b && !used(a, b) && ((i + j) % 2 == 0) == front {
                v.push(SwapInfoCompact { key: format!("{a},{b}"), routes: path(mix, a, b).iter().map(|h| format!("{},{}", h.0, if mint { h.1 } else { h.2 })).collect() });
            }
        }
    }
    v
}

fn canon_path(mix: &str, a: &'static str, b: &'static str) -> Vec<Hop> {
    // from `a` to `b` for a < b in the order uatom < Uatom < atom < uatomo
    let (at, ju, kr, os) = ("uatom", "Uatom", "ibc/uatom", "uatomo");
    let two = |p: u64, q: u64| vec![(p, a, os), (q, os, b)];
    match (base(mix), a, b) {
        ("weighted", "uatom", "uatomo") => vec![(1, at, os)],
        ("weighted", "Uatom", "uatomo") => vec![(2, ju, os)],
        ("weighted", "ibc/uatom", "uatomo") => vec![(3, kr, os)],
        ("weighted", "uatom", "Uatom") => vec![(4, at, ju)],
        ("weighted", "uatom", "ibc/uatom") => two(5, 3),
        ("weighted", "Uatom", "ibc/uatom") => two(2, 3),
        ("unequal", "uatom", "uatomo") => vec![(14, at, os)],
        ("unequal", "Uatom", "uatomo") => vec![(13, ju, os)],
        ("unequal", "ibc/uatom", "uatomo") => vec![(3, kr, os)],
        ("unequal", "uatom", "Uatom") => vec![(13, at, ju)],
        ("unequal", "uatom", "ibc/uatom") => two(14, 3),
        ("unequal", "Uatom", "ibc/uatom") => two(13, 3),
        ("shared", "ibc/uatom", "uatomo") => vec![(3, kr, os)],
        ("shared", x, "ibc/uatom") => vec![(13, x_static(x), os), (3, os, kr)],
        ("shared", x, y) => vec![(13, x_static(x), x_static(y))],
        ("delegated", "uatom", "uatomo") => vec![(11, at, os)],
        ("delegated", "Uatom", "uatomo") => vec![(12, ju, os)],
        ("delegated", "ibc/uatom", "uatomo") => vec![(15, kr, os)],
        ("delegated", "uatom", "Uatom") => vec![(16, at, ju)],
        ("delegated", "uatom", "ibc/uatom") => two(11, 15),
        ("delegated", "Uatom", "ibc/uatom") => two(12, 4_294_967_313),
        ("long", "uatom", "uatomo") => vec![(4, at, ju), (2, ju, os)],
        ("long", "Uatom", "uatomo") => vec![(4, ju, at), (1, at, os)],
        ("long", "ibc/uatom", "uatomo") => vec![(3, kr, os)],
        ("long", "uatom", "Uatom") => vec![(1, at, os), (2, os, ju)],
        ("long", "uatom", "ibc/uatom") => vec![(4, at, ju), (2, ju, os), (3, os, kr)],
        ("long", "Uatom", "ibc/uatom") => vec![(4, ju, at), (1, at, os), (3, os, kr)],
        ("crossed", "uatom", "uatomo") => vec![(11, at, os)],
        ("crossed", "Uatom", "uatomo") => vec![(4, ju, at), (11, at, os)],
        ("crossed", "ibc/uatom", "uatomo") => vec![(3, kr, os)],
        ("crossed", "uatom", "Uatom") => vec![(11, at, os), (12, os, ju)],
        ("crossed", "uatom", "ibc/uatom") => vec![(11, at, os), (3, os, kr)],
        ("crossed", "Uatom", "ibc/uatom") => vec![(12, ju, os), (3, os, kr)],
        x => panic!("no path {x:?}"),
    }
}
pub fn x_static(d: &str) -> &'static str {
    DENOMS.into_iter().find(|x| *x == d).expect("denom")
}
pub fn path(mix: &str, from: &str, to: &str) -> Vec<Hop> {
    let (f, t) = (x_static(from), x_static(to));
    let rank = |d: &str| ["uatom", "Uatom", "ibc/uatom", "uatomo"].iter().position(|x| *x == d);
    if rank(f) < rank(t) {
        canon_path(mix, f, t)
    } else {
        canon_path(mix, t, f).into_iter().rev().map(|(p, a, b)| (p, b, a)).collect()
    }
}
/// routes for minting from `d`: hops name the token going in
pub fn mint_info(mix: &str, d: &str, units: &[(String, u128)]) -> SwapInfosCompact {
    let used = |a: &str, b: &str| a == d && units.iter().any(|u| u.0 == b);
    let mut v = decoys(mix, &used, true, true);
    v.extend(
        units
            .iter()
            .filter(|u| u.0 != d)
            .map(|u| SwapInfoCompact { key: format!("{d},{}", u.0), routes: path(mix, d, &u.0).iter().map(|h| format!("{},{}", h.0, h.1)).collect() }),
    );
    v.extend(decoys(mix, &used, true, false));
    SwapInfosCompact(v)
}
/// routes for burning to `d`: hops name the token coming out
pub fn burn_info(mix: &str, d: &str, units: &[(String, u128)]) -> SwapInfosCompact {
    let used = |a: &str, b: &str| b == d && units.iter().any(|u| u.0 == a);
    let mut v = decoys(mix, &used, false, true);
    v.extend(
        units
            .iter()
            .filter(|u| u.0 != d)
            .map(|u| SwapInfoCompact { key: format!("{},{d}", u.0), routes: path(mix, &u.0, d).iter().map(|h| format!("{},{}", h.0, h.2)).collect() }),
    );
    v.extend(decoys(mix, &used, false, false));
    SwapInfosCompact(v)
}
/// does any pool serve two swaps of one operation (or twice one route)?
fn pools_disjoint(mix: &str, d: &str, units: &[(String, u128)]) -> bool {
    let mut seen = vec![];
    for u in units.iter().filter(|u| u.0 != d) {
        for h in path(mix, &u.0, d) {
            if seen.contains(&h.0) {
                return false;
            }
            seen.push(h.0);
        }
    }
    true
}
/// a concentrated or stable pool serves two swaps: the chain's own estimate, which the router uses
/// for those, cannot know about the earlier swap
fn delegated_twice(w: &World, mix: &str, d: &str, units: &[(String, u128)]) -> bool {
    let mut seen = vec![];
    for u in units.iter().filter(|u| u.0 != d) {
        for h in path(mix, &u.0, d) {
            if seen.contains(&h.0) && w.pools[&h.0].kind != PoolKind::Weighted {
                return true;
            }
            seen.push(h.0);
        }
    }
    false
}
/// all pools on the routes quote through the chain, or have equal weights
fn exact_pools(w: &World, mix: &str, d: &str, units: &[(String, u128)]) -> bool {
    units.iter().filter(|u| u.0 != d).all(|u| {
        path(mix, &u.0, d).iter().all(|h| {
            let p = &w.pools[&h.0];
            p.kind != PoolKind::Weighted || p.assets.iter().all(|a| a.2 == p.assets[0].2)
        })
    })
}
fn more_pools(w: &mut World) {
    w.add_pool(11, PoolKind::Concentrated, 2_000_000_000_000_000, &[("uatom", 2_000_000_000_000, 1), ("uatomo", 7_000_000_000_000, 1)]);
    w.add_pool(12, PoolKind::Stable, 500_000_000_000_000, &[("Uatom", 6_000_000_000_000, 1), ("uatomo", 2_000_000_000_000, 1)]);
    w.add_pool(13, PoolKind::Weighted, 4_000_000_000_000_000, &[("uatom", 1_000_000_000_000, 3), ("Uatom", 5_000_000_000_000, 5), ("uatomo", 2_500_000_000_000, 2)]);
    w.add_pool(14, PoolKind::Weighted, 3_000_000_000_000_000, &[("uatom", 1_000_000_000_000, 1), ("uatomo", 9_000_000_000_000, 3)]);
    w.add_pool(15, PoolKind::Concentrated, 0, &[("ibc/uatom", 8_000_000_000_000, 1), ("uatomo", 2_000_000_000_000, 1)]);
    w.add_pool(16, PoolKind::Stable, 0, &[("uatom", 3_000_000_000_000, 1), ("Uatom", 9_000_000_000_000, 1)]);
    w.add_pool(4_294_967_313, PoolKind::Concentrated, 1_000_000_000_000_000, &[("ibc/uatom", 4_000_000_000_000, 1), ("uatomo", 1_000_000_000_000, 1)]);
}
/// the pools alone
pub fn pools_only() -> World {
    let mut w = World::new(T0);
    std_pools(&mut w);
    more_pools(&mut w);
    w.strict_routes = true;
    w
}
fn setup(w: R<World>, wait: u64) -> R<World> {
    let mut w = w?;
    w.strict_routes = true;
    more_pools(&mut w);
    w.instantiate(PER, "creat", Init::Periphery(per::InstantiateMsg {}))?;
    if wait > 0 {
        w.wait(wait);
    }
    Ok(w)
}
pub const U5: Us = &[("uatom", "0.25"), ("Uatom", "3"), ("ibc/uatom", "1.5"), ("uatomo", "0.000001")];
pub fn worlds(thorough: bool) -> Vec<(String, World)> {
    let s = |u, f| seeded(u, f, "uatomo", 3_000_000_011, 1_000_003);
    let fm = fee(Some("0.003"), None, None, COL);
    let fb = fee(None, Some("0.0015"), None, COL);
    let mut v = vec![
        ("U1 no fee", setup(s(U1, f0()), 0)),
        ("U1 all fees, a day", setup(s(U1, f1()), 86_400)),
        ("U4 mint fee", setup(s(U4, fm), 0)),
        ("U5 burn fee", setup(s(U5, fb), 0)),
        ("equal units", setup(s(&[("uatomo", "0.5"), ("uatom", "0.5"), ("Uatom", "0.5"), ("ibc/uatom", "0.5")], f0()), 0)),
        ("U2 dust unit, fees", setup(s(U2, f2()), 86_400)),
        ("U1 extreme burn fee", setup(s(U1, f3()), 0)),
        (
            "U1 after a rebalance",
            setup(rebalancing_done(s(U1, f1())), 3_600),
        ),
    ];
    if thorough {
        v.push(("U3 dust only", setup(s(U3, f0()), 0)));
        v.push(("U4 all fees, a year", setup(s(U4, f1()), YEAR)));
        v.push(("U5 no fee", setup(s(U5, f0()), 0)));
    }
    inits(v)
}
/// the same chain with `f` times as much of everything
fn large(f: u128) -> Vec<(String, World)> {
    let s = |u, fee| {
        let w = setup(seeded(u, fee, "uatomo", 3_000_000_011 * f, 1_000_003), 0);
        w.map(|mut w| {
            for p in std::sync::Arc::make_mut(&mut w.pools).values_mut() {
                for a in &mut p.assets {
                    a.1 *= f;
                }
            }
            w
        })
    };
    inits(vec![("U1 large", s(U1, f0())), ("U4 large, fees", s(U4, f1()))])
}
const FACTORS: [u128; 3] = [1_000, 1_000_000, 100_000_000_000];
fn larges() -> (Vec<(World, Obs)>, Vec<u128>) {
    let ws = FACTORS.iter().flat_map(|f| large(*f).into_iter().filter_map(move |(_, w)| Obs::of(&w).ok().map(|o| ((w, o), *f))));
    ws.unzip()
}
fn large_amounts(f: u128) -> Vec<u128> {
    vec![f / 1000, f + 1, 1_000_000 * f + 12_345, 50_000_000 * f, 999_999_937 * f + 7]
}
/// a rebalance from uatom to atom, traded to the end and finalized
fn rebalancing_done(w: R<World>) -> R<World> {
    reb::finished(rebalancing(w?, None, &[("uatom", "0.2")], &[("ibc/uatom", "1")]))
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K {
    MintIn,
    MintOut,
    BurnIn,
    BurnOut,
}
pub const KS: [K; 4] = [K::MintIn, K::MintOut, K::BurnIn, K::BurnOut];
/// one router operation
#[derive(Clone, Debug)]
pub struct Act {
    pub who: &'static str,
    pub k: K,
    pub mix: &'static str,
    pub d: &'static str,
    /// what is sent: `d` for mints, index tokens for burns
    pub sent: u128,
    /// requested amount (minimum for *In, exact for *Out)
    pub want: u128,
}
impl Act {
    pub fn msg(&self, o: &Obs) -> (PX, Vec<Coin>) {
        let core_addr = CORE.to_string();
        let d = self.d.to_string();
        match self.k {
            K::MintIn => (PX::MintExactAmountIn { core_addr, input_asset: d, min_output_amount: self.want.into(), swap_info: mint_info(self.mix, self.d, &o.units) }, vec![c(self.sent, self.d)]),
            K::MintOut => (PX::MintExactAmountOut { core_addr, input_asset: d, output_amount: self.want.into(), swap_info: mint_info(self.mix, self.d, &o.units) }, vec![c(self.sent, self.d)]),
            K::BurnIn => (PX::BurnExactAmountIn { core_addr, output_asset: d, min_output_amount: self.want.into(), swap_info: burn_info(self.mix, self.d, &o.units) }, vec![c(self.sent, o.index())]),
            K::BurnOut => (PX::BurnExactAmountOut { core_addr, output_asset: c(self.want, self.d), swap_info: burn_info(self.mix, self.d, &o.units) }, vec![c(self.sent, o.index())]),
        }
    }
    pub fn run(&self, w: &mut World, o: &Obs) -> R<()> {
        let (m, f) = self.msg(o);
        w.exec(self.who, PER, Msg::Periphery(m), &f)
    }
}
pub fn q_mint_in(w: &World, o: &Obs, mix: &str, d: &str, n: u128) -> R<MInQ> {
    w.qper(PER, PQ::SimulateMintExactAmountIn { core_addr: CORE.into(), input_asset: c(n, d), swap_info: mint_info(mix, d, &o.units) })
}
pub fn q_mint_out(w: &World, o: &Obs, mix: &str, d: &str, n: u128) -> R<MOutQ> {
    w.qper(PER, PQ::SimulateMintExactAmountOut { core_addr: CORE.into(), output_amount: n.into(), input_asset: d.into(), swap_info: mint_info(mix, d, &o.units) })
}
pub fn q_burn_in(w: &World, o: &Obs, mix: &str, d: &str, n: u128) -> R<BInQ> {
    w.qper(PER, PQ::SimulateBurnExactAmountIn { core_addr: CORE.into(), input_amount: n.into(), output_asset: d.into(), swap_info: burn_info(mix, d, &o.units) })
}
pub fn q_burn_out(w: &World, o: &Obs, mix: &str, d: &str, n: u128) -> R<BOutQ> {
    w.qper(PER, PQ::SimulateBurnExactAmountOut { core_addr: CORE.into(), output_asset: c(n, d), swap_info: burn_info(mix, d, &o.units) })
}

// ------------------------------------------------------------------ by hand
/// The caller burns directly and swaps every redeemed asset along the same routes.
/// Returns the amount of `d` received.
pub fn hand_burn(w: &mut World, o: &Obs, who: &str, mix: &str, d: &str, n: u128) -> R<u128> {
    let pre: Vec<u128> = o.units.iter().map(|u| w.bal(who, &u.0)).collect();
    let d0 = w.bal(who, d);
    w.exec(who, CORE, Msg::Core(burn()), &[c(n, o.index())])?;
    let got: Vec<u128> = o.units.iter().zip(pre).map(|(u, p)| w.bal(who, &u.0) - p).collect();
    for (u, g) in o.units.iter().zip(got) {
        if u.0 != d && g > 0 {
            let hops: Vec<(u64, &str)> = path(mix, &u.0, d).iter().map(|h| (h.0, h.2)).collect();
            w.swap_in(who, &hops, &u.0, g)?;
        }
    }
    Ok(w.bal(who, d) - d0)
}
/// The caller buys every required asset along the same routes and mints directly.
/// Returns the amount of `d` spent.
pub fn hand_mint(w: &mut World, o: &Obs, who: &str, mix: &str, d: &str, n: u128) -> R<u128> {
    let d0 = w.bal(who, d);
    let req = o.required(n);
    for r in &req {
        if r.denom != d {
            let hops: Vec<(u64, &str)> = path(mix, d, &r.denom).iter().map(|h| (h.0, h.1)).collect();
            w.swap_out(who, &hops, &r.denom, r.amount.u128())?;
        }
    }
    let mut req = req;
    req.sort_by(|a, b| a.denom.cmp(&b.denom));
    w.exec(who, CORE, Msg::Core(mint(n)), &req)?;
    Ok(d0 - w.bal(who, d))
}

// ------------------------------------------------------------------ judges
pub struct Done<'a> {
    pub a: &'a Act,
    pub o: &'a Obs,
    pub pre: &'a World,
    pub post: &'a World,
    pub res: &'a R<()>,
}
fn router_empty(w: &World) -> bool {
    w.balances(PER).is_empty()
}
fn p01(t: &Done, st: &mut Stat) -> Result<(), V> {
    hit(st, format!("{:?} {}", t.a.k, if t.res.is_ok() { "ok" } else { "refused" }));
    match t.res {
        Ok(()) => {
            if router_empty(t.pre) {
                ensure!(router_empty(t.post), "the router keeps {:?} after a successful {:?}", t.post.balances(PER), t.a);
            }
        }
        Err(_) => ensure!(t.pre.bank == t.post.bank, "a failed operation moved coins"),
    }
    Ok(())
}
fn p02(t: &Done, st: &mut Stat) -> Result<(), V> {
    hit(st, format!("{:?} {}", t.a.k, if t.res.is_ok() { "ok" } else { "refused" }));
    if t.res.is_err() {
        ensure!(t.pre.bank == t.post.bank, "a failed operation moved coins");
        return Ok(());
    }
    let (a, o) = (t.a, t.o);
    let idx = o.index();
    let who = a.who;
    // coins somebody gave to the router may end up anywhere sensible, so less can be said then
    let gift = !router_empty(t.pre);
    // parties that are not involved
    let col = o.fee.collector.as_str();
    let accounts: BTreeSet<&String> = t.pre.bank.keys().chain(t.post.bank.keys()).map(|k| &k.0).collect();
    for p in accounts {
        if ![who, CORE, PER, col].contains(&p.as_str()) {
            ensure!(t.pre.balances(p) == t.post.balances(p), "{a:?} changed the balances of {p}");
        }
    }
    // the fee collector gets the fee of the index contract, nothing else
    let fees = match a.k {
        K::MintIn | K::MintOut => o.mint_fee(t.post.supply[idx].saturating_sub(t.pre.supply[idx])),
        K::BurnIn => o.burn_fee(a.sent),
        K::BurnOut => {
            let got = t.post.bal(col, idx).saturating_sub(t.pre.bal(col, idx));
            let gone = t.pre.supply[idx].saturating_sub(t.post.supply[idx]);
            ensure!(o.burn_fee(gone + got) == got, "{a:?} destroyed {gone} and gave {got} to the fee collector");
            got
        }
    };
    let mut expected = t.pre.balances(col);
    if fees > 0 {
        *expected.entry(idx.to_string()).or_default() += fees;
    }
    let now = t.post.balances(col);
    ensure!(now == expected, "{a:?} changed the fee collector's balances from {:?} to {now:?}, the fee is {fees}", t.pre.balances(col));
    for (d, b) in t.pre.balances(who) {
        if d != a.d && d != idx {
            ensure!(t.post.bal(who, &d) >= b, "{a:?} took {d} from the caller");
        }
    }
    let (i0, i1) = (t.pre.bal(who, idx), t.post.bal(who, idx));
    let (d0, d1) = (t.pre.bal(who, a.d), t.post.bal(who, a.d));
    let (s0, s1) = (t.pre.supply[idx], t.post.supply[idx]);
    if gift {
        hit(st, format!("{:?} while the router holds coins", a.k));
        ensure!(i1 + if matches!(a.k, K::BurnIn | K::BurnOut) { a.sent } else { 0 } >= i0, "{a:?} took {} index tokens", i0 - i1);
        ensure!(d1 + if matches!(a.k, K::MintIn | K::MintOut) { a.sent } else { 0 } >= d0, "{a:?} took {} {}", d0 - d1, a.d);
        match a.k {
            K::MintIn => ensure!(i1 - i0 >= a.want && s1 > s0 && i1 - i0 >= s1 - s0 - o.mint_fee(s1 - s0), "{a:?} minted {} and delivered {}", s1 - s0, i1 - i0),
            K::MintOut => ensure!(s1 == s0 + a.want && i1 - i0 >= a.want - o.mint_fee(a.want), "{a:?} minted {} and delivered {}", s1 - s0, i1 - i0),
            K::BurnIn => ensure!(s0 - s1 == a.sent - o.burn_fee(a.sent) && d1 - d0 >= a.want, "{a:?} destroyed {} and delivered {}", s0 - s1, d1 - d0),
            K::BurnOut => {
                ensure!(s0 - s1 <= a.sent - o.burn_fee(a.sent), "{a:?} destroyed {}", s0 - s1);
                let out = d1 - d0;
                ensure!(out + 5000 + 3 * (out / (s0 - s1).max(1) + 1) + 4 + wobble(a.mix, out) >= a.want, "burn for {} delivered only {out}", a.want);
            }
        }
        return Ok(());
    }
    match a.k {
        K::MintIn => {
            ensure!(i1 >= i0 && i1 - i0 >= a.want, "mint with minimum {} delivered {}", a.want, i1 as i128 - i0 as i128);
            ensure!(d1 + a.sent >= d0, "mint took {} although only {} was sent", d0 - d1, a.sent);
            ensure!(s1 > s0, "nothing was minted");
            ensure!(i1 - i0 == s1 - s0 - o.mint_fee(s1 - s0), "minting {} delivered {} (mint fee {})", s1 - s0, i1 - i0, o.mint_fee(s1 - s0));
        }
        K::MintOut => {
            ensure!(s1 - s0 == a.want, "mint of exactly {} minted {}", a.want, s1 - s0);
            ensure!(i1 - i0 == a.want - o.mint_fee(a.want), "mint of exactly {} delivered {} (mint fee {})", a.want, i1 - i0, o.mint_fee(a.want));
            ensure!(d1 + a.sent >= d0, "mint took {} although only {} was sent", d0 - d1, a.sent);
        }
        K::BurnIn => {
            ensure!(i0 - i1 == a.sent, "burn of exactly {} took {} index tokens", a.sent, i0 - i1);
            ensure!(s0 - s1 == a.sent - o.burn_fee(a.sent), "burn of exactly {} destroyed {} (burn fee {})", a.sent, s0 - s1, o.burn_fee(a.sent));
            ensure!(d1 >= d0 && d1 - d0 >= a.want, "burn with minimum output {} delivered {}", a.want, d1 as i128 - d0 as i128);
        }
        K::BurnOut => {
            let spent = i0 - i1;
            ensure!(spent <= a.sent, "burn spent {spent} of {} sent", a.sent);
            let gone = s0 - s1;
            ensure!(gone == spent - o.burn_fee(spent), "burn of {spent} destroyed {gone} (burn fee {})", o.burn_fee(spent));
            ensure!(d1 >= d0, "burn took output asset");
            let out = d1 - d0;
            let per_index = if gone == 0 { 0 } else { out / gone + 1 };
            let margin = 3 * per_index + 4 + wobble(a.mix, out);
            hit(st, format!("burnout deviation log2 {}", (a.want.abs_diff(out) as f64).log2().floor()));
            ensure!(out + 5000 + margin >= a.want, "burn for {} delivered only {out}", a.want);
            ensure!(out <= a.want + 5000 + margin, "burn for {} delivered {out}", a.want);
        }
    }
    Ok(())
}
/// how far the router's own estimate may be off on this pool mix (see DESIGN.md)
fn wobble(mix: &str, out: u128) -> u128 {
    match base(mix) {
        "delegated" => 4,
        _ => out / 1000 + 40_000,
    }
}

#[derive(Clone, Debug)]
struct Pt {
    w: usize,
    mix: &'static str,
    d: &'static str,
    k: K,
    n: u128,
}
fn points(nw: usize, thorough: bool) -> Vec<Pt> {
    let mut v = vec![];
    let amounts: Vec<u128> = if thorough {
        vec![1, 2, 3, 7, 10, 50, 99, 100, 333, 1_000, 5_000, 12_345, 100_000, 777_777, 1_000_000, 5_000_001, 50_000_000, 123_456_789, 999_999_937]
    } else {
        vec![1, 7, 100, 5_000, 12_345, 1_000_000, 50_000_000, 999_999_937]
    };
    for w in 0..nw {
        for mix in MIXES {
            for d in DENOMS {
                for k in KS {
                    for n in &amounts {
                        v.push(Pt { w, mix, d, k, n: *n });
                    }
                }
            }
        }
    }
    v
}
/// the operations tried at one grid point
fn acts(w: &World, o: &Obs, p: &Pt) -> Vec<Act> {
    let a = |sent: u128, want: u128| Act { who: "alice", k: p.k, mix: p.mix, d: p.d, sent, want };
    let n = p.n;
    let spread = |q: u128| dedup(vec![q, q + 1, q.saturating_sub(1), q / 2, q * 2, q + q / 100 + 10]);
    match p.k {
        K::MintIn => {
            let q = q_mint_in(w, o, p.mix, p.d, n * 3).map(|q| q.mint_amount.u128()).unwrap_or(n);
            let mut m = spread(q);
            m.extend([0, 1, q + 99, q + 100, q + 101, q + 102]);
            dedup(m).into_iter().map(|x| a(n * 3, x)).collect()
        }
        K::MintOut => {
            let q = q_mint_out(w, o, p.mix, p.d, n).map(|q| q.swap_result_amount.amount.u128()).unwrap_or(n);
            spread(q).into_iter().filter(|x| *x > 0).map(|x| a(x, n)).collect()
        }
        K::BurnIn => {
            let q = q_burn_in(w, o, p.mix, p.d, n).map(|q| q.swap_result_amount.amount.u128()).unwrap_or(n);
            let mut m = spread(q);
            m.extend([0, 1]);
            dedup(m).into_iter().map(|x| a(n, x)).collect()
        }
        K::BurnOut => {
            let q = q_burn_out(w, o, p.mix, p.d, n).map(|q| q.burn_amount.u128()).unwrap_or(n);
            let mut m = spread(q);
            m.push(2_000_000_000);
            dedup(m).into_iter().filter(|x| *x > 0).map(|x| a(x, n)).collect()
        }
    }
}
fn sweep(r: &mut Report, name: &str, gifts: bool, judge: impl Fn(&Done, &mut Stat) -> Result<(), V> + Sync) {
    let mut ws: Vec<(World, Obs)> = worlds(r.thorough).into_iter().filter_map(|(_, w)| Obs::of(&w).ok().map(|o| (w, o))).collect();
    if gifts {
        if !r.thorough {
            ws.truncate(4);
        }
        for (w, o) in &mut ws {
            // somebody sent coins to the router
            let mut all: Vec<String> = o.units.iter().map(|u| u.0.clone()).collect();
            all.push(o.index().to_string());
            for d in all {
                w.give(PER, &d, 700_001);
            }
            if let Ok(x) = Obs::of(w) {
                *o = x;
            }
        }
    }
    if ws.is_empty() {
        r.engine_error = Some("start states cannot be built".into());
        return;
    }
    let pts = points(ws.len(), r.thorough);
    sweep_over(r, name, gifts, &ws, &pts, judge);
}
/// amounts beyond 64 bits (the operations which search for an amount do so in steps of 5000)
fn sweep_large(r: &mut Report, judge: impl Fn(&Done, &mut Stat) -> Result<(), V> + Sync) {
    let (ws, fs) = larges();
    let mut pts = vec![];
    for (w, f) in fs.iter().enumerate() {
        for mix in MIXES {
            for d in DENOMS {
                for k in [K::MintOut, K::BurnIn] {
                    pts.extend(large_amounts(*f).into_iter().map(|n| Pt { w, mix, d, k, n }));
                }
            }
        }
    }
    sweep_over(r, "large amounts", false, &ws, &pts, judge);
}
fn sweep_over(r: &mut Report, name: &str, gifts: bool, ws: &[(World, Obs)], pts: &[Pt], judge: impl Fn(&Done, &mut Stat) -> Result<(), V> + Sync) {
    let r_thorough = r.thorough;
    r.grid(name, pts, |p, st| {
        let (w, o) = &ws[p.w];
        let mut n = 0;
        // the last ones: swaps turn out worse than the router's estimates (a chain's taker fee)
        let slips: &[u128] = if gifts { &[0] } else if r_thorough { &[0, 1, 2, 100, 20_000, 2_000_000] } else { &[0, 1, 2_000_000] };
        for (a, slip) in acts(w, o, p).into_iter().flat_map(|a| slips.iter().map(move |s| (a.clone(), *s))) {
            let mut x = w.clone();
            x.slip = slip;
            let w = &x.clone();
            let res = a.run(&mut x, o);
            if std::env::var("MC_ERR").is_ok() {
                if let Err(e) = &res {
                    let e: String = e.chars().filter(|c| !c.is_ascii_digit()).collect();
                    hit(st, format!("{} {:?} err {e}", p.mix, a.k));
                }
            }
            judge(&Done { a: &a, o, pre: w, post: &x, res: &res }, st)?;
            n += 1;
        }
        Ok(n)
    });
}

// ------------------------------------------------------------------ histories
#[derive(Clone, Debug)]
enum HOp {
    Act(Act),
    Wait(u64),
    Mint(&'static str, u128),
    Burn(&'static str, u128),
    Donate(&'static str, &'static str, u128),
    Finish(&'static str, &'static str, String),
}
struct Hist<J: Fn(&Done, &mut Stat) -> Result<(), V> + Sync> {
    name: String,
    worlds: Vec<(String, World)>,
    judge: J,
    donate: bool,
}
#[derive(Clone)]
struct HS {
    w: World,
    o: Arc<Obs>,
}
impl<J: Fn(&Done, &mut Stat) -> Result<(), V> + Sync> Model for Hist<J> {
    type S = HS;
    type Op = HOp;
    fn name(&self) -> String {
        self.name.clone()
    }
    fn inits(&self) -> Vec<(String, HS)> {
        self.worlds.iter().filter_map(|(n, w)| Some((n.clone(), HS { o: Arc::new(Obs::of(w).ok()?), w: w.clone() }))).collect()
    }
    fn ops(&self, s: &HS) -> Vec<HOp> {
        let act = |who, k, mix, d, sent, want| HOp::Act(Act { who, k, mix, d, sent, want });
        let have = |who: &str| s.w.bal(who, s.o.index());
        let mut v = vec![
            act("alice", K::MintIn, "weighted", "uatomo", 5_000_000, 100_000),
            act("bobby", K::MintIn, "delegated", "ibc/uatom", 40_000_000, 1_000_000),
            act("bobby", K::MintOut, "shared", "uatomo", 90_000_000, 1_000_001),
            act("alice", K::MintOut, "crossed+", "uatom", 90_000_000, 77),
            act("alice", K::BurnIn, "unequal", "uatomo", 500_000, 1),
            act("alice", K::BurnIn, "long", "Uatom", 999, 0),
            act("bobby", K::BurnIn, "crossed", "ibc/uatom", have("bobby").max(1), 0),
            act("alice", K::BurnOut, "shared", "uatom", 2_000_000_000, 1_000_000),
            act("alice", K::BurnOut, "delegated+", "uatomo", 900_000, 800_000),
            HOp::Wait(86_400),
            HOp::Mint("carol", 33),
        ];
        if have("carol") > 0 {
            v.push(HOp::Burn("carol", have("carol")));
        }
        if self.donate {
            v.push(HOp::Donate("carol", "uatomo", 12_345));
            v.push(HOp::Donate("carol", "ibc/uatom", 1));
        }
        v
    }
    fn step(&self, s: &HS, op: &HOp, st: &mut Stat) -> Result<HS, V> {
        let mut w = s.w.clone();
        let res = match op {
            HOp::Act(a) => a.run(&mut w, &s.o),
            HOp::Wait(t) => {
                w.wait(*t);
                Ok(())
            }
            HOp::Mint(u, n) => do_mint(&mut w, u, *n),
            HOp::Burn(u, n) => w.exec(u, CORE, Msg::Core(burn()), &[c(*n, s.o.index())]),
            HOp::Donate(u, d, n) => w.send(u, PER, d, *n),
            HOp::Finish(..) => unreachable!(),
        };
        if let HOp::Act(a) = op {
            (self.judge)(&Done { a, o: &s.o, pre: &s.w, post: &w, res: &res }, st)?;
        }
        w.ev.clear();
        let o = match Obs::of(&w) {
            Ok(o) => Arc::new(o),
            Err(_) => return Ok(s.clone()),
        };
        Ok(HS { w, o })
    }
    fn check(&self, s: &HS, st: &mut Stat) -> Result<(), V> {
        if !self.donate {
            return Ok(());
        }
        // every outside sender asks for the final sweep
        let mut assets: Vec<String> = s.w.balances(PER).keys().cloned().collect();
        assets.extend(["uatomo".to_string(), s.o.index().to_string(), "unknown".into()]);
        assets.sort();
        assets.dedup();
        for who in ["alice", "bobby", "carol", GOV, COL, CORE, "creat", "manag", "airdr"] {
            for d in &assets {
                for to in [who, "alice", PER] {
                    let mut w = s.w.clone();
                    let r = w.exec(who, PER, Msg::Periphery(PX::FinishOperation { refund_to: to.into(), refund_asset: d.clone() }), &[]);
                    hit(st, format!("sweep {}", if r.is_ok() { "ok" } else { "refused" }));
                    ensure!(r.is_err(), "{who} executed the router's final sweep of {d} to {to}");
                    ensure!(w.bank == s.w.bank, "a refused sweep moved coins");
                    let _ = HOp::Finish(who, to, d.clone());
                }
            }
            // with coins attached
            if s.w.bal(who, "uatomo") > 0 {
                let mut w = s.w.clone();
                let r = w.exec(who, PER, Msg::Periphery(PX::FinishOperation { refund_to: who.into(), refund_asset: "uatomo".into() }), &[c(1, "uatomo")]);
                ensure!(r.is_err() && w.bank == s.w.bank, "{who} executed the router's final sweep with coins attached");
            }
        }
        Ok(())
    }
    fn canon(&self, s: &HS, h: &mut Canon) {
        s.w.canon(h);
    }
}
fn history(r: &mut Report, name: &str, donate: bool, depth: usize, judge: impl Fn(&Done, &mut Stat) -> Result<(), V> + Sync) {
    let mut ws = worlds(false);
    ws.truncate(if r.thorough { 7 } else { 5 });
    let m = Hist { name: name.into(), worlds: ws, judge, donate };
    r.bfs(&m, depth);
}

pub fn p04_point(w: &World, o: &Obs, p: &Pt0, st: &mut Stat) -> Result<u64, V> {
    let (mix, d, n) = (p.mix, p.d, p.n);
    let act = |k, sent, want| Act { who: "alice", k, mix, d, sent, want };
    let mut runs = 0;
    let twice = delegated_twice(w, mix, d, &o.units);
    // ---- burn quote
    if w.bal("alice", o.index()) >= n {
        let q = q_burn_in(w, o, mix, d, n);
        match &q {
            Err(_) => {
                hit(st, "burn quote refused");
                let mut x = w.clone();
                let r = act(K::BurnIn, n, 0).run(&mut x, o);
                runs += 1;
                ensure!(r.is_err(), "burning {n} for {d} works although its quote is refused: {q:?}");
            }
            Ok(q) => {
                let t = q.swap_result_amount.amount.u128();
                ensure!(q.swap_result_amount.denom == d, "quote for {d} answers in {}", q.swap_result_amount.denom);
                let exact = exact_pools(w, mix, d, &o.units) && !twice;
                for min in dedup(vec![0, 1, t / 2, t, t + 1, t * 2 + 1]) {
                    let mut x = w.clone();
                    let r = act(K::BurnIn, n, min).run(&mut x, o);
                    runs += 1;
                    hit(st, format!("burn min{}quote {}", if min < t { "<" } else if min == t { "=" } else { ">" }, if r.is_ok() { "ok" } else { "refused" }));
                    if min > t {
                        ensure!(r.is_err(), "burn demanding {min} succeeded although {t} was quoted");
                        continue;
                    }
                    if t > 0 && (min <= t / 2 || (min == t && exact)) {
                        ensure!(r.is_ok(), "burn demanding {min} of the quoted output {t} is refused: {r:?}");
                    }
                    if r.is_err() {
                        continue;
                    }
                    let burned: Vec<_> = x.ev.iter().filter_map(|e| match e { Ev::Burn { denom, amount, .. } if denom == o.index() => Some(*amount), _ => None }).collect();
                    ensure!(burned == vec![q.burn_amount.u128()], "quoted burn of {} destroyed {burned:?}", q.burn_amount);
                    let mut redeemed: BTreeMap<String, u128> = BTreeMap::new();
                    for e in &x.ev {
                        if let Ev::Transfer { from, to, denom, amount } = e {
                            if from == CORE && to == PER && denom != o.index() {
                                *redeemed.entry(denom.clone()).or_default() += amount;
                            }
                        }
                    }
                    let mut quoted: BTreeMap<String, u128> = BTreeMap::new();
                    for cn in &q.burn_redeem_amount {
                        if !cn.amount.is_zero() {
                            *quoted.entry(cn.denom.clone()).or_default() += cn.amount.u128();
                        }
                    }
                    ensure!(redeemed == quoted, "quoted redemption {quoted:?}, executed {redeemed:?}");
                    let out = x.bal("alice", d) - w.bal("alice", d);
                    if exact {
                        ensure!(out == t, "quoted output {t}, delivered {out}");
                    } else if !twice {
                        let dev = out.abs_diff(t);
                        hit(st, format!("{mix} deviation {}", if dev < 10 { dev.to_string() } else { format!("10^{}", dev.to_string().len() - 1) }));
                        ensure!(dev <= 2, "quoted output {t}, delivered {out}");
                    }
                }
            }
        }
    }
    // ---- mint quote
    let q = q_mint_out(w, o, mix, d, n);
    match &q {
        Err(_) => {
            hit(st, "mint quote refused");
            let mut x = w.clone();
            let r = act(K::MintOut, RICH / 1000, n).run(&mut x, o);
            runs += 1;
            if n > o.mint_fee(n) {
                ensure!(r.is_err(), "minting {n} with {d} works although its quote is refused: {q:?}");
            }
        }
        Ok(q) => {
            let t = q.swap_result_amount.amount.u128();
            ensure!(q.swap_result_amount.denom == d, "quote for {d} answers in {}", q.swap_result_amount.denom);
            let mut spend = o.required(n);
            spend.sort_by(|a, b| a.denom.cmp(&b.denom));
            ensure!(n <= o.mint_fee(n) || q.mint_amount.u128() == n - o.mint_fee(n), "minting {n} is quoted to deliver {} (mint fee {})", q.mint_amount, o.mint_fee(n));
            let mut qs = q.mint_spend_amount.clone();
            qs.sort_by(|a, b| a.denom.cmp(&b.denom));
            ensure!(qs == spend, "minting {n} is quoted to take {qs:?}, the portfolio asks for {spend:?}");
            let mut x = w.clone();
            let r = act(K::MintOut, t, n).run(&mut x, o);
            runs += 1;
            let able = n > o.mint_fee(n);
            hit(st, format!("{mix} mint with quoted input {}", if r.is_ok() { "ok" } else { "refused" }));
            if able && r.is_err() {
                return Err(V { key: if twice && matches!(&r, Err(e) if e.contains("more than maximum")) { TWICE.into() } else { String::new() }, msg: format!("minting {n} with {d}: {t} was quoted, but sending that is refused: {r:?}") });
            }
            if able && !twice {
                let paid = w.bal("alice", d) - x.bal("alice", d);
                ensure!(paid <= t && paid + 2 >= t, "minting {n} was quoted {t} {d}, paid {paid}");
            }
            // nothing less than what is quoted (minus rounding) suffices
            if t > 2 && able && !twice {
                let mut x = w.clone();
                let r = act(K::MintOut, t - 3, n).run(&mut x, o);
                runs += 1;
                ensure!(r.is_err(), "minting {n} was quoted {t} {d}, yet {} suffices", t - 3);
            }
        }
    }
    if !p.search {
        return Ok(runs);
    }
    // ---- quote of a mint with exact input
    let sent = n * 3;
    if let Ok(q) = q_mint_in(w, o, mix, d, sent) {
        let t = q.swap_result_amount.amount.u128();
        let out = q.mint_amount.u128();
        ensure!(q.swap_result_amount.denom == d && t <= sent && t + 5000 > sent, "quote for spending {sent} {d} spends {}", q.swap_result_amount);
        hit(st, format!("{mix} mint input quoted {}", if out > 0 { "some" } else { "nothing" }));
        if out > 0 {
            // coins taken: those of a mint of N with N - fee(N) = out (+ calibration of at most 100)
            let lo = o.required(out);
            let mut hi_n = out + 101;
            while hi_n - o.mint_fee(hi_n) < out + 101 {
                hi_n += (out + 101) - (hi_n - o.mint_fee(hi_n));
            }
            let hi = o.required(hi_n);
            let by: BTreeMap<&str, u128> = q.mint_spend_amount.iter().map(|c| (c.denom.as_str(), c.amount.u128())).collect();
            for (l, h) in lo.iter().zip(hi.iter()) {
                let got = by.get(l.denom.as_str()).copied().unwrap_or(0);
                ensure!(l.amount.u128() <= got && got <= h.amount.u128(), "spending {sent} {d} is quoted to mint {out} out of {:?}", q.mint_spend_amount);
            }
            let mut x = w.clone();
            let r = act(K::MintIn, sent, out).run(&mut x, o);
            runs += 1;
            // (a base unit buys more than the 100 the quote leaves as a margin where every unit is dust)
            let dust = o.units.iter().all(|u| u.1 < 1_000_000_000_000_000);
            ensure!(r.is_ok() || twice || dust, "spending {sent} {d} is quoted to mint {out}, but demanding that is refused: {r:?}");
            // and the quote is not far below what is possible
            let more = out + out / 50 + 5000 * out / t.max(1) + 110;
            let mut x = w.clone();
            let r = act(K::MintIn, sent, more).run(&mut x, o);
            runs += 1;
            ensure!(r.is_err() || twice || t < 10_000, "spending {sent} {d} is quoted to mint {out}, yet {more} can be demanded");
        }
    } else if sent >= 10_000 && !twice {
        let mut x = w.clone();
        let r = act(K::MintIn, sent, 1).run(&mut x, o);
        runs += 1;
        ensure!(r.is_err(), "spending {sent} {d} works, but there is no quote for it: {:?}", q_mint_in(w, o, mix, d, sent));
    }
    // ---- quote of a burn for an exact output
    let dust = o.units.iter().any(|u| u.1 < 1_000_000_000_000_000);
    if n >= 10_000 && !twice && !dust && q_burn_out(w, o, mix, d, n).is_err() {
        let mut x = w.clone();
        let r = act(K::BurnOut, 1_000_000_000, n).run(&mut x, o);
        runs += 1;
        ensure!(r.is_err(), "a burn for {n} {d} works, but there is no quote for it: {:?}", q_burn_out(w, o, mix, d, n));
    }
    if let Ok(q) = q_burn_out(w, o, mix, d, n) {
        let (t, b) = (q.swap_result_amount.amount.u128(), q.burn_amount.u128());
        ensure!(q.swap_result_amount.denom == d && t <= n && t + 5000 > n, "quote for receiving {n} {d} delivers {}", q.swap_result_amount);
        hit(st, format!("{mix} burn output quoted"));
        // burning that much redeems the quoted coins
        let net = b - o.burn_fee(b);
        for (dn, un) in &o.units {
            let got: u128 = q.burn_redeem_amount.iter().filter(|c| &c.denom == dn).map(|c| c.amount.u128()).sum();
            let (lo, hi) = (mulf(*un, net.saturating_sub(1)), mulf(*un, net + 1));
            ensure!(lo <= got && got <= hi, "receiving {n} {d} is quoted to burn {b}, which redeems {net} x {un}e-18 {dn} and not {got}");
        }
        // and gives the quoted output
        if !twice && w.bal("alice", o.index()) >= b + 2000 && t > 0 {
            let mut lo = w.clone();
            let mut hi = w.clone();
            let step = if o.fee.burn_fee.map(|f| f.atomics().u128() > 900_000_000_000_000_000).unwrap_or(false) { 1100 } else { 3 };
            let (a, z) = (hand_burn(&mut lo, o, "alice", mix, d, b.saturating_sub(step).max(1)), hand_burn(&mut hi, o, "alice", mix, d, b + step));
            runs += 2;
            if let (Ok(a), Ok(z)) = (a, z) {
                hit(st, format!("{mix} burn output quote compared"));
                ensure!(a <= t + 2 && t <= z + 2, "receiving {n} {d} is quoted to burn {b} for {t}; burning about that gives {a} to {z}");
            }
        }
    }
    Ok(runs)
}

/// What the caller could do by hand (swap along the same routes and mint or burn directly), the
/// router does too, at the same price.
/// Swaps that turn out one base unit worse than the router's estimates (a chain's taker fee): the
/// slack the caller left must be usable.
fn p05_slip(w: &World, o: &Obs, p: &Pt0, st: &mut Stat) -> Result<u64, V> {
    let (mix, d, n) = (p.mix, p.d, p.n);
    let act = |k, sent, want| Act { who: "alice", k, mix, d, sent, want };
    let mut w = w.clone();
    w.slip = 1;
    let mut runs = 0;
    let twice = delegated_twice(&w, mix, d, &o.units);
    let disjoint = pools_disjoint(mix, d, &o.units);
    let mut h = w.clone();
    if let Ok(t @ 1..) = hand_burn(&mut h, o, "alice", mix, d, n) {
        for min in dedup(vec![0, t / 2]) {
            let mut x = w.clone();
            let r = act(K::BurnIn, n, min).run(&mut x, o);
            runs += 1;
            hit(st, format!("burn exact input, worse swaps {}", if r.is_ok() { "ok" } else { "refused" }));
            ensure!(r.is_ok(), "burning {n} by hand gives {t} {d} with every swap one unit worse than estimated, but the router asked for {min} refuses: {r:?}");
            let out = x.bal("alice", d) - w.bal("alice", d);
            ensure!(!disjoint || out == t, "burning {n} by hand gives {t} {d} with every swap one unit worse than estimated, the router delivered {out}");
        }
    }
    let mut h = w.clone();
    if n > o.mint_fee(n) && !twice {
        if let Ok(cost) = hand_mint(&mut h, o, "alice", mix, d, n) {
            let mut x = w.clone();
            let r = act(K::MintOut, cost * 3, n).run(&mut x, o);
            runs += 1;
            hit(st, format!("mint exact output, worse swaps {}", if r.is_ok() { "ok" } else { "refused" }));
            ensure!(r.is_ok(), "minting {n} by hand costs {cost} {d} with every swap one unit worse than estimated, but the router refuses {}: {r:?}", cost * 3);
            let paid = w.bal("alice", d) - x.bal("alice", d);
            ensure!(!disjoint || paid == cost, "minting {n} by hand costs {cost} {d} with every swap one unit worse than estimated, the router took {paid}");
        }
    }
    Ok(runs)
}
pub fn p05_point(w: &World, o: &Obs, p: &Pt0, st: &mut Stat) -> Result<u64, V> {
    let mut runs = p05_as("alice", w, o, p, st)?;
    if p.n % 1_000 == 0 {
        // nobody is treated differently
        for who in [COL, GOV, "creat"] {
            let mut w = w.clone();
            let idx = o.index();
            let b = w.bal("alice", idx);
            w.send("alice", who, idx, b).map_err(|e| V { key: "".into(), msg: e })?;
            w.give(who, p.d, RICH);
            runs += p05_as(who, &w, o, p, st)?;
        }
    }
    Ok(runs)
}
fn p05_as(who: &'static str, w: &World, o: &Obs, p: &Pt0, st: &mut Stat) -> Result<u64, V> {
    let (mix, d, n) = (p.mix, p.d, p.n);
    let act = |k, sent, want| Act { who, k, mix, d, sent, want };
    let mut runs = if who == "alice" { p05_slip(w, o, p, st)? } else { 0 };
    let twice = delegated_twice(w, mix, d, &o.units);
    let disjoint = pools_disjoint(mix, d, &o.units);
    // ---- burn
    let mut h = w.clone();
    if let Ok(t @ 1..) = hand_burn(&mut h, o, who, mix, d, n) {
        for min in dedup(vec![0, t / 2]) {
            let mut x = w.clone();
            let r = act(K::BurnIn, n, min).run(&mut x, o);
            runs += 1;
            hit(st, format!("{mix} burn exact input {}", if r.is_ok() { "ok" } else { "refused" }));
            ensure!(r.is_ok(), "burning {n} by hand gives {t} {d}, but the router asked for {min} refuses: {r:?}");
            let out = x.bal(who, d) - w.bal(who, d);
            if disjoint {
                ensure!(out == t, "burning {n} by hand gives {t} {d}, the router delivered {out}");
            } else {
                ensure!(out + out / 1000 + 100 >= t, "burning {n} by hand gives {t} {d}, the router delivered {out}");
            }
        }
        // the search for the amount to burn works in steps of 5000 base units of output
        let dust = o.units.iter().any(|u| u.1 < 1_000_000_000_000_000);
        for f in [50u128, 90, 99] {
            let want = t * f / 100;
            if twice || dust || want <= 10_000 || !p.search {
                continue;
            }
            let mut x = w.clone();
            let r = act(K::BurnOut, n, want).run(&mut x, o);
            runs += 1;
            hit(st, format!("{mix} burn exact output {}", if r.is_ok() { "ok" } else { "refused" }));
            ensure!(r.is_ok(), "burning {n} by hand gives {t} {d}, but the router asked for {want} and sent {n} refuses: {r:?}");
        }
    }
    // ---- mint
    let mut h = w.clone();
    if n > o.mint_fee(n) {
        if let Ok(cost) = hand_mint(&mut h, o, who, mix, d, n) {
            for sent in dedup(vec![cost, cost + cost / 100 + 100, cost * 3]) {
                let mut x = w.clone();
                let r = act(K::MintOut, sent, n).run(&mut x, o);
                runs += 1;
                hit(st, format!("{mix} mint exact output {}", if r.is_ok() { "ok" } else { "refused" }));
                if disjoint {
                    ensure!(r.is_ok(), "minting {n} by hand costs {cost} {d}, but the router refuses {sent}: {r:?}");
                    let paid = w.bal(who, d) - x.bal(who, d);
                    ensure!(paid == cost, "minting {n} by hand costs {cost} {d}, the router took {paid}");
                } else {
                    ensure!(r.is_ok() || twice || sent == cost, "minting {n} by hand costs {cost} {d}, but the router refuses {sent}: {r:?}");
                    if r.is_ok() {
                        let paid = w.bal(who, d) - x.bal(who, d);
                        ensure!(paid <= cost + cost / 1000 + 100, "minting {n} by hand costs {cost} {d}, the router took {paid}");
                    }
                }
            }
            let net = n - o.mint_fee(n);
            for want in dedup(vec![0, 1, net / 2, net * 9 / 10, net * 99 / 100]) {
                if !p.search {
                    break;
                }
                let mut x = w.clone();
                let r = act(K::MintIn, cost, want).run(&mut x, o);
                runs += 1;
                hit(st, format!("{mix} mint exact input {}", if r.is_ok() { "ok" } else { "refused" }));
                if !twice && net >= 10 && cost >= 1_000 {
                    ensure!(r.is_ok(), "{cost} {d} mints {net} by hand, but the router asked for {want} refuses: {r:?}");
                }
            }
        }
    }
    Ok(runs)
}
const TWICE: &str = "delegated-pool-used-twice";
#[derive(Clone, Debug)]
pub struct Pt0 {
    w: usize,
    mix: &'static str,
    d: &'static str,
    n: u128,
    /// also the operations that search for an amount (their search is in steps of 5000 base units)
    search: bool,
}

pub fn run(p: &str, r: &mut Report) -> bool {
    match p {
        "P01" => {
            sweep(r, "single operations", false, p01);
            sweep_large(r, p01);
            history(r, "histories", false, if r.thorough { 4 } else { 3 }, p01);
        }
        "P02" => {
            sweep(r, "single operations", false, p02);
            sweep_large(r, p02);
            sweep(r, "single operations of a router that holds coins", true, p02);
            history(r, "histories", false, if r.thorough { 4 } else { 3 }, p02);
            history(r, "histories with gifts", true, if r.thorough { 4 } else { 3 }, p02);
        }
        "P03" => history(r, "sweeps", true, if r.thorough { 4 } else { 3 }, |_, _| Ok(())),
        "P04" | "P05" => {
            let ws: Vec<(World, Obs)> = worlds(r.thorough).into_iter().filter_map(|(_, w)| Obs::of(&w).ok().map(|o| (w, o))).collect();
            let mut pts = vec![];
            for w in 0..ws.len() {
                for mix in MIXES {
                    for d in DENOMS {
                        for n in [1u128, 2, 3, 7, 10, 50, 99, 100, 333, 1_000, 5_000, 12_345, 100_000, 777_777, 1_000_000, 5_000_001, 50_000_000, 123_456_789, 999_999_937] {
                            pts.push(Pt0 { w, mix, d, n, search: true });
                        }
                    }
                }
            }
            let (big, fs) = larges();
            let mut lpts = vec![];
            for (w, f) in fs.iter().enumerate() {
                for mix in MIXES {
                    for d in DENOMS {
                        for n in large_amounts(*f) {
                            lpts.push(Pt0 { w, mix, d, n, search: false });
                        }
                    }
                }
            }
            if p == "P04" {
                r.grid("large amounts", &lpts, |p, st| p04_point(&big[p.w].0, &big[p.w].1, p, st));
            } else {
                r.grid("large amounts", &lpts, |p, st| p05_point(&big[p.w].0, &big[p.w].1, p, st));
            }
            if p == "P04" {
                r.grid("quotes", &pts, |p, st| p04_point(&ws[p.w].0, &ws[p.w].1, p, st));
            } else {
                r.grid("by hand", &pts, |p, st| p05_point(&ws[p.w].0, &ws[p.w].1, p, st));
            }
        }
        _ => return false,
    }
    true
}
