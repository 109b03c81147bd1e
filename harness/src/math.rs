//! Properties of the power function, of weighted-pool estimates and of the amount search.
use crate::core::*;
use crate::periph::{burn_info, mint_info, path, x_static, MIXES, U5};
use cosmwasm_std::{Decimal, Decimal256, Uint128, Uint256, Uint512};
use ibcx_interface::periphery::{extract_pool_ids, SwapInfo};
use ibcx_pool::{query_pools, OsmosisPool, Simulator};
use std::str::FromStr;

// ---------------------------------------------------------------- reference arithmetic
// signed fixed point with 40 decimals on 512-bit integers, independent of the code under test
const SDIGITS: u32 = 40;
fn u(v: u128) -> Uint512 {
    Uint512::from(v)
}
fn scale() -> Uint512 {
    u(10).pow(SDIGITS)
}
#[derive(Clone, Copy, PartialEq)]
pub struct F {
    neg: bool,
    m: Uint512,
}
impl F {
    fn zero() -> F {
        F { neg: false, m: u(0) }
    }
    fn one() -> F {
        F { neg: false, m: scale() }
    }
    /// a/b
    fn ratio(a: Uint512, b: Uint512) -> F {
        F { neg: false, m: a * scale() / b }
    }
    /// from 18-decimal atomics
    fn atomics(a: Uint256) -> F {
        F { neg: false, m: Uint512::from(a) * u(10).pow(SDIGITS - 18) }
    }
    fn add(self, o: F) -> F {
        if self.neg == o.neg {
            F { neg: self.neg, m: self.m + o.m }
        } else if self.m >= o.m {
            F { neg: self.neg, m: self.m - o.m }
        } else {
            F { neg: o.neg, m: o.m - self.m }
        }
    }
    fn neg(self) -> F {
        F { neg: !self.neg, m: self.m }
    }
    fn sub(self, o: F) -> F {
        self.add(o.neg())
    }
    fn mul(self, o: F) -> F {
        F { neg: self.neg != o.neg, m: self.m * o.m / scale() }
    }
    fn div(self, o: F) -> F {
        F { neg: self.neg != o.neg, m: self.m * scale() / o.m }
    }
    fn divn(self, n: u128) -> F {
        F { neg: self.neg, m: self.m / u(n) }
    }
    fn muln(self, n: u128) -> F {
        F { neg: self.neg, m: self.m * u(n) }
    }
    fn abs(self) -> F {
        F { neg: false, m: self.m }
    }
    fn lt(self, o: F) -> bool {
        let d = self.sub(o);
        d.neg && !d.m.is_zero()
    }
    fn le(self, o: F) -> bool {
        !o.lt(self)
    }
    fn dec(s: &str) -> F {
        // small literals like 0.00000001
        F::atomics(Decimal256::from_str(s).unwrap().atomics())
    }
    fn show(self) -> String {
        let s = scale();
        format!("{}{}.{:0>40}", if self.neg { "-" } else { "" }, self.m / s, (self.m % s).to_string())
    }
}
/// 2 atanh(t) = ln((1+t)/(1-t))
fn atanh2(t: F) -> F {
    let t2 = t.mul(t);
    let (mut p, mut sum, mut k) = (t, F::zero(), 1u128);
    while !p.m.is_zero() {
        sum = sum.add(p.divn(k));
        p = p.mul(t2);
        k += 2;
    }
    sum.muln(2)
}
fn ln2() -> F {
    // ln 2 = 2 atanh(1/3)
    atanh2(F::ratio(u(1), u(3)))
}
fn ln(mut b: F) -> F {
    assert!(!b.neg && !b.m.is_zero());
    let mut k = 0i64;
    let hi = F::one().muln(3).divn(2);
    let lo = F::one().muln(3).divn(4);
    while hi.lt(b) {
        b = b.divn(2);
        k += 1;
    }
    while b.lt(lo) {
        b = b.muln(2);
        k -= 1;
    }
    let l = atanh2(b.sub(F::one()).div(b.add(F::one())));
    let kk = ln2().muln(k.unsigned_abs() as u128);
    if k < 0 {
        l.sub(kk)
    } else {
        l.add(kk)
    }
}
fn exp(z: F) -> F {
    let l2 = ln2();
    let n = (z.m / l2.m).to_string().parse::<u128>().unwrap();
    if z.neg && n > 200 {
        return F::zero();
    }
    let r = F { neg: z.neg, m: z.m % l2.m };
    let (mut term, mut sum, mut k) = (F::one(), F::one(), 1u128);
    while !term.m.is_zero() {
        term = term.mul(r).divn(k);
        sum = sum.add(term);
        k += 1;
    }
    for _ in 0..n {
        sum = if z.neg { sum.divn(2) } else { sum.muln(2) };
    }
    sum
}
fn powr(b: F, e: F) -> F {
    if e.m.is_zero() {
        return F::one();
    }
    exp(e.mul(ln(b)))
}
/// what the series may leave out: terms below 1e-8; for bases below one they all have one sign
fn series_error(base: F, frac_zero: bool, int_part: F) -> F {
    let base_err = F::dec("0.00000000000000005"); // a few dozen roundings at 18 decimals
    if frac_zero {
        return base_err.mul(int_part).add(base_err);
    }
    let one = F::one();
    let x = base.sub(one);
    let mut f = one;
    if x.neg {
        let q = x.abs().div(one.sub(x.abs()));
        if f.lt(q) {
            f = q;
        }
    }
    F::dec("0.00000001").mul(f).mul(int_part).add(F::dec("0.000000000000001").mul(int_part.add(one)))
}

// ---------------------------------------------------------------- M01
#[derive(Clone, Debug)]
struct PowPt {
    base: String,
    exp: String,
}
fn pow_points(thorough: bool) -> Vec<PowPt> {
    let mut bases: Vec<String> = vec![];
    let step = if thorough { 1 } else { 5 };
    for i in (step..=1990).step_by(step) {
        bases.push(format!("{}.{:03}", i / 1000, i % 1000));
    }
    for e in [1u32, 3, 5, 6, 8, 9, 12, 15, 18] {
        let one = 10u128.pow(18);
        let d = 10u128.pow(18 - e);
        for v in [one - d, one + d, one + d * 2, one - d * 3 % one] {
            bases.push(format!("{}.{:018}", v / one, v % one));
        }
    }
    bases.push("0.333333333333333333".into());
    bases.push("0.142857142857142857".into());
    bases.push("1.414213562373095048".into());
    bases.push("0.012345678901234567".into());
    let mut exps: Vec<String> = vec![];
    let n = if thorough { 100 } else { 40 };
    // exponents of pools: ratios of two weights
    for a in 1..=(if thorough { 25u64 } else { 9 }) {
        for b in 1..=(if thorough { 25u64 } else { 9 }) {
            exps.push(format!("{}", Decimal256::from_ratio(a, b)));
        }
    }
    // next to whole numbers
    for e in 2..=17u32 {
        for k in [0u128, 1, 2, 5] {
            let d = 10u128.pow(18 - e);
            exps.push(format!("{k}.{:018}", d));
            exps.push(format!("{k}.{:018}", d * 3));
            exps.push(format!("{k}.{:018}", 10u128.pow(18) - d));
        }
    }
    for i in 0..=n {
        exps.push(format!("{}", Decimal256::from_ratio(i as u64, n as u64)));
    }
    for i in 1..n {
        exps.push(format!("{}", Decimal256::from_ratio((n + i) as u64, n as u64)));
    }
    for e in [
        "0.333333333333333333", "0.666666666666666667", "0.142857142857142857", "0.000000000000000001", "0.000001", "0.999999999999999999", "0.999",
        "1.000000000000000001", "1.333333333333333333", "1.999999999999999999", "2.000000000000000001", "2.5", "3.75", "4.2", "7.3", "9", "12.125", "19.9", "33.333333333333333333", "49", "50.5",
        "3", "4", "5", "6", "7", "8", "10", "11", "13", "16", "17", "20", "31", "32", "64", "100",
    ] {
        exps.push(e.into());
    }
    for l in [&mut exps, &mut bases] {
        l.sort();
        l.dedup();
    }
    let mut v = vec![];
    for b in &bases {
        for e in &exps {
            v.push(PowPt { base: b.clone(), exp: e.clone() });
        }
    }
    // extremes: whole exponents only (the series would not end in reasonable time there)
    for b in ["0.000000000000000001", "0.000000001", "0.0001", "1.999999999999999999", "1.9999", "0.000000000000000007"] {
        for e in ["0", "1", "2", "3", "4", "5", "7", "8", "15", "16", "33", "64"] {
            v.push(PowPt { base: b.into(), exp: e.into() });
        }
    }
    // refused
    for b in ["0", "2", "2.000000000000000001", "3", "1000000"] {
        for e in ["0", "0.5", "1", "1.5", "2", "20"] {
            v.push(PowPt { base: b.into(), exp: e.into() });
        }
    }
    v
}
fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| "panic".to_string())
}
fn pow_point(p: &PowPt, st: &mut Stat) -> Result<u64, V> {
    let (b, e) = (Decimal256::from_str(&p.base).unwrap(), Decimal256::from_str(&p.exp).unwrap());
    let got = quiet(|| ibcx_math::pow(b, e).map_err(|e| e.to_string())).and_then(|r| r);
    let one = Decimal256::one();
    if b.is_zero() || b >= one + one {
        hit(st, "refused");
        ensure!(got.is_err(), "pow({b}, {e}) must be refused, gives {got:?}");
        return Ok(1);
    }
    let got = match got {
        Ok(g) => g,
        Err(x) => viol!("pow({b}, {e}) is refused: {x}"),
    };
    if e.is_zero() {
        ensure!(got == one, "pow({b}, 0) = {got}");
        hit(st, "exponent 0");
        return Ok(1);
    }
    if e == one {
        ensure!(got == b, "pow({b}, 1) = {got}");
        hit(st, "exponent 1");
        return Ok(1);
    }
    let (fb, fe) = (F::atomics(b.atomics()), F::atomics(e.atomics()));
    let whole = Decimal256::from_ratio(e.to_uint_floor(), 1u64);
    let frac_zero = whole == e;
    let int_part = powr(fb, F::atomics(whole.atomics()));
    let truth = powr(fb, fe);
    let err = F::atomics(got.atomics()).sub(truth).abs();
    let mut bound = series_error(fb, frac_zero, int_part);
    if frac_zero {
        // repeated squaring keeps the relative error of each product
        bound = bound.muln(1 + e.to_uint_floor().to_string().parse::<u128>().unwrap() / 8);
    }
    ensure!(err.le(bound), "pow({b}, {e}) = {got}, the power is {} (off by {}, allowed {})", truth.show(), err.show(), bound.show());
    hit(st, if frac_zero { "whole exponent" } else if e < one { "fraction" } else { "whole and fraction" });
    Ok(1)
}

// ---------------------------------------------------------------- M02
#[derive(Clone, Debug)]
struct Px {
    fee: u128,
    assets: Vec<(&'static str, u128, u128)>,
}
const PD: [&str; 3] = ["uatom", "uatomo", "Uatom"];
fn px_world(p: &Px) -> World {
    let mut w = World::new(T0);
    w.add_pool(1, PoolKind::Weighted, p.fee, &p.assets);
    w
}
fn load(w: &World, id: u64) -> R<Box<dyn OsmosisPool>> {
    w.with_deps(|d| query_pools(&d, vec![id]).map_err(|e| e.to_string()))?.into_iter().next().ok_or("no pool".into())
}
/// the value the invariant gives, and the allowed error of the estimate
struct Ideal {
    value: F,
    tol: F,
    out_of_range: bool,
}
fn is_whole(a: u128, b: u128) -> bool {
    a % b == 0
}
fn ideal_out(bi: u128, wi: u128, bo: u128, wo: u128, fee: u128, ain: u128) -> Ideal {
    assert!(bi > 0, "ideal_out {bi} {wi} {bo} {wo} {fee} {ain}");
    let e18 = 10u128.pow(18);
    let one = F::one();
    let after = F::ratio(u(ain) * u(e18 - fee), u(e18));
    let b = F::ratio(u(bi), u(1));
    let base = b.div(b.add(after));
    let e = F::ratio(u(wi), u(wo));
    let p = powr(base, e);
    let int_part = powr(base, F::ratio(u(wi / wo), u(1)));
    let err = series_error(base, is_whole(wi, wo), int_part).add(F::dec("0.000000000000000005").muln(1 + wi / wo));
    let bo_ = F::ratio(u(bo), u(1));
    Ideal { value: bo_.mul(one.sub(p)), tol: bo_.mul(err), out_of_range: false }
}
fn ideal_in(bi: u128, wi: u128, bo: u128, wo: u128, fee: u128, aout: u128) -> Option<Ideal> {
    if aout >= bo {
        return None;
    }
    let e18 = 10u128.pow(18);
    let one = F::one();
    let base = F::ratio(u(bo), u(bo - aout));
    let e = F::ratio(u(wo), u(wi));
    let p = powr(base, e);
    let int_part = powr(base, F::ratio(u(wo / wi), u(1)));
    let err = series_error(base, is_whole(wo, wi), int_part).add(F::dec("0.00000000000000001").muln(2 + wo / wi).mul(p));
    let bi_ = F::ratio(u(bi), u(1));
    let keep = F::ratio(u(e18 - fee), u(e18));
    Some(Ideal { value: bi_.mul(p.sub(one)).div(keep), tol: bi_.mul(err).div(keep), out_of_range: base.m >= scale() * u(2) })
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Sw {
    In(&'static str, u128, &'static str),
    Out(&'static str, &'static str, u128),
}
/// executes an estimate on the code's pool and judges it against the invariant at the reference balances
fn swap(w: &World, pool: &mut Box<dyn OsmosisPool>, px: &Px, bal: &mut BTreeMap<&'static str, u128>, s: &Sw, st: &mut Stat) -> Result<Option<u128>, V> {
    let wt = |d: &str| px.assets.iter().find(|a| a.0 == d).unwrap().2;
    let fee = Decimal::new(Uint128::new(px.fee));
    match *s {
        Sw::In(di, a, dd) => {
            let got = w.with_deps(|d| pool.swap_exact_amount_in(&d, c(a, di), dd.to_string(), Uint256::zero(), fee).map_err(|e| e.to_string()));
            let id = ideal_out(bal[di], wt(di), bal[dd], wt(dd), px.fee, a);
            match got {
                Err(e) => {
                    hit(st, "in: refused");
                    // refused only when nothing (or less than a unit) comes out
                    ensure!(id.value.le(F::one().add(id.tol)), "{s:?} of {px:?} at {bal:?} is refused ({e}); the invariant gives {}", id.value.show());
                    Ok(None)
                }
                Ok(g) => {
                    hit(st, "in: estimated");
                    let g: u128 = g.to_string().parse().unwrap_or(u128::MAX);
                    let fg = F::ratio(u(g), u(1));
                    ensure!(fg.le(id.value.add(id.tol)) && id.value.sub(id.tol).sub(F::one()).lt(fg), "{s:?} of {px:?} at {bal:?} gives {g}; the invariant gives {} +- {}", id.value.show(), id.tol.show());
                    *bal.get_mut(di).unwrap() += a;
                    *bal.get_mut(dd).unwrap() -= g;
                    Ok(Some(g))
                }
            }
        }
        Sw::Out(di, dd, a) => {
            let got = w.with_deps(|d| pool.swap_exact_amount_out(&d, di.to_string(), Uint256::from(u128::MAX), c(a, dd), fee).map_err(|e| e.to_string()));
            let id = ideal_in(bal[di], wt(di), bal[dd], wt(dd), px.fee, a);
            match (got, id) {
                (Err(e), Some(id)) if !id.out_of_range => {
                    hit(st, "out: refused");
                    ensure!(id.value.le(id.tol), "{s:?} of {px:?} at {bal:?} is refused ({e}); the invariant gives {}", id.value.show());
                    Ok(None)
                }
                (Err(_), _) => {
                    hit(st, "out: out of range");
                    Ok(None)
                }
                (Ok(g), Some(id)) if !id.out_of_range => {
                    hit(st, "out: estimated");
                    let g: u128 = g.to_string().parse().unwrap_or(u128::MAX);
                    let fg = F::ratio(u(g), u(1));
                    ensure!(id.value.sub(id.tol).le(fg) && fg.lt(id.value.add(id.tol).add(F::one())), "{s:?} of {px:?} at {bal:?} takes {g}; the invariant gives {} +- {}", id.value.show(), id.tol.show());
                    *bal.get_mut(di).unwrap() += g;
                    *bal.get_mut(dd).unwrap() -= a;
                    Ok(Some(g))
                }
                (Ok(g), _) => viol!("{s:?} of {px:?} at {bal:?} takes {g} although more than half of the pool is asked for"),
            }
        }
    }
}
fn pools_grid(thorough: bool) -> Vec<Px> {
    let fees = if thorough { vec![0u128, 1, 1_000_000_000_000_000, 3_000_000_000_000_000, 20_000_000_000_000_000, 500_000_000_000_000_000] } else { vec![0u128, 3_000_000_000_000_000, 500_000_000_000_000_000] };
    let weights: Vec<(u128, u128)> = vec![(1, 1), (1, 2), (2, 1), (1, 4), (4, 1), (2, 3), (3, 2), (3, 5), (5, 3), (536870912000000, 536870912000000), (1, 9), (9, 1), (1, 49), (7, 3)];
    let bals: Vec<(u128, u128)> = if thorough {
        vec![(1_000, 1_000), (1_000_000, 37), (5_000_000_000, 123_456_789), (999_999_999_999, 1_000_000_000_007), (1_000_000_000_000_000_000_000, 1_000_000_000_000_000_000_000), (1_000_000, 1_000_000_000_000_000), (1_000_000_000_000_000, 1_000_000)]
    } else {
        vec![(1_000, 1_000), (5_000_000_000, 123_456_789), (999_999_999_999, 1_000_000_000_007), (1_000_000_000_000_000_000_000, 1_000_000_000_000_000_000_000)]
    };
    let mut v = vec![];
    for f in &fees {
        for (wi, wo) in &weights {
            for (a, b) in &bals {
                v.push(Px { fee: *f, assets: vec![("uatom", *a, *wi), ("uatomo", *b, *wo)] });
            }
        }
    }
    v
}
fn fractions(b: u128) -> Vec<u128> {
    dedup(vec![1, 2, 3, 10, b / 1_000_000_000, b / 1_000_003, b / 10_007, b / 101, b / 10, b / 3, b * 49 / 100, b * 51 / 100, b, b * 3, b * 20]).into_iter().filter(|x| *x > 0).collect()
}
fn single(px: &Px, st: &mut Stat) -> Result<u64, V> {
    let w = px_world(px);
    let pool = load(&w, 1).map_err(|e| V { key: String::new(), msg: format!("pool cannot be loaded: {e}") })?;
    let bal: BTreeMap<&'static str, u128> = px.assets.iter().map(|a| (a.0, a.1)).collect();
    ensure!(w.with_deps(|_| pool.get_spread_factor().map_err(|e| e.to_string())) == Ok(Decimal::new(Uint128::new(px.fee))), "spread factor of {px:?}");
    let mut n = 0;
    for (a, b) in [(px.assets[0], px.assets[1]), (px.assets[1], px.assets[0])] {
        for x in fractions(a.1) {
            let mut p = pool.clone();
            let mut bb = bal.clone();
            // the base of the power must not get so small that the series runs away
            if x > a.1 * 20 {
                continue;
            }
            let o = swap(&w, &mut p, px, &mut bb, &Sw::In(a.0, x, b.0), st)?;
            n += 1;
            if let Some(o) = o.filter(|o| *o < b.1 - b.1 / 100) {
                // round trip
                let back = swap(&w, &mut p, px, &mut bb, &Sw::In(b.0, o, a.0), st)?;
                n += 1;
                if let Some(back) = back {
                    let id1 = ideal_out(bal[a.0], a.2, bal[b.0], b.2, px.fee, x);
                    let id2 = ideal_out(bal[b.0] - o, b.2, bal[a.0] + x, a.2, px.fee, o);
                    // the error of the first leg, in units of the first asset
                    let unit = F::ratio(u(bal[a.0] + x), u(1)).div(F::ratio(u(bal[b.0] - o), u(1))).mul(F::ratio(u(b.2), u(a.2)).add(F::one()));
                    let slack = id1.tol.mul(unit).add(id2.tol).add(id1.tol);
                    ensure!(F::ratio(u(back), u(1)).le(F::ratio(u(x), u(1)).add(slack.muln(2))), "a round trip of {x} {} through {px:?} gives {back}", a.0);
                    hit(st, "round trip");
                }
            }
        }
        for y in fractions(b.1).into_iter().filter(|y| *y < b.1) {
            let mut p = pool.clone();
            let mut bb = bal.clone();
            swap(&w, &mut p, px, &mut bb, &Sw::Out(a.0, b.0, y), st)?;
            n += 1;
        }
    }
    Ok(n)
}
/// sequences of estimates on one three-asset pool
struct Seq {
    pools: Vec<Px>,
    depth: usize,
}
#[derive(Clone)]
struct SeqS {
    i: usize,
    hist: Vec<Sw>,
}
impl Model for Seq {
    type S = SeqS;
    type Op = Sw;
    fn name(&self) -> String {
        "sequences on one pool".into()
    }
    fn inits(&self) -> Vec<(String, SeqS)> {
        (0..self.pools.len()).map(|i| (format!("{:?}", self.pools[i]), SeqS { i, hist: vec![] })).collect()
    }
    fn ops(&self, s: &SeqS) -> Vec<Sw> {
        let mut v = vec![];
        for a in PD {
            for b in PD {
                if a != b {
                    let bb = self.pools[s.i].assets.iter().find(|x| x.0 == b).unwrap().1;
                    let ba = self.pools[s.i].assets.iter().find(|x| x.0 == a).unwrap().1;
                    for x in [ba / 100_003, ba / 20] {
                        v.push(Sw::In(a, x, b));
                    }
                    v.push(Sw::Out(a, b, bb / 30));
                }
            }
        }
        v
    }
    fn step(&self, s: &SeqS, o: &Sw, st: &mut Stat) -> Result<SeqS, V> {
        let px = &self.pools[s.i];
        let w = px_world(px);
        let mut pool = load(&w, 1).map_err(|e| V { key: String::new(), msg: format!("pool cannot be loaded: {e}") })?;
        let mut bal: BTreeMap<&'static str, u128> = px.assets.iter().map(|a| (a.0, a.1)).collect();
        let mut quiet = Stat::new();
        for h in &s.hist {
            swap(&w, &mut pool, px, &mut bal, h, &mut quiet)?;
        }
        swap(&w, &mut pool, px, &mut bal, o, st)?;
        let mut n = s.clone();
        n.hist.push(*o);
        Ok(n)
    }
    fn canon(&self, s: &SeqS, h: &mut Canon) {
        h.u64(s.i as u64);
        h.s(&format!("{:?}", s.hist));
    }
}
// ---- index assets routed together
#[derive(Clone, Debug)]
struct RPt {
    us: usize,
    mix: &'static str,
    d: &'static str,
    n: u128,
}
const RUS: [Us; 5] = [U1, &[("Uatom", "22.2"), ("uatom", "0.5"), ("uatomo", "1")], U4, U5, &[("ibc/uatom", "10.5"), ("Uatom", "0.01"), ("uatom", "2.000000000000000001")]];
fn pool_world() -> World {
    crate::periph::pools_only()
}
fn us_of(i: usize) -> Vec<(String, Decimal)> {
    RUS[i].iter().map(|(d, v)| (d.to_string(), Decimal::from_str(v).unwrap())).collect()
}
fn atoms(us: &[(String, Decimal)]) -> Vec<(String, u128)> {
    us.iter().map(|x| (x.0.clone(), x.1.atomics().u128())).collect()
}
/// pools that the code models itself (the others ask the chain)
fn own_pools(w: &World, mix: &str, d: &str, us: &[(String, Decimal)]) -> bool {
    us.iter().filter(|x| x.0 != d).all(|x| path(mix, &x.0, d).iter().all(|h| w.pools[&h.0].kind == PoolKind::Weighted))
}
fn infos(c: ibcx_interface::periphery::SwapInfosCompact) -> Vec<SwapInfo> {
    c.into()
}
fn routed(w: &World, p: &RPt, st: &mut Stat) -> Result<u64, V> {
    let us = us_of(p.us);
    if !own_pools(w, p.mix, p.d, &us) {
        return Ok(0);
    }
    let bad = |e: String| V { key: String::new(), msg: e };
    let mut runs = 0;
    // out
    let si = infos(burn_info(p.mix, p.d, &atoms(&us)));
    let est = w.with_deps(|d| {
        let pools = query_pools(&d, extract_pool_ids(si.clone())).map_err(|e| e.to_string())?;
        Simulator::new(&d, &pools, &si, &us).estimate_output_for_index(p.n.into(), p.d).map_err(|e| e.to_string())
    });
    // reference: executing one after the other
    let mut x = w.clone();
    x.give("alice", "uatom", 1 << 100);
    for d in DENOMS {
        x.give("alice", d, 1 << 100);
    }
    let x0 = x.clone();
    let mut ok = true;
    let mut outs = vec![];
    let order: Vec<(String, u128)> = match &est {
        Ok(e) => e.sim_routes.0.iter().map(|r| (r.amount_in.denom.clone(), r.amount_in.amount.u128())).collect(),
        Err(_) => us.iter().map(|(dn, un)| (dn.clone(), mulf(un.atomics().u128(), p.n))).collect(),
    };
    for (dn, a) in &order {
        if dn == p.d || *a == 0 {
            outs.push(*a);
            continue;
        }
        let hops: Vec<(u64, &str)> = path(p.mix, dn, p.d).iter().map(|h| (h.0, h.2)).collect();
        match x.swap_in("alice", &hops, dn, *a) {
            Ok(o) => outs.push(o),
            Err(_) => {
                ok = false;
                break;
            }
        }
    }
    runs += 1;
    match &est {
        Ok(e) => {
            hit(st, "routes out: estimated");
            let want: BTreeMap<String, u128> = us.iter().map(|(dn, un)| (dn.clone(), mulf(un.atomics().u128(), p.n))).collect();
            ensure!(want == order.iter().cloned().collect(), "{p:?} estimates for {order:?}, the portfolio redeems {want:?}");
            ensure!(ok, "{p:?} is estimated to give {} but the swaps fail one after the other", e.total_output);
            let got: Vec<u128> = e.sim_routes.0.iter().map(|r| r.sim_amount_out.u128()).collect();
            let close = got.iter().zip(&outs).all(|(a, b)| a.abs_diff(*b) <= 3);
            ensure!(close, "{p:?} estimates {got:?}, executing one after the other gives {outs:?}");
            ensure!(e.total_output.u128() == got.iter().sum::<u128>(), "{p:?}: total {} of {got:?}", e.total_output);
        }
        Err(e) => {
            hit(st, "routes out: refused");
            ensure!(!ok, "{p:?}: no estimate ({e}), executing gives {outs:?}");
        }
    }
    // in
    let si = infos(mint_info(p.mix, p.d, &atoms(&us)));
    let est = w.with_deps(|d| {
        let pools = query_pools(&d, extract_pool_ids(si.clone())).map_err(|e| e.to_string())?;
        Simulator::new(&d, &pools, &si, &us).estimate_input_for_index(p.d, p.n.into()).map_err(|e| e.to_string())
    });
    let mut x = x0;
    let want: BTreeMap<String, u128> = us.iter().map(|(dn, un)| (dn.clone(), mulc(un.atomics().u128(), p.n).max(1))).collect();
    let order: Vec<(String, u128)> = match &est {
        Ok(e) => e.sim_routes.0.iter().map(|r| (r.amount_out.denom.clone(), r.amount_out.amount.u128())).collect(),
        Err(_) => us.iter().map(|(dn, _)| (dn.clone(), want[dn])).collect(),
    };
    let mut ok = true;
    let mut ins = vec![];
    for (dn, a) in &order {
        if dn == p.d {
            ins.push(*a);
            continue;
        }
        let hops: Vec<(u64, &str)> = path(p.mix, p.d, dn).iter().map(|h| (h.0, h.1)).collect();
        match x.swap_out("alice", &hops, dn, *a) {
            Ok(i) => ins.push(i),
            Err(_) => {
                ok = false;
                break;
            }
        }
    }
    runs += 1;
    match &est {
        Ok(e) => {
            hit(st, "routes in: estimated");
            ensure!(want == order.iter().cloned().collect(), "{p:?} estimates for {order:?}, the portfolio needs {want:?}");
            ensure!(ok, "{p:?} is estimated to take {} but the swaps fail one after the other", e.total_input);
            let got: Vec<u128> = e.sim_routes.0.iter().map(|r| r.sim_amount_in.u128()).collect();
            let close = got.iter().zip(&ins).all(|(a, b)| a.abs_diff(*b) <= 3);
            ensure!(close, "{p:?} estimates {got:?}, executing one after the other takes {ins:?}");
            ensure!(e.total_input.u128() == got.iter().sum::<u128>(), "{p:?}: total {} of {got:?}", e.total_input);
        }
        Err(e) => {
            hit(st, "routes in: refused");
            ensure!(!ok, "{p:?}: no estimate ({e}), executing takes {ins:?}");
        }
    }
    let _ = bad;
    Ok(runs)
}

// ---------------------------------------------------------------- M03
#[derive(Clone, Debug)]
struct SPt {
    us: usize,
    mix: &'static str,
    d: &'static str,
    /// amount spent (input side) or received (output side)
    t: u128,
    init: Option<u128>,
    input: bool,
}
fn spoints(thorough: bool) -> Vec<SPt> {
    let ts: Vec<u128> = if thorough {
        vec![1, 10, 100, 999, 4_999, 5_000, 5_001, 10_000, 54_321, 100_000, 1_000_000, 7_654_321, 50_000_000, 1_000_000_000, 33_333_333_333, 400_000_000_000]
    } else {
        vec![10, 4_999, 5_001, 54_321, 1_000_000, 50_000_000, 33_333_333_333]
    };
    let inits: Vec<Option<u128>> = if thorough { vec![None, Some(1), Some(10), Some(777), Some(1_000_000), Some(500_000_000), Some(20_000_000_000)] } else { vec![None, Some(1), Some(777), Some(500_000_000)] };
    let mut v = vec![];
    for us in 0..RUS.len() {
        for mix in MIXES {
            for d in DENOMS {
                for t in &ts {
                    for init in &inits {
                        for input in [true, false] {
                            v.push(SPt { us, mix, d, t: *t, init: *init, input });
                        }
                    }
                }
            }
        }
    }
    v
}
fn searched(w: &World, p: &SPt, st: &mut Stat) -> Result<u64, V> {
    let us = us_of(p.us);
    let si = infos(if p.input { mint_info(p.mix, p.d, &atoms(&us)) } else { burn_info(p.mix, p.d, &atoms(&us)) });
    // (index amount, token amount, per-asset amounts, per-asset swaps)
    type Found = (u128, u128, Vec<(String, u128)>, Vec<u128>);
    let search = |limit: Option<u128>, tol: Option<&str>| -> R<(Found, Option<Found>)> {
        let tol = tol.map(|t| Decimal::from_str(t).unwrap());
        let (init, limit) = (p.init.map(Uint128::new), limit.map(Uint128::new));
        w.with_deps(|d| {
            let pools = query_pools(&d, extract_pool_ids(si.clone())).map_err(|e| e.to_string())?;
            let sim = Simulator::new(&d, &pools, &si, &us);
            if p.input {
                let r = sim.estimate_index_for_input(c(p.t, p.d), init, limit, tol).map_err(|e| e.to_string())?;
                let f = |x: (Uint128, Uint128, Vec<(String, u128)>, Vec<u128>)| (x.0.u128(), x.1.u128(), x.2, x.3);
                macro_rules! pick {
                    ($r:expr) => {
                        f(($r.est_min_token_out, $r.max_token_in, $r.sim_routes.0.iter().map(|x| (x.amount_out.denom.clone(), x.amount_out.amount.u128())).collect(), $r.sim_routes.0.iter().map(|x| x.sim_amount_in.u128()).collect()))
                    };
                }
                Ok((pick!(r.max), r.est.map(|e| pick!(e))))
            } else {
                let r = sim.estimate_index_for_output(c(p.t, p.d), init, limit, tol).map_err(|e| e.to_string())?;
                let f = |x: (Uint128, Uint128, Vec<(String, u128)>, Vec<u128>)| (x.0.u128(), x.1.u128(), x.2, x.3);
                macro_rules! pick {
                    ($r:expr) => {
                        f(($r.est_min_token_in, $r.max_token_out, $r.sim_routes.0.iter().map(|x| (x.amount_in.denom.clone(), x.amount_in.amount.u128())).collect(), $r.sim_routes.0.iter().map(|x| x.sim_amount_out.u128()).collect()))
                    };
                }
                Ok((pick!(r.min), r.est.map(|e| pick!(e))))
            }
        })
    };
    let direct = |n: u128| -> R<u128> {
        w.with_deps(|d| {
            let pools = query_pools(&d, extract_pool_ids(si.clone())).map_err(|e| e.to_string())?;
            let sim = Simulator::new(&d, &pools, &si, &us);
            if p.input {
                sim.estimate_input_for_index(p.d, n.into()).map(|r| r.total_input.u128()).map_err(|e| e.to_string())
            } else {
                sim.estimate_output_for_index(n.into(), p.d).map(|r| r.total_output.u128()).map_err(|e| e.to_string())
            }
        })
    };
    // whatever is reported must be what that amount of index really costs or gives
    let honest = |f: &Found, what: &str| -> Result<(), V> {
        ensure!(direct(f.0) == Ok(f.1), "{p:?}: {what} reports {} for {} index, estimating that gives {:?}", f.1, f.0, direct(f.0));
        ensure!(f.3.iter().sum::<u128>() == f.1, "{p:?}: {what}: swaps {:?} do not sum to {}", f.3, f.1);
        let need: BTreeMap<String, u128> = us.iter().map(|(dn, un)| (dn.clone(), if p.input { mulc(un.atomics().u128(), f.0).max(1) } else { mulf(un.atomics().u128(), f.0) })).collect();
        ensure!(need == f.2.iter().cloned().collect(), "{p:?}: {what}: {:?} swapped for {} index, the portfolio says {need:?}", f.2, f.0);
        Ok(())
    };
    let mut runs = 1;
    let base = search(None, None);
    let (opt, est) = match base {
        Err(e) => {
            hit(st, format!("search: {}", e.split(':').next().unwrap_or("").chars().take(40).collect::<String>()));
            // where no unit is dust the search finds an amount if there is one
            let dust = us.iter().any(|u| u.1.atomics().u128() < 1_000_000_000_000_000);
            let (mut lo, mut hi) = (0u128, if dust || !(10_000..=50_000_000_000).contains(&p.t) || p.init.is_some() { 0 } else { 1u128 << 46 });
            while hi > lo + 1 {
                let m = lo + (hi - lo) / 2;
                match direct(m) {
                    Ok(x) if x <= p.t => lo = m,
                    _ => hi = m,
                }
            }
            let best = if lo > 0 { direct(lo).ok() } else { None };
            ensure!(best.map(|b| p.t - b >= 5000).unwrap_or(true), "{p:?}: {lo} is worth {best:?}, but the search gives up: {e}");
            // a limit cannot make a failing search succeed
            ensure!(search(Some(1), None).is_err() && search(Some(u128::MAX >> 40), None).is_err(), "{p:?}: searching fails without a limit, but not with one");
            return Ok(3);
        }
        Ok(x) => x,
    };
    hit(st, if p.input { "search by input: found" } else { "search by output: found" });
    ensure!(est.is_none(), "{p:?}: a revised amount without a limit");
    ensure!(opt.1 <= p.t && p.t - opt.1 < 5000, "{p:?}: found {} for target {}", opt.1, p.t);
    honest(&opt, "the search")?;
    for tol in [None, Some("0"), Some("0.5"), Some("1")] {
        let limits = dedup(vec![0, 1, opt.0 / 2, opt.0.saturating_sub(1), opt.0, opt.0 + 1, opt.0 + 7, opt.0 * 2 + 3]);
        for l in limits {
            let r = search(Some(l), tol);
            runs += 1;
            let fits = if p.input { l <= opt.0 } else { l >= opt.0 };
            if !fits {
                hit(st, "limit out of reach: refused");
                ensure!(r.is_err(), "{p:?}: limit {l} is out of reach of {}, got {r:?}", opt.0);
                continue;
            }
            match r {
                Err(e) => {
                    // between limit and optimum the estimate itself may be impossible (dust)
                    let gap = opt.0.abs_diff(l);
                    let t = tol.map(|t| Decimal::from_str(t).unwrap()).unwrap_or(Decimal::from_ratio(1u64, 3u64));
                    let n = if p.input { opt.0 - (Uint128::new(gap) * t).u128() } else { opt.0 + (Uint128::new(gap) * t).u128() };
                    hit(st, "limit in reach: estimate impossible");
                    ensure!(direct(n).is_err(), "{p:?}: limit {l}, tolerance {tol:?}: refused ({e}) although {} is within the limit", opt.0);
                }
                Ok((m, e)) => {
                    let Some(e) = e else { viol!("{p:?}: no revised amount for limit {l}") };
                    ensure!(m == opt, "{p:?}: with limit {l} the optimum becomes {m:?} instead of {opt:?}");
                    let (lo, hi) = if p.input { (l, opt.0) } else { (opt.0, l) };
                    ensure!(lo <= e.0 && e.0 <= hi, "{p:?}: limit {l}, tolerance {tol:?}: revised {} is not between limit and optimum {}", e.0, opt.0);
                    hit(st, "limit in reach: revised");
                    honest(&e, "the revision")?;
                    match tol {
                        Some("0") => ensure!(e.0 == opt.0, "{p:?}: no tolerance, yet revised from {} to {}", opt.0, e.0),
                        Some("1") => ensure!(e.0 == l, "{p:?}: full tolerance, yet revised to {} instead of {l}", e.0),
                        _ => {}
                    }
                }
            }
        }
    }
    Ok(runs)
}

pub fn run(p: &str, r: &mut Report) -> bool {
    match p {
        "M01" => {
            let pts = pow_points(r.thorough);
            r.grid("power", &pts, pow_point);
        }
        "M02" => {
            let pts = pools_grid(r.thorough);
            r.grid("single estimates", &pts, single);
            let e18 = 10u128.pow(18);
            let mut pools = vec![
                Px { fee: 3 * e18 / 1000, assets: vec![("uatom", 1_000_000_000_000, 3), ("uatomo", 2_500_000_000_000, 2), ("Uatom", 5_000_000_000_000, 5)] },
                Px { fee: 0, assets: vec![("Uatom", 9_000_000_007, 1), ("uatom", 7_000_000_001, 1), ("uatomo", 33_000_000_011, 1)] },
            ];
            if r.thorough {
                pools.push(Px { fee: e18 / 50, assets: vec![("uatomo", 4_000_000, 1), ("uatom", 800_000_000_000_000, 4), ("Uatom", 77_777_777_777, 2)] });
            }
            let depth = if r.thorough { 4 } else { 3 };
            r.bfs(&Seq { pools, depth }, depth);
            let w = pool_world();
            let mut pts = vec![];
            for us in 0..RUS.len() {
                for mix in MIXES {
                    for d in DENOMS {
                        for n in [1u128, 3, 10, 77, 1_000, 12_345, 1_000_000, 54_321_987, 1_000_000_000, 33_333_333_333] {
                            pts.push(RPt { us, mix, d, n });
                        }
                    }
                }
            }
            r.grid("routes", &pts, |p, st| routed(&w, p, st));
        }
        "M03" => {
            let w = pool_world();
            let pts = spoints(r.thorough);
            r.grid("search", &pts, |p, st| searched(&w, p, st));
        }
        _ => return false,
    }
    true
}
