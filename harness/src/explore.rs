//! Explicit-state exploration: breadth-first, exhaustive up to a depth, parallel.
use crate::world::Canon;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// A violation. `key` classifies it for the known-findings file ("" = never known).
#[derive(Clone, Debug)]
pub struct V {
    pub key: String,
    pub msg: String,
}
pub fn v<T>(msg: impl Into<String>) -> Result<T, V> {
    Err(V { key: String::new(), msg: msg.into() })
}
#[macro_export]
macro_rules! viol { ($($t:tt)*) => { return Err($crate::explore::V { key: String::new(), msg: format!($($t)*) }) } }
#[macro_export]
macro_rules! ensure { ($c:expr, $($t:tt)*) => { if !($c) { return Err($crate::explore::V { key: String::new(), msg: format!($($t)*) }) } } }

pub type Stat = BTreeMap<String, u64>;
pub fn hit(st: &mut Stat, k: impl AsRef<str>) {
    let k = k.as_ref();
    if let Some(x) = st.get_mut(k) {
        *x += 1
    } else {
        st.insert(k.to_string(), 1);
    }
}

pub trait Model: Sync {
    type S: Clone + Send + Sync;
    type Op: Clone + Send + Sync + Debug;
    fn name(&self) -> String;
    fn inits(&self) -> Vec<(String, Self::S)>;
    fn ops(&self, s: &Self::S) -> Vec<Self::Op>;
    /// Executes one operation; Err = the property is violated by this transition.
    fn step(&self, s: &Self::S, o: &Self::Op, st: &mut Stat) -> Result<Self::S, V>;
    /// Judged once per distinct state.
    fn check(&self, _s: &Self::S, _st: &mut Stat) -> Result<(), V> {
        Ok(())
    }
    fn canon(&self, s: &Self::S, h: &mut Canon);
    fn hash(&self, s: &Self::S) -> u128 {
        let mut h = Canon::new();
        self.canon(s, &mut h);
        h.end()
    }
}

#[derive(Clone)]
pub struct Found {
    pub v: V,
    pub model: String,
    pub init: String,
    pub ops: Vec<String>,
}

pub struct Report {
    pub property: String,
    pub thorough: bool,
    pub states: u64,
    pub transitions: u64,
    pub validated: u64,
    pub exhaustive: bool,
    pub outcomes: Stat,
    pub samples: Vec<serde_json::Value>,
    pub models: Vec<serde_json::Value>,
    pub found: Vec<Found>,
    pub known: BTreeMap<String, String>, // key -> description
    pub known_hit: BTreeMap<String, (u64, String)>,
    pub deadline: Instant,
    pub replay: Option<(String, String, Vec<String>)>, // model, init, ops
    pub replay_seen: bool,
    pub engine_error: Option<String>,
    pub threads: usize,
    pub only: Option<String>,
}

const SHARDS: usize = 64;

impl Report {
    fn stop(&self) -> bool {
        !self.found.is_empty() || self.engine_error.is_some()
    }
    fn merge(&mut self, st: Stat) {
        for (k, n) in st {
            *self.outcomes.entry(k).or_insert(0) += n;
        }
    }

    /// Re-executes an operation list from the named start state.
    pub fn run_path<M: Model>(m: &M, init: &str, ops: &[String]) -> Result<Result<M::S, (usize, V)>, String> {
        let inits = m.inits();
        let mut s = inits
            .into_iter()
            .find(|(n, _)| n == init)
            .map(|x| x.1)
            .ok_or_else(|| format!("replay: no start state {init}"))?;
        let mut st = Stat::new();
        if let Err(v) = m.check(&s, &mut st) {
            if ops.is_empty() {
                return Ok(Err((0, v)));
            }
        }
        for (i, o) in ops.iter().enumerate() {
            let op = m
                .ops(&s)
                .into_iter()
                .find(|x| &format!("{x:?}") == o)
                .ok_or_else(|| format!("replay: operation {i} is not enabled: {o}"))?;
            match m.step(&s, &op, &mut st) {
                Ok(n) => s = n,
                Err(v) => return Ok(Err((i + 1, v))),
            }
            if i + 1 == ops.len() {
                if let Err(v) = m.check(&s, &mut st) {
                    return Ok(Err((i + 1, v)));
                }
            }
        }
        Ok(Ok(s))
    }

    pub fn bfs<M: Model>(&mut self, m: &M, depth: usize) {
        if self.stop() {
            return;
        }
        if let Some(f) = &self.only {
            if !m.name().contains(f.as_str()) {
                return;
            }
        }
        if let Some((model, init, ops)) = self.replay.clone() {
            if model != m.name() {
                return;
            }
            self.replay_seen = true;
            match Self::run_path(m, &init, &ops) {
                Err(e) => self.engine_error = Some(e),
                Ok(Ok(_)) => {}
                Ok(Err((_, v))) => self.found.push(Found { v, model, init, ops }),
            }
            return;
        }
        let depth = depth + std::env::var("MC_DEPTH_PLUS").ok().and_then(|s| s.parse().ok()).unwrap_or(0usize);
        let t0 = Instant::now();
        let (st0, tr0) = (self.states, self.transitions);
        let seen: Vec<Mutex<HashSet<u128>>> = (0..SHARDS).map(|_| Mutex::new(HashSet::new())).collect();
        let fresh = |h: u128| seen[(h as usize) % SHARDS].lock().unwrap().insert(h);
        // node: (parent node, op index); roots: (u32::MAX, init index)
        let mut nodes: Vec<(u32, u32)> = vec![];
        let inits = m.inits();
        if inits.is_empty() {
            self.engine_error = Some(format!("model {}: no start state could be built", m.name()));
            return;
        }
        let mut frontier: Vec<(u32, M::S)> = vec![];
        // (node path, violation)
        let mut bad: Vec<(u32, Option<u32>, V)> = vec![];
        let mut stat = Stat::new();
        for (i, (_, s)) in inits.iter().enumerate() {
            if fresh(m.hash(s)) {
                nodes.push((u32::MAX, i as u32));
                let id = nodes.len() as u32 - 1;
                if let Err(v) = m.check(s, &mut stat) {
                    bad.push((id, None, v));
                }
                frontier.push((id, s.clone()));
            }
        }
        self.merge(stat);
        let mut states = frontier.len() as u64;
        let mut transitions = 0u64;
        let mut complete = true;
        let mut reached = 0;
        let mut leaves: Vec<(u32, u128)> = vec![];
        let mut fatal = false;
        let path = |nodes: &Vec<(u32, u32)>, mut n: u32, last: Option<u32>| -> Result<(String, Vec<String>), String> {
            let mut idx = vec![];
            if let Some(o) = last {
                idx.push(o);
            }
            while nodes[n as usize].0 != u32::MAX {
                idx.push(nodes[n as usize].1);
                n = nodes[n as usize].0;
            }
            idx.reverse();
            let (name, mut s) = inits[nodes[n as usize].1 as usize].clone();
            let mut out = vec![];
            let mut st = Stat::new();
            for (k, i) in idx.iter().enumerate() {
                let op = m.ops(&s).get(*i as usize).cloned().ok_or("operation list changed while replaying a prefix")?;
                out.push(format!("{op:?}"));
                match m.step(&s, &op, &mut st) {
                    Ok(n) => s = n,
                    Err(_) if k + 1 == idx.len() => {}
                    Err(v) => return Err(format!("prefix replay diverged: {}", v.msg)),
                }
            }
            Ok((name, out))
        };
        for level in 0..=depth {
            // triage violations of this level
            if !bad.is_empty() {
                bad.sort_by_key(|b| (b.0, b.1));
                for (n, o, v) in std::mem::take(&mut bad) {
                    if !v.key.is_empty() && self.known.contains_key(&v.key) {
                        let e = self.known_hit.entry(v.key.clone()).or_insert((0, String::new()));
                        e.0 += 1;
                        if e.1.is_empty() {
                            if let Ok((i, p)) = path(&nodes, n, o) {
                                e.1 = format!("{} | {} | {} -> {}", m.name(), i, p.join(" ; "), v.msg);
                            }
                        }
                        continue;
                    }
                    match path(&nodes, n, o) {
                        Err(e) => self.engine_error = Some(e),
                        Ok((init, ops)) => {
                            // replay twice: identical observations or it is an engine error
                            for _ in 0..2 {
                                match Self::run_path(m, &init, &ops) {
                                    Ok(Err((_, w))) if w.msg == v.msg => {}
                                    other => {
                                        self.engine_error = Some(format!(
                                            "violation did not replay: {} / {:?}",
                                            v.msg,
                                            other.map(|r| r.map(|_| ()).map_err(|e| e.1.msg))
                                        ))
                                    }
                                }
                            }
                            self.found.push(Found { v, model: m.name(), init, ops });
                        }
                    }
                    fatal = true;
                    break;
                }
            }
            if fatal || level == depth || frontier.is_empty() {
                break;
            }
            let last = level + 1 == depth;
            let next_i = AtomicUsize::new(0);
            let timeout = AtomicBool::new(false);
            let deadline = self.deadline;
            let fr = &frontier;
            let fresh = &fresh;
            let outs: Vec<(Vec<(u32, u32, u128, Option<M::S>)>, Vec<(u32, u32, V, bool)>, Stat, u64)> = std::thread::scope(|sc| {
                let hs: Vec<_> = (0..self.threads)
                    .map(|_| {
                        let (next_i, timeout) = (&next_i, &timeout);
                        std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                            let mut news = vec![];
                            let mut bad = vec![];
                            let mut st = Stat::new();
                            let mut tr = 0u64;
                            loop {
                                let i = next_i.fetch_add(1, Ordering::Relaxed);
                                if i >= fr.len() {
                                    break;
                                }
                                if Instant::now() > deadline || (i % 256 == 0 && memory_full()) || timeout.load(Ordering::Relaxed) {
                                    timeout.store(true, Ordering::Relaxed);
                                    break;
                                }
                                let (id, s) = &fr[i];
                                for (k, op) in m.ops(s).into_iter().enumerate() {
                                    tr += 1;
                                    match m.step(s, &op, &mut st) {
                                        Err(v) => bad.push((*id, k as u32, v, true)),
                                        Ok(n) => {
                                            let h = m.hash(&n);
                                            if fresh(h) {
                                                if let Err(v) = m.check(&n, &mut st) {
                                                    bad.push((*id, k as u32, v, false));
                                                }
                                                news.push((*id, k as u32, h, if last { None } else { Some(n) }));
                                            }
                                        }
                                    }
                                }
                            }
                            (news, bad, st, tr)
                        })
                        .unwrap()
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().expect("explorer thread")).collect()
            });
            if timeout.load(Ordering::Relaxed) {
                complete = false;
            }
            let mut news = vec![];
            for (n, b, st, tr) in outs {
                news.extend(n);
                bad.extend(b.into_iter().map(|x| (x.0, Some(x.1), x.2)));
                self.merge(st);
                transitions += tr;
            }
            news.sort_by_key(|x| (x.0, x.1));
            states += news.len() as u64;
            if !news.is_empty() {
                reached = level + 1;
                leaves.clear();
            }
            frontier.clear();
            for (p, k, h, s) in news {
                nodes.push((p, k));
                let id = nodes.len() as u32 - 1;
                leaves.push((id, h));
                if let Some(s) = s {
                    frontier.push((id, s));
                }
            }
            if !complete && bad.is_empty() {
                break;
            }
        }
        // validate: deepest traces re-executed from the start states reach the same state
        if !fatal {
            let step = (leaves.len() / 40).max(1);
            for (n, h) in leaves.iter().step_by(step).take(40) {
                match path(&nodes, *n, None) {
                    Err(e) => self.engine_error = Some(e),
                    Ok((init, ops)) => match Self::run_path(m, &init, &ops) {
                        Ok(Ok(s)) if m.hash(&s) == *h => {
                            self.validated += 1;
                            if self.samples.len() < 12 && self.validated % 17 == 1 {
                                self.samples.push(serde_json::json!({"model": m.name(), "start": init, "ops": ops}));
                            }
                        }
                        Ok(Err((_, v))) if self.known.contains_key(&v.key) => self.validated += 1,
                        _ => self.engine_error = Some(format!("trace did not replay to the same state: {} {:?}", m.name(), ops)),
                    },
                }
            }
        }
        self.states += states;
        self.transitions += transitions;
        self.exhaustive &= complete && !fatal;
        self.models.push(serde_json::json!({
            "model": m.name(), "start_states": inits.len(), "depth_bound": depth, "depth_reached": reached,
            "states": self.states - st0, "transitions": self.transitions - tr0, "complete": complete && !fatal,
            "wall_s": t0.elapsed().as_secs_f64()
        }));
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!("{}", self.models.last().unwrap());
        }
    }

    /// Exhaustive enumeration of a finite grid of independent points.
    pub fn grid<P: Debug + Clone + Sync + Send>(
        &mut self,
        name: &str,
        points: &[P],
        f: impl Fn(&P, &mut Stat) -> Result<u64, V> + Sync,
    ) {
        if self.stop() {
            return;
        }
        if let Some(o) = &self.only {
            if !name.contains(o.as_str()) {
                return;
            }
        }
        if let Some((model, _, ops)) = self.replay.clone() {
            if model != name {
                return;
            }
            self.replay_seen = true;
            match points.iter().find(|p| format!("{p:?}") == ops[0]) {
                None => self.engine_error = Some("replay: no such grid point".into()),
                Some(p) => {
                    if let Err(v) = f(p, &mut Stat::new()) {
                        self.found.push(Found { v, model, init: String::new(), ops })
                    }
                }
            }
            return;
        }
        let t0 = Instant::now();
        let next = AtomicUsize::new(0);
        let timeout = AtomicBool::new(false);
        let deadline = self.deadline;
        let outs: Vec<(Stat, u64, u64, Vec<(usize, V)>)> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..self.threads)
                .map(|_| {
                    let (next, timeout, f) = (&next, &timeout, &f);
                    std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                        let (mut st, mut n, mut evals, mut bad) = (Stat::new(), 0u64, 0u64, vec![]);
                        loop {
                            let b = next.fetch_add(16, Ordering::Relaxed);
                            if b >= points.len() {
                                break;
                            }
                            if Instant::now() > deadline {
                                timeout.store(true, Ordering::Relaxed);
                                break;
                            }
                            for i in b..(b + 16).min(points.len()) {
                                n += 1;
                                match f(&points[i], &mut st) {
                                    Ok(e) => evals += e,
                                    Err(v) => bad.push((i, v)),
                                }
                            }
                        }
                        (st, n, evals, bad)
                    })
                    .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("grid thread")).collect()
        });
        let mut bad = vec![];
        let (mut n, mut e) = (0, 0);
        for (st, a, b, c) in outs {
            self.merge(st);
            n += a;
            e += b;
            bad.extend(c);
        }
        bad.sort_by_key(|b| b.0);
        for (i, v) in bad {
            if !v.key.is_empty() && self.known.contains_key(&v.key) {
                let h = self.known_hit.entry(v.key.clone()).or_insert((0, format!("{name} | {:?} -> {}", points[i], v.msg)));
                h.0 += 1;
                continue;
            }
            for _ in 0..2 {
                match f(&points[i], &mut Stat::new()) {
                    Err(w) if w.msg == v.msg => {}
                    _ => self.engine_error = Some(format!("violation did not replay: {}", v.msg)),
                }
            }
            self.found.push(Found { v, model: name.into(), init: String::new(), ops: vec![format!("{:?}", points[i])] });
            break;
        }
        // re-execute a spread of points: the verdict must be the same again
        for p in points.iter().step_by((points.len() / 40).max(1)).take(40) {
            let a = f(p, &mut Stat::new()).map_err(|v| v.msg);
            let b = f(p, &mut Stat::new()).map_err(|v| v.msg);
            if a != b {
                self.engine_error = Some(format!("grid point not deterministic: {p:?}"));
            }
            self.validated += 1;
            if self.samples.len() < 12 && self.validated % 13 == 1 {
                self.samples.push(serde_json::json!({"model": name, "point": format!("{p:?}")}));
            }
        }
        self.states += n;
        self.transitions += e;
        self.exhaustive &= !timeout.load(Ordering::Relaxed);
        self.models.push(serde_json::json!({
            "model": name, "grid_points": points.len(), "evaluated": n, "executions": e,
            "complete": n as usize == points.len(), "wall_s": t0.elapsed().as_secs_f64()
        }));
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!("{}", self.models.last().unwrap());
        }
    }
}

pub fn deadline(secs: u64) -> Instant {
    Instant::now() + Duration::from_secs(secs)
}

/// The states held take up most of the machine's memory: like running out of time, it ends the
/// exploration of a model early (`exhaustive: false`), not the check.
fn memory_full() -> bool {
    let gb: u64 = std::env::var("MC_MEM_GB").ok().and_then(|s| s.parse().ok()).unwrap_or(22);
    let statm = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    let pages: u64 = statm.split(' ').nth(1).and_then(|s| s.parse().ok()).unwrap_or(0);
    pages * 4096 > gb << 30
}
