//! A01-A06: the airdrop contract, explored on its real entry points and judged by an
//! independent reference (own Merkle trees, own signatures, own ledger).
use crate::explore::*;
use crate::world::*;
use cosmwasm_std::{Coin, Uint128};
use ibcx_interface::airdrop::*;
use ibcx_interface::types::RangeOrder;
use k256::ecdsa::{signature::hazmat::PrehashSigner, Signature, SigningKey};
use sha2::{Digest, Sha256};
use std::collections::BTreeMap;
use std::sync::{Mutex, OnceLock};

const AIR: &str = "airdr";
const PEOPLE: [&str; 5] = ["creat", "mallo", "alice", "alic", "alice1"];
const DENOMS: [&str; 2] = ["uatomo", "uatom"];

// ------------------------------------------------------------------ reference Merkle trees
type H = [u8; 32];
fn sha(b: &[u8]) -> H {
    Sha256::digest(b).into()
}
fn join(a: &H, b: &H) -> H {
    let (x, y) = if a <= b { (a, b) } else { (b, a) };
    sha(&[x.as_slice(), y.as_slice()].concat())
}
pub struct Tree {
    pub leaves: Vec<(String, u128)>,
    pub root: String,
    pub proofs: Vec<Vec<String>>,
}
fn leaf(k: &str, a: u128) -> H {
    sha(format!("{k}:{a}").as_bytes())
}
fn tree(leaves: Vec<(String, u128)>) -> Tree {
    let n = leaves.len();
    let mut proofs = vec![vec![]; n];
    // level entries: (hash, leaf indexes below)
    let mut lvl: Vec<(H, Vec<usize>)> = leaves.iter().enumerate().map(|(i, (k, a))| (leaf(k, *a), vec![i])).collect();
    while lvl.len() > 1 {
        let mut next = vec![];
        for ch in lvl.chunks(2) {
            if ch.len() == 1 {
                next.push(ch[0].clone());
                continue;
            }
            for i in &ch[0].1 {
                proofs[*i].push(hex::encode(ch[1].0));
            }
            for i in &ch[1].1 {
                proofs[*i].push(hex::encode(ch[0].0));
            }
            next.push((join(&ch[0].0, &ch[1].0), [ch[0].1.clone(), ch[1].1.clone()].concat()));
        }
        lvl = next;
    }
    Tree { leaves, root: hex::encode(lvl[0].0), proofs }
}
/// Reference verification of a claim against a root.
fn merkle_ok(root: &str, proof: &[String], key: &str, amount: u128) -> bool {
    let mut h = leaf(key, amount);
    for p in proof {
        match hex::decode(p).ok().and_then(|b| H::try_from(b).ok()) {
            Some(b) => h = join(&h, &b),
            None => return false,
        }
    }
    hex::encode(h) == root.to_lowercase()
}
fn l(v: &[(&str, u128)]) -> Vec<(String, u128)> {
    v.iter().map(|x| (x.0.to_string(), x.1)).collect()
}
/// The signers of bearer airdrops as accounts that send messages themselves.
fn signer(i: u8) -> &'static str {
    static T: OnceLock<Vec<&'static str>> = OnceLock::new();
    T.get_or_init(|| (0..3).map(|i| &*Box::leak(address(i).into_boxed_str())).collect())[i as usize]
}
/// The fixed trees used by the history models.
fn trees() -> &'static Vec<Tree> {
    static T: OnceLock<Vec<Tree>> = OnceLock::new();
    T.get_or_init(|| {
        vec![
            tree(l(&[("alice", 10)])),
            tree(l(&[("alice", 10), ("alic", 20)])),
            tree(l(&[("alice", 10), ("alic", 20), ("alice1", 30)])),
            // an account listed twice
            tree(l(&[("alice", 10), ("alice", 15), ("alic", 10), ("alice1", 5)])),
            // codes, one of them spelled like an account
            tree(l(&[("Code", 10), ("code", 20), ("alice", 10)])),
            tree(l(&[("Code", 10), ("code/7", 5)])),
            // not an account on the chain
            tree(l(&[("A", 10), ("alice", 10)])),
        ]
    })
}

// ------------------------------------------------------------------ keys and signatures
fn key(i: u8) -> SigningKey {
    SigningKey::from_slice(&[i + 17; 32]).unwrap()
}
fn pubkey(i: u8) -> Vec<u8> {
    key(i).verifying_key().to_encoded_point(true).as_bytes().to_vec()
}
fn address(i: u8) -> String {
    use bech32::ToBase32;
    let h = ripemd::Ripemd160::digest(sha(&pubkey(i)));
    bech32::encode("osmo", h.to_vec().to_base32(), bech32::Variant::Bech32).unwrap()
}
fn sign(i: u8, msg: &str) -> String {
    static C: OnceLock<Mutex<BTreeMap<(u8, String), String>>> = OnceLock::new();
    let c = C.get_or_init(Default::default);
    if let Some(s) = c.lock().unwrap().get(&(i, msg.to_string())) {
        return s.clone();
    }
    let s: Signature = key(i).sign_prehash(&sha(msg.as_bytes())).unwrap();
    let s = hex::encode(s.to_bytes());
    c.lock().unwrap().insert((i, msg.to_string()), s.clone());
    s
}

// ------------------------------------------------------------------ operations
#[derive(Clone, Debug, PartialEq)]
enum Id {
    N(u64),
    L(&'static str),
}
impl Id {
    fn msg(&self) -> AirdropId {
        match self {
            Id::N(n) => AirdropId::Id(*n),
            Id::L(s) => AirdropId::Label(s.to_string()),
        }
    }
}
/// Which proof is presented: the one of leaf `leaf` of tree `tree`, possibly damaged.
#[derive(Clone, Debug, PartialEq)]
struct Pf {
    tree: usize,
    leaf: usize,
}
#[derive(Clone, Debug, PartialEq)]
struct Sg {
    key: u8,
    hash: &'static str,
    acct: &'static str,
    amt: u128,
    form: u8, // 0 intact, 1 cut short, 2 empty, 3 not hex, 4 one bit flipped
}
impl Sg {
    fn hex(&self) -> String {
        let s = sign(self.key, &format!("{}/{}/{}", self.hash, self.acct, self.amt));
        match self.form {
            0 => s,
            1 => s[..s.len() - 2].to_string(),
            2 => String::new(),
            3 => format!("zz{}", &s[2..]),
            _ => {
                let mut b = hex::decode(&s).unwrap();
                b[40] ^= 1;
                hex::encode(b)
            }
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
struct Cl {
    id: Id,
    amount: u128,
    account: Option<&'static str>,
    proof: Pf,
    bearer: Option<(&'static str, Sg)>,
}
impl Cl {
    fn proof(&self) -> Vec<String> {
        trees()[self.proof.tree].proofs[self.proof.leaf].clone()
    }
    fn msg(&self) -> ClaimPayload {
        let account = self.account.map(|a| a.to_string());
        let amount = Uint128::new(self.amount);
        match &self.bearer {
            None => ClaimPayload::Open { airdrop: self.id.msg(), amount, account, merkle_proof: self.proof() },
            Some((h, s)) => ClaimPayload::Bearer {
                airdrop: self.id.msg(),
                amount,
                account,
                claim_hash: h.to_string(),
                claim_sign: s.hex(),
                merkle_proof: self.proof(),
            },
        }
    }
    fn who(&self, sender: &str) -> String {
        self.account.unwrap_or(sender).to_string()
    }
    fn key(&self, sender: &str) -> String {
        match &self.bearer {
            None => self.who(sender),
            Some((h, _)) => h.to_string(),
        }
    }
}
type Coins = &'static [(&'static str, u128)];
#[derive(Clone, Debug)]
enum Op {
    Reg { who: &'static str, bearer: Option<u8>, tree: usize, denom: &'static str, label: Option<&'static str>, funds: Coins },
    Fund(&'static str, Id, Coins),
    Close(&'static str, Id),
    Claim(&'static str, Cl),
    Donate(&'static str, u128),
    Wait,
}
fn coins(c: Coins) -> Vec<Coin> {
    c.iter().map(|x| Coin::new(x.1, x.0)).collect()
}

// ------------------------------------------------------------------ reference state
#[derive(Clone, Debug, PartialEq)]
struct Drop_ {
    bearer: Option<u8>,
    creator: String,
    denom: String,
    tree: usize,
    label: Option<String>,
    funded: u128,
    claimed: u128,
    created: u64,
    closed: Option<u64>,
}
#[derive(Clone, Debug, Default)]
struct G {
    drops: Vec<Drop_>,
    labels: BTreeMap<String, u64>,
    claims: BTreeMap<(u64, String), u128>,
}
impl G {
    fn find(&self, id: &Id) -> Option<u64> {
        match id {
            Id::N(n) => ((*n as usize) < self.drops.len()).then_some(*n),
            Id::L(s) => self.labels.get(*s).copied(),
        }
    }
    fn owes(&self, denom: &str) -> u128 {
        self.drops.iter().filter(|d| d.denom == denom && d.closed.is_none()).map(|d| d.funded - d.claimed).sum()
    }
}
#[derive(Clone)]
struct S {
    w: World,
    g: G,
}

/// What the airdrop contract reports for one airdrop, as (id, drop).
fn shown(r: GetAirdropResponse) -> (u64, Shown) {
    match r {
        GetAirdropResponse::Open { id, creator, denom, total_amount, total_claimed, merkle_root, label, created_at, closed_at } => {
            (id, Shown { signer: None, creator, denom, funded: total_amount.u128(), claimed: total_claimed.u128(), root: merkle_root, label, created: created_at, closed: closed_at })
        }
        GetAirdropResponse::Bearer { id, creator, signer, signer_pub, denom, total_amount, total_claimed, merkle_root, label, created_at, closed_at } => {
            (id, Shown { signer: Some((signer, signer_pub)), creator, denom, funded: total_amount.u128(), claimed: total_claimed.u128(), root: merkle_root, label, created: created_at, closed: closed_at })
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
struct Shown {
    signer: Option<(String, String)>,
    creator: String,
    denom: String,
    funded: u128,
    claimed: u128,
    root: String,
    label: Option<String>,
    created: u64,
    closed: Option<u64>,
}
impl Drop_ {
    fn shown(&self) -> Shown {
        Shown {
            signer: self.bearer.map(|k| (address(k), hex::encode(pubkey(k)))),
            creator: self.creator.clone(),
            denom: self.denom.clone(),
            funded: self.funded,
            claimed: self.claimed,
            root: trees()[self.tree].root.clone(),
            label: self.label.clone(),
            created: self.created,
            closed: self.closed,
        }
    }
}
fn get(w: &World, id: AirdropId) -> R<(u64, Shown)> {
    w.qair::<GetAirdropResponse>(AIR, QueryMsg::GetAirdrop { id }).map(shown)
}

fn exec(w: &mut World, op: &Op) -> R<()> {
    match op {
        Op::Reg { who, bearer, tree, denom, label, funds } => {
            let (root, denom, label) = (trees()[*tree].root.clone(), denom.to_string(), label.map(|x| x.to_string()));
            let p = match bearer {
                None => RegisterPayload::Open { merkle_root: root, denom, label },
                Some(k) => RegisterPayload::Bearer { merkle_root: root, denom, label, signer_pub: hex::encode(pubkey(*k)), signer_sig: sign(*k, &address(*k)) },
            };
            w.exec(who, AIR, Msg::Airdrop(ExecuteMsg::Register(p)), &coins(funds))
        }
        Op::Fund(who, id, funds) => w.exec(who, AIR, Msg::Airdrop(ExecuteMsg::Fund(id.msg())), &coins(funds)),
        Op::Close(who, id) => w.exec(who, AIR, Msg::Airdrop(ExecuteMsg::Close(id.msg())), &[]),
        Op::Claim(who, cl) => w.exec(who, AIR, Msg::Airdrop(ExecuteMsg::Claim(cl.msg())), &[]),
        Op::Donate(d, n) => w.send("mallo", AIR, d, *n),
        Op::Wait => {
            w.wait(7);
            Ok(())
        }
    }
}

/// One executed operation with everything the judges look at.
struct T<'a> {
    pre: &'a S,
    w: &'a World,
    op: &'a Op,
    res: &'a R<()>,
    /// reference state after the operation (with the effects the documented rules give to it)
    g: &'a G,
    target: Option<u64>,
}
impl T<'_> {
    fn ok(&self) -> bool {
        self.res.is_ok()
    }
    fn delta(&self, who: &str, d: &str) -> i128 {
        self.w.bal(who, d) as i128 - self.pre.w.bal(who, d) as i128
    }
    /// Exactly these balances changed, and nothing else.
    fn only(&self, want: &[(&str, &str, i128)]) -> Result<(), V> {
        for p in PEOPLE.iter().chain([AIR, signer(0)].iter()) {
            for d in DENOMS {
                let x: i128 = want.iter().filter(|w| w.0 == *p && w.1 == d).map(|w| w.2).sum();
                let got = self.delta(p, d);
                ensure!(got == x, "{:?} moved {got}{d} for {p}, expected {x}", self.op);
            }
        }
        Ok(())
    }
}

/// Applies the effects the documentation gives to a successful operation.
fn effect(g: &G, op: &Op, height: u64) -> G {
    let mut g = g.clone();
    match op {
        Op::Reg { who, bearer, tree, denom, label, funds } => {
            let id = g.drops.len() as u64;
            let label = label.map(|x| format!("{who}/{x}"));
            if let Some(x) = &label {
                g.labels.entry(x.clone()).or_insert(id);
            }
            g.drops.push(Drop_ {
                bearer: *bearer,
                creator: who.to_string(),
                denom: denom.to_string(),
                tree: *tree,
                label,
                funded: funds.iter().filter(|x| x.0 == *denom).map(|x| x.1).sum(),
                claimed: 0,
                created: height,
                closed: None,
            });
        }
        Op::Fund(_, id, funds) => {
            if let Some(i) = g.find(id) {
                let d = &mut g.drops[i as usize];
                d.funded += funds.iter().filter(|x| x.0 == d.denom).map(|x| x.1).sum::<u128>();
            }
        }
        Op::Close(_, id) => {
            if let Some(i) = g.find(id) {
                g.drops[i as usize].closed = Some(height);
            }
        }
        Op::Claim(who, c) => {
            if let Some(i) = g.find(&c.id) {
                g.drops[i as usize].claimed += c.amount;
                g.claims.insert((i, c.key(who)), c.amount);
            }
        }
        _ => {}
    }
    g
}
/// Is this claim entitled to be paid (leaving aside whether the airdrop's funds suffice)?
fn entitled(g: &G, sender: &str, c: &Cl) -> bool {
    let Some(i) = g.find(&c.id) else { return false };
    let d = &g.drops[i as usize];
    if d.closed.is_some() || d.bearer.is_some() != c.bearer.is_some() || c.amount == 0 || c.who(sender).len() < 3 {
        return false;
    }
    if g.claims.contains_key(&(i, c.key(sender))) {
        return false;
    }
    if !merkle_ok(&trees()[d.tree].root, &c.proof(), &c.key(sender), c.amount) {
        return false;
    }
    match (&c.bearer, d.bearer) {
        (None, None) => true,
        (Some((h, s)), Some(k)) => s.form == 0 && s.key == k && s.hash == *h && s.acct == c.who(sender) && s.amt == c.amount,
        _ => false,
    }
}
fn enough(g: &G, c: &Cl) -> bool {
    g.find(&c.id).map(|i| g.drops[i as usize].claimed + c.amount <= g.drops[i as usize].funded).unwrap_or(false)
}

// ------------------------------------------------------------------ the model
struct M {
    name: &'static str,
    inits: Vec<(String, S)>,
    ops: fn(&S) -> Vec<Op>,
    judge: fn(&T, &mut Stat) -> Result<(), V>,
    state: fn(&S, &mut Stat) -> Result<(), V>,
}
impl Model for M {
    type S = S;
    type Op = Op;
    fn name(&self) -> String {
        self.name.into()
    }
    fn inits(&self) -> Vec<(String, S)> {
        self.inits.clone()
    }
    fn ops(&self, s: &S) -> Vec<Op> {
        (self.ops)(s)
    }
    fn step(&self, s: &S, op: &Op, st: &mut Stat) -> Result<S, V> {
        let mut w = s.w.clone();
        let res = exec(&mut w, op);
        let g = if res.is_ok() { effect(&s.g, op, w.height) } else { s.g.clone() };
        let target = match op {
            Op::Reg { .. } => Some(s.g.drops.len() as u64),
            Op::Fund(_, id, _) | Op::Close(_, id) => s.g.find(id),
            Op::Claim(_, c) => s.g.find(&c.id),
            _ => None,
        };
        let kind = match op {
            Op::Reg { .. } => "register",
            Op::Fund(..) => "fund",
            Op::Close(..) => "close",
            Op::Claim(..) => "claim",
            Op::Donate(..) => "donate",
            Op::Wait => "wait",
        };
        hit(st, format!("{kind} {}", if res.is_ok() { "ok" } else { "refused" }));
        if let Err(e) = &res {
            if std::env::var("MC_ERR").is_ok() {
                hit(st, format!("err {kind}: {e}"));
            }
        }
        (self.judge)(&T { pre: s, w: &w, op, res: &res, g: &g, target }, st)?;
        Ok(S { w, g })
    }
    fn check(&self, s: &S, st: &mut Stat) -> Result<(), V> {
        (self.state)(s, st)
    }
    fn canon(&self, s: &S, h: &mut Canon) {
        s.w.canon(h);
        // a contract that forgets must not make two histories one
        h.s(&format!("{:?}", s.g));
    }
}
fn nothing(_: &S, _: &mut Stat) -> Result<(), V> {
    Ok(())
}

fn world() -> S {
    let mut w = World::new(1_700_000_000);
    for p in PEOPLE {
        for d in DENOMS {
            w.give(p, d, 1000);
        }
    }
    w.give(signer(0), "uatomo", 1000);
    w.instantiate(AIR, "creat", Init::Airdrop(InstantiateMsg {})).expect("instantiate airdrop");
    S { w, g: G::default() }
}
/// A start state: these operations must succeed (they are ordinary use).
fn start(name: &str, ops: &[Op]) -> (String, S) {
    let mut s = world();
    for o in ops {
        if exec(&mut s.w, o).is_ok() {
            s.g = effect(&s.g, o, s.w.height);
        } else {
            // judged by the model itself: the same operation is in its alphabet or A04/A05's
            return (format!("{name} (incomplete: {o:?} was refused)"), s);
        }
    }
    (name.to_string(), s)
}
fn reg(who: &'static str, bearer: Option<u8>, tree: usize, label: Option<&'static str>, funds: Coins) -> Op {
    Op::Reg { who, bearer, tree, denom: funds[0].0, label, funds }
}
fn open_claim(id: Id, key: &'static str, amount: u128, tree: usize, leaf: usize) -> Cl {
    Cl { id, amount, account: Some(key), proof: Pf { tree, leaf }, bearer: None }
}
fn bearer_claim(id: Id, k: u8, code: &'static str, amount: u128, acct: &'static str, tree: usize, leaf: usize) -> Cl {
    Cl { id, amount, account: Some(acct), proof: Pf { tree, leaf }, bearer: Some((code, Sg { key: k, hash: code, acct, amt: amount, form: 0 })) }
}
fn st_name(k: &str) -> &'static str {
    PEOPLE.iter().chain(["Code", "code", "code/7"].iter()).find(|p| **p == k).copied().unwrap_or("A")
}
/// Every claim a listed beneficiary could make, in every airdrop.
fn honest(g: &G) -> Vec<Cl> {
    let mut v = vec![];
    for (i, d) in g.drops.iter().enumerate() {
        let id = match &d.label {
            Some(x) if i % 2 == 0 => Id::L(lab(x)),
            _ => Id::N(i as u64),
        };
        v.extend(honest_of(g, i, id));
    }
    v
}
/// Every claim a listed beneficiary could make in airdrop `i`.
fn honest_of(g: &G, i: usize, id: Id) -> Vec<Cl> {
    let d = &g.drops[i];
    trees()[d.tree]
        .leaves
        .iter()
        .enumerate()
        .map(|(j, (k, a))| {
            let k = st_name(k);
            match d.bearer {
                None => open_claim(id.clone(), k, *a, d.tree, j),
                Some(s) => bearer_claim(id.clone(), s, k, *a, if j % 2 == 0 { "alice1" } else { "mallo" }, d.tree, j),
            }
        })
        .collect()
}
const LONG: &str = "a label of more than sixty-four bytes: 0123456789012345678901234567890123456789";
const LABELS: [&str; 19] = [
    "creat/a/", "creat/a ", " creat/a", "/creat/a",
    "creat/a label of more than sixty-four bytes: 0123456789012345678901234567890123456789",
    "creat/ a", "creat/A",
    "creat/a", "creat/b", "mallo/a", "mallo/b", "creat/", "creat/a/b", "mallo/", "mallo/a/b", "creat/mallo/a", "mallo/creat/a", "creat/c", "a",
];
fn lab(x: &str) -> &'static str {
    LABELS.iter().find(|l| **l == x).copied().unwrap_or("?")
}

fn drops_init() -> Vec<Op> {
    vec![
        reg("creat", None, 2, Some("a"), &[("uatomo", 60)]),
        reg("creat", None, 2, None, &[("uatomo", 25)]),
        reg("mallo", Some(0), 4, Some("a"), &[("uatomo", 25)]),
        reg("mallo", None, 3, None, &[("uatom", 40)]),
    ]
}

// ------------------------------------------------------------------ A01
fn a01_ops(s: &S) -> Vec<Op> {
    let mut v = vec![];
    if s.g.drops.len() < 5 {
        v.push(reg("creat", None, 1, Some("b"), &[("uatomo", 12)]));
        v.push(reg("mallo", Some(1), 5, Some("b"), &[("uatomo", 9)]));
        v.push(reg("alice", None, 0, None, &[("uatom", 10)]));
    }
    for (i, d) in s.g.drops.iter().enumerate() {
        let (i, who) = (i as u64, st_name(&d.creator));
        let f: Coins = if d.denom == "uatomo" { &[("uatomo", 7)] } else { &[("uatom", 7)] };
        v.push(Op::Fund(who, Id::N(i), f));
        v.push(Op::Close(who, Id::N(i)));
    }
    for c in honest(&s.g) {
        v.push(Op::Claim("alic", c));
    }
    for x in ["creat/a", "creat/a/", "creat/A"] {
        v.push(Op::Fund("creat", Id::L(x), &[("uatomo", 3)]));
    }
    v.push(Op::Close("mallo", Id::L("mallo/a")));
    v.push(Op::Close(signer(0), Id::N(2)));
    if s.w.bal("mallo", "uatomo") > 900 {
        v.push(Op::Donate("uatomo", 5));
    }
    v
}
fn a01_judge(t: &T, st: &mut Stat) -> Result<(), V> {
    let before: Vec<R<(u64, Shown)>> = (0..t.pre.g.drops.len() as u64).map(|i| get(&t.pre.w, AirdropId::Id(i))).collect();
    for (i, b) in before.iter().enumerate() {
        let a = get(t.w, AirdropId::Id(i as u64));
        if !t.ok() || t.target != Some(i as u64) {
            ensure!(&a == b, "{:?} on airdrop {:?} changed airdrop {i}: {b:?} -> {a:?}", t.op, t.target);
        }
    }
    if !t.ok() {
        return t.only(&[]);
    }
    let Some(id) = t.target else { return Ok(()) };
    let Ok((_, now)) = get(t.w, AirdropId::Id(id)) else {
        // a registration that reports another id is A05's matter, but its totals must exist
        viol!("airdrop {id} cannot be queried after {:?}", t.op)
    };
    let (f0, c0) = match before.get(id as usize) {
        Some(Ok((_, b))) => (b.funded as i128, b.claimed as i128),
        _ => (0, 0),
    };
    let d = now.denom.as_str();
    let (df, dc) = (now.funded as i128 - f0, now.claimed as i128 - c0);
    let flow = t.delta(AIR, d);
    match t.op {
        Op::Reg { .. } | Op::Fund(..) => {
            ensure!(df == flow && dc == 0, "{:?}: {flow}{d} were paid in, but funded changed by {df} and claimed by {dc}", t.op);
        }
        Op::Claim(..) => {
            hit(st, "claim accounted");
            ensure!(df == 0 && dc == -flow, "{:?}: {}{d} were paid out, but funded changed by {df} and claimed by {dc}", t.op, -flow);
            ensure!(now.claimed <= now.funded, "airdrop {id} has paid out {} of {} funded", now.claimed, now.funded);
        }
        Op::Close(..) => {
            ensure!(df == 0 && dc == 0, "closing changed the totals of airdrop {id} by {df}/{dc}");
            let left = now.funded - now.claimed.min(now.funded);
            ensure!(-flow <= left as i128, "closing airdrop {id} paid {} of a remainder of {left}", -flow);
        }
        _ => {}
    }
    for x in DENOMS {
        if x != d {
            ensure!(t.delta(AIR, x) == 0, "{:?} on an airdrop of {d} moved {x}", t.op);
        }
    }
    Ok(())
}
fn a01_state(s: &S, _: &mut Stat) -> Result<(), V> {
    for d in DENOMS {
        let (mut owed, mut i) = (0u128, 0u64);
        while let Ok((_, x)) = get(&s.w, AirdropId::Id(i)) {
            ensure!(x.claimed <= x.funded, "airdrop {i} reports {} claimed of {} funded", x.claimed, x.funded);
            if x.denom == d && x.closed.is_none() {
                owed += x.funded - x.claimed;
            }
            i += 1;
        }
        let has = s.w.bal(AIR, d);
        ensure!(has >= owed, "the contract holds {has}{d} but its open airdrops still owe {owed}");
        ensure!(has >= s.g.owes(d), "the contract holds {has}{d} but its open airdrops still owe {} by their history", s.g.owes(d));
    }
    Ok(())
}

// ------------------------------------------------------------------ A02 / A03
fn claim_judge(t: &T, st: &mut Stat, bearer: bool) -> Result<(), V> {
    let Op::Claim(who, cl) = t.op else { return Ok(()) };
    if cl.bearer.is_some() != bearer && t.target.map(|i| t.pre.g.drops[i as usize].bearer.is_some()) != Some(bearer) {
        return Ok(());
    }
    let want = entitled(&t.pre.g, who, cl);
    let key = cl.key(who);
    if t.ok() {
        ensure!(want, "{who} could claim with {cl:?} though it is not entitled (claims made: {:?})", t.pre.g.claims);
        let to = cl.who(who);
        let d = &t.pre.g.drops[t.target.unwrap() as usize];
        hit(st, "entitled claim paid");
        t.only(&[(AIR, &d.denom, -(cl.amount as i128)), (&to, &d.denom, cl.amount as i128)])?;
        // reported
        let q: R<GetClaimResponse> = t.w.qair(AIR, QueryMsg::GetClaim { airdrop: cl.id.msg(), claim_key: key.clone() });
        ensure!(q.as_ref().map(|x| x.amount.u128() == cl.amount && x.claim_key == key && Some(x.id) == t.target).unwrap_or(false), "the claim of {key} is reported as {q:?}");
    } else {
        if want && enough(&t.pre.g, cl) {
            viol!("the entitled claim {cl:?} by {who} was refused: {:?}", t.res);
        }
        hit(st, if want { "entitled but airdrop exhausted" } else { "unentitled claim refused" });
        t.only(&[])?;
    }
    Ok(())
}
fn a02_judge(t: &T, st: &mut Stat) -> Result<(), V> {
    claim_judge(t, st, false)
}
fn a03_judge(t: &T, st: &mut Stat) -> Result<(), V> {
    claim_judge(t, st, true)
}
/// Every entry claimed, then closed with nothing left.
fn claimed_out() -> (String, S) {
    start("claimed out and closed", &[
        reg("creat", None, 1, Some("a"), &[("uatomo", 30)]),
        reg("mallo", Some(0), 5, None, &[("uatomo", 15)]),
        Op::Claim("alice", open_claim(Id::N(0), "alice", 10, 1, 0)),
        Op::Claim("alice", open_claim(Id::N(0), "alic", 20, 1, 1)),
        Op::Claim("alice", bearer_claim(Id::N(1), 0, "Code", 10, "alice", 5, 0)),
        Op::Claim("alice", bearer_claim(Id::N(1), 0, "code/7", 5, "alice", 5, 1)),
        Op::Close("creat", Id::N(0)),
        Op::Close("mallo", Id::N(1)),
    ])
}
fn a02_init() -> Vec<(String, S)> {
    vec![
        start("shared tree", &[
            reg("creat", None, 2, Some("a"), &[("uatomo", 60)]),
            reg("mallo", None, 2, None, &[("uatom", 45)]),
            reg("creat", Some(0), 4, None, &[("uatomo", 40)]),
        ]),
        start("account listed twice", &[reg("creat", None, 3, Some("a"), &[("uatomo", 60)]), reg("creat", None, 0, None, &[("uatomo", 10)]), reg("alice", None, 6, None, &[("uatomo", 20)])]),
        claimed_out(),
    ]
}
fn dedup3(mut v: Vec<usize>) -> Vec<usize> {
    v.sort();
    v.dedup();
    v
}
fn a02_ops(s: &S) -> Vec<Op> {
    let mut v = vec![];
    let ids = if s.g.labels.is_empty() { vec![Id::N(0), Id::N(1), Id::N(2)] } else { vec![Id::N(0), Id::L("creat/a"), Id::N(1), Id::N(2), Id::N(7), Id::L("creat/b")] };
    for id in ids {
        let tr: Vec<usize> = match s.g.find(&id) {
            // tree 0's only proof is empty
            Some(i) => dedup3(vec![s.g.drops[i as usize].tree, 1, 0]),
            None => vec![2],
        };
        for who in ["alice", "mallo"] {
            for account in [None, Some("alice"), Some("alic"), Some("alice1"), Some("A"), Some("Alice")] {
                for t in &tr {
                    for leaf in 0..trees()[*t].leaves.len() {
                        for amount in [0, 5, 10, 15, 20, 30, 100] {
                            v.push(Op::Claim(who, Cl { id: id.clone(), amount, account, proof: Pf { tree: *t, leaf }, bearer: None }));
                        }
                    }
                }
            }
        }
        // a bearer claim against an open airdrop
        v.push(Op::Claim("alice", bearer_claim(id.clone(), 0, "alice", 10, "alice", 2, 0)));
    }
    v.push(Op::Claim("alice", Cl { id: Id::N(2), amount: 10, account: Some("alice"), proof: Pf { tree: 4, leaf: 2 }, bearer: None }));
    v.push(Op::Fund("creat", Id::N(0), &[("uatomo", 30)]));
    v.push(Op::Fund("mallo", Id::N(1), &[("uatom", 30)]));
    v.push(Op::Close("creat", Id::N(0)));
    v
}
fn a03_init() -> Vec<(String, S)> {
    vec![start("two signers, same codes", &[
        reg("creat", Some(0), 4, Some("a"), &[("uatomo", 40)]),
        reg("mallo", Some(1), 4, None, &[("uatom", 25)]),
        reg("creat", None, 4, None, &[("uatomo", 40)]),
        reg("creat", Some(0), 5, None, &[("uatomo", 40)]),
    ])]
}
fn a03_ops(s: &S, wide: bool) -> Vec<Op> {
    let mut v = vec![];
    let ids: Vec<Id> = vec![Id::N(0), Id::L("creat/a"), Id::N(1), Id::N(2), Id::N(3)];
    for id in ids {
        let Some(i) = s.g.find(&id) else { continue };
        let d = &s.g.drops[i as usize];
        for (leaf, (code, amt)) in trees()[d.tree].leaves.iter().enumerate() {
            let (code, amt) = (st_name(code), *amt);
            // (also paid to the signer itself)
            for acct in ["alice", "alice1", "A", signer(0)] {
                let good = Sg { key: d.bearer.unwrap_or(0), hash: code, acct, amt, form: 0 };
                let base = Cl { id: id.clone(), amount: amt, account: Some(acct), proof: Pf { tree: d.tree, leaf }, bearer: Some((code, good.clone())) };
                // the claim itself, and by default account
                v.push(Op::Claim("alice1", base.clone()));
                if acct.len() >= 3 {
                    v.push(Op::Claim(if acct == signer(0) { acct } else { st_name(acct) }, Cl { account: None, ..base.clone() }));
                }
                // mismatches between what is signed and what is claimed
                let mut sgs = vec![Sg { key: 1 - good.key, ..good.clone() }];
                for f in 1..=4 {
                    sgs.push(Sg { form: f, ..good.clone() });
                }
                for a in ["alice", "alic", "alice1"] {
                    sgs.push(Sg { acct: a, ..good.clone() });
                }
                for h in ["Code", "code", "code/7", "alice"] {
                    sgs.push(Sg { hash: h, ..good.clone() });
                }
                for n in [5, 10, 20, 100] {
                    sgs.push(Sg { amt: n, ..good.clone() });
                }
                for sg in sgs {
                    if sg != good {
                        if sg.form > 0 || sg.key != good.key {
                            v.push(Op::Claim(signer(good.key), Cl { bearer: Some((code, sg.clone())), ..base.clone() }));
                            v.push(Op::Claim("creat", Cl { bearer: Some((code, sg.clone())), ..base.clone() }));
                        }
                        v.push(Op::Claim("alice1", Cl { bearer: Some((code, sg)), ..base.clone() }));
                    }
                }
                // other amounts, codes and proofs, consistently signed
                for n in [0, 5, 10, 20, 100] {
                    if n != amt {
                        v.push(Op::Claim("alice1", Cl { amount: n, bearer: Some((code, Sg { amt: n, ..good.clone() })), ..base.clone() }));
                    }
                }
                for h in ["Code", "code", "code/7", "alice"] {
                    if h != code {
                        v.push(Op::Claim("alice1", Cl { bearer: Some((h, Sg { hash: h, ..good.clone() })), ..base.clone() }));
                    }
                }
                if wide {
                    for t in [0usize, 4, 5] {
                        for x in 0..trees()[t].leaves.len() {
                            v.push(Op::Claim("alice1", Cl { proof: Pf { tree: t, leaf: x }, ..base.clone() }));
                        }
                    }
                }
            }
            v.push(Op::Claim("alice1", Cl { id: id.clone(), amount: amt, account: Some("alice"), proof: Pf { tree: d.tree, leaf }, bearer: None }));
        }
    }
    v.push(Op::Close("creat", Id::N(0)));
    v
}

/// Trees of every size: every (account, amount) against every (damaged) proof.
fn a02_grid(r: &mut Report, bearer: bool) {
    let max = if r.thorough { 17 } else { 9 };
    let mut pts = vec![];
    for n in 1..=max {
        for x in 0..=n {
            for mutation in 0..14 {
                pts.push((n, x, mutation));
            }
        }
    }
    let key = |i: usize| {
        if bearer {
            format!("{}{}{}", ["code", "Code", "code/", "code", " code"][i % 5], i / 5, if i % 5 == 3 { " " } else { "" })
        } else {
            format!("holder{i}")
        }
    };
    let amt = |i: usize| 10 + (i as u128 % 3) * 5;
    let name = if bearer { "bearer: trees of every size and damaged proofs" } else { "open: trees of every size and damaged proofs" };
    r.grid(name, &pts, |(n, x, mutation), st| {
        let t = tree((0..*n).map(|i| (key(i), amt(i))).collect());
        let mut w = World::new(1_700_000_000);
        w.give("creat", "uatomo", 1_000_000);
        w.instantiate(AIR, "creat", Init::Airdrop(InstantiateMsg {})).map_err(|e| V { key: "".into(), msg: e })?;
        let root = if n % 2 == 0 { t.root.to_uppercase() } else { t.root.clone() };
        let p = if bearer {
            RegisterPayload::Bearer { merkle_root: root.clone(), denom: "uatomo".into(), label: None, signer_pub: hex::encode(pubkey(0)), signer_sig: sign(0, &address(0)) }
        } else {
            RegisterPayload::Open { merkle_root: root.clone(), denom: "uatomo".into(), label: None }
        };
        if let Err(e) = w.exec("creat", AIR, Msg::Airdrop(ExecuteMsg::Register(p)), &[Coin::new(500_000u128, "uatomo")]) {
            viol!("an airdrop with a tree of {n} leaves cannot be registered: {e}");
        }
        // the claimed leaf: x (x == n: not in the tree)
        let k = key(*x);
        // also after another entry was claimed
        let mut after = w.clone();
        let y = (x + 1) % n;
        let first = *n > 1 && y != *x && {
            let (k, a, who) = (key(y), amt(y), if bearer { "alic".to_string() } else { key(y) });
            let m = if bearer {
                ClaimPayload::Bearer { airdrop: AirdropId::Id(0), amount: Uint128::new(a), account: Some(who.clone()), claim_hash: k.clone(), claim_sign: sign(0, &format!("{k}/{who}/{a}")), merkle_proof: t.proofs[y].clone() }
            } else {
                ClaimPayload::Open { airdrop: AirdropId::Id(0), amount: Uint128::new(a), account: Some(who.clone()), merkle_proof: t.proofs[y].clone() }
            };
            after.exec("mallo", AIR, Msg::Airdrop(ExecuteMsg::Claim(m)), &[]).is_ok()
        };
        let mut runs = 0;
        for a in [amt(*x), amt(*x + 1), amt(*x) * 10, amt(*x) / 10, 0] {
            for pf in 0..*n {
                let mut proof = t.proofs[pf].clone();
                match mutation {
                    0 => {}
                    1 => {
                        proof.pop();
                    }
                    2 => {
                        if !proof.is_empty() {
                            proof.remove(0);
                        }
                    }
                    3 => proof.push(t.root.clone()),
                    4 => proof.reverse(),
                    5 => proof.insert(0, hex::encode(leaf(&k, a))),
                    9 => proof.clear(),
                    6 => proof.iter_mut().for_each(|p| *p = p.to_uppercase()),
                    10 => proof.insert(0, String::new()),
                    11 => proof.push(String::new()),
                    12 => proof.iter_mut().for_each(|p| *p = format!("0x{p}")),
                    13 => proof.iter_mut().for_each(|p| *p = format!("{p} ")),
                    7 => {
                        if let Some(p) = proof.last_mut() {
                            p.pop();
                        }
                    }
                    _ => {
                        if let Some(p) = proof.first_mut() {
                            let c = if p.starts_with('0') { "1" } else { "0" };
                            p.replace_range(0..1, c);
                        }
                    }
                }
                let want = a > 0 && merkle_ok(&root, &proof, &k, a);
                let who = if bearer { "alice".to_string() } else { k.clone() };
                let payload = if bearer {
                    ClaimPayload::Bearer { airdrop: AirdropId::Id(0), amount: Uint128::new(a), account: Some(who.clone()), claim_hash: k.clone(), claim_sign: sign(0, &format!("{k}/{who}/{a}")), merkle_proof: proof.clone() }
                } else {
                    ClaimPayload::Open { airdrop: AirdropId::Id(0), amount: Uint128::new(a), account: Some(who.clone()), merkle_proof: proof.clone() }
                };
                if first {
                    for by in ["mallo", "creat", &who] {
                        let mut w3 = after.clone();
                        let res = w3.exec(by, AIR, Msg::Airdrop(ExecuteMsg::Claim(payload.clone())), &[]);
                        runs += 1;
                        ensure!(res.is_ok() == want, "claim {k}:{a} by {by} in a tree of {n} with the proof of leaf {pf} (mutation {mutation}), after {} was claimed: {res:?}, expected paid={want}", key(y));
                    }
                }
                let mut w2 = w.clone();
                let res = w2.exec("mallo", AIR, Msg::Airdrop(ExecuteMsg::Claim(payload.clone())), &[]);
                runs += 1;
                hit(st, format!("{} {}", if want { "listed" } else { "unlisted" }, if res.is_ok() { "paid" } else { "refused" }));
                ensure!(res.is_ok() == want, "claim {k}:{a} in a tree of {n} with the proof of leaf {pf} (mutation {mutation}): {res:?}, expected paid={want}");
                let paid = w2.bal(&who, "uatomo");
                ensure!(paid == if want { a } else { 0 }, "claim {k}:{a} paid {paid}");
                if want {
                    ensure!(w2.exec("mallo", AIR, Msg::Airdrop(ExecuteMsg::Claim(payload.clone())), &[]).is_err(), "{k} could claim twice");
                }
            }
        }
        Ok(runs)
    });
}

/// Proofs of every length, and trees of many leaves.
fn deep(r: &mut Report, bearer: bool) {
    let depth: usize = if r.thorough { 130 } else { 70 };
    let sizes: Vec<usize> = if r.thorough { vec![127, 128, 129, 255, 256, 257, 511, 513, 1023, 1025, 4097] } else { vec![129, 255, 257, 513, 1025] };
    // (0, depth): one leaf under that many siblings; (1, leaves)
    let pts: Vec<(u8, usize)> = (0..=depth).map(|d| (0, d)).chain(sizes.into_iter().map(|n| (1, n))).collect();
    let name = if bearer { "bearer: long proofs" } else { "open: long proofs" };
    r.grid(name, &pts, |(kind, n), st| {
        let amt = |i: usize| 10 + (i as u128 % 3) * 5;
        // (root, [(key, amount, proof)])
        let (root, entries) = if *kind == 0 {
            let k = if bearer { "code" } else { "alice" };
            let proof: Vec<String> = (0..*n).map(|i| hex::encode(sha(&[i as u8]))).collect();
            let mut h = leaf(k, 10);
            for i in 0..*n {
                h = join(&h, &sha(&[i as u8]));
            }
            (hex::encode(h), vec![(k.to_string(), 10u128, proof)])
        } else {
            let t = tree((0..*n).map(|i| (format!("holder{i}"), amt(i))).collect());
            let mut at = vec![0, 1, n / 3, n / 2, n - 2, n - 1];
            at.dedup();
            let e = at.iter().map(|i| (format!("holder{i}"), amt(*i), t.proofs[*i].clone())).collect();
            (t.root, e)
        };
        let mut w = World::new(1_700_000_000);
        w.give("creat", "uatomo", 1_000_000);
        w.instantiate(AIR, "creat", Init::Airdrop(InstantiateMsg {})).map_err(|e| V { key: "".into(), msg: e })?;
        let p = if bearer {
            RegisterPayload::Bearer { merkle_root: root.clone(), denom: "uatomo".into(), label: None, signer_pub: hex::encode(pubkey(0)), signer_sig: sign(0, &address(0)) }
        } else {
            RegisterPayload::Open { merkle_root: root.clone(), denom: "uatomo".into(), label: None }
        };
        if let Err(e) = w.exec("creat", AIR, Msg::Airdrop(ExecuteMsg::Register(p)), &[Coin::new(500_000u128, "uatomo")]) {
            viol!("an airdrop cannot be registered: {e}");
        }
        let mut runs = 0;
        for (k, a, proof) in &entries {
            let who = if bearer { "alice".to_string() } else { k.clone() };
            let mut variants: Vec<(u128, Vec<String>)> = vec![];
            for i in 0..proof.len() {
                if proof.len() > 24 && i % 5 != proof.len() % 5 && i + 9 < proof.len() && i > 8 {
                    continue;
                }
                let mut q = proof.clone();
                q.remove(i);
                variants.push((*a, q));
                let mut q = proof.clone();
                q.truncate(i);
                variants.push((*a, q));
                let mut q = proof.clone();
                q[i] = hex::encode(sha(b"other"));
                variants.push((*a, q));
                let mut q = proof.clone();
                q.insert(i, hex::encode(sha(b"other")));
                variants.push((*a, q));
            }
            let mut q = proof.clone();
            q.push(hex::encode(sha(b"other")));
            variants.push((*a, q));
            variants.push((a + 1, proof.clone()));
            variants.push((*a, proof.clone()));
            variants.push((*a, proof.clone()));
            let mut done = false;
            for (x, q) in variants {
                let want = !done && merkle_ok(&root, &q, k, x);
                let m = if bearer {
                    ClaimPayload::Bearer { airdrop: AirdropId::Id(0), amount: Uint128::new(x), account: Some(who.clone()), claim_hash: k.clone(), claim_sign: sign(0, &format!("{k}/{who}/{x}")), merkle_proof: q.clone() }
                } else {
                    ClaimPayload::Open { airdrop: AirdropId::Id(0), amount: Uint128::new(x), account: Some(who.clone()), merkle_proof: q.clone() }
                };
                let before = w.bal(&who, "uatomo");
                let res = w.exec("mallo", AIR, Msg::Airdrop(ExecuteMsg::Claim(m)), &[]);
                runs += 1;
                hit(st, if want { "paid" } else { "refused" });
                ensure!(res.is_ok() == want, "claim {k}:{x} with a proof of {} hashes (the right one has {}): {res:?}, expected paid={want}", q.len(), proof.len());
                ensure!(w.bal(&who, "uatomo") - before == if want { x } else { 0 }, "claim {k}:{x} paid {}", w.bal(&who, "uatomo") - before);
                done |= want;
            }
            ensure!(done, "the listed entry {k}:{a} was never paid");
        }
        Ok(runs)
    });
}

/// Registration of bearer airdrops: every combination of key, signature and signed text.
fn a03_registration(r: &mut Report) {
    let mut pts = vec![];
    for pk in 0..3u8 {
        for sk in 0..3u8 {
            for text in 0..5u8 {
                for form in 0..5u8 {
                    for pkform in 0..4u8 {
                        for own in [false, true] {
                            pts.push((pk, sk, text, form, pkform, own));
                        }
                    }
                }
            }
        }
    }
    r.grid("bearer registration", &pts, |(pk, sk, text, form, pkform, own), st| {
        let mut s = world();
        let who = if *own { signer(*pk) } else { "creat" };
        if *own && *pk > 0 {
            s.w.give(who, "uatomo", 1000);
        }
        let msg = match text {
            0 => address(*pk),
            1 => address((*pk + 1) % 3),
            2 => hex::encode(pubkey(*pk)),
            3 => "creat".into(),
            _ => String::new(),
        };
        let sg = sign(*sk, &msg);
        let sg = match form {
            0 => sg,
            1 => sg[..sg.len() - 2].into(),
            2 => String::new(),
            3 => format!("zz{}", &sg[2..]),
            _ => {
                let mut b = hex::decode(&sg).unwrap();
                b[40] ^= 1;
                hex::encode(b)
            }
        };
        let pubk = hex::encode(pubkey(*pk));
        let pubk = match pkform {
            0 => pubk,
            1 => pubk.to_uppercase(),
            2 => pubk[..pubk.len() - 2].into(),
            _ => format!("zz{}", &pubk[2..]),
        };
        let want = pk == sk && *text == 0 && *form == 0 && *pkform <= 1;
        let p = RegisterPayload::Bearer { merkle_root: trees()[4].root.clone(), denom: "uatomo".into(), label: None, signer_pub: pubk, signer_sig: sg };
        let res = s.w.exec(who, AIR, Msg::Airdrop(ExecuteMsg::Register(p)), &[Coin::new(40u128, "uatomo")]);
        hit(st, if res.is_ok() { "registered" } else { "refused" });
        ensure!(res.is_ok() == want, "{who} registering with key {pk}/{pkform}, signature by {sk} over text {text}, form {form}: {res:?}, expected accepted={want}");
        if want {
            let g = get(&s.w, AirdropId::Id(0));
            ensure!(g.as_ref().map(|x| x.1.signer == Some((address(*pk), hex::encode(pubkey(*pk))))).unwrap_or(false), "registered signer is reported as {g:?}");
        } else {
            ensure!(s.w.bal(who, "uatomo") == 1000 && s.w.bal(AIR, "uatomo") == 0, "a refused registration kept funds");
        }
        Ok(1)
    });
}

// ------------------------------------------------------------------ A04
fn a04_ops(s: &S) -> Vec<Op> {
    let mut v = vec![Op::Wait];
    let mut ids: Vec<Id> = (0..=s.g.drops.len() as u64).map(Id::N).collect();
    ids.push(Id::L("creat/a"));
    ids.push(Id::L("mallo/a"));
    ids.push(Id::L("creat/zz"));
    ids.push(Id::L("creat/a/"));
    for who in ["creat", "mallo", "alice", signer(0)] {
        for id in &ids {
            v.push(Op::Close(who, id.clone()));
            let shapes: [Coins; 7] = [&[], &[("uatomo", 0)], &[("uatomo", 6)], &[("uatom", 6)], &[("uatom", 6), ("uatomo", 6)], &[("uatomo", 1)], &[("uatom", 0), ("uatomo", 2)]];
            for f in shapes {
                v.push(Op::Fund(who, id.clone(), f));
            }
        }
        if s.g.drops.len() < 5 {
            let shapes: [Coins; 6] = [&[], &[("uatomo", 0)], &[("uatomo", 10)], &[("uatom", 6)], &[("uatom", 6), ("uatomo", 6)], &[("uatomo", 1)]];
            for f in shapes {
                for b in [None, Some(0)] {
                    v.push(Op::Reg { who, bearer: b, tree: if b.is_some() { 4 } else { 2 }, denom: "uatomo", label: None, funds: f });
                }
            }
        }
    }
    for c in honest(&s.g) {
        v.push(Op::Claim("alic", c));
    }
    v
}
fn payment_ok(denom: &str, funds: Coins) -> bool {
    let nz: Vec<_> = funds.iter().filter(|f| f.1 > 0).collect();
    nz.len() == 1 && nz[0].0 == denom
}
fn a04_judge(t: &T, st: &mut Stat) -> Result<(), V> {
    match t.op {
        Op::Reg { who, denom, funds, .. } => {
            let good = payment_ok(denom, funds);
            ensure!(t.ok() == good, "registering with coins {funds:?} for an airdrop of {denom}: {:?}", t.res);
            if t.ok() {
                let n = funds.iter().map(|x| x.1).sum::<u128>() as i128;
                t.only(&[(who, denom, -n), (AIR, denom, n)])?;
            }
        }
        Op::Fund(who, _, funds) => {
            let d = t.target.map(|i| &t.pre.g.drops[i as usize]);
            let good = d.map(|d| d.creator == *who && d.closed.is_none() && payment_ok(&d.denom, funds)).unwrap_or(false);
            if let Some(d) = d {
                hit(st, format!("fund: creator={} open={} payment={}", d.creator == *who, d.closed.is_none(), payment_ok(&d.denom, funds)));
            }
            ensure!(t.ok() == good, "{who} funding {:?} with {funds:?}: {:?}, expected accepted={good}", d, t.res);
            if t.ok() {
                let n = funds.iter().map(|x| x.1).sum::<u128>() as i128;
                let dn = &d.unwrap().denom;
                t.only(&[(who, dn, -n), (AIR, dn, n)])?;
            }
        }
        Op::Close(who, _) => {
            let d = t.target.map(|i| &t.pre.g.drops[i as usize]);
            let good = d.map(|d| d.creator == *who && d.closed.is_none()).unwrap_or(false);
            ensure!(t.ok() == good, "{who} closing {:?}: {:?}, expected accepted={good}", d, t.res);
            if t.ok() {
                let d = d.unwrap();
                let left = (d.funded - d.claimed) as i128;
                hit(st, if left == 0 { "closed with nothing left" } else { "closed with a remainder" });
                t.only(&[(AIR, &d.denom, -left), (&d.creator, &d.denom, left)])?;
                let g = get(t.w, AirdropId::Id(t.target.unwrap()));
                ensure!(g.as_ref().map(|x| x.1.closed == Some(t.w.height)).unwrap_or(false), "closed at height {} but reported as {g:?}", t.w.height);
            }
        }
        Op::Claim(..) => {
            if let Some(d) = t.target.map(|i| &t.pre.g.drops[i as usize]) {
                if d.closed.is_some() {
                    hit(st, "claim after close");
                    ensure!(!t.ok(), "claim {:?} on a closed airdrop succeeded", t.op);
                }
            }
        }
        _ => {}
    }
    if !t.ok() {
        t.only(&[])?;
    }
    Ok(())
}
fn a04_state(s: &S, _: &mut Stat) -> Result<(), V> {
    for (i, d) in s.g.drops.iter().enumerate() {
        let g = get(&s.w, AirdropId::Id(i as u64));
        ensure!(g.as_ref().map(|x| x.1.closed == d.closed).unwrap_or(false), "airdrop {i} was closed at {:?} but is reported as {g:?}", d.closed);
    }
    Ok(())
}

// ------------------------------------------------------------------ A05
fn a05_ops(s: &S) -> Vec<Op> {
    let mut v = vec![Op::Wait];
    for (who, b) in [("creat", None), ("mallo", None), ("creat", Some(0u8)), ("mallo", Some(1))] {
        for label in [None, Some("a"), Some("b"), Some(""), Some("a/b"), Some(" a"), Some("A"), Some(LONG)] {
            if who != "creat" && matches!(label, Some(" a") | Some("A") | Some(LONG)) {
                continue;
            }
            v.push(Op::Reg { who, bearer: b, tree: if b.is_some() { 4 } else { 2 }, denom: "uatomo", label, funds: &[("uatomo", 60)] });
        }
    }
    if !s.g.drops.is_empty() {
        let d = &s.g.drops[0];
        let who = st_name(&d.creator);
        v.push(Op::Close(who, Id::N(0)));
        v.push(Op::Fund(who, Id::N(0), &[("uatomo", 4)]));
        for c in honest(&s.g).into_iter().take(2) {
            v.push(Op::Claim("alic", c));
        }
        v.push(Op::Close(st_name(&s.g.drops.last().unwrap().creator), Id::N(s.g.drops.len() as u64 - 1)));
    }
    // refused registrations must not consume an id
    v.push(Op::Reg { who: "creat", bearer: None, tree: 2, denom: "uatomo", label: Some("c"), funds: &[] });
    v
}
fn a05_judge(t: &T, st: &mut Stat) -> Result<(), V> {
    if let Op::Reg { who, label, funds, denom, .. } = t.op {
        let taken = label.map(|x| t.pre.g.labels.contains_key(&format!("{who}/{x}"))).unwrap_or(false);
        if payment_ok(denom, funds) {
            hit(st, if taken { "label taken" } else { "label free" });
            ensure!(t.ok() == !taken, "{who} registering label {label:?} (taken: {taken}): {:?}", t.res);
        }
    }
    Ok(())
}
type Page<'a, K> = (Vec<(K, Shown)>, Option<String>);
fn want_page<T: Clone>(all: &[T], after: impl Fn(&T) -> std::cmp::Ordering, has_start: bool, limit: usize, desc: bool) -> Vec<T> {
    use std::cmp::Ordering::*;
    let mut v: Vec<T> = all.iter().filter(|x| !has_start || (if desc { after(x) == Less } else { after(x) == Greater })).cloned().collect();
    if desc {
        v.reverse();
    }
    v.truncate(limit);
    v
}
fn limits(wide: bool) -> Vec<Option<u32>> {
    if wide {
        vec![None, Some(1), Some(2), Some(7), Some(10), Some(29), Some(30)]
    } else {
        vec![None, Some(0), Some(1), Some(2), Some(3), Some(30)]
    }
}
fn a05_full(s: &S, wide: bool, st: &mut Stat) -> Result<(), V> {
    let n = s.g.drops.len() as u64;
    let q: R<LatestAirdropResponse> = s.w.qair(AIR, QueryMsg::LatestAirdropId {});
    ensure!(q.as_ref().map(|x| x.0 == n).unwrap_or(false), "after {n} registrations the next airdrop id is reported as {q:?}");
    let all: Vec<(u64, Shown)> = s.g.drops.iter().enumerate().map(|(i, d)| (i as u64, d.shown())).collect();
    for (i, d) in &all {
        let g = get(&s.w, AirdropId::Id(*i));
        ensure!(g == Ok((*i, d.clone())), "airdrop {i} is reported as {g:?}, expected {d:?}");
    }
    ensure!(get(&s.w, AirdropId::Id(n)).is_err(), "airdrop {n} was never registered but is reported");
    for x in LABELS {
        let want = s.g.labels.get(x).copied();
        let g = get(&s.w, AirdropId::Label(x.into()));
        ensure!(g.as_ref().ok().map(|x| x.0) == want, "label {x} resolves to {g:?}, expected airdrop {want:?}");
        let gl: R<GetLabelResponse> = s.w.qair(AIR, QueryMsg::GetLabel { label: x.into() });
        match want {
            None => ensure!(gl.is_err(), "unused label {x} is reported: {gl:?}"),
            Some(i) => {
                let (c, l) = x.split_once('/').unwrap();
                ensure!(gl.as_ref().map(|r| r.airdrop_id == i && r.creator == c && r.label == l).unwrap_or(false), "label {x} is reported as {gl:?}, expected airdrop {i}");
            }
        }
    }
    let lim = |l: Option<u32>| l.unwrap_or(10) as usize;
    let list = |o: ListAirdropsQueryOptions| -> R<Vec<(u64, Shown)>> {
        s.w.qair::<ListAirdropsResponse>(AIR, QueryMsg::ListAirdrops { option: o }).map(|r| r.0.into_iter().map(shown).collect())
    };
    let labelled: Vec<(String, u64)> = s.g.labels.iter().map(|(k, v)| (k.clone(), *v)).collect();
    let mut starts: Vec<Option<u64>> = vec![None];
    starts.extend((0..=n).map(Some));
    let mut lstarts: Vec<Option<String>> = vec![None, Some("".into()), Some("zzz".into()), Some("creat0".into())];
    lstarts.extend(labelled.iter().map(|x| Some(x.0.clone())));
    for desc in [false, true] {
        let order = match (desc, n % 2) {
            (true, _) => Some(RangeOrder::Desc),
            (false, 0) => None,
            _ => Some(RangeOrder::Asc),
        };
        for limit in limits(wide) {
            for start in &starts {
                let page = |v: &[(u64, Shown)]| want_page(v, |x| x.0.cmp(&start.unwrap_or(0)), start.is_some(), lim(limit), desc);
                let got = list(ListAirdropsQueryOptions::ByID { start_after: *start, limit, order: order.clone() });
                let want = page(&all);
                ensure!(got.as_ref() == Ok(&want), "listing by id (after {start:?}, limit {limit:?}, desc {desc}): {got:?}, expected {want:?}");
                for typ in [AirdropType::Open, AirdropType::Bearer] {
                    let sub: Vec<_> = all.iter().filter(|x| x.1.signer.is_some() == (typ == AirdropType::Bearer)).cloned().collect();
                    let got = list(ListAirdropsQueryOptions::ByType { typ: typ.clone(), start_after: *start, limit, order: order.clone() });
                    let want = page(&sub);
                    ensure!(got.as_ref() == Ok(&want), "listing by type {typ:?} (after {start:?}, limit {limit:?}, desc {desc}): {got:?}, expected {want:?}");
                }
                for cr in ["creat", "mallo", "alice"] {
                    let sub: Vec<_> = all.iter().filter(|x| x.1.creator == cr).cloned().collect();
                    let got = list(ListAirdropsQueryOptions::ByCreator { creator: cr.into(), start_after: *start, limit, order: order.clone() });
                    let want = page(&sub);
                    ensure!(got.as_ref() == Ok(&want), "listing by creator {cr} (after {start:?}, limit {limit:?}, desc {desc}): {got:?}, expected {want:?}");
                }
                hit(st, "page");
            }
            for start in &lstarts {
                let page = want_page(&labelled, |x| x.0.as_str().cmp(start.as_deref().unwrap_or("")), start.is_some(), lim(limit), desc);
                let got = list(ListAirdropsQueryOptions::ByLabel { start_after: start.clone(), limit, order: order.clone() });
                let want: Vec<_> = page.iter().map(|x| all[x.1 as usize].clone()).collect();
                ensure!(got.as_ref() == Ok(&want), "listing by label (after {start:?}, limit {limit:?}, desc {desc}): {got:?}, expected {want:?}");
                let got: R<ListLabelsResponse> = s.w.qair(AIR, QueryMsg::ListLabels { start_after: start.clone(), limit, order: order.clone() });
                let got = got.map(|r| r.0.into_iter().map(|x| (format!("{}/{}", x.creator, x.label), x.airdrop_id)).collect::<Vec<_>>());
                ensure!(got.as_ref() == Ok(&page), "listing labels (after {start:?}, limit {limit:?}, desc {desc}): {got:?}, expected {page:?}");
            }
            for i in 0..n.min(4) {
                let cl: Vec<(String, u128)> = s.g.claims.iter().filter(|x| x.0 .0 == i).map(|x| (x.0 .1.clone(), *x.1)).collect();
                let mut cs: Vec<Option<String>> = vec![None, Some("a".into()), Some("zz".into())];
                cs.extend(cl.iter().map(|x| Some(x.0.clone())));
                for start in cs {
                    let page = want_page(&cl, |x| x.0.as_str().cmp(start.as_deref().unwrap_or("")), start.is_some(), lim(limit), desc);
                    let ids = [Some(AirdropId::Id(i)), s.g.drops[i as usize].label.clone().map(AirdropId::Label)];
                    for id in ids.into_iter().flatten() {
                        let got: R<ListClaimsResponse> = s.w.qair(AIR, QueryMsg::ListClaims { airdrop: id, start_after: start.clone(), limit, order: order.clone() });
                        ensure!(got.as_ref().map(|r| r.0.iter().all(|x| x.id == i)).unwrap_or(true), "claims of another airdrop are listed for {i}: {got:?}");
                        let got = got.map(|r| r.0.into_iter().map(|x| (x.claim_key, x.amount.u128())).collect::<Vec<_>>());
                        ensure!(got.as_ref() == Ok(&page), "claims of airdrop {i} (after {start:?}, limit {limit:?}, desc {desc}): {got:?}, expected {page:?}");
                    }
                }
            }
        }
    }
    for i in 0..n {
        for k in ["alice", "alic", "Code", "code", "alice1"] {
            let want = s.g.claims.get(&(i, k.to_string())).copied();
            let got: R<GetClaimResponse> = s.w.qair(AIR, QueryMsg::GetClaim { airdrop: AirdropId::Id(i), claim_key: k.into() });
            match want {
                None => ensure!(got.is_err(), "{k} has no claim in airdrop {i} but {got:?} is reported"),
                Some(a) => ensure!(got.as_ref().map(|g| g.id == i && g.amount.u128() == a && g.claim_key == k).unwrap_or(false), "claim of {k} in airdrop {i} is {got:?}, expected {a}"),
            }
        }
    }
    Ok(())
}
fn a05_state(s: &S, st: &mut Stat) -> Result<(), V> {
    a05_full(s, false, st)
}
/// Page sizes around the default (10) and the maximum (30), on long listings.
fn a05_long(r: &mut Report) {
    let sizes: Vec<usize> = if r.thorough { (0..=40).collect() } else { vec![9, 10, 11, 29, 30, 31, 35] };
    r.grid("long listings", &sizes, |n, st| {
        let mut s = world();
        s.w.give("creat", "uatomo", 1_000_000);
        s.w.give("mallo", "uatomo", 1_000_000);
        // one airdrop with many claims
        let big = tree((0..*n).map(|i| (format!("holder{i:02}"), 3)).collect::<Vec<_>>().into_iter().chain([("x".to_string(), 1)]).collect());
        let p = RegisterPayload::Open { merkle_root: big.root.clone(), denom: "uatom".into(), label: None };
        if let Err(e) = s.w.exec("alice", AIR, Msg::Airdrop(ExecuteMsg::Register(p)), &[Coin::new(500u128, "uatom")]) {
            viol!("registration refused: {e}");
        }
        let mut keys = vec![];
        for i in 0..*n {
            let k = format!("holder{i:02}");
            let m = ClaimPayload::Open { airdrop: AirdropId::Id(0), amount: Uint128::new(3), account: Some(k.clone()), merkle_proof: big.proofs[i].clone() };
            if let Err(e) = s.w.exec("mallo", AIR, Msg::Airdrop(ExecuteMsg::Claim(m)), &[]) {
                viol!("claim refused: {e}");
            }
            keys.push((k, 3u128));
        }
        for desc in [false, true] {
            for limit in limits(true).into_iter().chain([Some(31), Some(1000)]) {
                let mut starts: Vec<Option<String>> = vec![None];
                starts.extend(keys.iter().map(|k| Some(k.0.clone())));
                for start in starts {
                    let got: R<ListClaimsResponse> = s.w.qair(AIR, QueryMsg::ListClaims { airdrop: AirdropId::Id(0), start_after: start.clone(), limit, order: Some(if desc { RangeOrder::Desc } else { RangeOrder::Asc }) });
                    if limit.unwrap_or(10) > 30 {
                        ensure!(got.is_err(), "a page of {limit:?} entries is allowed");
                        continue;
                    }
                    let want = want_page(&keys, |x| x.0.as_str().cmp(start.as_deref().unwrap_or("")), start.is_some(), limit.unwrap_or(10) as usize, desc);
                    let got = got.map(|r| r.0.into_iter().map(|x| (x.claim_key, x.amount.u128())).collect::<Vec<_>>());
                    ensure!(got.as_ref() == Ok(&want), "claims (of {n}) after {start:?}, limit {limit:?}, desc {desc}: {got:?}, expected {want:?}");
                }
            }
        }
        // many airdrops, labels in an order unlike their ids
        let mut g = World::new(1_700_000_000);
        for p in PEOPLE {
            g.give(p, "uatomo", 1_000_000);
        }
        g.instantiate(AIR, "creat", Init::Airdrop(InstantiateMsg {})).map_err(|e| V { key: "".into(), msg: e })?;
        let mut s = S { w: g, g: G::default() };
        for i in 0..*n {
            let who = if i % 3 == 0 { "mallo" } else { "creat" };
            let label = format!("{:02}", (i * 17) % 41);
            let bearer = if i % 2 == 1 { Some(0u8) } else { None };
            let root = trees()[if bearer.is_some() { 4 } else { 2 }].root.clone();
            let p = match bearer {
                None => RegisterPayload::Open { merkle_root: root, denom: "uatomo".into(), label: Some(label.clone()) },
                Some(k) => RegisterPayload::Bearer { merkle_root: root, denom: "uatomo".into(), label: Some(label.clone()), signer_pub: hex::encode(pubkey(k)), signer_sig: sign(k, &address(k)) },
            };
            if let Err(e) = s.w.exec(who, AIR, Msg::Airdrop(ExecuteMsg::Register(p)), &[Coin::new(5u128, "uatomo")]) {
                viol!("registration {i} refused: {e}");
            }
            let label = format!("{who}/{label}");
            s.g.labels.insert(label.clone(), i as u64);
            s.g.drops.push(Drop_ { bearer, creator: who.into(), denom: "uatomo".into(), tree: if bearer.is_some() { 4 } else { 2 }, label: Some(label), funded: 5, claimed: 0, created: s.w.height, closed: None });
        }
        for o in [31u32, 1000] {
            let all = [
                ListAirdropsQueryOptions::ByID { start_after: None, limit: Some(o), order: None },
                ListAirdropsQueryOptions::ByType { typ: AirdropType::Open, start_after: None, limit: Some(o), order: None },
                ListAirdropsQueryOptions::ByLabel { start_after: None, limit: Some(o), order: None },
                ListAirdropsQueryOptions::ByCreator { creator: "creat".into(), start_after: None, limit: Some(o), order: None },
            ];
            for q in all {
                let got: R<ListAirdropsResponse> = s.w.qair(AIR, QueryMsg::ListAirdrops { option: q.clone() });
                ensure!(got.is_err(), "a page of {o} entries is allowed: {q:?}");
            }
        }
        a05_full(&s, true, st)?;
        Ok(*n as u64 + 1)
    });
}

/// Hundreds of airdrops (ids of one and of two bytes): each is its own.
/// `part`: 0 = totals and payments, 1 = claims once each, 2 = ids, labels and listings.
fn many(r: &mut Report, part: u8, bearer: Option<bool>) {
    let sizes: Vec<usize> = if r.thorough { vec![255, 256, 257, 300, 520] } else { vec![257, 300] };
    let name = ["hundreds of airdrops: totals", "hundreds of airdrops: claims", "hundreds of airdrops: listings"][part as usize];
    r.grid(name, &sizes, |n, st| {
        let mut w = World::new(1_700_000_000);
        for p in PEOPLE {
            w.give(p, "uatomo", 10_000_000);
            w.give(p, "uatom", 10_000_000);
        }
        w.instantiate(AIR, "creat", Init::Airdrop(InstantiateMsg {})).map_err(|e| V { key: "".into(), msg: e })?;
        let mut s = S { w, g: G::default() };
        const L: [&str; 3] = ["a", "b", "c"];
        for i in 0..*n {
            let b = bearer.unwrap_or(i % 3 == 1);
            let who = ["creat", "mallo", "alice"][i % 5 % 3];
            let label = if who != "alice" { [1usize, 256, 299].iter().position(|x| *x == i).map(|x| L[x]) } else { None };
            let denom = if i % 2 == 0 { "uatomo" } else { "uatom" };
            let funds: Coins = match (denom, i % 7) {
                ("uatomo", 0) => &[("uatomo", 60)],
                ("uatomo", _) => &[("uatomo", 61)],
                (_, 0) => &[("uatom", 70)],
                _ => &[("uatom", 71)],
            };
            let op = Op::Reg { who, bearer: b.then_some((i % 2) as u8), tree: if b { 4 } else { 2 }, denom, label, funds };
            if let Err(e) = exec(&mut s.w, &op) {
                viol!("registration {i} refused: {e}");
            }
            s.g = effect(&s.g, &op, s.w.height);
            if i % 10 == 9 {
                s.w.wait(7);
            }
        }
        let probes: Vec<u64> = [0, 1, 2, 3, 44, 127, 128, 254, 255, 256, 257, 258, 299, 511, 512, 513].into_iter().filter(|x| (*x as usize) < *n).collect();
        let mut runs = *n as u64;
        let mut go = |s: &mut S, op: &Op, st: &mut Stat| -> Result<bool, V> {
            let pre = s.clone();
            let res = exec(&mut s.w, op);
            if res.is_ok() {
                s.g = effect(&s.g, op, s.w.height);
            }
            runs += 1;
            let target = match op {
                Op::Fund(_, id, _) | Op::Close(_, id) => pre.g.find(id),
                Op::Claim(_, c) => pre.g.find(&c.id),
                _ => None,
            };
            let t = T { pre: &pre, w: &s.w, op, res: &res, g: &s.g, target };
            match part {
                0 => a01_judge(&t, st)?,
                1 => claim_judge(&t, st, bearer == Some(true))?,
                _ => {}
            }
            Ok(res.is_ok())
        };
        for i in &probes {
            let d = s.g.drops[*i as usize].clone();
            let who = st_name(&d.creator);
            let c: Vec<Cl> = honest_of(&s.g, *i as usize, Id::N(*i));
            // the first entry of every probed airdrop, twice; some are also funded or closed
            go(&mut s, &Op::Claim("alic", c[0].clone()), st)?;
            go(&mut s, &Op::Claim("alic", c[0].clone()), st)?;
            if i % 4 == 1 {
                let f: Coins = if d.denom == "uatomo" { &[("uatomo", 7)] } else { &[("uatom", 7)] };
                go(&mut s, &Op::Fund(who, Id::N(*i), f), st)?;
            }
            if i % 4 == 2 {
                go(&mut s, &Op::Close(who, Id::N(*i)), st)?;
            }
        }
        for i in &probes {
            for c in honest_of(&s.g, *i as usize, Id::N(*i)) {
                go(&mut s, &Op::Claim("alic", c), st)?;
            }
        }
        match part {
            0 => a01_state(&s, st)?,
            1 => {}
            _ => {
                // everything that was done shows up exactly where it was done
                for i in 0..*n as u64 {
                    let cl: Vec<(String, u128)> = s.g.claims.range((i, String::new())..(i + 1, String::new())).map(|x| (x.0 .1.clone(), *x.1)).collect();
                    let got: R<ListClaimsResponse> = s.w.qair(AIR, QueryMsg::ListClaims { airdrop: AirdropId::Id(i), start_after: None, limit: None, order: None });
                    let got = got.map(|r| r.0.into_iter().map(|x| (x.id, x.claim_key, x.amount.u128())).collect::<Vec<_>>());
                    let want: Vec<_> = cl.into_iter().map(|x| (i, x.0, x.1)).collect();
                    ensure!(got.as_ref() == Ok(&want), "claims of airdrop {i} of {n}: {got:?}, expected {want:?}");
                }
                let all: Vec<(u64, Shown)> = s.g.drops.iter().enumerate().map(|(i, d)| (i as u64, d.shown())).collect();
                let list = |o: ListAirdropsQueryOptions| -> R<Vec<(u64, Shown)>> {
                    s.w.qair::<ListAirdropsResponse>(AIR, QueryMsg::ListAirdrops { option: o }).map(|r| r.0.into_iter().map(shown).collect())
                };
                for desc in [false, true] {
                    let order = if desc { Some(RangeOrder::Desc) } else { Some(RangeOrder::Asc) };
                    for size in [1u32, 7, 30] {
                        for kind in 0..6 {
                            let mut want: Vec<(u64, Shown)> = all
                                .iter()
                                .filter(|x| match kind {
                                    0 => true,
                                    1 => x.1.signer.is_none(),
                                    2 => x.1.signer.is_some(),
                                    k => x.1.creator == ["creat", "mallo", "alice"][k - 3],
                                })
                                .cloned()
                                .collect();
                            if desc {
                                want.reverse();
                            }
                            let mut got: Vec<(u64, Shown)> = vec![];
                            loop {
                                let (start_after, limit, order) = (got.last().map(|x| x.0), Some(size), order.clone());
                                let page = list(match kind {
                                    0 => ListAirdropsQueryOptions::ByID { start_after, limit, order },
                                    1 => ListAirdropsQueryOptions::ByType { typ: AirdropType::Open, start_after, limit, order },
                                    2 => ListAirdropsQueryOptions::ByType { typ: AirdropType::Bearer, start_after, limit, order },
                                    k => ListAirdropsQueryOptions::ByCreator { creator: ["creat", "mallo", "alice"][k - 3].into(), start_after, limit, order },
                                });
                                hit(st, "page");
                                match page {
                                    Ok(p) if p.is_empty() || got.len() > want.len() => break,
                                    Ok(p) => got.extend(p),
                                    Err(e) => viol!("listing {kind} after {start_after:?} of {n} airdrops: {e}"),
                                }
                            }
                            ensure!(
                                got == want,
                                "paging through listing {kind} of {n} airdrops by {size} (desc {desc}) visits {:?}, expected {:?}",
                                got.iter().map(|x| x.0).collect::<Vec<_>>(),
                                want.iter().map(|x| x.0).collect::<Vec<_>>()
                            );
                        }
                    }
                }
                for x in LABELS {
                    let want = s.g.labels.get(x).copied();
                    let g = get(&s.w, AirdropId::Label(x.into()));
                    ensure!(g.as_ref().ok().map(|x| x.0) == want, "label {x} resolves to {g:?}, expected airdrop {want:?}");
                }
            }
        }
        Ok(runs)
    });
}
/// Amounts from one base unit to the largest coin: every airdrop shape with every claim order of two.
fn whale(r: &mut Report, part: u8, bearer: bool) {
    const A: [u128; 13] = [
        1, 9, u32::MAX as u128, 1 << 32, (1 << 53) + 1, u64::MAX as u128 - 1, u64::MAX as u128, 1 << 64, (1 << 64) + 1, 1_000_000_000_000_000_000_000_000,
        i128::MAX as u128, 1 << 127, u128::MAX,
    ];
    let mut pts = vec![];
    for a in A {
        for b in A {
            pts.push((a, b));
        }
    }
    let name = ["amounts of any size: totals", "amounts of any size: claims", "amounts of any size: closing"][part as usize];
    r.grid(name, &pts, |(a, b), st| {
        let names = if bearer { ["codea", "codeb"] } else { ["alice", "alic"] };
        let t = tree(vec![(names[0].into(), *a), (names[1].into(), *b)]);
        let mut runs = 0;
        // what is paid in at registration and later
        let sum = a.checked_add(*b);
        let mut fundings = vec![(*a, 0u128), (*b, 0)];
        if let Some(s) = sum {
            fundings.extend([(s, 0), (s - 1, 1), (s - 1, 0), (*a, *b)]);
        }
        for (f1, f2) in fundings {
            if f1 == 0 {
                continue;
            }
            for order in [[0, 1], [1, 0], [0, 0]] {
                let mut w = World::new(1_700_000_000);
                w.give("creat", "uatomo", f1 + f2);
                w.instantiate(AIR, "creat", Init::Airdrop(InstantiateMsg {})).map_err(|e| V { key: "".into(), msg: e })?;
                let (root, denom) = (t.root.clone(), "uatomo".to_string());
                let p = if bearer {
                    RegisterPayload::Bearer { merkle_root: root, denom, label: None, signer_pub: hex::encode(pubkey(0)), signer_sig: sign(0, &address(0)) }
                } else {
                    RegisterPayload::Open { merkle_root: root, denom, label: None }
                };
                if let Err(e) = w.exec("creat", AIR, Msg::Airdrop(ExecuteMsg::Register(p)), &[Coin::new(f1, "uatomo")]) {
                    viol!("registration with {f1} refused: {e}");
                }
                if f2 > 0 {
                    if let Err(e) = w.exec("creat", AIR, Msg::Airdrop(ExecuteMsg::Fund(AirdropId::Id(0))), &[Coin::new(f2, "uatomo")]) {
                        viol!("funding {f1} with {f2} refused: {e}");
                    }
                }
                let total = f1 + f2;
                let (mut paid, mut done) = (0u128, [false; 2]);
                let show = |w: &World| get(w, AirdropId::Id(0)).map(|x| (x.1.funded, x.1.claimed));
                for i in order {
                    let amt = [*a, *b][i];
                    let to = ["alice", "alic"][i];
                    let m = if bearer {
                        ClaimPayload::Bearer { airdrop: AirdropId::Id(0), amount: Uint128::new(amt), account: Some(to.into()), claim_hash: names[i].into(), claim_sign: sign(0, &format!("{}/{to}/{amt}", names[i])), merkle_proof: t.proofs[i].clone() }
                    } else {
                        ClaimPayload::Open { airdrop: AirdropId::Id(0), amount: Uint128::new(amt), account: Some(to.into()), merkle_proof: t.proofs[i].clone() }
                    };
                    let (b0, c0) = (w.bal(to, "uatomo"), w.bal(AIR, "uatomo"));
                    let res = w.exec("mallo", AIR, Msg::Airdrop(ExecuteMsg::Claim(m)), &[]);
                    runs += 1;
                    let got = w.bal(to, "uatomo") - b0;
                    let want = !done[i] && amt <= total - paid;
                    hit(st, format!("claim {}", if res.is_ok() { "paid" } else { "refused" }));
                    if part == 1 {
                        ensure!(res.is_ok() == want, "claim of {amt} with {paid} of {total} paid out (claimed before: {}): {res:?}, expected paid={want}", done[i]);
                        ensure!(got == if want { amt } else { 0 }, "claim of {amt} paid {got}");
                    }
                    if res.is_ok() {
                        paid += got;
                        done[i] = true;
                    }
                    if part == 0 {
                        ensure!(c0 - w.bal(AIR, "uatomo") == got, "a claim took {} from the contract and paid {got}", c0 - w.bal(AIR, "uatomo"));
                        let g = show(&w);
                        ensure!(g == Ok((total, paid)), "funded/claimed are reported as {g:?} after {total} were paid in and {paid} out");
                    }
                }
                let res = w.exec("creat", AIR, Msg::Airdrop(ExecuteMsg::Close(AirdropId::Id(0))), &[]);
                runs += 1;
                if part == 2 {
                    ensure!(res.is_ok(), "closing with {paid} of {total} claimed: {res:?}");
                    ensure!(w.bal("creat", "uatomo") == total - paid, "closing returned {} of {}", w.bal("creat", "uatomo"), total - paid);
                }
                if part == 0 {
                    let g = show(&w);
                    ensure!(g == Ok((total, paid)), "after closing, funded/claimed are reported as {g:?}, expected {total}/{paid}");
                }
            }
        }
        Ok(runs)
    });
}

// ------------------------------------------------------------------ A06
fn a06_ops(s: &S) -> Vec<Op> {
    let mut v = vec![];
    for c in honest(&s.g) {
        v.push(Op::Claim("alic", c));
    }
    for (i, d) in s.g.drops.iter().enumerate() {
        v.push(Op::Close(st_name(&d.creator), Id::N(i as u64)));
        if d.denom == "uatomo" {
            v.push(Op::Fund(st_name(&d.creator), Id::N(i as u64), &[("uatomo", 20)]));
        }
    }
    v
}
fn a06_state(s: &S, st: &mut Stat) -> Result<(), V> {
    let mut all: Vec<Cl> = vec![];
    for o in a03_ops(s, true).into_iter().chain(a02_ops(s)) {
        if let Op::Claim(_, c) = o {
            if c.account.is_some() {
                all.push(c)
            }
        }
    }
    for c in all {
        let Some(i) = s.g.find(&c.id) else { continue };
        let d = &s.g.drops[i as usize];
        let closed = d.closed.is_some();
        let q: R<VerifyClaimResponse> = s.w.qair(AIR, QueryMsg::VerifyClaim { claim: c.msg() });
        let valid = q.as_ref().map(|r| r.valid).unwrap_or(false);
        if closed {
            ensure!(!valid, "{c:?} is reported valid though the airdrop is closed");
        }
        // enough funds, not claimed before, something to pay
        let applies = !closed && enough(&s.g, &c) && !s.g.claims.contains_key(&(i, c.key(""))) && c.amount > 0;
        if !applies {
            continue;
        }
        let mut w = s.w.clone();
        let res = w.exec("alice1", AIR, Msg::Airdrop(ExecuteMsg::Claim(c.msg())), &[]);
        hit(st, format!("verify={valid} claim={}", res.is_ok()));
        ensure!(valid == res.is_ok(), "verification of {c:?} answers {q:?}, but claiming it gives {res:?}");
    }
    Ok(())
}

pub fn run(p: &str, r: &mut Report) -> bool {
    fn quiet(_: &T, _: &mut Stat) -> Result<(), V> {
        Ok(())
    }
    let th = r.thorough;
    match p {
        "A01" => {
            let m = M { name: "airdrop ledger", inits: vec![start("empty", &[]), start("four airdrops", &drops_init())], ops: a01_ops, judge: a01_judge, state: a01_state };
            r.bfs(&m, if th { 6 } else { 5 });
            many(r, 0, None);
            whale(r, 0, false);
        }
        "A02" => {
            let m = M { name: "open claims", inits: a02_init(), ops: a02_ops, judge: a02_judge, state: nothing };
            r.bfs(&m, if th { 5 } else { 4 });
            a02_grid(r, false);
            deep(r, false);
            many(r, 1, Some(false));
            whale(r, 1, false);
        }
        "A03" => {
            a03_registration(r);
            let m = M { name: "bearer claims", inits: a03_init(), ops: |s| a03_ops(s, true), judge: a03_judge, state: nothing };
            r.bfs(&m, if th { 5 } else { 3 });
            a02_grid(r, true);
            deep(r, true);
            many(r, 1, Some(true));
            whale(r, 1, true);
        }
        "A04" => {
            let m = M { name: "creator and closing", inits: vec![start("empty", &[]), start("four airdrops", &drops_init())], ops: a04_ops, judge: a04_judge, state: a04_state };
            r.bfs(&m, if th { 4 } else { 3 });
            whale(r, 2, false);
        }
        "A05" => {
            let m = M { name: "ids, labels and listings", inits: vec![start("empty", &[]), claimed_out()], ops: a05_ops, judge: a05_judge, state: a05_state };
            r.bfs(&m, if th { 4 } else { 3 });
            a05_long(r);
            many(r, 2, None);
        }
        "A06" => {
            let ini = a02_init().into_iter().chain(a03_init()).chain([start("four airdrops", &drops_init())]).collect();
            let m = M { name: "verification query", inits: ini, ops: a06_ops, judge: quiet, state: a06_state };
            r.bfs(&m, if th { 4 } else { 2 });
        }
        _ => return false,
    }
    true
}
