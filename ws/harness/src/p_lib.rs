//! P25: the state library's readers and writers, called directly, against the
//! independent description of the format in `sw` and `model`.
use crate::mcx::*;
use crate::model::curated;
use crate::p_roles::specimens;
use crate::p_sign::{MINT, R, R2};
use crate::sw::*;
use crate::vm::*;
use std::sync::OnceLock;

mod onchain { use swig_state as st; const VARIANT: &str = "as deployed"; include!("lib_body.rs"); }
mod host { use host_state as st; const VARIANT: &str = "as used off chain"; include!("lib_body.rs"); }

/// bytes at an address aligned as account data is
#[derive(Clone)]
pub struct Buf(Vec<u128>, usize);
impl Buf {
    pub fn new(d: &[u8]) -> Buf { let mut b = Buf(vec![0; d.len() / 16 + 1], d.len()); b.get_mut().copy_from_slice(d); b }
    pub fn get(&self) -> &[u8] { unsafe { std::slice::from_raw_parts(self.0.as_ptr() as *const u8, self.1) } }
    pub fn get_mut(&mut self) -> &mut [u8] { unsafe { std::slice::from_raw_parts_mut(self.0.as_mut_ptr() as *mut u8, self.1) } }
}

pub fn repeatable(ty: u16) -> bool {
    matches!(ty, perm::PROGRAM | perm::SCOPE | perm::TOK | perm::TOK_REC | perm::SUB | perm::SOL_DEST | perm::SOL_REC_DEST | perm::TOK_DEST | perm::TOK_REC_DEST | perm::REPLACE | perm::V2_ALL | perm::V2_SIGN | perm::V2_WITHDRAW | perm::V2_TOGGLE)
}
/// which parameter a record stands for
pub fn matches(a: &Act, key: &[u8]) -> bool {
    let d = &a.data;
    match a.ty {
        perm::PROGRAM | perm::TOK | perm::TOK_REC | perm::SOL_DEST | perm::SOL_REC_DEST => key.len() >= 32 && key[..32] == d[..32],
        perm::SCOPE => key.len() >= 32 && key[..32] == d[80..112],
        perm::TOK_DEST | perm::TOK_REC_DEST => key.len() >= 64 && key[..64] == d[..64],
        perm::SUB => if key.is_empty() { d[..32] == [0; 32] } else { key.len() == 32 && *key == d[..32] },
        perm::REPLACE | perm::V2_ALL | perm::V2_SIGN | perm::V2_WITHDRAW | perm::V2_TOGGLE => key == &d[..4],
        _ => true,
    }
}
const T1: Key = nk(0x5C, 1);
const T2: Key = nk(0x5C, 2);
const D3: Key = nk(0x7A, 3);
/// as T1 in its first 31 bytes
fn near(k: &Key) -> Key { let mut k = *k; k[31] ^= 1; k }
pub fn scope_targets() -> Vec<Key> { vec![T1, T2, near(&T1), DEST] }
/// parameters to look a record of the kind up by
pub fn keys_of(ty: u16) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = match ty {
        perm::PROGRAM => [R, R2, near(&R), T1].iter().map(|k| k.to_vec()).collect(),
        perm::TOK | perm::TOK_REC => [MINT, T1, near(&MINT)].iter().map(|k| k.to_vec()).collect(),
        perm::SOL_DEST | perm::SOL_REC_DEST => [DEST, DEST2, near(&DEST)].iter().map(|k| k.to_vec()).collect(),
        perm::SCOPE => scope_targets().iter().map(|k| k.to_vec()).collect(),
        perm::TOK_DEST | perm::TOK_REC_DEST => [(MINT, D3), (MINT, DEST), (T1, D3), (near(&MINT), D3), (MINT, near(&D3))].iter().map(|(a, b)| [&a[..], &b[..]].concat()).collect(),
        perm::SUB => vec![vec![], vec![0; 32], T1.to_vec(), near(&T1).to_vec(), T1[..31].to_vec()],
        perm::REPLACE | perm::V2_ALL | perm::V2_SIGN | perm::V2_WITHDRAW | perm::V2_TOGGLE => vec![vec![0; 4], vec![1, 0, 0, 0], vec![0, 0, 0, 1], vec![2, 1, 0, 0], vec![], vec![1], vec![1, 0, 0, 0, 0, 0, 0, 0]],
        _ => vec![vec![], vec![5; 32]],
    };
    if matches!(ty, perm::SOL_DEST | perm::SOL_REC_DEST | perm::SCOPE | perm::TOK_DEST | perm::TOK_REC_DEST) {
        let l = v[0].clone();
        v.push(l[..l.len() - 1].to_vec());
        v.push(vec![]);
        v.push([&l[..], &[9][..]].concat());
    }
    v
}
/// records of every kind, the repeatable ones for two parameters
pub fn pool() -> Vec<Act> {
    let mut v = specimens();
    v.extend([
        a_program(&R2), a_program(&near(&R)),
        a_scope(&Scope { cur: 3, lim: 8, win: 4, last: 2, prog: R2, target: T2, kind: 2, num: 3, start: 8, end: 24 }),
        a_scope(&Scope { cur: 0, lim: 0, win: 0, last: 0, prog: R2, target: near(&T1), kind: 0, num: 0, start: 0, end: 0 }),
        a_tok(&T1, 9), a_tok_rec(&MINT, 6, 3), a_tok_rec(&T1, 7, 3), a_sol_dest(&DEST, 4), a_sol_dest(&DEST2, 5), a_sol_dest(&DEST, 6), a_sol_rec_dest(&DEST2, 8, 9),
        a_tok_dest(&MINT, &D3, 2), a_tok_dest(&MINT, &DEST, 3), a_tok_dest(&T1, &D3, 4), a_tok_rec_dest(&MINT, &DEST, 4, 5), a_tok_rec_dest(&T1, &D3, 4, 5),
        Act { ty: perm::SUB, data: { let mut d = T1.to_vec(); d.resize(72, 3); d[33] = 1; d } },
        a_replace(1), a_replace(258), a_v2(perm::V2_ALL, 1), a_v2(perm::V2_SIGN, 1), a_v2(perm::V2_SIGN, 0x01000000), a_v2(perm::V2_WITHDRAW, 258), a_v2(perm::V2_TOGGLE, 1), a_sol(77), a_stake(5), a_stake_rec(4, 5), a_sol_rec(3, 2),
    ]);
    v
}
pub fn offsets(r: &Role, base: usize) -> Vec<usize> {
    let mut at = base + 16 + r.auth.len();
    r.acts.iter().map(|a| { let o = at + 8; at = o + a.data.len(); o }).collect()
}
/// the credential a client looks up
pub fn authority_is(r: &Role, key: &[u8]) -> bool {
    match r.aty {
        ED | EDS => key.len() == 32 && r.auth[..32] == *key,
        K1 | K1S => match key.len() { 33 => r.auth[..33] == *key, 64 => r.auth[1..33] == key[..32] && r.auth[0] == 2 + (key[63] & 1), _ => false },
        R1 | R1S => key.len() == 33 && r.auth[..33] == *key,
        PE => { let n = r.auth[32] as usize; key.len() == 80 && r.auth[..32] == key[..32] && r.auth[40..40 + n] == key[40..40 + n] }
        PES => { let n = r.auth[32] as usize; key.len() == 33 + n && r.auth[..33] == key[..33] && r.auth[40..40 + n] == key[33..] }
        _ => false,
    }
}
pub fn lookup_keys() -> &'static [Vec<u8>] {
    static K: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
    K.get_or_init(|| {
        let mut v = vec![vec![], vec![0; 31], vec![0; 32], vec![0; 33], vec![0; 64], vec![0; 80], ed_key(1)[..31].to_vec()];
        for n in 1..=3 {
            v.push(ed_key(n).to_vec());
            v.push(near(&ed_key(n)).to_vec());
            let mut c = k1_comp(n);
            v.push(c.to_vec());
            c[0] ^= 1;
            v.push(c.to_vec());
            let mut f = k1_full(n);
            v.push(f.to_vec());
            f[63] ^= 1;
            v.push(f.to_vec());
            f[0] ^= 1;
            v.push(f.to_vec());
            let mut r = r1_pk(n).to_vec();
            v.push(r.clone());
            r[32] ^= 1;
            v.push(r);
            for t in [PE, PES] {
                let s = pe_state(&pe_prog(n), &pe_prefix(n));
                let p = [&s[..33], &s[40..43]].concat();
                if t == PE { v.push(s.clone()); let mut x = s.clone(); x[42] ^= 1; v.push(x); let mut x = s.clone(); x[0] ^= 1; v.push(x); v.push(s[..79].to_vec()); }
                else { v.push(p.clone()); let mut x = p.clone(); x[35] ^= 1; v.push(x); let mut x = p.clone(); x[32] -= 1; x.pop(); v.push(x); let mut x = p.clone(); x.push(0); v.push(x); let mut x = p.clone(); x[31] ^= 1; v.push(x); }
            }
        }
        v
    })
}
pub fn edge64() -> Vec<u64> { vec![0, 1, 2, 5, 6, u64::MAX - 1, u64::MAX] }
pub fn slots_for(last: u64, win: u64) -> Vec<u64> {
    let mut v = vec![0, last, last.saturating_add(1), last.saturating_add(win).saturating_sub(1), last.saturating_add(win), last.saturating_add(win).saturating_add(1), last.saturating_add(win).saturating_add(win), u64::MAX];
    v.sort();
    v.dedup();
    v
}
pub fn curated_probe() -> Vec<Key> {
    let mut v = vec![];
    for k in [SYSTEM, TOKEN, TOKEN22, STAKE] { v.push(k); for i in 0..32 { let mut x = k; x[i] ^= 1; v.push(x); } }
    v.extend([R, R2, SWIG, DEST]);
    v
}
/// contents worth distinguishing for a record of a kind and length: fields equal, different, zero, not zero
pub fn layouts(ty: u16, n: usize) -> Vec<Vec<u8>> {
    let mut v = vec![vec![0u8; n], vec![1u8; n], (0..n).map(|i| i as u8 + 1).collect()];
    if perm::len(ty) == Some(n) {
        let words = n / 8;
        for val in [1u64, 2] { for i in 0..words {
            let mut d = vec![0u8; n];
            put64(&mut d, i * 8, val);
            v.push(d.clone());
            for j in 0..words { for val2 in [1u64, 2, u64::MAX] { let mut e = d.clone(); put64(&mut e, j * 8, val2); v.push(e.clone()); for k in 0..words { let mut g = e.clone(); put64(&mut g, k * 8, 1); v.push(g); } } }
        } }
        for i in 0..n { let mut d = vec![0u8; n]; d[i] = 0x80; v.push(d); }
        v.sort();
        v.dedup();
    }
    v
}
pub fn dup_v2(l: &[Act]) -> bool {
    let k: Vec<(u16, &[u8])> = l.iter().filter(|x| (perm::V2_CREATE..=perm::V2_TOGGLE).contains(&x.ty)).map(|x| (x.ty, x.data.get(..4).unwrap_or(&[]))).collect();
    (0..k.len()).any(|i| k[..i].contains(&k[i]))
}
/// client bytes carry no boundaries worth trusting
pub fn acts_bytes_client(a: &[Act]) -> Vec<u8> {
    let mut v: Vec<u8> = vec![];
    for x in a { v.extend(x.ty.to_le_bytes()); v.extend((x.data.len() as u16).to_le_bytes()); v.extend([0; 4]); v.extend(&x.data); }
    v
}
#[derive(Clone, Debug, PartialEq)]
pub enum BOp { Add(Cred, Vec<Act>), Remove(u32) }

// ------------------------------------------------------------------ histories of the writer
struct Builder { host: bool, ops: Vec<BOp>, max: usize, inits: Vec<Sw> }
impl Model for Builder {
    type S = Sw;
    type A = BOp;
    fn init(&self) -> Vec<Sw> { if !self.inits.is_empty() { return self.inits.clone(); } vec![Sw { bump: 3, id: nk(0x1D, 7), counter: 0, wbump: 4, subctr: 0, v1: None, roles: vec![], claimer: None }] }
    fn actions(&self, s: &Sw) -> Vec<BOp> {
        let mut v: Vec<BOp> = if s.roles.len() < self.max { self.ops.clone() } else { vec![] };
        if s.counter < 9 { v.extend((0..s.counter + 1).map(BOp::Remove)); return v; }
        let mut ids: Vec<u32> = crate::p_roles::big_targets(s);
        ids.extend(ids.clone().iter().flat_map(|i| [i & 0xff, i & 0xffff, i + 1, i + 256, i + 65536]));
        ids.sort();
        ids.dedup();
        v.extend(ids.into_iter().map(BOp::Remove));
        v
    }
    fn step(&self, s: &Sw, op: &BOp) -> Result<Option<Sw>, Bad> {
        let fail = |m: String| Err(Bad { key: "writer".into(), msg: format!("{} {op:?}: {m}", if self.host { "as used off chain" } else { "as deployed" }), last: None });
        let enc = s.encode();
        let mut want = s.clone();
        let (extra, exp): (usize, Result<Option<(usize, usize)>, ()>) = match op {
            BOp::Add(c, a) => {
                let r = Role { id: s.counter, aty: c.t, auth: c.stored(), acts: a.clone() };
                let n = r.size();
                want.roles.push(r);
                want.counter += 1;
                (n, if crate::spec::valid_list(a, 0) { Ok(None) } else { Err(()) })
            }
            BOp::Remove(id) => match s.pos(*id) {
                Some(p) => { let n = want.roles.remove(p).size(); (0, Ok(Some((enc.len() - 48 - n, n)))) }
                None => (0, Err(())),
            },
        };
        let mut z = enc.clone();
        z.resize(enc.len() + extra, 0);
        let mut b = if s.counter == 0 { let f = if self.host { host::fresh(s.id, s.bump, s.wbump) } else { onchain::fresh(s.id, s.bump, s.wbump) }; if f.get() != &enc[..] { return fail("new account".into()); } let mut d = f.get().to_vec(); d.resize(z.len(), 0); Buf::new(&d) } else { Buf::new(&z) };
        let got = if self.host { host::build(&mut b, op) } else { onchain::build(&mut b, op) };
        match (exp, got) {
            (Ok(e), Ok(g)) => {
                if e != g { return fail(format!("returned {g:?}, expected {e:?}")); }
                let mut w = want.encode();
                w.resize(z.len(), 0);
                if b.get() != &w[..] { let i = w.iter().zip(b.get()).position(|(a, b)| a != b); return fail(format!("account differs from the expected one at byte {i:?} of {}", w.len())); }
                Ok(Some(want))
            }
            (Err(()), Err(_)) => Ok(None),
            (e, g) => fail(format!("expected {e:?}, got {g:?}")),
        }
    }
}
pub fn builder_histories(ck: &Ck) {
    let cr = |t, n| Cred { t, n };
    let mut ops = vec![];
    let lists = [vec![a_all()], vec![a_sol(4), a_v2(perm::V2_SIGN, 1), a_manage()], vec![a_tok_rec_dest(&MINT, &DEST, 3, 4), act(perm::SCOPE)]];
    for (i, t) in AUTH_TYPES.into_iter().enumerate() { ops.push(BOp::Add(cr(t, 1), lists[i % 3].clone())); }
    ops.push(BOp::Add(cr(ED, 2), lists[1].clone()));
    ops.push(BOp::Add(cr(ED, 2), vec![]));
    ops.push(BOp::Add(cr(ED, 2), vec![a_v2(perm::V2_SIGN, 1), a_all(), a_v2(perm::V2_SIGN, 1)]));
    ops.push(BOp::Add(cr(K1, 2), vec![a_all(), Act { ty: perm::SOL, data: vec![0; 7] }]));
    ops.push(BOp::Add(cr(K1, 2), vec![Act { ty: 27, data: vec![] }]));
    ops.push(BOp::Add(cr(ED, 3), vec![a_all(); 255]));
    ops.push(BOp::Add(cr(ED, 3), vec![a_all(); 256]));
    for host in [false, true] {
        let m = Builder { host, ops: ops.clone(), max: 5, inits: vec![] };
        ck.bfs(if host { "writer histories (off chain)" } else { "writer histories (deployed)" }, &m, if ck.thorough { 6 } else { 5 });
        let inits = crate::p_roles::big_shapes().into_iter().map(|(_, roles, _)| {
            let mut v = vec![Role { id: 0, aty: ED, auth: cr(ED, 1).stored(), acts: vec![a_all()] }];
            v.extend(roles.into_iter().map(|(id, c, a)| Role { id, aty: c.t, auth: c.stored(), acts: a }));
            Sw { bump: 3, id: nk(0x1D, 7), counter: v.last().unwrap().id + 1, wbump: 4, subctr: 7, v1: None, roles: v, claimer: None }
        }).collect();
        let m = Builder { host, ops: ops.clone(), max: 999, inits };
        ck.bfs(if host { "writer on large stores (off chain)" } else { "writer on large stores (deployed)" }, &m, if ck.thorough { 2 } else { 2 });
    }
}

pub fn p25(ck: &Ck) {
    ck.assume("the two builds of the library compared are the on-chain configuration (system calls emulated) and the host configuration");
    let wallet = |roles: Vec<Role>, claimer: Option<Key>, subctr: u32| {
        let c = roles.iter().map(|r| r.id + 1).max().unwrap_or(0) + (subctr & 1);
        Sw { bump: 250, id: nk(0x1D, 9), counter: c, wbump: 249, subctr, v1: None, roles, claimer }
    };
    let pool = pool();
    let role = |id: u32, c: Cred, acts: Vec<Act>| Role { id, aty: c.t, auth: { let mut a = c.stored(); if c.has_counter() { put32(&mut a, 36, 7 + id); } a }, acts };
    // credential kinds in every position
    let mut cases: Vec<(String, Sw)> = vec![("no role".into(), wallet(vec![], None, 0)), ("no role, claimer".into(), wallet(vec![], Some(DEST), 2))];
    for (i, a) in AUTH_TYPES.into_iter().enumerate() { for (j, b) in AUTH_TYPES.into_iter().enumerate() { for (k, c) in AUTH_TYPES.into_iter().enumerate() {
        for same in [false, true] {
            let ids = [[0, 1, 2], [0, 2, 5], [3, 4, 9]][(i + j + k) % 3];
            let n = |x: u8| if same { 1 } else { x };
            let l = |s: usize| vec![pool[(i * 64 + j * 8 + k + s * 17) % pool.len()].clone(), pool[(i * 64 + j * 8 + k + s * 29 + 1) % pool.len()].clone()];
            let sw = wallet(vec![role(ids[0], Cred { t: a, n: n(1) }, l(0)), role(ids[1], Cred { t: b, n: n(2) }, l(1)), role(ids[2], Cred { t: c, n: n(3) }, vec![a_all()])], ((i + j) % 2 == 0).then_some(DEST), (i * j) as u32);
            cases.push((format!("credentials {a},{b},{c} same={same} ids {ids:?}"), sw));
        }
    } } }
    ck.count("wallets read back", cases.len() as u64);
    ck.each("read back", &cases, |ck, (l, sw)| {
        let label = || l.clone();
        onchain::read_back(ck, sw, &label);
        host::read_back(ck, sw, &label);
        onchain::lookups(ck, sw, &label);
        host::lookups(ck, sw, &label);
    });
    // permission lists in every role position
    let mut cases: Vec<(usize, Vec<Act>)> = vec![];
    for (i, a) in pool.iter().enumerate() {
        cases.push((i % 3, vec![a.clone()]));
        for (j, b) in pool.iter().enumerate() {
            cases.push(((i + j) % 3, vec![a.clone(), b.clone()]));
            if ck.thorough { for (k, c) in pool.iter().enumerate() { cases.push(((i + j + k) % 3, vec![a.clone(), b.clone(), c.clone()])); } }
        }
    }
    cases.push((1, pool.clone()));
    cases.push((0, pool.iter().rev().cloned().collect()));
    ck.count("permission lists", cases.len() as u64);
    ck.each("permissions", &cases, |ck, (pos, l)| {
        let other = vec![a_program(&T2), a_sol_dest(&T2, 1), a_v2(perm::V2_ALL, 9)];
        let roles = (0..3usize).map(|i| role(i as u32, Cred { t: AUTH_TYPES[(i + l.len() + l[0].ty as usize) % 8], n: i as u8 + 1 }, if i == *pos { l.clone() } else { other.clone() })).collect();
        let sw = wallet(roles, (l.len() == 2).then_some(DEST), 0);
        let label = || format!("permissions {:?}", crate::p_roles::kinds(l));
        onchain::permissions(ck, &sw, *pos, &label);
        host::permissions(ck, &sw, *pos, &label);
        onchain::duplicates(ck, l);
        host::duplicates(ck, l);
    });
    // many roles, long lists, large identifiers
    let mut cases: Vec<(String, Sw)> = vec![];
    for (l, roles, cl) in crate::p_roles::big_shapes() {
        let mut v = vec![role(0, Cred { t: ED, n: 1 }, vec![a_all()])];
        for (id, c, a) in roles { v.push(role(id, Cred { t: c.t, n: c.n % 3 + 1 }, a)); }
        cases.push((l, wallet(v, cl.then_some(DEST), 0)));
    }
    // parameters that differ in a single byte, are zero but for one byte, or are zero in one byte
    let keyed: [(u16, usize, usize); 14] = [(perm::PROGRAM, 0, 32), (perm::TOK, 0, 32), (perm::TOK_REC, 0, 32), (perm::SOL_DEST, 0, 32), (perm::SOL_REC_DEST, 0, 32), (perm::SCOPE, 80, 32), (perm::TOK_DEST, 0, 64), (perm::TOK_REC_DEST, 0, 64), (perm::SUB, 0, 32), (perm::REPLACE, 0, 4), (perm::V2_ALL, 0, 4), (perm::V2_SIGN, 0, 4), (perm::V2_WITHDRAW, 0, 4), (perm::V2_TOGGLE, 0, 4)];
    let mut kcases = vec![];
    for (ty, off, len) in keyed { for i in 0..len { for x in [1u8, 0x80, 0xff] { for rest in 0..4u8 { kcases.push((ty, off, len, i, x, rest)); } } } }
    ck.each("parameter bytes", &kcases, |ck, &(ty, off, len, i, x, rest)| {
        let full: Vec<u8> = (0..len).map(|j| (j as u8).wrapping_mul(37) ^ 0xA5).collect();
        let with = |k: &[u8], b: u8| { let mut k = k.to_vec(); k[i] = b; k };
        let zero = vec![0u8; len];
        let mut keys = vec![full.clone(), with(&full, full[i] ^ x), with(&full, 0), zero.clone(), with(&zero, x), vec![0xff; len], with(&vec![0xff; len], 0xff ^ x)];
        keys.sort();
        keys.dedup();
        let rec = |k: &Vec<u8>, n: usize| { let mut d = vec![[0u8, 0xff, 1, n as u8 + 2][rest as usize]; perm::len(ty).unwrap()]; d[off..off + len].copy_from_slice(k); if ty == perm::SUB { d[32..36].copy_from_slice(&[[0, 255, 254, 255][rest as usize], rest & 1, 0, 0]); } Act { ty, data: d } };
        let n = keys.len();
        let mut look = keys.clone();
        look.push(vec![]);
        for r in 0..=n {
            // every rotation, and each record alone missing
            let list: Vec<Act> = if r == n { keys.iter().rev().enumerate().map(|(j, k)| rec(k, j)).collect() } else { (1..n).map(|j| rec(&keys[(r + j) % n], j)).collect() };
            let sw = wallet(vec![role(0, crate::p_roles::cr(ED, 1), vec![a_all()]), role(1, crate::p_roles::cr(AUTH_TYPES[(i + r) % 8], 2), list), role(2, crate::p_roles::cr(K1, 3), vec![a_sol(1)])], None, 0);
            let look: Vec<Vec<u8>> = look.iter().filter(|k| !k.is_empty() || !matches!(ty, perm::PROGRAM | perm::TOK | perm::TOK_REC)).cloned().collect();
            let label = || format!("records of kind {ty} differing in byte {i} by {x}, order {r}");
            onchain::parameters(ck, &sw, 1, ty, &look, &label);
            host::parameters(ck, &sw, 1, ty, &look, &label);
        }
    });
    ck.each("large stores", &cases, |ck, (l, sw)| {
        let label = || l.clone();
        onchain::read_back(ck, sw, &label);
        host::read_back(ck, sw, &label);
        onchain::lookups(ck, sw, &label);
        host::lookups(ck, sw, &label);
        let n = sw.roles.len();
        let mut at = vec![0, 1, 2, n / 2, n - 2, n - 1];
        at.dedup();
        for i in at {
            let long = sw.roles[i].acts.len() > 64;
            if !long || ck.thorough || i == 1 { onchain::permissions(ck, sw, i, &label); }
            if !long || ck.thorough { host::permissions(ck, sw, i, &label); }
        }
    });
    builder_histories(ck);
    let amounts: Vec<u64> = edge64();
    ck.each("spend accounting", &amounts, |ck, n| { onchain::spending(ck, *n); host::spending(ck, *n) });
    let kinds: Vec<u8> = (0..=5).chain([255]).collect();
    ck.each("trailing entries", &kinds, |ck, k| { onchain::tails(ck, *k); host::tails(ck, *k) });
    let parts: Vec<usize> = (0..8).collect();
    ck.each("identifiers, scopes, addresses, sessions", &parts, |ck, p| match p {
        0 => onchain::identifiers(ck), 1 => host::identifiers(ck), 2 => onchain::scopes(ck), 3 => host::scopes(ck),
        4 => onchain::addresses(ck), 5 => host::addresses(ck), 6 => onchain::sessions(ck), _ => host::sessions(ck),
    });
    let _ = curated;
}

/// P22: readers of damaged configuration accounts.
pub fn damage(ck: &Ck) {
    let mut cases = vec![];
    for a in AUTH_TYPES { for b in AUTH_TYPES { for cl in [None, Some(DEST)] {
        let r = |id: u32, t: u16, acts: Vec<Act>| Role { id, aty: t, auth: Cred { t, n: id as u8 + 1 }.stored(), acts };
        let roles = vec![r(0, a, vec![a_all()]), r(2, b, vec![a_sol(4), a_v2(perm::V2_SIGN, 1), act(perm::SCOPE)])];
        cases.push(Sw { bump: 250, id: nk(0x1D, 9), counter: 3, wbump: 249, subctr: 1, v1: None, roles, claimer: cl });
    } } }
    ck.each("damaged accounts", &cases, |ck, sw| {
        let label = || format!("credentials {},{} claimer {}", sw.roles[0].aty, sw.roles[1].aty, sw.claimer.is_some());
        onchain::cut_wallet(ck, sw, &label);
        host::cut_wallet(ck, sw, &label);
    });
}
