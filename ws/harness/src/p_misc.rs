//! P22, P26: malformed instructions, forged and substituted accounts. Every
//! changed transaction is decoded independently; what the program accepts must
//! be a well-formed operation that the reference model permits, with exactly
//! the model's effect.
use crate::mcx::*;
use crate::p_auth::{crowd, every_op, own};
use crate::model::{diff, short, Rej};
use crate::p_life::expect_create;
use crate::p_roles::{cr, main_by, open, sess};
use crate::p_sign::{base, uncompact, LTD, MINT, OWNER, R};
use crate::progs::{script_data, tok};
use crate::spec::*;
use crate::sw::*;
use crate::vm::*;

// ------------------------------------------------------------------ the scene
/// token accounts: number and token program
fn ts(o: u8, p: &Key) -> Key { nk(if *p == TOKEN { 0x71 } else { 0x72 }, o) }
const FORGED: Key = nk(0xF0, 1);
const FORGED_STATE: Key = nk(0xF0, 2);
const FORGED_TOK: Key = nk(0xF0, 3);
const FRESH: Key = nk(0xF0, 4);
const CLAIMER: Key = nk(0xC1, 1);
const ED2: Cred = Cred { t: ED, n: 21 };
pub struct Scene { pub a: Wl, pub b: Wl, pub old: Wl, pub dead: Wl, pub new: Wl, pub w: World }
/// role 1's session credential, roles 0, 2 and 3 sign directly
fn roles(wl: &Wl) -> Vec<(Cred, Vec<Act>)> {
    let full = |r: u32| vec![a_all(), act(perm::SUB), sub1_rec(wl, r, true), act(perm::V2_CREATE), a_v2(perm::V2_ALL, 0), a_v2(perm::V2_ALL, 1), act(perm::CLOSE)];
    vec![(OWNER, vec![a_all()]), (cr(EDS, 11), full(1)), (ED2, full(2)), (LTD, vec![a_sol(5), act(perm::PROG_ALL), a_tok(&MINT, 4)])]
}
pub fn scene(n: u8) -> Scene {
    let (a, b, old, dead, new) = (Wl::new(n), Wl::new(n + 1), Wl::new(n + 2), Wl::new(n + 3), Wl::new(n + 4));
    let mut w = base();
    for (i, wl) in [a, b, old].iter().enumerate() {
        let mut s = wl.install(&mut w, &roles(wl), rent(0) + 50);
        let slot = w.slot;
        open(&mut s.roles[1], 11, slot);
        s.subctr = 2;
        if i == 2 { wl.legacy(&mut s, 0); w.accts.remove(&wl.wallet); }
        wl.store(&mut w, &s);
        for r in [1u32, 2] { w.fund(wl.sub1(r).0, rent(0) + 30); }
        let o = 10 * i as u8;
        for p in [TOKEN, TOKEN22] {
            for (n, owner, amount) in [(0, wl.wallet, 9), (1, wl.wallet, 0), (2, wl.swig, 9), (3, wl.swig, 0), (4, wl.sub1(1).0, 9), (5, wl.sub1(2).0, 9), (6, wl.sub2(0).0, 9), (7, wl.sub2(1).0, 9)] {
                w.put(ts(o + n, &p), tok::acct(p, &tok::new(MINT, owner, amount)));
            }
        }
        if i == 2 { continue; }
        for d in [0, 1] {
            w.put(wl.sub2_state(d).0, Acct { lamports: rent(72), owner: SWIG, exec: false, data: sub2_data(wl, d, true) });
            w.fund(wl.sub2(d).0, rent(0) + 30);
        }
    }
    w.edit(&a.swig.clone(), |x| x.lamports += 7);
    w.put(ts(90, &TOKEN), tok::acct(TOKEN, &tok::new(MINT, DEST2, 9)));
    w.put(ts(90, &TOKEN22), tok::acct(TOKEN22, &tok::new(MINT, DEST2, 9)));
    w.put(MINT, tok::mint_acct(TOKEN, PAYER, 1000));
    w.put(dead.swig, Acct { lamports: rent(1), owner: SWIG, exec: false, data: vec![255] });
    let copy = |k: &Key| w.get(k).unwrap().clone();
    let (c, st, t) = (copy(&a.swig), copy(&a.sub2_state(0).0), copy(&ts(0, &TOKEN)));
    w.put(FORGED, Acct { owner: R, ..c });
    w.put(FORGED_STATE, Acct { owner: R, ..st });
    w.put(FORGED_TOK, Acct { owner: R, ..t });
    Scene { a, b, old, dead, new, w }
}
impl Scene {
    fn wls(&self) -> [Wl; 4] { [self.a, self.b, self.old, self.new] }
    /// every account an instruction position might be given instead
    fn substitutes(&self) -> Vec<Key> {
        let mut v = vec![];
        for wl in [&self.a, &self.b] {
            v.extend([wl.swig, wl.wallet, wl.sub1(1).0, wl.sub1(2).0, wl.sub2_state(0).0, wl.sub2_state(1).0, wl.sub2_state(2).0, wl.sub2(0).0, wl.sub2(1).0, wl.sub2(2).0]);
        }
        v.extend([self.old.swig, self.old.wallet, self.dead.swig, self.new.swig, self.new.wallet, FORGED, FORGED_STATE, FORGED_TOK, FRESH]);
        for p in [TOKEN, TOKEN22] { for n in [0, 1, 2, 3, 4, 6, 10, 11, 12, 14, 16, 90] { v.push(ts(n, &p)); } }
        v.extend([MINT, PAYER, DEST, DEST2, ed_key(OWNER.n), ed_key(ED2.n), sess_key(11), SYSTEM, TOKEN, TOKEN22, R, SWIG, IXS]);
        v
    }
    /// program-derived addresses and programs cannot sign transactions
    fn can_sign(&self, k: &Key) -> bool {
        self.w.get(k).map_or(!readonly_always(k) && *k != self.new.swig && *k != self.new.wallet && *k != self.old.wallet && !self.pda(k), |x| !x.exec && !self.pda(k) && x.owner != SWIG)
    }
    fn pda(&self, k: &Key) -> bool {
        [self.a, self.b, self.old, self.dead, self.new].iter().any(|wl| *k == wl.swig || *k == wl.wallet || (0..4).any(|i| *k == wl.sub1(i).0 || *k == wl.sub2(i).0 || *k == wl.sub2_state(i).0))
    }
}

// ------------------------------------------------------------------ independent decoder
pub struct Dec { pub wl: Wl, pub role: u32, pub by: By, pub op: Do, pub payer: Option<Key>, pub stored: Option<Vec<u8>> }
fn key_at(ms: &[Meta], i: usize) -> Result<Key, Rej> { ms.get(i).map(|x| x.key).ok_or("account missing") }
fn is(ms: &[Meta], i: usize, k: &Key, why: Rej) -> Result<(), Rej> { if key_at(ms, i)? == *k { Ok(()) } else { Err(why) } }
fn signs(ms: &[Meta], k: &Key) -> bool { ms.iter().any(|x| x.key == *k && x.signer) }
/// who approves: the one-byte payload names a signing account
fn who(w: &World, wl: &Wl, role: u32, opening: bool, pl: &[u8], ms: &[Meta]) -> Result<By, Rej> {
    if pl.len() != 1 { return Err("authority payload"); }
    let k = key_at(ms, pl[0] as usize)?;
    if !signs(ms, &k) { return Err("the authority does not sign"); }
    let s = Sw::parse(w.data(&wl.swig)).map_err(|_| "not a wallet")?;
    let t = s.role(role).ok_or("no such role")?.aty;
    if is_session(t) && !opening { return Ok(By::Sess(k)); }
    for n in 0..=255u8 { if ed_key(n) == k { return Ok(By::Main(cr(t, n))); } }
    Err("unknown authority")
}
/// Decodes an instruction of the given wallets for Ed25519 and session credentials.
pub fn decode(w: &World, wls: &[Wl], ix: &Ix) -> Result<Dec, Rej> {
    let (d, ms) = (&ix.data[..], &ix.metas[..]);
    if d.len() < 4 { return Err("too short"); }
    let k0 = key_at(ms, 0)?;
    let wl = *wls.iter().find(|x| x.swig == k0).ok_or("not a wallet")?;
    let need = |n: usize| if d.len() >= n { Ok(()) } else { Err("too short") };
    let owner = |k: Key| (0..64u32).find(|i| wl.sub1(*i).0 == k).ok_or("not a sub-account of the wallet");
    let number = |id: u32, st: Key, k: Option<Key>| if wl.sub2_state(id).0 == st && k.is_none_or(|k| wl.sub2(id).0 == k) { Ok(()) } else { Err("not that sub-account") };
    // the system program is called by its own address; its position only has to be filled
    let sys = |i: usize| key_at(ms, i).map(|_| ());
    let disc = le16(d, 0);
    let mut raw = None;
    let (role, op, at, payer): (u32, Do, usize, Option<usize>) = match disc {
        1 => {
            need(16)?;
            let (al, cl, t) = (le16(d, 2) as usize, le16(d, 4) as usize, le16(d, 6));
            need(16 + al + cl)?;
            let stored = crate::p_life::auth_stored(t, &d[16..16 + al]).ok_or("credential")?;
            let acts = records(&d[16 + al..16 + al + cl])?;
            sys(2)?;
            raw = Some(stored);
            (le32(d, 12), Do::Add(cr(t, 99), acts), 16 + al + cl, Some(1))
        }
        2 => {
            need(16)?;
            sys(2)?;
            (le32(d, 8), Do::Remove(le32(d, 12)), 16, Some(1))
        }
        3 => {
            need(16)?;
            let l = le16(d, 2) as usize;
            need(16 + l)?;
            sys(2)?;
            (le32(d, 8), Do::Up(le32(d, 12), Upd::Raw(d[16..16 + l].to_vec(), d[4])), 16 + l, Some(1))
        }
        5 => { need(48)?; sys(2)?; (le32(d, 4), Do::Session(le64(d, 8), d[16..48].try_into().unwrap()), 48, Some(1)) }
        6 => {
            need(16)?;
            let r = le32(d, 4);
            let (k, b) = wl.sub1(r);
            is(ms, 2, &k, "not the role's sub-account")?;
            if d[8] != b { return Err("bump"); }
            (r, Do::S1Create, 16, Some(1))
        }
        7 => {
            need(16)?;
            let o = owner(key_at(ms, 2)?)?;
            is(ms, 4, &wl.wallet, "not the wallet")?;
            key_at(ms, 5)?;
            let tok = if ms.len() > 6 { Some((key_at(ms, 6)?, key_at(ms, 7)?, key_at(ms, 8)?)) } else { None };
            if tok.is_none() && !(ms[2].writable && ms[4].writable) { return Err("not writable"); }
            (le32(d, 4), Do::S1Wd(o, le64(d, 8), tok), 16, None)
        }
        9 => {
            need(16)?;
            let l = le16(d, 2) as usize;
            need(16 + l)?;
            sys(2)?;
            let o = owner(key_at(ms, 1)?)?;
            (le32(d, 4), Do::S1Sign(o, uncompact(&d[16..16 + l], ms).ok_or("inner instructions")?), 16 + l, None)
        }
        10 => {
            need(16)?;
            if d[2] > 1 { return Err("flag"); }
            (le32(d, 12), Do::S1Tog(le32(d, 8), owner(key_at(ms, 2)?)?, d[2] == 1), 16, None)
        }
        11 => {
            need(8)?;
            let l = le16(d, 2) as usize;
            need(8 + l)?;
            is(ms, 1, &wl.wallet, "not the wallet")?;
            (le32(d, 4), Do::Sign(uncompact(&d[8..8 + l], ms).ok_or("inner instructions")?), 8 + l, None)
        }
        12 => {
            need(8)?;
            is(ms, 3, &wl.wallet, "not the wallet")?;
            sys(4)?;
            if d[2] != wl.wbump { return Err("bump"); }
            (le32(d, 4), Do::Migrate, 8, Some(2))
        }
        13 => {
            need(8)?;
            is(ms, 1, &wl.wallet, "not the wallet")?;
            key_at(ms, 3)?;
            let t = ms[4..].chunks_exact(3).map(|c| (c[0].key, c[1].key, c[2].key)).collect();
            (le32(d, 4), Do::Transfer(t), 8, None)
        }
        14 => {
            need(8)?;
            is(ms, 1, &wl.wallet, "not the wallet")?;
            let off = le16(d, 2) as usize;
            if off < 4 || off > ms.len() { return Err("offset"); }
            (le32(d, 4), Do::CloseTok(key_at(ms, 2)?, key_at(ms, 3)?, ms[off..].iter().map(|x| x.key).collect()), 8, None)
        }
        15 => {
            need(8)?;
            is(ms, 1, &wl.wallet, "not the wallet")?;
            sys(3)?;
            let dest = key_at(ms, 2)?;
            if dest == wl.swig || dest == wl.wallet { return Err("destination"); }
            (le32(d, 4), Do::CloseSwig(dest), 8, None)
        }
        16 => {
            need(16)?;
            let l = le16(d, 12) as usize;
            need(16 + l)?;
            (le32(d, 4), Do::Replace(le32(d, 8), d[16..16 + l].to_vec()), 16 + l, None)
        }
        17 => { need(40)?; sys(2)?; (le32(d, 4), Do::Claimer(d[8..40].try_into().unwrap()), 40, Some(1)) }
        18 => {
            need(16)?;
            sys(4)?;
            let id = Sw::parse(w.data(&wl.swig)).map_err(|_| "not a wallet")?.subctr;
            number(id, key_at(ms, 2)?, Some(key_at(ms, 3)?))?;
            if d[8] != wl.sub2_state(id).1 || d[9] != wl.sub2(id).1 { return Err("bump"); }
            (le32(d, 4), Do::S2Create, 16, Some(1))
        }
        19 => {
            need(16)?;
            if d[2] > 1 { return Err("flag"); }
            number(le32(d, 8), key_at(ms, 2)?, None)?;
            (le32(d, 4), Do::S2Tog(le32(d, 8), d[2] == 1), 16, None)
        }
        20 => {
            need(16)?;
            let l = le16(d, 2) as usize;
            need(16 + l)?;
            sys(3)?;
            number(le32(d, 8), key_at(ms, 1)?, Some(key_at(ms, 2)?))?;
            (le32(d, 4), Do::S2Sign(le32(d, 8), uncompact(&d[16..16 + l], ms).ok_or("inner instructions")?), 16 + l, None)
        }
        21 => {
            need(24)?;
            number(le32(d, 8), key_at(ms, 2)?, Some(key_at(ms, 3)?))?;
            is(ms, 4, &wl.wallet, "not the wallet")?;
            sys(6)?;
            let tok = match ms.len() { 7 => None, 10 => Some((ms[7].key, ms[8].key, ms[9].key)), _ => return Err("number of accounts") };
            (le32(d, 4), Do::S2Wd(le32(d, 8), le64(d, 16), tok), 24, None)
        }
        _ => return Err("not an operation"),
    };
    let by = who(w, &wl, role, disc == 5, &d[at..], ms)?;
    Ok(Dec { wl, role, by, op, payer: match payer { Some(i) => Some(key_at(ms, i)?), None => None }, stored: raw })
}
/// What the transaction may do at most.
fn meaning(w: &World, wls: &[Wl], ix: &Ix) -> Result<World, Rej> {
    if ix.data.len() < 2 { return Err("too short"); }
    let disc = le16(&ix.data, 0);
    if disc == 4 { return Err("retired"); }
    if !(1..=21).contains(&disc) || disc == 8 { return expect_create(w, ix); }
    if disc == 11 { if let Some(r) = unsigned(w, wls, ix) { return r; } }
    let x = decode(w, wls, ix)?;
    let who = x.payer.unwrap_or(PAYER);
    let mut e = with_payer(&who, || expect(w, &x.wl, x.role, &x.by, &x.op, &ix.metas))?;
    if e.lam(&who) < w.lam(&who) && x.payer.is_some() && (!signs(&ix.metas, &who) || w.owner(&who) != SYSTEM || !w.data(&who).is_empty()) { return Err("the payer cannot pay"); }
    if let Some(auth) = x.stored {
        let mut s = x.wl.sw(&e);
        s.roles.last_mut().unwrap().auth = auth;
        e.edit(&x.wl.swig, |a| a.data = s.encode());
    }
    Ok(e)
}
/// A signing instruction with another account in the wallet's place: nothing
/// signs on the wallet's behalf, only what the outer signers approve happens.
fn unsigned(w: &World, wls: &[Wl], ix: &Ix) -> Option<Result<World, Rej>> {
    let k = key_at(&ix.metas, 1).ok()?;
    let wl = *wls.iter().find(|x| Some(x.swig) == ix.metas.first().map(|m| m.key))?;
    if k == wl.wallet { return None; }
    Some((|| {
        let mut ix2 = ix.clone();
        ix2.metas[1].key = wl.wallet;
        let x = decode(w, wls, &ix2)?;
        if w.owner(&k) != SYSTEM { return Err("not the wallet"); }
        let l = le16(&ix.data, 2) as usize;
        let inner = uncompact(&ix.data[8..8 + l], &ix.metas).ok_or("inner instructions")?;
        let fake = Wl { wallet: if signs(&ix.metas, &k) { k } else { FRESH }, ..wl };
        expect(w, &fake, x.role, &x.by, &Do::Sign(inner), &ix.metas)
    })())
}
/// Accepted means permitted, with exactly the permitted effect.
fn check(ck: &Ck, w: &World, wls: &[Wl], ix: &Ix, name: &str, label: &dyn Fn() -> String) -> bool {
    let ixs = vec![ix.clone()];
    let Ok(d) = ck.exec(w, &ixs) else { return false };
    match meaning(w, wls, ix) {
        Err(r) => ck.fail(&format!("{name}:{}", r.replace(' ', "-")), format!("{}: accepted ({r})", label()), vec![], Some((w.clone(), ixs))),
        Ok(e) => if let Some(x) = diff(&e, &d.world) { ck.fail(&format!("{name}:effect"), format!("{}: accepted with the wrong effect: {x}", label()), vec![], Some((w.clone(), ixs))) },
    }
    true
}

// ------------------------------------------------------------------ genuine transactions
#[derive(Clone)]
pub struct Genuine { pub name: String, pub wl: Wl, pub ix: Ix, pub before: World }
impl std::fmt::Debug for Genuine { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.name) } }
pub fn genuine(sc: &Scene) -> Vec<Genuine> {
    let a = &sc.a;
    let pay = |k: Key| vec![sys_transfer(&k, &DEST, 1)];
    let both = [(1u32, sess(11)), (2, By::Main(ED2))];
    let mut v: Vec<(Wl, u32, By, Do, World)> = vec![];
    for (r, by) in both {
        let t = |s: u8, d: u8, p: Key| Some((ts(s, &p), ts(d, &p), p));
        let noop = Ix { prog: R, metas: vec![m(a.wallet), mw(DEST)], data: script_data(&[]) };
        let ops = vec![
            Do::Add(cr(ED, 99), vec![a_sol(1), a_manage()]), Do::Remove(3), Do::Up(3, Upd::Replace(vec![a_sol(3), act(perm::PROG_ALL)])), Do::Up(3, Upd::Append(vec![a_sol_rec(4, 5)])), Do::Up(3, Upd::ByType(vec![1])), Do::Up(3, Upd::ByIndex(vec![0, 2])),
            Do::Replace(3, ed_key(98).to_vec()), Do::Claimer(CLAIMER),
            Do::Sign(pay(a.wallet)), Do::Sign(vec![noop, sys_transfer(&a.wallet, &DEST, 2)]), Do::Sign(vec![tok_transfer(&TOKEN, &ts(0, &TOKEN), &ts(90, &TOKEN), &a.wallet, 2)]),
            Do::S1Create, Do::S1Wd(r, 3, None), Do::S1Wd(r, 3, t(if r == 1 { 4 } else { 5 }, 0, TOKEN)), Do::S1Sign(r, pay(a.sub1(r).0)), Do::S1Tog(r, r, false),
            Do::Transfer(vec![]), Do::Transfer(vec![(ts(2, &TOKEN), ts(0, &TOKEN), TOKEN), (ts(2, &TOKEN22), ts(1, &TOKEN22), TOKEN22)]),
            Do::CloseTok(DEST, TOKEN, vec![ts(1, &TOKEN)]), Do::CloseTok(DEST, TOKEN22, vec![ts(3, &TOKEN22), ts(1, &TOKEN22)]),
            Do::S2Create, Do::S2Tog(1, false), Do::S2Sign(0, pay(a.sub2(0).0)), Do::S2Wd(0, 3, None), Do::S2Wd(1, 3, t(7, 0, TOKEN22)),
        ];
        for op in ops { v.push((*a, r, by, op, sc.w.clone())); }
        v.push((sc.old, r, by, Do::Migrate, sc.w.clone()));
        let mut w = sc.w.clone();
        w.fund(a.wallet, rent(0));
        let l = rent(w.data(&a.swig).len());
        w.fund(a.swig, l);
        v.push((*a, r, by, Do::CloseSwig(DEST), w));
    }
    v.push((*a, 1, main_by(EDS, 11), Do::Session(5, sess_key(12)), sc.w.clone()));
    v.push((*a, 3, By::Main(LTD), Do::Sign(pay(a.wallet)), sc.w.clone()));
    let mut g: Vec<Genuine> = v.into_iter().map(|(wl, role, by, op, w)| {
        let ix = op_ixs(&w, &wl, role, &by, &op).pop().unwrap();
        Genuine { name: format!("role {role}: {}", short_op(&op)), wl, ix, before: w }
    }).collect();
    for acts in [vec![a_all()], vec![a_manage(), a_sol(4), a_program(&R)]] {
        g.push(Genuine { name: format!("create {}", acts.len()), wl: sc.new, ix: create_ix(&sc.new, &cr(ED, 5), &acts), before: sc.w.clone() });
    }
    g
}
/// the genuine ones work and mean what the model says
fn accepted(ck: &Ck, sc: &Scene, g: &[Genuine]) {
    ck.each("genuine", g, |ck, g| {
        if !check(ck, &g.before, &sc.wls(), &g.ix, "genuine", &|| g.name.clone()) {
            ck.fail("genuine:refused", format!("{}: refused", g.name), vec![], Some((g.before.clone(), vec![g.ix.clone()])));
        }
    });
}

// ------------------------------------------------------------------ P22
pub fn p22(ck: &Ck) {
    let sc = scene(111);
    let wls = sc.wls();
    let gs = genuine(&sc);
    accepted(ck, &sc, &gs);
    // every truncation, every extension, every byte changed, every field at its boundaries
    let mut cases = vec![];
    for g in &gs { for i in 0..=g.ix.data.len() { cases.push((g, i)); } }
    ck.each("data", &cases, |ck, (g, i)| {
        let i = *i;
        let d = &g.ix.data;
        let go = |d: Vec<u8>, what: &str| { let mut x = g.ix.clone(); x.data = d; check(ck, &g.before, &wls, &x, "data", &|| format!("{}: {what} at byte {i}", g.name)); };
        go(d[..i].to_vec(), "cut");
        for b in [0u8, 1, 255] { for n in [1usize, 2, 8] { let mut x = d[..i].to_vec(); x.extend(vec![b; n]); x.extend(&d[i..]); go(x, "bytes inserted"); } }
        for n in [1usize, 2, 4, 8] { if i + n <= d.len() { let mut x = d.clone(); x.drain(i..i + n); go(x, "bytes removed"); } }
        if i == d.len() { return; }
        for v in 0..=255u8 { if v != d[i] { let mut x = d.clone(); x[i] = v; go(x, &format!("byte {v}")); } }
        for n in [2usize, 4, 8] {
            if i % 2 != 0 || i + n > d.len() { continue; }
            let mut b = [0u8; 8];
            b[..n].copy_from_slice(&d[i..i + n]);
            let cur = u64::from_le_bytes(b);
            let top = if n == 8 { u64::MAX } else { (1 << (8 * n)) - 1 };
            for v in [0, 1, 2, top, top - 1, top / 2, top / 2 + 1, cur.wrapping_add(1), cur.wrapping_sub(1), cur.wrapping_add(256), cur.wrapping_mul(2)] {
                let mut x = d.clone();
                x[i..i + n].copy_from_slice(&v.to_le_bytes()[..n]);
                go(x, &format!("{n}-byte field {v}"));
            }
        }
    });
    corrupt(ck, &sc, &gs);
    #[cfg(feature = "lib")]
    crate::p_lib::damage(ck);
    // every credential kind: truncated data and missing accounts
    let wl = Wl::new(116);
    let n = 11u8;
    let mut cases = vec![];
    for t in AUTH_TYPES { for legacy in [false, true] { for op in every_op(&wl, t as u32, legacy) { cases.push((t, legacy, op)); } } }
    ck.each("credentials", &cases, |ck, (t, legacy, op)| {
        let by = own(*t, n, op);
        let w = crowd(&wl, n, *legacy, Some(90));
        let role = *t as u32;
        let ixs = op_ixs(&w, &wl, role, &by, op);
        let Ok(Some(_)) = compare(Some(ck), &w, &wl, role, &by, op, &ixs) else { return };
        let refuse = |f: &dyn Fn(&mut Ix), what: &str, i: usize| {
            let mut v = ixs.clone();
            f(v.last_mut().unwrap());
            if ck.exec(&w, &v).is_ok() { ck.fail("credentials:accepted", format!("kind {t}, {}: {what} {i}: accepted", short_op(op)), vec![], Some((w.clone(), v))); }
        };
        let last = ixs.last().unwrap();
        for i in 0..last.data.len() { refuse(&|x| x.data.truncate(i), "cut at", i); }
        for i in 0..last.metas.len() { refuse(&|x| x.metas.truncate(i), "accounts cut at", i); }
    });
    // two bytes at once
    let mut cases = vec![];
    for g in &gs { for i in 0..g.ix.data.len().min(if ck.thorough { 80 } else { 16 }) { cases.push((g, i)); } }
    ck.each("data-pairs", &cases, |ck, (g, i)| {
        let d = &g.ix.data;
        let vals: &[u8] = if ck.thorough { &[0, 1, 2, 3, 4, 8, 9, 16, 32, 127, 128, 254, 255] } else { &[0, 1, 255] };
        for j in i + 1..d.len() { for a in vals { for b in vals {
            let mut x = g.ix.clone();
            x.data[*i] = *a;
            x.data[j] = *b;
            check(ck, &g.before, &wls, &x, "data-pairs", &|| format!("{}: bytes {i},{j} set to {a},{b}", g.name));
        } } }
    });
    // missing accounts and privileges
    ck.each("accounts", &gs, |ck, g| {
        let n = g.ix.metas.len();
        let go = |f: &dyn Fn(&mut Vec<Meta>), what: &dyn Fn() -> String| { let mut x = g.ix.clone(); f(&mut x.metas); check(ck, &g.before, &wls, &x, "accounts", &|| format!("{}: {}", g.name, what())); };
        for i in 0..n {
            go(&|m| m.truncate(i), &|| format!("only {i} accounts"));
            go(&|m| { m.remove(i); }, &|| format!("account {i} left out"));
            go(&|m| m[i].signer = false, &|| format!("account {i} does not sign"));
            go(&|m| m[i].writable = false, &|| format!("account {i} read-only"));
            for j in 0..n {
                if j == i { continue; }
                go(&|m| m.swap(i, j), &|| format!("accounts {i} and {j} exchanged"));
                go(&|m| { let (x, y) = (i.min(j), i.max(j)); m.remove(y); m.remove(x); }, &|| format!("accounts {i} and {j} left out"));
                go(&|m| { m[i].signer = false; m[j].signer = false; }, &|| format!("accounts {i} and {j} do not sign"));
            }
        }
        // more accounts than needed, anywhere
        let mut extra: Vec<Meta> = vec![m(DEST), mw(DEST2), msw(PAYER), mw(sc.b.swig), m(sc.b.wallet), mw(sc.old.swig), mw(ts(0, &TOKEN)), m(TOKEN), m(SYSTEM), mw(g.wl.wallet), mw(g.wl.swig)];
        extra.dedup_by(|a, b| a.key == b.key);
        for e in &extra {
            // (creation does not look at the account named as the system program)
            for i in 0..=n { if i < n && g.name.starts_with("create") { continue; } go(&|m| m.insert(i, e.clone()), &|| format!("{} added at {i}", short(&e.key))); }
            for k in 2..9usize { go(&|m| for _ in 0..k { m.push(e.clone()) }, &|| format!("{} added {k} times", short(&e.key))); }
            for f in &extra { go(&|m| m.extend([e.clone(), f.clone()]), &|| format!("{} and {} added", short(&e.key), short(&f.key))); }
        }
    });
}

fn corrupt(ck: &Ck, sc: &Scene, gs: &[Genuine]) {
    let wls = sc.wls();
    let mut cases = vec![];
    for g in gs { if g.wl == sc.a || g.wl == sc.old { for i in 0..g.before.data(&g.wl.swig).len() { cases.push((g, i)); } } }
    ck.each("config", &cases, |ck, &(g, i)| {
        let at = |f: &dyn Fn(&mut Acct), what: &str| {
            let mut w = g.before.clone();
            w.edit(&g.wl.swig, |a| f(a));
            // a table with broken inner links cannot come about: only the program writes it
            let d = w.data(&g.wl.swig);
            if d.len() == g.before.data(&g.wl.swig).len() && i > 0 && Sw::parse(d).is_err() { return; }
            // roles are looked for by number, up to the counter; the next bytes tell the layouts apart
            if Sw::parse(d).is_ok_and(|s| s.roles.iter().any(|r| r.acts.iter().any(|a| a.ty == perm::SUB && (a.data[33] > 1 || a.data[34..36] != [0; 2])))) { return; }
            if (36..44).contains(&i) && d.len() > i { return; }
            check(ck, &w, &wls, &g.ix, "config", &|| format!("{}: configuration {what} at byte {i}", g.name));
        };
        at(&|a| a.data.truncate(i), "cut");
        for v in [0u8, 1, 2, 127, 128, 255] { at(&|a| a.data[i] = v, &format!("set to {v}")); }
    });
}

// ------------------------------------------------------------------ P26
pub fn p26(ck: &Ck) {
    let sc = scene(121);
    let wls = sc.wls();
    let gs = genuine(&sc);
    accepted(ck, &sc, &gs);
    p26_more(ck, &sc, &gs);
    let subs = sc.substitutes();
    let mut cases = vec![];
    for g in &gs { for i in 0..g.ix.metas.len() { for k in &subs { cases.push((g, i, *k)); } } }
    ck.each("substitution", &cases, |ck, &(g, i, k)| {
        // closing a wallet into itself is the closer's own mistake
        if le16(&g.ix.data, 0) == 15 && i == 2 && (k == g.wl.swig || k == g.wl.wallet) { return; }
        let mut x = g.ix.clone();
        let wants = x.metas[i].signer;
        x.metas[i].key = k;
        if !sc.can_sign(&k) { x.metas[i].signer = false; }
        for (s, wr) in [(x.metas[i].signer, x.metas[i].writable), (x.metas[i].signer, true), (sc.can_sign(&k), x.metas[i].writable)] {
            x.metas[i].signer = s;
            x.metas[i].writable = wr;
            check(ck, &g.before, &wls, &x, "substitution", &|| format!("{}: account {i} replaced by {} (signer {wants}->{s})", g.name, short(&k)));
        }
    });
}
fn p26_more(ck: &Ck, sc: &Scene, gs: &[Genuine]) {
    let wls = sc.wls();
    // a perfect copy of the account at an address that differs in one byte
    let mut cases = vec![];
    for g in gs { for i in 0..g.ix.metas.len() { cases.push((g, i)); } }
    ck.each("near-addresses", &cases, |ck, &(g, i)| {
        for b in 0..32 { for x in [1u8, 0x80, 0xff] {
            let mut ix = g.ix.clone();
            let old = ix.metas[i].key;
            let mut k = old;
            k[b] ^= x;
            let mut w = g.before.clone();
            // (nobody but the program can make an account it owns)
            if let Some(mut a) = w.get(&old).cloned() { if a.owner == SWIG { a.owner = R; } w.put(k, a); }
            ix.metas[i].key = k;
            for s in [ix.metas[i].signer, false] {
                ix.metas[i].signer = s;
                check(ck, &w, &wls, &ix, "near-addresses", &|| format!("{}: account {i} replaced by a copy differing in byte {b}", g.name));
            }
        } }
    });
    // two positions at once
    let related: Vec<Key> = if ck.thorough { sc.substitutes() } else {
        let b = &sc.b;
        let mut v = vec![sc.a.swig, b.swig, b.wallet, sc.a.sub1(2).0, b.sub1(1).0, sc.a.sub2_state(1).0, sc.a.sub2(1).0, b.sub2_state(0).0, b.sub2(0).0, FORGED, FORGED_STATE, FORGED_TOK, FRESH, R];
        for n in [0, 2, 4, 6, 10, 12, 90] { v.push(ts(n, &TOKEN)); }
        v.extend([ts(0, &TOKEN22), TOKEN22]);
        v
    };
    let mut cases = vec![];
    for g in gs { let n = g.ix.metas.len(); for i in 0..n { for j in i + 1..n { for k in &related { cases.push((g, i, j, *k)); } } } }
    ck.each("double-substitution", &cases, |ck, &(g, i, j, k)| {
        for l in &related {
            if le16(&g.ix.data, 0) == 15 && (i == 2 && k == g.wl.swig || j == 2 && *l == g.wl.swig || i == 2 && k == g.wl.wallet || j == 2 && *l == g.wl.wallet) { continue; }
            let mut x = g.ix.clone();
            for (p, s) in [(i, &k), (j, l)] {
                x.metas[p].key = *s;
                if !sc.can_sign(s) { x.metas[p].signer = false; }
            }
            check(ck, &g.before, &wls, &x, "double-substitution", &|| format!("{}: accounts {i}, {j} replaced by {}, {}", g.name, short(&k), short(l)));
        }
    });
    // the right addresses with other owners or contents
    let mut cases = vec![];
    for g in gs {
        for (n, x) in g.ix.metas.iter().enumerate() {
            if g.ix.metas[..n].iter().any(|y| y.key == x.key) || readonly_always(&x.key) { continue; }
            for o in [SYSTEM, R, TOKEN, TOKEN22, SWIG, STAKE] { cases.push((g, x.key, Some(o), 0usize)); }
            if x.key != g.wl.swig { for i in 0..=g.before.data(&x.key).len() { cases.push((g, x.key, None, i)); } }
            // owners that almost match
            let own = g.before.owner(&x.key);
            for i in 0..32 { for b in [1u8, 0x80] { let mut o = own; o[i] ^= b; cases.push((g, x.key, Some(o), 0)); } }
        }
    }
    ck.each("contents", &cases, |ck, &(g, k, owner, i)| {
        let at = |f: &dyn Fn(&mut Acct), what: &str| {
            let mut w = g.before.clone();
            w.edit(&k, |a| f(a));
            if w == g.before { return; }
            // only the program itself writes what it owns, and it writes no such thing
            if owner == Some(SWIG) && !w.data(&k).is_empty() && w.data(&k)[0] == 1 && k != g.wl.swig { return; }
            check(ck, &w, &wls, &g.ix, "contents", &|| format!("{}: account {}: {what}", g.name, short(&k)));
        };
        if let Some(o) = owner {
            at(&|a| a.owner = o, &format!("owned by {}", short(&o)));
            at(&|a| { a.owner = o; a.data = vec![]; }, &format!("empty, owned by {}", short(&o)));
            return;
        }
        let n = g.before.data(&k).len();
        if i == n { for l in [1usize, 8, 100] { at(&|a| a.data.resize(n + l, 0), &format!("{l} bytes longer")); } return; }
        at(&|a| a.data.truncate(i), &format!("cut at {i}"));
        // switching a sub-account on or off does not need its asset account
        if le16(&g.ix.data, 0) == 19 && (i == 2 || i >= 40) { return; }
        for v in [0u8, 1, 2, 3, 255] { at(&|a| a.data[i] = v, &format!("byte {i} set to {v}")); }
        at(&|a| a.data[i] ^= 1, &format!("byte {i} flipped"));
    });
}
