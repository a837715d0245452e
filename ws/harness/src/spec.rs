//! Reference model of the whole wallet: every instruction as a function from a
//! chain state to its refusal or the one permitted successor state.
use crate::mcx::*;
use crate::model::*;
use crate::sw::*;
use crate::vm::*;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Upd { Replace(Vec<Act>), Append(Vec<Act>), ByType(Vec<u8>), ByIndex(Vec<u16>), Raw(Vec<u8>, u8) }
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Do {
    Add(Cred, Vec<Act>),
    Remove(u32),
    Up(u32, Upd),
    Replace(u32, Vec<u8>),
    Session(u64, Key),
    Claimer(Key),
    Sign(Vec<Ix>),
    S1Create,
    S1Wd(u32, u64, Option<(Key, Key, Key)>),
    S1Sign(u32, Vec<Ix>),
    S1Tog(u32, u32, bool),
    Migrate,
    Transfer(Vec<(Key, Key, Key)>),
    CloseTok(Key, Key, Vec<Key>),
    CloseSwig(Key),
    S2Create,
    S2Tog(u32, bool),
    S2Sign(u32, Vec<Ix>),
    S2Wd(u32, u64, Option<(Key, Key, Key)>),
}
impl Do {
    pub fn name(&self) -> &'static str {
        match self {
            Do::Add(..) => "add", Do::Remove(..) => "remove", Do::Up(..) => "update", Do::Replace(..) => "replace", Do::Session(..) => "session",
            Do::Claimer(..) => "claimer", Do::Sign(..) => "sign", Do::S1Create => "sub1-create", Do::S1Wd(..) => "sub1-withdraw",
            Do::S1Sign(..) => "sub1-sign", Do::S1Tog(..) => "sub1-toggle", Do::Migrate => "migrate", Do::Transfer(..) => "transfer",
            Do::CloseTok(..) => "close-token", Do::CloseSwig(..) => "close", Do::S2Create => "sub2-create", Do::S2Tog(..) => "sub2-toggle",
            Do::S2Sign(..) => "sub2-sign", Do::S2Wd(..) => "sub2-withdraw",
        }
    }
}

/// the account a credential's approval hangs on, for fixed account lists
pub fn auth_key(by: &By) -> Key {
    match by {
        By::Sess(k) => *k,
        By::Main(c) => match c.t { ED | EDS => ed_key(c.n), K1 | K1S => nk(0xAB, 1), _ => IXS },
    }
}
pub fn upd_bytes(u: &Upd) -> (Vec<u8>, u8) {
    match u {
        Upd::Replace(a) => (acts_bytes(a), a.len() as u8),
        Upd::Append(a) => { let mut v = vec![1]; v.extend(acts_bytes(a)); (v, 0) }
        Upd::ByType(t) => { let mut v = vec![2]; v.extend(t); (v, 0) }
        Upd::ByIndex(t) => { let mut v = vec![3]; for i in t { v.extend(i.to_le_bytes()); } (v, 0) }
        Upd::Raw(b, n) => (b.clone(), *n),
    }
}
/// client-supplied permission records; only kinds and lengths count
pub fn records(b: &[u8]) -> Result<Vec<Act>, Rej> {
    let (mut v, mut k) = (vec![], 0);
    while k < b.len() {
        if k + 8 > b.len() { return Err("truncated record"); }
        let l = le16(b, k + 2) as usize;
        if k + 8 + l > b.len() { return Err("truncated record"); }
        v.push(Act { ty: le16(b, k), data: b[k + 8..k + 8 + l].to_vec() });
        k += 8 + l;
    }
    Ok(v)
}
fn upd_decode(b: &[u8], n: u8) -> Result<Upd, Rej> {
    if n != 0 || b.is_empty() { return Ok(Upd::Replace(records(b)?)); }
    Ok(match b[0] {
        0 => Upd::Replace(records(&b[1..])?),
        1 => Upd::Append(records(&b[1..])?),
        2 => Upd::ByType(b[1..].to_vec()),
        3 if b.len() % 2 == 1 => Upd::ByIndex(b[1..].chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect()),
        _ => return Err("unknown update"),
    })
}
pub fn op_call(w: &World, wl: &Wl, role: u32, by: &By, op: &Do) -> Call {
    let ak = auth_key(by);
    match op {
        Do::Add(c, a) => c_add_cred(wl, role, c, a),
        Do::Remove(t) => c_remove(wl, role, *t),
        Do::Up(t, u) => { let (b, n) = upd_bytes(u); c_update(wl, role, *t, &b, n) }
        Do::Replace(t, s) => {
            let mut c = c_replace(wl, role, *t, s);
            c.metas.push(m(wl.wallet));
            c
        }
        Do::Session(d, k) => c_session(wl, role, *d, k),
        Do::Claimer(k) => c_claimer(wl, role, k),
        Do::Sign(i) => c_sign(wl, role, i),
        Do::S1Create => c_sub1_create(wl, role),
        Do::S1Wd(o, n, t) => c_sub1_withdraw(wl, role, &wl.sub1(*o).0, *n, ak, *t),
        Do::S1Sign(o, i) => c_sub1_sign(wl, role, &wl.sub1(*o).0, i),
        Do::S1Tog(t, o, e) => c_sub1_toggle(wl, role, *t, &wl.sub1(*o).0, *e as u8),
        Do::Migrate => c_migrate(wl, role, ak),
        Do::Transfer(t) => {
            let mut c = c_transfer_assets(wl, role, t);
            if !t.is_empty() { c.metas.push(m(ak)); }
            c
        }
        Do::CloseTok(d, p, t) => c_close_token(wl, role, d, p, &[m(ak)], t),
        Do::CloseSwig(d) => c_close_swig(wl, role, d),
        Do::S2Create => {
            let id = Sw::parse(w.data(&wl.swig)).map_or(0, |s| s.subctr);
            c_sub2_create(wl, role, id)
        }
        Do::S2Tog(i, e) => c_sub2_toggle(wl, role, *i, *e as u8),
        Do::S2Sign(i, x) => c_sub2_sign(wl, role, *i, x),
        Do::S2Wd(i, n, t) => c_sub2_withdraw(wl, role, *i, *n, ak, *t),
    }
}
pub fn norm_signer(t: u16, s: &[u8]) -> Option<Vec<u8>> {
    match (t, s.len()) {
        (ED | EDS, 32) | (R1 | R1S, 33) => Some(s.to_vec()),
        (K1 | K1S, 33) => Some(s.to_vec()),
        (K1 | K1S, 64) => { let mut v = vec![2 + (s[63] & 1)]; v.extend(&s[..32]); Some(v) }
        _ => None,
    }
}
/// bytes of the identity a replacement overwrites
pub fn signer_len(t: u16) -> usize { match t { ED | EDS => 32, _ => 33 } }
pub fn proof(wl: &Wl, acting: u32, target: u32, t: u16, cur: &[u8], new: &[u8]) -> Vec<u8> {
    let h = sha256(&[b"swig-replace-authority-v1", &wl.swig, &wl.wallet, &acting.to_le_bytes(), &target.to_le_bytes(), &t.to_le_bytes(), cur, new]);
    [&b"rplauth1"[..], &h].concat()
}
pub fn op_ixs(w: &World, wl: &Wl, role: u32, by: &By, op: &Do) -> Vec<Ix> {
    let mut ixs = op_call(w, wl, role, by, op).go(w, wl, role, by);
    if let (Do::Replace(t, s), By::Main(c)) = (op, by) {
        if c.t == PE && c.n >= PE_PROOF {
            if let Some(r) = Sw::parse(w.data(&wl.swig)).ok().and_then(|s| s.role(*t).cloned()) {
                if let Some(n) = norm_signer(r.aty, s) {
                    ixs[0].data = proof(wl, role, *t, r.aty, &r.auth[..signer_len(r.aty)], &n);
                    ixs[0].metas = vec![m(wl.swig), m(wl.wallet)];
                }
            }
        }
    }
    ixs
}

// ------------------------------------------------------------------ authentication
fn class(t: u16) -> u16 { t.div_ceil(2) }
pub fn main_matches(r: &Role, c: &Cred) -> bool { class(r.aty) == class(c.t) && r.auth.starts_with(&c.identity()) }
pub fn session(r: &Role) -> (Key, u64, u64) {
    let o = sess_off(r.aty);
    (r.auth[o..o + 32].try_into().unwrap(), le64(&r.auth, o + 32), le64(&r.auth, o + 40))
}
/// Checks that `by` may act for `role`; counters advance.
pub fn auth(sw: &mut Sw, role: u32, by: &By, slot: u64, opening: bool) -> Result<(), Rej> {
    let r = sw.role(role).ok_or("no such role")?;
    let ses = is_session(r.aty);
    match by {
        By::Main(c) => {
            if !main_matches(r, c) { return Err("wrong credential"); }
            if ses != opening { return Err(if ses { "session needed" } else { "no session support" }); }
        }
        By::Sess(k) => {
            if !ses || opening { return Err("session key not accepted here"); }
            let (key, _, exp) = session(r);
            if key != *k { return Err("wrong session key"); }
            if slot > exp { return Err("session over"); }
        }
    }
    authed(sw, role, by, true);
    Ok(())
}

// ------------------------------------------------------------------ permissions
pub fn valid_act(a: &Act) -> bool {
    if perm::len(a.ty) != Some(a.data.len()) { return false; }
    let g = |o: usize| le64(&a.data, o);
    match a.ty {
        perm::SOL_REC | perm::STAKE_REC => g(0) == g(24) && g(16) == 0,
        perm::TOK_REC => g(40) == g(48) && g(56) == 0,
        perm::SOL_REC_DEST => g(40) != 0 && g(56) <= g(32),
        perm::TOK_REC_DEST => g(72) != 0 && g(88) <= g(64),
        perm::SUB => a.data[..32] == [0; 32],
        _ => true,
    }
}
fn no_dup_v2(a: &[Act]) -> bool {
    let k: Vec<(u16, &[u8])> = a.iter().filter(|x| (perm::V2_CREATE..=perm::V2_TOGGLE).contains(&x.ty)).map(|x| (x.ty, x.data.get(..4).unwrap_or(&[]))).collect();
    (0..k.len()).all(|i| !k[..i].contains(&k[i]))
}
/// a permission list as a client may set it; the first `held` were there before
pub fn valid_list(a: &[Act], held: usize) -> bool { !a.is_empty() && a.len() <= 255 && a[held..].iter().all(valid_act) && no_dup_v2(a) }
fn manager(r: &Role) -> bool { r.has(perm::ALL) || r.has(perm::MANAGE) }
fn closer(r: &Role) -> bool { manager(r) || r.has(perm::CLOSE) }
fn v2_right(r: &Role, ty: u16, id: u32) -> bool { r.acts.iter().any(|a| (a.ty == ty || a.ty == perm::V2_ALL) && le32(&a.data, 0) == id) }

// ------------------------------------------------------------------ effects
fn move_lam(w: &mut World, from: &Key, to: &Key, n: u64) -> Result<(), Rej> {
    if n == 0 { return Ok(()); }
    let l = w.lam(from).checked_sub(n).ok_or("not enough lamports")?;
    w.fund(*from, l);
    let l = w.lam(to).checked_add(n).ok_or("too many lamports")?;
    w.fund(*to, l);
    Ok(())
}
thread_local! { static PAY: std::cell::Cell<Key> = const { std::cell::Cell::new(PAYER) }; }
fn payer() -> Key { PAY.with(|p| p.get()) }
/// Runs the model with another account in the payer's place.
pub fn with_payer<T>(k: &Key, f: impl FnOnce() -> T) -> T {
    PAY.with(|p| p.set(*k));
    let r = f();
    PAY.with(|p| p.set(PAYER));
    r
}
fn top_up(w: &mut World, k: &Key, n: u64) -> Result<(), Rej> { let d = n.saturating_sub(w.lam(k)); { let p = payer(); move_lam(w, &p, k, d) } }
/// Stores the configuration; the payer funds growth, gets rent back.
fn commit(w: &mut World, wl: &Wl, s: &Sw, removal: bool) -> Result<(), Rej> {
    let d = s.encode();
    let (old, new) = (w.data(&wl.swig).len(), d.len());
    if new > old { top_up(w, &wl.swig, rent(new))?; }
    if new < old {
        let freed = rent(old) - rent(new);
        let n = if removal { freed } else { freed.min(w.lam(&wl.swig).saturating_sub(rent(new))) };
        let p = payer();
        move_lam(w, &wl.swig, &p, n)?;
    }
    if w.data(&wl.swig) != d { w.edit(&wl.swig, |a| a.data = d); }
    Ok(())
}
/// Runs instructions with `me` signing on top of the outer signers.
fn inner_run(w: &World, inner: &[Ix], metas: &[Meta], me: &Key) -> Result<World, Rej> {
    let v: Vec<Ix> = inner.iter().map(|ix| Ix {
        prog: ix.prog,
        metas: ix.metas.iter().map(|x| Meta {
            key: x.key,
            signer: x.key == *me || metas.iter().any(|y| y.key == x.key && y.signer),
            writable: metas.iter().any(|y| y.key == x.key && y.writable),
        }).collect(),
        data: ix.data.clone(),
    }).collect();
    if v.is_empty() { return Ok(w.clone()); }
    Ok(exec_steps(w, &v).map_err(|_| "inner instruction fails")?.pop().unwrap())
}
fn run1(w: &World, ix: Ix) -> Result<World, Rej> { Ok(exec_steps(w, &[ix]).map_err(|_| "transfer fails")?.pop().unwrap()) }
fn sys_owned(w: &World, k: &Key) -> bool { w.owner(k) == SYSTEM }
fn sub1_act<'a>(r: &'a Role, k: &Key) -> Option<&'a Act> { r.acts.iter().find(|a| a.ty == perm::SUB && a.data[..32] == k[..]) }
pub fn sub1_rec(wl: &Wl, role: u32, enabled: bool) -> Act {
    let (k, b) = wl.sub1(role);
    Act { ty: perm::SUB, data: [&k[..], &[b, enabled as u8, 0, 0], &role.to_le_bytes(), &wl.id].concat() }
}
pub fn sub2_data(wl: &Wl, id: u32, enabled: bool) -> Vec<u8> {
    let (_, sb) = wl.sub2_state(id);
    let (ak, ab) = wl.sub2(id);
    [&[2, sb, ab, enabled as u8][..], &id.to_le_bytes(), &wl.id, &ak].concat()
}
fn is_tok(p: &Key) -> bool { *p == TOKEN || *p == TOKEN22 }

/// The transaction-wide rent rule and removal of emptied accounts.
pub fn settle(pre: &World, mut post: World, metas: &[Meta]) -> Result<World, Rej> {
    for x in metas {
        if readonly_always(&x.key) { continue; }
        if !metas.iter().any(|y| y.key == x.key && y.writable) { continue; }
        let Some(p) = post.get(&x.key) else { continue };
        if p.lamports == 0 || p.lamports >= rent(p.data.len()) { continue; }
        let ok = pre.get(&x.key).is_some_and(|o| o.lamports > 0 && o.lamports < rent(o.data.len()) && o.data.len() == p.data.len() && p.lamports <= o.lamports);
        if !ok { return Err("an account is left below its rent floor"); }
    }
    post.accts.retain(|_, a| a.lamports > 0);
    Ok(post)
}

pub fn expect(w: &World, wl: &Wl, role: u32, by: &By, op: &Do, metas: &[Meta]) -> Result<World, Rej> {
    if w.owner(&wl.swig) != SWIG { return Err("not a wallet"); }
    let mut sw = Sw::parse(w.data(&wl.swig)).map_err(|_| "not a wallet")?;
    let v2 = sw.v1.is_none();
    if let Do::Remove(0) = op { return Err("first role"); }
    if let Do::Sign(_) = op { if !v2 { return Err("not migrated"); } }
    auth(&mut sw, role, by, w.slot, matches!(op, Do::Session(..)))?;
    let me = sw.role(role).unwrap().clone();
    let mut out = w.clone();
    let need = |b: bool| if b { Ok(()) } else { Err("permission missing") };
    let mut removal = false;
    match op {
        Do::Add(c, a) => {
            need(manager(&me))?;
            if !valid_list(a, 0) { return Err("bad permission list"); }
            sw.roles.push(Role { id: sw.counter, aty: c.t, auth: c.stored(), acts: a.clone() });
            sw.counter = sw.counter.checked_add(1).ok_or("role counter")?;
        }
        Do::Remove(t) => {
            need(manager(&me) || role == *t)?;
            let p = sw.pos(*t).ok_or("no such target")?;
            sw.roles.remove(p);
            removal = true;
        }
        Do::Up(t, u) => {
            need(manager(&me))?;
            let r = sw.role_mut(*t).ok_or("no such target")?;
            let dec;
            let u = match u { Upd::Raw(b, n) => { dec = upd_decode(b, *n)?; &dec } u => u };
            let (new, held) = match u {
                Upd::Raw(..) => unreachable!(),
                Upd::Replace(a) => (a.clone(), 0),
                Upd::Append(a) => ([&r.acts[..], a].concat(), r.acts.len()),
                Upd::ByType(t) => { let v: Vec<Act> = r.acts.iter().filter(|a| !t.contains(&(a.ty as u8))).cloned().collect(); let n = v.len(); (v, n) }
                Upd::ByIndex(t) => { let v: Vec<Act> = r.acts.iter().enumerate().filter(|(i, _)| !t.contains(&(*i as u16))).map(|x| x.1.clone()).collect(); let n = v.len(); (v, n) }
            };
            if !valid_list(&new, held) { return Err("bad permission list"); }
            r.acts = new;
        }
        Do::Replace(t, s) => {
            need(manager(&me) || me.acts.iter().any(|a| a.ty == perm::REPLACE && le32(&a.data, 0) == *t))?;
            if let By::Main(c) = by { if me.aty == PE && c.n < PE_PROOF { return Err("no proof"); } }
            let r = sw.role_mut(*t).ok_or("no such target")?;
            let n = norm_signer(r.aty, s).ok_or("bad credential")?;
            let l = signer_len(r.aty);
            if r.auth[..l] == n[..] { return Err("same credential"); }
            r.auth[..l].copy_from_slice(&n);
            r.set_odometer(0);
            if is_session(r.aty) {
                let o = sess_off(r.aty);
                r.auth[o..o + 32].fill(0);
                r.auth[o + 40..o + 48].fill(0);
            }
        }
        Do::Session(d, k) => {
            let r = sw.role_mut(role).unwrap();
            let o = sess_off(r.aty);
            if *d > le64(&r.auth, o + 32) { return Err("too long"); }
            let exp = w.slot.checked_add(*d).ok_or("expiration overflows")?;
            r.auth[o..o + 32].copy_from_slice(k);
            put64(&mut r.auth, o + 40, exp);
        }
        Do::Claimer(k) => {
            need(me.has(perm::ALL) || me.has(perm::CLOSE))?;
            if *k == [0; 32] || *k == wl.swig || *k == wl.wallet { return Err("bad claimer"); }
            if sw.claimer.is_some() { return Err("claimer set already"); }
            sw.claimer = Some(*k);
        }
        Do::Sign(inner) => {
            let (end, s) = expect_sign(w, wl, &sw, role, inner, metas)?;
            return settle(w, with_sw(end, wl, &s), metas);
        }
        Do::S1Create => {
            let k = wl.sub1(role).0;
            let blank = |a: &Act| a.ty == perm::SUB && a.data[..32] == [0; 32];
            need(me.acts.iter().any(blank))?;
            if !sys_owned(w, &k) { return Err("address taken"); }
            top_up(&mut out, &k, rent(0))?;
            let a = sw.role_mut(role).unwrap().acts.iter_mut().find(|a| blank(a)).unwrap();
            *a = sub1_rec(wl, role, true);
        }
        Do::S1Wd(owner, n, tok) => {
            let k = wl.sub1(*owner).0;
            if !sys_owned(w, &k) || !sys_owned(w, &wl.wallet) { return Err("not system owned"); }
            match sub1_act(&me, &k) {
                Some(a) => {
                    if a.data[40..72] != wl.id || le32(&a.data, 36) != role { return Err("foreign record"); }
                    if a.data[33] != 1 { return Err("disabled"); }
                }
                None if me.has(perm::ALL) => if *owner >= sw.counter { return Err("no such role, ever"); },
                None if me.has(perm::MANAGE) => if *owner != role { return Err("not its own"); },
                None => return Err("permission missing"),
            }
            match tok {
                None => {
                    if *n > w.lam(&k) { return Err("more than it holds"); }
                    out = run1(&out, sys_transfer(&k, &wl.wallet, *n))?;
                }
                Some((s, d, _)) => {
                    let p = w.owner(s);
                    if w.data(d).len() < 64 || w.data(d)[32..64] != wl.wallet { return Err("destination not the wallet's"); }
                    if !is_tok(&p) || w.owner(d) != p { return Err("not a token account"); }
                    if !metas.iter().any(|x| x.key == p) { return Err("token program absent"); }
                    out = run1(&out, tok_transfer(&p, s, d, &k, *n))?;
                }
            }
        }
        Do::S1Sign(owner, inner) => {
            let k = wl.sub1(*owner).0;
            if !sys_owned(w, &k) { return Err("not system owned"); }
            let a = sub1_act(&me, &k).ok_or("permission missing")?;
            if a.data[40..72] != wl.id || le32(&a.data, 36) != role { return Err("foreign record"); }
            if a.data[33] != 1 { return Err("disabled"); }
            out = inner_run(&out, inner, metas, &k)?;
            if out.lam(&k) < rent(out.data(&k).len()) { return Err("below rent"); }
        }
        Do::S1Tog(t, owner, e) => {
            let k = wl.sub1(*owner).0;
            if !sys_owned(w, &k) { return Err("not system owned"); }
            if *t != role { need(manager(&me))?; }
            let r = sw.role_mut(*t).ok_or("no such target")?;
            let a = r.acts.iter_mut().find(|a| a.ty == perm::SUB && a.data[..32] == k[..]).ok_or("permission missing")?;
            a.data[33] = *e as u8;
        }
        Do::Migrate => {
            need(manager(&me))?;
            if v2 { return Err("migrated already"); }
            if !sys_owned(w, &wl.wallet) || !w.data(&wl.wallet).is_empty() { return Err("address taken"); }
            sw.v1 = None;
            sw.wbump = wl.wbump;
            sw.subctr = 0;
            top_up(&mut out, &wl.wallet, rent(0))?;
        }
        Do::Transfer(toks) => {
            need(manager(&me))?;
            if !v2 { return Err("not migrated"); }
            let excess = w.lam(&wl.swig).saturating_sub(rent(w.data(&wl.swig).len()));
            move_lam(&mut out, &wl.swig, &wl.wallet, excess)?;
            for (s, d, p) in toks {
                if !is_tok(p) { continue; }
                let (sd, dd) = (out.data(s).to_vec(), out.data(d).to_vec());
                if sd.len() < 72 || dd.len() < 72 || sd[32..64] != wl.swig || dd[32..64] != wl.wallet { continue; }
                let n = le64(&sd, 64);
                if n > 0 { out = run1(&out, tok_transfer(p, s, d, &wl.swig, n))?; }
            }
        }
        Do::CloseTok(dest, p, toks) => {
            need(closer(&me))?;
            if sw.claimer.is_some_and(|c| c != *dest) { return Err("not the rent claimer"); }
            if !is_tok(p) { return Err("not a token program"); }
            if toks.is_empty() { return Err("no account named"); }
            for t in toks {
                if out.owner(t) != *p { return Err("not a token account"); }
                let d = out.data(t);
                if d.len() < 72 { return Err("not a token account"); }
                let a: Key = d[32..64].try_into().unwrap();
                if a != wl.swig && a != wl.wallet { return Err("not the wallet's token account"); }
                let ix = Ix { prog: *p, metas: vec![mw(*t), mw(*dest), ms(a)], data: vec![9] };
                out = run1(&out, ix)?;
            }
        }
        Do::CloseSwig(dest) => {
            need(closer(&me))?;
            if sw.claimer.is_some_and(|c| c != *dest) { return Err("not the rent claimer"); }
            let (ls, lw) = (w.lam(&wl.swig), w.lam(&wl.wallet));
            if ls > rent(w.data(&wl.swig).len()) || lw > rent(0) { return Err("not empty"); }
            if !v2 && lw > 0 { return Err("not migrated"); }
            move_lam(&mut out, &wl.wallet, dest, lw)?;
            move_lam(&mut out, &wl.swig, dest, ls - rent(1))?;
            out.edit(&wl.swig, |a| a.data = vec![255]);
            return settle(w, out, metas);
        }
        Do::S2Create => {
            if !v2 { return Err("not migrated"); }
            need(me.has(perm::V2_CREATE))?;
            let id = sw.subctr;
            let ((st, _), (k, _)) = (wl.sub2_state(id), wl.sub2(id));
            if !sys_owned(w, &st) || !w.data(&st).is_empty() || !sys_owned(w, &k) { return Err("address taken"); }
            sw.subctr = id.checked_add(1).ok_or("counter")?;
            top_up(&mut out, &st, rent(72))?;
            out.edit(&st, |a| { a.owner = SWIG; a.data = sub2_data(wl, id, true); });
            top_up(&mut out, &k, rent(0))?;
            let r = sw.role_mut(role).unwrap();
            if !r.acts.iter().any(|a| a.ty == perm::V2_ALL && le32(&a.data, 0) == id) {
                r.acts.push(a_v2(perm::V2_ALL, id));
                if !valid_list(&r.acts, r.acts.len()) { return Err("bad permission list"); }
            }
        }
        Do::S2Tog(id, e) => {
            if !v2 { return Err("not migrated"); }
            need(v2_right(&me, perm::V2_TOGGLE, *id))?;
            s2_state(w, wl, *id)?;
            out.edit(&wl.sub2_state(*id).0, |a| a.data[3] = *e as u8);
        }
        Do::S2Sign(id, inner) => {
            if !v2 { return Err("not migrated"); }
            need(v2_right(&me, perm::V2_SIGN, *id))?;
            if !s2_state(w, wl, *id)? { return Err("disabled"); }
            let k = wl.sub2(*id).0;
            if !sys_owned(w, &k) { return Err("not system owned"); }
            out = inner_run(&out, inner, metas, &k)?;
            if out.lam(&k) < rent(out.data(&k).len()) { return Err("below rent"); }
        }
        Do::S2Wd(id, n, tok) => {
            if !v2 { return Err("not migrated"); }
            need(v2_right(&me, perm::V2_WITHDRAW, *id))?;
            if !s2_state(w, wl, *id)? { return Err("disabled"); }
            let k = wl.sub2(*id).0;
            if !sys_owned(w, &k) || !sys_owned(w, &wl.wallet) { return Err("not system owned"); }
            match tok {
                None => {
                    if *n > w.lam(&k) { return Err("more than it holds"); }
                    out = run1(&out, sys_transfer(&k, &wl.wallet, *n))?;
                }
                Some((s, d, p)) => {
                    let (sd, dd) = (w.data(s), w.data(d));
                    if !is_tok(p) || w.owner(s) != *p || w.owner(d) != *p || sd.len() < 165 || dd.len() < 165 { return Err("not token accounts"); }
                    if sd[108] != 1 || dd[108] != 1 || sd[..32] != dd[..32] || sd[32..64] != k || dd[32..64] != wl.wallet { return Err("wrong token accounts"); }
                    out = run1(&out, tok_transfer(p, s, d, &k, *n))?;
                }
            }
        }
    }
    commit(&mut out, wl, &sw, removal)?;
    settle(w, out, metas)
}
fn s2_state(w: &World, wl: &Wl, id: u32) -> Result<bool, Rej> {
    let st = wl.sub2_state(id).0;
    if w.owner(&st) != SWIG { return Err("no such sub-account"); }
    let d = w.data(&st);
    if d == sub2_data(wl, id, true) { Ok(true) } else if d == sub2_data(wl, id, false) { Ok(false) } else { Err("no such sub-account") }
}

// ------------------------------------------------------------------ comparison
#[derive(Clone)]
pub struct St { pub role: u32, pub by: By, pub op: Do, pub slots: u64 }
impl std::fmt::Debug for St {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        if self.slots > 0 { return write!(f, "slot+{}", self.slots); }
        write!(f, "role {} by {:?}: {}", self.role, self.by, short_op(&self.op))
    }
}
pub fn short_op(op: &Do) -> String {
    let s = format!("{op:?}");
    if s.len() > 300 { format!("{}{}", op.name(), &s[..s.char_indices().nth(200).map_or(s.len(), |x| x.0)]) } else { s }
}
pub fn st(role: u32, by: By, op: Do) -> St { St { role, by, op, slots: 0 } }
pub fn wait(n: u64) -> St { St { role: 0, by: By::Main(Cred { t: ED, n: 1 }), op: Do::Migrate, slots: n } }

/// Performs the operation on the real program and compares with the model.
pub fn apply(ck: Option<&Ck>, w: &World, wl: &Wl, s: &St) -> Result<Option<World>, Bad> {
    if s.slots > 0 { let mut n = w.clone(); n.slot += s.slots; return Ok(Some(n)); }
    let ixs = op_ixs(w, wl, s.role, &s.by, &s.op);
    compare(ck, w, wl, s.role, &s.by, &s.op, &ixs)
}
pub fn compare(ck: Option<&Ck>, w: &World, wl: &Wl, role: u32, by: &By, op: &Do, ixs: &[Ix]) -> Result<Option<World>, Bad> {
    let exp = expect(w, wl, role, by, op, &ixs.last().unwrap().metas);
    verdict(ck, w, exp, ixs, op.name(), &|| format!("role {role} by {by:?}: {}", short_op(op)))
}
pub fn verdict(ck: Option<&Ck>, w: &World, exp: Result<World, Rej>, ixs: &[Ix], name: &str, label: &dyn Fn() -> String) -> Result<Option<World>, Bad> {
    let got = match ck { Some(ck) => ck.exec(w, ixs), None => exec(w, ixs) };
    match (exp, got) {
        (Err(_), Err(_)) => Ok(None),
        (Ok(e), Ok(d)) => match diff(&e, &d.world) {
            None => Ok(Some(d.world)),
            Some(x) => bad(&format!("{name}:wrong-effect"), format!("{}: accepted with the wrong effect: {x}", label()), w, ixs),
        },
        (Err(r), Ok(_)) => bad(&format!("{name}:accepted:{}", r.replace(' ', "-")), format!("{}: accepted although it must be refused ({r})", label()), w, ixs),
        (Ok(_), Err(e)) => bad(&format!("{name}:refused"), format!("{}: refused ({e:?}) although it must succeed", label()), w, ixs),
    }
}
/// Histories of wallet operations.
pub struct OpM { pub wl: Wl, pub inits: Vec<World>, pub acts: Vec<St> }
impl Model for OpM {
    type S = World;
    type A = St;
    fn init(&self) -> Vec<World> { self.inits.clone() }
    fn actions(&self, _: &World) -> Vec<St> { self.acts.clone() }
    fn step(&self, w: &World, a: &St) -> Result<Option<World>, Bad> { apply(None, w, &self.wl, a) }
}
pub fn note(ck: &Ck, r: Result<Option<World>, Bad>, label: &dyn Fn() -> String) -> Option<World> {
    match r { Ok(x) => x, Err(b) => { ck.fail(&b.key, b.msg, vec![label()], b.last); None } }
}
