//! Reference model of limited spending: what a role may make the wallet do.
//! The inner instructions are run on the emulated chain directly (the wallet
//! address acting as an ordinary signer), and the permission records of the
//! role decide whether the outcome is admissible and what is charged.
use crate::sw::*;
use crate::vm::*;

pub type Rej = &'static str;

fn g(d: &[u8], o: usize) -> u64 { le64(d, o) }

/// fixed allowance held at offset `o`
pub fn run_limit(d: &mut [u8], o: usize, n: u64) -> Result<(), Rej> {
    let c = g(d, o);
    if n > c { return Err("limit"); }
    put64(d, o, c - n);
    Ok(())
}
/// A renewing allowance: `lim` per window of `win` slots. When the last renewal
/// is more than a window ago the allowance is full again.
pub struct Rec { lim: usize, win: usize, last: usize, cur: usize, aligned: bool }
pub fn run_rec(d: &mut [u8], f: &Rec, n: u64, slot: u64) -> Result<(), Rej> {
    let (lim, win, last) = (g(d, f.lim), g(d, f.win), g(d, f.last));
    if slot.saturating_sub(last) > win && n <= lim {
        put64(d, f.cur, lim);
        let l = if f.aligned { slot.checked_div(win).ok_or("zero window")? * win } else { slot };
        put64(d, f.last, l);
    }
    run_limit(d, f.cur, n)
}
pub const SOL_REC: Rec = Rec { lim: 0, win: 8, last: 16, cur: 24, aligned: true };
pub const TOK_REC: Rec = Rec { lim: 40, win: 32, last: 56, cur: 48, aligned: true };
pub const SOL_REC_DEST: Rec = Rec { lim: 32, win: 40, last: 48, cur: 56, aligned: false };
pub const TOK_REC_DEST: Rec = Rec { lim: 64, win: 72, last: 80, cur: 88, aligned: false };

fn find<'a>(acts: &'a mut [Act], ty: u16, key: &[u8]) -> Option<&'a mut Act> {
    acts.iter_mut().find(|a| a.ty == ty && a.data.starts_with(key))
}
pub fn find_scope<'a>(acts: &'a mut [Act], target: &Key) -> Option<&'a mut Act> {
    acts.iter_mut().find(|a| a.ty == perm::SCOPE && a.data[80..112] == *target)
}
/// The balance a scope watches; None when the account cannot hold it.
pub fn scope_balance(s: &Scope, data: &[u8]) -> Option<u128> {
    if s.start == 0 && s.end == 0 { return Some(0); }
    let (a, b) = (s.start as usize, s.end as usize);
    let w = match s.num { 0 => 1, 1 => 4, 2 => 8, 3 => 16, _ => return None };
    if a >= b || b > data.len() || b - a != w { return None; }
    let mut v = [0u8; 16];
    v[..w].copy_from_slice(&data[a..b]);
    Some(u128::from_le_bytes(v))
}
pub fn run_scope(a: &mut Act, n: u128, slot: u64) -> Result<(), Rej> {
    let s = parse_scope(&a.data);
    match s.kind {
        0 => Ok(()),
        1 | 2 => {
            let mut cur = s.cur;
            if s.kind == 2 && slot.saturating_sub(s.last) > s.win {
                cur = 0;
                let last = slot.checked_div(s.win).ok_or("zero window")? * s.win;
                put64(&mut a.data, 40, last);
            }
            let new = cur.checked_add(n).ok_or("limit")?;
            if new > s.lim { return Err("limit"); }
            a.data[..16].copy_from_slice(&new.to_le_bytes());
            Ok(())
        }
        _ => Err("scope kind"),
    }
}

pub fn curated(p: &Key) -> bool { *p == SYSTEM || *p == TOKEN || *p == TOKEN22 || *p == STAKE }

/// Transfers of the form the destination limits understand.
fn sol_moves<'a>(inner: &'a [Ix], wallet: &'a Key) -> impl Iterator<Item = (Key, u64)> + 'a {
    inner.iter().filter(move |ix| ix.prog == SYSTEM && ix.data.len() >= 12 && ix.data[..4] == [2, 0, 0, 0] && ix.metas.len() >= 2 && ix.metas[0].key == *wallet)
        .map(|ix| (ix.metas[1].key, g(&ix.data, 4)))
}
fn tok_moves<'a>(inner: &'a [Ix], src: &'a Key) -> impl Iterator<Item = (Key, u64)> + 'a {
    inner.iter().filter_map(move |ix| {
        if (ix.prog != TOKEN && ix.prog != TOKEN22) || ix.data.is_empty() { return None; }
        let (min, d) = match ix.data[0] { 3 => (9, 1), 12 => (10, 2), _ => return None };
        if ix.data.len() < min || ix.metas.len() <= d || ix.metas[0].key != *src { return None; }
        Some((ix.metas[d].key, g(&ix.data, 1)))
    })
}

/// same length, owner, and bytes outside the listed ranges
fn intact(a: &Acct, b: &Acct, except: &[(usize, usize)]) -> bool {
    a.owner == b.owner && a.data.len() == b.data.len()
        && (0..a.data.len()).all(|i| a.data[i] == b.data[i] || except.iter().any(|(x, y)| i >= *x && i < *y))
}

/// Outcome of `role` executing `inner` through the wallet, authentication
/// aside. `metas` is the outer account list (config account, wallet, ...).
pub fn expect_sign(w: &World, wl: &Wl, sw: &Sw, role: u32, inner: &[Ix], metas: &[Meta]) -> Result<(World, Sw), Rej> {
    let slot = w.slot;
    let mut out = sw.clone();
    let r = out.role_mut(role).ok_or("no such role")?;
    // inner instructions inherit the privileges of the outer account list
    let inner: Vec<Ix> = inner.iter().map(|ix| Ix {
        prog: ix.prog,
        metas: ix.metas.iter().map(|x| Meta {
            key: x.key,
            signer: x.key == wl.wallet || metas.iter().any(|y| y.key == x.key && y.signer),
            writable: metas.iter().any(|y| y.key == x.key && y.writable),
        }).collect(),
        data: ix.data.clone(),
    }).collect();
    let inner = &inner[..];
    let steps = if inner.is_empty() { vec![w.clone()] } else { exec_steps(w, inner).map_err(|_| "inner instruction fails")? };
    let end = steps.last().unwrap().clone();
    if r.has(perm::ALL) || r.has(perm::ALL_BUT) { return Ok((end, out)); }

    for ix in inner {
        if !ix.metas.iter().any(|x| x.key == wl.wallet) { continue; }
        let ok = r.has(perm::PROG_ALL) || (r.has(perm::CURATED) && curated(&ix.prog))
            || r.acts.iter().any(|a| a.ty == perm::PROGRAM && a.data == ix.prog);
        if !ok { return Err("program not permitted"); }
    }
    let writable = |k: &Key| metas.iter().any(|x| x.key == *k && x.writable) && !readonly_always(k);
    let drop = |f: &dyn Fn(&World) -> u128| -> u128 {
        let mut prev = f(w);
        let mut t = 0;
        for s in &steps { let c = f(s); if c < prev { t += prev - c; } prev = c; }
        t
    };
    // the wallet's own lamports
    if end.lam(&wl.wallet) < rent(end.data(&wl.wallet).len()) { return Err("wallet below rent"); }
    if end.owner(&wl.wallet) != SYSTEM || !end.data(&wl.wallet).is_empty() { return Err("wallet address taken over"); }
    if writable(&wl.swig) && !intact(w.get(&wl.swig).unwrap(), end.get(&wl.swig).ok_or("config gone")?, &[]) { return Err("config changed"); }
    let sol = drop(&|x| x.lam(&wl.wallet) as u128) as u64;
    if sol > 0 {
        let mut ok = false;
        if let Some(a) = find(&mut r.acts, perm::SOL, &[]) { run_limit(&mut a.data, 0, sol)?; ok = true; }
        else if let Some(a) = find(&mut r.acts, perm::SOL_REC, &[]) { run_rec(&mut a.data, &SOL_REC, sol, slot)?; ok = true; }
        if r.has(perm::SOL_DEST) || r.has(perm::SOL_REC_DEST) {
            let mut sum = 0u64;
            let mut any = false;
            for (d, n) in sol_moves(inner, &wl.wallet) {
                sum = sum.checked_add(n).ok_or("overflow")?;
                if let Some(a) = find(&mut r.acts, perm::SOL_REC_DEST, &d) { run_rec(&mut a.data, &SOL_REC_DEST, n, slot)?; }
                else if let Some(a) = find(&mut r.acts, perm::SOL_DEST, &d) { run_limit(&mut a.data, 32, n)?; }
                else { return Err("destination not permitted"); }
                any = true;
            }
            if !any || sum != sol { return Err("spending not covered by destinations"); }
            ok = true;
        }
        if !ok { return Err("no SOL permission"); }
    }
    // protected accounts, in the order they are listed
    for (i, x) in metas.iter().enumerate() {
        if i == 0 { continue; }
        let Some(a) = w.get(&x.key) else { continue };
        let k = x.key;
        let mine = |auth: &[u8]| auth == wl.swig || (auth == wl.wallet && i > 1);
        if a.owner == STAKE {
            if a.data.len() < 200 || !mine(&a.data[44..76]) { continue; }
            if le32(&a.data, 0) > 3 { return Err("stake state"); }
            if !writable(&k) { continue; }
            if i >= SNAPSHOTS { return Err("protected account too far back"); }
            let e = end.get(&k).ok_or("stake account gone")?;
            if !intact(a, e, &[(0, 4), (124, 200)]) { return Err("stake account changed"); }
            let mut spent = 0u64;
            let mut p = a;
            for s in &steps {
                let c = s.get(&k).ok_or("stake account gone")?;
                let l = p.lamports.saturating_sub(c.lamports);
                let st = if c.data.len() >= 164 && p.data.len() >= 164 { g(&c.data, 156).abs_diff(g(&p.data, 156)) } else { 0 };
                spent = spent.saturating_add(l.max(st));
                p = c;
            }
            if spent == 0 || r.has(perm::STAKE_ALL) { continue; }
            if let Some(x) = find(&mut r.acts, perm::STAKE, &[]) { run_limit(&mut x.data, 0, spent)?; }
            else if let Some(x) = find(&mut r.acts, perm::STAKE_REC, &[]) { run_rec(&mut x.data, &SOL_REC, spent, slot)?; }
            else { return Err("no stake permission"); }
        } else if a.owner == TOKEN || a.owner == TOKEN22 {
            if a.data.len() < 165 || !mine(&a.data[32..64]) { 
                if a.data.len() < 165 { scope_case(w, &steps, &end, sw, r, &k, writable(&k), i, slot)?; }
                continue;
            }
            if writable(&k) && i >= SNAPSHOTS { return Err("protected account too far back"); }
            match end.get(&k) {
                // closed: only with the permission to, and what left before counts
                None => if !r.has(perm::CLOSE) { return Err("no close permission"); },
                Some(e) if e.data.is_empty() || e.lamports == 0 => {
                    if !r.has(perm::CLOSE) || e.lamports != 0 || e.owner != SYSTEM { return Err("token account closed"); }
                }
                Some(e) => {
                    if e.data.len() < 165 { return Err("token account changed"); }
                    if writable(&k) && !intact(a, e, &[(64, 72)]) { return Err("token account changed"); }
                    if e.data[32..64] != wl.wallet { return Err("token account of another authority"); }
                    if e.data[108] != 1 { return Err("token account state"); }
                }
            }
            let spent = drop(&|x| x.get(&k).map_or(0, |a| if a.data.len() >= 72 { g(&a.data, 64) as u128 } else { 0 })) as u64;
            if !writable(&k) || spent == 0 { continue; }
            let mint: Key = a.data[..32].try_into().unwrap();
            let mut ok = false;
            if let Some(x) = find(&mut r.acts, perm::TOK, &mint) { run_limit(&mut x.data, 32, spent)?; ok = true; }
            else if let Some(x) = find(&mut r.acts, perm::TOK_REC, &mint) { run_rec(&mut x.data, &TOK_REC, spent, slot)?; ok = true; }
            if find(&mut r.acts, perm::TOK_DEST, &mint).is_some() || find(&mut r.acts, perm::TOK_REC_DEST, &mint).is_some() {
                let (mut sum, mut any) = (0u64, false);
                for (d, n) in tok_moves(inner, &k) {
                    sum = sum.checked_add(n).ok_or("overflow")?;
                    let md = [mint, d].concat();
                    if let Some(x) = find(&mut r.acts, perm::TOK_REC_DEST, &md) { run_rec(&mut x.data, &TOK_REC_DEST, n, slot)?; }
                    else if let Some(x) = find(&mut r.acts, perm::TOK_DEST, &md) { run_limit(&mut x.data, 64, n)?; }
                    else { return Err("token destination not permitted"); }
                    any = true;
                }
                if !any || sum != spent { return Err("token spending not covered by destinations"); }
                ok = true;
            }
            if !ok { return Err("no token permission"); }
        } else if a.owner == SWIG || (a.owner == SYSTEM && i == 1) {
            continue;
        } else {
            scope_case(w, &steps, &end, sw, r, &k, writable(&k), i, slot)?;
        }
    }
    Ok((end, out))
}
/// limited roles may list writable accounts of the wallet only this far
const SNAPSHOTS: usize = 100;
/// An account some role's program scope names is off limits to a limited role
/// that has no scope of its own for it.
fn scope_case(w: &World, steps: &[World], end: &World, sw: &Sw, r: &mut Role, k: &Key, writable: bool, i: usize, slot: u64) -> Result<(), Rej> {
    if !sw.roles.iter().any(|x| x.acts.iter().any(|a| a.ty == perm::SCOPE && a.data[80..112] == *k)) { return Ok(()); }
    let Some(act) = find_scope(&mut r.acts, k) else { return Err("scoped account of another role") };
    let s = parse_scope(&act.data);
    let a = w.get(k).unwrap();
    let e = end.get(k).ok_or("scoped account gone")?;
    if s.start >= s.end || s.end as usize > e.data.len() { return Err("scope range"); }
    if !writable { return Ok(()); }
    if i >= SNAPSHOTS { return Err("protected account too far back"); }
    if !intact(a, e, &[(s.start as usize, s.end as usize)]) { return Err("scoped account changed"); }
    if s.kind == 0 { return Ok(()); }
    let mut prev = scope_balance(&s, &a.data).ok_or("scope balance")?;
    let mut spent = 0u128;
    for st in steps {
        if let Some(c) = st.get(k).and_then(|a| scope_balance(&s, &a.data)) {
            if c < prev { spent += prev - c; }
            prev = c;
        }
    }
    if spent == 0 { return Ok(()); }
    run_scope(act, spent, slot)
}

/// Commits an expected configuration to an expected world (same size account).
pub fn with_sw(mut w: World, wl: &Wl, s: &Sw) -> World {
    let d = s.encode();
    if w.data(&wl.swig) != d { w.edit(&wl.swig, |a| a.data = d); }
    w
}
/// What a successful authentication leaves behind.
pub fn authed(sw: &mut Sw, role: u32, by: &By, fresh_ctr: bool) {
    if let By::Main(c) = by {
        if c.has_counter() && fresh_ctr {
            if let Some(r) = sw.role_mut(role) { let o = r.odometer(); r.set_odometer(o.wrapping_add(1)); }
        }
    }
}
/// First difference between two worlds, for messages.
pub fn diff(exp: &World, got: &World) -> Option<String> {
    if exp == got { return None; }
    for (k, a) in &exp.accts {
        match got.get(k) {
            None => return Some(format!("account {} disappeared", short(k))),
            Some(b) if b != &**a => {
                let mut s = format!("account {}:", short(k));
                if a.lamports != b.lamports { s += &format!(" lamports expected {} got {};", a.lamports, b.lamports); }
                if a.owner != b.owner { s += &format!(" owner expected {} got {};", short(&a.owner), short(&b.owner)); }
                if a.data != b.data {
                    let p = a.data.iter().zip(&b.data).position(|(x, y)| x != y);
                    s += &format!(" data differs (len {} vs {}, first at {p:?}) expected {:?} got {:?}", a.data.len(), b.data.len(), Sw::parse(&a.data), Sw::parse(&b.data));
                }
                return Some(s);
            }
            _ => {}
        }
    }
    for k in got.accts.keys() { if !exp.accts.contains_key(k) { return Some(format!("unexpected account {}", short(k))); } }
    Some("slot".into())
}
pub fn short(k: &Key) -> String { crate::mcx::hx(&k[..3]) + &crate::mcx::hx(&k[29..]) }
