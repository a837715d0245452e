//! P13..P16: roles, permissions and credentials under management operations.
use crate::mcx::*;
use crate::model::Rej;
use crate::p_sign::{base, subsets, LTD, LTD2, MINT, OWNER, R};
use crate::progs::{script_data, tok};
use crate::spec::*;
use crate::sw::*;
use crate::vm::*;

pub fn cr(t: u16, n: u8) -> Cred { Cred { t, n } }
pub fn sess(n: u8) -> By { By::Sess(sess_key(n)) }
pub fn main_by(t: u16, n: u8) -> By { By::Main(cr(t, n)) }
/// how a freshly installed role of this credential acts (sessions are opened by `open`)
pub fn by_of(c: &Cred) -> By { if is_session(c.t) { sess(c.n) } else { By::Main(*c) } }
/// opens a session (as `Session` would) for a session role
pub fn open(r: &mut Role, n: u8, slot: u64) {
    if !is_session(r.aty) { return; }
    let o = sess_off(r.aty);
    r.auth[o..o + 32].copy_from_slice(&sess_key(n));
    put64(&mut r.auth, o + 40, slot + 90);
}
pub const RELOCATIONS: u8 = 6;
/// a role number of three bytes
pub const FAR: u32 = 0x1_012C;
/// The same wallet with role `id` elsewhere in the list or under another number; also its number then.
pub fn relocate(w: &World, wl: &Wl, id: u32, v: u8) -> Option<(World, u32, &'static str)> {
    let mut x = w.clone();
    let mut s = wl.sw(w);
    let at = s.roles.iter().position(|r| r.id == id)?;
    let mut role = id;
    let what = match v {
        0 => { let r = s.roles.remove(at); s.roles.insert(0, r); for (i, r) in s.roles.iter_mut().enumerate() { r.id = i as u32; } role = 0; "the role first" }
        1 => { s.roles = vec![s.roles.remove(at)]; "the role alone" }
        2 => { let mut r = s.roles.remove(at); r.id = FAR; s.roles.push(r); s.counter = FAR + 1; role = FAR; "the role as number 65836, last" }
        3 => { let mut r = s.roles.remove(at); r.id = 0; s.roles = vec![r]; s.counter = 1; role = 0; "the role as number 0, alone" }
        4 => { s.claimer = Some(nk(0xC1, 4)); "with a rent claimer" }
        _ => { x.edit(&wl.swig, |a| a.lamports += 12345); return Some((x, role, "with more lamports than needed")); }
    };
    wl.store(&mut x, &s);
    Some((x, role, what))
}
/// a fresh recurring limit after some use
pub fn used_sol_rec() -> Act { a_sol_rec_at(9, 5, 1000, 4) }
pub fn scope() -> Act { a_scope(&Scope { cur: 0, lim: 9, win: 0, last: 0, prog: R, target: nk(0x5C, 1), kind: 1, num: 2, start: 0, end: 8 }) }
/// one instance of every permission kind, as a client would set it
pub fn specimens() -> Vec<Act> {
    let mut v: Vec<Act> = vec![];
    for t in 1..=26u16 {
        v.push(match t {
            perm::SCOPE => scope(),
            perm::SOL_REC_DEST => a_sol_rec_dest(&DEST, 3, 5),
            perm::TOK_REC_DEST => a_tok_rec_dest(&MINT, &nk(0x7A, 3), 3, 5),
            perm::PROGRAM => a_program(&R),
            perm::SOL => a_sol(5),
            perm::TOK => a_tok(&MINT, 4),
            t => act(t),
        });
    }
    v
}

// ------------------------------------------------------------------ P13
pub fn p13(ck: &Ck) {
    let wl = Wl::new(21);
    let b0 = By::Main(OWNER);
    let empty = |f: &dyn Fn(&mut Sw)| {
        let mut w = base();
        let mut s = wl.install(&mut w, &[(OWNER, vec![a_all()])], rent(0) + 40);
        f(&mut s);
        wl.store(&mut w, &s);
        w
    };
    let role = |s: &mut Sw, id: u32, c: Cred, a: Vec<Act>| {
        let mut r = Role { id, aty: c.t, auth: c.stored(), acts: a };
        open(&mut r, c.n, 1000);
        s.roles.push(r);
        s.counter = s.counter.max(id + 1);
    };
    let key = nk(0xC1, 1);
    let inits = vec![
        empty(&|_| {}),
        empty(&|s| { role(s, 1, cr(ED, 3), vec![act(perm::MANAGE), used_sol_rec()]); role(s, 2, cr(K1S, 4), vec![a_sol(5), a_v2(perm::V2_ALL, 0)]); s.claimer = Some(key); }),
        empty(&|s| { role(s, 2, cr(R1, 5), vec![scope(), act(perm::SUB)]); role(s, 5, cr(PES, 6), vec![act(perm::V2_CREATE), a_tok_rec(&MINT, 4, 5)]); s.counter = 9; }),
        empty(&|s| { role(s, 1, cr(K1, 7), vec![a_all()]); role(s, 3, cr(R1S, 5), vec![act(perm::MANAGE)]); role(s, 4, cr(PE, 6), vec![a_sol(1), a_sol_dest(&DEST, 2), act(perm::PROG_ALL)]); role(s, 5, cr(EDS, 8), vec![act(perm::CLOSE)]); s.claimer = Some(key); }),
    ];
    let long = vec![scope(), a_sol(3), a_tok_rec_dest(&MINT, &nk(0x7A, 3), 3, 5), act(perm::MANAGE)];
    let mut acts = vec![
        st(0, b0, Do::Add(cr(ED, 3), vec![act(perm::MANAGE)])),
        st(0, b0, Do::Add(cr(K1S, 4), vec![a_sol(5), a_tok_dest(&MINT, &nk(0x7A, 3), 4)])),
        st(0, b0, Do::Add(cr(PES, 6), long.clone())),
        st(0, b0, Do::Add(cr(R1, 5), vec![act(perm::SUB)])),
        st(0, b0, Do::Remove(1)), st(0, b0, Do::Remove(2)), st(0, b0, Do::Remove(3)), st(0, b0, Do::Remove(5)), st(0, b0, Do::Remove(0)),
        st(0, b0, Do::Up(1, Upd::Replace(long.clone()))),
        st(0, b0, Do::Up(1, Upd::Replace(vec![act(perm::MANAGE)]))),
        st(0, b0, Do::Up(2, Upd::Append(vec![a_sol_rec(4, 5), act(perm::CURATED)]))),
        st(0, b0, Do::Up(0, Upd::Append(vec![act(perm::V2_CREATE)]))),
        st(0, b0, Do::Up(1, Upd::ByIndex(vec![0]))),
        st(0, b0, Do::Up(2, Upd::ByType(vec![perm::SOL as u8, perm::SCOPE as u8]))),
        st(0, b0, Do::Up(5, Upd::ByIndex(vec![1, 0]))),
        st(0, b0, Do::Replace(1, ed_key(9).to_vec())),
        st(0, b0, Do::Replace(2, k1_full(9).to_vec())),
        st(0, b0, Do::Replace(0, ed_key(9).to_vec())),
        st(0, main_by(ED, 9), Do::Remove(1)),
        st(0, b0, Do::Claimer(key)),
        st(1, main_by(ED, 3), Do::Add(cr(R1S, 5), vec![a_sol(1)])),
        st(1, main_by(ED, 3), Do::Remove(1)),
        st(1, main_by(ED, 3), Do::Up(0, Upd::Append(vec![a_sol(2)]))),
        st(1, main_by(K1, 7), Do::Remove(4)),
        st(1, main_by(K1, 7), Do::Up(5, Upd::Replace(long.clone()))),
        st(2, main_by(K1S, 4), Do::Session(50, sess_key(4))),
        st(2, sess(4), Do::Remove(2)),
        st(2, main_by(R1, 5), Do::S1Create),
        st(3, sess(5), Do::Up(4, Upd::ByType(vec![perm::SOL as u8]))),
        st(5, sess(6), Do::S2Create),
        st(0, b0, Do::S2Create),
        st(0, b0, Do::S1Create),
    ];
    if ck.thorough {
        acts.push(st(0, b0, Do::Up(2, Upd::ByIndex(vec![0]))));
        acts.push(st(0, b0, Do::Up(3, Upd::Append(vec![a_replace(7)]))));
        acts.push(st(0, b0, Do::Remove(4)));
        acts.push(st(4, main_by(PE, 6), Do::Remove(4)));
    }
    ck.bfs("roles", &OpM { wl, inits: inits.clone(), acts: acts.clone() }, if ck.thorough { 6 } else { 5 });
    // long add/remove histories with roles of two sizes
    let mut few = vec![
        st(0, b0, Do::Add(cr(ED, 3), vec![a_all()])),
        st(0, b0, Do::Add(cr(PES, 6), long)),
        st(0, b0, Do::Up(2, Upd::Append(vec![a_sol(4)]))),
        st(0, b0, Do::Up(2, Upd::ByIndex(vec![0]))),
    ];
    for i in 1..9 { few.push(st(0, b0, Do::Remove(i))); }
    ck.bfs("add-remove", &OpM { wl, inits: inits[..2].to_vec(), acts: few }, if ck.thorough { 10 } else { 8 });
    // every ordered triple of credential kinds, every role removed or resized, then one more added
    let lists = [vec![a_all()], vec![a_sol(5), scope()], vec![a_tok(&MINT, 4), used_sol_rec(), act(perm::CLOSE)]];
    let mut cases = vec![];
    for a in AUTH_TYPES { for b in AUTH_TYPES { for c in AUTH_TYPES { for cl in [false, true] { for op in 0..6u32 { cases.push((a, b, c, cl, op)); } } } } }
    ck.each("credential-triples", &cases, |ck, &(a, b, c, cl, op)| {
        let w = empty(&|s| {
            role(s, 1, cr(a, 11), lists[0].clone());
            role(s, 3, cr(b, 12), lists[1].clone());
            role(s, 4, cr(c, 13), lists[2].clone());
            if cl { s.claimer = Some(key); }
        });
        let first = match op {
            0 => Do::Remove(1), 1 => Do::Remove(3), 2 => Do::Remove(4),
            3 => Do::Up(3, Upd::Append(vec![a_sol_rec(4, 5)])), 4 => Do::Up(1, Upd::Replace(vec![a_all(), scope()])), _ => Do::Up(4, Upd::ByIndex(vec![1])),
        };
        let s = st(0, b0, first);
        let l = || format!("{a} {b} {c} {cl} {s:?}");
        let Some(w) = note(ck, apply(Some(ck), &w, &wl, &s), &l) else { return };
        for t in AUTH_TYPES { note(ck, apply(Some(ck), &w, &wl, &st(0, b0, Do::Add(cr(t, 14), vec![a_sol(1), scope()]))), &l); }
        // every remaining role can still act
        for r in wl.sw(&w).roles { if r.id > 0 { let n = [0, 11, 0, 12, 13][r.id as usize]; note(ck, apply(Some(ck), &w, &wl, &st(r.id, by_of(&cr(r.aty, n)), Do::Remove(r.id))), &l); } }
    });
    // counter boundaries
    let mut cases = vec![];
    for ctr in [1u32, 2, 254, 255, 256, 65534, 65535, 65536, 70000] { for t in AUTH_TYPES { cases.push((ctr, t)); } }
    ck.each("role-counter", &cases, |ck, &(ctr, t)| {
        let w = empty(&|s| s.counter = ctr);
        let l = || format!("counter {ctr} add kind {t}");
        let Some(w) = note(ck, apply(Some(ck), &w, &wl, &st(0, b0, Do::Add(cr(t, 5), vec![a_all()]))), &l) else { return };
        note(ck, apply(Some(ck), &w, &wl, &st(0, b0, Do::Remove(ctr))), &l);
        note(ck, apply(Some(ck), &w, &wl, &st(0, b0, Do::Add(cr(ED, 6), vec![a_sol(1)]))), &l);
    });
    // permission lists of every length in one Add, every credential kind
    let mut cases = vec![];
    for n in (0usize..=40).chain([63, 64, 65, 127, 128, 129, 200, 253, 254, 255, 256, 257, 300]) { for t in [ED, K1S, PES] { for k in 0..3 { cases.push((n, t, k)); } } }
    ck.each("list-lengths", &cases, |ck, &(n, t, k)| {
        let a = if n > 40 && k > 0 { return } else { match k { 0 => act(perm::STAKE_ALL), 1 => a_sol(4), _ => scope() } };
        for w in &inits[..2] {
            let l = || format!("{n} permissions for kind {t}");
            let Some(x) = note(ck, apply(Some(ck), w, &wl, &st(0, b0, Do::Add(cr(t, 14), vec![a.clone(); n]))), &l) else { continue };
            let Some(x) = note(ck, apply(Some(ck), &x, &wl, &st(0, b0, Do::Add(cr(ED, 15), vec![a_all()]))), &l) else { continue };
            let id = wl.sw(w).counter;
            note(ck, apply(Some(ck), &x, &wl, &st(0, b0, Do::Remove(id))), &l);
            note(ck, apply(Some(ck), &x, &wl, &st(id + 1, main_by(ED, 15), Do::Remove(id + 1))), &l);
        }
    });
    numbered_rights(ck);
    record_contents(ck);
    in_big_stores(ck, &wl, &|r| vec![Do::Remove(r.id), Do::Add(cr(PE, 14), vec![a_sol(1)]), Do::Add(cr(K1S, 15), vec![act(perm::CLOSE); 255])]);
    // many roles
    let n = if ck.thorough { 140 } else { 60 };
    ck.each("many-roles", &[0u8, 1, 2], |ck, k| {
        let mut w = empty(&|s| if *k == 1 { s.claimer = Some(key) });
        let l = || format!("many roles, variant {k}");
        let mut step = |op: Do| { if let Some(x) = note(ck, apply(Some(ck), &w, &wl, &st(0, b0, op)), &l) { w = x; } };
        for i in 0..n as u32 {
            step(Do::Add(cr(AUTH_TYPES[(i as usize * (1 + *k as usize)) % 8], 30 + (i % 9) as u8), if i % 3 == 0 { vec![a_sol(1)] } else { vec![scope(), a_all()] }));
            if i % 4 == 3 { step(Do::Remove(i - 2)); }
            if i % 5 == 4 { step(Do::Up(i, Upd::Append(vec![a_sol(7)]))); step(Do::Up(i - 1, Upd::ByIndex(vec![1]))); }
        }
    });
}

/// Wallets with many or large roles: long permission lists, boundaries beyond
/// 16 bits, role identifiers beyond 8 and 16 bits. The second role manages;
/// every other role holds a few kinds of permission many times over.
pub fn big_shapes() -> Vec<(String, Vec<(u32, Cred, Vec<Act>)>, bool)> {
    let fill = |n: usize, k: usize| -> Vec<Act> {
        (0..n).map(|i| match k { 0 => act(perm::STAKE_ALL), 1 => scope(), 2 => a_program(&nk(0x90, i as u8)), _ => a_tok_rec_dest(&nk(0x91, i as u8), &DEST, 3, 5) }).collect()
    };
    let mut shapes: Vec<(String, Vec<(u32, Cred, Vec<Act>)>, bool)> = vec![];
    for n in [15usize, 16, 31, 32, 33, 63, 64, 127, 128, 129, 254, 255] { for k in 0..3 {
        shapes.push((format!("{n} permissions of shape {k}"), vec![(2, cr(ED, 61), fill(n, k)), (3, cr(K1S, 62), vec![a_sol(4), act(perm::CLOSE)])], n % 2 == 0));
    } }
    for (a, b) in [(255usize, 255usize), (255, 180), (180, 255), (215, 216)] {
        shapes.push((format!("{a} and {b} scopes"), vec![(2, cr(PES, 61), fill(a, 1)), (3, cr(R1, 62), fill(b, 1)), (4, cr(ED, 63), vec![a_sol(4), act(perm::CLOSE)]), (7, cr(EDS, 64), vec![a_sol(5)])], a == b));
    }
    for top in [254u32, 255, 256, 257, 511, 512, 65534, 65535, 65536, 65537, 65791, 131_071, (1 << 20) + 1] {
        shapes.push((format!("roles around {top}"), vec![(2, cr(R1S, 60), vec![a_sol(3)]), (top, cr(ED, 61), vec![a_sol(4), scope()]), (top + 1, cr(K1, 62), vec![act(perm::MANAGE), used_sol_rec()])], top % 2 == 0));
    }
    for n in [100u32, 254, 255, 256, 257, 300] {
        shapes.push((format!("{n} roles"), (2..n).map(|i| (i, cr(AUTH_TYPES[i as usize % 8], 60 + (i % 5) as u8), if i % 3 == 0 { vec![a_sol(1)] } else { vec![act(perm::CLOSE), a_tok(&MINT, i as u64)] })).collect(), n % 2 == 0));
    }
    shapes
}
pub fn big_stores(wl: &Wl) -> Vec<(String, World)> {
    big_shapes().into_iter().map(|(l, roles, cl)| {
        let mut w = base();
        let mut s = wl.install(&mut w, &[(OWNER, vec![a_all()]), (LTD, vec![act(perm::MANAGE), a_sol(2)])], rent(0) + 40);
        for (id, c, a) in roles {
            let mut r = Role { id, aty: c.t, auth: c.stored(), acts: a };
            open(&mut r, c.n, 1000);
            s.counter = id + 1;
            s.roles.push(r);
        }
        if cl { s.claimer = Some(nk(0xC1, 1)); }
        wl.store(&mut w, &s);
        (l, w)
    }).collect()
}
/// the roles of such a wallet worth operating on
pub fn big_targets(s: &Sw) -> Vec<u32> {
    let n = s.roles.len();
    let mut v: Vec<usize> = vec![1, 2, 3, 4, n / 2, n - 3, n - 2, n - 1].into_iter().filter(|i| (1..n).contains(i)).collect();
    v.sort();
    v.dedup();
    v.into_iter().map(|i| s.roles[i].id).collect()
}
/// every case in `big_stores`, with the operations `ops` gives for each target
pub fn in_big_stores(ck: &Ck, wl: &Wl, ops: &(dyn Fn(&Role) -> Vec<Do> + Sync)) {
    let mut cases = vec![];
    for (l, w) in big_stores(wl) { for t in big_targets(&wl.sw(&w)) { cases.push((l.clone(), w.clone(), t)); } }
    ck.each("large-stores", &cases, |ck, (l, w, t)| {
        let r = wl.sw(w).role(*t).unwrap().clone();
        for op in ops(&r) {
            let label = || format!("{l}: {}", short_op(&op));
            for (role, by) in [(0, By::Main(OWNER)), (1, By::Main(LTD))] { if let Some(x) = note(ck, apply(Some(ck), w, wl, &st(role, by, op.clone())), &label) {
                if role == 0 && matches!(op, Do::Remove(_) | Do::Add(..)) { note(ck, apply(Some(ck), &x, wl, &st(0, by, Do::Add(cr(R1, 66), vec![a_sol(9), scope()]))), &label); }
            } }
        }
        // the role itself acts
        let n = (0..90u8).find(|n| r.auth.starts_with(&cr(r.aty, *n).identity())).unwrap();
        for op in [Do::Add(cr(ED, 3), vec![a_sol(1)]), Do::Remove(*t), Do::Remove(0x7fff_0000)] {
            note(ck, apply(Some(ck), w, wl, &st(*t, by_of(&cr(r.aty, n)), op.clone())), &|| format!("{l}: role {t} itself: {}", short_op(&op)));
        }
    });
}

// ------------------------------------------------------------------ P14
pub const STO: Key = nk(0x7B, 1);
/// A wallet whose role 1 has the permissions under test; everything an
/// operation could need exists.
pub fn rich(wl: &Wl, acting: Cred, acts: &[Act], v2: bool) -> World { rich_at(wl, acting, acts, v2, 1, 3) }
/// the acting role at position `at` of `n` roles
pub fn rich_at(wl: &Wl, acting: Cred, acts: &[Act], v2: bool, at: usize, n: usize) -> World {
    let mut w = base();
    let mut roles = vec![(OWNER, vec![a_all()]), (cr(K1, 70), vec![a_all()]), (LTD2, vec![a_sol(5), sub1_rec(wl, 2, true), act(perm::PROG_ALL)]), (cr(R1, 71), vec![act(perm::MANAGE)])];
    roles.truncate(n);
    roles[at] = (acting, acts.to_vec());
    let mut s = wl.install(&mut w, &roles, rent(0));
    open(&mut s.roles[at], acting.n, w.slot);
    s.subctr = 2;
    if !v2 { s.wbump = 0; s.subctr = 0; { w.accts.remove(&wl.wallet); }; }
    wl.store(&mut w, &s);
    for r in [1, 2] { w.fund(wl.sub1(r).0, rent(0) + 30); }
    for i in [0, 1] {
        w.put(wl.sub2_state(i).0, Acct { lamports: rent(72), owner: SWIG, exec: false, data: sub2_data(wl, i, true) });
        w.fund(wl.sub2(i).0, rent(0) + 30);
    }
    let h = if v2 { wl.wallet } else { wl.swig };
    w.put(MINT, tok::mint_acct(TOKEN, PAYER, 100));
    w.put(STO, tok::acct(TOKEN, &tok::new(MINT, h, 0)));
    // token accounts of the wallet, of the sub-accounts and, when not migrated, of the configuration account
    for (i, k) in [wl.wallet, wl.sub1(1).0, wl.sub1(2).0, wl.sub2(0).0, wl.sub2(1).0, wl.swig].into_iter().enumerate() { w.put(held(i as u8), tok::acct(TOKEN, &tok::new(MINT, k, if i == 0 { 0 } else { 9 }))); }
    w
}
fn held(i: u8) -> Key { nk(0xF1, i) }
pub fn ops_for(wl: &Wl) -> Vec<Do> {
    let pay = |k: Key| vec![sys_transfer(&k, &DEST, 1)];
    let noop = Ix { prog: R, metas: vec![m(wl.wallet)], data: script_data(&[]) };
    let mut v = vec![Do::Add(cr(ED, 9), vec![a_sol(1)]), Do::Claimer(nk(0xC1, 1)), Do::Session(5, sess_key(9)), Do::Sign(vec![]), Do::Sign(vec![noop]),
        Do::S1Create, Do::Migrate, Do::Transfer(vec![]), Do::CloseTok(DEST, TOKEN, vec![STO]), Do::CloseSwig(DEST), Do::S2Create];
    // credentials of other kinds, with permissions of every reach
    v.extend([Do::Add(cr(K1S, 9), vec![a_all()]), Do::Add(cr(R1, 9), vec![act(perm::MANAGE)]), Do::Add(cr(PE, 9), vec![act(perm::ALL_BUT), a_v2(perm::V2_ALL, 0)])]);
    v.extend([Do::Transfer(vec![(held(5), held(0), TOKEN)]), Do::CloseTok(DEST2, TOKEN, vec![STO, held(0)])]);
    for t in 0..4 { v.extend([Do::Remove(t), Do::Up(t, Upd::Append(vec![a_sol(1)])), Do::Replace(t, ed_key(9).to_vec())]); }
    for t in 0..4 { v.extend([Do::Up(t, Upd::Replace(vec![a_all()])), Do::Up(t, Upd::Append(vec![act(perm::CLOSE), a_v2(perm::V2_SIGN, 7)])), Do::Up(t, Upd::ByType(vec![perm::SOL as u8])), Do::Up(t, Upd::ByType(vec![perm::ALL as u8, perm::MANAGE as u8, perm::PROG_ALL as u8])), Do::Up(t, Upd::ByIndex(vec![0])), Do::Up(t, Upd::ByIndex(vec![1, 2]))]); }
    for t in [1, 2] { v.push(Do::S1Wd(t, 2, Some((held(t as u8), held(0), TOKEN)))); }
    for i in 0..2 { v.push(Do::S2Wd(i, 2, Some((held(3 + i as u8), held(0), TOKEN)))); }
    for t in [1, 2] { v.extend([Do::S1Wd(t, 1, None), Do::S1Sign(t, pay(wl.sub1(t).0)), Do::S1Tog(t, 1, false), Do::S1Tog(t, 2, false)]); }
    for i in 0..3 { v.extend([Do::S2Tog(i, false), Do::S2Sign(i, pay(wl.sub2(i).0)), Do::S2Wd(i, 1, None)]); }
    v
}
pub fn variants(wl: &Wl) -> Vec<Act> {
    let mut v: Vec<Act> = specimens().into_iter().filter(|a| ![perm::REPLACE, perm::V2_ALL, perm::V2_SIGN, perm::V2_WITHDRAW, perm::V2_TOGGLE].contains(&a.ty)).collect();
    for t in 0..4 { v.push(a_replace(t)); }
    for t in [perm::V2_ALL, perm::V2_SIGN, perm::V2_WITHDRAW, perm::V2_TOGGLE] { for i in [0, 1, 256] { v.push(a_v2(t, i)); } }
    v.extend([sub1_rec(wl, 1, true), sub1_rec(wl, 1, false), sub1_rec(wl, 2, true), used_sol_rec()]);
    v
}
pub fn p14(ck: &Ck) {
    let wl = Wl::new(22);
    let vs = variants(&wl);
    let ops = ops_for(&wl);
    let mut lists: Vec<Vec<Act>> = vs.iter().map(|a| vec![a.clone()]).collect();
    for a in &vs { for b in &vs { if a != b { lists.push(vec![a.clone(), b.clone()]); } } }
    if ck.thorough { for i in 0..vs.len() { for j in 0..i { for k in 0..j { lists.push(vec![vs[k].clone(), vs[i].clone(), vs[j].clone()]); } } } }
    let dup = |l: &Vec<Act>| !valid_list(l, l.len());
    lists.retain(|l| !dup(l));
    ck.each("permission-lists", &lists, |ck, l| {
        for v2 in [true, false] {
            let w = rich(&wl, LTD, l, v2);
            for op in &ops {
                if !v2 && matches!(op, Do::Sign(_)) { continue; }
                note(ck, apply(Some(ck), &w, &wl, &st(1, By::Main(LTD), op.clone())), &|| format!("permissions {:?} migrated {v2} {}", kinds(l), short_op(op)));
            }
        }
    });
    // the other credential kinds
    let mut cases = vec![];
    for t in AUTH_TYPES { for a in &vs { cases.push((cr(t, 44), a.clone())); } }
    ck.each("credential-kinds", &cases, |ck, (c, a)| {
        for v2 in [true, false] {
            let w = rich(&wl, *c, &[a.clone()], v2);
            for op in &ops {
                if !v2 && matches!(op, Do::Sign(_)) { continue; }
                let by = if matches!(op, Do::Session(..)) { By::Main(*c) } else { by_of(c) };
                note(ck, apply(Some(ck), &w, &wl, &st(1, by, op.clone())), &|| format!("{c:?} with {:?} migrated {v2} {}", kinds(&[a.clone()]), short_op(op)));
            }
        }
    });
    // the permission at every position behind records of every size
    let pads = [vec![a_sol(1)], vec![scope()], vec![a_tok_rec_dest(&MINT, &STO, 1, 1), a_sol(1)], vec![scope(), a_sol(2), used_sol_rec(), act(perm::CURATED)], vec![act(perm::STAKE_ALL); 9]];
    let mut cases = vec![];
    for p in &pads { for a in &vs { for at in 0..=p.len() { let mut l = p.clone(); l.insert(at, a.clone()); cases.push(l); } } }
    ck.each("positions", &cases, |ck, l| {
        let w = rich(&wl, LTD, l, true);
        for op in &ops { note(ck, apply(Some(ck), &w, &wl, &st(1, By::Main(LTD), op.clone())), &|| format!("permissions {:?} {}", kinds(l), short_op(op))); }
    });
    // the acting role first, in the middle and last of one to four roles
    let mut cases = vec![];
    for (at, n) in [(0usize, 1usize), (0, 2), (1, 2), (0, 3), (2, 3), (1, 4), (3, 4)] { for a in &vs { for b in 0..3 { cases.push((at, n, match b { 0 => vec![a.clone()], 1 => vec![a_sol(2), a.clone()], _ => vec![a.clone(), act(perm::STAKE_ALL)] })); } } }
    cases.retain(|c| !dup(&c.2));
    ck.each("acting-position", &cases, |ck, (at, n, l)| {
        for v2 in [true, false] {
            let w = rich_at(&wl, LTD, l, v2, *at, *n);
            for op in &ops {
                if !v2 && matches!(op, Do::Sign(_)) { continue; }
                note(ck, apply(Some(ck), &w, &wl, &st(*at as u32, By::Main(LTD), op.clone())), &|| format!("role {at} of {n}, permissions {:?} migrated {v2} {}", kinds(l), short_op(op)));
            }
        }
    });
    // permissions that name almost the target: every single bit of the number
    let mut cases = vec![];
    for k in 0..32 { for t in 0..4u32 { cases.push(vec![a_replace(t ^ (1 << k))]); cases.push(vec![a_replace(t ^ (1 << k)), scope(), a_replace(t)]); } for t in [perm::V2_ALL, perm::V2_SIGN, perm::V2_WITHDRAW, perm::V2_TOGGLE] { for i in 0..2u32 { cases.push(vec![a_v2(t, i ^ (1 << k))]); cases.push(vec![a_v2(t, i ^ (1 << k)), a_sol(1), a_v2(t, i)]); } } }
    ck.each("named-targets", &cases, |ck, l| {
        let w = rich(&wl, LTD, l, true);
        for op in &ops { note(ck, apply(Some(ck), &w, &wl, &st(1, By::Main(LTD), op.clone())), &|| format!("permissions {l:?} {}", short_op(op))); }
    });
    // roles whose numbers differ in a single bit: what one of them may be done to says nothing about the other
    numbered_targets(ck);
    // a missing acting role; roles acting with each other's credentials
    let mut cases = vec![];
    for role in [0u32, 1, 2, 3, 255, 256, 65536, u32::MAX] { for c in [OWNER, LTD, LTD2, cr(ED, 9)] { cases.push((role, c)); } }
    ck.each("acting-role", &cases, |ck, &(role, c)| {
        for l in [vec![a_all()], vec![act(perm::MANAGE)], vec![a_sol(3)]] {
            let w = rich(&wl, LTD, &l, true);
            for op in &ops { note(ck, apply(Some(ck), &w, &wl, &st(role, By::Main(c), op.clone())), &|| format!("role {role} by {c:?}, {}", short_op(op))); }
        }
    });
}
/// Two roles with numbers differing in one bit, and a third that may replace one of them, or either, or neither.
pub fn numbered_targets(ck: &Ck) {
    let wl = Wl::new(29);
    let mut cases = vec![];
    for bit in 0..if ck.thorough { 22 } else { 20 } { for t in [8u32, 8 | 1 << 16] { for k in 0..6u8 { for kind in [ED, K1, R1S] { cases.push((bit, t, k, kind)); } } } }
    ck.each("numbered-targets", &cases, |ck, &(bit, t, k, kind)| {
        let (a, b) = (t, t ^ 1 << bit);
        let acts = match k { 0 => vec![a_replace(a)], 1 => vec![a_replace(b)], 2 => vec![a_replace(b), a_replace(a)], 3 => vec![act(perm::MANAGE)], 4 => vec![a_sol(1)], _ => vec![a_replace(a), a_sol(1), a_replace(1)] };
        let mut w = base();
        let mut s = wl.install(&mut w, &[(OWNER, vec![a_all()]), (cr(kind, 9), acts)], rent(0) + 5);
        let slot = w.slot;
        open(&mut s.roles[1], 9, slot);
        let mut ids = vec![a, b];
        ids.sort();
        for (i, id) in ids.iter().enumerate() { if *id > 1 { s.roles.push(Role { id: *id, aty: ED, auth: cr(ED, 20 + i as u8).stored(), acts: vec![a_sol(3 + i as u64)] }); } }
        s.counter = ids[1].max(1) + 1;
        wl.store(&mut w, &s);
        for x in [a, b] { for op in [Do::Replace(x, ed_key(50).to_vec()), Do::Remove(x), Do::Up(x, Upd::Append(vec![a_tok(&MINT, 1)])), Do::Up(x, Upd::Replace(vec![a_sol(9)]))] {
            note(ck, apply(Some(ck), &w, &wl, &st(1, by_of(&cr(kind, 9)), op.clone())), &|| format!("numbers {a} and {b}, list {k}, kind {kind}: {}", short_op(&op)));
        } }
    });
}
/// Lists of two to 255 rights in which two rights on numbered sub-accounts stand at any two places, the same or differing in kind or number.
pub fn numbered_lists(deep: bool) -> Vec<Vec<Act>> {
    let v2s = [act(perm::V2_CREATE), a_v2(perm::V2_ALL, 0), a_v2(perm::V2_SIGN, 0), a_v2(perm::V2_SIGN, 1), a_v2(perm::V2_WITHDRAW, 256), a_v2(perm::V2_TOGGLE, 1 << 24), a_v2(perm::V2_TOGGLE, u32::MAX)];
    let mut v = vec![];
    for (x, a) in v2s.iter().enumerate() { for (y, b) in v2s.iter().enumerate() {
        for len in 2..=if deep { 6 } else { 5 } { for i in 0..len { for j in i + 1..len { for fill in 0..2 {
            v.push((0..len).map(|p| if p == i { a.clone() } else if p == j { b.clone() } else if fill == 0 { a_sol(p as u64) } else { a_v2(perm::V2_SIGN, 70 + p as u32) }).collect::<Vec<_>>());
            if len == 2 { break; }
        } } } }
        if x == y || x + 1 == y { for (len, i, j) in [(9, 0, 8), (16, 14, 15), (17, 0, 16), (33, 5, 32), (65, 1, 64), (129, 127, 128), (254, 0, 253), (255, 0, 254), (255, 253, 254), (255, 100, 101)] { for fill in 0..2 {
            v.push((0..len).map(|p| if p == i { a.clone() } else if p == j { b.clone() } else if fill == 0 { act(perm::CLOSE) } else { a_v2(perm::V2_WITHDRAW, 700 + p as u32) }).collect());
        } } }
    } }
    // an account grows by 10240 bytes at most in one instruction
    v.retain(|l: &Vec<Act>| acts_bytes(l).len() <= 9000);
    v
}
pub fn numbered_rights(ck: &Ck) {
    let wl = Wl::new(30);
    let lists = numbered_lists(ck.thorough);
    ck.each("numbered-lists", &lists, |ck, l| {
        let mut w = base();
        let s = wl.install(&mut w, &[(OWNER, vec![a_all()]), (cr(R1, 5), vec![a_sol(5)])], rent(0) + 40);
        wl.store(&mut w, &s);
        let t = AUTH_TYPES[l.len() % 8];
        for op in [Do::Add(cr(t, 77), l.clone()), Do::Up(1, Upd::Replace(l.clone())), Do::Up(1, Upd::Append(l.clone()))] {
            note(ck, apply(Some(ck), &w, &wl, &st(0, By::Main(OWNER), op.clone())), &|| format!("{} rights, numbered {:?}: {}", l.len(), kinds(&l.iter().filter(|a| a.ty >= perm::V2_CREATE.min(perm::V2_ALL)).take(6).cloned().collect::<Vec<_>>()), op.name()));
        }
    });
}
/// Permission records of every kind with every combination of equal, different, zero and extreme fields: only well-formed ones are stored.
pub fn record_contents(ck: &Ck) {
    let wl = Wl::new(31);
    let mut cases = vec![];
    for ty in 0..=27u16 {
        let n = perm::len(ty).unwrap_or(8);
        let mut v: Vec<Vec<u8>> = if n == 0 { vec![vec![]] } else { crate::p_lib::layouts(ty, n) };
        if !ck.thorough && v.len() > 6000 { v = v.into_iter().step_by(7).collect(); }
        for data in v { cases.push(Act { ty, data }); }
    }
    let mut w = base();
    let s = wl.install(&mut w, &[(OWNER, vec![a_all()]), (cr(R1, 5), vec![a_sol(5)])], rent(0) + 40);
    wl.store(&mut w, &s);
    ck.each("record-contents", &cases, |ck, a| {
        let ops = [Do::Add(cr(ED, 77), vec![a.clone()]), Do::Up(1, Upd::Replace(vec![a_sol(1), a.clone()])), Do::Up(1, Upd::Append(vec![a.clone(), act(perm::CLOSE)]))];
        for op in ops { note(ck, apply(Some(ck), &w, &wl, &st(0, By::Main(OWNER), op.clone())), &|| format!("kind {} contents {}: {}", a.ty, hx(&a.data), op.name())); }
    });
}
pub fn kinds(l: &[Act]) -> Vec<String> { l.iter().map(|a| format!("{}({})", a.ty, hx(&a.data[..a.data.len().min(34)]).trim_end_matches("00"))).collect() }

// ------------------------------------------------------------------ P15
pub fn p15(ck: &Ck) {
    let wl = Wl::new(23);
    let b0 = By::Main(OWNER);
    let key = nk(0xC1, 2);
    // three roles; the one at `at` holds `acts`
    let world = |at: usize, acts: &[Act], cl: bool, extra: u64| {
        let mut w = base();
        let other = [vec![a_all()], vec![act(perm::MANAGE), scope()], vec![a_sol(5)]];
        let mut v: Vec<(Cred, Vec<Act>)> = vec![(OWNER, other[0].clone()), (cr(K1S, 4), other[1].clone()), (cr(R1, 5), other[2].clone())];
        v[at].1 = acts.to_vec();
        if at == 0 { v[0].1.push(a_all()); }
        let mut s = wl.install(&mut w, &v, rent(0) + 40);
        if cl { s.claimer = Some(key); }
        wl.store(&mut w, &s);
        let l = w.lam(&wl.swig);
        w.fund(wl.swig, l + extra);
        w
    };
    let run = |ck: &Ck, w: &World, op: &Do, l: &dyn Fn() -> String| { note(ck, apply(Some(ck), w, &wl, &st(0, b0, op.clone())), l) };
    let rec = |ty: u16, n: usize| Act { ty, data: vec![0; n] };
    // held lists: may carry state a client could not set
    let held: Vec<Act> = vec![a_sol(5), used_sol_rec(), sub1_rec(&wl, 1, true), act(perm::CLOSE), a_v2(perm::V2_ALL, 0), a_v2(perm::V2_SIGN, 1), scope()];
    let mut hl: Vec<Vec<Act>> = vec![];
    for a in &held { hl.push(vec![a.clone()]); for b in &held { hl.push(vec![a.clone(), b.clone()]); if ck.thorough { for c in &held { hl.push(vec![a.clone(), b.clone(), c.clone()]); } } } }
    if !ck.thorough { for i in 0..held.len() { for j in 0..i { for k in 0..j { hl.push(vec![held[i].clone(), held[k].clone(), held[j].clone()]); } } } }
    hl.retain(|l| valid_list(l, l.len()));
    let mut new: Vec<Act> = vec![a_sol(7), a_sol_rec(4, 5), used_sol_rec(), act(perm::SUB), sub1_rec(&wl, 1, true), a_all(), a_v2(perm::V2_ALL, 0), a_v2(perm::V2_ALL, 1), a_v2(perm::V2_SIGN, 1), a_v2(perm::V2_TOGGLE, 0),
        scope(), a_sol_rec_dest(&DEST, 3, 0), a_tok_rec_dest(&MINT, &STO, 3, 5), rec(perm::SOL, 7), rec(perm::ALL, 8), rec(0, 0), rec(27, 0)];
    let mut ups = vec![Upd::Replace(vec![]), Upd::Append(vec![]), Upd::ByType(vec![]), Upd::ByIndex(vec![])];
    for a in &new { ups.push(Upd::Replace(vec![a.clone()])); ups.push(Upd::Append(vec![a.clone()])); }
    new.truncate(if ck.thorough { 99 } else { 15 });
    for a in &new { for b in &new { ups.push(Upd::Replace(vec![a.clone(), b.clone()])); ups.push(Upd::Append(vec![a.clone(), b.clone()])); } }
    let ty: Vec<u8> = vec![perm::SOL as u8, perm::SOL_REC as u8, perm::SUB as u8, perm::CLOSE as u8, perm::V2_ALL as u8, perm::V2_SIGN as u8, perm::ALL as u8, 0];
    for s in subsets(&ty) { if s.len() <= 3 && !s.is_empty() { ups.push(Upd::ByType(s)); } }
    for s in subsets(&[0u16, 1, 2, 3, 256, 65535]) { if !s.is_empty() { ups.push(Upd::ByIndex(s.clone())); if s.len() > 1 { let mut s = s; s.reverse(); ups.push(Upd::ByIndex(s)); } } }
    ups.push(Upd::ByIndex(vec![0, 0]));
    ups.push(Upd::ByType(vec![255]));
    let mut cases = vec![];
    for h in &hl { for at in 0..3usize { for cl in [false, true] { cases.push((h.clone(), at, cl)); } } }
    ck.each("updates", &cases, |ck, (h, at, cl)| {
        let w = world(*at, h, *cl, 0);
        for u in &ups { run(ck, &w, &Do::Up(*at as u32, u.clone()), &|| format!("held {:?} at {at}, claimer {cl}: {u:?}", kinds(h))); }
    });
    // rights on numbered sub-accounts: all pairs, split in every way between what is held and what is asked for
    let mut v2s: Vec<Act> = vec![act(perm::V2_CREATE)];
    for t in [perm::V2_ALL, perm::V2_SIGN, perm::V2_WITHDRAW, perm::V2_TOGGLE] { for i in [0u32, 1, 256, 65536, 1 << 24, u32::MAX] { v2s.push(a_v2(t, i)); } }
    v2s.push(act(perm::V2_CREATE));
    let mut cases = vec![];
    for a in &v2s { for b in &v2s { cases.push((a.clone(), b.clone())); } }
    ck.each("numbered-rights", &cases, |ck, (a, b)| {
        let l = || format!("rights {:?}", kinds(&[a.clone(), b.clone()]));
        let far = vec![a.clone(), a_sol(1), scope(), b.clone()];
        for at in [1usize, 2] {
            let empty = world(at, &[a_sol(5)], at == 1, 0);
            let has = world(at, &[a.clone(), a_sol(5)], at == 1, 0);
            for u in [Upd::Replace(vec![a.clone(), b.clone()]), Upd::Append(vec![a.clone(), b.clone()]), Upd::Append(far.clone()), Upd::Replace(far.clone()), Upd::Replace([far.clone(), v2s.iter().filter(|x| *x != a && *x != b).cloned().collect()].concat())] { run(ck, &empty, &Do::Up(at as u32, u), &l); }
            for u in [Upd::Append(vec![b.clone()]), Upd::Append(vec![act(perm::CLOSE), b.clone()]), Upd::Replace(vec![b.clone()])] { run(ck, &has, &Do::Up(at as u32, u), &l); }
        }
        let w = world(1, &[a_sol(5)], true, 0);
        for v in [vec![a.clone(), b.clone()], far] { run(ck, &w, &Do::Add(cr(ED, 77), v), &l); }
    });
    numbered_rights(ck);
    record_contents(ck);
    // lamports above the rent floor stay where they are
    let mut cases = vec![];
    for e in [1u64, 1000, 6960 * 8, 6960 * 40, 10_000_000] { for at in 0..3usize { for cl in [false, true] { cases.push((e, at, cl)); } } }
    ck.each("excess-lamports", &cases, |ck, &(e, at, cl)| {
        for h in [vec![a_sol(5), act(perm::CLOSE), scope()], vec![act(perm::CLOSE), used_sol_rec()]] {
            let w = world(at, &h, cl, e);
            for u in ups.iter().step_by(3) { run(ck, &w, &Do::Up(at as u32, u.clone()), &|| format!("excess {e} held {:?} at {at}: {u:?}", kinds(&h))); }
        }
    });
    // raw requests: every operation byte, announced count, truncation and byte change
    let two = acts_bytes(&[a_sol(7), act(perm::CLOSE)]);
    let mut raws: Vec<(Vec<u8>, u8)> = vec![];
    for op in 0..=255u8 { for n in [0u8, 1, 2, 255] { for tail in [&two[..], &two[..16], &[1], &[1, 0], &[0, 0, 1, 0], &[], &[7; 8]] { raws.push(([&[op][..], tail].concat(), n)); } } }
    for n in [0u8, 1, 2, 3] { for k in 0..=two.len() { raws.push((two[..k].to_vec(), n)); raws.push(([&[0][..], &two[..k]].concat(), n)); raws.push(([&[1][..], &two[..k]].concat(), n)); } }
    for i in 0..two.len() { for x in [1u8, 2, 8, 0x80, 0xff] { let mut b = two.clone(); b[i] ^= x; for n in [0, 2] { raws.push((b.clone(), n)); raws.push(([&[0][..], &b].concat(), 0)); raws.push(([&[1][..], &b].concat(), 0)); } } }
    // every permission kind at every record length around the right one
    for t in 0..=30u16 { for l in 0..=160usize { if l % 8 != 0 && !(perm::len(t).is_some_and(|x| x.abs_diff(l) <= 2)) { continue; } raws.push((acts_bytes(&[rec(t, l)]), 1)); raws.push(([&[1][..], &acts_bytes(&[rec(t, l)])].concat(), 0)); } }
    // every byte of every record set
    for a in specimens() { for i in 0..a.data.len() { for x in [1u8, 0xff] { let mut b = a.clone(); b.data[i] ^= x; raws.push((acts_bytes(&[b]), 1)); } } }
    for n in [254usize, 255, 256, 300] { for t in [perm::CLOSE, perm::ALL] { raws.push((acts_bytes(&vec![act(t); n]), 1)); raws.push(([&[1][..], &acts_bytes(&vec![act(t); n - 2])].concat(), 0)); } }
    let sites: Vec<(World, usize)> = (0..3).map(|at| (world(at, &[a_sol(5), act(perm::MANAGE)], at == 1, 0), at)).collect();
    ck.each("raw-requests", &raws, |ck, (b, n)| {
        for (w, at) in &sites { run(ck, w, &Do::Up(*at as u32, Upd::Raw(b.clone(), *n)), &|| format!("raw {} count {n} at {at}", hx(&b[..b.len().min(60)]))); }
    });
    in_big_stores(ck, &wl, &|r| {
        let n = r.acts.len() as u16;
        let mut v = vec![Upd::Append(vec![a_sol(7)]), Upd::Append(vec![act(perm::CLOSE); 255usize.saturating_sub(n as usize).max(1)]), Upd::Append(vec![act(perm::CLOSE); 256 - n as usize]), Upd::Replace(vec![a_sol(1)]), Upd::Replace(vec![a_sol(1), scope(), act(perm::CLOSE)]), Upd::Replace(vec![act(perm::STAKE_ALL); 255]),
            Upd::ByIndex((1..n).collect()), Upd::ByIndex((0..n - 1).collect()), Upd::ByType(vec![perm::SOL as u8]), Upd::ByType(vec![r.acts[0].ty as u8])];
        for i in [0, 1, 30, 31, 32, 63, 64, 127, 128, n / 2, n - 2, n - 1, n, 256, 257, 65535] { v.push(Upd::ByIndex(vec![i])); v.push(Upd::ByIndex(vec![0, i])); }
        v.into_iter().map(|u| Do::Up(r.id, u)).collect()
    });
    // histories of updates on one role
    let mut inits = vec![];
    for at in 0..3 { for cl in [false, true] { inits.push(world(at, &[a_sol(5), used_sol_rec()], cl, 0)); } }
    let mut acts = vec![];
    for t in [1u32, 2] {
        for u in [Upd::Append(vec![a_sol(7)]), Upd::Append(vec![a_v2(perm::V2_SIGN, 1)]), Upd::Append(vec![scope(), act(perm::CLOSE)]), Upd::ByIndex(vec![0]), Upd::ByIndex(vec![1]), Upd::ByIndex(vec![0, 2]), Upd::ByType(vec![1]), Upd::ByType(vec![perm::CLOSE as u8, perm::SCOPE as u8]),
            Upd::Replace(vec![a_v2(perm::V2_ALL, 0)]), Upd::Replace(vec![a_sol(1), scope(), a_tok(&MINT, 3)])] { acts.push(st(0, b0, Do::Up(t, u))); }
    }
    acts.push(st(0, b0, Do::Remove(1)));
    acts.push(st(0, b0, Do::Claimer(key)));
    acts.push(st(0, b0, Do::Up(0, Upd::Append(vec![a_sol(2)]))));
    acts.push(st(0, b0, Do::Up(0, Upd::ByType(vec![perm::SOL as u8, perm::SOL_REC as u8]))));
    ck.bfs("update-histories", &OpM { wl, inits, acts }, if ck.thorough { 6 } else { 5 });
}

// ------------------------------------------------------------------ P16
/// a wallet with an acting role (1) and a role (2) whose credential is to be replaced
fn replace_world(wl: &Wl, acting: Cred, ap: &[Act], target: Cred, cl: bool, odo: u32) -> World {
    let mut w = base();
    let mut s = wl.install(&mut w, &[(OWNER, vec![a_all()]), (acting, ap.to_vec()), (target, vec![a_sol(5), act(perm::MANAGE), scope()]), (cr(K1S, 7), vec![used_sol_rec()])], rent(0) + 40);
    let slot = w.slot;
    for (i, n) in [(1, acting.n), (2, target.n), (3, 7)] { open(&mut s.roles[i], n, slot); if i > 1 { s.roles[i].set_odometer(odo); } }
    if cl { s.claimer = Some(nk(0xC1, 3)); }
    wl.store(&mut w, &s);
    w
}
/// replacements approved by a program: what the proof has to say and where it has to stand
pub fn replace_proofs(ck: &Ck) {
    let wl = Wl::new(24);
    let world = |acting: Cred, ap: &[Act], target: Cred, cl: bool, odo: u32| replace_world(&wl, acting, ap, target, cl, odo);
    // without a proof, a wrong proof: program-execution credentials may not replace
    let mut cases = vec![];
    for t in [ED, EDS, K1, K1S, R1, R1S] { for k in 0..12u8 { cases.push((t, k)); } }
    ck.each("proofs", &cases, |ck, &(t, k)| {
        for acting in [cr(PE, 45), cr(PE, 5)] {
            let w = world(acting, &[a_all()], cr(t, 44), false, 3);
            let new = match t { ED | EDS => ed_key(50).to_vec(), K1 | K1S => k1_full(50).to_vec(), _ => r1_pk(50).to_vec() };
            let op = Do::Replace(2, new.clone());
            let by = By::Main(acting);
            let mut ixs = op_ixs(&w, &wl, 1, &by, &op);
            let sw = wl.sw(&w);
            let cur = sw.roles[2].auth[..signer_len(t)].to_vec();
            let n = norm_signer(t, &new).unwrap();
            let p = |wl: &Wl, a: u32, g: u32, t: u16, c: &[u8], n: &[u8]| proof(wl, a, g, t, c, n);
            let good = acting.n >= PE_PROOF;
            let mut ok = good;
            match k {
                0 => {}
                1 => { ixs[0].data = p(&Wl::new(9), 1, 2, t, &cur, &n); ok = false }
                2 => { ixs[0].data = p(&wl, 2, 2, t, &cur, &n); ok = false }
                3 => { ixs[0].data = p(&wl, 1, 3, t, &cur, &n); ok = false }
                4 => { ixs[0].data = p(&wl, 1, 2, t + 1, &cur, &n); ok = false }
                5 => { ixs[0].data = p(&wl, 1, 2, t, &n, &n); ok = false }
                6 => { ixs[0].data = p(&wl, 1, 2, t, &cur, &cur); ok = false }
                7 => { ixs[0].data.pop(); ok = false }
                8 => { ixs[0].data.push(0); ok = false }
                9 => { if let Some(b) = ixs[0].data.last_mut() { *b ^= 1; } ok = false }
                10 => { ixs[0].data.truncate(8); ok = false }
                _ => { ixs[0].metas.swap(0, 1); ok = false }
            }
            if !good { if k == 0 { ok = false } else { continue } }
            let mut exp = expect(&w, &wl, 1, &By::Main(cr(PE, 45)), &op, &ixs.last().unwrap().metas);
            if !ok { exp = Err("bad proof" as Rej); }
            let l = || format!("proof case {k}, target kind {t}");
            note(ck, verdict(Some(ck), &w, exp, &ixs, "replace", &l), &l);
        }
    });
    // roles that watch for less than the whole proof: every byte and the length of the proof count all the same
    let mut cases = vec![];
    for t in [ED, EDS, K1, K1S, R1, R1S] { for n in [45u8, 240, 241, 243, 246, 247] { cases.push((t, n)); } }
    ck.each("proof bytes", &cases, |ck, &(t, n)| {
        let acting = cr(PE, n);
        let by = By::Main(acting);
        let w = world(acting, &[a_all()], cr(t, 44), t == K1, 3);
        let new = match t { ED | EDS => ed_key(50).to_vec(), K1 | K1S => k1_full(50).to_vec(), _ => r1_pk(50).to_vec() };
        let op = Do::Replace(2, new.clone());
        let ixs = op_ixs(&w, &wl, 1, &by, &op);
        let mut alts = vec![ixs.clone()];
        for i in 0..40 { for b in [1u8, 0x80, 0xff] { let mut x = ixs.clone(); x[0].data[i] ^= b; alts.push(x); } }
        for l in [0usize, 1, 7, 8, 9, 32, 39] { let mut x = ixs.clone(); x[0].data.truncate(l); alts.push(x); }
        for l in [1usize, 8, 32, 40] { let mut x = ixs.clone(); x[0].data.extend(vec![0; l]); alts.push(x); }
        let mut x = ixs.clone(); x[0].data.rotate_left(1); alts.push(x);
        for k in [wl.swig, wl.wallet, DEST, Wl::new(9).swig, Wl::new(9).wallet, IXS, SWIG] { for i in 0..2 { let mut x = ixs.clone(); x[0].metas[i] = m(k); alts.push(x); } }
        for k in 0..2 { let mut x = ixs.clone(); x[0].metas.truncate(k); alts.push(x); }
        let mut x = ixs.clone(); x[0].metas.push(m(DEST)); alts.push(x);
        let mut x = ixs.clone(); x[0].prog = pe_prog(46); alts.push(x);
        // consistently about another wallet address
        for k in [DEST, wl.swig, Wl::new(9).wallet] {
            let mut x = ixs.clone();
            let o = Wl { wallet: k, ..wl };
            x[0].data = proof(&o, 1, 2, t, &wl.sw(&w).roles[2].auth[..signer_len(t)], &norm_signer(t, &new).unwrap());
            for y in x.iter_mut().flat_map(|i| &mut i.metas) { if y.key == wl.wallet { y.key = k; } }
            alts.push(x);
        }
        for x in alts {
            let ok = x[0].data == ixs[0].data && x[0].prog == ixs[0].prog && x[0].metas.iter().map(|y| y.key).take(2).eq([wl.swig, wl.wallet]);
            let exp = if ok { expect(&w, &wl, 1, &by, &op, &x.last().unwrap().metas) } else { Err("bad proof" as Rej) };
            let l = || format!("target kind {t}, watched prefix {:?}: proof by {}: accounts {:?} data {}", hx(&pe_prefix(n)), crate::model::short(&x[0].prog), x[0].metas.iter().map(|y| crate::model::short(&y.key)).collect::<Vec<_>>(), hx(&x[0].data));
            note(ck, verdict(Some(ck), &w, exp, &x, "replace", &l), &l);
        }
    });
    // where the proof stands in the transaction
    ck.each("proof positions", &cases, |ck, &(t, n)| {
        let acting = cr(PE, n);
        let by = By::Main(acting);
        let w = world(acting, &[act(perm::MANAGE)], cr(t, 44), false, 3);
        let new = match t { ED | EDS => ed_key(50).to_vec(), K1 | K1S => k1_comp(50).to_vec(), _ => r1_pk(50).to_vec() };
        let op = Do::Replace(2, new.clone());
        let good = op_ixs(&w, &wl, 1, &by, &op);
        let mut other = good[0].clone();
        let sw = wl.sw(&w);
        other.data = proof(&wl, 1, 2, t, &norm_signer(t, &new).unwrap(), &norm_signer(t, &new).unwrap());
        let mut stranger = good[0].clone();
        stranger.prog = pe_prog(46);
        let alphabet = [good[0].clone(), other, stranger, crate::p_auth::other_ix()];
        assert_eq!(sw.roles[2].aty, t);
        let mut c = op_call(&w, &wl, 1, &by, &op);
        let i = c.index_of(&IXS, false);
        let depth = if ck.thorough { 5 } else { 4 };
        let mut seqs: Vec<Vec<usize>> = vec![vec![]];
        let mut all = seqs.clone();
        for _ in 0..depth { seqs = seqs.iter().flat_map(|s| (0..4).map(move |k| { let mut v = s.clone(); v.push(k); v })).collect(); all.extend(seqs.clone()); }
        for s in all {
            for target in (0..=s.len() as u8 + 1).map(Some).chain([None, Some(255)]) {
                for after in [false, true] {
                    let mut ixs: Vec<Ix> = s.iter().map(|k| alphabet[*k].clone()).collect();
                    ixs.push(c.with(&match target { None => vec![i], Some(x) => vec![i, x] }));
                    if after { ixs.push(good[0].clone()); }
                    let which = match target { None => s.len().checked_sub(1), Some(x) => ((x as usize) < s.len()).then_some(x as usize) };
                    let exp = if which.is_some_and(|k| s[k] == 0) { expect(&w, &wl, 1, &by, &op, &ixs[s.len()].metas) } else { Err("bad proof" as Rej) };
                    let l = || format!("target kind {t}: instructions {s:?}, proof at {target:?}");
                    note(ck, verdict(Some(ck), &w, exp, &ixs, "replace", &l), &l);
                }
            }
        }
    });
}
pub fn p16(ck: &Ck) {
    let wl = Wl::new(24);
    let key = nk(0xC1, 3);
    // roles: owner, filler, target, filler; `extra` permissions decide who may act
    let world = |acting: Cred, ap: &[Act], target: Cred, cl: bool, odo: u32| replace_world(&wl, acting, ap, target, cl, odo);
    let mut signers: Vec<Vec<u8>> = vec![];
    for n in 50..53u8 { signers.extend([ed_key(n).to_vec(), k1_full(n).to_vec(), k1_comp(n).to_vec(), r1_pk(n).to_vec()]); }
    for l in [0usize, 1, 31, 34, 40, 63, 65, 80, 96, 128] { signers.push(vec![2; l]); }
    for k in [ed_key(44).to_vec(), k1_full(44).to_vec(), k1_comp(44).to_vec(), r1_pk(44).to_vec(), pe_state(&pe_prog(44), &pe_prefix(44))] { signers.push(k); }
    signers.push([&[4u8][..], &k1_full(50)].concat());
    // near misses of the present credential
    for i in 0..33 { for k in [k1_comp(44).to_vec(), r1_pk(44).to_vec(), ed_key(44).to_vec()] { if i < k.len() && i > 0 { let mut k = k; k[i] ^= 1; signers.push(k); } } }
    let mut cases = vec![];
    for t in AUTH_TYPES { for a in AUTH_TYPES { for cl in [false, true] { cases.push((t, a, cl)); } } }
    ck.each("replacements", &cases, |ck, &(t, a, cl)| {
        let acting = cr(a, 45);
        for (ap, odo) in [(vec![a_all()], 7), (vec![act(perm::MANAGE)], 0), (vec![a_replace(2)], u32::MAX), (vec![a_replace(3), a_replace(2)], 1), (vec![a_replace(0), a_sol(1)], 1)] {
            let w = world(acting, &ap, cr(t, 44), cl, odo);
            for s in &signers {
                for tgt in [2u32] {
                    let l = || format!("target kind {t} by kind {a} {:?}: {}", kinds(&ap), hx(s));
                    let Some(n) = note(ck, apply(Some(ck), &w, &wl, &st(1, by_of(&acting), Do::Replace(tgt, s.clone()))), &l) else { continue };
                    if ap[0].ty != perm::ALL { continue; }
                    // the old credential and the old session are out
                    note(ck, apply(Some(ck), &n, &wl, &st(2, By::Main(cr(t, 44)), Do::Remove(2))), &l);
                    note(ck, apply(Some(ck), &n, &wl, &st(2, sess(44), Do::Remove(2))), &l);
                    note(ck, apply(Some(ck), &n, &wl, &st(2, By::Main(cr(t, 44)), Do::Session(5, sess_key(44)))), &l);
                    // the new one is in
                    for c in 50..53u8 {
                        let c = cr(t, c);
                        if !n.data(&wl.swig).windows(32).any(|x| c.identity().windows(32).any(|y| x == y)) { continue; }
                        if is_session(t) {
                            if let Some(o) = note(ck, apply(Some(ck), &n, &wl, &st(2, By::Main(c), Do::Session(5, sess_key(c.n)))), &l) {
                                note(ck, apply(Some(ck), &o, &wl, &st(2, sess(c.n), Do::Add(cr(ED, 9), vec![a_sol(1)]))), &l);
                            }
                        } else { note(ck, apply(Some(ck), &n, &wl, &st(2, By::Main(c), Do::Add(cr(ED, 9), vec![a_sol(1)]))), &l); }
                    }
                }
            }
        }
    });
    in_big_stores(ck, &wl, &|r| match r.aty { ED | EDS => vec![Do::Replace(r.id, ed_key(50).to_vec())], K1 | K1S => vec![Do::Replace(r.id, k1_full(50).to_vec()), Do::Replace(r.id, k1_comp(51).to_vec())], _ => vec![Do::Replace(r.id, r1_pk(50).to_vec())] });
    replace_proofs(ck);
    numbered_targets(ck);
    // histories: replacing, sessions, counters, acting with old and new credentials
    let b0 = By::Main(OWNER);
    let inits: Vec<World> = [EDS, K1, K1S, R1, R1S].iter().map(|t| world(cr(ED, 45), &[a_replace(2)], cr(*t, 44), true, 7)).collect();
    for (w0, t) in inits.into_iter().zip([EDS, K1, K1S, R1, R1S]) {
        let enc = |n: u8| match t { EDS => ed_key(n).to_vec(), K1 | K1S => k1_full(n).to_vec(), _ => r1_pk(n).to_vec() };
        let mut acts = vec![
            st(0, b0, Do::Replace(2, enc(44))), st(0, b0, Do::Replace(2, enc(51))), st(1, main_by(ED, 45), Do::Replace(2, enc(52))), st(1, main_by(ED, 45), Do::Replace(3, k1_full(52).to_vec())),
            st(0, b0, Do::Replace(0, ed_key(9).to_vec())),
            st(2, sess(44), Do::Up(2, Upd::ByType(vec![perm::SCOPE as u8]))), st(2, sess(51), Do::Replace(1, ed_key(51).to_vec())),
            st(3, sess(7), Do::Sign(vec![])),
            wait(6),
        ];
        for n in [44u8, 51, 52] {
            acts.push(st(2, By::Main(cr(t, n)), Do::Session(5, sess_key(n))));
            acts.push(st(2, By::Main(cr(t, n)), Do::Up(1, Upd::Append(vec![a_sol(n as u64)]))));
            acts.push(st(2, By::Main(cr(t, n)), Do::Replace(2, enc(44))));
        }
        ck.bfs(&format!("replace-history-{t}"), &OpM { wl, inits: vec![w0], acts }, if ck.thorough { 7 } else { 5 });
    }
}
