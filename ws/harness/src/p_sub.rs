//! P19, P20: sub-accounts.
use crate::mcx::*;
use crate::p_roles::{by_of, cr, kinds, main_by, open, relocate, sess, specimens, RELOCATIONS};
use crate::p_sign::{base, MINT, MINT2, OWNER, R};
use crate::progs::{script_data, tok, Op};
use crate::spec::*;
use crate::sw::*;
use crate::vm::*;

const EXTRA: u64 = 30;
/// token accounts: of sub-account `o`, of the wallet, of others
fn ts(o: u8, p: &Key) -> Key { nk(if *p == TOKEN { 0x71 } else { 0x72 }, o) }
const W1: u8 = 100;
const W2: u8 = 101;
const OTHER: u8 = 102;
const FOREIGN: u8 = 103;
const CONF: u8 = 104;
fn put_tokens(w: &mut World, wl: &Wl, subs: &[(u8, Key)], foreign: &Wl) {
    for p in [TOKEN, TOKEN22] {
        let mut list: Vec<(u8, Key)> = vec![(W1, wl.wallet), (W2, wl.wallet), (OTHER, DEST2), (FOREIGN, foreign.wallet), (CONF, wl.swig)];
        list.extend(subs);
        for (n, o) in list { w.put(ts(n, &p), tok::acct(p, &tok::new(MINT, o, 9))); }
    }
    w.put(MINT, tok::mint_acct(TOKEN, PAYER, 1000));
}
fn blank() -> Act { act(perm::SUB) }
/// a record for `owner`'s address with other contents
fn rec(k: &Key, bump: u8, en: u8, role: u32, id: &Key) -> Act { Act { ty: perm::SUB, data: [&k[..], &[bump, en, 0, 0], &role.to_le_bytes(), id].concat() } }
/// what the acting role 1 can hold about sub-accounts
fn records1(wl: &Wl) -> Vec<(&'static str, Vec<Act>)> {
    let (k1, b1) = wl.sub1(1);
    let (k2, b2) = wl.sub1(2);
    let f = Wl::new(63);
    vec![
        ("none", vec![]),
        ("blank", vec![blank()]),
        ("own", vec![sub1_rec(wl, 1, true)]),
        ("own disabled", vec![sub1_rec(wl, 1, false)]),
        ("blank, own", vec![blank(), sub1_rec(wl, 1, true)]),
        ("own disabled, blank", vec![sub1_rec(wl, 1, false), blank()]),
        ("own disabled, own", vec![sub1_rec(wl, 1, false), sub1_rec(wl, 1, true)]),
        ("blank twice", vec![blank(), blank()]),
        ("role 2's", vec![sub1_rec(wl, 2, true)]),
        ("role 2's and own", vec![sub1_rec(wl, 2, true), sub1_rec(wl, 1, true)]),
        ("own address, role 2", vec![rec(&k1, b1, 1, 2, &wl.id)]),
        ("role 2's address, role 1", vec![rec(&k2, b2, 1, 1, &wl.id)]),
        ("own address, foreign wallet", vec![rec(&k1, b1, 1, 1, &f.id)]),
        ("foreign sub-account", vec![sub1_rec(&f, 1, true)]),
    ]
}
/// can the record come about? (the program derives the signature from it)
fn sound(name: &str) -> bool { name != "role 2's address, role 1" }

fn world1(wl: &Wl, c: &Cred, acts: &[Act], legacy: bool) -> World {
    let mut w = base();
    let f = Wl::new(63);
    f.install(&mut w, &[(OWNER, vec![a_all()]), (*c, vec![a_all(), sub1_rec(&f, 1, true)])], rent(0));
    let mut s = wl.install(&mut w, &[(OWNER, vec![a_all()]), (*c, acts.to_vec()), (cr(ED, 21), vec![a_sol(1), sub1_rec(wl, 2, true)])], rent(0) + 5);
    for (id, n) in [(12u32, 22u8), (40, 23)] { s.roles.push(Role { id, aty: ED, auth: cr(ED, n).stored(), acts: vec![sub1_rec(wl, id, true)] }); }
    s.counter = 41;
    let slot = w.slot;
    open(&mut s.roles[1], c.n, slot);
    if legacy { wl.legacy(&mut s, 0); }
    wl.store(&mut w, &s);
    for r in [1u32, 2, 12, 40] { w.fund(wl.sub1(r).0, rent(0) + EXTRA); }
    w.fund(f.sub1(1).0, rent(0) + EXTRA);
    put_tokens(&mut w, wl, &[(1, wl.sub1(1).0), (2, wl.sub1(2).0), (12, wl.sub1(12).0)], &f);
    w
}
fn perms1() -> Vec<Vec<Act>> {
    vec![vec![a_sol(1)], vec![a_all()], vec![act(perm::MANAGE)], vec![act(perm::CLOSE)], vec![act(perm::V2_CREATE), a_v2(perm::V2_ALL, 1)], vec![act(perm::PROG_ALL), a_tok(&MINT, 50)], vec![act(perm::MANAGE), a_all()]]
}
fn wall(p: Key, src: u8, dst: u8) -> Option<(Key, Key, Key)> { Some((ts(src, &p), ts(dst, &p), p)) }
/// the inner instructions a sub-account may be asked to sign
fn inners(wl: &Wl, k: &Key, tsub: u8, thorough: bool) -> Vec<Vec<Ix>> {
    let pay = |n: u64| sys_transfer(k, &DEST, n);
    let script = |n: u64| { let t = sys_transfer(k, &DEST, n); Ix { prog: R, metas: vec![msw(*k), mw(DEST), m(SYSTEM)], data: script_data(&[Op::Call(2, vec![(0, true, true), (1, false, true)], t.data)]) } };
    let mut v: Vec<Vec<Ix>> = vec![
        vec![], vec![pay(0)], vec![pay(1)], vec![pay(EXTRA)], vec![pay(EXTRA + 1)], vec![pay(EXTRA), pay(1)], vec![pay(EXTRA + 1), sys_transfer(&DEST, k, 1)], vec![sys_transfer(&DEST, k, 3), pay(EXTRA + 3)],
        vec![pay(rent(0) + EXTRA)], vec![pay(rent(0) + EXTRA + 1)],
        vec![script(2)], vec![script(EXTRA + 1)],
        vec![sys_transfer(&wl.wallet, &DEST, 1)], vec![sys_transfer(&wl.sub1(2).0, &DEST, 1)], vec![sys_transfer(&wl.sub2(2).0, &DEST, 1)], vec![sys_transfer(&PAYER, k, 5)],
        vec![sys_transfer(k, &wl.wallet, 3)], vec![sys_transfer(k, &wl.swig, 3)],
        vec![tok_transfer(&TOKEN, &ts(tsub, &TOKEN), &ts(OTHER, &TOKEN), k, 4)], vec![tok_transfer(&TOKEN22, &ts(tsub, &TOKEN22), &ts(OTHER, &TOKEN22), k, 9), pay(1)], vec![tok_transfer(&TOKEN, &ts(tsub, &TOKEN), &ts(OTHER, &TOKEN), k, 10)],
        vec![tok_transfer(&TOKEN, &ts(W1, &TOKEN), &ts(OTHER, &TOKEN), k, 4)], vec![tok_transfer(&TOKEN, &ts(W1, &TOKEN), &ts(OTHER, &TOKEN), &wl.wallet, 4)],
        vec![Ix { prog: R, metas: vec![ms(*k), m(wl.swig), m(wl.wallet)], data: script_data(&[]) }],
        vec![Ix { prog: R, metas: vec![m(*k)], data: script_data(&[]) }, pay(2)],
    ];
    if thorough {
        let n = v.len();
        for i in 0..n { for j in 0..n { let x = [v[i].clone(), v[j].clone()].concat(); v.push(x); } }
    }
    v
}

pub fn p19(ck: &Ck) {
    let wl = Wl::new(61);
    let recs = records1(&wl);
    let perms = perms1();
    // every right, every credential kind, every operation on one's own and others' sub-accounts
    let mut cases = vec![];
    for t in AUTH_TYPES { for r in 0..recs.len() { for p in 0..perms.len() { for legacy in [false, true] { cases.push((t, r, p, legacy)); } } } }
    ck.each("rights", &cases, |ck, &(t, r, p, legacy)| {
        let c = cr(t, 11);
        let acts = [&perms[p][..], &recs[r].1[..]].concat();
        let w = world1(&wl, &c, &acts, legacy);
        let by = by_of(&c);
        let mut ops = vec![Do::S1Create];
        for o in [1u32, 2, 12, 40, 41, 0] {
            for n in [0, 1, EXTRA, rent(0) + EXTRA - 1, rent(0) + EXTRA, rent(0) + EXTRA + 1] { if o == 1 || n == 1 || n == rent(0) + EXTRA { ops.push(Do::S1Wd(o, n, None)); } }
            let k = o as u8;
            if o != 0 { for n in [0u64, 4, 9, 10] { if k < 40 { ops.push(Do::S1Wd(o, n, wall(TOKEN, k, W1))); } } }
            ops.push(Do::S1Sign(o, vec![sys_transfer(&wl.sub1(o).0, &DEST, 3)]));
            for tg in [1u32, 2, 12, 7, 0] { for e in [false, true] { ops.push(Do::S1Tog(tg, o, e)); } }
        }
        for op in ops {
            if matches!(op, Do::S1Wd(..) | Do::S1Sign(..)) && !sound(recs[r].0) { continue; }
            note(ck, apply(Some(ck), &w, &wl, &st(1, by, op.clone())), &|| format!("kind {t} {:?} record {}: {}", kinds(&acts), recs[r].0, short_op(&op)));
        }
        // the acting role uses a foreign wallet's sub-account, and the other way round
        let f = Wl::new(63);
        for (a, b) in [(&wl, &f), (&f, &wl)] {
            for role in [1u32, 2] {
                let (k, n) = (b.sub1(role).0, auth_key(&by));
                let calls = [c_sub1_withdraw(a, 1, &k, 1, n, None), c_sub1_sign(a, 1, &k, &[sys_transfer(&k, &DEST, 3)]), c_sub1_toggle(a, 1, 1, &k, 0), c_sub1_toggle(a, 1, role, &k, 0),
                    { let mut c = c_sub1_withdraw(a, 1, &a.sub1(1).0, 1, n, None); c.metas[4].key = b.wallet; c }, { let mut c = c_sub1_create(a, 1); c.metas[2].key = k; c }];
                for (i, c) in calls.iter().enumerate() {
                    // a record naming the foreign address is never written by the program
                    if recs[r].0.starts_with("foreign") && std::ptr::eq(a, &wl) && (i == 2 || i == 3) { continue; }
                    let ixs = c.go(&w, a, 1, &by);
                    if ck.exec(&w, &ixs).is_ok() { ck.fail("foreign-sub-account", format!("kind {t} {:?} record {}: call {i} on another wallet's sub-account accepted", kinds(&acts), recs[r].0), vec![], Some((w.clone(), ixs))); }
                }
            }
        }
    });
    // roles of every number at every position, each with a sub-account of its own
    let mut cases = vec![];
    for ids in [vec![0u32], vec![0, 1], vec![0, 3], vec![2], vec![0, 1, 2, 3], vec![0, 7, 8, 300], vec![5, 6], vec![1, 0]] { for at in 0..ids.len() { for p in 0..perms.len() { for s in 0..8u8 { for t in [ED, R1S] { cases.push((ids.clone(), at, p, s, t)); } } } } }
    ck.each("positions", &cases, |ck, (ids, at, p, state, t)| {
        if ids.windows(2).any(|x| x[0] > x[1]) { return; }
        let c = cr(*t, 11);
        let mut w = base();
        // bit 0, 1: whether the acting role's record is there and enabled; bit 2: whether the others' are enabled
        let roles: Vec<(Cred, Vec<Act>)> = ids.iter().enumerate().map(|(i, id)| if i == *at {
            (c, [&perms[*p][..], &match state & 3 { 0 => vec![], 1 => vec![act(perm::SUB)], k => vec![sub1_rec(&wl, *id, k == 3)] }[..]].concat())
        } else { (cr(ED, 30 + i as u8), vec![if i == 0 { a_all() } else { a_sol(2) }, sub1_rec(&wl, *id, state & 4 != 0)]) }).collect();
        let mut s = wl.install(&mut w, &roles, rent(0) + 5);
        for (r, id) in s.roles.iter_mut().zip(ids) { r.id = *id; }
        s.counter = ids.iter().max().unwrap() + 1;
        let slot = w.slot;
        open(&mut s.roles[*at], c.n, slot);
        wl.store(&mut w, &s);
        let made = |i: usize| i != *at || state & 3 > 1;
        for (i, id) in ids.iter().enumerate() { if made(i) { w.fund(wl.sub1(*id).0, rent(0) + EXTRA); } }
        let mut ops = vec![Do::S1Create];
        for o in ids.iter().copied().chain([ids[*at] ^ 1]) {
            ops.extend([Do::S1Wd(o, 1, None), Do::S1Wd(o, rent(0) + EXTRA, None), Do::S1Sign(o, vec![sys_transfer(&wl.sub1(o).0, &DEST, 3)])]);
            for tg in ids { for e in [false, true] { ops.push(Do::S1Tog(*tg, o, e)); } }
        }
        for op in ops { note(ck, apply(Some(ck), &w, &wl, &crate::spec::st(ids[*at], by_of(&c), op.clone())), &|| format!("roles {ids:?}, {} acting, kind {t} {:?} state {state}: {}", ids[*at], kinds(&perms[*p]), short_op(&op))); }
    });
    // every other permission kind gives nothing
    let mut cases = vec![];
    for a in specimens() { for r in 0..recs.len() { cases.push((a.clone(), r)); } }
    ck.each("other-permissions", &cases, |ck, (a, r)| {
        if !sound(recs[*r].0) { return; }
        let c = cr(ED, 11);
        let acts = [&[a.clone()][..], &recs[*r].1[..]].concat();
        let w = world1(&wl, &c, &acts, false);
        let mut ops = vec![Do::S1Create];
        for o in [1u32, 2, 12] {
            ops.extend([Do::S1Wd(o, 1, None), Do::S1Wd(o, 1, wall(TOKEN22, o as u8, W2)), Do::S1Sign(o, vec![sys_transfer(&wl.sub1(o).0, &DEST, 3)])]);
            for tg in [1u32, 2, 12] { for e in [false, true] { ops.push(Do::S1Tog(tg, o, e)); } }
        }
        for op in ops { note(ck, apply(Some(ck), &w, &wl, &st(1, by_of(&c), op.clone())), &|| format!("{:?} record {}: {}", kinds(&acts), recs[*r].0, short_op(&op))); }
    });
    // sub-account addresses at creation: bumps, other addresses, what is there already
    let c = cr(ED, 11);
    let by = by_of(&c);
    let roles: Vec<u32> = if ck.thorough { (1..60).chain([255, 256, 257, 65535, 65536, 1 << 24]).collect() } else { (1..12).chain([255, 256, 65536]).collect() };
    let mut cases = vec![];
    for id in roles { for b in 0..=255u8 { cases.push((id, b)); } }
    let w1 = |id: u32, acts: Vec<Act>| {
        let mut w = base();
        let mut s = wl.install(&mut w, &[(OWNER, vec![a_all()]), (c, acts)], rent(0) + 5);
        s.roles[1].id = id;
        s.counter = id + 1;
        wl.store(&mut w, &s);
        w
    };
    ck.each("creation-addresses", &cases, |ck, &(id, b)| {
        let (k, kb) = wl.sub1(id);
        let w = w1(id, vec![a_sol(1), blank()]);
        let mut call = c_sub1_create(&wl, id);
        for (head, key) in [(b, k), (kb, create_pda(&[b"sub-account", &wl.id, &id.to_le_bytes(), &[b]], &SWIG).unwrap_or(DEST)), (b, create_pda(&[b"sub-account", &wl.id, &id.to_le_bytes(), &[b]], &SWIG).unwrap_or(DEST2))] {
            call.head[8] = head;
            call.dp[8] = head;
            call.metas[2].key = key;
            let ixs = call.go(&w, &wl, id, &by);
            let l = || format!("role {id} creates with bump {head} at {}", crate::model::short(&key));
            if head == kb && key == k { note(ck, compare(Some(ck), &w, &wl, id, &by, &Do::S1Create, &ixs), &l); }
            else if ck.exec(&w, &ixs).is_ok() { ck.fail("sub1-create:address", format!("{}: accepted", l()), vec![], Some((w.clone(), ixs))); }
        }
    });
    let pre: Vec<Option<Acct>> = occupied(&wl);
    let mut cases = vec![];
    for i in 0..pre.len() { for t in AUTH_TYPES { for r in 0..recs.len() { cases.push((i, t, r)); } } }
    ck.each("occupied-address", &cases, |ck, &(i, t, r)| {
        let c = cr(t, 11);
        let mut w = world1(&wl, &c, &[&[a_sol(1)][..], &recs[r].1[..]].concat(), false);
        let k = wl.sub1(1).0;
        w.accts.remove(&k);
        if let Some(a) = &pre[i] { w.put(k, a.clone()); }
        for op in [Do::S1Create, Do::S1Wd(1, 1, None), Do::S1Sign(1, vec![]), Do::S1Sign(1, vec![sys_transfer(&DEST, &k, 1)]), Do::S1Tog(1, 1, false)] {
            if matches!(op, Do::S1Wd(..) | Do::S1Sign(..)) && !sound(recs[r].0) { continue; }
            note(ck, apply(Some(ck), &w, &wl, &st(1, by_of(&c), op.clone())), &|| format!("address state {i}, kind {t}, record {}: {}", recs[r].0, op.name()));
        }
    });
    // token withdrawals: whose account, which mint, which program, which state
    let us: Vec<u8> = vec![1, 2, 12, W1, W2, OTHER, FOREIGN, CONF];
    let mut cases = vec![];
    for s in &us { for d in &us { for v in 0..14u8 { cases.push((*s, *d, v)); } } }
    ck.each("token-withdrawals", &cases, |ck, &(s, d, v)| {
        for (acts, own) in [(vec![a_sol(1), sub1_rec(&wl, 1, true)], 1u32), (vec![a_all()], 2), (vec![act(perm::MANAGE)], 1), (vec![a_all(), sub1_rec(&wl, 1, true)], 1)] {
            for p in [TOKEN, TOKEN22] {
                let mut w = world1(&wl, &c, &acts, false);
                let (sk, dk) = (ts(s, &p), ts(d, &p));
                let Some((dk, pk)) = token_variant(&mut w, v, &sk, &dk, p, d) else { continue };
                for n in [0u64, 1, 9, 10, u64::MAX] {
                    let op = Do::S1Wd(own, n, Some((sk, dk, pk)));
                    note(ck, apply(Some(ck), &w, &wl, &st(1, by, op)), &|| format!("{:?} of role {own}'s: from {s} to {d}, variant {v}, amount {n}", kinds(&acts)));
                }
            }
        }
    });
    // addresses with a zero (or all-ones) byte in each position
    let cases: Vec<(usize, u8)> = (0..32).flat_map(|i| [(i, 0u8), (i, 255)]).collect();
    ck.each("address-bytes", &cases, |ck, &(i, x)| {
        let Some(wl) = (0..200_000u32).find_map(|n| { let mut id = [3u8; 32]; id[..4].copy_from_slice(&n.to_le_bytes()); let k = find_pda(&[b"sub-account", &id, &1u32.to_le_bytes()], &SWIG)?.0; (k[i] == x && (ck.thorough || i > 0 || x > 0 || k[1] < 16)).then(|| Wl::of(id)) }) else { return };
        for t in [ED, K1S, PE] { for (name, acts) in records1(&wl) { for p in [a_sol(1), a_all(), act(perm::MANAGE)] {
            if !sound(name) { continue; }
            let c = cr(t, 11);
            let w = world1(&wl, &c, &[&[p.clone()][..], &acts[..]].concat(), false);
            for op in [Do::S1Create, Do::S1Wd(1, 1, None), Do::S1Wd(1, 4, wall(TOKEN, 1, W1)), Do::S1Sign(1, vec![sys_transfer(&wl.sub1(1).0, &DEST, 3)]), Do::S1Tog(1, 1, false), Do::S1Tog(1, 1, true), Do::S1Wd(2, 1, None), Do::S1Tog(2, 2, false)] {
                note(ck, apply(Some(ck), &w, &wl, &st(1, by_of(&c), op.clone())), &|| format!("address byte {i} is {x}, kind {t}, {:?}, record {name}: {}", p.ty, short_op(&op)));
            }
        } } }
    });
    // one byte off: accounts' addresses and contents, and the record held
    let mut cases = vec![];
    for (n, a) in [vec![a_sol(1), blank()], vec![a_sol(1), sub1_rec(&wl, 1, true)], vec![a_all()], vec![act(perm::MANAGE)]].into_iter().enumerate() {
        let mut w = world1(&wl, &c, &a, false);
        if n == 0 { w.accts.remove(&wl.sub1(1).0); }
        let pay = vec![sys_transfer(&wl.sub1(1).0, &DEST, 3)];
        for op in if n == 0 { vec![Do::S1Create] } else { vec![Do::S1Wd(1, 3, None), Do::S1Wd(1, 4, wall(TOKEN, 1, W1)), Do::S1Wd(1, 4, wall(TOKEN22, 1, W2)), Do::S1Sign(1, pay), Do::S1Tog(1, 1, false)] } {
            cases.push((format!("{:?}: {}", kinds(&a), short_op(&op)), w.clone(), st(1, by, op)));
        }
    }
    crate::p_life::near_misses(ck, "near-misses", &wl, &cases, &[wl.swig, wl.wallet, wl.sub1(1).0]);
    let mut cases = vec![];
    for i in (0..32usize).chain(36..72) { for x in [1u8, 0x80, 0xff] { for p in 0..4u8 { cases.push((i, x, p)); } } }
    ck.each("near-records", &cases, |ck, &(i, x, p)| {
        let mut r = sub1_rec(&wl, 1, true);
        r.data[i] ^= x;
        let acts = match p { 0 => vec![r], 1 => vec![r, a_all()], 2 => vec![act(perm::MANAGE), r], _ => vec![r, sub1_rec(&wl, 1, true)] };
        let mut w = world1(&wl, &c, &acts, false);
        let k: Key = acts.iter().find(|a| a.ty == perm::SUB).unwrap().data[..32].try_into().unwrap();
        if w.get(&k).is_none() { w.fund(k, rent(0) + EXTRA); }
        for op in [Do::S1Wd(1, 3, None), Do::S1Wd(1, 4, wall(TOKEN, 1, W1)), Do::S1Sign(1, vec![sys_transfer(&wl.sub1(1).0, &DEST, 3)]), Do::S1Sign(1, vec![]), Do::S1Tog(1, 1, false), Do::S1Tog(1, 1, true), Do::S1Create] {
            note(ck, apply(Some(ck), &w, &wl, &st(1, by, op.clone())), &|| format!("record byte {i} off by {x}, list {p}: {}", short_op(&op)));
        }
    });
    // more accounts than needed
    let cases: Vec<usize> = (0..16).collect();
    ck.each("account-counts", &cases, |ck, &n| {
        for acts in [vec![a_sol(1), sub1_rec(&wl, 1, true)], vec![a_all()], vec![act(perm::MANAGE)]] { for e in [m(DEST), mw(ts(W2, &TOKEN)), m(TOKEN), msw(PAYER)] { for t in [None, wall(TOKEN, 1, W1), wall(TOKEN22, 1, W2), wall(TOKEN, 1, OTHER)] {
            let w = world1(&wl, &c, &acts, false);
            let mut call = c_sub1_withdraw(&wl, 1, &wl.sub1(1).0, 3, auth_key(&by), t);
            // with seven accounts or more it is a token withdrawal
            if t.is_none() && n > 0 { continue; }
            for _ in 0..n { call.metas.push(e.clone()); }
            let ixs = call.go(&w, &wl, 1, &by);
            note(ck, compare(Some(ck), &w, &wl, 1, &by, &Do::S1Wd(1, 3, t), &ixs), &|| format!("{n} more accounts ({}), tokens {}", crate::model::short(&e.key), t.is_some()));
        } } }
    });
    // what the sub-account signs
    for (name, acts) in [("own", vec![a_sol(1), sub1_rec(&wl, 1, true)]), ("own and all", vec![a_all(), sub1_rec(&wl, 1, true)])] {
        let list = inners(&wl, &wl.sub1(1).0, 1, ck.thorough);
        let mut cases = vec![];
        for t in AUTH_TYPES { for i in 0..list.len() { if i < 40 || t == ED { cases.push((t, i)); } } }
        ck.each(&format!("signing-{name}"), &cases, |ck, &(t, i)| {
            let c = cr(t, 11);
            let w = world1(&wl, &c, &acts, false);
            note(ck, apply(Some(ck), &w, &wl, &st(1, by_of(&c), Do::S1Sign(1, list[i].clone()))), &|| format!("kind {t} signs list {i}"));
        });
    }
    // the enabled byte
    let cases: Vec<u8> = (0..=255).collect();
    ck.each("enabled-byte", &cases, |ck, &b| {
        for (acts, tg) in [(vec![a_sol(1), sub1_rec(&wl, 1, true)], 1u32), (vec![a_sol(1), sub1_rec(&wl, 1, false)], 1), (vec![a_all()], 2), (vec![act(perm::MANAGE)], 12)] {
            let w = world1(&wl, &c, &acts, false);
            let ixs = c_sub1_toggle(&wl, 1, tg, &wl.sub1(tg).0, b).go(&w, &wl, 1, &by);
            if b < 2 { note(ck, compare(Some(ck), &w, &wl, 1, &by, &Do::S1Tog(tg, tg, b == 1), &ixs), &|| format!("toggle to {b}")); }
            else if ck.exec(&w, &ixs).is_ok() { ck.fail("sub1-toggle:value", format!("toggle to {b} accepted"), vec![], Some((w.clone(), ixs))); }
        }
    });
    // histories
    let mut w = base();
    let mut s = wl.install(&mut w, &[(OWNER, vec![a_all()]), (cr(ED, 11), vec![a_sol(1), blank()]), (cr(EDS, 12), vec![act(perm::MANAGE), blank(), a_tok(&MINT, 3)]), (cr(K1, 13), vec![scope3()])], rent(0) + 5);
    let slot = w.slot;
    open(&mut s.roles[2], 12, slot);
    wl.store(&mut w, &s);
    put_tokens(&mut w, &wl, &[(1, wl.sub1(1).0), (2, wl.sub1(2).0)], &Wl::new(63));
    let (b0, b1, b2, b3) = (By::Main(OWNER), main_by(ED, 11), sess(12), main_by(K1, 13));
    let pay = |o: u32, n: u64| Do::S1Sign(o, vec![sys_transfer(&wl.sub1(o).0, &DEST, n)]);
    let fill = |o: u32| st(0, b0, Do::Sign(vec![sys_transfer(&DEST, &wl.sub1(o).0, 5)]));
    let mut acts = vec![
        st(1, b1, Do::S1Create), st(2, b2, Do::S1Create), st(0, b0, Do::S1Create),
        fill(1), fill(2),
        st(1, b1, pay(1, 2)), st(2, b2, pay(2, 2)), st(1, b1, pay(2, 1)), st(0, b0, pay(1, 1)),
        st(1, b1, Do::S1Wd(1, 3, None)), st(2, b2, Do::S1Wd(2, 3, None)), st(2, b2, Do::S1Wd(1, 1, None)), st(0, b0, Do::S1Wd(1, 1, None)), st(3, b3, Do::S1Wd(1, 1, None)),
        st(1, b1, Do::S1Wd(1, 4, wall(TOKEN, 1, W1))), st(0, b0, Do::S1Wd(2, 4, wall(TOKEN22, 2, W1))), st(1, b1, Do::S1Wd(1, 4, wall(TOKEN, 1, OTHER))),
        st(1, b1, Do::S1Tog(1, 1, false)), st(1, b1, Do::S1Tog(1, 1, true)), st(0, b0, Do::S1Tog(1, 1, false)), st(2, b2, Do::S1Tog(1, 1, true)), st(1, b1, Do::S1Tog(2, 2, false)), st(0, b0, Do::S1Tog(2, 2, false)),
        st(0, b0, Do::Up(1, Upd::ByType(vec![perm::SUB as u8]))), st(0, b0, Do::Up(1, Upd::Append(vec![blank()]))), st(0, b0, Do::Up(3, Upd::Append(vec![blank()]))), st(3, b3, Do::S1Create), st(3, b3, pay(3, 0)),
        st(0, b0, Do::Remove(1)), st(0, b0, Do::Add(cr(ED, 11), vec![blank()])), st(4, b1, Do::S1Create), st(4, b1, Do::S1Wd(1, 1, None)), st(4, b1, Do::S1Tog(4, 1, true)),
        st(0, b0, Do::Replace(1, ed_key(14).to_vec())), st(1, main_by(ED, 14), pay(1, 1)),
        wait(91),
    ];
    if ck.thorough { acts.push(st(0, b0, Do::Up(2, Upd::Replace(vec![blank(), a_all()])))); acts.push(st(0, b0, Do::Up(2, Upd::ByIndex(vec![0])))); }
    ck.bfs("histories", &OpM { wl, inits: vec![w], acts }, if ck.thorough { 8 } else { 6 });
}
fn scope3() -> Act { a_sol(3) }
/// states of an address that somebody else may have prepared
fn occupied(wl: &Wl) -> Vec<Option<Acct>> {
    let a = |l: u64, owner: Key, data: Vec<u8>| Some(Acct { lamports: l, owner, exec: false, data });
    vec![
        None, a(1, SYSTEM, vec![]), a(rent(0) - 1, SYSTEM, vec![]), a(rent(0), SYSTEM, vec![]), a(rent(0) + 9, SYSTEM, vec![]), a(rent(72) - 1, SYSTEM, vec![]), a(rent(72), SYSTEM, vec![]), a(rent(72) + 1, SYSTEM, vec![]), a(10_000_000_000, SYSTEM, vec![]),
        a(rent(4), SYSTEM, vec![1, 2, 3, 4]), a(rent(72), SYSTEM, vec![0; 72]), a(rent(0), SWIG, vec![]), a(rent(1), SWIG, vec![255]), a(rent(72), SWIG, sub2_data(wl, 0, true)), a(rent(72), SWIG, vec![0; 72]), a(rent(0), R, vec![]), Some(tok::acct(TOKEN, &tok::new(MINT, PAYER, 0))),
    ]
}
/// Variants of a token withdrawal; `None` if it is the plain one repeated.
fn token_variant(w: &mut World, v: u8, sk: &Key, dk: &Key, p: Key, d: u8) -> Option<(Key, Key)> {
    let set = |w: &mut World, k: &Key, f: &dyn Fn(&mut tok::T)| w.edit(k, |a| { let mut t = tok::parse(&a.data).unwrap(); f(&mut t); tok::write(&t, &mut a.data); });
    let q = if p == TOKEN { TOKEN22 } else { TOKEN };
    match v {
        0 => {}
        1 => set(w, sk, &|t| t.mint = MINT2),
        2 => set(w, dk, &|t| t.mint = MINT2),
        3 => set(w, sk, &|t| t.state = 2),
        4 => set(w, dk, &|t| t.state = 2),
        5 => set(w, sk, &|t| t.state = 0),
        6 => set(w, dk, &|t| t.state = 0),
        7 => return Some((ts(d, &q), p)),
        8 => return Some((*dk, q)),
        9 => return Some((*dk, R)),
        10 => { w.edit(sk, |a| a.owner = R); }
        11 => { w.edit(dk, |a| a.owner = R); }
        12 => set(w, sk, &|t| { t.delegate = Some(DEST); t.delegated = 5; t.close = Some(DEST2) }),
        _ => { for k in [sk, dk] { w.edit(k, |a| { if a.data.len() == 165 { a.data.push(2); a.data.extend([7; 12]); a.lamports = rent(a.data.len()); } }); } }
    }
    Some((*dk, p))
}

// ------------------------------------------------------------------ P20
fn put_s2(w: &mut World, wl: &Wl, id: u32, en: bool) {
    w.put(wl.sub2_state(id).0, Acct { lamports: rent(72), owner: SWIG, exec: false, data: sub2_data(wl, id, en) });
    w.fund(wl.sub2(id).0, rent(0) + EXTRA);
}
fn world2(wl: &Wl, c: &Cred, acts: &[Act], legacy: bool) -> World {
    let mut w = base();
    let f = Wl::new(64);
    let mut fs = f.install(&mut w, &[(OWNER, vec![a_all()]), (*c, vec![a_all(), act(perm::V2_CREATE), a_v2(perm::V2_ALL, 1)])], rent(0));
    fs.subctr = 3;
    let slot = w.slot;
    open(&mut fs.roles[1], c.n, slot);
    f.store(&mut w, &fs);
    let mut s = wl.install(&mut w, &[(OWNER, vec![a_all()]), (*c, acts.to_vec()), (cr(ED, 21), vec![a_v2(perm::V2_ALL, 1), act(perm::V2_CREATE)])], rent(0) + 5);
    s.subctr = 4;
    open(&mut s.roles[1], c.n, slot);
    if legacy { wl.legacy(&mut s, 0); }
    wl.store(&mut w, &s);
    for i in 0..3 { put_s2(&mut w, wl, i, i != 2); put_s2(&mut w, &f, i, true); }
    put_s2(&mut w, wl, 3, true);
    put_tokens(&mut w, wl, &[(1, wl.sub2(1).0), (2, wl.sub2(2).0), (3, wl.sub2(3).0)], &f);
    w
}
/// right lists concerning numbers 0..3
fn rights2() -> Vec<Vec<Act>> {
    let mut v: Vec<Vec<Act>> = vec![vec![], vec![act(perm::V2_CREATE)]];
    for ty in perm::V2_ALL..=perm::V2_TOGGLE { for id in [0u32, 1, 2, 3, 4, 5, 256, 257, 0x0100_0001, u32::MAX] { v.push(vec![a_v2(ty, id)]); } }
    for a in perm::V2_ALL..=perm::V2_TOGGLE { for b in perm::V2_ALL..=perm::V2_TOGGLE { if a != b { v.push(vec![a_v2(a, 1), a_v2(b, 1)]); } v.push(vec![a_v2(a, 1), a_v2(b, 2)]); v.push(vec![a_v2(a, 2), act(perm::V2_CREATE), a_v2(b, 0)]); } }
    v
}
fn every2(wl: &Wl, id: u32) -> Vec<Do> {
    let k = wl.sub2(id).0;
    let n = id as u8;
    let mut v = vec![Do::S2Tog(id, false), Do::S2Tog(id, true), Do::S2Sign(id, vec![]), Do::S2Sign(id, vec![sys_transfer(&k, &DEST, 3)]), Do::S2Wd(id, 1, None), Do::S2Wd(id, rent(0) + EXTRA, None), Do::S2Wd(id, rent(0) + EXTRA + 1, None)];
    if (1..4).contains(&id) { v.push(Do::S2Wd(id, 4, wall(TOKEN, n, W1))); v.push(Do::S2Wd(id, 9, wall(TOKEN22, n, W2))); }
    v
}
pub fn p20(ck: &Ck) {
    crate::p_roles::numbered_rights(ck);
    let wl = Wl::new(62);
    let rights = rights2();
    let general = [vec![a_sol(1)], vec![a_all()], vec![act(perm::MANAGE)], vec![act(perm::CLOSE), act(perm::SUB)]];
    let mut cases = vec![];
    for t in AUTH_TYPES { for r in 0..rights.len() { for g in 0..general.len() { for legacy in [false, true] { if legacy && (g > 1 || r > 8) { continue; } if !ck.thorough && g > 1 && t > 2 { continue; } cases.push((t, r, g, legacy)); } } } }
    ck.each("rights", &cases, |ck, &(t, r, g, legacy)| {
        let c = cr(t, 11);
        let acts = [&general[g][..], &rights[r][..]].concat();
        let w = world2(&wl, &c, &acts, legacy);
        let by = by_of(&c);
        let mut ops = vec![Do::S2Create];
        for id in [0u32, 1, 2, 3, 4] { ops.extend(every2(&wl, id)); }
        for op in ops { note(ck, apply(Some(ck), &w, &wl, &st(1, by, op.clone())), &|| format!("kind {t} {:?}: {}", acts, short_op(&op))); }
    });
    // the acting role elsewhere in the wallet or under another number
    let mut cases = vec![];
    for v in 0..RELOCATIONS { for t in [ED, EDS, K1, PE] { for r in 0..rights.len() { for g in 0..2 { cases.push((v, t, r, g)); } } } }
    ck.each("positions", &cases, |ck, &(v, t, r, g)| {
        let c = cr(t, 11);
        let acts = [&general[g][..], &rights[r][..]].concat();
        let Some((w, role, what)) = relocate(&world2(&wl, &c, &acts, false), &wl, 1, v) else { return };
        let mut ops = vec![Do::S2Create];
        for id in [0u32, 1, 2, 3, 4] { ops.extend(every2(&wl, id)); }
        for op in ops { note(ck, apply(Some(ck), &w, &wl, &st(role, by_of(&c), op.clone())), &|| format!("{what}, kind {t} {:?}: {}", acts, short_op(&op))); }
    });
    // large numbers
    let nums = [127u32, 128, 129, 254, 255, 256, 257, 258, 511, 512, 32767, 32768, 65534, 65535, 65536, 65537, 65792, 0xFF_FFFF, 0x100_0000, 0x100_0001, 0x7FFF_FFFF, 0x8000_0000, u32::MAX - 2, u32::MAX - 1];
    let mut cases = vec![];
    for n in nums { for t in AUTH_TYPES { for r in 0..24u8 { cases.push((n, t, r)); } } }
    ck.each("large-numbers", &cases, |ck, &(n, t, r)| {
        let c = cr(t, 11);
        // the right is for the number itself or one that shares some of its bytes
        let ty = [perm::V2_ALL, perm::V2_SIGN, perm::V2_WITHDRAW, perm::V2_TOGGLE][r as usize % 4];
        let near = [n, n & 0xff, n & 0xffff, n ^ 0x100, n ^ 0x1_0000, n.swap_bytes()][r as usize / 4];
        let mut w = world2(&wl, &c, &[a_sol(1), a_v2(ty, near)], false);
        let mut s = wl.sw(&w);
        s.subctr = n.max(near) + 1;
        wl.store(&mut w, &s);
        for (id, en) in [(n, true), (n & 0xff, false), (n & 0xffff, true), (near, r % 2 == 0)] { put_s2(&mut w, &wl, id, en); }
        for id in [n, n & 0xff, near] { for op in every2(&wl, id) {
            if matches!(&op, Do::S2Wd(_, _, Some(_))) { continue; }
            let Some(n2) = note(ck, apply(Some(ck), &w, &wl, &st(1, by_of(&c), op.clone())), &|| format!("number {id}, kind {t}, right {ty} for {near}: {}", short_op(&op))) else { continue };
            if matches!(op, Do::S2Tog(..)) { for op in every2(&wl, id) { if !matches!(&op, Do::S2Wd(_, _, Some(_))) { note(ck, apply(Some(ck), &n2, &wl, &st(1, by_of(&c), op.clone())), &|| format!("number {id} after a switch, right {ty} for {near}: {}", short_op(&op))); } } }
        } }
    });
    // every permission kind alone
    let cases = specimens();
    ck.each("other-permissions", &cases, |ck, a| {
        let c = cr(ED, 11);
        let w = world2(&wl, &c, &[a.clone()], false);
        let mut ops = vec![Do::S2Create];
        for id in [0u32, 1, 2, 3, 4] { ops.extend(every2(&wl, id)); }
        for op in ops { note(ck, apply(Some(ck), &w, &wl, &st(1, by_of(&c), op.clone())), &|| format!("{a:?}: {}", short_op(&op))); }
    });
    // accounts of another number, another wallet or somebody else in every position
    let f = Wl::new(64);
    let all: Vec<Act> = [vec![a_all(), act(perm::V2_CREATE)], (0..4).map(|i| a_v2(perm::V2_ALL, i)).collect()].concat();
    let mut cases = vec![];
    for t in AUTH_TYPES { for id in 0..4u32 { for op in 0..5usize { cases.push((t, id, op)); } } }
    ck.each("substituted", &cases, |ck, &(t, id, op)| {
        let c = cr(t, 11);
        let w = world2(&wl, &c, &all, false);
        let by = by_of(&c);
        let k = wl.sub2(id).0;
        let (call, own): (Call, Vec<Key>) = match op {
            0 => (c_sub2_create(&wl, 1, 4), vec![wl.swig, wl.sub2_state(4).0, wl.sub2(4).0]),
            1 => (c_sub2_toggle(&wl, 1, id, 1), vec![wl.swig, wl.sub2_state(id).0]),
            2 => (c_sub2_sign(&wl, 1, id, &[]), vec![wl.swig, wl.sub2_state(id).0, k]),
            3 => (c_sub2_withdraw(&wl, 1, id, 1, auth_key(&by), None), vec![wl.swig, wl.sub2_state(id).0, k, wl.wallet]),
            _ => (c_sub2_withdraw(&wl, 1, id, 1, auth_key(&by), wall(TOKEN, id as u8, W1)), vec![wl.swig, wl.sub2_state(id).0, k, wl.wallet]),
        };
        let mut keys: Vec<Key> = vec![wl.swig, wl.wallet, DEST, f.swig, f.wallet, ts(W1, &TOKEN), SYSTEM];
        for i in 0..5 { keys.extend([wl.sub2_state(i).0, wl.sub2(i).0]); }
        for i in 0..3 { keys.extend([f.sub2_state(i).0, f.sub2(i).0]); }
        // addresses other bumps lead to
        for b in (0..=255u8).rev().take(8) { for s in [&b"sub-account-v2-state"[..], &b"sub-account-v2"[..]] { if let Some(x) = create_pda(&[s, &wl.id, &id.to_le_bytes(), &[b]], &SWIG) { keys.push(x); } } }
        for (pos, meta) in call.metas.iter().enumerate() {
            if !own.contains(&meta.key) { continue; }
            for x in &keys {
                if *x == meta.key { continue; }
                let mut c2 = call.clone();
                c2.metas[pos].key = *x;
                let ixs = c2.go(&w, &wl, 1, &by);
                if ck.exec(&w, &ixs).is_ok() { ck.fail("sub2:substituted", format!("kind {t} op {op} number {id}: {} at position {pos} accepted", crate::model::short(x)), vec![], Some((w.clone(), ixs))); }
            }
        }
    });
    // contents of the state account
    let c = cr(ED, 11);
    let by = by_of(&c);
    let cases: Vec<(usize, u8)> = (0..72).flat_map(|i| [1u8, 2, 3, 0x40, 0x80, 0xff].map(|x| (i, x))).chain((0..=255).map(|x| (3, x))).chain((0..=255).map(|x| (0, x))).collect();
    ck.each("state-contents", &cases, |ck, &(i, x)| {
        let mut w = world2(&wl, &c, &all, false);
        w.edit(&wl.sub2_state(1).0, |a| a.data[i] ^= x);
        for op in every2(&wl, 1) {
            // the recorded bumps and address only matter for the operations that use them
            if (1..=2).contains(&i) || i >= 40 { if matches!(op, Do::S2Tog(..)) && i != 1 { continue; } }
            if i == 2 && matches!(&op, Do::S2Sign(_, l) if l.is_empty()) { continue; }
            note(ck, apply(Some(ck), &w, &wl, &st(1, by, op.clone())), &|| format!("state byte {i} ^ {x}: {}", short_op(&op)));
        }
    });
    let mut cases: Vec<(usize, Key)> = (0..140).map(|n| (n, SWIG)).collect();
    for o in [SYSTEM, R, TOKEN, f.swig] { cases.push((72, o)); }
    ck.each("state-size-and-owner", &cases, |ck, &(n, o)| {
        let mut w = world2(&wl, &c, &all, false);
        w.edit(&wl.sub2_state(1).0, |a| { a.data.resize(n, 0); a.lamports = rent(n); a.owner = o; });
        for op in every2(&wl, 1) { note(ck, apply(Some(ck), &w, &wl, &st(1, by, op.clone())), &|| format!("state of {n} bytes owned by {}: {}", crate::model::short(&o), short_op(&op))); }
    });
    // the next number: counters, bumps, prepared addresses, grants held before
    let mut cases = vec![];
    for ctr in [0u32, 1, 2, 7, 254, 255, 256, 257, 65535, 65536, u32::MAX - 1, u32::MAX] { for t in AUTH_TYPES { for held in 0..6u8 { cases.push((ctr, t, held)); } } }
    let w2 = |ctr: u32, c: &Cred, acts: &[Act]| {
        let mut w = base();
        let mut s = wl.install(&mut w, &[(OWNER, vec![a_all()]), (*c, acts.to_vec()), (cr(ED, 21), vec![a_v2(perm::V2_ALL, ctr)])], rent(0));
        s.subctr = ctr;
        let slot = w.slot;
        open(&mut s.roles[1], c.n, slot);
        s.claimer = (ctr % 2 == 1).then_some(nk(0xC1, 1));
        wl.store(&mut w, &s);
        w
    };
    ck.each("next-number", &cases, |ck, &(ctr, t, held)| {
        let c = cr(t, 11);
        let mut acts = vec![a_sol(2), act(perm::V2_CREATE), a_tok(&MINT, 3)];
        match held { 1 => acts.push(a_v2(perm::V2_ALL, ctr)), 2 => acts.insert(0, a_v2(perm::V2_ALL, ctr)), 3 => acts.push(a_v2(perm::V2_SIGN, ctr)), 4 => acts.push(a_v2(perm::V2_ALL, ctr.wrapping_add(1))), 5 => acts.insert(1, a_v2(perm::V2_ALL, ctr.wrapping_sub(1))), _ => {} }
        let mut w = w2(ctr, &c, &acts);
        for _ in 0..3 {
            let Some(n) = note(ck, apply(Some(ck), &w, &wl, &st(1, by_of(&c), Do::S2Create)), &|| format!("counter {ctr} kind {t} held {held}")) else { break };
            w = n;
        }
        for id in [ctr, ctr.wrapping_add(1), ctr.wrapping_add(2)] {
            let k = wl.sub2(id).0;
            for op in [Do::S2Sign(id, vec![sys_transfer(&DEST, &k, 1)]), Do::S2Wd(id, 0, None), Do::S2Tog(id, false)] { note(ck, apply(Some(ck), &w, &wl, &st(1, by_of(&c), op.clone())), &|| format!("counter {ctr}: {}", short_op(&op))); }
        }
    });
    let mut cases = vec![];
    for id in if ck.thorough { (0..40u32).collect::<Vec<_>>() } else { (0..6).collect() } { for b in 0..=255u8 { cases.push((id, b)); } }
    ck.each("creation-bumps", &cases, |ck, &(id, b)| {
        let w = w2(id, &c, &[act(perm::V2_CREATE)]);
        let (st_k, st_b) = wl.sub2_state(id);
        let (k, kb) = wl.sub2(id);
        let sk = create_pda(&[b"sub-account-v2-state", &wl.id, &id.to_le_bytes(), &[b]], &SWIG).unwrap_or(DEST);
        let ak = create_pda(&[b"sub-account-v2", &wl.id, &id.to_le_bytes(), &[b]], &SWIG).unwrap_or(DEST2);
        for (x, y, ka, kc) in [(b, kb, st_k, k), (st_b, b, st_k, k), (b, kb, sk, k), (st_b, b, st_k, ak), (b, b, sk, ak)] {
            let mut call = c_sub2_create(&wl, 1, id);
            for v in [&mut call.head, &mut call.dp] { v[8] = x; v[9] = y; }
            call.metas[2].key = ka;
            call.metas[3].key = kc;
            let ixs = call.go(&w, &wl, 1, &by);
            if (x, y, ka, kc) == (st_b, kb, st_k, k) { note(ck, compare(Some(ck), &w, &wl, 1, &by, &Do::S2Create, &ixs), &|| format!("number {id}")); }
            else if ck.exec(&w, &ixs).is_ok() { ck.fail("sub2-create:address", format!("number {id} with bumps {x} {y}: accepted"), vec![], Some((w.clone(), ixs))); }
        }
    });
    let pre = occupied(&wl);
    let mut cases = vec![];
    for i in 0..pre.len() { for j in 0..pre.len() { cases.push((i, j)); } }
    ck.each("occupied-addresses", &cases, |ck, &(i, j)| {
        let c = cr([ED, K1S][i % 2], 11);
        let mut w = w2(5, &c, &[act(perm::V2_CREATE)]);
        if let Some(a) = &pre[i] { w.put(wl.sub2_state(5).0, a.clone()); }
        if let Some(a) = &pre[j] { w.put(wl.sub2(5).0, a.clone()); }
        note(ck, apply(Some(ck), &w, &wl, &st(1, by_of(&c), Do::S2Create)), &|| format!("state address {i}, asset address {j}"));
    });
    // token withdrawals
    let us: Vec<u8> = vec![1, 2, 3, W1, W2, OTHER, FOREIGN, CONF];
    let mut cases = vec![];
    for s in &us { for d in &us { for v in 0..14u8 { for id in [1u32, 3] { cases.push((*s, *d, v, id)); } } } }
    ck.each("token-withdrawals", &cases, |ck, &(s, d, v, id)| {
        for p in [TOKEN, TOKEN22] {
            let mut w = world2(&wl, &c, &[a_v2(perm::V2_WITHDRAW, id)], false);
            let (sk, dk) = (ts(s, &p), ts(d, &p));
            let Some((dk, pk)) = token_variant(&mut w, v, &sk, &dk, p, d) else { continue };
            for n in [0u64, 1, 9, 10, u64::MAX] { note(ck, apply(Some(ck), &w, &wl, &st(1, by, Do::S2Wd(id, n, Some((sk, dk, pk))))), &|| format!("number {id}: from {s} to {d}, variant {v}, amount {n}")); }
        }
    });
    // one byte off: accounts' addresses and contents, and the number a right names
    let mut cases = vec![];
    for op in [Do::S2Create, Do::S2Tog(1, false), Do::S2Sign(1, vec![sys_transfer(&wl.sub2(1).0, &DEST, 3)]), Do::S2Wd(1, 3, None), Do::S2Wd(1, 4, wall(TOKEN, 1, W1)), Do::S2Wd(1, 4, wall(TOKEN22, 1, W2))] {
        let mut w = world2(&wl, &c, &[act(perm::V2_CREATE), a_v2(perm::V2_ALL, 1)], false);
        if let Do::S2Create = op { for k in [wl.sub2(4).0, wl.sub2_state(4).0] { w.accts.remove(&k); } }
        cases.push((short_op(&op), w, st(1, by, op)));
    }
    crate::p_life::near_misses(ck, "near-misses", &wl, &cases, &[wl.swig, wl.wallet, wl.sub2(1).0, wl.sub2_state(1).0, wl.sub2(4).0, wl.sub2_state(4).0]);
    // numbers of accounts
    let cases: Vec<usize> = (0..14).collect();
    ck.each("account-counts", &cases, |ck, &n| {
        let w = world2(&wl, &c, &[a_v2(perm::V2_WITHDRAW, 1)], false);
        let mut call = c_sub2_withdraw(&wl, 1, 1, 3, auth_key(&by), wall(TOKEN, 1, W1));
        while call.metas.len() < n { call.metas.push(m(DEST)); }
        call.metas.truncate(n);
        if n < 6 { return; }
        let ixs = call.go(&w, &wl, 1, &by);
        match n {
            7 => { note(ck, compare(Some(ck), &w, &wl, 1, &by, &Do::S2Wd(1, 3, None), &ixs), &|| format!("{n} accounts")); }
            10 => { note(ck, compare(Some(ck), &w, &wl, 1, &by, &Do::S2Wd(1, 3, wall(TOKEN, 1, W1)), &ixs), &|| format!("{n} accounts")); }
            _ => if ck.exec(&w, &ixs).is_ok() { ck.fail("sub2-withdraw:accounts", format!("withdrawal with {n} accounts accepted"), vec![], Some((w.clone(), ixs))); }
        }
    });
    // what the sub-account signs
    let list = inners(&wl, &wl.sub2(1).0, 1, ck.thorough);
    let mut cases = vec![];
    for t in AUTH_TYPES { for i in 0..list.len() { if i < 40 || t == ED { cases.push((t, i)); } } }
    ck.each("signing", &cases, |ck, &(t, i)| {
        let c = cr(t, 11);
        for acts in [vec![a_v2(perm::V2_SIGN, 1)], vec![a_all(), a_v2(perm::V2_ALL, 1)]] {
            let w = world2(&wl, &c, &acts, false);
            note(ck, apply(Some(ck), &w, &wl, &st(1, by_of(&c), Do::S2Sign(1, list[i].clone()))), &|| format!("kind {t} signs list {i}"));
        }
    });
    let cases: Vec<u8> = (0..=255).collect();
    ck.each("enabled-byte", &cases, |ck, &b| {
        for id in 0..4u32 {
            let w = world2(&wl, &c, &[a_v2(perm::V2_TOGGLE, id)], false);
            let ixs = c_sub2_toggle(&wl, 1, id, b).go(&w, &wl, 1, &by);
            if b < 2 { note(ck, compare(Some(ck), &w, &wl, 1, &by, &Do::S2Tog(id, b == 1), &ixs), &|| format!("toggle to {b}")); }
            else if ck.exec(&w, &ixs).is_ok() { ck.fail("sub2-toggle:value", format!("toggle to {b} accepted"), vec![], Some((w.clone(), ixs))); }
        }
    });
    // histories
    let mut w = base();
    let mut s = wl.install(&mut w, &[(OWNER, vec![a_all()]), (cr(ED, 11), vec![act(perm::V2_CREATE)]), (cr(EDS, 12), vec![a_sol(1), a_v2(perm::V2_SIGN, 0), a_v2(perm::V2_TOGGLE, 1)]), (cr(R1, 13), vec![act(perm::V2_CREATE), a_v2(perm::V2_WITHDRAW, 0)])], rent(0) + 5);
    let slot = w.slot;
    open(&mut s.roles[2], 12, slot);
    wl.store(&mut w, &s);
    put_tokens(&mut w, &wl, &[(0, wl.sub2(0).0), (1, wl.sub2(1).0)], &f);
    let (b0, b1, b2, b3) = (By::Main(OWNER), main_by(ED, 11), sess(12), main_by(R1, 13));
    let pay = |o: u32, n: u64| Do::S2Sign(o, vec![sys_transfer(&wl.sub2(o).0, &DEST, n)]);
    let fill = |o: u32| st(0, b0, Do::Sign(vec![sys_transfer(&DEST, &wl.sub2(o).0, 5)]));
    let mut acts = vec![st(0, b0, Do::S2Create), fill(0), fill(1), wait(91)];
    for (r, b) in [(1u32, b1), (2, b2), (3, b3)] {
        if r != 2 { acts.push(st(r, b, Do::S2Create)); }
        for id in [0u32, 1] { acts.extend([st(r, b, pay(id, 2)), st(r, b, Do::S2Wd(id, 3, None)), st(r, b, Do::S2Tog(id, false)), st(r, b, Do::S2Tog(id, true))]); }
    }
    acts.extend([
        st(1, b1, Do::S2Wd(0, 4, wall(TOKEN, 0, W1))), st(3, b3, Do::S2Wd(0, 4, wall(TOKEN, 0, OTHER))),
        st(0, b0, Do::Up(1, Upd::ByType(vec![perm::V2_ALL as u8]))), st(0, b0, Do::Up(2, Upd::Append(vec![a_v2(perm::V2_ALL, 1)]))), st(0, b0, Do::Up(3, Upd::Append(vec![a_v2(perm::V2_ALL, 0)]))), st(0, b0, Do::Remove(1)), st(0, b0, Do::Add(cr(ED, 11), vec![a_v2(perm::V2_SIGN, 0)])), st(4, b1, pay(0, 1)),
    ]);
    ck.bfs("histories", &OpM { wl, inits: vec![w], acts }, if ck.thorough { 8 } else { 6 });
}
