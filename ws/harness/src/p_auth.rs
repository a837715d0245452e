//! P01..P05, P24: who may act for a role.
use crate::mcx::*;
use crate::p_roles::{cr, open, sess, STO};
use crate::p_sign::{base, LTD, MINT, OWNER, R};
use crate::progs::{r1_ix, r1_ix_with_sig, r1_sig, script_data, tok};
use crate::spec::*;
use crate::sw::*;
use crate::vm::*;

/// A wallet with one role of every credential kind (role t has kind t), all of
/// them allowed to do anything, and everything an operation could need.
pub fn crowd(wl: &Wl, n: u8, legacy: bool, sessions: Option<i64>) -> World {
    let mut w = base();
    let mut roles = vec![(OWNER, vec![a_all()])];
    for t in AUTH_TYPES {
        roles.push((cr(t, n), vec![a_all(), act(perm::SUB), sub1_rec(wl, t as u32, true), act(perm::V2_CREATE), a_v2(perm::V2_ALL, 0), act(perm::CLOSE)]));
    }
    roles.push((LTD, vec![a_sol(5)]));
    let mut s = wl.install(&mut w, &roles, rent(0));
    if let Some(d) = sessions {
        for r in s.roles.iter_mut() {
            if !is_session(r.aty) { continue; }
            let o = sess_off(r.aty);
            let k = sess_key(r.aty as u8);
            r.auth[o..o + 32].copy_from_slice(&k);
            put64(&mut r.auth, o + 40, (w.slot as i64 + d) as u64);
        }
    }
    s.subctr = 1;
    if legacy { wl.legacy(&mut s, 0); w.accts.remove(&wl.wallet); }
    wl.store(&mut w, &s);
    for t in AUTH_TYPES { w.fund(wl.sub1(t as u32).0, rent(0) + 30); }
    w.put(wl.sub2_state(0).0, Acct { lamports: rent(72), owner: SWIG, exec: false, data: sub2_data(wl, 0, true) });
    w.fund(wl.sub2(0).0, rent(0) + 30);
    w.put(MINT, tok::mint_acct(TOKEN, PAYER, 100));
    let h = if legacy { wl.swig } else { wl.wallet };
    w.put(STO, tok::acct(TOKEN, &tok::new(MINT, h, 0)));
    w
}
/// every kind of operation, as role `r` could perform it in `crowd`
pub fn every_op(wl: &Wl, r: u32, legacy: bool) -> Vec<Do> {
    let pay = |k: Key| vec![sys_transfer(&k, &DEST, 1)];
    let mut v = vec![
        Do::Add(cr(ED, 99), vec![a_sol(1)]), Do::Remove(9), Do::Up(9, Upd::Append(vec![a_sol(3)])), Do::Replace(9, ed_key(98).to_vec()), Do::Session(5, sess_key(99)),
        Do::Claimer(nk(0xC1, 1)), Do::CloseTok(DEST, TOKEN, vec![STO]), Do::CloseSwig(DEST), Do::S1Tog(r, r, false), Do::S1Wd(r, 1, None), Do::S1Sign(r, pay(wl.sub1(r).0)),
    ];
    if legacy { v.push(Do::Migrate); } else {
        v.extend([Do::Transfer(vec![]), Do::Sign(vec![Ix { prog: R, metas: vec![m(wl.wallet)], data: script_data(&[]) }]), Do::S1Create, Do::S2Create, Do::S2Tog(0, false), Do::S2Sign(0, pay(wl.sub2(0).0)), Do::S2Wd(0, 1, None)]);
    }
    v
}
/// the genuine way for role `t` of `crowd` to do `op`
pub fn own(t: u16, n: u8, op: &Do) -> By {
    if is_session(t) && !matches!(op, Do::Session(..)) { By::Sess(sess_key(t as u8)) } else { By::Main(cr(t, n)) }
}
fn payload_at(w: &World, wl: &Wl, role: u32, by: &By, op: &Do) -> usize { op_call(w, wl, role, by, op).head.len() }
fn has_key(metas: &[Meta], i: u8, k: &Key, signer: bool) -> bool {
    metas.get(i as usize).is_some_and(|x| x.key == *k && (!signer || metas.iter().any(|y| y.key == *k && y.signer)))
}
pub fn other_ix() -> Ix { Ix { prog: R, metas: vec![m(DEST)], data: script_data(&[]) } }
/// what must come of a changed transaction, given the outcome of the genuine one
pub fn judge(ck: &Ck, w: &World, ixs: &[Ix], good: &World, ok: bool, key: &str, label: &dyn Fn() -> String) {
    match (ok, ck.exec(w, ixs)) {
        (true, Ok(d)) => if let Some(x) = crate::model::diff(good, &d.world) { ck.fail(&format!("{key}:effect"), format!("{}: different effect: {x}", label()), vec![], Some((w.clone(), ixs.to_vec()))) },
        (false, Ok(_)) => ck.fail(&format!("{key}:accepted"), format!("{}: accepted although the authorisation is not valid", label()), vec![], Some((w.clone(), ixs.to_vec()))),
        (true, Err(e)) => ck.fail(&format!("{key}:refused"), format!("{}: refused ({e:?}) although the authorisation is valid", label()), vec![], Some((w.clone(), ixs.to_vec()))),
        (false, Err(_)) => {}
    }
}
/// as `judge` when either verdict is fine, as long as nothing else happens
pub fn judge_maybe(ck: &Ck, w: &World, ixs: &[Ix], good: &World, key: &str, label: &dyn Fn() -> String) {
    if let Ok(d) = ck.exec(w, ixs) {
        if let Some(x) = crate::model::diff(good, &d.world) { ck.fail(&format!("{key}:effect"), format!("{}: different effect: {x}", label()), vec![], Some((w.clone(), ixs.to_vec()))) }
    }
}

// ------------------------------------------------------------------ P01
pub fn p01(ck: &Ck) {
    let wl = Wl::new(31);
    let n = 11u8;
    // who can do what: every operation, every role, every presented credential
    let mut bys: Vec<By> = vec![];
    for t in AUTH_TYPES { for n in [11u8, 12] { bys.push(By::Main(cr(t, n))); } }
    for t in [EDS, K1S, R1S, PES] { bys.push(By::Sess(sess_key(t as u8))); }
    bys.extend([By::Sess(sess_key(77)), By::Sess(PAYER), By::Sess(wl.wallet), By::Main(OWNER), By::Main(LTD), By::Main(cr(PE, 45))]);
    let worlds: Vec<(&str, bool, World)> = vec![
        ("open", false, crowd(&wl, n, false, Some(10))), ("last slot", false, crowd(&wl, n, false, Some(0))), ("over", false, crowd(&wl, n, false, Some(-1))), ("none", false, crowd(&wl, n, false, None)), ("legacy", true, crowd(&wl, n, true, Some(10))),
    ];
    let mut cases = vec![];
    for wi in 0..worlds.len() { for role in 0..11u32 { for (b, by) in bys.iter().enumerate() { if *by == By::Sess(wl.wallet) { continue; } cases.push((wi, role, b)); } } }
    ck.each("who-may-act", &cases, |ck, &(wi, role, b)| {
        let (name, legacy, w) = &worlds[wi];
        for op in every_op(&wl, role.clamp(1, 8), *legacy) {
            note(ck, apply(Some(ck), w, &wl, &st(role, bys[b], op.clone())), &|| format!("{name}: role {role} by {:?}: {}", bys[b], op.name()));
        }
    });
    // two presentations at once, shared keys: several roles with one credential
    let mut cases = vec![];
    for t in AUTH_TYPES { for u in AUTH_TYPES { for n2 in [11u8, 12] { cases.push((t, u, n2)); } } }
    // role numbers differing in any one bit (every instruction walks all numbers up to the highest given, hence 2^20)
    let mut nums = vec![];
    for k in 0..if ck.thorough { 22 } else { 20 } { for t in AUTH_TYPES { for u in [ED, EDS, K1, R1S] { nums.push((k, t, u)); } } }
    ck.each("role-numbers", &nums, |ck, &(k, t, u)| {
        for low in [1u32, 3] {
            let high = low ^ (1 << k);
            if high == 0 { continue; }
            let mut w = base();
            let mut s = wl.install(&mut w, &[(OWNER, vec![a_all()]), (cr(t, 11), vec![a_all()]), (cr(u, 12), vec![a_all()])], rent(0));
            let (a, b) = (low.min(high), low.max(high));
            (s.roles[1].id, s.roles[2].id, s.counter) = (a, b, b + 1);
            for r in s.roles.iter_mut() { if is_session(r.aty) {
                let o = sess_off(r.aty);
                let k = sess_key(r.id as u8 ^ r.aty as u8);
                r.auth[o..o + 32].copy_from_slice(&k);
                put64(&mut r.auth, o + 40, w.slot + 9);
            } }
            wl.store(&mut w, &s);
            let mut by = vec![By::Main(cr(t, 11)), By::Main(cr(u, 12))];
            for (id, c) in [(a, t), (b, u)] { if is_session(c) { by.push(By::Sess(sess_key(id as u8 ^ c as u8))); } }
            for role in [a, b, a ^ 0x8000_0000, b ^ 2] { for by in &by { for op in [Do::Add(cr(ED, 99), vec![a_sol(1)]), Do::Up(b, Upd::Append(vec![a_sol(3)])), Do::Remove(a), Do::Remove(b), Do::Session(5, sess_key(99))] {
                let label = || format!("roles {a} ({t}) and {b} ({u}): role {role} by {by:?}: {}", short_op(&op));
                note(ck, apply(Some(ck), &w, &wl, &st(role, *by, op.clone())), &label);
            } } }
        }
    });
    ck.each("two-roles", &cases, |ck, &(t, u, n2)| {
        let mut w = base();
        let mut s = wl.install(&mut w, &[(OWNER, vec![a_all()]), (cr(t, 11), vec![a_all()]), (cr(u, n2), vec![a_all()])], rent(0) + 40);
        let slot = w.slot;
        open(&mut s.roles[1], 11, slot);
        open(&mut s.roles[2], n2, slot);
        s.roles[1].set_odometer(3);
        wl.store(&mut w, &s);
        for role in [1u32, 2] { for by in [By::Main(cr(t, 11)), By::Main(cr(u, n2)), sess(11), sess(n2)] {
            for op in [Do::Add(cr(ED, 99), vec![a_sol(1)]), Do::Session(7, sess_key(88)), Do::Remove(role), Do::Sign(vec![])] {
                note(ck, apply(Some(ck), &w, &wl, &st(role, by, op.clone())), &|| format!("kinds {t},{u} keys 11,{n2}: role {role} by {by:?} {}", op.name()));
            }
        } }
    });
    // corruptions of the authorisation
    let mut cases = vec![];
    for legacy in [false, true] { for t in AUTH_TYPES { for i in 0..every_op(&wl, t as u32, legacy).len() { cases.push((t, i, legacy)); } } }
    ck.each("corruptions", &cases, |ck, &(t, i, legacy)| {
        let w = &worlds[if legacy { 4 } else { 0 }].2;
        let role = t as u32;
        let op = every_op(&wl, role, legacy)[i].clone();
        let by = if matches!(op, Do::Replace(..)) && t == PE { return } else { own(t, n, &op) };
        let ixs = op_ixs(w, &wl, role, &by, &op);
        let Some(good) = note(ck, compare(Some(ck), w, &wl, role, &by, &op, &ixs), &|| format!("kind {t}, {}", op.name())) else { return };
        let last = ixs.len() - 1;
        let at = payload_at(w, &wl, role, &by, &op);
        let pl = ixs[last].data[at..].to_vec();
        let c = { let mut c = op_call(w, &wl, role, &by, &op); c.metas = ixs[last].metas.clone(); c };
        let with = |p: &[u8]| { let mut v = ixs.clone(); v[last] = c.with(p); v };
        let metas = ixs[last].metas.clone();
        let session = matches!(by, By::Sess(_));
        let l = |what: &str| format!("kind {t}, {}: {what}", op.name());
        let key = |x: &str| format!("corrupt-{x}");
        // single byte changes
        for p in 0..pl.len() {
            for x in 1..=255u8 {
                if !(x.is_power_of_two() || x == 0xff || p == 0 && pl.len() <= 2) { continue; }
                let mut q = pl.clone();
                q[p] ^= x;
                let ok = if session { has_key(&metas, q[0], &match by { By::Sess(k) => k, _ => unreachable!() }, true) } else {
                    match t {
                        ED | EDS => has_key(&metas, q[0], &ed_key(n), true),
                        K1 | K1S => p == 76 && (q[76] == 27) == (pl[76] == 27),
                        R1 | R1S => p >= 13 || p == 12 && has_key(&metas, q[12], &IXS, false),
                        _ => has_key(&metas, q[0], &IXS, false),
                    }
                };
                // the recovery byte and the reserved bytes carry no meaning
                if ok && (p == 76 || p >= 13 && p < 17) { judge_maybe(ck, w, &with(&q), &good, &key("byte"), &|| l(&format!("payload byte {p} ^ {x}"))); continue; }
                judge(ck, w, &with(&q), &good, ok, &key("byte"), &|| l(&format!("payload byte {p} ^ {x}")));
            }
        }
        for k in 0..pl.len() { judge(ck, w, &with(&pl[..k]), &good, false, &key("truncated"), &|| l(&format!("payload cut to {k}"))); }
        for x in [0u8, 1, 0x45, 0xff] {
            let q = [&pl[..], &[x]].concat();
            if session && matches!(t, K1S | R1S) { judge_maybe(ck, w, &with(&q), &good, &key("extended"), &|| l("payload extended")); continue; }
            let ok = matches!(t, PE | PES) && !session && x == 0;
            judge(ck, w, &with(&q), &good, ok, &key("extended"), &|| l(&format!("payload extended by {x}")));
        }
        for f in [0u8, 0xff] { let q = vec![f; pl.len()]; let ok = session && has_key(&metas, f, &match by { By::Sess(k) => k, _ => SYSTEM }, true) || !session && matches!(t, ED | EDS) && has_key(&metas, f, &ed_key(n), true); judge(ck, w, &with(&q), &good, ok, &key("filled"), &|| l(&format!("payload all {f}"))); }
        // the credential's account: not signing, or another one in its place
        let ak = match (&by, t) { (By::Sess(k), _) => *k, (_, ED | EDS) => ed_key(n), (_, K1 | K1S) => SYSTEM, _ => IXS };
        if ak != SYSTEM {
            for mode in 0..3 {
                let mut v = ixs.clone();
                for x in v[last].metas.iter_mut().filter(|x| x.key == ak) {
                    match mode { 0 => x.signer = false, 1 => { x.key = nk(0xEE, 1); } _ => { x.key = nk(0xEE, 2); x.signer = true; } }
                }
                if mode == 0 && ak == IXS { continue; }
                judge(ck, w, &v, &good, false, &key("account"), &|| l(&format!("credential account mode {mode}")));
            }
        }
        if ixs.len() == 2 {
            judge(ck, w, &ixs[1..], &good, false, &key("preceding"), &|| l("nothing before"));
            judge(ck, w, &[ixs[1].clone(), ixs[0].clone()], &good, false, &key("preceding"), &|| l("approval after"));
            judge(ck, w, &[ixs[0].clone(), other_ix(), ixs[1].clone()], &good, false, &key("preceding"), &|| l("something in between"));
            judge(ck, w, &[other_ix(), ixs[0].clone(), ixs[1].clone()], &good, true, &key("preceding"), &|| l("something before"));
            judge(ck, w, &[ixs[0].clone(), ixs[0].clone(), ixs[1].clone()], &good, true, &key("preceding"), &|| l("approval twice"));
            judge(ck, w, &[ixs[0].clone(), ixs[1].clone(), other_ix()], &good, true, &key("preceding"), &|| l("something after"));
            judge(ck, w, &[other_ix(), ixs[1].clone()], &good, false, &key("preceding"), &|| l("something else before"));
        }
        // called by another program: the inner-instruction operations are refused,
        // the others are judged as if the transaction had called them
        {
            let inner = matches!(op, Do::Sign(..) | Do::S1Sign(..) | Do::S2Sign(..));
            let mut v = ixs.clone();
            v[last] = through(script_id(51), &[], &ixs[last]);
            judge(ck, w, &v, &good, !inner, &key("called"), &|| l("called by a program"));
            v[last] = through(script_id(52), &[], &v[last]);
            judge(ck, w, &v, &good, !inner, &key("called"), &|| l("called by a program called by a program"));
            if ixs.len() == 2 {
                judge(ck, w, &v[1..], &good, false, &key("called"), &|| l("called by a program, nothing before"));
                judge(ck, w, &[v[1].clone(), v[0].clone()], &good, false, &key("called"), &|| l("called by a program, approval after"));
                judge(ck, w, &[v[0].clone(), other_ix(), v[1].clone()], &good, false, &key("called"), &|| l("called by a program, something in between"));
                // the approval is itself called by a program: the transaction does not contain it
                if matches!(t, PE | PES) { judge(ck, w, &[through(script_id(51), &[], &v[0]), ixs[1].clone()], &good, false, &key("called"), &|| l("approval called by a program")); }
            }
            // a signer the caller does not have cannot be passed on
            if ak != SYSTEM && ak != IXS {
                let mut v = ixs.clone();
                let mut x = through(script_id(51), &[], &ixs[last]);
                for y in x.metas.iter_mut().filter(|y| y.key == ak) { y.signer = false; }
                v[last] = x;
                judge(ck, w, &v, &good, false, &key("called"), &|| l("called by a program without the signature"));
            }
        }
        if matches!(t, R1 | R1S) && !session { r1_forgeries(ck, w, &ixs, &good, n, &|x| l(x)); }
        if matches!(t, K1 | K1S) && !session { k1_forgeries(ck, w, &wl, role, n, &c, &good, &|x| l(x)); }
    });
}
/// precompile instructions that verify something, but not the role's approval
pub fn r1_forgeries(ck: &Ck, w: &World, ixs: &[Ix], good: &World, n: u8, l: &dyn Fn(&str) -> String) {
    let pk = r1_pk(n);
    let evil = r1_pk(66);
    let msg = ixs[0].data[113..].to_vec();
    let run = |ix: Ix, ok: bool, what: &str| judge(ck, w, &[ix, ixs[1].clone()], good, ok, "forged-r1", &|| l(what));
    run(r1_ix(&evil, &msg), false, "other key");
    for i in 0..33 { let mut k = pk; k[i] ^= 1; run(r1_ix(&k, &msg), false, "near key"); }
    for i in 0..msg.len() { for x in [1u8, 0x80] { let mut k = msg.clone(); k[i] ^= x; run(r1_ix(&pk, &k), false, "other message"); } }
    for k in 0..msg.len() { run(r1_ix(&pk, &msg[..k]), false, "short message"); }
    run(r1_ix(&pk, &[&msg[..], &[0]].concat()), false, "long message");
    run(r1_ix(&pk, &[&[0][..], &msg].concat()), false, "shifted message");
    // genuine-looking bytes, verified elsewhere: each offset may point to a forged copy at the end
    for mask in 0..64u32 {
        let mut d = ixs[0].data.clone();
        let (sig_o, pk_o, msg_o) = (d.len() as u16, d.len() as u16 + 64, d.len() as u16 + 97);
        let (far_sig, far_pk, far_msg) = (mask & 1 != 0, mask & 2 != 0, mask & 4 != 0);
        let vk: [u8; 33] = if far_pk { evil } else { pk };
        let vm: Vec<u8> = if far_msg { vec![7; msg.len()] } else { msg.clone() };
        // the signature the precompile needs for what it is pointed at; for the
        // role's own key only the genuine one is available to a forger
        let genuine = !far_pk && !far_msg;
        let s: [u8; 64] = if genuine { r1_sig(&pk, &msg) } else if far_pk { r1_sig(&vk, &vm) } else if mask & 8 != 0 { r1_sig(&pk, &vm) } else { [9; 64] };
        d.extend(if far_sig { s } else { [3; 64] });
        d.extend(evil);
        d.extend(vec![7; msg.len()]);
        if !far_sig { d[49..113].copy_from_slice(&s); }
        if far_sig { d[2..4].copy_from_slice(&sig_o.to_le_bytes()); }
        if far_pk { d[6..8].copy_from_slice(&pk_o.to_le_bytes()); }
        if far_msg { d[10..12].copy_from_slice(&msg_o.to_le_bytes()); }
        let own = |d: &mut Vec<u8>, o: usize| d[o..o + 2].copy_from_slice(&0u16.to_le_bytes());
        if mask & 16 != 0 { own(&mut d, 4); }
        if mask & 32 != 0 { own(&mut d, 8); own(&mut d, 14); }
        let ix = Ix { prog: R1PROG, metas: vec![], data: d };
        let l = || l(&format!("redirected offsets {mask:06b}"));
        if genuine { judge_maybe(ck, w, &[ix, ixs[1].clone()], good, "forged-r1", &l) } else { judge(ck, w, &[ix, ixs[1].clone()], good, false, "forged-r1", &l) }
    }
    // one field of the offsets at a time, with everything it could need in place
    for f in 0..7usize { for v in [0u16, 1, 2, 15, 17, 31, 32, 33, 48, 50, 64, 112, 114, 145, 0xfffe, 0xffff] {
        let mut d = ixs[0].data.clone();
        if d[2 + 2 * f..4 + 2 * f] == v.to_le_bytes() { continue; }
        d[2 + 2 * f..4 + 2 * f].copy_from_slice(&v.to_le_bytes());
        let ix = Ix { prog: R1PROG, metas: vec![], data: d };
        if matches!(f, 1 | 3 | 6) && v == 0 { judge_maybe(ck, w, &[ix, ixs[1].clone()], good, "forged-r1", &|| l("own index")); continue; }
        judge(ck, w, &[ix, ixs[1].clone()], good, false, "forged-r1", &|| l(&format!("offset field {f} = {v}")));
    } }
    // data of another instruction verified
    {
        let first = r1_ix(&evil, &msg);
        let mut d = ixs[0].data.clone();
        for o in [4, 8, 14] { d[o..o + 2].copy_from_slice(&0u16.to_le_bytes()); }
        judge(ck, w, &[first, Ix { prog: R1PROG, metas: vec![], data: d }, ixs[1].clone()], good, false, "forged-r1", &|| l("offsets into another instruction"));
    }
    // every way of redirecting the three parts to another instruction, which holds a
    // genuine signature: of another key, or of the role's key over something else
    let other = sha256(&[b"something else the role's key once signed"]).to_vec();
    for (hk, hm) in [(evil, msg.clone()), (evil, other.clone()), (pk, other.clone())] {
        let host = r1_ix(&hk, &hm);
        for mask in 1..8u32 { for at in [0u16, 1, 2] { for fill in 0..3 {
            let mut d = ixs[0].data.clone();
            for (i, o) in [4, 8, 14].into_iter().enumerate() { if mask >> i & 1 != 0 { d[o..o + 2].copy_from_slice(&at.to_le_bytes()); } }
            // what the instruction then verifies: instruction 0 is the host, 1 is itself, 2 the wallet's
            let vk = if mask & 2 != 0 && at == 0 { hk } else { pk };
            let vm = if mask & 4 != 0 && at == 0 { hm.clone() } else { msg.clone() };
            let right = vk == pk && vm == msg;
            let s = match fill { 0 => r1_sig(&vk, &vm), 1 => r1_sig(&hk, &hm), _ => ixs[0].data[49..113].try_into().unwrap() };
            if right && s == r1_sig(&pk, &msg) { continue; }
            d[49..113].copy_from_slice(&s);
            let list = [host.clone(), Ix { prog: R1PROG, metas: vec![], data: d }, ixs[1].clone()];
            judge(ck, w, &list, good, false, "forged-r1", &|| l(&format!("redirected to instruction {at}, parts {mask:03b}")));
        } } }
    }
    // one part elsewhere in the same instruction, or of another length, with a signature for what is there
    let far: Vec<u16> = (0..8).flat_map(|k| [256u16 << k]).chain([1, 2, 8, 16, 32, 64, 97, 128]).collect();
    for (f, o) in [(2usize, 16u16), (4, 113)] { for k in &far {
        let v = o.wrapping_add(*k);
        let mut d = ixs[0].data.clone();
        let n = if f == 2 { 33 } else { msg.len() };
        if d.len() < v as usize + n { d.resize(v as usize + n, 0); }
        d[2 + 2 * f..4 + 2 * f].copy_from_slice(&v.to_le_bytes());
        let at = v as usize;
        if at >= 145 { if f == 2 { d[at..at + 33].copy_from_slice(&evil) } else { d[at..at + n].copy_from_slice(&other) } }
        let (vk, vm) = if f == 2 { (d[at..at + 33].to_vec(), msg.clone()) } else { (pk.to_vec(), d[at..at + n].to_vec()) };
        let sig = r1_sig(&vk, &vm);
        d[49..113].copy_from_slice(&sig);
        if (if f == 2 { d[at..at + 33] != vk[..] } else { d[at..at + n] != vm[..] }) { continue; }
        run(Ix { prog: R1PROG, metas: vec![], data: d }, false, &format!("part {f} moved by {k}"));
    } }
    for size in (0..=96u16).chain((0..8).map(|k| 32 + (256 << k))) {
        if size as usize == msg.len() { continue; }
        let mut d = ixs[0].data.clone();
        d.resize(113 + (size as usize).max(32), 7);
        d[12..14].copy_from_slice(&size.to_le_bytes());
        let sig = r1_sig(&pk, &d[113..113 + size as usize]);
        d[49..113].copy_from_slice(&sig);
        run(Ix { prog: R1PROG, metas: vec![], data: d }, false, &format!("message length {size}"));
    }
    // no signature, or several
    for k in [0u8, 2, 3, 255] { let mut d = ixs[0].data.clone(); d[0] = k; run(Ix { prog: R1PROG, metas: vec![], data: d }, false, "signature count"); }
    {
        // two signatures, the second one genuine or the first one
        for evil_first in [true, false] {
            let mut d = vec![2u8, 0];
            let ks = if evil_first { [evil, pk] } else { [pk, evil] };
            for i in 0..2u16 { let b = 30 + i * (97 + msg.len() as u16); for v in [b + 33, 0xffff, b, 0xffff, b + 97, msg.len() as u16, 0xffff] { d.extend(v.to_le_bytes()); } }
            for k in ks { d.extend(k); d.extend(r1_sig(&k, &msg)); d.extend(&msg); }
            judge_maybe(ck, w, &[Ix { prog: R1PROG, metas: vec![], data: d }, ixs[1].clone()], good, "forged-r1", &|| l("two signatures"));
        }
    }
    // the same data executed by a program that verifies nothing
    for p in [R, SYSTEM, TOKEN, STAKE] { run(Ix { prog: p, metas: vec![], data: ixs[0].data.clone() }, false, "not the precompile"); }
    run(r1_ix_with_sig(&pk, &msg, &[5; 64]), false, "bad signature");
}
pub fn k1_forgeries(ck: &Ck, w: &World, wl: &Wl, role: u32, n: u8, c: &Call, good: &World, l: &dyn Fn(&str) -> String) {
    let ctr = wl.sw(w).role(role).unwrap().odometer().wrapping_add(1);
    let mut c = c.clone();
    c.set_plen(77);
    let run = |p: &[u8], ok: bool, what: &str| judge(ck, w, &[c.with(p)], good, ok, "forged-k1", &|| l(what));
    run(&k1_payload(66, &c.dp, &c.metas, w.slot, ctr), false, "other key");
    let mut dp = c.dp.clone();
    if let Some(b) = dp.last_mut() { *b ^= 1; }
    run(&k1_payload(n, &dp, &c.metas, w.slot, ctr), false, "other content");
    run(&k1_payload(n, &c.dp, &c.metas[1..], w.slot, ctr), false, "other accounts");
    let mut p = k1_payload(n, &c.dp, &c.metas, w.slot, ctr);
    // signed for one slot or counter, presented with another
    for (s, k) in [(w.slot - 1, ctr), (w.slot, ctr.wrapping_add(1)), (w.slot, ctr.wrapping_sub(1))] {
        let q = k1_payload(n, &c.dp, &c.metas, s, k);
        let mut r = p.clone();
        r[12..].copy_from_slice(&q[12..]);
        run(&r, false, "signed for another slot or counter");
    }
    // the mirrored signature
    let mut s = [0u8; 32];
    s.copy_from_slice(&p[44..76]);
    p[44..76].copy_from_slice(&neg_n(&s));
    p[76] = if p[76] == 27 { 28 } else { 27 };
    run(&p, false, "mirrored signature");
    for f in [0u8, 0xff] { let mut q = p.clone(); q[12..76].fill(f); run(&q, false, "degenerate signature"); }
    let mut q = p.clone(); q[44..76].fill(0); run(&q, false, "s = 0");
    let mut q = p.clone(); q[12..44].fill(0); run(&q, false, "r = 0");
    // the key with the same x coordinate
    {
        let msg = k1_msg(&c.dp, &c.metas, w.slot, ctr, b"");
        let (s, r) = libsecp256k1::sign(&libsecp256k1::Message::parse(&msg), &libsecp256k1::SecretKey::parse(&neg_n(&k1_secret(n).serialize())).unwrap());
        let mut q = p.clone();
        q[12..76].copy_from_slice(&s.serialize());
        q[76] = 27 + r.serialize();
        run(&q, false, "negated key");
        // another recovery id names another key; other ways of writing the same one are no other approval
        for v in 0..=255u8 {
            let mut q = k1_payload(n, &c.dp, &c.metas, w.slot, ctr);
            if q[76] == v { continue; }
            q[76] = v;
            if v == 27 || v == 28 { run(&q, false, "the other recovery id"); } else { judge_maybe(ck, w, &[c.with(&q)], good, "forged-k1", &|| l(&format!("recovery id {v}"))); }
        }
    }
    // wrong hash constructions
    let h = sha256(&[&c.dp, &accounts_bytes(&c.metas), &w.slot.to_le_bytes(), &ctr.to_le_bytes()]);
    for (msg, what) in [(h, "unhashed"), (keccak256(&[&h]), "raw hash"), (keccak256(&[&c.dp, &accounts_bytes(&c.metas), &w.slot.to_le_bytes(), &ctr.to_le_bytes()]), "keccak only")] {
        let mut v = w.slot.to_le_bytes().to_vec();
        v.extend(ctr.to_le_bytes());
        v.extend(k1_sign(n, &msg));
        run(&v, false, what);
    }
}
fn neg_n(s: &Key) -> Key {
    const N: Key = [0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe, 0xba, 0xae, 0xdc, 0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41];
    let mut o = [0; 32];
    let mut b = 0i32;
    for i in (0..32).rev() {
        let v = N[i] as i32 - s[i] as i32 - b;
        o[i] = v as u8;
        b = (v < 0) as i32;
    }
    o
}
