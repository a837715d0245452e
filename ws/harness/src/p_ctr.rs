//! P02, P03, P05: counters, bindings, sessions.
use crate::mcx::*;
use crate::model::diff;
use crate::p_auth::*;
use crate::p_roles::{cr, main_by, open, sess};
use crate::p_sign::{base, LTD, OWNER, R};
use crate::progs::{r1_ix, script_data};
use crate::spec::*;
use crate::sw::*;
use crate::vm::*;

// ------------------------------------------------------------------ P02
/// A signed message, as whoever saw it could keep it.
#[derive(Clone, Hash)]
struct Msg { role: u32, cred: Cred, op: u8, slot: u64, ctr: u32, used: u8 }
#[derive(Clone, Hash)]
struct Hist { w: World, log: Vec<Msg>, replaced: Vec<u32> }
#[derive(Clone, Debug)]
enum Ev {
    /// sign for `role` with credential `n`, `ahead` of the next counter, `back` slots ago, and submit it or keep it
    Sign { role: u32, n: u8, op: u8, ahead: i64, back: i64, submit: bool },
    Submit(usize),
    /// submit a kept message with another role number where the number is not covered
    SubmitAs(usize, u32),
    Own(Do),
    Wait(u64),
}
struct Replay { wl: Wl, t: u16, evs: Vec<Ev>, init: World }
impl Replay {
    fn op(&self, role: u32, i: u8) -> Do {
        let _ = role;
        if is_session(self.t) { return Do::Session(5, sess_key(50 + i)); }
        match i { 0 => Do::Sign(vec![sys_transfer(&self.wl.wallet, &DEST, 1)]), 1 => Do::S2Tog(0, false), _ => Do::S2Tog(0, true) }
    }
    fn ixs(&self, w: &World, m: &Msg, as_role: u32) -> Vec<Ix> { op_call(w, &self.wl, as_role, &By::Main(m.cred), &self.op(m.role, m.op)).sign(&By::Main(m.cred), m.slot, m.ctr) }
    fn submit(&self, h: &Hist, i: usize, as_role: u32) -> Result<Option<Hist>, Bad> {
        let m = &h.log[i];
        let op = self.op(m.role, m.op);
        let by = By::Main(m.cred);
        let mut ixs = self.ixs(&h.w, m, m.role);
        if as_role != m.role {
            let last = ixs.last_mut().unwrap();
            last.data[4..8].copy_from_slice(&as_role.to_le_bytes());
        }
        let sw = self.wl.sw(&h.w);
        let fresh = m.slot <= h.w.slot && h.w.slot - m.slot <= 60;
        let next = sw.role(as_role).is_some_and(|r| r.odometer().checked_add(1) == Some(m.ctr));
        let unsigned_role = matches!(op, Do::Sign(_));
        let exp = if !fresh { Err("stale or future message") } else if !next { Err("wrong counter") } else if as_role != m.role && !unsigned_role { Err("signed for another role") } else { expect(&h.w, &self.wl, as_role, &by, &op, &ixs.last().unwrap().metas) };
        let label = || format!("message of role {} credential {} counter {} slot {}: {}", m.role, m.cred.n, m.ctr, m.slot, short_op(&op));
        let key = |x: &str| format!("replay:{x}");
        let r = verdict(None, &h.w, exp, &ixs, "message", &label)?;
        let Some(w) = r else { return Ok(None) };
        if m.used != 0 {
            let k = if m.used & 1 << as_role == 0 { "other-role" } else if h.replaced.contains(&as_role) { "after-replace" } else { "plain" };
            return bad(&key(k), format!("{}: accepted a second time", label()), &h.w, &ixs);
        }
        let mut n = h.clone();
        n.w = w;
        n.log[i].used = 1 << as_role;
        Ok(Some(n))
    }
}
impl Model for Replay {
    type S = Hist;
    type A = Ev;
    fn init(&self) -> Vec<Hist> { vec![Hist { w: self.init.clone(), log: vec![], replaced: vec![] }] }
    fn actions(&self, h: &Hist) -> Vec<Ev> {
        let mut v: Vec<Ev> = self.evs.iter().filter(|e| !matches!(e, Ev::Sign { .. }) || h.log.len() < 4).cloned().collect();
        for i in 0..h.log.len() {
            v.push(Ev::Submit(i));
            for r in [1u32, 2, 3, 4] { if r != h.log[i].role { v.push(Ev::SubmitAs(i, r)); } }
        }
        v
    }
    fn step(&self, h: &Hist, e: &Ev) -> Result<Option<Hist>, Bad> {
        match e {
            Ev::Wait(n) => { let mut x = h.clone(); x.w.slot += n; x.log.retain(|m| m.slot + 62 >= x.w.slot); Ok(Some(x)) }
            Ev::Own(op) => {
                let r = apply(None, &h.w, &self.wl, &st(0, By::Main(OWNER), op.clone()))?;
                Ok(r.map(|w| {
                    let mut n = Hist { w, ..h.clone() };
                    if let Do::Replace(t, _) = op { if !n.replaced.contains(t) { n.replaced.push(*t); n.replaced.sort(); } }
                    n
                }))
            }
            Ev::Sign { role, n, op, ahead, back, submit } => {
                let Some(o) = self.wl.sw(&h.w).role(*role).map(|r| r.odometer()) else { return Ok(None) };
                let m = Msg { role: *role, cred: cr(self.t, *n), op: *op, slot: (h.w.slot as i64 - back) as u64, ctr: (o as i64 + 1 + ahead) as u32, used: 0 };
                let mut x = h.clone();
                x.log.push(m);
                if *submit { self.submit(&x, x.log.len() - 1, *role) } else { Ok(Some(x)) }
            }
            Ev::Submit(i) => self.submit(h, *i, h.log[*i].role),
            Ev::SubmitAs(i, r) => self.submit(h, *i, *r),
        }
    }
}
pub fn p02(ck: &Ck) {
    let wl = Wl::new(32);
    for t in [K1, K1S, R1, R1S] {
        let mut w = base();
        // roles 1 and 2 share a credential, 3 has its own
        let rights = vec![a_all(), a_v2(perm::V2_ALL, 0)];
        let mut s = wl.install(&mut w, &[(OWNER, vec![a_all()]), (cr(t, 11), rights.clone()), (cr(t, 11), rights.clone()), (cr(t, 12), rights.clone())], rent(0) + 40);
        s.roles[2].set_odometer(1);
        s.roles[3].set_odometer(7);
        s.subctr = 1;
        wl.store(&mut w, &s);
        w.put(wl.sub2_state(0).0, Acct { lamports: rent(72), owner: SWIG, exec: false, data: sub2_data(&wl, 0, true) });
        let a = cr(t, 11);
        let ident = |n: u8| cr(t, n).identity();
        let sg = |role, n, op, ahead, back, submit| Ev::Sign { role, n, op, ahead, back, submit };
        let evs = vec![
            sg(1, 11, 0, 0, 0, true), sg(1, 11, 1, 0, 0, true), sg(1, 11, 0, 1, 0, false), sg(1, 11, 2, 0, 0, false), sg(1, 12, 0, 0, 0, true), sg(2, 11, 0, 0, 0, true), sg(3, 12, 0, 0, 0, true),
            sg(1, 11, 0, 0, 60, true), sg(1, 11, 0, 0, 61, true), sg(1, 11, 0, 0, -1, false), sg(1, 11, 0, -1, 0, true), sg(1, 11, 0, 1, 0, true), sg(4, 11, 0, 0, 0, true),
            Ev::Own(Do::Replace(1, ident(12))), Ev::Own(Do::Replace(1, ident(11))), Ev::Own(Do::Remove(1)), Ev::Own(Do::Add(a, rights.clone())),
            Ev::Own(Do::Up(1, Upd::Append(vec![a_sol(3)]))), Ev::Wait(1), Ev::Wait(59), Ev::Wait(61),
        ];
        let d = if ck.thorough { 5 } else { 4 };
        ck.bfs(&format!("replays-kind{t}"), &Replay { wl, t, evs, init: w }, d);
        // without a change of credential: deeper
        let mut w = base();
        let mut s = wl.install(&mut w, &[(OWNER, vec![a_all()]), (a, rights.clone())], rent(0) + 40);
        s.subctr = 1;
        wl.store(&mut w, &s);
        w.put(wl.sub2_state(0).0, Acct { lamports: rent(72), owner: SWIG, exec: false, data: sub2_data(&wl, 0, true) });
        let evs = vec![sg(1, 11, 0, 0, 0, true), sg(1, 11, 1, 0, 0, true), sg(1, 11, 2, 1, 0, false), sg(1, 11, 0, 0, 30, false), Ev::Own(Do::Up(1, Upd::Append(vec![a_sol(3)]))), Ev::Own(Do::Up(1, Upd::Replace(rights.clone()))), Ev::Wait(31), Ev::Wait(60)];
        ck.bfs(&format!("messages-kind{t}"), &Replay { wl, t, evs, init: w }, if ck.thorough { 8 } else { 6 });
    }
    // all boundary values of counter and slot, for every operation
    let mut cases = vec![];
    for t in [K1, K1S, R1, R1S] { for odo in [0u32, 1, 2, 254, 255, 256, 257, 65534, 65535, 65536, 70000, 0x7fff_ffff, 0x8000_0000] { for now in [30u64, 59, 60, 61, 62, 1000, 1 << 32, (1 << 32) + 30, u64::MAX - 100] { cases.push((t, odo, now)); } } }
    ck.each("boundaries", &cases, |ck, &(t, odo, now)| {
        let mut w = crowd(&wl, 11, false, None);
        w.slot = now;
        let mut s = wl.sw(&w);
        s.roles[t as usize].set_odometer(odo);
        wl.store(&mut w, &s);
        let role = t as u32;
        let by = main_by(t, 11);
        let ops: Vec<Do> = every_op(&wl, role, false).into_iter().filter(|o| matches!(o, Do::Session(..)) == is_session(t)).collect();
        let all = odo == 1 && now == 1000;
        for op in if all { &ops[..] } else { &ops[..1] } {
            let c = op_call(&w, &wl, role, &by, op);
            let mut ctrs: Vec<u32> = (-3i64..=3).map(|d| (odo as i64 + d) as u32).collect();
            ctrs.extend([0, 1, 2, odo.wrapping_add(256), odo.wrapping_add(257), odo.wrapping_add(65536), odo.wrapping_add(65537), odo.wrapping_add(1 << 24).wrapping_add(1), u32::MAX, odo ^ 0x8000_0000]);
            let mut slots: Vec<u64> = [-62i64, -61, -60, -59, -30, -1, 0, 1, 2, 60, 61].iter().map(|d| (now as i64).wrapping_add(*d) as u64).collect();
            slots.extend([0, 1, u64::MAX, now.wrapping_add(256), now.wrapping_sub(256), now.wrapping_add(1 << 32), now.wrapping_sub(1 << 32), now ^ (1 << 63)]);
            ctrs.sort(); ctrs.dedup(); slots.sort(); slots.dedup();
            for &k in &ctrs { for &sl in &slots {
                if !(all || k == odo + 1 || sl == now || ck.thorough) { continue; }
                let ixs = c.sign(&by, sl, k);
                let ok = k == odo + 1 && sl <= now && now - sl <= 60;
                let exp = if ok { expect(&w, &wl, role, &by, op, &ixs.last().unwrap().metas) } else { Err("counter or slot") };
                let label = || format!("kind {t} counter {odo} slot {now}: signed counter {k} slot {sl}: {}", op.name());
                note(ck, verdict(Some(ck), &w, exp, &ixs, op.name(), &label), &label);
            } }
        }
    });
    // several requests in one transaction, called directly or by a program
    let mut cases = vec![];
    for t in [K1, K1S, R1, R1S] { for odo in [0u32, 1, 255, 65535] { for i in 0..every_op(&wl, 0, false).len() { cases.push((t, odo, i)); } } }
    ck.each("one-transaction", &cases, |ck, &(t, odo, i)| {
        let mut w = crowd(&wl, 11, false, None);
        let mut s = wl.sw(&w);
        s.roles[t as usize].set_odometer(odo);
        wl.store(&mut w, &s);
        let (role, by) = (t as u32, main_by(t, 11));
        let ops: Vec<Do> = every_op(&wl, role, false).into_iter().filter(|o| matches!(o, Do::Session(..)) == is_session(t)).collect();
        let wrap = |v: &[Ix], n: u8| -> Vec<Ix> { let mut v = v.to_vec(); for _ in 0..n { let l = v.pop().unwrap(); v.push(through(script_id(60 + n), &[], &l)); } v };
        for op in ops.iter().skip(i).take(1) {
            let one = op_call(&w, &wl, role, &by, op).sign(&by, w.slot, odo + 1);
            if ck.exec(&w, &one).is_err() { continue; }
            let last = one.last().unwrap();
            let twice = |n: u8| {
                // one program instruction making the same call twice
                let mut metas = last.metas.clone();
                metas.push(m(SWIG));
                let call = crate::progs::Op::Call(last.metas.len() as u8, last.metas.iter().enumerate().map(|(i, x)| (i as u8, x.signer, x.writable)).collect(), last.data.clone());
                let mut v = one[..one.len() - 1].to_vec();
                v.push(Ix { prog: script_id(60 + n), metas, data: script_data(&[call.clone(), call]) });
                v
            };
            let txs: Vec<(&str, Vec<Ix>)> = vec![
                ("request repeated", [&one[..], &[last.clone()]].concat()), ("request repeated with its approval", [&one[..], &one[..]].concat()), ("called, then made", [&wrap(&one, 1)[..], &one[..]].concat()),
                ("made, then called", [&one[..], &wrap(&one, 1)[..]].concat()), ("called twice", [&wrap(&one, 1)[..], &wrap(&one, 1)[..]].concat()), ("called twice by one instruction", twice(1)), ("three times", [&one[..], &one[..], &one[..]].concat()),
            ];
            for (l, tx) in txs { if ck.exec(&w, &tx).is_ok() { ck.fail("one-transaction:repeated", format!("kind {t} counter {odo} {}: {l}: accepted", op.name()), vec![], Some((w.clone(), tx))); } }
            // two requests, each approved for its own turn
            for op2 in &ops {
                let Ok(d) = ck.exec(&w, &one) else { continue };
                let two = op_call(&d.world, &wl, role, &by, op2).sign(&by, w.slot, odo + 2);
                // privileges are those of the transaction: an account both use must be used alike
                if one.last().unwrap().metas.iter().any(|x| two.last().unwrap().metas.iter().any(|y| x.key == y.key && (x.signer, x.writable) != (y.signer, y.writable))) { continue; }
                let Ok(d2) = ck.exec(&d.world, &two) else { continue };
                for (l, tx, ok) in [("in order", [&one[..], &two[..]].concat(), true), ("in the wrong order", [&two[..], &one[..]].concat(), false), ("second repeated", [&one[..], &two[..], &two[..]].concat(), false), ("first repeated", [&one[..], &two[..], &one[..]].concat(), false)] {
                    match (ok, ck.exec(&w, &tx)) {
                        (true, Ok(x)) => if let Some(df) = crate::model::diff(&d2.world, &x.world) { ck.fail("one-transaction:effect", format!("kind {t} {} then {} {l}: {df}", op.name(), op2.name()), vec![], Some((w.clone(), tx))); },
                        (true, Err(e)) => ck.fail("one-transaction:refused", format!("kind {t} {} then {} {l}: refused ({e:?})", op.name(), op2.name()), vec![], Some((w.clone(), tx))),
                        (false, Ok(_)) => ck.fail("one-transaction:order", format!("kind {t} {} then {} {l}: accepted", op.name(), op2.name()), vec![], Some((w.clone(), tx))),
                        _ => {}
                    }
                }
            }
        }
    });
    // a refused request leaves the counter for the next one
    let cases: Vec<u16> = vec![K1, K1S, R1, R1S];
    ck.each("after-refusal", &cases, |ck, &t| {
        let w = crowd(&wl, 11, false, None);
        for op in every_op(&wl, t as u32, false) {
            let by = main_by(t, 11);
            if matches!(op, Do::Session(..)) != is_session(t) { continue; }
            let good = op_ixs(&w, &wl, t as u32, &by, &op);
            let mut bads: Vec<Vec<Ix>> = vec![];
            for wh in 0..4 {
                let mut v = good.clone();
                let l = v.last_mut().unwrap();
                match wh { 0 => { let n = l.data.len(); l.data[n - 1 - if t == R1 || t == R1S { 5 } else { 2 }] ^= 1; } 1 => { l.metas[0].writable = false; } 2 => { l.data.pop(); } _ => { l.metas.push(m(DEST)); } }
                bads.push(v);
            }
            for b in bads {
                if ck.exec(&w, &b).is_ok() { ck.fail("broken-accepted", format!("kind {t} {}: broken request accepted", op.name()), vec![], Some((w.clone(), b))); continue; }
                note(ck, compare(Some(ck), &w, &wl, t as u32, &by, &op, &good), &|| format!("kind {t} {}", op.name()));
            }
        }
    });
}

// ------------------------------------------------------------------ P03
/// how much of the head an authorisation does not cover, because nothing depends on it
fn unbound(op: &Do, p: usize) -> bool { matches!(op, Do::S1Sign(..)) && (8..16).contains(&p) }
pub fn p03(ck: &Ck) {
    let wl = Wl::new(33);
    let worlds = [crowd(&wl, 11, false, None), crowd(&wl, 11, true, None)];
    let extra = |w: &mut World| { for i in 0..3 { w.fund(nk(0xEE, i), rent(0)); } };
    let worlds = worlds.map(|mut w| { extra(&mut w); w });
    let prefixes: [&[u8]; 4] = [b"", b"\x19Ethereum Signed Message:\n64", b"p", &[0xAA; 200]];
    let mut cases = vec![];
    for legacy in [false, true] { for t in [K1, K1S, R1, R1S] { for (i, op) in every_op(&wl, t as u32, legacy).iter().enumerate() { if matches!(op, Do::Session(..)) == is_session(t) { for p in 0..if t < R1 { prefixes.len() } else { 1 } { cases.push((t, i, legacy, p)); } } } } }
    ck.each("bindings", &cases, |ck, &(t, i, legacy, pf)| {
        let w = &worlds[legacy as usize];
        let role = t as u32;
        let op = every_op(&wl, role, legacy)[i].clone();
        let by = main_by(t, 11);
        let mut ixs = op_ixs(w, &wl, role, &by, &op);
        let last = ixs.len() - 1;
        let at = op_call(w, &wl, role, &by, &op).head.len();
        if pf > 0 {
            let mut c = op_call(w, &wl, role, &by, &op);
            let p = prefixes[pf];
            c.set_plen(77 + p.len());
            let mut pl = w.slot.to_le_bytes().to_vec();
            pl.extend(1u32.to_le_bytes());
            pl.extend(k1_sign(11, &k1_msg(&c.dp, &c.metas, w.slot, 1, p)));
            pl.extend(p);
            ixs[last] = c.with(&pl);
        }
        let Some(good) = note(ck, compare(Some(ck), w, &wl, role, &by, &op, &ixs), &|| format!("kind {t} {}", op.name())) else { return };
        let l = |what: &str| format!("kind {t}, prefix {pf}, {}: {what}", op.name());
        // the signature and what carries it
        if matches!(t, R1 | R1S) { crate::p_auth::r1_forgeries(ck, w, &ixs, &good, 11, &|x| l(x)); }
        if matches!(t, K1 | K1S) && pf == 0 { crate::p_auth::k1_forgeries(ck, w, &wl, role, 11, &op_call(w, &wl, role, &by, &op), &good, &|x| l(x)); }
        // contents
        let n = if pf > 0 { ixs[last].data.len() } else { at };
        for p in 0..n {
            if p >= at && p < at + 77 { continue; }
            for x in 1..=255u8 {
                if !ck.thorough && !(x.is_power_of_two() || x == 0xff) { continue; }
                let mut v = ixs.clone();
                v[last].data[p] ^= x;
                let lab = || l(&format!("content byte {p} ^ {x}"));
                if unbound(&op, p) { judge_maybe(ck, w, &v, &good, "content", &lab) } else { judge(ck, w, &v, &good, false, "content", &lab) }
            }
        }
        // more or less of it, keeping the signature
        for p in 2..at { let mut v = ixs.clone(); v[last].data.remove(p); judge(ck, w, &v, &good, false, "content", &|| l(&format!("byte {p} removed"))); }
        for p in 2..=at { for b in [0u8, 1] {
            let mut v = ixs.clone();
            v[last].data.insert(p, b);
            let lab = || l(&format!("byte {b} inserted at {p}"));
            if v[last].data[..at] == ixs[last].data[..at] && p < at || unbound(&op, p) { continue; }
            judge(ck, w, &v, &good, false, "content", &lab);
        } }
        // accounts
        let metas = ixs[last].metas.clone();
        let was = accounts_bytes(&metas);
        let mut muts: Vec<(String, Vec<Meta>)> = vec![];
        let others: Vec<Key> = [nk(0xEE, 0), nk(0xEE, 1), DEST, DEST2, PAYER, wl.swig, wl.wallet, SYSTEM, IXS, wl.sub1(1).0, wl.sub2(0).0].to_vec();
        for i in 0..metas.len() {
            for k in &others { let mut v = metas.clone(); v[i].key = *k; muts.push((format!("account {i} replaced"), v)); }
            for j in 0..metas.len() {
                let mut v = metas.clone(); v.swap(i, j); muts.push((format!("accounts {i} and {j} swapped"), v));
                let mut v = metas.clone(); v[i] = v[j].clone(); muts.push((format!("account {i} is {j}"), v));
                let mut v = metas.clone(); let x = v[j].clone(); v.insert(i, x); muts.push((format!("account {j} inserted at {i}"), v));
                let mut v = metas.clone(); let x = v.remove(i); v.insert(j.min(v.len()), x); muts.push((format!("account {i} moved to {j}"), v));
            }
            let mut v = metas.clone(); v.remove(i); muts.push((format!("account {i} removed"), v));
            let mut v = metas.clone(); v.truncate(i); muts.push((format!("accounts from {i} on removed"), v));
            for (s, wr) in [(true, false), (false, true), (true, true)] { let mut v = metas.clone(); v[i].signer ^= s; v[i].writable ^= wr; muts.push((format!("account {i} flags flipped"), v)); }
            let mut v = metas.clone(); v.insert(i, m(nk(0xEE, 2))); muts.push((format!("account inserted at {i}"), v));
        }
        for k in &others { for (s, wr) in [(false, false), (true, false), (false, true)] { let mut v = metas.clone(); v.push(Meta { key: *k, signer: s, writable: wr }); muts.push(("account appended".into(), v)); } }
        for (what, v) in muts {
            if accounts_bytes(&v) == was { continue; }
            let mut x = ixs.clone();
            x[last].metas = v;
            judge(ck, w, &x, &good, false, "accounts", &|| l(&what));
        }
        // prefix tricks: content moved between the prefix and what is signed
        if t == K1 || t == K1S {
            let p = &ixs[last].data[at..];
            for k in 0..p.len() { let mut v = ixs.clone(); v[last].data.truncate(at + k); judge(ck, w, &v, &good, false, "prefix", &|| l("authorisation cut")); }
            for b in [0u8, b'0', 0x19] { let mut v = ixs.clone(); v[last].data.push(b); judge(ck, w, &v, &good, false, "prefix", &|| l("authorisation extended")); }
            if let Some(sig) = p.get(12..77) {
                let mut s = sig.to_vec();
                s.reverse();
                let mut v = ixs.clone();
                v[last].data[at + 12..at + 77].copy_from_slice(&s);
                judge(ck, w, &v, &good, false, "prefix", &|| l("signature reversed"));
            }
        } else {
            // the approval of one operation next to another one
            for other in every_op(&wl, role, legacy) {
                if other == op || matches!(other, Do::Session(..)) != is_session(t) { continue; }
                let o = op_ixs(w, &wl, role, &by, &other);
                judge(ck, w, &[ixs[0].clone(), o[o.len() - 1].clone()], &good, false, "swapped-approval", &|| l(&format!("approval used for {}", other.name())));
            }
        }
    });
    // every signed operation's authorisation next to every other one (K1: payload moved)
    let mut cases = vec![];
    for legacy in [false, true] { let ops = every_op(&wl, K1 as u32, legacy); for i in 0..ops.len() { for j in 0..ops.len() { if i != j { cases.push((legacy, i, j)); } } } }
    ck.each("moved-approvals", &cases, |ck, &(legacy, i, j)| {
        let w = &worlds[legacy as usize];
        let by = main_by(K1, 11);
        let ops = every_op(&wl, K1 as u32, legacy);
        if matches!(ops[i], Do::Session(..)) || matches!(ops[j], Do::Session(..)) { return; }
        let (a, b) = (op_ixs(w, &wl, K1 as u32, &by, &ops[i]), op_ixs(w, &wl, K1 as u32, &by, &ops[j]));
        let (ha, hb) = (op_call(w, &wl, K1 as u32, &by, &ops[i]).head.len(), op_call(w, &wl, K1 as u32, &by, &ops[j]).head.len());
        let mut x = b[0].clone();
        x.data.truncate(hb);
        x.data.extend(&a[0].data[ha..]);
        judge(ck, w, &[x], w, false, "moved-approval", &|| format!("approval of {} used for {}", ops[i].name(), ops[j].name()));
    });
    // other wallets, other roles with the same key
    let cases: Vec<u16> = vec![K1, K1S, R1, R1S];
    ck.each("other-wallet", &cases, |ck, &t| {
        let wl2 = Wl::new(34);
        let mut w = worlds[0].clone();
        let s = wl.sw(&w);
        wl2.store(&mut w, &Sw { id: wl2.id, bump: wl2.bump, wbump: wl2.wbump, ..s });
        w.fund(wl2.wallet, rent(0) + 40);
        let by = main_by(t, 11);
        for op in every_op(&wl, t as u32, false) {
            if matches!(op, Do::Session(..)) != is_session(t) { continue; }
            let a = op_ixs(&w, &wl, t as u32, &by, &op);
            let b = op_ixs(&w, &wl2, t as u32, &by, &op);
            let n = a.len() - 1;
            // the first wallet's approval with the second wallet's accounts and contents
            let mut v = b.clone();
            if n > 0 { v[0] = a[0].clone(); } else {
                let (ha, hb) = (op_call(&w, &wl, t as u32, &by, &op).head.len(), op_call(&w, &wl2, t as u32, &by, &op).head.len());
                v[0].data.truncate(hb);
                v[0].data.extend(&a[0].data[ha..]);
            }
            judge(ck, &w, &v, &w, false, "other-wallet", &|| format!("kind {t} {}", op.name()));
        }
    });
    let mut cases = vec![];
    for t in [K1, K1S, R1, R1S] { for i in 0..every_op(&wl, 1, false).len() { cases.push((t, i)); } }
    ck.each("role-numbers", &cases, |ck, &(t, i)| {
        // two roles of one key whose counters agree; the second is unlimited
        let mut w = crowd(&wl, 11, false, None);
        let mut s = wl.sw(&w);
        let me = s.roles[t as usize].clone();
        let mut twin = me.clone();
        twin.id = 12;
        s.roles.push(twin);
        s.counter = 13;
        wl.store(&mut w, &s);
        let op = every_op(&wl, t as u32, false)[i].clone();
        if matches!(op, Do::Session(..)) != is_session(t) { return; }
        let by = main_by(t, 11);
        let ixs = op_ixs(&w, &wl, t as u32, &by, &op);
        if note(ck, compare(Some(ck), &w, &wl, t as u32, &by, &op, &ixs), &|| op.name().into()).is_none() { return; }
        let last = ixs.len() - 1;
        // every position where the acting role's number could be written
        let mut tried = 0;
        for p in 2..ixs[last].data.len().min(20) - 3 {
            if le32(&ixs[last].data, p) != t as u32 { continue; }
            tried += 1;
            let mut v = ixs.clone();
            v[last].data[p..p + 4].copy_from_slice(&12u32.to_le_bytes());
            if ck.exec(&w, &v).is_ok() {
                let k = if matches!(op, Do::Sign(_) | Do::S1Sign(..)) { "role-number-swap" } else { "signed-role-number-swap" };
                ck.fail(k, format!("kind {t} {}: the approval signed for role {t} acts for role 12 of the same key", op.name()), vec![], Some((w.clone(), v)));
            }
        }
        if tried == 0 { ck.fail("harness", "no role number found".into(), vec![], None); }
    });
    // as many accounts as are covered
    let mut cases = vec![];
    for t in [K1, R1] { for n in 55..=70usize { cases.push((t, n)); } }
    ck.each("many-accounts", &cases, |ck, &(t, n)| {
        let mut w = crowd(&wl, 11, false, None);
        let mut metas = vec![mw(wl.swig), mw(wl.wallet), m(SYSTEM), m(IXS), m(R)];
        while metas.len() < n { let k = nk(0xB0, metas.len() as u8); w.fund(k, rent(0)); metas.push(m(k)); }
        let c = c_sign_raw(metas.clone(), t as u32, &compact(&[(4, vec![1], script_data(&[]))]));
        let ixs = c.sign(&main_by(t, 11), w.slot, 1);
        let good = match ck.exec(&w, &ixs) { Ok(d) => d.world, Err(e) => { if n <= 64 { ck.fail("many-refused", format!("kind {t}: {n} accounts refused: {e:?}"), vec![], Some((w.clone(), ixs))); } return } };
        for i in 0..n {
            let mut v = ixs.clone();
            let l = v.last_mut().unwrap();
            l.metas[i] = if i == n - 1 { mw(nk(0xEE, 1)) } else { l.metas[(i + 1) % n].clone() };
            judge(ck, &w, &v, &good, false, "many-accounts", &|| format!("kind {t}: account {i} of {n} changed"));
            let mut v = ixs.clone();
            let l = v.last_mut().unwrap();
            if readonly_always(&l.metas[i].key) { continue; }
            l.metas[i].writable ^= true;
            judge(ck, &w, &v, &good, false, "many-accounts", &|| format!("kind {t}: flag of account {i} of {n} changed"));
        }
    });
    // long contents: every byte of them counts
    let mut cases = vec![];
    for t in [K1, R1] { for i in 0..5usize { for part in 0..4usize { cases.push((t, i, part)); } } }
    ck.each("long-contents", &cases, |ck, &(t, i, part)| {
        let mut w = worlds[0].clone();
        let slate = nk(0xE5, 1);
        w.put(slate, Acct { lamports: rent(1300), owner: R, data: vec![0; 1300], exec: false });
        let write: Vec<crate::progs::Op> = (0..5).map(|k| crate::progs::Op::Write(0, k * 250, (0..250).map(|j| (j + k as usize) as u8).collect())).collect();
        let long = |s: Key| vec![Ix { prog: R, metas: vec![mw(slate), m(s)], data: script_data(&write) }];
        let role = t as u32;
        let many: Vec<Act> = (0..100).map(|k| a_sol(k << 20)).collect();
        let op = match i {
            0 => Do::Sign(long(wl.wallet)),
            1 => Do::S1Sign(role, long(wl.sub1(role).0)),
            2 => Do::S2Sign(0, long(wl.sub2(0).0)),
            3 => Do::Add(cr(ED, 99), many),
            _ => Do::Up(9, Upd::Replace(many)),
        };
        let by = main_by(t, 11);
        let ixs = op_ixs(&w, &wl, role, &by, &op);
        let good = match ck.exec(&w, &ixs) { Ok(d) => d.world, Err(e) => { ck.fail("long-refused", format!("kind {t} {}: long contents refused: {e:?}", op.name()), vec![], Some((w.clone(), ixs))); return } };
        let last = ixs.len() - 1;
        let at = op_call(&w, &wl, role, &by, &op).head.len();
        for p in (2..at).skip(part).step_by(4) {
            if unbound(&op, p) { continue; }
            for x in if ck.thorough { &[1u8, 2, 4, 8, 16, 32, 64, 128][..] } else { &[1u8, 128][..] } {
                let mut v = ixs.clone();
                v[last].data[p] ^= x;
                judge(ck, &w, &v, &good, false, "long-contents", &|| format!("kind {t} {}: content byte {p} of {at} ^ {x}", op.name()));
            }
        }
    });
    let _ = (LTD, r1_ix as fn(&[u8; 33], &[u8]) -> Ix, diff as fn(&World, &World) -> Option<String>);
}

// ------------------------------------------------------------------ P05
pub fn p05(ck: &Ck) {
    let wl = Wl::new(35);
    let b0 = By::Main(OWNER);
    let pay = || Do::Sign(vec![sys_transfer(&wl.wallet, &DEST, 1)]);
    // histories for every pair of session kinds, main keys the same or not
    let mut models = vec![];
    for t in [EDS, K1S, R1S, PES] { for u in [EDS, K1S, R1S, PES] { for n2 in [11u8, 12] {
        if !ck.thorough && n2 == 11 && t != u { continue; }
        let mut w = base();
        wl.install(&mut w, &[(OWNER, vec![a_all()]), (cr(t, 11), vec![a_all()]), (cr(u, n2), vec![a_sol(3), act(perm::PROG_ALL)])], rent(0) + 40);
        models.push((t, u, n2, w));
    } } }
    for (t, u, n2, w) in models {
        let (m1, m2) = (main_by(t, 11), main_by(u, n2));
        let acts = vec![
            st(1, m1, Do::Session(2, sess_key(1))), st(1, m1, Do::Session(3, sess_key(2))), st(1, m1, Do::Session(0, sess_key(1))), st(1, m1, Do::Session(101, sess_key(1))),
            st(2, m2, Do::Session(4, sess_key(1))), st(2, m2, Do::Session(2, sess_key(3))),
            st(1, sess(1), pay()), st(1, sess(2), pay()), st(1, sess(3), pay()), st(2, sess(1), pay()), st(2, sess(3), pay()), st(1, m1, pay()), st(2, m2, pay()),
            st(1, sess(1), Do::Session(9, sess_key(1))), st(2, sess(1), Do::Session(9, sess_key(1))), st(1, m2, Do::Session(2, sess_key(2))), st(2, m1, Do::Session(2, sess_key(3))), st(1, b0, Do::Session(2, sess_key(1))),
            st(1, sess(1), Do::Up(2, Upd::Append(vec![a_sol_dest(&DEST, 9)]))), st(0, b0, Do::Replace(1, if t == PES { return_key(t) } else { cr(t, 13).identity() })), st(1, main_by(t, 13), Do::Session(2, sess_key(1))), st(0, b0, Do::Up(2, Upd::ByIndex(vec![7]))),
            wait(1), wait(2), wait(3),
        ];
        ck.bfs(&format!("sessions-{t}-{u}-{n2}"), &OpM { wl, inits: vec![w], acts }, if ck.thorough { 7 } else { 5 });
    }
    // durations and limits
    let mut cases = vec![];
    let vals = [0u64, 1, 2, 59, 60, 99, 100, 101, 255, 256, 65535, 65536, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 40, i64::MAX as u64, 1 << 63, u64::MAX - 1000 - 2, u64::MAX - 1000];
    for t in [EDS, K1S, R1S, PES] { for max in vals.iter().chain([&u64::MAX]) { for slot in [1u64, 1000] { cases.push((t, *max, slot)); } } }
    ck.each("durations", &cases, |ck, &(t, max, slot)| {
        let mut w = base();
        w.slot = slot;
        let mut s = wl.install(&mut w, &[(OWNER, vec![a_all()])], rent(0) + 40);
        let c = cr(t, 11);
        let mut r = Role { id: 1, aty: t, auth: c.stored_max(max), acts: vec![a_all()] };
        for old in [false, true] {
            if old { let o = sess_off(t); r.auth[o..o + 32].copy_from_slice(&sess_key(9)); put64(&mut r.auth, o + 40, slot + 7); }
            s.roles.truncate(1);
            s.roles.push(r.clone());
            s.counter = 2;
            wl.store(&mut w, &s);
            let mut ds: Vec<u64> = vals.to_vec();
            ds.extend([max.wrapping_sub(1), max, max.wrapping_add(1)]);
            for d in ds {
                if slot.checked_add(d).is_none() { continue; }
                for k in [sess_key(1), [0; 32], ed_key(11), OWNER_KEY(), [0xff; 32]] {
                    note(ck, apply(Some(ck), &w, &wl, &st(1, By::Main(c), Do::Session(d, k))), &|| format!("kind {t} max {max} duration {d} slot {slot}"));
                }
            }
        }
    });
    // the last slot, for every operation
    let mut cases = vec![];
    for t in [EDS, K1S, R1S, PES] { for exp in [1u64, 2, 255, 256, 1000, 65535, 65536, (1 << 32) - 1, 1 << 32, u64::MAX - 1] { cases.push((t, exp)); } }
    ck.each("last-slots", &cases, |ck, &(t, exp)| {
        let mut w = crowd(&wl, 11, false, Some(0));
        let mut s = wl.sw(&w);
        let o = sess_off(t);
        put64(&mut s.roles[t as usize].auth, o + 40, exp);
        wl.store(&mut w, &s);
        let mut slots = vec![exp - 1, exp, exp + 1, exp.saturating_add(255), exp.saturating_add(256), exp.saturating_add(1 << 32), u64::MAX, 1];
        slots.retain(|x| *x > 0);
        for sl in slots {
            w.slot = sl;
            for op in every_op(&wl, t as u32, false) { note(ck, apply(Some(ck), &w, &wl, &st(t as u32, By::Sess(sess_key(t as u8)), op.clone())), &|| format!("kind {t} expires {exp} slot {sl} {}", op.name())); }
        }
    });
    // whatever else the credential holds: its counter, its maximum, its own key as the session key
    let mut cases = vec![];
    for t in [EDS, K1S, R1S, PES] { for odo in [0u32, 1, 2, 3, 7, 60, 255, 256, 65536, u32::MAX - 1, u32::MAX] { for max in [0u64, 1, 2, 99, 100, 1000, 5000, 1 << 32, u64::MAX] { for k in 0..4 { if t == EDS && (k == 1 || odo > 0) { continue; } cases.push((t, odo, max, k)); } } } }
    ck.each("other-fields", &cases, |ck, &(t, odo, max, k)| {
        let c = cr(t, 11);
        let key = match k { 0 => sess_key(1), 1 => ed_key(11), 2 => OWNER_KEY(), _ => sess_key(7) };
        let mut w = base();
        let mut s = wl.install(&mut w, &[(OWNER, vec![a_all()]), (c, vec![a_all()]), (cr(t, 12), vec![a_all()])], rent(0) + 40);
        let o = sess_off(t);
        for i in 1..3 {
            s.roles[i].set_odometer(odo);
            s.roles[i].auth[o..o + 32].copy_from_slice(&if i == 1 { key } else { sess_key(3) });
            put64(&mut s.roles[i].auth, o + 32, max);
            put64(&mut s.roles[i].auth, o + 40, 1000);
        }
        wl.store(&mut w, &s);
        for sl in [1u64, 999, 1000, 1001, 1002, 1060, 1061, 1000 + 256, 2000, 6000, 1 << 33] {
            w.slot = sl;
            for by in [By::Sess(key), By::Sess(sess_key(3)), By::Main(c)] {
                for op in [pay(), Do::Add(LTD, vec![a_sol(1)]), Do::Session(2, sess_key(2)), Do::Remove(2), Do::Session(max.min(1 << 40), key)] {
                    note(ck, apply(Some(ck), &w, &wl, &st(1, by, op.clone())), &|| format!("kind {t} counter {odo} maximum {max} key {k} slot {sl} {by:?} {}", op.name()));
                }
            }
        }
    });
    // a session key is one key: every bit of it counts, and registration opens none
    let cases: Vec<u16> = vec![EDS, K1S, R1S, PES];
    ck.each("session-keys", &cases, |ck, &t| {
        let w = crowd(&wl, 11, false, Some(10));
        for b in 0..256 {
            let mut k = sess_key(t as u8);
            k[b / 8] ^= 1 << (b % 8);
            for op in every_op(&wl, t as u32, false).into_iter().take(4) { note(ck, apply(Some(ck), &w, &wl, &st(t as u32, By::Sess(k), op)), &|| format!("kind {t} key bit {b}")); }
        }
        for registered in [sess_key(5), [0; 32]] { for exp in [0u64, 2000, u64::MAX] {
            let mut w = base();
            wl.install(&mut w, &[(OWNER, vec![a_all()])], rent(0) + 40);
            let mut d = cr(t, 11).create();
            let o = match t { EDS => 32, K1S => 64, R1S => 40, _ => 80 };
            d[o..o + 32].copy_from_slice(&registered);
            if t == PES { put64(&mut d, 120, exp); }
            let ixs = c_add(&wl, 0, t, &d, &acts_bytes(&[a_all()]), 1).go(&w, &wl, 0, &b0);
            match ck.exec(&w, &ixs) {
                Err(e) => ck.fail("registration-refused", format!("kind {t}: {e:?}"), vec![], Some((w.clone(), ixs))),
                Ok(x) => {
                    let (_, max, e) = session(wl.sw(&x.world).role(1).unwrap());
                    ck.ensure(max == Cred::MAX && e == 0, "registration-opens", || format!("kind {t}: registered with maximum {max}, open until {e}"));
                    for op in [pay(), Do::Add(LTD, vec![a_sol(1)])] {
                        let v = op_ixs(&x.world, &wl, 1, &By::Sess(registered), &op);
                        judge(ck, &x.world, &v, &x.world, false, "registered-key", &|| format!("kind {t}: the registered session key acts without a session"));
                    }
                }
            }
        } }
        let mut w2 = w.clone();
        let mut s = wl.sw(&w2);
        open(&mut s.roles[t as usize], 60, w.slot);
        wl.store(&mut w2, &s);
        note(ck, apply(Some(ck), &w2, &wl, &st(t as u32, sess(60), pay())), &|| "reopened".into());
    });
}
#[allow(non_snake_case)]
fn OWNER_KEY() -> Key { ed_key(OWNER.n) }
fn return_key(_: u16) -> Vec<u8> { vec![0; 33] }

// ------------------------------------------------------------------ P24
/// a preceding instruction, by what is wrong with it
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Pre { Match, MatchMore, Program, First, Last, Short, Empty, Late, Swapped, Acct0, Acct1, OneAcct, NoAcct, Twice, Shifted, Swig, System, Signer0, Signer1 }
const PRES: [Pre; 19] = [Pre::Match, Pre::MatchMore, Pre::Program, Pre::First, Pre::Last, Pre::Short, Pre::Empty, Pre::Late, Pre::Swapped, Pre::Acct0, Pre::Acct1, Pre::OneAcct, Pre::NoAcct, Pre::Twice, Pre::Shifted, Pre::Swig, Pre::System, Pre::Signer0, Pre::Signer1];
fn pe_auth(t: u16, prog: &Key, prefix: &[u8]) -> Vec<u8> {
    let mut v = pe_state(prog, prefix);
    if t == PES { v.extend([0; 32]); v.extend(Cred::MAX.to_le_bytes()); v.extend([0; 8]); }
    v
}
fn pre_ix(p: Pre, prog: &Key, prefix: &[u8], a: &[Key; 2], swig: &Ix) -> Ix {
    let (a0, a1) = (a[0], a[1]);
    let mut ix = Ix { prog: *prog, metas: vec![m(a0), m(a1)], data: prefix.to_vec() };
    let n = prefix.len();
    match p {
        Pre::Match => {}
        Pre::MatchMore => { ix.metas = vec![mw(a0), mw(a1), m(DEST), mw(DEST2)]; ix.data.extend([9; 30]); }
        Pre::Program => ix.prog = script_id(99),
        Pre::First => if n > 0 { ix.data[0] ^= 1 } else { ix.data = vec![5] },
        Pre::Last => if n > 0 { ix.data[n - 1] ^= 0x80 } else { ix.data = vec![0; 41] },
        Pre::Short => { ix.data.pop(); }
        Pre::Empty => ix.data.clear(),
        Pre::Late => ix.data.insert(0, 7),
        Pre::Swapped => ix.metas.swap(0, 1),
        Pre::Acct0 => ix.metas[0].key[31] ^= 1,
        Pre::Acct1 => ix.metas[1].key[0] ^= 1,
        Pre::OneAcct => { ix.metas.pop(); }
        Pre::NoAcct => ix.metas.clear(),
        Pre::Twice => ix.metas[1] = m(a0),
        Pre::Signer0 => ix.metas[0] = msw(PAYER),
        Pre::Signer1 => ix.metas[1] = msw(PAYER),
        Pre::Shifted => ix.metas.insert(0, m(DEST)),
        Pre::Swig => return swig.clone(),
        Pre::System => return sys_transfer(&PAYER, &DEST, 0),
    }
    ix
}
fn approves(ix: &Ix, prog: &Key, prefix: &[u8], a: &[Key; 2]) -> bool { ix.prog == *prog && ix.data.starts_with(prefix) && ix.metas.len() >= 2 && ix.metas[0].key == a[0] && ix.metas[1].key == a[1] }
fn prefix_of(n: usize, seed: u8) -> Vec<u8> { (0..n).map(|i| (i as u8).wrapping_mul(5) % 0xC0 ^ seed).collect() }
pub fn p24(ck: &Ck) {
    let wl = Wl::new(36);
    let prog = script_id(41);
    let swig_ix = |w: &World| op_ixs(w, &wl, 0, &By::Main(OWNER), &Do::Sign(vec![])).remove(0);
    let world = |t: u16, prefix: &[u8], legacy: bool| {
        let mut w = crowd(&wl, 1, legacy, Some(10));
        let mut s = wl.sw(&w);
        s.roles[t as usize].auth = pe_auth(t, &prog, prefix);
        wl.store(&mut w, &s);
        w
    };
    // the model's credential for `expect`: prove through the stored identity
    let run = |ck: &Ck, w: &World, t: u16, op: &Do, pre: &[Ix], post: &[Ix], target: Option<u8>, prefix: &[u8], label: &dyn Fn() -> String| {
        let role = t as u32;
        let mut c = op_call(w, &wl, role, &main_by(t, 1), op);
        let i = c.index_of(&IXS, false);
        let a = [c.metas[0].key, c.metas[1].key];
        let mut ixs = pre.to_vec();
        let payload = match target { None => vec![i], Some(x) => vec![i, x] };
        ixs.push(c.with(&payload));
        let me = ixs.len() - 1;
        ixs.extend_from_slice(post);
        let which = match target { None => me.checked_sub(1), Some(x) => ((x as usize) < me).then_some(x as usize) };
        let ok = which.is_some_and(|k| approves(&ixs[k], &prog, prefix, &a));
        // judge with the stock credential of this kind in place of the custom one
        let exp = if !ok { Err("no approval") } else {
            let mut w2 = w.clone();
            let mut s = wl.sw(&w2);
            let stored = s.roles[t as usize].auth.clone();
            let n = 80;
            s.roles[t as usize].auth[..n].copy_from_slice(&cr(t, 1).stored()[..n]);
            w2.edit(&wl.swig, |a| a.data = s.encode());
            expect(&w2, &wl, role, &main_by(t, 1), op, &ixs[me].metas).map(|mut w3| {
                if let Ok(mut s) = Sw::parse(w3.data(&wl.swig)) {
                    if let Some(r) = s.role_mut(role) { r.auth[..n].copy_from_slice(&stored[..n]); w3.edit(&wl.swig, |a| a.data = s.encode()); }
                }
                w3
            })
        };
        note(ck, verdict(Some(ck), w, exp, &ixs, op.name(), label), label);
    };
    let usable = |t: u16, legacy: bool| -> Vec<Do> { every_op(&wl, t as u32, legacy).into_iter().filter(|o| matches!(o, Do::Session(..)) == (t == PES) && !matches!(o, Do::Replace(..))).collect() };
    // transaction shapes
    let depth = if ck.thorough { 5 } else { 4 };
    let mut cases = vec![];
    for t in [PE, PES] { for n in if ck.thorough { vec![0usize, 3, 40] } else { vec![0, 3] } { for a in PRES { for b in PRES { cases.push((t, n, a, b)); } } } }
    ck.each("shapes", &cases, |ck, &(t, n, a, b)| {
        let prefix = prefix_of(n, 0x31);
        let w = world(t, &prefix, false);
        let op = usable(t, false).into_iter().find(|o| matches!(o, Do::Session(..) | Do::Sign(..))).unwrap();
        let c = op_call(&w, &wl, t as u32, &main_by(t, 1), &op);
        let ak = [c.metas[0].key, c.metas[1].key];
        let sx = swig_ix(&w);
        let mk = |p: Pre| pre_ix(p, &prog, &prefix, &ak, &sx);
        let mut seqs: Vec<Vec<Pre>> = vec![vec![a, b]];
        if b == Pre::Match { seqs.push(vec![a]); }
        if a == Pre::Match && b == Pre::Match { seqs.push(vec![]); }
        for c in PRES { seqs.push(vec![a, b, c]); if depth > 4 || n == 3 { for d in PRES { seqs.push(vec![a, b, c, d]); if depth > 4 && n == 3 { for e in PRES { seqs.push(vec![a, b, c, d, e]); } } } } }
        for s in seqs {
            let pre: Vec<Ix> = s.iter().map(|p| mk(*p)).collect();
            let mut targets: Vec<Option<u8>> = vec![None];
            targets.extend((0..s.len() as u8 + 2).map(Some));
            targets.extend([Some(127), Some(128), Some(255)]);
            for tg in targets {
                run(ck, &w, t, &op, &pre, &[], tg, &prefix, &|| format!("kind {t} prefix {n}: after {s:?}, target {tg:?}"));
            }
            if s.len() < 3 { for q in PRES { run(ck, &w, t, &op, &pre, &[mk(q)], None, &prefix, &|| format!("kind {t} prefix {n}: after {s:?}, before {q:?}")); for k in 0..4 { run(ck, &w, t, &op, &pre, &[mk(q)], Some(k), &prefix, &|| format!("kind {t} prefix {n}: after {s:?}, before {q:?}, target {k}")); } } }
        }
    });
    // every operation
    let mut cases = vec![];
    for legacy in [false, true] { for t in [PE, PES] { for i in 0..usable(t, legacy).len() { for p in PRES { cases.push((t, legacy, i, p)); } } } }
    ck.each("operations", &cases, |ck, &(t, legacy, i, p)| {
        for n in [0usize, 1, 2, 7, 8, 9, 31, 32, 33, 39, 40] {
            let prefix = prefix_of(n, 0x31);
            let w = world(t, &prefix, legacy);
            let op = usable(t, legacy)[i].clone();
            let c = op_call(&w, &wl, t as u32, &main_by(t, 1), &op);
            let ak = [c.metas[0].key, c.metas[1].key];
            let sx = if legacy { sys_transfer(&PAYER, &DEST2, 0) } else { swig_ix(&w) };
            let ix = pre_ix(p, &prog, &prefix, &ak, &sx);
            run(ck, &w, t, &op, &[ix.clone()], &[], None, &prefix, &|| format!("kind {t} prefix {n}: {} after {p:?}", op.name()));
            run(ck, &w, t, &op, &[ix, other_ix()], &[], Some(0), &prefix, &|| format!("kind {t} prefix {n}: {} after {p:?} and another", op.name()));
        }
    });
    // the operation is called by a program, and that call itself looks like the approval
    let mut cases = vec![];
    for legacy in [false, true] { for t in [PE, PES] { for i in 0..usable(t, legacy).len() { cases.push((t, legacy, i)); } } }
    ck.each("called", &cases, |ck, &(t, legacy, i)| {
        for n in [0usize, 3, 40] {
            let prefix = prefix_of(n, 0x31);
            let w = world(t, &prefix, legacy);
            let op = usable(t, legacy)[i].clone();
            let role = t as u32;
            let mut c = op_call(&w, &wl, role, &main_by(t, 1), &op);
            let at = c.index_of(&IXS, false);
            let ak = [c.metas[0].key, c.metas[1].key];
            if ck.exec(&w, &[Ix { prog, metas: vec![m(ak[0]), m(ak[1])], data: prefix.clone() }, c.with(&[at])]).is_err() { return; }
            let inner = matches!(op, Do::Sign(..) | Do::S1Sign(..) | Do::S2Sign(..));
            let sx = if legacy { sys_transfer(&PAYER, &DEST2, 0) } else { swig_ix(&w) };
            for caller in [prog, script_id(99)] { for pre in 0..=PRES.len() { for tg in [None, Some(0u8), Some(1), Some(2), Some(255)] {
                let payload = match tg { None => vec![at], Some(x) => vec![at, x] };
                let mut v: Vec<Ix> = vec![];
                if pre > 0 { v.push(pre_ix(PRES[pre - 1], &prog, &prefix, &ak, &sx)); }
                let me = v.len();
                v.push(through(caller, &prefix, &c.with(&payload)));
                let which = match tg { None => me.checked_sub(1), Some(x) => ((x as usize) < me).then_some(x as usize) };
                let ok = !inner && which.is_some_and(|k| approves(&v[k], &prog, &prefix, &ak));
                let lab = || format!("kind {t} prefix {n}: {} called by {} after {:?}, target {tg:?}", op.name(), if caller == prog { "the approving program" } else { "a program" }, pre.checked_sub(1).map(|p| PRES[p]));
                // what the same call does when the transaction makes it
                let good = if ok { let mut u = v.clone(); u[me] = c.with(&payload); match ck.exec(&w, &u) { Ok(d) => d.world, Err(e) => { ck.fail("called:direct", format!("{}: refused when called directly ({e:?})", lab()), vec![], Some((w.clone(), u))); continue } } } else { w.clone() };
                judge(ck, &w, &v, &good, ok, "called", &lab);
            } } }
        }
    });
    crate::p_roles::replace_proofs(ck);
    // every prefix length, every byte of prefix, program and accounts
    let mut cases = vec![];
    for t in [PE, PES] { for n in 0..=40usize { cases.push((t, n)); } }
    ck.each("bytes", &cases, |ck, &(t, n)| {
        let prefix = prefix_of(n, 0x31);
        let w = world(t, &prefix, false);
        let op = usable(t, false).into_iter().find(|o| matches!(o, Do::Session(..) | Do::Sign(..))).unwrap();
        let c = op_call(&w, &wl, t as u32, &main_by(t, 1), &op);
        let ak = [c.metas[0].key, c.metas[1].key];
        let good = Ix { prog, metas: vec![m(ak[0]), m(ak[1])], data: prefix.clone() };
        for l in 0..=48usize { for fill in [0u8, 0x31, 7] {
            let mut ix = good.clone();
            ix.data.resize(l, fill);
            run(ck, &w, t, &op, &[ix], &[], None, &prefix, &|| format!("kind {t} prefix {n}: data of {l}"));
        } }
        for i in 0..n { for x in [1u8, 2, 4, 8, 16, 32, 64, 128, 0xff] {
            let mut ix = good.clone();
            ix.data[i] ^= x;
            if ix.data.contains(&0xEE) { continue; }
            run(ck, &w, t, &op, &[ix], &[], None, &prefix, &|| format!("kind {t} prefix {n}: byte {i} ^ {x}"));
        } }
        for k in 0..2 { for i in 0..256 {
            let mut ix = good.clone();
            ix.metas[k].key[i / 8] ^= 1 << (i % 8);
            run(ck, &w, t, &op, &[ix], &[], None, &prefix, &|| format!("kind {t} prefix {n}: account {k} bit {i}"));
        } }
        for b in 0..=255u8 {
            let mut ix = good.clone();
            ix.prog = script_id(b);
            run(ck, &w, t, &op, &[ix], &[], None, &prefix, &|| format!("kind {t} prefix {n}: program {b}"));
        }
        // many accounts before the checked ones do not hide them
        for k in [3usize, 8, 20, 35] {
            let mut ix = good.clone();
            for j in 0..k { ix.metas.push(m(nk(0xB1, j as u8))); }
            run(ck, &w, t, &op, &[ix], &[], None, &prefix, &|| format!("kind {t} prefix {n}: {k} more accounts"));
            let mut ix = good.clone();
            for j in 0..k { ix.metas.insert(0, m(nk(0xB1, j as u8))); }
            run(ck, &w, t, &op, &[ix], &[], None, &prefix, &|| format!("kind {t} prefix {n}: {k} accounts first"));
        }
    });
    // programs that differ in any one bit, judged by what the instruction sysvar names:
    // the stored program is varied instead, since only existing programs can run
    let cases: Vec<(u16, usize)> = [PE, PES].iter().flat_map(|t| (0..256).map(move |b| (*t, b))).collect();
    ck.each("program-bits", &cases, |ck, &(t, b)| {
        let prefix = prefix_of(3, 0x31);
        let mut w = world(t, &prefix, false);
        let mut s = wl.sw(&w);
        s.roles[t as usize].auth[b / 8] ^= 1 << (b % 8);
        wl.store(&mut w, &s);
        let op = usable(t, false).into_iter().find(|o| matches!(o, Do::Session(..) | Do::Sign(..))).unwrap();
        let mut c = op_call(&w, &wl, t as u32, &main_by(t, 1), &op);
        let i = c.index_of(&IXS, false);
        let ix = Ix { prog, metas: vec![m(c.metas[0].key), m(c.metas[1].key)], data: prefix.clone() };
        for v in [vec![ix.clone(), c.with(&[i])], vec![ix, c.with(&[i, 0])]] { judge(ck, &w, &v, &w, false, "program-bit", &|| format!("kind {t}: stored program differs in bit {b}")); }
    });
    // registration
    let mut cases = vec![];
    for t in [PE, PES] { for via in [false, true] { for n in 0..=255u16 { cases.push((t, via, n as u8)); } } }
    ck.each("registration", &cases, |ck, &(t, via_create, n)| {
        let full = |p: &Key, n: u8, garbage: u8| {
            let mut v = p.to_vec();
            v.push(n);
            v.extend([garbage; 7]);
            v.extend(prefix_of(40, 0x31));
            if t == PES { v.extend(sess_key(3)); v.extend(77u64.to_le_bytes()); v.extend([0; 8]); }
            v
        };
        let check = |data: &[u8], ok: bool, what: &str| {
            let mut w = base();
            let role;
            let ixs = if via_create { role = 0; w.fund(wl.swig, 0); w.fund(wl.wallet, 0); w.accts.remove(&wl.swig); w.accts.remove(&wl.wallet); vec![create_ix_raw(&wl, t, data, &acts_bytes(&[a_all()]), wl.bump, wl.wbump)] } else {
                role = 1;
                wl.install(&mut w, &[(OWNER, vec![a_all()])], rent(0) + 40);
                c_add(&wl, 0, t, data, &acts_bytes(&[a_all()]), 1).go(&w, &wl, 0, &By::Main(OWNER))
            };
            let lab = || format!("kind {t} via create {via_create}: {what}");
            match ck.exec(&w, &ixs) {
                Ok(_) if !ok => ck.fail("registered", format!("{}: registered", lab()), vec![], Some((w.clone(), ixs.clone()))),
                Err(e) if ok => ck.fail("not-registered", format!("{}: refused {e:?}", lab()), vec![], Some((w.clone(), ixs.clone()))),
                Ok(d) => {
                    let n = data[32] as usize;
                    let sw = wl.sw(&d.world);
                    let r = sw.role(role).unwrap();
                    let mut good = r.aty == t && r.auth[..32] == data[..32] && r.auth[32] as usize == n && r.auth[40..40 + n] == data[40..40 + n];
                    if t == PES { good &= le64(&r.auth, 112) == 77 && le64(&r.auth, 120) == 0; }
                    ck.ensure(good, "registered-differently", || format!("{}: stored {:02x?}", lab(), r.auth));
                }
                Err(_) => {}
            }
        };
        let l = if t == PE { 80 } else { 128 };
        for g in [0u8, 0xff] { check(&full(&prog, n, g), n <= 40, &format!("prefix length {n}")); }
        check(&full(&SWIG, n, 0), false, "the wallet program itself");
        if n < 8 { for b in 0..32 { let mut k = SWIG; k[b] ^= 1 << n; check(&full(&k, 3, 0), true, "near the wallet program"); } }
        let d = full(&prog, n.min(40), 0);
        if n as usize != l { let mut x = d.clone(); x.resize(n as usize, 0); check(&x, false, &format!("{n} bytes")); }
        for k in [256usize, 300, 65535 - 8] { if n == 0 && k < 400 { let mut x = d.clone(); x.resize(k, 0); check(&x, false, &format!("{k} bytes")); } }
    });
}
