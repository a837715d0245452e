//! P06..P12: what the wallet can be made to do on behalf of a role.
use crate::mcx::*;
use crate::p_roles::{relocate, RELOCATIONS};
use crate::model::*;
use crate::progs::*;
use crate::sw::*;
use crate::vm::*;

pub const MINT: Key = nk(0xA7, 1);
pub const MINT2: Key = nk(0xA7, 2);
pub const R: Key = script_id(1);
pub const R2: Key = script_id(2);
pub const OWNER: Cred = Cred { t: ED, n: 1 };
pub const LTD: Cred = Cred { t: ED, n: 2 };
pub const LTD2: Cred = Cred { t: ED, n: 3 };
/// lamports in the wallet above its rent floor
pub const PURSE: u64 = 40;
pub fn ta(n: u8) -> Key { nk(0x7A, n) }

pub fn base() -> World {
    let mut w = World { slot: 1000, ..Default::default() };
    w.fund(PAYER, 1_000_000_000_000);
    w.fund(DEST, 1_000_000_000);
    w.fund(DEST2, 1_000_000_000);
    w
}
#[derive(Clone)]
pub struct SA { pub label: String, pub role: u32, pub by: By, pub inner: Vec<Ix>, pub slots: u64, pub extra: Vec<Meta>, pub ro: Vec<Key> }
impl std::fmt::Debug for SA { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.label) } }
pub fn sa(label: &str, inner: Vec<Ix>) -> SA { SA { label: label.into(), role: 1, by: By::Main(LTD), inner, slots: 0, extra: vec![], ro: vec![] } }
pub fn tick(n: u64) -> SA { SA { label: format!("slot+{n}"), role: 0, by: By::Main(OWNER), inner: vec![], slots: n, extra: vec![], ro: vec![] } }

/// Executes `inner` on behalf of `role` and compares with the reference model.
pub fn try_sign(ck: Option<&Ck>, w: &World, wl: &Wl, a: &SA) -> Result<Option<World>, Bad> {
    let mut c = c_sign(wl, a.role, &a.inner);
    for x in &a.extra { c.metas.push(x.clone()); }
    for x in &mut c.metas { if a.ro.contains(&x.key) { x.writable = false; } }
    let ixs = c.go(w, wl, a.role, &a.by);
    compare_sign(ck, w, wl, a.role, &a.by, &a.inner, &ixs, &a.label)
}
pub fn compare_sign(ck: Option<&Ck>, w: &World, wl: &Wl, role: u32, by: &By, inner: &[Ix], ixs: &[Ix], label: &str) -> Result<Option<World>, Bad> {
    let mut sw = wl.sw(w);
    authed(&mut sw, role, by, true);
    let metas = &ixs.last().unwrap().metas;
    let mut exp = expect_sign(w, wl, &sw, role, inner, metas);
    // what a role used up is written to the configuration account
    if !metas.iter().any(|x| x.key == wl.swig && x.writable) { if let Ok((_, es)) = &exp { if *es != wl.sw(w) { exp = Err("config is read-only"); } } }
    let got = match ck { Some(ck) => ck.exec(w, ixs), None => exec(w, ixs) };
    match (exp, got) {
        (Err(_), Err(_)) => Ok(None),
        (Ok((ew, es)), Ok(d)) => {
            let ew = with_sw(ew, wl, &es);
            if let Some(x) = diff(&ew, &d.world) { return bad("wrong-effect", format!("{label}: accepted with the wrong effect: {x}"), w, ixs); }
            Ok(Some(d.world))
        }
        (Err(r), Ok(_)) => bad(&format!("overpermit:{}", r.replace(' ', "-")), format!("{label}: accepted although it must be refused ({r})"), w, ixs),
        (Ok((ew, es)), Err(e)) => {
            // the transaction as a whole may still fail for rent reasons
            let _ = (ew, es);
            bad("refused", format!("{label}: refused ({e:?}) although the role's permissions cover it"), w, ixs)
        }
    }
}
pub struct SignM { pub wl: Wl, pub inits: Vec<World>, pub acts: Vec<SA> }
impl Model for SignM {
    type S = World;
    type A = SA;
    fn init(&self) -> Vec<World> { self.inits.clone() }
    fn actions(&self, _: &World) -> Vec<SA> { self.acts.clone() }
    fn step(&self, w: &World, a: &SA) -> Result<Option<World>, Bad> {
        if a.slots > 0 { let mut n = w.clone(); n.slot += a.slots; return Ok(Some(n)); }
        try_sign(None, w, &self.wl, a)
    }
}
pub fn report(ck: &Ck, r: Result<Option<World>, Bad>, label: &str) -> Option<World> {
    match r { Ok(x) => x, Err(b) => { ck.fail(&b.key, b.msg, vec![label.to_string()], b.last); None } }
}
pub fn subsets<T: Clone>(v: &[T]) -> Vec<Vec<T>> {
    (0..1u32 << v.len()).map(|m| v.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, x)| x.clone()).collect()).collect()
}
/// all sequences over `n` symbols of length 1..=k
pub fn seqs(n: usize, k: usize) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = vec![];
    let mut layer: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..k {
        layer = layer.iter().flat_map(|x| (0..n as u8).map(move |i| { let mut y = x.clone(); y.push(i); y })).collect();
        out.extend(layer.iter().cloned());
    }
    out
}
/// Every sequence of up to `k` inner instructions out of `atoms`, in one SignV2, in each start world.
pub fn inner_sequences(ck: &Ck, space: &str, wl: &Wl, worlds: &[World], atoms: &[(&str, Ix)], k: usize) {
    let all = seqs(atoms.len(), k);
    let cases: Vec<(usize, &Vec<u8>)> = (0..worlds.len()).flat_map(|w| all.iter().map(move |q| (w, q))).collect();
    ck.each(space, &cases, |ck, (w, q)| {
        let label = q.iter().map(|i| atoms[*i as usize].0).collect::<Vec<_>>().join(", ");
        let mut s = sa(&format!("world {w}: {label}"), q.iter().map(|i| atoms[*i as usize].1.clone()).collect());
        report(ck, try_sign(Some(ck), &worlds[*w], wl, &s), &s.label);
        // the same with the wallet address, the configuration account, or both listed read-only
        if q.len() > 2 { return; }
        for ro in [vec![wl.wallet], vec![wl.swig], vec![wl.wallet, wl.swig]] {
            s.label = format!("world {w}: {label} with {} read-only", if ro.len() == 2 { "both" } else if ro[0] == wl.wallet { "the wallet" } else { "the configuration" });
            s.ro = ro;
            report(ck, try_sign(Some(ck), &worlds[*w], wl, &s), &s.label);
        }
        s.ro = vec![];
        s.label = format!("world {w}: {label}");
        listed_twice(ck, &worlds[*w], wl, &s);
        recasts(ck, &worlds[*w], wl, &s);
    });
}
/// the same request in every variant of the wallet
fn recasts(ck: &Ck, w: &World, wl: &Wl, s: &SA) {
    for v in 0..RECASTS {
        let Some((x, role, by, what)) = recast(w, wl, v) else { continue };
        let t = SA { role, by, label: format!("{what}: {}", s.label), ..s.clone() };
        report(ck, try_sign(Some(ck), &x, wl, &t), &t.label);
    }
}
const RECASTS: u8 = RELOCATIONS + 8 + 5;
/// The same wallet with its limited role (1) elsewhere in the list, under another number, or with another credential.
fn recast(w: &World, wl: &Wl, v: u8) -> Option<(World, u32, By, String)> {
    if v < RELOCATIONS { return relocate(w, wl, 1, v).map(|(x, role, what)| (x, role, By::Main(LTD), what.to_string())); }
    let mut x = w.clone();
    let mut s = wl.sw(w);
    if v >= RELOCATIONS + 8 {
        let what = ["reversed", "with the first permission last", "with the last permission first", "with empty records in between", "with large records in between"][(v - RELOCATIONS - 8) as usize];
        let pad = a_tok_rec_dest(&nk(0x4D, 9), &nk(0x7A, 99), 3, 5);
        for r in s.roles.iter_mut().filter(|r| r.id > 0) {
            let l = &mut r.acts;
            match v - RELOCATIONS - 8 {
                0 => l.reverse(),
                1 => l.rotate_left(1),
                2 => l.rotate_right(1),
                3 => *l = l.iter().flat_map(|a| [act(perm::MANAGE), a.clone()]).collect(),
                _ => *l = l.iter().flat_map(|a| [pad.clone(), a.clone(), pad.clone()]).collect(),
            }
        }
        wl.store(&mut x, &s);
        return Some((x, 1, By::Main(LTD), format!("permissions {what}")));
    }
    let c = Cred { t: AUTH_TYPES[(v - RELOCATIONS) as usize], n: 45 };
    if c.t == ED { return None; }
    let r = s.role_mut(1)?;
    r.aty = c.t;
    r.auth = c.stored();
    crate::p_roles::open(r, c.n, w.slot);
    wl.store(&mut x, &s);
    Some((x, 1, crate::p_roles::by_of(&c), format!("limited role of kind {}", c.t)))
}
/// The same request with one of its accounts listed a second time, at either end of the inner accounts: what it does is
/// the same, and nothing is charged less than once.
fn listed_twice(ck: &Ck, w: &World, wl: &Wl, a: &SA) {
    let c = c_sign(wl, a.role, &a.inner);
    let mut sw = wl.sw(w);
    authed(&mut sw, a.role, &a.by, true);
    let exp = expect_sign(w, wl, &sw, a.role, &a.inner, &c.metas);
    for i in 0..c.metas.len() { for front in [false, true] {
        let mut d = c.clone();
        let x = c.metas[i].clone();
        if front {
            // in front of the inner accounts: every index behind it moves
            let mut metas = vec![mw(wl.swig), mw(wl.wallet), m(SYSTEM), x];
            let p = gather(&mut metas, &a.inner, &[wl.wallet]);
            d = c_sign_raw(metas, a.role, &p);
            if i < 3 { continue; }
        } else { d.metas.push(x); }
        let key = c.metas[i].key;
        let tx = d.go(w, wl, a.role, &a.by);
        let at = || format!("{} with {} listed twice", a.label, short(&key));
        match (&exp, ck.exec(w, &tx)) {
            (Err(_), Err(_)) => {}
            (Err(r), Ok(_)) => ck.fail("twice-overpermit", format!("{}: accepted although it must be refused ({r})", at()), vec![], Some((w.clone(), tx))),
            (Ok((_, es)), Err(e)) => {
                // an account whose balance is limited may be charged for each listing
                let limited = ![SYSTEM, SWIG].contains(&w.owner(&key)) && !w.get(&key).is_some_and(|a| a.exec);
                if *es == wl.sw(w) || !limited { ck.fail("twice-refused", format!("{}: refused: {e:?}", at()), vec![], Some((w.clone(), tx))); }
            }
            (Ok((ew, es)), Ok(g)) => {
                let gs = wl.sw(&g.world);
                let mut rest = gs.clone();
                let mut low = true;
                if let (Some(r), Some(e), Some(o)) = (rest.role_mut(a.role), es.role(a.role), sw.role(a.role)) {
                    if r.acts.len() == e.acts.len() { for k in 0..r.acts.len() {
                        // a scope counts what was used, the others what is left
                        let scoped = e.acts[k].ty == perm::SCOPE;
                        let (rd, ed, od) = (&mut r.acts[k].data, &e.acts[k].data, &o.acts[k].data);
                        if rd.len() == ed.len() { for p in (0..rd.len() / 8).map(|p| p * 8) { if rd[p..p + 8] != ed[p..p + 8] && ed[p..p + 8] != od[p..p + 8] && (scoped || le64(rd, p) < le64(ed, p)) { low = low && ![SYSTEM, SWIG].contains(&w.owner(&key)); let v: Vec<u8> = ed[p..p + 8].to_vec(); rd[p..p + 8].copy_from_slice(&v); } } }
                    } }
                }
                let mut gw = g.world.clone();
                gw.edit(&wl.swig, |x| x.data = rest.encode());
                if let Some(x) = diff(&with_sw(ew.clone(), wl, es), &gw) { ck.fail("twice-effect", format!("{}: {x}", at()), vec![], Some((w.clone(), tx))); }
                else if !low { ck.fail("twice-charged", format!("{}: charged more", at()), vec![], Some((w.clone(), tx))); }
            }
        }
    } }
}
/// (amount, limit, window, last reset, slot, kind of limit) around the powers of 256
fn magnitudes(deep: bool) -> Vec<(u64, u64, u64, u64, u64, u8)> {
    let v: Vec<u64> = (1..8).flat_map(|i| { let x = 1u64 << (8 * i); [x - 1, x, x + 1] }).chain([1, 2, 1 << 31, i64::MAX as u64, 1 << 63, (1 << 63) + 1, u64::MAX - (1 << 35), u64::MAX]).collect();
    let mut out = vec![];
    for &n in &v { for &l in &v { for k in 0..4 { out.push((n, l, 5, 1000, 1000, k)); } } }
    for (n, l) in [(2u64, 2u64), (2, 3), (257, 300), ((1 << 32) + 1, 1 << 33), (3, 2)] {
        for &win in &v { for &last in &v { for d in [0u64, 1, win - 1, win, win.saturating_add(1), win.saturating_mul(2), win.saturating_mul(2).saturating_add(1), 256, 65536, 1 << 32] {
            if !deep && n > 3 { continue; }
            let Some(slot) = last.checked_add(d) else { continue };
            for k in 2..4 { out.push((n, l, win, last, slot, k)); }
        } } }
    }
    out
}
/// Every request of `sas` with its accounts listed in every order, and behind every number of unrelated accounts.
pub fn placements(ck: &Ck, space: &str, wl: &Wl, worlds: &[World], sas: &[SA]) {
    let fill = |i: usize, kind: u8| { let k = nk(0x6B, i as u8); match kind { 0 => m(k), 1 => mw(k), _ => mw(nk(0x6A, i as u8)) } };
    let mut cases: Vec<(usize, usize, Vec<Meta>)> = vec![];
    for (j, a) in sas.iter().enumerate() {
        let mut others = vec![];
        gather(&mut others, &a.inner, &[wl.wallet]);
        others.retain(|x| x.key != wl.swig && x.key != wl.wallet);
        if let By::Main(c) = &a.by { if c.t == ED && !others.iter().any(|x| x.key == ed_key(c.n)) { others.push(Meta { key: ed_key(c.n), signer: true, writable: false }); } }
        let mut lists: Vec<Vec<Meta>> = vec![];
        if others.len() <= 5 { for q in perms(others.len()) { lists.push(q.iter().map(|i| others[*i].clone()).collect()); } }
        for r in 0..others.len() { let mut v = others.clone(); v.rotate_left(r); lists.push(v.clone()); v.reverse(); lists.push(v); }
        for x in 0..others.len() { for y in x + 1..others.len() { let mut v = others.clone(); v.swap(x, y); lists.push(v); } }
        for kind in 0..3u8 { for n in 0..110usize {
            if !ck.thorough && n > 12 && !(28..36).contains(&n) && !(58..70).contains(&n) && n < 88 { continue; }
            let f: Vec<Meta> = (0..n).map(|i| fill(i, kind)).collect();
            lists.push([f.clone(), others.clone()].concat());
            let mut v = others.clone(); v.reverse();
            lists.push([f.clone(), v].concat());
            if n > 0 && n < 6 { for at in 1..=others.len() { let mut v = others.clone(); let t = v.split_off(at); lists.push([v, f.clone(), t].concat()); } }
        } }
        for w in 0..worlds.len() { for l in &lists { cases.push((w, j, l.clone())); } }
    }
    ck.each(space, &cases, |ck, (w, j, l)| {
        let a = &sas[*j];
        let mut w = worlds[*w].clone();
        for i in 0..110u8 { w.put(nk(0x6A, i), if i % 2 == 0 { tok::acct(TOKEN, &tok::new(MINT, DEST, 9)) } else { Acct { lamports: rent(0), owner: SYSTEM, exec: false, data: vec![] } }); }
        let mut metas = vec![mw(wl.swig), mw(wl.wallet)];
        metas.extend(l.iter().cloned());
        let p = gather(&mut metas, &a.inner, &[wl.wallet]);
        let ixs = c_sign_raw(metas, a.role, &p).go(&w, wl, a.role, &a.by);
        let r = compare_sign(Some(ck), &w, wl, a.role, &a.by, &a.inner, &ixs, &a.label);
        report(ck, r, &format!("{} with accounts {:?}", a.label, l.iter().map(|x| short(&x.key)).collect::<Vec<_>>()));
    });
}
fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 { return vec![vec![]]; }
    perms(n - 1).into_iter().flat_map(|p| (0..n).map(move |i| { let mut q = p.clone(); q.insert(i, n - 1); q })).collect()
}
/// (in front of one limit, so that it is the last record, and behind several)
fn with_all(mut v: Vec<Act>) -> Vec<Act> { if v.len() == 1 { v.insert(0, act(perm::PROG_ALL)); } else { v.push(act(perm::PROG_ALL)); } v }

/// how many accounts, limits and payments one transaction holds at once
const MANY: [usize; 14] = [1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 17, 20, 24];

/// scripted program that has the wallet pay `n` to `to` through the System program
fn script_pay(wl: &Wl, to: &Key, n: u64) -> Ix {
    let t = sys_transfer(&wl.wallet, to, n);
    Ix { prog: R, metas: vec![msw(wl.wallet), mw(*to), m(SYSTEM)], data: script_data(&[Op::Call(2, vec![(0, true, true), (1, false, true)], t.data)]) }
}

/// `k` with one byte, `i`, different
fn near(k: &Key, i: usize) -> Key { let mut k = *k; k[i] ^= 1; k }

// ------------------------------------------------------------------ P06
pub fn p06(ck: &Ck) {
    let wl = Wl::new(1);
    let win = 5;
    let world = |roles: &[(Cred, Vec<Act>)]| { let mut w = base(); wl.install(&mut w, roles, rent(0) + PURSE); w };
    let pay = |d: &Key, n: u64| sys_transfer(&wl.wallet, d, n);
    let back = |n: u64| sys_transfer(&DEST, &wl.wallet, n);
    // --- all combinations of SOL permissions, all short histories
    let pool = [a_sol(6), a_sol_rec(4, win), a_sol_dest(&DEST, 3), a_sol_rec_dest(&DEST, 4, win), a_sol_dest(&DEST2, 5)];
    let mut inits = vec![];
    for s in subsets(&pool) {
        for rev in [false, true] {
            let mut s = s.clone();
            if rev { if s.len() < 2 { continue; } s.reverse(); }
            inits.push(world(&[(OWNER, vec![a_all()]), (LTD, with_all(s)), (LTD2, with_all(vec![a_sol(2)]))]));
        }
    }
    let mut acts = vec![
        sa("pay 0", vec![pay(&DEST, 0)]),
        sa("pay D1 2", vec![pay(&DEST, 2)]),
        sa("pay D1 3", vec![pay(&DEST, 3)]),
        sa("pay D2 3", vec![pay(&DEST2, 3)]),
        sa("pay D1 4", vec![pay(&DEST, 4)]),
        sa("pay D1 1 + D2 1", vec![pay(&DEST, 1), pay(&DEST2, 1)]),
        sa("pay D1 2, get 2 back", vec![pay(&DEST, 2), back(2)]),
        sa("get 5, pay D1 5", vec![back(5), pay(&DEST, 5)]),
        sa("pay D1 3 twice", vec![pay(&DEST, 3), pay(&DEST, 3)]),
        sa("program pays D1 2", vec![script_pay(&wl, &DEST, 2)]),
        sa("pay D1 1, program pays D2 1", vec![pay(&DEST, 1), script_pay(&wl, &DEST2, 1)]),
        sa("other role pays D1 1", vec![pay(&DEST, 1)]),
        sa("owner pays D1 1", vec![pay(&DEST, 1)]),
        tick(1), tick(win), tick(win + 1),
    ];
    acts[11].role = 2; acts[11].by = By::Main(LTD2);
    acts[12].role = 0; acts[12].by = By::Main(OWNER);
    ck.bfs("sol-history", &SignM { wl, inits: inits.clone(), acts: acts.clone() }, if ck.thorough { 7 } else { 6 });
    // deeper histories for the single-permission roles
    let few: Vec<World> = pool.iter().map(|a| world(&[(OWNER, vec![a_all()]), (LTD, with_all(vec![a.clone()]))])).collect();
    let short: Vec<SA> = acts.iter().filter(|a| ["pay D1 2", "pay D1 3", "pay D2 3", "pay D1 2, get 2 back", "pay D1 1 + D2 1"].contains(&&a.label[..]) || a.slots > 0).cloned().collect();
    ck.bfs("sol-deep", &SignM { wl, inits: few, acts: short }, if ck.thorough { 12 } else { 9 });
    // --- everything one transaction can do with the wallet's lamports
    let atoms = [("pay D1 0", pay(&DEST, 0)), ("pay D1 1", pay(&DEST, 1)), ("pay D1 3", pay(&DEST, 3)), ("pay D2 2", pay(&DEST2, 2)), ("get 1", back(1)), ("get 4", back(4)), ("program pays D1 2", script_pay(&wl, &DEST, 2)), ("pay the config account 1", pay(&wl.swig, 1))];
    let solo: Vec<World> = pool.iter().cloned().map(|a| vec![a]).chain([vec![], vec![pool[0].clone(), pool[2].clone()], vec![pool[2].clone(), pool[4].clone()], vec![pool[3].clone(), pool[4].clone()]]).map(|v| world(&[(OWNER, vec![a_all()]), (LTD, with_all(v))])).collect();
    inner_sequences(ck, "sol-one-transaction", &wl, &solo, &atoms, if ck.thorough { 6 } else { 5 });
    inner_sequences(ck, "sol-one-transaction-longer", &wl, &solo, &atoms[1..], if ck.thorough { 7 } else { 6 });
    // --- boundary values of every field
    let vals = [0, 1, 2, 7, u64::MAX - 1, u64::MAX];
    let mut cases: Vec<(Act, u64, u64, bool)> = vec![];
    for l in vals { for n in [0, 1, 2, 3, 7, 8] { cases.push((a_sol(l), n, 1000, false)); for d in [DEST, DEST2] { cases.push((a_sol_dest(&d, l), n, 1000, false)); } } }
    let slots = if ck.thorough { vec![0, 1, 5, 6, 9, 10, 11, 99, 100, 101, 105, 106, u64::MAX] } else { vec![0, 5, 6, 10, 11, 100, 105, 106, u64::MAX] };
    for lim in [0, 3, 7, u64::MAX] { for w in [1u64, 5, 100, u64::MAX] { for last in [0u64, 5, 95, 100] { for cur in [0, 2, lim.min(7), lim.saturating_add(3)] { for n in [1, 2, 3, 4, 7, 8] { for s in &slots {
        if last > *s { continue; }
        cases.push((a_sol_rec_at(lim, w, last, cur), n, *s, false));
        let d = [&DEST[..], &lim.to_le_bytes(), &w.to_le_bytes(), &last.to_le_bytes(), &cur.to_le_bytes()].concat();
        cases.push((Act { ty: perm::SOL_REC_DEST, data: d }, n, *s, false));
    } } } } } }
    // rent floor: spending down to and below it
    for n in [PURSE - 1, PURSE, PURSE + 1, PURSE + rent(0) - 1, PURSE + rent(0)] { cases.push((a_sol(u64::MAX), n, 1000, true)); cases.push((a_sol_dest(&DEST, u64::MAX), n, 1000, true)); }
    ck.each("sol-boundary", &cases, |ck, (a, n, slot, _)| {
        let mut w = world(&[(OWNER, vec![a_all()]), (LTD, with_all(vec![a.clone()]))]);
        w.slot = *slot;
        let s = sa(&format!("{a:?} pay {n} at {slot}"), vec![pay(&DEST, *n)]);
        report(ck, try_sign(Some(ck), &w, &wl, &s), &s.label);
    });
    // amounts, limits, windows and slots around every power of 256
    ck.each("sol-magnitudes", &magnitudes(ck.thorough), |ck, &(n, lim, win, last, slot, k)| {
        let a = match k { 0 => a_sol(lim), 1 => a_sol_dest(&DEST, lim), 2 => a_sol_rec_at(lim, win, last, lim / 2), _ => Act { ty: perm::SOL_REC_DEST, data: [&DEST[..], &lim.to_le_bytes(), &win.to_le_bytes(), &last.to_le_bytes(), &(lim / 2).to_le_bytes()].concat() } };
        let mut w = world(&[(OWNER, vec![a_all()]), (LTD, with_all(vec![a.clone()]))]);
        w.fund(wl.wallet, u64::MAX - (1 << 34));
        w.slot = slot;
        let s = sa(&format!("{a:?} pay {n} at {slot}"), vec![pay(&DEST, n)]);
        report(ck, try_sign(Some(ck), &w, &wl, &s), &s.label);
    });
    let placed: Vec<SA> = acts.iter().filter(|a| ["pay D1 3", "pay D1 4", "pay D1 1 + D2 1", "pay D1 1, program pays D2 1"].contains(&&a.label[..])).cloned().collect();
    placements(ck, "sol-placement", &wl, &solo[..6], &placed);
    // --- destinations differing from the permitted one in a single byte, wherever it is
    let mut cases = vec![];
    for i in 0..32 { let d = near(&DEST, i); for v in [vec![a_sol_dest(&d, 9)], vec![a_sol_rec_dest(&d, 9, win)], vec![a_sol_dest(&d, 9), a_sol(2)], vec![a_sol_dest(&d, 1), a_sol_dest(&DEST, 5)], vec![a_sol_rec_dest(&d, 1, win), a_sol_rec_dest(&DEST, 5, win)], vec![a_sol_dest(&DEST, 5), a_sol_dest(&d, 1)]] { for to in [vec![DEST], vec![d], vec![DEST, d]] { for n in [1u64, 2, 3, 6] { cases.push((i, v.clone(), to.clone(), n)); } } } }
    ck.each("sol-near-keys", &cases, |ck, (i, v, to, n)| {
        let mut w = world(&[(OWNER, vec![a_all()]), (LTD, with_all(v.clone()))]);
        w.fund(near(&DEST, *i), rent(0) + PURSE);
        let s = sa(&format!("{v:?} pay {n} to {:?}", to.iter().map(crate::model::short).collect::<Vec<_>>()), to.iter().map(|t| pay(t, *n)).collect());
        report(ck, try_sign(Some(ck), &w, &wl, &s), &s.label);
    });
    // --- the shapes a transfer can take: to the wallet itself, bytes after the amount, accounts
    // after the two, a payer whose key differs from the wallet's in one byte
    let tail = |mut ix: Ix, bytes: usize, accts: usize| { ix.data.extend(vec![0xA5; bytes]); for _ in 0..accts { ix.metas.push(m(DEST2)); } ix };
    let mut cases = vec![];
    let limits = [vec![a_sol_dest(&wl.wallet, 3)], vec![a_sol_rec_dest(&wl.wallet, 3, win)], vec![a_sol_dest(&wl.wallet, 3), a_sol_dest(&DEST, 3)], vec![a_sol(3), a_sol_dest(&wl.wallet, 3), a_sol_rec_dest(&DEST, 3, win)], vec![a_sol_dest(&DEST, 3)], vec![a_sol_rec_dest(&DEST, 3, win)], vec![a_sol(3)], vec![a_sol_rec(3, win)], vec![]];
    let mut forms: Vec<(String, Ix)> = vec![("get 1".into(), back(1)), ("to itself 2".into(), pay(&wl.wallet, 2)), ("to itself 4".into(), pay(&wl.wallet, 4)), ("program pays 1".into(), script_pay(&wl, &DEST, 1))];
    for b in [0, 1, 4, 8, 20] { for a in [0, 1, 3] { for n in [1u64, 2, 4] { forms.push((format!("pay {n}, {b} bytes and {a} accounts more"), tail(pay(&DEST, n), b, a))); } } }
    for i in 0..32 { forms.push((format!("byte {i} of the payer off"), sys_transfer(&near(&wl.wallet, i), &DEST, 1))); }
    for (v, l) in limits.iter().enumerate() { for x in 0..forms.len() { cases.push((v, l.clone(), vec![x])); for y in 0..forms.len() { if x < 7 || y < 7 { cases.push((v, l.clone(), vec![x, y])); } } } }
    ck.each("sol-transfer-forms", &cases, |ck, (_, v, q)| {
        let mut w = world(&[(OWNER, vec![a_all()]), (LTD, with_all(v.clone()))]);
        for i in 0..32 { w.fund(near(&wl.wallet, i), rent(0) + PURSE); }
        let s = sa(&format!("{v:?} {:?}", q.iter().map(|i| &forms[*i].0).collect::<Vec<_>>()), q.iter().map(|i| forms[*i].1.clone()).collect());
        report(ck, try_sign(Some(ck), &w, &wl, &s), &s.label);
    });
    // --- whoever is paid: the payer of the fee, the keys of roles, the wallet's own accounts, other programs' accounts
    let other = Wl::new(201);
    let to: Vec<Key> = vec![PAYER, ed_key(LTD.n), ed_key(OWNER.n), ed_key(LTD2.n), wl.swig, wl.sub1(1).0, wl.sub1(0).0, wl.sub2(0).0, wl.sub2_state(0).0, other.swig, other.wallet, ta(1), ta(3), st(1), sc(1), nk(0x55, 1), nk(0x55, 2), MINT, [0xff; 32], [1; 32]];
    let mut cases = vec![];
    for (i, k) in to.iter().enumerate() { for v in [vec![a_sol(3)], vec![a_sol_rec(3, win)], vec![a_sol_dest(k, 3)], vec![a_sol_rec_dest(k, 3, win)], vec![a_sol_dest(&DEST, 3)], vec![a_sol_dest(&DEST, 9), a_sol_dest(k, 3)], vec![a_sol(9), a_sol_rec_dest(k, 3, win)], vec![a_sol(3), a_sol_dest(k, 9)], vec![a_sol(3), a_sol_dest(&DEST, 2)], vec![]] {
        for q in [vec![(1u64, true)], vec![(3, true)], vec![(4, true)], vec![(2, true), (2, true)], vec![(2, true), (2, false)], vec![(1, false), (3, true)], vec![(0, true)]] { for x in 0..3u8 { cases.push((i, v.clone(), q.clone(), x)); } }
    } }
    ck.each("sol-recipients", &cases, |ck, (i, v, q, x)| {
        let k = to[*i];
        let mut w = world(&[(OWNER, vec![a_all()]), (LTD, with_all([v.clone(), vec![act(perm::STAKE_ALL)]].concat())), (LTD2, vec![a_sol(3)])]);
        other.install(&mut w, &[(OWNER, vec![a_all()])], rent(0) + 5);
        if w.get(&k).is_none() { w.fund(k, rent(0) + PURSE); }
        if k == nk(0x55, 1) { w.put(k, Acct { lamports: rent(40), owner: R, exec: false, data: vec![1; 40] }); }
        if k == ta(1) { w.put(k, tok::acct(TOKEN, &tok::new(MINT, wl.wallet, 20))); }
        if k == ta(3) { w.put(k, tok::acct(TOKEN, &tok::new(MINT, DEST, 20))); }
        if k == st(1) { w.put(k, stake_acct(2, &wl.wallet, 20, 20)); }
        let mut s = sa(&format!("{v:?} to {}: {q:?} {x}", crate::model::short(&k)), q.iter().map(|(n, us)| if *us { pay(&k, *n) } else { pay(&DEST, *n) }).collect());
        match x { 1 => s.extra = vec![Meta { key: k, signer: false, writable: true }], 2 => s.extra = vec![m(DEST2), mw(DEST), Meta { key: k, signer: false, writable: true }], _ => {} }
        report(ck, try_sign(Some(ck), &w, &wl, &s), &s.label);
    });
    // --- many payments, many limited destinations: each counts, wherever it stands in the list
    let mut cases = vec![];
    for k in MANY { for kind in 0..5u8 { for rev in [false, true] { for over in [None, Some(0), Some(k / 2), Some(k - 1)] { for step in [1u64, 5] { cases.push((k, kind, rev, over, step)); } } } } }
    ck.each("sol-many", &cases, |ck, &(k, kind, rev, over, step)| {
        let to = |i: usize| nk(0x64, i as u8);
        let n = |i: usize| step + i as u64 % 3;
        let total: u64 = (0..k).map(n).sum();
        let short = over.map_or(0, |_| 1);
        let mut v: Vec<Act> = (0..k).filter_map(|i| { let l = n(i) - if over == Some(i) { 1 } else { 0 }; match (kind, i % 2) { (0, _) | (2, 0) => Some(a_sol_dest(&to(i), l)), (1, _) | (2, 1) => Some(a_sol_rec_dest(&to(i), l, win)), _ => None } }).collect();
        if kind == 3 { v.push(a_sol(total - short)); }
        if kind == 4 { v.push(a_sol_rec(total - short, win)); }
        if rev { v.reverse(); }
        let mut w = world(&[(OWNER, vec![a_all()]), (LTD, [vec![act(perm::PROG_ALL)], v].concat())]);
        w.fund(wl.wallet, rent(0) + 500);
        for i in 0..k { w.fund(to(i), rent(0) + PURSE); }
        let s = sa(&format!("{k} payments, limits {kind}, reversed {rev}, over at {over:?}, {step}"), (0..k).map(|i| pay(&to(i), n(i))).collect());
        report(ck, try_sign(Some(ck), &w, &wl, &s), &s.label);
    });
    // --- a wallet at, below and just above the rent it needs, spending or not
    let mut cases = vec![];
    let what = [("nothing", vec![]), ("another pays D", vec![sys_transfer(&DEST2, &DEST, 1)]), ("get 1", vec![back(1)]), ("get 2", vec![back(2)]), ("pay 1", vec![pay(&DEST, 1)]), ("pay 1 get 1", vec![pay(&DEST, 1), back(1)]), ("get 2 pay 1", vec![back(2), pay(&DEST, 1)]), ("get what is missing", vec![back(rent(0))])];
    for v in pool.iter().map(|a| vec![a.clone()]).chain([vec![], vec![pool[0].clone(), pool[2].clone()], vec![a_all()], vec![act(perm::ALL_BUT)]]) { for l in [1, 2, rent(0) / 2, rent(0) - 2, rent(0) - 1, rent(0), rent(0) + 1, rent(0) + 2] { for x in 0..what.len() { cases.push((v.clone(), l, x)); } } }
    ck.each("sol-rent-floor", &cases, |ck, (v, l, x)| {
        let mut w = world(&[(OWNER, vec![a_all()]), (LTD, with_all(v.clone()))]);
        w.fund(wl.wallet, *l);
        let s = sa(&format!("{v:?} wallet holds {l}, {}", what[*x].0), what[*x].1.clone());
        report(ck, try_sign(Some(ck), &w, &wl, &s), &s.label);
    });
    // --- every permission type in front of / behind / between the limits
    let others: Vec<Act> = (1..=26u16).filter(|t| ![perm::ALL, perm::ALL_BUT].contains(t)).map(|t| act(t)).collect();
    let mut cases = vec![];
    for o in &others { for p in &pool { for first in [true, false] { for n in [1u64, 3, 4, 7] { cases.push((o.clone(), p.clone(), first, n)); } } } }
    ck.each("sol-neighbours", &cases, |ck, (o, p, first, n)| {
        // a zeroed SOL record is itself a (zero) limit: fine, the model knows
        let v = if *first { vec![o.clone(), p.clone()] } else { vec![p.clone(), o.clone()] };
        if o.ty == perm::SOL_REC || o.ty == perm::SOL_REC_DEST || o.ty == perm::SCOPE { return; }
        let w = world(&[(OWNER, vec![a_all()]), (LTD, with_all(v))]);
        let s = sa(&format!("{o:?} {p:?} {first} pay {n}"), vec![pay(&DEST, *n)]);
        report(ck, try_sign(Some(ck), &w, &wl, &s), &s.label);
    });
}

// ------------------------------------------------------------------ P07
const TDEL: Key = nk(0xA8, 1);
fn tok_world(wl: &Wl, roles: &[(Cred, Vec<Act>)]) -> World {
    let mut w = base();
    wl.install(&mut w, roles, rent(0) + PURSE);
    w.put(MINT, tok::mint_acct(TOKEN, PAYER, 100));
    w.put(MINT2, tok::mint_acct(TOKEN22, PAYER, 100));
    w.put(ta(1), tok::acct(TOKEN, &tok::new(MINT, wl.wallet, 20)));
    w.put(ta(2), tok::acct(TOKEN, &tok::new(MINT, wl.wallet, 10)));
    w.put(ta(3), tok::acct(TOKEN, &tok::new(MINT, DEST, 9)));
    w.put(ta(4), tok::acct(TOKEN, &tok::new(MINT, DEST2, 0)));
    w.put(ta(5), tok::acct(TOKEN22, &tok::new(MINT2, wl.wallet, 20)));
    let mut plain = tok::acct(TOKEN22, &tok::new(MINT2, DEST, 0));
    plain.data.truncate(165);
    w.put(ta(6), plain);
    w.put(ta(7), tok::acct(TOKEN, &tok::new(MINT, wl.swig, 5)));
    w.put(ta(8), tok::acct(TOKEN, &tok::new(MINT, wl.wallet, 0)));
    w
}
fn tok_checked(prog: &Key, from: &Key, mint: &Key, to: &Key, auth: &Key, n: u64) -> Ix {
    let mut d = vec![12];
    d.extend(n.to_le_bytes());
    d.push(6);
    Ix { prog: *prog, metas: vec![mw(*from), m(*mint), mw(*to), ms(*auth)], data: d }
}
fn tok_burn(prog: &Key, from: &Key, mint: &Key, auth: &Key, n: u64) -> Ix {
    let mut d = vec![8];
    d.extend(n.to_le_bytes());
    Ix { prog: *prog, metas: vec![mw(*from), mw(*mint), ms(*auth)], data: d }
}
fn tok_approve(prog: &Key, from: &Key, del: &Key, auth: &Key, n: u64) -> Ix {
    let mut d = vec![4];
    d.extend(n.to_le_bytes());
    Ix { prog: *prog, metas: vec![mw(*from), m(*del), ms(*auth)], data: d }
}
fn tok_set_auth(prog: &Key, from: &Key, auth: &Key, kind: u8, new: Option<Key>) -> Ix {
    let mut d = vec![6, kind, new.is_some() as u8];
    if let Some(k) = new { d.extend(k); }
    Ix { prog: *prog, metas: vec![mw(*from), ms(*auth)], data: d }
}
pub fn tok_close(prog: &Key, from: &Key, to: &Key, auth: &Key) -> Ix {
    Ix { prog: *prog, metas: vec![mw(*from), mw(*to), ms(*auth)], data: vec![9] }
}
/// a program that moves tokens with the wallet's signature
fn script_tok(wl: &Wl, prog: &Key, from: &Key, to: &Key, n: u64) -> Ix {
    let t = tok_transfer(prog, from, to, &wl.wallet, n);
    Ix { prog: R, metas: vec![mw(*from), mw(*to), ms(wl.wallet), m(*prog)], data: script_data(&[Op::Call(3, vec![(0, false, true), (1, false, true), (2, true, false)], t.data)]) }
}
pub fn p07(ck: &Ck) {
    let wl = Wl::new(2);
    let win = 5;
    let wa = wl.wallet;
    let pool = [a_tok(&MINT, 6), a_tok_rec(&MINT, 4, win), a_tok_dest(&MINT, &ta(3), 3), a_tok_rec_dest(&MINT, &ta(3), 4, win), a_tok_dest(&MINT, &ta(4), 5), a_tok(&MINT2, 3)];
    let t1 = |s: u8, d: u8, n| tok_transfer(&TOKEN, &ta(s), &ta(d), &wa, n);
    let t22 = |s: u8, d: u8, n| tok_transfer(&TOKEN22, &ta(s), &ta(d), &wa, n);
    let fromd = |n| tok_transfer(&TOKEN, &ta(3), &ta(1), &DEST, n);
    let mut acts = vec![
        sa("send 0", vec![t1(1, 3, 0)]),
        sa("send 2", vec![t1(1, 3, 2)]),
        sa("send 3", vec![t1(1, 3, 3)]),
        sa("send 4 elsewhere", vec![t1(1, 4, 4)]),
        sa("send 2 checked", vec![tok_checked(&TOKEN, &ta(1), &MINT, &ta(3), &wa, 2)]),
        sa("send 1+1 from two accounts", vec![t1(1, 3, 1), t1(2, 3, 1)]),
        sa("send 2 get 2 back", vec![t1(1, 3, 2), fromd(2)]),
        sa("get 3 send 3", vec![fromd(3), t1(1, 3, 3)]),
        sa("own account to own account", vec![t1(1, 2, 2)]),
        sa("send 3 of the other mint", vec![t22(5, 6, 3)]),
        sa("program sends 2", vec![script_tok(&wl, &TOKEN, &ta(1), &ta(3), 2)]),
        sa("send 1, program sends 1", vec![t1(1, 3, 1), script_tok(&wl, &TOKEN, &ta(1), &ta(4), 1)]),
        sa("burn 2", vec![tok_burn(&TOKEN, &ta(1), &MINT, &wa, 2)]),
        sa("send 2 of each mint", vec![t1(1, 3, 2), t22(5, 6, 2)]),
        sa("other role sends 1", vec![t1(1, 3, 1)]),
        sa("owner sends 1", vec![t1(1, 3, 1)]),
        tick(1), tick(win), tick(win + 1),
    ];
    acts[14].role = 2; acts[14].by = By::Main(LTD2);
    acts[15].role = 0; acts[15].by = By::Main(OWNER);
    let world = |v: Vec<Act>| tok_world(&wl, &[(OWNER, vec![a_all()]), (LTD, with_all(v)), (LTD2, with_all(vec![a_tok(&MINT, 2)]))]);
    let mut inits = vec![];
    for s in subsets(&pool) { inits.push(world(s.clone())); if ck.thorough && s.len() > 1 { let mut s = s; s.reverse(); inits.push(world(s)); } }
    ck.bfs("token-history", &SignM { wl, inits, acts: acts.clone() }, if ck.thorough { 5 } else { 4 });
    let few: Vec<World> = pool.iter().map(|a| world(vec![a.clone()])).collect();
    let short: Vec<SA> = acts.iter().filter(|a| ["send 2", "send 3", "send 4 elsewhere", "send 1+1 from two accounts", "send 2 get 2 back", "burn 2"].contains(&&a.label[..]) || a.slots > 0).cloned().collect();
    ck.bfs("token-deep", &SignM { wl, inits: few, acts: short }, if ck.thorough { 11 } else { 8 });
    // everything one transaction can do with the wallet's tokens
    let atoms = [("send 0", t1(1, 3, 0)), ("send 1", t1(1, 3, 1)), ("send 3", t1(1, 3, 3)), ("send 2 elsewhere", t1(1, 4, 2)), ("get 1", fromd(1)), ("get 4", fromd(4)), ("second account sends 1", t1(2, 3, 1)), ("to own account 1", t1(1, 2, 1)),
        ("program sends 2", script_tok(&wl, &TOKEN, &ta(1), &ta(3), 2)), ("other mint 1", t22(5, 6, 1))];
    let solo: Vec<World> = pool.iter().cloned().map(|a| vec![a]).chain([vec![], vec![pool[0].clone(), pool[2].clone()], vec![pool[2].clone(), pool[4].clone()], vec![pool[0].clone(), pool[5].clone()]]).map(|v| world(v)).collect();
    inner_sequences(ck, "token-one-transaction", &wl, &solo, &atoms, if ck.thorough { 5 } else { 4 });
    inner_sequences(ck, "token-one-transaction-longer", &wl, &solo, &atoms[1..], if ck.thorough { 6 } else { 5 });
    let placed: Vec<SA> = acts.iter().filter(|a| ["send 3", "send 4 elsewhere", "send 1+1 from two accounts", "send 3 of the other mint", "burn 2", "program sends 2", "own account to own account"].contains(&&a.label[..])).cloned().collect();
    placements(ck, "token-placement", &wl, &solo[..7], &placed);
    // what leaves an account that the same transaction then closes
    let native = nk(0x77, 1);
    let emptied = |v: Vec<Act>| {
        let mut w = world(v);
        w.put(ta(10), tok::acct(TOKEN, &tok::new(MINT, wa, 3)));
        let mut n = tok::new(native, wa, 3);
        n.native = Some(rent(165));
        w.put(ta(9), { let mut a = tok::acct(TOKEN, &n); a.lamports = rent(165) + 3; a });
        w
    };
    let atoms = [("send 3", t1(10, 3, 3)), ("send 1", t1(10, 3, 1)), ("send 2 elsewhere", t1(10, 4, 2)), ("to own account 3", t1(10, 1, 3)), ("burn 3", tok_burn(&TOKEN, &ta(10), &MINT, &wa, 3)), ("get 1", tok_transfer(&TOKEN, &ta(3), &ta(10), &DEST, 1)),
        ("close", tok_close(&TOKEN, &ta(10), &DEST, &wa)), ("close to wallet", tok_close(&TOKEN, &ta(10), &wa, &wa)), ("close native", tok_close(&TOKEN, &ta(9), &DEST, &wa)), ("send 1 native", tok_transfer(&TOKEN, &ta(9), &ta(9), &wa, 1)), ("other account sends 1", t1(1, 3, 1))];
    let limits: Vec<Vec<Act>> = pool.iter().cloned().map(|a| vec![a]).chain([vec![], vec![a_tok(&MINT, 3)], vec![a_tok(&MINT, 2)], vec![a_tok(&native, 3)], vec![a_tok(&native, 2), a_tok(&MINT, 3)], vec![a_tok_rec(&native, 3, win)], vec![a_tok_dest(&native, &DEST, 3)], vec![pool[0].clone(), pool[2].clone()]]).collect();
    let closers: Vec<World> = limits.iter().flat_map(|v| [emptied(v.clone()), emptied([vec![act(perm::CLOSE)], v.clone()].concat()), emptied([v.clone(), vec![act(perm::CLOSE)]].concat())]).collect();
    inner_sequences(ck, "emptied-and-closed", &wl, &closers, &atoms, if ck.thorough { 4 } else { 3 });
    // field boundaries
    let vals = [0u64, 1, 2, 7, u64::MAX - 1, u64::MAX];
    let mut cases: Vec<(Act, u64, u64)> = vec![];
    for l in vals { for n in [1, 2, 3, 7, 8] { cases.push((a_tok(&MINT, l), n, 1000)); cases.push((a_tok_dest(&MINT, &ta(3), l), n, 1000)); } }
    let slots = if ck.thorough { vec![0, 1, 5, 6, 9, 10, 11, 99, 100, 101, 105, 106, u64::MAX] } else { vec![0, 5, 6, 10, 11, 100, 105, 106, u64::MAX] };
    for lim in [0, 3, 7, u64::MAX] { for w in [1u64, 5, 100, u64::MAX] { for last in [0u64, 5, 95, 100] { for cur in [0, 2, lim.min(7), lim.saturating_add(3)] { for n in [1, 2, 3, 4, 7, 8] { for s in &slots {
        if last > *s { continue; }
        cases.push((a_tok_rec_at(&MINT, lim, w, last, cur), n, *s));
        let d = [&MINT[..], &ta(3), &lim.to_le_bytes(), &w.to_le_bytes(), &last.to_le_bytes(), &cur.to_le_bytes()].concat();
        cases.push((Act { ty: perm::TOK_REC_DEST, data: d }, n, *s));
    } } } } } }
    ck.each("token-boundary", &cases, |ck, (a, n, slot)| {
        let mut w = world(vec![a.clone()]);
        w.slot = *slot;
        let s = sa(&format!("{a:?} send {n} at {slot}"), vec![t1(1, 3, *n)]);
        report(ck, try_sign(Some(ck), &w, &wl, &s), &s.label);
    });
    ck.each("token-magnitudes", &magnitudes(ck.thorough), |ck, &(n, lim, win, last, slot, k)| {
        let rec = |d: &[u8]| [d, &lim.to_le_bytes(), &win.to_le_bytes(), &last.to_le_bytes(), &(lim / 2).to_le_bytes()].concat();
        let a = match k { 0 => a_tok(&MINT, lim), 1 => a_tok_dest(&MINT, &ta(4), lim), 2 => a_tok_rec_at(&MINT, lim, win, last, lim / 2), _ => Act { ty: perm::TOK_REC_DEST, data: rec(&[MINT, ta(4)].concat()) } };
        let mut w = world(vec![a.clone()]);
        w.put(ta(1), tok::acct(TOKEN, &tok::new(MINT, wa, u64::MAX)));
        w.slot = slot;
        let s = sa(&format!("{a:?} send {n} at {slot}"), vec![t1(1, 4, n)]);
        report(ck, try_sign(Some(ck), &w, &wl, &s), &s.label);
    });
    // neighbours: any other permission next to each limit; mints and destinations that almost match
    let mut cases: Vec<(Vec<Act>, u64)> = vec![];
    for t in (1..=26u16).filter(|t| ![perm::ALL, perm::ALL_BUT, perm::SCOPE].contains(t)) { for p in &pool { for n in [1u64, 3, 4, 7] {
        cases.push((vec![act(t), p.clone()], n));
        cases.push((vec![p.clone(), act(t)], n));
    } } }
    for i in 0..32 {
        let (mn, d) = (near(&MINT, i), near(&ta(3), i));
        for v in [vec![a_tok(&mn, 9)], vec![a_tok_rec(&mn, 9, 5)], vec![a_tok_dest(&mn, &ta(3), 9)], vec![a_tok_dest(&MINT, &d, 9)], vec![a_tok_rec_dest(&mn, &ta(3), 9, 5)], vec![a_tok_rec_dest(&MINT, &d, 9, 5)],
            vec![a_tok(&mn, 9), a_tok(&MINT, 2)], vec![a_tok_dest(&MINT, &d, 9), a_tok_dest(&MINT, &ta(3), 2)], vec![a_tok_rec(&mn, 9, 5), a_tok_rec(&MINT, 2, 5)]] {
            for n in [1, 2, 3] { cases.push((v.clone(), n)); }
        }
    }
    // --- the shapes a transfer can take, and accounts that are not what they should be
    let tail = |mut ix: Ix, bytes: usize, accts: usize| { ix.data.extend(vec![0xA5; bytes]); for _ in 0..accts { ix.metas.push(m(DEST2)); } ix };
    let mut forms: Vec<(String, Ix)> = vec![("get 1".into(), fromd(1)), ("to itself 2".into(), t1(1, 1, 2)), ("to itself 4".into(), t1(1, 1, 4)), ("between own accounts 2".into(), t1(1, 2, 2)), ("program sends 1".into(), script_tok(&wl, &TOKEN, &ta(1), &ta(3), 1)), ("other mint 1".into(), t22(5, 6, 1)), ("own accounts listed".into(), Ix { prog: R, metas: vec![mw(ta(1)), mw(ta(2)), mw(ta(5))], data: vec![7] })];
    for b in [0, 1, 8, 20] { for a in [0, 1, 3] { for n in [1u64, 2, 4] {
        forms.push((format!("send {n}, {b} bytes and {a} accounts more"), tail(t1(1, 3, n), b, a)));
        forms.push((format!("send {n} checked, {b} bytes and {a} accounts more"), tail(tok_checked(&TOKEN, &ta(1), &MINT, &ta(3), &wa, n), b, a)));
        forms.push((format!("send {n} of the other mint, {b} bytes and {a} accounts more"), tail(tok_checked(&TOKEN22, &ta(5), &MINT2, &ta(6), &wa, n), b, a)));
    } } }
    for i in 0..32 { forms.push((format!("byte {i} of the source off"), tok_transfer(&TOKEN, &near(&ta(1), i), &ta(3), &DEST, 1))); }
    let limits = [vec![a_tok_dest(&MINT, &ta(1), 3)], vec![a_tok_rec_dest(&MINT, &ta(1), 3, 5)], vec![a_tok_dest(&MINT, &ta(1), 3), a_tok_dest(&MINT, &ta(3), 3)], vec![a_tok(&MINT, 3), a_tok_dest(&MINT, &ta(1), 3), a_tok_rec_dest(&MINT, &ta(3), 3, 5)], vec![a_tok_dest(&MINT, &ta(3), 3)], vec![a_tok_rec_dest(&MINT2, &ta(6), 3, 5), a_tok_rec_dest(&MINT, &ta(3), 3, 5)], vec![a_tok(&MINT, 3), a_tok(&MINT2, 3)], vec![a_tok_rec(&MINT, 3, 5)], vec![]];
    let states: [(&str, Option<(u8, usize, u8)>); 7] = [("", None), ("frozen source", Some((1, 108, 2))), ("source never initialised", Some((1, 108, 0))), ("frozen second account", Some((2, 108, 2))), ("frozen destination", Some((3, 108, 2))), ("frozen other mint", Some((5, 108, 2))), ("state 3", Some((1, 108, 3)))];
    let mut shaped = vec![];
    for v in 0..limits.len() { for st_ in 0..states.len() { for x in 0..forms.len() {
        if st_ == 0 || x < 10 { shaped.push((v, st_, vec![x])); }
        for y in 0..10 { if st_ == 0 { shaped.push((v, st_, vec![x, y])); shaped.push((v, st_, vec![y, x])); } }
    } } }
    ck.each("token-transfer-forms", &shaped, |ck, (v, st_, q)| {
        let mut w = world(limits[*v].clone());
        for i in 0..32 { w.put(near(&ta(1), i), tok::acct(TOKEN, &tok::new(MINT, DEST, 9))); }
        if let Some((a, at, x)) = states[*st_].1 { w.edit(&ta(a), |t| t.data[at] = x); }
        let s = sa(&format!("{:?} {} {:?}", limits[*v], states[*st_].0, q.iter().map(|i| &forms[*i].0).collect::<Vec<_>>()), q.iter().map(|i| forms[*i].1.clone()).collect());
        report(ck, try_sign(Some(ck), &w, &wl, &s), &s.label);
    });
    // --- whoever owns, approves or may close the account that receives
    let other = Wl::new(201);
    let who: Vec<Key> = vec![PAYER, ed_key(LTD.n), ed_key(OWNER.n), wl.swig, wl.wallet, wl.sub1(1).0, wl.sub2(0).0, other.swig, other.wallet, SYSTEM, SWIG, MINT, ta(1), [0xff; 32]];
    let mut given = vec![];
    for i in 0..who.len() { for shape in 0..5u8 { for (x, v) in [vec![a_tok(&MINT, 3)], vec![a_tok_rec(&MINT, 3, 5)], vec![a_tok_dest(&MINT, &ta(40), 3)], vec![a_tok_rec_dest(&MINT, &ta(40), 3, 5)], vec![a_tok_dest(&MINT, &ta(3), 3)], vec![a_tok(&MINT, 9), a_tok_dest(&MINT, &ta(40), 3)], vec![a_tok(&MINT, 3), a_tok_dest(&MINT, &ta(3), 3)], vec![]].into_iter().enumerate() { for q in [vec![(1u64, 0u8)], vec![(3, 0)], vec![(4, 0)], vec![(2, 0), (2, 0)], vec![(2, 0), (2, 1)], vec![(3, 2)], vec![(4, 2), (1, 3)], vec![(4, 0), (4, 3)]] { given.push((i, shape, x, v.clone(), q)); } } } }
    ck.each("token-recipients", &given, |ck, (i, shape, _, v, q)| {
        let k = who[*i];
        let mut w = world(v.clone());
        other.install(&mut w, &[(OWNER, vec![a_all()])], rent(0) + 5);
        let mut t = tok::new(MINT, if *shape < 2 { k } else { DEST }, if *shape == 1 { 0 } else { 7 });
        match shape { 2 => { t.delegate = Some(k); t.delegated = 5; }, 3 => t.close = Some(k), 4 => { t.delegate = Some(wl.wallet); t.delegated = 6; }, _ => {} }
        w.put(ta(40), tok::acct(TOKEN, &t));
        let s = sa(&format!("{v:?} to an account of {} ({shape}): {q:?}", crate::model::short(&k)), q.iter().map(|(n, x)| match x { 0 => t1(1, 40, *n), 1 => t1(1, 3, *n), 2 => tok_checked(&TOKEN, &ta(1), &MINT, &ta(40), &wa, *n), _ => tok_transfer(&TOKEN, &ta(40), &ta(1), &wa, *n) }).collect());
        report(ck, try_sign(Some(ck), &w, &wl, &s), &s.label);
    });
    // --- many token accounts, mints and destinations in one transaction
    let mut many = vec![];
    for k in MANY { for kind in 0..7u8 { for rev in [false, true] { for over in [None, Some(0), Some(k / 2), Some(k - 1)] { many.push((k, kind, rev, over)); } } } }
    ck.each("token-many", &many, |ck, &(k, kind, rev, over)| {
        let key = |f: u8, i: usize| nk(f, i as u8 + 1);
        let n = |i: usize| 1 + i as u64 % 3;
        let total: u64 = (0..k).map(n).sum();
        let short = over.map_or(0, |_| 1);
        // many sources into one, one source into many, many of each
        let (src, dst) = (|i: usize| if matches!(kind, 2 | 3) { 0 } else { i }, |i: usize| if kind < 2 { 0 } else { i });
        let mint = |i: usize| if kind < 6 { MINT } else { key(0x6D, i) };
        let l = |i: usize| n(i) - if over == Some(i) { 1 } else { 0 };
        let mut v: Vec<Act> = match kind {
            0 | 4 => vec![a_tok(&MINT, total - short)],
            1 => vec![a_tok_rec(&MINT, total - short, win)],
            2 => (0..k).map(|i| a_tok_dest(&MINT, &key(0x6E, i), l(i))).collect(),
            3 => (0..k).map(|i| if i % 2 == 0 { a_tok_dest(&MINT, &key(0x6E, i), l(i)) } else { a_tok_rec_dest(&MINT, &key(0x6E, i), l(i), win) }).collect(),
            5 => (0..k).map(|i| a_tok_rec_dest(&MINT, &key(0x6E, i), l(i), win)).collect(),
            _ => (0..k).map(|i| if i % 2 == 0 { a_tok(&mint(i), l(i)) } else { a_tok_rec(&mint(i), l(i), win) }).collect(),
        };
        if rev { v.reverse(); }
        let mut w = tok_world(&wl, &[(OWNER, vec![a_all()]), (LTD, [vec![act(perm::PROG_ALL)], v].concat())]);
        for i in 0..k {
            if kind >= 6 { w.put(mint(i), tok::mint_acct(TOKEN, PAYER, 100)); }
            w.put(key(0x53, i), tok::acct(TOKEN, &tok::new(mint(i), wa, 90)));
            w.put(key(0x6E, i), tok::acct(TOKEN, &tok::new(mint(i), DEST, 0)));
        }
        let s = sa(&format!("{k} transfers, limits {kind}, reversed {rev}, over at {over:?}"), (0..k).map(|i| tok_transfer(&TOKEN, &key(0x53, src(i)), &key(0x6E, dst(i)), &wa, n(i))).collect());
        report(ck, try_sign(Some(ck), &w, &wl, &s), &s.label);
    });
    // --- accounts owned by a key that differs from the wallet's in one byte are not the wallet's
    let mut theirs = vec![];
    for i in 0..32 { for base_ in [wa, wl.swig] { for n in [1u64, 3, 9] { for sign in [true, false] { theirs.push((i, base_, n, sign)); } } } }
    ck.each("token-near-owners", &theirs, |ck, &(i, base_, n, sign)| {
        let o = near(&base_, i);
        let mut w = world(vec![a_tok(&MINT, 2)]);
        w.fund(o, rent(0) + PURSE);
        w.put(ta(11), tok::acct(TOKEN, &tok::new(MINT, o, 9)));
        let mut t = tok_transfer(&TOKEN, &ta(11), &ta(3), &o, n);
        if !sign { t.metas[2].signer = false; }
        let s = sa(&format!("owner's byte {i} off, {n}, signing {sign}"), vec![t, t1(1, 3, 2)]);
        report(ck, try_sign(Some(ck), &w, &wl, &s), &s.label);
    });
    ck.each("token-neighbours", &cases, |ck, (v, n)| {
        let w = world(v.clone());
        let s = sa(&format!("{v:?} send {n}"), vec![t1(1, 3, *n)]);
        report(ck, try_sign(Some(ck), &w, &wl, &s), &s.label);
    });
}

/// Every byte of the named accounts changed by the program owning them, alone
/// and beside a permitted movement.
pub fn byte_changes(ck: &Ck, name: &str, wl: &Wl, worlds: &[World], targets: &[(Key, usize)], also: &Ix) {
    let mut cases = vec![];
    for wi in 0..worlds.len() { for (k, n) in targets { for i in 0..*n { for x in [1u8, 0x80, 0xff] { cases.push((wi, *k, i, x)); } } } }
    ck.each(name, &cases, |ck, &(wi, k, i, x)| {
        let w = &worlds[wi];
        let ix = Ix { prog: w.owner(&k), metas: vec![mw(k), ms(wl.wallet)], data: script_data(&[Op::Write(0, i as u16, vec![w.data(&k)[i] ^ x])]) };
        for inner in [vec![ix.clone()], vec![also.clone(), ix.clone()], vec![ix, also.clone()]] {
            let s = sa(&format!("{name}: world {wi}, {} byte {i} ^ {x}, {} instructions", short(&k), inner.len()), inner);
            report(ck, try_sign(Some(ck), w, wl, &s), &s.label);
        }
    });
}

// ------------------------------------------------------------------ P08
pub fn st(n: u8) -> Key { nk(0x57, n) }
pub fn stake_acct(state: u32, withdrawer: &Key, delegated: u64, lamports: u64) -> Acct {
    let mut d = vec![0u8; 200];
    put32(&mut d, 0, state);
    for i in 4..200 { d[i] = (i * 7 % 251) as u8; }
    d[44..76].copy_from_slice(withdrawer);
    put64(&mut d, 156, delegated);
    Acct { lamports: rent(200) + lamports, owner: STAKE, exec: false, data: d }
}
/// the stake program doing `ops` to stake account `a` (0), counterparty (1); the wallet signs
fn stake_ix(wl: &Wl, a: &Key, to: &Key, ops: &[Op]) -> Ix {
    Ix { prog: STAKE, metas: vec![mw(*a), mw(*to), ms(wl.wallet)], data: script_data(ops) }
}
pub fn p08(ck: &Ck) {
    let wl = Wl::new(3);
    let win = 5;
    let world = |v: Vec<Act>| {
        let mut w = base();
        wl.install(&mut w, &[(OWNER, vec![a_all()]), (LTD, with_all(v)), (LTD2, with_all(vec![a_stake(2)]))], rent(0) + PURSE);
        w.put(st(1), stake_acct(2, &wl.wallet, 20, 20));
        w.put(st(2), stake_acct(1, &wl.wallet, 0, 10));
        w.put(st(3), stake_acct(2, &wl.swig, 10, 10));
        w.put(st(4), stake_acct(2, &DEST, 30, 30));
        w
    };
    let set = |v: u64| Op::Write(0, 156, v.to_le_bytes().to_vec());
    let mv = |n: u64| Op::Move(0, 1, n);
    let ix = |a: u8, ops: &[Op]| stake_ix(&wl, &st(a), &DEST, ops);
    let pool = [a_stake(6), a_stake_rec(4, win), act(perm::STAKE_ALL)];
    let mut acts = vec![
        sa("delegation 20->18", vec![ix(1, &[set(18)])]),
        sa("delegation ->22", vec![ix(1, &[set(22)])]),
        sa("delegation ->20", vec![ix(1, &[set(20)])]),
        sa("withdraw 2", vec![ix(1, &[mv(2)])]),
        sa("withdraw 3 and undelegate", vec![ix(1, &[mv(3), set(17)])]),
        sa("down and up", vec![ix(1, &[set(18)]), ix(1, &[set(20)])]),
        sa("withdraw 2 then pay back 2", vec![ix(1, &[mv(2)]), sys_transfer(&DEST, &st(1), 2)]),
        sa("delegate account 2 by 4", vec![ix(2, &[Op::Write(0, 0, vec![2, 0, 0, 0]), set(4)])]),
        sa("withdraw 1 from each", vec![ix(1, &[mv(1)]), ix(2, &[mv(1)]), ix(3, &[mv(1)])]),
        sa("foreign stake account", vec![ix(4, &[mv(9), set(1)])]),
        sa("deactivate only", vec![ix(1, &[Op::Write(0, 0, vec![1, 0, 0, 0]), Op::Write(0, 172, vec![1; 8])])]),
        sa("other role withdraws 1", vec![ix(1, &[mv(1)])]),
        sa("owner withdraws 1", vec![ix(1, &[mv(1)])]),
        tick(1), tick(win), tick(win + 1),
    ];
    acts[11].role = 2; acts[11].by = By::Main(LTD2);
    acts[12].role = 0; acts[12].by = By::Main(OWNER);
    let mut inits = vec![];
    for s in subsets(&pool) { inits.push(world(s.clone())); if s.len() > 1 { let mut s = s; s.reverse(); inits.push(world(s)); } }
    ck.bfs("stake-history", &SignM { wl, inits, acts: acts.clone() }, if ck.thorough { 7 } else { 6 });
    // everything one transaction can do with two stake accounts
    let two = |a: Vec<Op>| stake_ix(&wl, &st(1), &st(2), &a);
    let atoms = [("withdraw 1", ix(1, &[mv(1)])), ("withdraw 3", ix(1, &[mv(3)])), ("deposit 1", sys_transfer(&DEST, &st(1), 1)), ("deposit 4", sys_transfer(&DEST, &st(1), 4)),
        ("delegate 21", ix(1, &[set(21)])), ("delegate 18", ix(1, &[set(18)])), ("second account withdraws 2", ix(2, &[mv(2)])), ("move 2 to the second account", two(vec![mv(2)])), ("withdraw 2 and undelegate to 19", ix(1, &[mv(2), set(19)]))];
    let solo: Vec<World> = [vec![], vec![pool[0].clone()], vec![pool[1].clone()], vec![pool[2].clone()], vec![pool[0].clone(), pool[1].clone()]].into_iter().map(|v| world(v)).collect();
    inner_sequences(ck, "stake-one-transaction", &wl, &solo, &atoms, if ck.thorough { 6 } else { 5 });
    let mut cases: Vec<(Act, u64, u64, u8)> = vec![];
    for k in 0..3u8 { for n in [1, 2, 3, 7, 8] { for l in [0u64, 1, 2, 7, u64::MAX] { cases.push((a_stake(l), n, 1000, k)); }
        for lim in [0, 3, 7, u64::MAX] { for w in [1u64, 5, 100, u64::MAX] { for last in [0u64, 5, 95, 100] { for cur in [0, 2, lim.min(7), lim.saturating_add(3)] { for s in [0u64, 1, 5, 6, 10, 11, 100, 101, 105, 106, u64::MAX] {
            if last > s { continue; }
            let mut a = a_sol_rec_at(lim, w, last, cur); a.ty = perm::STAKE_REC;
            cases.push((a, n, s, k));
        } } } } }
    } }
    ck.each("stake-boundary", &cases, |ck, (a, n, slot, k)| {
        let mut w = world(vec![a.clone()]);
        w.slot = *slot;
        let ops = match k { 0 => vec![set(20 - n)], 1 => vec![set(20 + n)], _ => vec![mv(*n)] };
        let s = sa(&format!("{a:?} {ops:?} at {slot}"), vec![ix(1, &ops)]);
        report(ck, try_sign(Some(ck), &w, &wl, &s), &s.label);
    });
    ck.each("stake-magnitudes", &magnitudes(ck.thorough), |ck, &(n, lim, win, last, slot, k)| {
        let a = match k { 0 | 1 => a_stake(lim), _ => { let mut a = a_sol_rec_at(lim, win, last, lim / 2); a.ty = perm::STAKE_REC; a } };
        let mut w = world(vec![a.clone()]);
        w.put(st(1), stake_acct(2, &wl.wallet, u64::MAX - 5, u64::MAX - (1 << 34)));
        w.slot = slot;
        let ops = if k % 2 == 0 { vec![set(u64::MAX - 5 - n.min(u64::MAX - 5))] } else { vec![mv(n)] };
        let s = sa(&format!("{a:?} {ops:?} at {slot}"), vec![ix(1, &ops)]);
        report(ck, try_sign(Some(ck), &w, &wl, &s), &s.label);
    });
    // authorities that are almost the wallet, and accounts of a program that is almost the stake program
    let mut cases = vec![];
    for i in 0..32 { for v in [vec![], vec![a_stake(2)], vec![a_stake_rec(2, win)]] { for n in [1u64, 2, 3] { for k in 0..4u8 { cases.push((i, v.clone(), n, k)); } } } }
    ck.each("stake-near-keys", &cases, |ck, (i, v, n, k)| {
        let mut w = world(v.clone());
        w.put(st(5), stake_acct(2, &near(if k & 1 == 0 { &wl.wallet } else { &wl.swig }, *i), 20, 20));
        w.put(near(&st(1), *i), stake_acct(2, if k & 1 == 0 { &wl.wallet } else { &DEST }, 20, 20));
        let s = sa(&format!("{v:?} byte {i} account {k} {n}"), if *k < 2 { vec![ix(5, &[mv(*n)])] } else { vec![ix(1, &[mv(1)]), stake_ix(&wl, &near(&st(1), *i), &DEST, &[mv(*n)])] });
        report(ck, try_sign(Some(ck), &w, &wl, &s), &s.label);
    });
    byte_changes(ck, "stake-bytes", &wl, &solo, &[(st(1), 200), (st(2), 200)], &ix(1, &[mv(1)]));
    placements(ck, "stake-placement", &wl, &solo, &[acts[0].clone(), acts[4].clone(), acts[8].clone(), acts[9].clone()]);
    // many stake accounts: what all of them lose counts together
    let mut many = vec![];
    for k in MANY { for over in [false, true] { for rec in 0..3u8 { for how in 0..3u8 { for idle in [false, true] { many.push((k, over, rec, how, idle)); } } } } }
    ck.each("stake-many", &many, |ck, &(k, over, rec, how, idle)| {
        let key = |i: usize| nk(0x67, i as u8 + 1);
        let n = |i: usize| 1 + i as u64 % 3;
        // with `idle`, every other account is only listed
        let moves = |i: usize| !idle || i % 2 == 0;
        let total: u64 = (0..k).filter(|i| moves(*i)).map(n).sum();
        let l = total - over as u64;
        let mut w = world(match rec { 0 => vec![a_stake(l)], 1 => vec![a_stake_rec(l, win)], _ => vec![act(perm::STAKE_ALL)] });
        for i in 0..k { w.put(key(i), stake_acct(2, if i % 2 == 0 { &wl.wallet } else { &wl.swig }, 20, 20)); }
        let s = sa(&format!("{k} stake accounts, over {over}, {rec}, {how}, {idle}"), (0..k).map(|i| stake_ix(&wl, &key(i), &DEST, &if !moves(i) { vec![] } else if how == 0 || (how == 2 && i % 3 == 0) { vec![mv(n(i))] } else { vec![set(if i % 2 == 0 { 20 - n(i) } else { 20 + n(i) })] })).collect());
        report(ck, try_sign(Some(ck), &w, &wl, &s), &s.label);
    });
    // amounts across the whole range of the delegation field, states of the account
    let mut cases = vec![];
    for from in [0u64, 1, 255, 256, u64::MAX - 1, u64::MAX] { for to in [0u64, 1, 255, 256, u64::MAX - 1, u64::MAX] { for l in [0u64, 1, 254, 255, u64::MAX - 1, u64::MAX] { for state in [0u32, 1, 2, 3, 4, 256] { for who in [wl.wallet, wl.swig, DEST] { cases.push((from, to, l, state, who)); } } } } }
    ck.each("stake-range", &cases, |ck, (from, to, l, state, who)| {
        let mut w = world(vec![a_stake(*l)]);
        w.put(st(1), stake_acct(*state, who, *from, 20));
        let s = sa(&format!("stake {from}->{to} limit {l} state {state}"), vec![ix(1, &[set(*to)])]);
        report(ck, try_sign(Some(ck), &w, &wl, &s), &s.label);
    });
    for t in (1..=26u16).filter(|t| ![perm::ALL, perm::ALL_BUT, perm::SCOPE].contains(t)) {
        for p in &pool { for n in [1u64, 4, 5, 7] { for v in [vec![act(t), p.clone()], vec![p.clone(), act(t)]] {
            let w = world(v.clone());
            let s = sa(&format!("{v:?} withdraw {n}"), vec![ix(1, &[mv(n)])]);
            if t == perm::STAKE_REC { continue; }
            report(ck, try_sign(Some(ck), &w, &wl, &s), &s.label);
        } } }
    }
}

// ------------------------------------------------------------------ P09
pub fn sc(n: u8) -> Key { nk(0x5C, n) }
fn scoped_acct(n: usize) -> Acct { Acct { lamports: rent(n), owner: R, exec: false, data: (0..n).map(|i| (i * 3 % 7) as u8).collect() } }
fn scope(target: &Key, kind: u64, num: u64, start: u64, lim: u128, win: u64) -> Scope {
    let w = [1, 4, 8, 16][num as usize & 3];
    Scope { cur: 0, lim, win, last: 0, prog: R, target: *target, kind, num, start, end: start + w }
}
fn num_bytes(num: u64, v: u128) -> Vec<u8> { v.to_le_bytes()[..[1, 4, 8, 16][num as usize & 3]].to_vec() }
pub fn p09(ck: &Ck) {
    let wl = Wl::new(4);
    let win = 5;
    let ix = |t: &Key, ops: &[Op]| Ix { prog: R, metas: vec![mw(*t), ms(wl.wallet)], data: script_data(ops) };
    let world = |r1: Vec<Act>, r2: Vec<Act>| {
        let mut w = base();
        wl.install(&mut w, &[(OWNER, vec![a_all()]), (LTD, with_all(r1)), (LTD2, with_all(r2))], rent(0) + PURSE);
        for i in 1..=3 { w.put(sc(i), scoped_acct(64)); }
        w
    };
    // histories, for every kind and width of scope; the second role has a scope on the same account
    let mut inits = vec![];
    let mut acts_of = vec![];
    for kind in 0..3u64 { for num in 0..4u64 {
        let s = scope(&sc(1), kind, num, 16, 6, win);
        for r2 in [vec![], vec![a_scope(&Scope { lim: 2, ..s.clone() })], vec![a_scope(&scope(&sc(2), 1, 2, 8, 3, 0))]] {
            let mut w = world(vec![a_scope(&s)], r2);
            w.edit(&sc(1), |a| { let b = num_bytes(num, 20); a.data[16..16 + b.len()].copy_from_slice(&b); });
            inits.push(w);
            acts_of.push(num);
        }
    } }
    for num in 0..4u64 {
        let set = |v: u128| Op::Write(0, 16, num_bytes(num, v));
        let mut acts = vec![
            sa("to 18", vec![ix(&sc(1), &[set(18)])]),
            sa("to 20", vec![ix(&sc(1), &[set(20)])]),
            sa("to 14", vec![ix(&sc(1), &[set(14)])]),
            sa("to 17 and back", vec![ix(&sc(1), &[set(17)]), ix(&sc(1), &[set(20)])]),
            sa("touch another byte", vec![ix(&sc(1), &[Op::Write(0, 40, vec![9])])]),
            sa("down 1 with another account", vec![ix(&sc(1), &[set(19)]), ix(&sc(3), &[Op::Write(0, 0, vec![1])])]),
            sa("account of the other role", vec![ix(&sc(2), &[Op::Write(0, 8, vec![0; 8])])]),
            sa("other role to 19", vec![ix(&sc(1), &[set(19)])]),
            sa("owner to 20", vec![ix(&sc(1), &[set(20)])]),
            tick(1), tick(win), tick(win + 1),
        ];
        acts[7].role = 2; acts[7].by = By::Main(LTD2);
        acts[8].role = 0; acts[8].by = By::Main(OWNER);
        let i: Vec<World> = inits.iter().zip(&acts_of).filter(|x| *x.1 == num).map(|x| x.0.clone()).collect();
        ck.bfs(&format!("scope-history-{}", [8, 32, 64, 128][num as usize]), &SignM { wl, inits: i, acts }, if ck.thorough { 7 } else { 6 });
    }
    // everything one transaction can do with two scoped accounts
    let put = |t: u8, v: u64| ix(&sc(t), &[Op::Write(0, 16, v.to_le_bytes().to_vec())]);
    let atoms = [("to 18", put(1, 18)), ("to 20", put(1, 20)), ("to 23", put(1, 23)), ("to 15", put(1, 15)), ("second to 19", put(2, 19)), ("second to 22", put(2, 22)), ("other byte of the first", ix(&sc(1), &[Op::Write(0, 40, vec![9])])), ("that byte restored", ix(&sc(1), &[Op::Write(0, 40, vec![1])])),
        ("first grows", ix(&sc(1), &[Op::Resize(0, 72)])), ("first shrinks back", ix(&sc(1), &[Op::Resize(0, 64)]))];
    let mut solo = vec![];
    for (k1, k2) in [(0u64, 1u64), (1, 1), (1, 2), (2, 0), (2, 1), (3, 1)] {
        let mut w = world(vec![a_scope(&scope(&sc(1), k1, 2, 16, 6, win)), a_scope(&scope(&sc(2), k2, 2, 16, 4, win))], vec![a_scope(&scope(&sc(1), 1, 2, 8, 3, 0))]);
        for t in 1..=2 { w.edit(&sc(t), |a| { a.data[16..24].copy_from_slice(&20u64.to_le_bytes()); a.data[40] = 1; }); }
        solo.push(w);
    }
    inner_sequences(ck, "scope-one-transaction", &wl, &solo, &atoms, if ck.thorough { 6 } else { 5 });
    // every position and width, values at the edges of the type, limits around the change
    let mut cases = vec![];
    for num in 0..4u64 {
        let wd = [1u64, 4, 8, 16][num as usize];
        let max = if num == 3 { u128::MAX } else { (1u128 << (8 * wd)) - 1 };
        for start in [0u64, 1, 7, 8, 13, 16, 64 - wd, 65 - wd, 64] {
            for (from, to) in [(max, 0), (max, max - 1), (10, 3), (3, 10), (max / 2, max / 2 - 1), (256.min(max), 255.min(max)), (1, 0)] {
                for lim in [0u128, 1, 6, 7, max - 1, max, u128::MAX] { for kind in [0u64, 1, 2, 3] { cases.push((num, start, from, to, lim, kind)); } }
            }
        }
    }
    ck.each("scope-boundary", &cases, |ck, (num, start, from, to, lim, kind)| {
        let s = scope(&sc(1), *kind, *num, *start, *lim, win);
        let mut w = world(vec![a_scope(&s)], vec![]);
        let b = num_bytes(*num, *from);
        let st = *start as usize;
        if st + b.len() <= 64 { w.edit(&sc(1), |a| a.data[st..st + b.len()].copy_from_slice(&b)); }
        let l = if st + b.len() <= 64 { num_bytes(*num, *to) } else { vec![] };
        let x = sa(&format!("scope {s:?} {from}->{to}"), vec![ix(&sc(1), &[Op::Write(0, *start as u16, l)])]);
        report(ck, try_sign(Some(ck), &w, &wl, &x), &x.label);
    });
    // fields whose width does not fit their type, at every place
    let mut cases = vec![];
    for kind in 0..3u64 { for num in 0..5u64 { for start in [0u64, 8, 56, 60, 64, u64::MAX - 3] { for len in [0u64, 1, 2, 4, 8, 16, 32] { for change in [false, true] { cases.push((kind, num, start, start.wrapping_add(len), change)); } } } } }
    ck.each("scope-shape", &cases, |ck, (kind, num, start, end, change)| {
        let s = Scope { start: *start, end: *end, num: *num, ..scope(&sc(1), *kind, 0, 0, 3, win) };
        let w = world(vec![a_scope(&s)], vec![]);
        let b = if *change && *start < 64 { vec![w.data(&sc(1))[*start as usize] ^ 1] } else { vec![] };
        let x = sa(&format!("{s:?} {change}"), vec![ix(&sc(1), &[Op::Write(0, if *start < 64 { *start as u16 } else { 0 }, b)])]);
        // refusing an ill-formed scope is always admissible; accepting it must be justified
        match try_sign(Some(ck), &w, &wl, &x) { Err(b) if b.key == "refused" => {} r => { report(ck, r, &x.label); } }
    });
    // recurring state
    let mut cases = vec![];
    for w_ in [1u64, 5, 100, u64::MAX] { for last in [0u64, 5, 95, 100] { for cur in [0u128, 3, 7] { for lim in [3u128, 7] { for n in [1u128, 3, 4, 7, 8] { for slot in [0u64, 5, 6, 10, 11, 100, 101, 105, 106, u64::MAX] {
        if last <= slot { cases.push((w_, last, cur, lim, n, slot)); }
    } } } } } }
    ck.each("scope-recurring", &cases, |ck, (w_, last, cur, lim, n, slot)| {
        let mut s = scope(&sc(1), 2, 2, 8, *lim, *w_);
        s.last = *last;
        s.cur = *cur;
        let mut w = world(vec![a_scope(&s)], vec![]);
        w.slot = *slot;
        w.edit(&sc(1), |a| a.data[8..16].copy_from_slice(&50u64.to_le_bytes()));
        let x = sa(&format!("scope {s:?} -{n} at {slot}"), vec![ix(&sc(1), &[Op::Write(0, 8, (50 - *n as u64).to_le_bytes().to_vec())])]);
        report(ck, try_sign(Some(ck), &w, &wl, &x), &x.label);
    });
    ck.each("scope-magnitudes", &magnitudes(ck.thorough), |ck, &(n, lim, win, last, slot, k)| {
        let shift = if k == 3 { 64 } else { 0 };
        let (n, lim) = ((n as u128) << shift, (lim as u128) << shift);
        let mut s = scope(&sc(1), if k == 0 || k == 1 { 1 } else { 2 }, 2 + (k as u64 & 1), 8, lim, win);
        s.last = last;
        s.cur = lim / 2;
        let mut w = world(vec![a_scope(&s)], vec![]);
        w.slot = slot;
        let from = if s.num == 3 { u128::MAX } else { u64::MAX as u128 };
        w.edit(&sc(1), |a| { let b = num_bytes(s.num, from); a.data[8..8 + b.len()].copy_from_slice(&b); });
        let x = sa(&format!("scope {s:?} -{n} at {slot}"), vec![ix(&sc(1), &[Op::Write(0, 8, num_bytes(s.num, from - n))])]);
        report(ck, try_sign(Some(ck), &w, &wl, &x), &x.label);
    });
    let placed = [sa("both down 2", vec![put(1, 18), put(2, 18)]), sa("first down 7", vec![put(1, 13)]), sa("third account too", vec![put(1, 19), ix(&sc(3), &[Op::Write(0, 0, vec![1])])]), sa("another byte", vec![ix(&sc(1), &[Op::Write(0, 40, vec![9])])])];
    // accounts and programs that almost are the one a scope names
    let mut cases = vec![];
    for i in 0..32 { for kind in 0..3u64 { for both in 0..3u8 { for (t, d) in [(0u8, 1u64), (0, 4), (1, 1), (1, 4), (2, 1), (2, 4)] { cases.push((i, kind, both, t, d)); } } } }
    ck.each("scope-near-keys", &cases, |ck, &(i, kind, both, t, d)| {
        let n = near(&sc(1), i);
        let mut v = vec![];
        // a generous scope on the neighbour and/or a tight one on the account itself
        if both != 1 { v.push(a_scope(&scope(&n, kind, 2, 16, if both == 0 { 9 } else { 3 }, win))); }
        if both != 0 { v.push(a_scope(&scope(&sc(1), kind, 2, 16, if both == 1 { 9 } else { 6 }, win))); }
        let mut w = world(v, vec![]);
        w.put(n, scoped_acct(64));
        for k in [sc(1), n] { w.edit(&k, |a| a.data[16..24].copy_from_slice(&20u64.to_le_bytes())); }
        let to = |k: &Key| ix(k, &[Op::Write(0, 16, (20 - d).to_le_bytes().to_vec())]);
        let x = sa(&format!("byte {i} kind {kind} scopes {both} target {t} -{d}"), match t { 0 => vec![to(&sc(1))], 1 => vec![to(&n)], _ => vec![to(&n), to(&sc(1))] });
        report(ck, try_sign(Some(ck), &w, &wl, &x), &x.label);
    });
    // many scoped accounts in one transaction, each with its own scope
    let mut many = vec![];
    for k in MANY { for kind in 0..4u8 { for rev in [false, true] { for over in [None, Some(0), Some(k / 2), Some(k - 1)] { for bare in [None, Some(0), Some(k - 1)] { many.push((k, kind, rev, over, bare)); } } } } }
    ck.each("scope-many", &many, |ck, &(k, kind, rev, over, bare)| {
        let key = |i: usize| nk(0x63, i as u8 + 1);
        let n = |i: usize| 1 + i as u64 % 3;
        let num = |i: usize| if kind == 3 { i as u64 % 4 } else { 2 };
        let mut v: Vec<Act> = (0..k).filter(|i| bare != Some(*i)).map(|i| a_scope(&scope(&key(i), if kind == 3 { i as u64 % 3 } else { kind as u64 }, num(i), 16, (n(i) - if over == Some(i) { 1 } else { 0 }) as u128, win))).collect();
        if rev { v.reverse(); }
        let mut w = world(vec![], vec![]);
        wl.install(&mut w, &[(OWNER, vec![a_all()]), (LTD, [vec![act(perm::PROG_ALL)], v].concat())], rent(0) + PURSE);
        for i in 0..k { let mut a = scoped_acct(64); a.data[16..32].copy_from_slice(&20u128.to_le_bytes()); w.put(key(i), a); }
        let s = sa(&format!("{k} scopes, kinds {kind}, reversed {rev}, over at {over:?}, without scope {bare:?}"), (0..k).map(|i| ix(&key(i), &[Op::Write(0, 16, num_bytes(num(i), 20 - n(i) as u128))])).collect());
        report(ck, try_sign(Some(ck), &w, &wl, &s), &s.label);
    });
    byte_changes(ck, "scope-bytes", &wl, &solo, &[(sc(1), 64), (sc(2), 64), (sc(3), 64)], &put(1, 18));
    placements(ck, "scope-placement", &wl, &solo, &placed);
    // which scope counts: several roles and several scopes, differing in every attribute
    let variants: Vec<Scope> = vec![
        scope(&sc(1), 1, 2, 8, 5, 0), scope(&sc(1), 1, 2, 16, 3, 0), scope(&sc(1), 2, 1, 8, 4, win),
        scope(&sc(1), 0, 2, 8, 0, 0), scope(&sc(2), 1, 2, 8, 5, 0), scope(&sc(2), 1, 0, 30, 5, 0),
    ];
    let mut cases = vec![];
    for a in 0..variants.len() { for b in 0..variants.len() { for c in 0..=variants.len() { for first in [true, false] { for t in 1..=2u8 { for (off, d) in [(8u16, 3u64), (8, 5), (8, 6), (16, 3), (16, 4), (30, 1)] { cases.push((a, b, c, first, t, off, d)); } } } } } }
    ck.each("scope-choice", &cases, |ck, (a, b, c, first, t, off, d)| {
        let mut mine = vec![a_scope(&variants[*a])];
        if *c < variants.len() { mine.push(a_scope(&variants[*c])); }
        let other = vec![a_scope(&variants[*b])];
        let mut w = base();
        // the acting role comes after or before the other one
        let (x, y) = if *first { ((LTD, with_all(mine)), (LTD2, with_all(other))) } else { ((LTD2, with_all(other)), (LTD, with_all(mine))) };
        wl.install(&mut w, &[(OWNER, vec![a_all()]), x, y], rent(0) + PURSE);
        for i in 1..=2 { let mut ac = scoped_acct(64); ac.data[8..16].copy_from_slice(&90u64.to_le_bytes()); ac.data[16..24].copy_from_slice(&70u64.to_le_bytes()); ac.data[30] = 60; w.put(sc(i), ac); }
        let v = match off { 8 => (90 - d).to_le_bytes().to_vec(), 16 => (70 - d).to_le_bytes().to_vec(), _ => vec![60 - *d as u8] };
        let mut x = sa(&format!("mine {a},{c} other {b} first {first} account {t} at {off} -{d}"), vec![ix(&sc(*t), &[Op::Write(0, *off, v)])]);
        if !*first { x.role = 2; }
        report(ck, try_sign(Some(ck), &w, &wl, &x), &x.label);
    });
}

// ------------------------------------------------------------------ P10
/// Programs everybody knows that the published list does not name.
const KNOWN: [&str; 22] = ["ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL", "MemoSq4gqABAXKb96qnH8TysNcWxMyWCqXgDLGmfcHr", "Memo1UhkJRfHyvLMcVucJwxXeuD728EqVDDwQDxFMNo",
    "ComputeBudget111111111111111111111111111111", "Vote111111111111111111111111111111111111111", "Config1111111111111111111111111111111111111", "AddressLookupTab1e1111111111111111111111111",
    "BPFLoaderUpgradeab1e11111111111111111111111", "BPFLoader2111111111111111111111111111111111", "BPFLoader1111111111111111111111111111111111", "NativeLoader1111111111111111111111111111111",
    "Ed25519SigVerify111111111111111111111111111", "KeccakSecp256k11111111111111111111111111111", "Secp256r1SigVerify1111111111111111111111111", "StakeConfig11111111111111111111111111111111",
    "ZkTokenProof1111111111111111111111111111111", "ZkE1Gama1Proof11111111111111111111111111111", "metaqbxxUerdq28cj1RbAWkYQm3ybzjb6a8bt518x1s", "SPoo1Ku8WFXoNDMHPsrGSTSG1Y47rzgn41SLUNakuHy",
    "JUP6LkbZbjS1jKKwapdHNy74zcZ3tLUZoi5QNyVTaV4", "whirLbMiicVdio4qvUfM5KAg6Ct8VwpYzGff3uctyCc", "675kPX9MHTjS2zt1qfr1NYHuzeLXfQM9H24wFSUt1Mp8"];
pub fn p10(ck: &Ck) {
    let wl = Wl::new(5);
    let lots = || vec![a_sol(1 << 40), a_tok(&MINT, 1 << 40), act(perm::STAKE_ALL)];
    let world = |v: Vec<Act>| {
        let mut r1 = v;
        if r1.is_empty() { r1.push(a_sol(1)); }
        let mut w = tok_world(&wl, &[(OWNER, vec![a_all()]), (LTD, r1), (LTD2, vec![act(perm::PROG_ALL)])]);
        w.put(st(1), stake_acct(2, &wl.wallet, 20, 20));
        w.put(sc(1), scoped_acct(64));
        w
    };
    let noop = |p: &Key, ms: Vec<Meta>| Ix { prog: *p, metas: ms, data: vec![7, 7] };
    let wa = wl.wallet;
    let inner: Vec<(&str, Ix)> = vec![
        ("wallet pays", sys_transfer(&wa, &DEST, 1)),
        ("wallet sends tokens", tok_transfer(&TOKEN, &ta(1), &ta(3), &wa, 1)),
        ("token-2022 with wallet", noop(&TOKEN22, vec![mw(ta(6)), ms(wa)]).clone()),
        ("stake with wallet", noop(&STAKE, vec![mw(st(1)), ms(wa)])),
        ("R with wallet", noop(&R, vec![ms(wa)])),
        ("R with wallet last", noop(&R, vec![m(DEST), mw(sc(1)), m(wa)])),
        ("R with wallet twice", noop(&R, vec![m(wa), mw(wa)])),
        ("R without wallet", noop(&R, vec![m(DEST), mw(sc(1))])),
        ("R with config account", noop(&R, vec![mw(wl.swig)])),
        ("R2 with wallet", noop(&R2, vec![mw(wa)])),
        ("R2 with outer signer", noop(&R2, vec![ms(DEST)])),
        ("R2 with nothing", noop(&R2, vec![])),
        ("another pays", sys_transfer(&DEST, &wa, 1)),
        ("R writes its account", Ix { prog: R, metas: vec![mw(sc(1))], data: script_data(&[Op::Write(0, 3, vec![9])]) }),
    ];
    // 0xEE marker absent: the token program would reject opaque data, so give it a real instruction
    let inner: Vec<(&str, Ix)> = inner.into_iter().map(|(l, mut ix)| { if ix.prog == TOKEN22 { ix.data = vec![0xEE]; } if ix.prog == STAKE { ix.data = script_data(&[]); } (l, ix) }).collect();
    let pool = [act(perm::PROG_ALL), act(perm::CURATED), a_program(&R), a_program(&SYSTEM), a_program(&TOKEN), act(perm::ALL_BUT), a_all()];
    let mut cases: Vec<(Vec<Act>, Vec<usize>)> = vec![];
    let mut seqs: Vec<Vec<usize>> = (0..inner.len()).map(|i| vec![i]).collect();
    for i in 0..inner.len() { for j in 0..inner.len() { seqs.push(vec![i, j]); } }
    if ck.thorough { for i in 0..inner.len() { for j in 0..inner.len() { for k in 0..inner.len() { seqs.push(vec![i, j, k]); } } } }
    for s in subsets(&pool) { for q in &seqs { let mut v = s.clone(); v.extend(lots()); cases.push((v, q.clone())); } }
    // each permission type alone, and in front of / behind the one that grants
    for t in 1..=26u16 { for q in &seqs { cases.push((vec![act(t)], q.clone())); if q.len() == 1 {
        if t == perm::SCOPE || t == perm::SOL_REC || t == perm::SOL_REC_DEST || t == perm::TOK_REC { continue; }
        let mut v = vec![act(t), a_program(&R)]; v.extend(lots()); cases.push((v, q.clone()));
        let mut v = vec![a_program(&R2), a_program(&R), act(t)]; v.extend(lots()); cases.push((v, q.clone()));
    } } }
    // program ids that almost match
    for i in 0..32 { for p in [R, SYSTEM, TOKEN] { let mut k = p; k[i] ^= 0x80; for q in seqs.iter().filter(|q| q.len() == 1) { let mut v = vec![a_program(&k)]; v.extend(lots()); cases.push((v, q.clone())); } } }
    ck.each("program-gate", &cases, |ck, (v, q)| {
        if v.len() == 1 && [perm::SCOPE].contains(&v[0].ty) { return; }
        let w = world(v.clone());
        let label = format!("{v:?} {:?}", q.iter().map(|i| inner[*i].0).collect::<Vec<_>>());
        // zeroed renewing limits have a zero window: the model refuses, the code panics; both refuse
        let mut s = sa(&label, q.iter().map(|i| inner[*i].1.clone()).collect());
        report(ck, try_sign(Some(ck), &w, &wl, &s), &s.label);
        if q.len() > 2 { return; }
        s.label = format!("{label}, the wallet listed read-only");
        s.ro = vec![wl.wallet];
        report(ck, try_sign(Some(ck), &w, &wl, &s), &s.label);
        if q.len() > 1 { return; }
        s.ro = vec![];
        s.label = label;
        recasts(ck, &w, &wl, &s);
    });
    // called programs that are almost a permitted one, and well-known programs that are not on the published list
    let mut cases: Vec<(Key, Key)> = vec![];
    for p in [R, SYSTEM, TOKEN, TOKEN22, STAKE] { for i in 0..32 { for b in 0..if ck.thorough { 8 } else { 4 } { let mut k = p; k[i] ^= if ck.thorough { 1 << b } else { [1, 2, 0x10, 0x80][b] }; cases.push((p, k)); } } for i in 0..32 { let mut k = p; k.rotate_left(i); if k != p { cases.push((p, k)); } } }
    for k in KNOWN { cases.push((SYSTEM, b58(k))); }
    cases.push((R, DEST));
    for i in 0..32 { let mut k = [0; 32]; k[i] = 1; cases.push((SYSTEM, k)); }
    ck.each("near-programs", &cases, |ck, (p, k)| {
        for (x, v) in [vec![act(perm::CURATED)], vec![a_program(p)], vec![a_program(p), act(perm::CURATED), a_program(&R2)], vec![a_program(k)], vec![act(perm::PROG_ALL)], vec![]].into_iter().enumerate() {
            let mut v = v;
            v.extend(lots());
            let mut w = world(v);
            w.put(*k, Acct { lamports: 1_000_000_000, owner: BPF_LOADER, exec: true, data: vec![] });
            for metas in [vec![mw(wa)], vec![mw(sc(1)), m(wa)], vec![mw(sc(1))]] {
                for data in [vec![7, 7], script_data(&[])] {
                    let s = sa(&format!("program {} permission list {x} for {}", hx(k), hx(p)), vec![Ix { prog: *k, metas: metas.iter().map(|y| Meta { key: y.key, signer: y.signer, writable: y.writable }).collect(), data }]);
                    report(ck, try_sign(Some(ck), &w, &wl, &s), &s.label);
                }
            }
        }
    });
    // an instruction of every size: bytes, accounts, and where among them the wallet is
    let roles = [vec![a_program(&R)], vec![act(perm::CURATED)], vec![act(perm::CURATED), a_program(&R)], vec![act(perm::PROG_ALL)], vec![act(perm::ALL_BUT)], vec![a_all()], vec![]];
    let mut cases = vec![];
    let counts: Vec<usize> = if ck.thorough { (1..=120).collect() } else { (1..=12).chain([15, 16, 17, 31, 32, 33, 40, 62, 63, 64, 65, 66, 100, 120]).collect() };
    for v in 0..roles.len() { for p in 0..4u8 {
        for bytes in (0..=17usize).chain([31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 400]) { for n in [1usize, 2] { cases.push((v, p, bytes, n, n - 1)); } }
        for &n in &counts { for at in [0, 1, n / 2, n - 2, n - 1, usize::MAX] { if at == usize::MAX || at < n { cases.push((v, p, 2, n, at)); cases.push((v, p, 0, n, at)); } } }
    } }
    ck.each("instruction-shapes", &cases, |ck, &(v, p, bytes, n, at)| {
        let mut r = roles[v].clone();
        r.extend(lots());
        let mut w = world(r);
        let prog = [R, R2, STAKE, SYSTEM][p as usize];
        let mut metas: Vec<Meta> = (0..n).map(|i| if i == at { mw(wa) } else { m(nk(0x91, i as u8)) }).collect();
        for i in 0..n { w.fund(nk(0x91, i as u8), 1_000_000); }
        let mut data = vec![7; bytes];
        match prog {
            // System and Stake want something they know
            SYSTEM => { let t = sys_transfer(&wa, &DEST, 1); metas = [t.metas, metas].concat(); data = t.data; }
            STAKE => { data = script_data(&[]); }
            _ => {}
        }
        let s = sa(&format!("{:?} program {p}, {bytes} bytes, {n} accounts, wallet at {at}", roles[v]), vec![Ix { prog, metas, data }]);
        report(ck, try_sign(Some(ck), &w, &wl, &s), &s.label);
    });
    // the forbidden instruction anywhere among many, its accounts anywhere in the list
    let worlds: Vec<World> = [vec![a_program(&R)], vec![a_program(&R2), a_program(&R)], vec![act(perm::CURATED), a_program(&R)], vec![act(perm::PROG_ALL)], vec![act(perm::ALL_BUT)]].into_iter().map(|mut v| { v.extend(lots()); world(v) }).collect();
    let short_list = [4usize, 9, 0, 2, 11];
    let mut cases = vec![];
    for w in 0..worlds.len() { for n in (1..20usize).chain([31, 32, 33, 48, 60]) { for at in 0..n { for x in short_list { cases.push((w, n, at, x)); } } } }
    ck.each("forbidden-among-many", &cases, |ck, &(w, n, at, x)| {
        let s = sa(&format!("world {w}: {} as instruction {at} of {n}", inner[x].0), (0..n).map(|i| if i == at { inner[x].1.clone() } else { inner[4].1.clone() }).collect());
        report(ck, try_sign(Some(ck), &worlds[w], &wl, &s), &s.label);
    });
    let placed: Vec<SA> = [vec![4usize], vec![9], vec![0], vec![4, 9], vec![10, 4], vec![7, 9]].iter().map(|q| sa(&format!("{:?}", q.iter().map(|i| inner[*i].0).collect::<Vec<_>>()), q.iter().map(|i| inner[*i].1.clone()).collect())).collect();
    placements(ck, "program-placement", &wl, &worlds, &placed);
}

// ------------------------------------------------------------------ P11
pub fn p11(ck: &Ck) {
    let wl = Wl::new(6);
    let wa = wl.wallet;
    let scope8 = scope(&sc(1), 1, 2, 16, 1 << 60, 0);
    let rich = |extra: Vec<Act>| {
        let mut v = vec![act(perm::PROG_ALL), a_sol(1 << 50), a_tok(&MINT, 1 << 50), a_tok(&MINT2, 1 << 50), a_stake(1 << 50), a_scope(&scope8)];
        v.extend(extra);
        v
    };
    let world = |v: Vec<Act>| {
        let mut w = tok_world(&wl, &[(OWNER, vec![a_all()]), (LTD, v), (LTD2, vec![act(perm::PROG_ALL), a_scope(&scope(&sc(2), 1, 2, 0, 5, 0))])]);
        w.put(st(1), stake_acct(2, &wl.wallet, 20, 20));
        w.put(st(2), stake_acct(1, &wl.swig, 20, 20));
        w.put(sc(1), scoped_acct(64));
        w.put(sc(2), scoped_acct(64));
        w.fund(wl.wallet, rent(0) + 100_000_000);
        let mut n = tok::new(MINT, wl.wallet, 7);
        n.native = Some(rent(165));
        w.put(ta(9), tok::acct(TOKEN, &n));
        w
    };
    // --- every byte of every protected account, as changed by the program owning it
    let targets = [(ta(1), TOKEN, 165usize), (ta(5), TOKEN22, 170), (ta(7), TOKEN, 165), (ta(3), TOKEN, 165), (st(1), STAKE, 200), (st(2), STAKE, 200), (sc(1), R, 64), (sc(2), R, 64)];
    let mut cases: Vec<(Key, Key, Vec<Op>)> = vec![];
    for (k, p, n) in targets {
        for i in 0..n { for x in if ck.thorough { (0..8).map(|b| 1u8 << b).collect() } else { vec![1u8, 0x80] } { cases.push((k, p, vec![Op::Write(0, i as u16, vec![0xFF, x])])); } }
        for len in [0, 1, 64, 72, 100, 164, 165, 166, 200, 201, 250] { if p == STAKE && (124..200).contains(&len) { continue; } cases.push((k, p, vec![Op::Resize(0, len)])); }
        for o in [SYSTEM, R2, SWIG, DEST] { cases.push((k, p, vec![Op::Resize(0, 0), Op::Assign(0, o)])); cases.push((k, p, vec![Op::Resize(0, 0), Op::Resize(0, n as u16), Op::Assign(0, o)])); }
        for l in [1u64, 5, 1000] { cases.push((k, p, vec![Op::Move(0, 1, l)])); cases.push((k, p, vec![Op::Move(1, 0, l)])); }
        if p != R {
            let all = Op::Move(0, 1, rent(n));
            cases.push((k, p, vec![all.clone()]));
            cases.push((k, p, vec![all.clone(), Op::Resize(0, 0)]));
            for o in [SYSTEM, R2, SWIG, DEST] { cases.push((k, p, vec![all.clone(), Op::Resize(0, 0), Op::Assign(0, o)])); cases.push((k, p, vec![Op::Resize(0, 0), Op::Resize(0, n as u16), all.clone(), Op::Assign(0, o)])); }
        }
    }
    let cases: Vec<(Key, Key, Vec<Op>, bool)> = cases.into_iter().flat_map(|(k, p, o)| [false, true].map(|c| (k, p, o.clone(), c))).collect();
    ck.each("protected-bytes", &cases, |ck, (k, p, ops, closer)| {
        let w = world(rich(if *closer { vec![act(perm::CLOSE)] } else { vec![] }));
        // [0xFF, x]: xor of one byte
        let ops: Vec<Op> = ops.iter().map(|o| match o { Op::Write(a, off, v) if v.len() == 2 => Op::Write(*a, *off, vec![w.data(k)[*off as usize] ^ v[1]]), o => o.clone() }).collect();
        for wallet in [true, false] {
            let mut ms = vec![mw(*k), mw(if *p == R { sc(3) } else { ta(20) })];
            // counterparty owned by the same program
            let mut w = w.clone();
            w.put(ms[1].key, Acct { lamports: 1 << 40, owner: *p, exec: false, data: vec![0; 10] });
            if wallet { ms.push(self::ms_(wa)); }
            let ix = Ix { prog: *p, metas: ms, data: script_data(&ops) };
            let s = sa(&format!("{} {ops:?} wallet {wallet}", short(k)), vec![ix.clone()]);
            // an account gone at the end of the transaction may or may not count as properly closed
            let gone = |r: Result<Option<World>, Bad>| if *closer && matches!(&r, Err(b) if b.key == "refused") && ops.iter().any(|o| matches!(o, Op::Move(0, _, l) if *l > 1000)) { Ok(None) } else { r };
            report(ck, gone(try_sign(Some(ck), &w, &wl, &s)), &s.label);
            for v in 0..RECASTS { if let Some((x, role, by, what)) = recast(&w, &wl, v) {
                let t = SA { role, by, label: format!("{what}: {}", s.label), ..s.clone() };
                report(ck, gone(try_sign(Some(ck), &x, &wl, &t)), &t.label);
            } }
            // hidden among harmless instructions
            let s = sa(&format!("{} {ops:?} wallet {wallet} in a batch", short(k)), vec![sys_transfer(&wa, &DEST, 1), ix.clone(), sys_transfer(&wa, &DEST, 1)]);
            report(ck, gone(try_sign(Some(ck), &w, &wl, &s)), &s.label);
            let mut s = sa(&format!("owner: {} {ops:?}", short(k)), vec![ix]);
            s.role = 0; s.by = By::Main(OWNER);
            report(ck, try_sign(Some(ck), &w, &wl, &s), &s.label);
        }
    });
    // --- large protected accounts, every byte of them
    let big = |n: usize| {
        let mut w = world(rich(vec![act(perm::CLOSE)]));
        for k in [ta(1), ta(5), st(1), sc(1)] { w.edit(&k, |a| { let l = a.data.len(); a.data.extend((l..n).map(|i| (i % 251) as u8)); a.lamports += rent(n); }); }
        w
    };
    let bigs: Vec<(usize, World)> = [256usize, 500, if ck.thorough { 10_000 } else { 2_200 }].into_iter().map(|n| (n, big(n))).collect();
    let mut cases = vec![];
    for b in 0..bigs.len() { for k in [ta(1), ta(5), st(1), sc(1)] { for i in 0..bigs[b].0 { cases.push((b, k, i)); } } }
    ck.each("large-accounts", &cases, |ck, &(b, k, i)| {
        let w = &bigs[b].1;
        let s = sa(&format!("{} of {} bytes, byte {i}", short(&k), bigs[b].0), vec![Ix { prog: w.owner(&k), metas: vec![mw(k), ms_(wa)], data: script_data(&[Op::Write(0, i as u16, vec![w.data(&k)[i] ^ 1])]) }]);
        report(ck, try_sign(Some(ck), w, &wl, &s), &s.label);
    });
    // --- the watched field of a scoped account anywhere in it: everything around stays protected
    let mut cases = vec![];
    for num in 0..4u64 { let width = [1u64, 4, 8, 16][num as usize]; for start in (0..=20u64).chain([32, 47, 48, 49]) { for len in [start + width, start + width + 1, start + width + 2, start + width + 9] { for i in 0..len { cases.push((num, start, start + width, len, i)); } } } }
    ck.each("scope-surroundings", &cases, |ck, &(num, start, end, len, i)| {
        for role in 0..3u8 {
            let mut sc_ = scope(&sc(1), 1, num, start, 1 << 7, 0);
            sc_.end = end;
            if role == 1 { sc_.kind = 0; }
            let mut w = world(vec![act(perm::PROG_ALL), a_scope(&sc_)]);
            if role == 2 { w = { let mut w = tok_world(&wl, &[(OWNER, vec![a_all(), a_scope(&sc_)]), (LTD, vec![act(perm::PROG_ALL), a_sol(5)])]); w.put(sc(1), scoped_acct(64)); w }; }
            w.put(sc(1), scoped_acct(len as usize));
            let s = sa(&format!("scope kind {num} {start}..{end} of {len}, byte {i}, role {role}"), vec![Ix { prog: R, metas: vec![mw(sc(1))], data: script_data(&[Op::Write(0, i as u16, vec![w.data(&sc(1))[i as usize] ^ 1])]) }]);
            report(ck, try_sign(Some(ck), &w, &wl, &s), &s.label);
        }
    });
    // --- a protected account emptied, handed to another program and filled again as it was
    let mut cases = vec![];
    for (k, p, n) in targets { for to in [R2, R] { for keep in [n, n - 1, n + 1] { for back_ in [true, false] { for closer in [false, true] { if to != p { cases.push((k, p, n, to, keep, back_, closer)); } } } } } }
    ck.each("laundered", &cases, |ck, &(k, p, n, to, keep, refill, closer)| {
        let w = world(rich(if closer { vec![act(perm::CLOSE)] } else { vec![] }));
        if k == sc(1) || k == sc(2) { if p == to { return; } }
        let mut inner = vec![Ix { prog: p, metas: vec![mw(k)], data: script_data(&[Op::Resize(0, 0), Op::Resize(0, keep as u16), Op::Assign(0, to)]) }];
        if refill { inner.push(Ix { prog: to, metas: vec![mw(k)], data: script_data(&[Op::Write(0, 0, w.data(&k)[..n.min(keep)].to_vec())]) }); }
        let s = sa(&format!("{} to {} with {keep} bytes, refilled {refill}", short(&k), short(&to)), inner);
        report(ck, try_sign(Some(ck), &w, &wl, &s), &s.label);
    });
    // --- real instructions that would hand over protected accounts, in all short sequences
    let del = |n| Ix { prog: TOKEN, metas: vec![mw(ta(1)), mw(ta(4)), ms_(TDEL)], data: [&[3u8][..], &u64::to_le_bytes(n)].concat() };
    let assign = |k: &Key, o: &Key| Ix { prog: SYSTEM, metas: vec![msw(*k)], data: [&[1u8, 0, 0, 0][..], o].concat() };
    let alloc = |k: &Key, n: u64| Ix { prog: SYSTEM, metas: vec![msw(*k)], data: [&[8u8, 0, 0, 0][..], &n.to_le_bytes()].concat() };
    let alphabet: Vec<(&str, Ix)> = vec![
        ("approve", tok_approve(&TOKEN, &ta(1), &TDEL, &wa, 3)),
        ("revoke", Ix { prog: TOKEN, metas: vec![mw(ta(1)), ms_(wa)], data: vec![5] }),
        ("delegate takes 2", del(2)),
        ("delegate takes 3", del(3)),
        ("set owner", tok_set_auth(&TOKEN, &ta(1), &wa, 2, Some(DEST))),
        ("set owner back", tok_set_auth(&TOKEN, &ta(1), &DEST, 2, Some(wa))),
        ("set close authority", tok_set_auth(&TOKEN, &ta(1), &wa, 3, Some(DEST))),
        ("close empty", tok_close(&TOKEN, &ta(8), &DEST, &wa)),
        ("close native", tok_close(&TOKEN, &ta(9), &DEST, &wa)),
        ("close to wallet", tok_close(&TOKEN, &ta(8), &wa, &wa)),
        ("assign wallet", assign(&wa, &R)),
        ("assign wallet to swig", assign(&wa, &SWIG)),
        ("allocate wallet", alloc(&wa, 8)),
        ("allocate wallet 0", alloc(&wa, 0)),
        ("create at wallet", Ix { prog: SYSTEM, metas: vec![msw(PAYER), msw(wa)], data: [&[0u8, 0, 0, 0][..], &1u64.to_le_bytes(), &8u64.to_le_bytes(), &R].concat() }),
        ("withdrawer change", stake_ix(&wl, &st(1), &DEST, &[Op::Write(0, 44, DEST.to_vec())])),
        ("withdrawer back", stake_ix(&wl, &st(1), &DEST, &[Op::Write(0, 44, wa.to_vec())])),
        ("staker change", stake_ix(&wl, &st(1), &DEST, &[Op::Write(0, 12, DEST.to_vec())])),
        ("R takes wallet over and back", Ix { prog: R, metas: vec![msw(wa), m(SYSTEM)], data: script_data(&[Op::Call(1, vec![(0, true, true)], [&[1u8, 0, 0, 0][..], &R].concat()), Op::Assign(0, SYSTEM)]) }),
        ("pay", sys_transfer(&wa, &DEST, 2)),
        ("send", tok_transfer(&TOKEN, &ta(1), &ta(3), &wa, 2)),
        ("send from new owner", tok_transfer(&TOKEN, &ta(1), &ta(3), &DEST, 2)),
    ];
    let mut seqs: Vec<Vec<usize>> = vec![];
    let n = alphabet.len();
    for i in 0..n { seqs.push(vec![i]); for j in 0..n { seqs.push(vec![i, j]); for k in 0..n { seqs.push(vec![i, j, k]); if ck.thorough { for l in 0..n { seqs.push(vec![i, j, k, l]); } } } } }
    let mut cases = vec![];
    for q in &seqs { for r in 0..3u8 { if r == 2 && q.len() > 2 { continue; } cases.push((q.clone(), r)); } }
    ck.each("handover", &cases, |ck, (q, r)| {
        let w = world(match r { 0 => rich(vec![]), 1 => rich(vec![act(perm::CLOSE)]), _ => vec![act(perm::CURATED), a_sol(5), a_tok(&MINT, 4)] });
        let label = format!("{:?} role kind {r}", q.iter().map(|i| alphabet[*i].0).collect::<Vec<_>>());
        let s = sa(&label, q.iter().map(|i| alphabet[*i].1.clone()).collect());
        report(ck, try_sign(Some(ck), &w, &wl, &s), &s.label);
    });
    // --- the tampering anywhere among many instructions, the accounts anywhere in the list
    let worlds = [world(rich(vec![])), world(rich(vec![act(perm::CLOSE)]))];
    let pick: Vec<usize> = (0..n).filter(|i| ["approve", "set owner", "set close authority", "close native", "assign wallet", "withdrawer change", "R takes wallet over and back"].contains(&alphabet[*i].0)).collect();
    let mut placed: Vec<SA> = pick.iter().map(|i| sa(alphabet[*i].0, vec![alphabet[*i].1.clone()])).collect();
    placed.push(sa("pay, then approve", vec![sys_transfer(&wa, &DEST, 2), tok_approve(&TOKEN, &ta(1), &TDEL, &wa, 3)]));
    placed.push(sa("scoped account outside its field", vec![Ix { prog: R, metas: vec![mw(sc(1)), ms_(wa)], data: script_data(&[Op::Write(0, 40, vec![9])]) }]));
    placed.push(sa("scoped account of another role", vec![Ix { prog: R, metas: vec![mw(sc(2)), ms_(wa)], data: script_data(&[Op::Write(0, 40, vec![9])]) }]));
    placements(ck, "tampering-placement", &wl, &worlds, &placed);
    let mut cases = vec![];
    for len in (1..16usize).chain([31, 32, 33, 48]) { for at in 0..len { for a in &pick { for w in 0..2 { cases.push((len, at, *a, w)); } } } }
    ck.each("tampering-among-many", &cases, |ck, &(len, at, a, w)| {
        let s = sa(&format!("{} as instruction {at} of {len}", alphabet[a].0), (0..len).map(|i| if i == at { alphabet[a].1.clone() } else { sys_transfer(&wa, &DEST, 1 + i as u64) }).collect());
        report(ck, try_sign(Some(ck), &worlds[w], &wl, &s), &s.label);
    });
    // --- the configuration account, through the wallet program itself
    let w = world(rich(vec![act(perm::CLOSE)]));
    let c = Cred { t: ED, n: 9 };
    let nested: Vec<(&str, Vec<Ix>)> = vec![
        ("add", c_add_cred(&wl, 0, &c, &[a_all()]).go(&w, &wl, 0, &By::Main(OWNER))),
        ("remove", c_remove(&wl, 0, 2).go(&w, &wl, 0, &By::Main(OWNER))),
        ("update", c_update(&wl, 0, 1, &acts_bytes(&[a_all()]), 1).go(&w, &wl, 0, &By::Main(OWNER))),
        ("claimer", c_claimer(&wl, 0, &DEST).go(&w, &wl, 0, &By::Main(OWNER))),
        ("own claimer", c_claimer(&wl, 1, &DEST).go(&w, &wl, 1, &By::Main(LTD))),
        ("replace", c_replace(&wl, 0, 1, &ed_key(9)).go(&w, &wl, 0, &By::Main(OWNER))),
        ("migrate", c_migrate(&wl, 0, ed_key(1)).go(&w, &wl, 0, &By::Main(OWNER))),
        ("close", c_close_swig(&wl, 0, &DEST).go(&w, &wl, 0, &By::Main(OWNER))),
        ("self removal", c_remove(&wl, 1, 1).go(&w, &wl, 1, &By::Main(LTD))),
        ("nested sign", c_sign(&wl, 0, &[sys_transfer(&wa, &DEST, 50)]).go(&w, &wl, 0, &By::Main(OWNER))),
    ];
    ck.each("nested", &nested, |ck, (l, ixs)| {
        for (pre, post) in [(0, 0), (1, 0), (0, 1)] {
            let mut inner = vec![];
            for _ in 0..pre { inner.push(sys_transfer(&wa, &DEST, 1)); }
            inner.extend(ixs.iter().cloned());
            for _ in 0..post { inner.push(sys_transfer(&wa, &DEST, 1)); }
            // the limited role must not be able to change the configuration this way, even with the owner's signature at hand
            let tx = c_sign(&wl, 1, &inner).go(&w, &wl, 1, &By::Main(LTD));
            if let Ok(d) = ck.exec(&w, &tx) {
                let (a, b) = (wl.sw(&w), Sw::parse(d.world.data(&wl.swig)));
                let same = b.as_ref().is_ok_and(|b| a.roles.len() == b.roles.len() && a.roles.iter().zip(&b.roles).all(|(x, y)| x.auth == y.auth && x.id == y.id && x.acts.len() == y.acts.len() && x.acts.iter().zip(&y.acts).all(|(p, q)| p.ty == q.ty)) && a.claimer == b.claimer && a.subctr == b.subctr && a.counter == b.counter);
                if !same { ck.fail("nested-config-change", format!("nested {l}: configuration changed by a limited role: {b:?}"), vec![l.to_string()], Some((w.clone(), tx))); }
            }
        }
    });
}
fn ms_(k: Key) -> Meta { ms(k) }

// ------------------------------------------------------------------ P12
pub fn p12(ck: &Ck) {
    let wl = Wl::new(7);
    let wa = wl.wallet;
    let sub = wl.sub1(1).0;
    let mk = || {
        let mut w = base();
        let mut rec = act(perm::SUB);
        rec.data[..32].copy_from_slice(&sub);
        rec.data[32] = wl.sub1(1).1;
        rec.data[33] = 1;
        put32(&mut rec.data, 36, 1);
        rec.data[40..72].copy_from_slice(&wl.id);
        let mut s = wl.install(&mut w, &[(OWNER, vec![a_all()]), (LTD, vec![act(perm::PROG_ALL), a_sol(1 << 50), rec, a_v2(perm::V2_ALL, 0)])], rent(0) + PURSE);
        s.subctr = 1;
        wl.store(&mut w, &s);
        w.put(sub, Acct { lamports: rent(0) + PURSE, owner: SYSTEM, exec: false, data: vec![] });
        let (st, b) = wl.sub2_state(0);
        let _ = b;
        let (at, ab) = wl.sub2(0);
        w.put(at, Acct { lamports: rent(0) + PURSE, owner: SYSTEM, exec: false, data: vec![] });
        let _ = (st, ab);
        w
    };
    let w0 = mk();
    // create the V2 sub-account through the program, so that its record is genuine
    let w0 = {
        let mut w = base();
        let mut s = wl.sw(&w0);
        s.subctr = 0;
        s.role_mut(1).unwrap().acts.retain(|a| a.ty != perm::V2_ALL);
        s.role_mut(1).unwrap().acts.push(act(perm::V2_CREATE));
        s.role_mut(0).unwrap().acts.push(act(perm::V2_CREATE));
        wl.store(&mut w, &s);
        w.put(wa, Acct { lamports: rent(0) + PURSE, owner: SYSTEM, exec: false, data: vec![] });
        w.put(sub, Acct { lamports: rent(0) + PURSE, owner: SYSTEM, exec: false, data: vec![] });
        match exec(&w, &c_sub2_create(&wl, 0, 0).go(&w, &wl, 0, &By::Main(OWNER))) { Ok(d) => { let mut w = d.world; w.fund(wl.sub2(0).0, rent(0) + PURSE); w } Err(e) => { ck.fail("setup", format!("sub-account creation refused: {e:?}"), vec![], None); return; } }
    };
    let sub2 = wl.sub2(0).0;
    let kinds: [(&str, u32, Cred, Key); 4] = [("sign-all", 0, OWNER, wa), ("sign-limited", 1, LTD, wa), ("sub-account-v1", 1, LTD, sub), ("sub-account-v2", 0, OWNER, sub2)];
    let alpha = |me: Key| vec![ms(me), msw(me), ms(PAYER), m(DEST), mw(DEST2), m(wl.swig)];
    let mut lists: Vec<Vec<usize>> = vec![vec![]];
    let max = if ck.thorough { 5 } else { 4 };
    let mut last = lists.clone();
    for _ in 0..max { let mut nx = vec![]; for l in &last { for i in 0..6 { let mut l = l.clone(); l.push(i); nx.push(l); } } lists.extend(nx.iter().cloned()); last = nx; }
    type Case = (usize, Vec<(u8, Vec<usize>, usize)>);
    let mut cases: Vec<Case> = vec![];
    for k in 0..4 {
        for l in &lists { for d in [0usize, 1, 9] { cases.push((k, vec![(1, l.clone(), d)])); } }
        for l in lists.iter().filter(|l| l.len() <= 2) { for l2 in lists.iter().filter(|l| l.len() <= 2) { cases.push((k, vec![(1, l.clone(), 3), (2, l2.clone(), 5)])); } }
        for l in lists.iter().filter(|l| l.len() <= 1) { for l2 in lists.iter().filter(|l| l.len() <= 1) { for l3 in lists.iter().filter(|l| l.len() <= 1) { for l4 in lists.iter().filter(|l| l.len() <= 1) { cases.push((k, vec![(1, l.clone(), 3), (2, l2.clone(), 0), (1, l3.clone(), 2), (1, l4.clone(), 1)])); } } } }
        for d in [0usize, 1, 2, 4, 11, 12, 13, 254, 255, 256, 257, 511, 512, 1000, 4096, 65535 - 40, 65000] { cases.push((k, vec![(1, vec![0], d)])); cases.push((k, vec![(1, vec![], d), (2, vec![3, 4], d.min(30000) / 2)])); }
        for n in [0usize, 1, 2, 10, 33, 64, 127, 128, 129, 200, 253, 254] { cases.push((k, vec![(1, (0..n).map(|i| [0, 3, 4, 2, 5][i % 5]).collect(), 4)])); cases.push((k, vec![(1, vec![3], 4), (2, vec![4; n], 4)])); }
        for n in [0usize, 5, 20, 100, 255] { cases.push((k, (0..n).map(|i| (1 + (i % 2) as u8, vec![i % 6], i % 5)).collect())); }
    }
    let run_in = |ck: &Ck, label: &str, k: usize, inner: &[Ix], ro: bool, w0: &World, by: &By| {
        let (name, role, _, me) = &kinds[k];
        let mut c = match k { 0 | 1 => c_sign(&wl, *role, inner), 2 => c_sub1_sign(&wl, *role, &sub, inner), _ => c_sub2_sign(&wl, *role, 0, inner) };
        if ro { for x in &mut c.metas { if x.key == *me { x.writable = false; } } }
        if c.dp.len() > 65535 - 16 { return; }
        let tx = c.go(w0, &wl, *role, by);
        let metas = &tx.last().unwrap().metas;
        let want: Vec<CpiRec> = inner.iter().map(|ix| CpiRec { depth: 1, caller: SWIG, prog: ix.prog, data: ix.data.clone(), metas: ix.metas.iter().map(|x| Meta {
            key: x.key,
            signer: x.key == *me || metas.iter().any(|y| y.key == x.key && y.signer),
            writable: metas.iter().any(|y| y.key == x.key && y.writable) && !readonly_always(&x.key),
        }).collect() }).collect();
        match ck.exec(&w0, &tx) {
            Ok(d) => {
                let got: Vec<CpiRec> = d.cpis.into_iter().filter(|c| c.depth == 1).collect();
                if got != want { ck.fail("cpi-mismatch", format!("{name} {label}: executed {got:?}, requested {want:?}"), vec![], Some((w0.clone(), tx))); }
                let mut e = { let mut s = wl.sw(w0); authed(&mut s, *role, by, true); with_sw(w0.clone(), &wl, &s) };
                if let Some(x) = diff(&{ for ix in inner { if ix.prog == SYSTEM { let n = le64(&ix.data, 4); e.edit(&ix.metas[0].key, |a| a.lamports -= n); e.edit(&ix.metas[1].key, |a| a.lamports += n); } } if k == 1 { let spent: u64 = inner.iter().filter(|i| i.prog == SYSTEM && i.metas[0].key == wa).map(|i| le64(&i.data, 4)).sum(); if spent > 0 { let mut s = wl.sw(&e); run_sol(&mut s, 1, spent); e = with_sw(e, &wl, &s); } } e.clone() }, &d.world) { ck.fail("effect", format!("{name} {label}: {x}"), vec![], Some((w0.clone(), tx_dummy()))); }
            }
            Err(e) => ck.fail("refused", format!("{name} {label}: a plain list of inner instructions was refused: {e:?}"), vec![], Some((w0.clone(), tx))),
        }
    };
    let run = |ck: &Ck, label: &str, k: usize, inner: &[Ix], ro: bool| run_in(ck, label, k, inner, ro, &w0, &By::Main(kinds[k].2));
    // the same for every kind of credential
    let mut cred_cases = vec![];
    for t in AUTH_TYPES { if t != ED { for k in 0..4usize { for l in lists.iter().filter(|l| l.len() <= 3) { cred_cases.push((t, k, l.clone())); } } } }
    ck.each("credential-kinds", &cred_cases, |ck, (t, k, l)| {
        let (_, role, _, me) = &kinds[*k];
        let al = alpha(*me);
        let c = Cred { t: *t, n: 46 };
        let mut w = w0.clone();
        let mut s = wl.sw(&w);
        let r = s.role_mut(*role).unwrap();
        r.aty = c.t;
        r.auth = c.stored();
        crate::p_roles::open(r, c.n, w.slot);
        wl.store(&mut w, &s);
        let by = crate::p_roles::by_of(&c);
        let one = |p: u8, d: u8| Ix { prog: script_id(p), metas: l.iter().map(|i| al[*i].clone()).collect(), data: (0..d).map(|i| i * 37 % 0xEE).collect() };
        for inner in [vec![one(1, 9)], vec![one(2, 0), sys_transfer(me, &DEST, 3)]] { run_in(ck, &format!("credential kind {t}: {inner:?}"), *k, &inner, false, &w, &by); }
    });
    ck.each("inner-lists", &cases, |ck, (k, ixs)| {
        let me = kinds[*k].3;
        let al = alpha(me);
        let inner: Vec<Ix> = ixs.iter().enumerate().map(|(n, (p, l, d))| Ix { prog: script_id(*p), metas: l.iter().map(|i| al[*i].clone()).collect(), data: (0..*d).map(|i| ((i * 37 + n * 11) % 0xEE) as u8).collect() }).collect();
        run(ck, &format!("{ixs:?}"), *k, &inner, false);
        // the signing address listed read-only
        if ixs.len() == 1 { run(ck, &format!("{ixs:?}, the signing address read-only"), *k, &inner, true); }
    });
    // plain transfers by the signing address and by others, with all combinations of neighbours
    let mut cases = vec![];
    for k in 0..4 { for i in 0..4 { for j in 0..5 { for a in [0u64, 1, 7] { cases.push((k, i, j, a)); } } } }
    ck.each("inner-transfers", &cases, |ck, (k, i, j, a)| {
        let me = kinds[*k].3;
        let one = |i: usize, a: u64| match i { 0 => Some(sys_transfer(&me, &DEST, a)), 1 => Some(sys_transfer(&DEST, &me, a)), 2 => Some(sys_transfer(&DEST, &DEST2, a)), 3 => Some(sys_transfer(&me, &me, a)), _ => None };
        let inner: Vec<Ix> = [one(*i, *a), one(*j, 3)].into_iter().flatten().filter(|x| x.metas[0].key != x.metas[1].key).collect();
        run(ck, &format!("transfers {i},{j} of {a}"), *k, &inner, false);
    });
    // many outer accounts: every index reaches its own account
    let many: Vec<usize> = if ck.thorough { (1..=245).collect() } else { vec![1, 2, 60, 61, 62, 63, 64, 100, 127, 128, 129, 200, 240, 245] };
    let mut cases = vec![];
    for n in many { for k in 0..4usize { cases.push((n, k)); } }
    ck.each("many-accounts", &cases, |ck, (n, k)| {
        let keys: Vec<Meta> = (0..*n).map(|i| { let mut x = nk(0xB0, 1); x[2] = i as u8; x[3] = (i >> 8) as u8; Meta { key: x, signer: i % 3 == 0, writable: i % 2 == 0 } }).collect();
        let inner = vec![Ix { prog: R, metas: keys.iter().rev().cloned().collect(), data: vec![1, 2, 3] }, Ix { prog: R2, metas: vec![keys[*n / 2].clone()], data: vec![4] }];
        run(ck, &format!("{n} accounts"), *k, &inner, false);
    });
    // any byte string as the inner list: what a strict reader makes of it is executed, anything else is refused
    let payload_of = |k: usize, inner: &[Ix]| -> (Vec<Meta>, Vec<u8>) {
        let (_, role, _, me) = &kinds[k];
        let mut metas = match k { 0 | 1 => c_sign(&wl, *role, &[]), 2 => c_sub1_sign(&wl, *role, &sub, &[]), _ => c_sub2_sign(&wl, *role, 0, &[]) }.metas;
        let p = gather(&mut metas, inner, &[*me]);
        (metas, p)
    };
    let samples = |me: Key| -> Vec<Vec<Ix>> {
        let sc = |p: Key, ms: Vec<Meta>, n: usize| Ix { prog: p, metas: ms, data: (0..n).map(|i| i as u8 + 1).collect() };
        vec![
            vec![sys_transfer(&me, &DEST, 5)],
            vec![sc(R, vec![ms(me), m(DEST2)], 3), sys_transfer(&me, &DEST, 5)],
            vec![sc(R, vec![], 0), sc(R2, vec![msw(me)], 1), sc(R, vec![m(DEST), m(DEST2)], 2)],
            vec![sys_transfer(&me, &DEST, 5), sys_transfer(&me, &DEST2, 6), sc(R2, vec![mw(DEST)], 2)],
        ]
    };
    let mut cases: Vec<(usize, usize, usize, Vec<u8>)> = vec![];
    for k in 0..4 {
        for (i, inner) in samples(kinds[k].3).iter().enumerate() {
            let (_, p) = payload_of(k, inner);
            for n in 0..=p.len() { cases.push((k, i, 0, p[..n].to_vec())); }
            for extra in [&[0u8][..], &[1], &[0, 0], &[255; 3], &p] { cases.push((k, i, 1, [&p[..], extra].concat())); }
            for at in 0..p.len() {
                for v in 0..=255u8 { if v != p[at] { let mut q = p.clone(); q[at] = v; cases.push((k, i, 2, q)); } }
                // a byte dropped, doubled, or two neighbours exchanged
                let mut q = p.clone(); q.remove(at); cases.push((k, i, 3, q));
                let mut q = p.clone(); q.insert(at, p[at]); cases.push((k, i, 4, q));
                if at > 0 { let mut q = p.clone(); q.swap(at, at - 1); cases.push((k, i, 5, q)); }
            }
            // two bytes changed at once: counts and lengths against indexes
            let vals: &[u8] = if ck.thorough { &[0, 1, 2, 3, 4, 5, 6, 12, 254, 255] } else { &[0, 1, 4, 255] };
            for a in 0..p.len() { for b in a + 1..p.len() { for x in vals { for y in vals { let mut q = p.clone(); q[a] = *x; q[b] = *y; cases.push((k, i, 6, q)); } } } }
        }
    }
    ck.each("inner-bytes", &cases, |ck, (k, i, _, p)| {
        let (name, role, by, me) = &kinds[*k];
        let (metas, _) = payload_of(*k, &samples(*me)[*i]);
        let mut c = match k { 0 | 1 => c_sign_raw(metas.clone(), *role, p), 2 => c_sub1_sign(&wl, *role, &sub, &[]), _ => c_sub2_sign(&wl, *role, 0, &[]) };
        if *k > 1 {
            let h = c.head.len() - 1; // the empty list is one byte
            c.head.truncate(h);
            c.head[2..4].copy_from_slice(&(p.len() as u16).to_le_bytes());
            c.head.extend_from_slice(p);
            c.dp = c.head.clone();
            c.metas = metas.clone();
        }
        let tx = c.go(&w0, &wl, *role, &By::Main(*by));
        let metas = &tx.last().unwrap().metas;
        let want = uncompact(p, metas).and_then(|inner| {
            let inner: Vec<Ix> = inner.into_iter().map(|mut ix| { for x in ix.metas.iter_mut() { x.signer |= x.key == *me; } ix }).collect();
            if *k < 2 { let s = wl.sw(&w0); let (e, t) = expect_sign(&w0, &wl, &s, *role, &inner, metas).ok()?; Some(with_sw(e, &wl, &t)) }
            else if inner.is_empty() { Some(w0.clone()) }
            else { exec_steps(&w0, &inner).ok().map(|v| v.last().unwrap().clone()) }
        });
        match (want, ck.exec(&w0, &tx)) {
            (None, Err(_)) => {}
            (Some(e), Ok(d)) => if let Some(x) = diff(&e, &d.world) { ck.fail("bytes-effect", format!("{name} {p:?}: {x}"), vec![], Some((w0.clone(), tx))); },
            (None, Ok(_)) => ck.fail("bytes-accepted", format!("{name} {p:?}: a malformed list of inner instructions was accepted"), vec![], Some((w0.clone(), tx))),
            (Some(_), Err(e)) => ck.fail("bytes-refused", format!("{name} {p:?}: refused: {e:?}"), vec![], Some((w0.clone(), tx))),
        }
    });
}
/// Strict reader of the compact form; bytes after the announced instructions are ignored.
pub fn uncompact(p: &[u8], metas: &[Meta]) -> Option<Vec<Ix>> {
    let mut at = 1;
    let n = *p.first()? as usize;
    let mut take = |n: usize| -> Option<&[u8]> { let r = p.get(at..at + n)?; at += n; Some(r) };
    let mut v = vec![];
    for _ in 0..n {
        let prog = metas.get(take(1)?[0] as usize)?.key;
        let na = take(1)?[0] as usize;
        let idx = take(na)?.to_vec();
        let ms = idx.iter().map(|i| metas.get(*i as usize).cloned()).collect::<Option<Vec<Meta>>>()?;
        let dl = take(2)?;
        let dl = u16::from_le_bytes([dl[0], dl[1]]) as usize;
        v.push(Ix { prog, metas: ms, data: take(dl)?.to_vec() });
    }
    Some(v)
}
fn run_sol(s: &mut Sw, role: u32, n: u64) { let a = s.role_mut(role).unwrap().acts.iter_mut().find(|a| a.ty == perm::SOL).unwrap(); let v = le64(&a.data, 0); put64(&mut a.data, 0, v - n); }
fn tx_dummy() -> Vec<Ix> { vec![] }
