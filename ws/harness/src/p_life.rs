//! P17, P18, P21: creating, closing and migrating wallets.
use crate::mcx::*;
use crate::model::Rej;
use crate::p_auth::{crowd, every_op};
use crate::p_roles::{by_of, cr, open, sess, specimens, STO};
use crate::p_sign::{base, LTD, LTD2, MINT, OWNER, R};
use crate::progs::{script_data, tok};
use crate::spec::*;
use crate::sw::*;
use crate::vm::*;

/// What registering client data as a credential of kind `t` stores.
pub fn auth_stored(t: u16, d: &[u8]) -> Option<Vec<u8>> {
    let key33 = |k: &[u8]| { let mut v = k[..33].to_vec(); v.extend([0; 7]); v };
    let comp = |k: &[u8]| { let mut v = vec![2 + (k[63] & 1)]; v.extend(&k[..32]); v.extend([0; 7]); v };
    let tail = |mut v: Vec<u8>, o: usize| { v.extend(&d[o..o + 40]); v.extend([0; 8]); v };
    let prog = |d: &[u8]| d[32] <= 40 && d[..32] != SWIG;
    Some(match (t, d.len()) {
        (ED, 32) => d.to_vec(),
        (EDS, 72) => tail(d[..32].to_vec(), 32),
        (K1, 33) | (R1, 33) => key33(d),
        (K1, 64) => comp(d),
        (K1S, 104) => tail(if d[33..64] == [0; 31] { key33(d) } else { comp(d) }, 64),
        (R1S, 80) => tail(key33(d), 40),
        (PE, 80) if prog(d) => pe_state(&d[..32].try_into().unwrap(), &d[40..40 + d[32] as usize]),
        (PES, 128) if prog(d) => { let mut v = d[..33].to_vec(); v.extend([0; 7]); v.extend(&d[40..80]); tail(v, 80) }
        _ => return None,
    })
}
/// The outcome of a creation instruction, whatever its accounts and data.
pub fn expect_create(w: &World, ix: &Ix) -> Result<World, Rej> {
    let (d, ms) = (&ix.data, &ix.metas);
    if d.len() < 40 || ms.len() < 4 { return Err("too short"); }
    let (t, al) = (le16(d, 2), le16(d, 4) as usize);
    let wl = Wl::of(d[8..40].try_into().unwrap());
    if d.len() < 40 + al { return Err("too short"); }
    if ms[0].key != wl.swig || ms[2].key != wl.wallet || d[6] != wl.bump || d[7] != wl.wbump { return Err("not the derived addresses"); }
    if ms[3].key != SYSTEM { return Err("system program"); }
    if !ms[1].signer { return Err("payer does not sign"); }
    for i in 0..3 { if !ms[i].writable { return Err("not writable"); } }
    for k in [wl.swig, wl.wallet] { if w.owner(&k) != SYSTEM || !w.data(&k).is_empty() { return Err("created before"); } }
    let auth = auth_stored(t, &d[40..40 + al]).ok_or("credential")?;
    let acts = records(&d[40 + al..])?;
    if !valid_list(&acts, 0) { return Err("bad permission list"); }
    let r = Role { id: 0, aty: t, auth, acts };
    if !r.has(perm::ALL) && !r.has(perm::MANAGE) { return Err("first role cannot manage"); }
    let mut s = wl.blank();
    s.roles.push(r);
    s.counter = 1;
    let mut o = w.clone();
    let e = s.encode();
    let need = rent(e.len()).saturating_sub(w.lam(&wl.swig));
    let need_w = rent(0).saturating_sub(w.lam(&wl.wallet));
    let p = ms[1].key;
    if need + need_w > 0 && (w.owner(&p) != SYSTEM || !w.data(&p).is_empty()) { return Err("payer cannot pay"); }
    let l = w.lam(&p).checked_sub(need + need_w).ok_or("payer cannot pay")?;
    o.fund(p, l);
    o.put(wl.swig, Acct { lamports: w.lam(&wl.swig) + need, owner: SWIG, exec: false, data: e });
    o.fund(wl.wallet, w.lam(&wl.wallet) + need_w);
    settle(w, o, ms)
}
fn create(ck: Option<&Ck>, w: &World, ixs: &[Ix], l: &dyn Fn() -> String) -> Result<Option<World>, Bad> {
    verdict(ck, w, expect_create(w, ixs.last().unwrap()), ixs, "create", l)
}

// ------------------------------------------------------------------ P17
/// histories over two identifiers
#[derive(Clone)]
enum La { Create(usize, Vec<u8>, Vec<Act>, u16), Noncanon(usize, u8, u8), Op(usize, St), Fund(Key, u64) }
impl std::fmt::Debug for La {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            La::Create(i, _, a, t) => write!(f, "create #{i} kind {t} with {:?}", crate::p_roles::kinds(a)),
            La::Noncanon(i, b, c) => write!(f, "create #{i} with bumps {b} {c}"),
            La::Op(i, s) => write!(f, "#{i}: {s:?}"),
            La::Fund(k, n) => write!(f, "send {n} to {}", crate::model::short(k)),
        }
    }
}
struct LifeM { wls: Vec<Wl>, inits: Vec<World>, acts: Vec<La> }
impl Model for LifeM {
    type S = World;
    type A = La;
    fn init(&self) -> Vec<World> { self.inits.clone() }
    fn actions(&self, _: &World) -> Vec<La> { self.acts.clone() }
    fn step(&self, w: &World, a: &La) -> Result<Option<World>, Bad> {
        let r = match a {
            La::Create(i, auth, acts, t) => {
                let wl = &self.wls[*i];
                create(None, w, &[create_ix_raw(wl, *t, auth, &acts_bytes(acts), wl.bump, wl.wbump)], &|| format!("{a:?}"))
            }
            La::Noncanon(i, b, c) => match other_addresses(&self.wls[*i], *b, *c) { Some(ix) => create(None, w, &[ix], &|| format!("{a:?}")), None => Ok(None) },
            La::Op(i, s) => apply(None, w, &self.wls[*i], s),
            La::Fund(k, n) => { let mut o = w.clone(); o.fund(*k, w.lam(k) + n); Ok(Some(o)) }
        }?;
        if let Some(n) = &r {
            // one configuration account per identifier, ever; closed ones stay closed
            for (k, v) in &n.accts {
                if v.owner == SWIG && v.data.first() == Some(&1) && !self.wls.iter().any(|x| x.swig == *k) { return bad("second-wallet", format!("{a:?}: a configuration account at {}", crate::model::short(k)), w, &[]); }
            }
            for wl in &self.wls {
                if w.data(&wl.swig) == [255] && (n.data(&wl.swig) != [255] || n.owner(&wl.swig) != SWIG) { return bad("revived", format!("{a:?}: a closed wallet changed"), w, &[]); }
                let id = |w: &World| Sw::parse(w.data(&wl.swig)).ok().map(|s| s.id);
                if let (Some(x), y) = (id(w), id(n)) { if y != Some(x) && n.data(&wl.swig) != [255] { return bad("identifier", format!("{a:?}: identifier changed"), w, &[]); } }
            }
        }
        Ok(r)
    }
}
/// the creation with the addresses other bumps derive
fn other_addresses(wl: &Wl, b: u8, c: u8) -> Option<Ix> {
    let s = create_pda(&[b"swig", &wl.id, &[b]], &SWIG)?;
    let v = create_pda(&[b"swig-wallet-address", &s, &[c]], &SWIG)?;
    let mut ix = create_ix_raw(wl, ED, &ed_key(3), &acts_bytes(&[a_all()]), b, c);
    ix.metas[0].key = s;
    ix.metas[2].key = v;
    Some(ix)
}
pub fn p17(ck: &Ck) {
    let wl = Wl::new(51);
    let w = base();
    let l0 = |ix: &Ix| format!("creation {}", hx(&ix.data[..ix.data.len().min(120)]));
    // every credential kind with every permission list
    let mut sp = specimens();
    sp.extend([crate::p_roles::used_sol_rec(), sub1_rec(&wl, 0, true), a_v2(perm::V2_ALL, 3), a_replace(1), a_sol_dest(&DEST, 3)]);
    let mut lists: Vec<Vec<Act>> = vec![vec![]];
    for a in &sp { lists.push(vec![a.clone()]); for b in &sp { lists.push(vec![a.clone(), b.clone()]); } }
    let few: Vec<Act> = sp.iter().filter(|a| ck.thorough || [perm::ALL, perm::MANAGE, perm::SOL, perm::SCOPE, perm::CLOSE, perm::TOK_REC_DEST, perm::V2_CREATE].contains(&a.ty)).cloned().collect();
    for a in &few { for b in &few { for c in &few { lists.push(vec![a.clone(), b.clone(), c.clone()]); } } }
    for n in [2usize, 5, 20, 60, 254, 255, 256] { let mut v = vec![act(perm::CLOSE); n - 1]; v.push(a_all()); lists.push(v); }
    // every combination of field values in a record of a first role's list
    let mut records = vec![];
    for ty in 0..=27u16 { let n = perm::len(ty).unwrap_or(8); let v: Vec<Vec<u8>> = if n == 0 { vec![vec![]] } else { crate::p_lib::layouts(ty, n) }; let step = if ck.thorough { 1 } else { 1 + v.len() / 3000 }; for data in v.into_iter().step_by(step) { records.push(Act { ty, data }); } }
    ck.each("record-contents", &records, |ck, a| {
        let ix = create_ix(&wl, &cr(ED, 5), &[a_all(), a.clone()]);
        note(ck, create(Some(ck), &w, &[ix.clone()], &|| l0(&ix)), &|| l0(&ix));
    });
    // two rights on numbered sub-accounts at any two places of a first role's list
    let numbered: Vec<Vec<Act>> = crate::p_roles::numbered_lists(ck.thorough).into_iter().map(|mut l| { if l.len() < 255 { l.push(a_all()); } else { l[50] = a_all(); } l }).collect();
    ck.each("numbered-lists", &numbered, |ck, l| {
        let ix = create_ix(&wl, &cr(AUTH_TYPES[l.len() % 8], 5), l);
        note(ck, create(Some(ck), &w, &[ix.clone()], &|| format!("{} rights: {}", l.len(), l0(&ix))), &|| format!("{} rights: {}", l.len(), l0(&ix)));
    });
    let mut cases = vec![];
    for t in AUTH_TYPES { for (i, l) in lists.iter().enumerate() { if l.len() < 3 || t == ED || t == R1S || ck.thorough && i % 8 == t as usize % 8 { cases.push((t, i)); } } }
    ck.each("credentials-and-lists", &cases, |ck, &(t, i)| {
        let ix = create_ix(&wl, &cr(t, 5), &lists[i]);
        let Some(n) = note(ck, create(Some(ck), &w, &[ix.clone()], &|| l0(&ix)), &|| l0(&ix)) else { return };
        // again: refused
        note(ck, create(Some(ck), &n, &[ix.clone()], &|| l0(&ix)), &|| l0(&ix));
        note(ck, create(Some(ck), &n, &[create_ix(&wl, &cr(ED, 9), &[a_all()])], &|| l0(&ix)), &|| l0(&ix));
        // the first role is in charge
        let r = cr(t, 5);
        let (by, n) = if is_session(t) {
            match note(ck, apply(Some(ck), &n, &wl, &st(0, By::Main(r), Do::Session(9, sess_key(5)))), &|| l0(&ix)) { Some(n) => (sess(5), n), None => return }
        } else { (By::Main(r), n) };
        note(ck, apply(Some(ck), &n, &wl, &st(0, by, Do::Add(cr(R1, 7), vec![a_sol(1)]))), &|| l0(&ix));
        note(ck, apply(Some(ck), &n, &wl, &st(0, by, Do::Remove(0))), &|| l0(&ix));
    });
    // credential data of every length and kind
    let mut cases = vec![];
    for t in (0..=12u16).chain([255, 256, 0x0101, 0x0107, u16::MAX]) { for n in 0..=160usize { cases.push((t, n)); } }
    ck.each("credential-data", &cases, |ck, &(t, n)| {
        for f in 0..5 {
            let mut d: Vec<u8> = match f { 0 => vec![0; n], 1 => vec![7; n], 2 => (0..n).map(|i| i as u8 ^ 2).collect(), 3 => cr(t, 5).create(), _ => cr(t, 5).stored() };
            d.resize(n, 0);
            let ix = create_ix_raw(&wl, t, &d, &acts_bytes(&[a_all()]), wl.bump, wl.wbump);
            note(ck, create(Some(ck), &w, &[ix.clone()], &|| l0(&ix)), &|| l0(&ix));
        }
    });
    let mut cases = vec![];
    for t in AUTH_TYPES { for i in 0..cr(t, 5).create().len() { for x in [1u8, 0x28, 0x80, 0xff] { cases.push((t, i, x)); } } }
    for t in [PE, PES] { for x in 0..=255u8 { cases.push((t, 32, x)); } }
    ck.each("credential-bytes", &cases, |ck, &(t, i, x)| {
        for (n, comp) in [(5u8, false), (5, true), (44, false)] {
            let mut d = cr(t, n).create();
            if comp { match t { K1 => d = k1_comp(n).to_vec(), K1S => { let mut k = k1_comp(n).to_vec(); k.resize(64, 0); d[..64].copy_from_slice(&k); } _ => continue } }
            if i >= d.len() { continue; }
            d[i] ^= x;
            let ix = create_ix_raw(&wl, t, &d, &acts_bytes(&[a_all()]), wl.bump, wl.wbump);
            note(ck, create(Some(ck), &w, &[ix.clone()], &|| l0(&ix)), &|| l0(&ix));
        }
    });
    // the swig program itself as a credential
    for t in [PE, PES] { let mut d = cr(t, 5).create(); d[..32].copy_from_slice(&SWIG); let ix = create_ix_raw(&wl, t, &d, &acts_bytes(&[a_all()]), wl.bump, wl.wbump); note(ck, create(Some(ck), &w, &[ix.clone()], &|| l0(&ix)), &|| l0(&ix)); }
    // identifiers and their addresses
    let ids: Vec<Key> = (0..if ck.thorough { 200u8 } else { 60 }).map(|i| sha256(&[b"id", &[i]])).chain([[0; 32], [255; 32], SWIG, SYSTEM, PAYER, wl.swig, wl.wallet, nk(0, 0)]).collect();
    ck.each("identifiers", &ids, |ck, id| {
        let a = Wl::of(*id);
        for t in [ED, K1S, PES] {
            let ix = create_ix(&a, &cr(t, 5), &[a_all(), a_sol(4)]);
            note(ck, create(Some(ck), &w, &[ix.clone()], &|| l0(&ix)), &|| l0(&ix));
        }
        for b in 0..=255u8 {
            // the announced bumps
            for (x, y) in [(b, a.wbump), (a.bump, b)] { let ix = create_ix_raw(&a, ED, &ed_key(3), &acts_bytes(&[a_all()]), x, y); note(ck, create(Some(ck), &w, &[ix.clone()], &|| l0(&ix)), &|| l0(&ix)); }
        }
        for b in (0..=255u8).rev().take(if ck.thorough { 256 } else { 12 }) {
            for c in [a.wbump, 255, 254, 253] { if let Some(ix) = other_addresses(&a, b, c) { note(ck, create(Some(ck), &w, &[ix.clone()], &|| l0(&ix)), &|| l0(&ix)); } }
            // the right configuration address with a lamport address of another bump, and the reverse
            let Some(v) = create_pda(&[b"swig-wallet-address", &a.swig, &[b]], &SWIG) else { continue };
            let mut ix = create_ix_raw(&a, ED, &ed_key(3), &acts_bytes(&[a_all()]), a.bump, b);
            ix.metas[2].key = v;
            note(ck, create(Some(ck), &w, &[ix.clone()], &|| l0(&ix)), &|| l0(&ix));
            let Some(v) = create_pda(&[b"swig", &a.id, &[b]], &SWIG) else { continue };
            ix = create_ix_raw(&a, ED, &ed_key(3), &acts_bytes(&[a_all()]), b, a.wbump);
            ix.metas[0].key = v;
            note(ck, create(Some(ck), &w, &[ix.clone()], &|| l0(&ix)), &|| l0(&ix));
        }
    });
    // what is at the two addresses beforehand
    let live = { let mut x = base(); wl.install(&mut x, &[(OWNER, vec![a_all()])], rent(0)); x.get(&wl.swig).unwrap().clone() };
    let pre: Vec<Option<Acct>> = vec![
        None,
        Some(Acct { lamports: 1, owner: SYSTEM, exec: false, data: vec![] }),
        Some(Acct { lamports: rent(0), owner: SYSTEM, exec: false, data: vec![] }),
        Some(Acct { lamports: rent(0) - 1, owner: SYSTEM, exec: false, data: vec![] }),
        Some(Acct { lamports: rent(104), owner: SYSTEM, exec: false, data: vec![] }),
        Some(Acct { lamports: rent(104) + 7, owner: SYSTEM, exec: false, data: vec![] }),
        Some(Acct { lamports: 10_000_000_000, owner: SYSTEM, exec: false, data: vec![] }),
        Some(Acct { lamports: rent(1), owner: SYSTEM, exec: false, data: vec![0] }),
        Some(Acct { lamports: rent(104), owner: SYSTEM, exec: false, data: vec![0; 104] }),
        Some(Acct { lamports: rent(1), owner: SWIG, exec: false, data: vec![255] }),
        Some(Acct { lamports: rent(0), owner: SWIG, exec: false, data: vec![] }),
        Some(Acct { lamports: rent(48), owner: SWIG, exec: false, data: vec![0; 48] }),
        Some(live),
        Some(Acct { lamports: rent(72), owner: SWIG, exec: false, data: sub2_data(&wl, 0, true) }),
        Some(tok::acct(TOKEN, &tok::new(MINT, PAYER, 0))),
        Some(Acct { lamports: rent(0), owner: R, exec: false, data: vec![] }),
        Some(Acct { lamports: rent(4), owner: R, exec: false, data: vec![1, 2, 3, 4] }),
    ];
    let mut cases = vec![];
    for i in 0..pre.len() { for j in 0..pre.len() { for t in AUTH_TYPES { cases.push((i, j, t)); } } }
    ck.each("occupied-addresses", &cases, |ck, &(i, j, t)| {
        let mut w = w.clone();
        if let Some(a) = &pre[i] { w.put(wl.swig, a.clone()); }
        if let Some(a) = &pre[j] { w.put(wl.wallet, a.clone()); }
        for acts in [vec![a_all()], vec![act(perm::MANAGE), crate::p_roles::scope(), a_sol(3)]] {
            let ix = create_ix(&wl, &cr(t, 5), &acts);
            let l = || format!("config address state {i}, lamport address state {j}, kind {t}");
            note(ck, create(Some(ck), &w, &[ix], &l), &l);
        }
    });
    // who pays, and with how much
    let mut cases = vec![];
    let full = rent(wl.blank().encode().len() + 16 + 32 + 8) + rent(0);
    for l in [0u64, 1, full - 1, full, full + 1, full + rent(0) - 1, full + rent(0), full + rent(0) + 1] { for k in [PAYER, DEST, nk(0xA1, 7)] { for signer in [false, true] { for wr in [false, true] { cases.push((l, k, signer, wr)); } } } }
    ck.each("payer", &cases, |ck, &(n, k, signer, wr)| {
        let mut w = w.clone();
        w.fund(k, n);
        let mut ix = create_ix(&wl, &cr(ED, 5), &[a_all()]);
        ix.metas[1] = Meta { key: k, signer, writable: wr };
        let l = || format!("payer with {n}, signer {signer}, writable {wr}");
        note(ck, create(Some(ck), &w, &[ix], &l), &l);
    });
    // histories
    let wls = vec![Wl::new(51), Wl::new(52)];
    let b0 = By::Main(cr(ED, 3));
    let mut acts = vec![];
    for i in 0..2 {
        let wl = &wls[i];
        acts.push(La::Create(i, ed_key(3).to_vec(), vec![a_all()], ED));
        acts.push(La::Create(i, k1_full(4).to_vec(), vec![act(perm::MANAGE), a_sol(3)], K1));
        acts.push(La::Create(i, ed_key(9).to_vec(), vec![a_sol(3)], ED));
        let b = (0..wl.bump).rev().find(|b| create_pda(&[b"swig", &wl.id, &[*b]], &SWIG).is_some()).unwrap();
        let s = create_pda(&[b"swig", &wl.id, &[b]], &SWIG).unwrap();
        let c = find_pda(&[b"swig-wallet-address", &s], &SWIG).unwrap().1;
        acts.push(La::Noncanon(i, b, c));
        acts.push(La::Fund(wl.swig, 5000));
        if i == 0 { acts.push(La::Fund(wl.wallet, rent(0))); acts.push(La::Fund(s, rent(200))); }
        for (r, b) in [(0, b0), (0, By::Main(cr(K1, 4))), (1, By::Main(cr(ED, 6)))] {
            acts.push(La::Op(i, st(r, b, Do::CloseSwig(DEST))));
            acts.push(La::Op(i, st(r, b, Do::Transfer(vec![]))));
            if r == 0 { acts.push(La::Op(i, st(r, b, Do::Add(cr(ED, 6), vec![act(perm::CLOSE)])))); acts.push(La::Op(i, st(r, b, Do::Remove(0)))); }
            if i == 0 { acts.push(La::Op(i, st(r, b, Do::Sign(vec![sys_transfer(&wl.wallet, &DEST, rent(0))])))); acts.push(La::Op(i, st(r, b, Do::Migrate))); acts.push(La::Op(i, st(r, b, Do::S2Create))); }
        }
    }
    ck.bfs("lifecycle", &LifeM { wls, inits: vec![base()], acts }, if ck.thorough { 8 } else { 6 });
}

// ------------------------------------------------------------------ P18
/// closing permissions under test
fn close_lists() -> Vec<Vec<Act>> {
    let mut v: Vec<Vec<Act>> = specimens().into_iter().map(|a| vec![a]).collect();
    v.extend([vec![a_sol(1), act(perm::CLOSE)], vec![crate::p_roles::scope(), act(perm::MANAGE)], vec![a_sol(1), a_tok(&MINT, 3)], vec![act(perm::CLOSE), a_all()]]);
    v
}
pub fn p18(ck: &Ck) {
    let wl = Wl::new(53);
    let b1 = |c: &Cred| by_of(c);
    let world = |c: &Cred, acts: &[Act], claimer: Option<Key>, legacy: Option<u64>| {
        let mut w = base();
        let mut s = wl.install(&mut w, &[(OWNER, vec![a_all()]), (*c, acts.to_vec()), (LTD2, vec![a_sol(5)])], rent(0));
        let slot = w.slot;
        open(&mut s.roles[1], c.n, slot);
        s.claimer = claimer;
        if let Some(r) = legacy { wl.legacy(&mut s, r); w.accts.remove(&wl.wallet); }
        wl.store(&mut w, &s);
        w.put(MINT, tok::mint_acct(TOKEN, PAYER, 100));
        w
    };
    let size = |s: &World| s.data(&wl.swig).len();
    // who may close, to whom, holding what
    let lists = close_lists();
    let dests = [DEST, DEST2, PAYER, ed_key(9), sess_key(9)];
    let mut cases = vec![];
    for (i, _) in lists.iter().enumerate() { for cl in [None, Some(DEST), Some(DEST2), Some(nk(0xC1, 1))] { for legacy in [None, Some(0u64), Some(1_614_720), Some(256)] { cases.push((i, cl, legacy)); } } }
    ck.each("closing", &cases, |ck, (i, cl, legacy)| {
        let kinds: &[u16] = if ck.thorough || [perm::ALL, perm::MANAGE, perm::CLOSE, perm::SOL].contains(&lists[*i][0].ty) { &AUTH_TYPES } else { &[ED, K1S] };
        for t in kinds {
            let c = cr(*t, 9);
            let w0 = world(&c, &lists[*i], *cl, *legacy);
            let (rs, rw) = (rent(size(&w0)), rent(0));
            for ds in [-1i64, 0, 1, 5000] { for lw in [rw as i64, rw as i64 + 1, rw as i64 - 1, 1, 0] {
                if *t != ED && ds > 1 { continue; }
                let mut w = w0.clone();
                w.fund(wl.swig, (rs as i64 + ds) as u64);
                if legacy.is_some() && lw > 0 && lw != 1 { continue; }
                w.fund(wl.wallet, lw as u64);
                if lw == 0 { w.accts.remove(&wl.wallet); }
                for d in dests {
                    if d != DEST && (ds, lw) != (0, rw as i64) && !(legacy.is_some() && (ds, lw) == (0, 0)) { continue; }
                    let s = st(1, b1(&c), Do::CloseSwig(d));
                    let l = || format!("{:?} kind {t} claimer {cl:?} legacy {legacy:?} swig+{ds} wallet {lw}", crate::p_roles::kinds(&lists[*i]));
                    let Some(n) = note(ck, apply(Some(ck), &w, &wl, &s), &l) else { continue };
                    if *t == ED || d == DEST { dead(ck, &n, &wl); }
                }
            } }
        }
    });
    // the acting role elsewhere in the wallet or under another number; wallets of any size
    let mut cases = vec![];
    for i in 0..lists.len() { for v in 0..crate::p_roles::RELOCATIONS { for t in [ED, K1S, R1, PE] { for cl in [None, Some(DEST)] { cases.push((i, v, t, cl)); } } } }
    ck.each("positions", &cases, |ck, &(i, v, t, cl)| {
        let c = cr(t, 9);
        for legacy in [None, Some(1_614_720u64)] {
            let mut w0 = world(&c, &lists[i], cl, legacy);
            if legacy.is_none() { w0.fund(wl.wallet, rent(0)); }
            w0.put(STO, tok::acct(TOKEN, &tok::new(MINT, if legacy.is_none() { wl.wallet } else { wl.swig }, 0)));
            let Some((w, role, what)) = crate::p_roles::relocate(&w0, &wl, 1, v) else { continue };
            for op in [Do::CloseSwig(DEST), Do::CloseSwig(DEST2), Do::Claimer(DEST), Do::Claimer(DEST2), Do::CloseTok(DEST, TOKEN, vec![STO]), Do::CloseTok(DEST2, TOKEN, vec![STO])] {
                note(ck, apply(Some(ck), &w, &wl, &st(role, by_of(&c), op.clone())), &|| format!("{what}, {:?} kind {t} claimer {cl:?} legacy {legacy:?}: {}", crate::p_roles::kinds(&lists[i]), short_op(&op)));
            }
        }
    });
    let wb = Wl::new(57);
    let big = crate::p_roles::big_stores(&wb);
    ck.each("large-wallets", &big, |ck, (l, w)| {
        for legacy in [false, true] {
            let mut w = w.clone();
            let mut s = wb.sw(&w);
            if legacy { wb.legacy(&mut s, 256); w.accts.remove(&wb.wallet); } else { w.fund(wb.wallet, rent(0)); }
            wb.store(&mut w, &s);
            w.put(MINT, tok::mint_acct(TOKEN, PAYER, 100));
            w.put(STO, tok::acct(TOKEN, &tok::new(MINT, if legacy { wb.swig } else { wb.wallet }, 0)));
            for extra in [1u64, 2, 10_000, 890_880, 1 << 40] { for at in 0..2 {
                let mut w = w.clone();
                let k = [wb.swig, wb.wallet][at];
                if at == 1 && legacy { continue; }
                let l0 = w.lam(&k);
                w.fund(k, l0 + extra);
                note(ck, apply(Some(ck), &w, &wb, &st(0, By::Main(OWNER), Do::CloseSwig(DEST))), &|| format!("{l} legacy {legacy}, {extra} too much at {at}"));
            } }
            for op in [Do::CloseSwig(DEST), Do::Claimer(DEST), Do::CloseTok(DEST, TOKEN, vec![STO])] {
                let lb = || format!("{l} legacy {legacy}: {}", short_op(&op));
                let Some(n) = note(ck, apply(Some(ck), &w, &wb, &st(0, By::Main(OWNER), op.clone())), &lb) else { continue };
                if let Do::Claimer(_) = op { for d in [DEST, DEST2] { note(ck, apply(Some(ck), &n, &wb, &st(0, By::Main(OWNER), Do::CloseSwig(d))), &lb); } }
            }
        }
    });
    // every operation on a closed wallet, however it was used before, and whatever is sent to it
    let mut cases = vec![];
    for legacy in [false, true] { for role in 0..10u32 { cases.push((legacy, role)); } }
    ck.each("closed", &cases, |ck, &(legacy, role)| {
        let mut w = crowd(&wl, 11, legacy, Some(10));
        w.accts.remove(&STO);
        let s = st(0, By::Main(OWNER), Do::CloseSwig(DEST));
        let Some(n) = note(ck, apply(Some(ck), &w, &wl, &s), &|| "close".into()) else { return };
        for (a, b) in [(0u64, 0u64), (1, 0), (rent(300), rent(0)), (0, rent(0) + 5)] {
            let mut n = n.clone();
            let l = n.lam(&wl.swig);
            n.fund(wl.swig, l + a);
            if b > 0 { n.fund(wl.wallet, b); }
            n.put(STO, tok::acct(TOKEN, &tok::new(MINT, wl.wallet, 0)));
            for t in AUTH_TYPES { for lg in [false, true] { for op in every_op(&wl, role.clamp(1, 8), lg) { for by in [By::Main(cr(t, 11)), By::Main(OWNER), By::Sess(sess_key(t as u8))] {
                note(ck, apply(Some(ck), &n, &wl, &st(role, by, op.clone())), &|| format!("closed wallet (+{a}): role {role} {}", op.name()));
            } } } }
            dead(ck, &n, &wl);
        }
    });
    // closing token accounts
    let c = cr(ED, 9);
    let t = |n: u8| nk(0x7C, n);
    let tok_at = |w: &mut World, k: Key, prog: Key, owner: Key, amount: u64, f: &dyn Fn(&mut Acct)| {
        let mut a = tok::acct(prog, &tok::new(MINT, owner, amount));
        f(&mut a);
        w.put(k, a);
    };
    let mut cases = vec![];
    for i in 0..lists.len() { for cl in [None, Some(DEST), Some(DEST2)] { for legacy in [None, Some(0u64), Some(1_614_720)] { cases.push((i, cl, legacy)); } } }
    ck.each("token-accounts", &cases, |ck, (i, cl, legacy)| {
        let mut w = world(&c, &lists[*i], *cl, *legacy);
        let other = Wl::new(54);
        other.install(&mut w, &[(OWNER, vec![a_all()])], rent(0));
        for p in [TOKEN, TOKEN22] {
            let o = if p == TOKEN { 0 } else { 20 };
            tok_at(&mut w, t(o), p, wl.wallet, 0, &|_| {});
            tok_at(&mut w, t(o + 1), p, wl.swig, 0, &|_| {});
            tok_at(&mut w, t(o + 2), p, PAYER, 0, &|_| {});
            tok_at(&mut w, t(o + 3), p, wl.wallet, 1, &|_| {});
            tok_at(&mut w, t(o + 4), p, wl.swig, 1, &|_| {});
            tok_at(&mut w, t(o + 5), p, other.wallet, 0, &|_| {});
            tok_at(&mut w, t(o + 6), p, other.swig, 0, &|_| {});
            tok_at(&mut w, t(o + 7), p, wl.wallet, 0, &|a| a.data[108] = 2);
            tok_at(&mut w, t(o + 8), p, wl.sub1(1).0, 0, &|_| {});
            tok_at(&mut w, t(o + 9), p, wl.wallet, 0, &|a| a.lamports += 777);
        }
        tok_at(&mut w, t(40), R, wl.wallet, 0, &|_| {});
        w.put(t(41), Acct { lamports: rent(71), owner: TOKEN, exec: false, data: vec![0; 71] });
        w.put(t(42), Acct { lamports: rent(165), owner: TOKEN, exec: false, data: vec![0; 165] });
        let names: Vec<Key> = (0..10).map(t).chain((20..30).map(t)).chain([t(40), t(41), t(42), wl.swig, wl.wallet, MINT, DEST, nk(0x11, 1)]).collect();
        let l = |p: &Key, v: &[Key]| format!("{:?} claimer {cl:?} legacy {legacy:?} program {} accounts {:?}", crate::p_roles::kinds(&lists[*i]), crate::model::short(p), v.iter().map(crate::model::short).collect::<Vec<_>>());
        let run = |p: Key, d: Key, v: Vec<Key>| { note(ck, apply(Some(ck), &w, &wl, &st(1, b1(&c), Do::CloseTok(d, p, v.clone()))), &|| l(&p, &v)); };
        let full = [perm::ALL, perm::CLOSE].contains(&lists[*i][0].ty);
        run(TOKEN, DEST, vec![]);
        for p in [TOKEN, TOKEN22, SYSTEM, R] { for d in [DEST, DEST2, PAYER] {
            if !full && (p == R || d == PAYER) { continue; }
            for a in &names {
                if *a == d { continue; }
                run(p, d, vec![*a]);
                if full && (p == TOKEN || ck.thorough) && d == DEST { for b in &names[..20] { run(p, d, vec![*a, *b]); } }
            }
        } }
        if full {
            for a in 0..4 { for b in 0..4 { for e in [0u8, 1, 9, 3] { run(TOKEN, DEST, vec![t(a), t(b), t(e)]); } } }
            run(TOKEN, DEST, vec![t(0), t(1), t(9)]);
            run(TOKEN22, DEST, vec![t(20), t(21), t(29)]);
        }
    });
    // close authorities: whoever may close by the token program's rules, only the wallet's own count
    let mut cases = vec![];
    for owner in 0..6u8 { for close in 0..7u8 { for legacy in [None, Some(1_614_720u64)] { for st_ in [1u8, 2] { cases.push((owner, close, legacy, st_)); } } } }
    let near = |k: &Key, i: usize| { let mut k = *k; k[i] ^= 1; k };
    let world_tok = |legacy: Option<u64>, accts: &[(Key, Key, Option<Key>, u8)]| {
        let mut w = world(&c, &[act(perm::CLOSE)], None, legacy);
        for (k, o, cl, st_) in accts { let mut x = tok::new(MINT, *o, 0); x.close = *cl; w.put(*k, tok::acct(TOKEN, &x)); w.edit(k, |a| a.data[108] = *st_); }
        w
    };
    ck.each("close-authorities", &cases, |ck, &(owner, close, legacy, st_)| {
        for i in if owner >= 3 || close >= 5 { 0..32 } else { 0..1 } {
            let o = [wl.wallet, wl.swig, PAYER, near(&wl.wallet, i), near(&wl.swig, i), { let mut k = wl.swig; k[i..].fill(0); k }][owner as usize];
            let cl = [None, Some(wl.wallet), Some(wl.swig), Some(PAYER), Some(DEST), Some(near(&wl.wallet, i)), Some(near(&wl.swig, i))][close as usize];
            let w = world_tok(legacy, &[(t(0), o, cl, st_), (t(1), if legacy.is_some() { wl.swig } else { wl.wallet }, None, 1)]);
            for q in [vec![t(0)], vec![t(0), t(1)], vec![t(1), t(0)]] { note(ck, apply(Some(ck), &w, &wl, &st(1, b1(&c), Do::CloseTok(DEST, TOKEN, q.clone()))), &|| format!("owner {owner}, close authority {close}, byte {i}, legacy {legacy:?}, state {st_}, {} accounts", q.len())); }
        }
    });
    // any number of token accounts, and one among them that may not be closed
    let mut cases = vec![];
    for n in (1..20usize).chain([25, 31, 32, 33, 40, 50]) { for at in 0..=n { for bad in 0..4u8 { if at == n && bad > 0 { continue; } cases.push((n, at, bad)); } } }
    ck.each("many-token-accounts", &cases, |ck, &(n, at, bad)| {
        for legacy in [None, Some(1_614_720u64)] {
            let accts: Vec<(Key, Key, Option<Key>, u8)> = (0..n).map(|i| (nk(0x7B, i as u8), if i == at && bad == 0 { PAYER } else if i % 3 == 1 { wl.swig } else { wl.wallet }, None, 1)).collect();
            let mut w = world_tok(legacy, &accts);
            if at < n { let k = nk(0x7B, at as u8); match bad { 1 => w.edit(&k, |a| a.data[64] = 1), 2 => w.edit(&k, |a| a.owner = R), 3 => w.edit(&k, |a| a.data.truncate(70)), _ => {} } }
            for t_ in [c, cr(K1, 9)] {
                let mut w = w.clone();
                if t_ != c { let mut s = wl.sw(&w); s.roles[1] = Role { aty: t_.t, auth: t_.stored(), ..s.roles[1].clone() }; wl.store(&mut w, &s); }
                note(ck, apply(Some(ck), &w, &wl, &st(1, b1(&t_), Do::CloseTok(DEST, TOKEN, accts.iter().map(|a| a.0).collect()))), &|| format!("{n} accounts, number {at} of them bad ({bad}), legacy {legacy:?}, kind {}", t_.t));
            }
        }
    });
    // a recorded claimer that differs from the receiver in one byte
    let cases: Vec<(usize, u8)> = (0..32).flat_map(|i| [(i, 1u8), (i, 0x80), (i, 0xff)]).collect();
    ck.each("near-claimers", &cases, |ck, &(i, x)| {
        for legacy in [None, Some(1_614_720u64)] { for a in [act(perm::CLOSE), a_all()] {
            let mut k = DEST;
            k[i] ^= x;
            let mut w = world(&c, &[a], Some(k), legacy);
            w.fund(k, 1_000_000);
            w.put(t(0), tok::acct(TOKEN, &tok::new(MINT, if legacy.is_some() { wl.swig } else { wl.wallet }, 0)));
            if legacy.is_none() { w.fund(wl.wallet, rent(0)); }
            for d in [DEST, k] { for op in [Do::CloseSwig(d), Do::CloseTok(d, TOKEN, vec![t(0)]), Do::Claimer(d)] {
                note(ck, apply(Some(ck), &w, &wl, &st(1, b1(&c), op.clone())), &|| format!("claimer's byte {i} off by {x}, legacy {legacy:?}, {}: {}", d == k, short_op(&op)));
            } }
        } }
    });
    let mut cases = vec![];
    for legacy in [None, Some(1_614_720u64)] {
        let mut w = world(&c, &[act(perm::CLOSE)], Some(DEST), legacy);
        w.put(t(0), tok::acct(TOKEN, &tok::new(MINT, if legacy.is_some() { wl.swig } else { wl.wallet }, 0)));
        if legacy.is_none() { w.fund(wl.wallet, rent(0)); }
        for op in [Do::CloseSwig(DEST), Do::CloseTok(DEST, TOKEN, vec![t(0)]), Do::Claimer(DEST2)] { cases.push((format!("legacy {legacy:?}: {}", short_op(&op)), w.clone(), st(1, b1(&c), op))); }
    }
    near_misses(ck, "near-misses", &wl, &cases, &[wl.swig, wl.wallet, TOKEN, SYSTEM, DEST]);
    // the announced offset
    let mut cases = vec![];
    for off in (0..12u16).chain([255, 256, 0x0104, u16::MAX]) { for tr in [ED, R1, K1, EDS, PE] { cases.push((off, tr)); } }
    ck.each("offsets", &cases, |ck, &(off, tr)| {
        let c = cr(tr, 9);
        for cl in [None, Some(DEST)] {
            let mut w = world(&c, &[act(perm::CLOSE)], cl, None);
            for n in 0..3 { tok_at(&mut w, t(n), TOKEN, wl.wallet, 0, &|_| {}); }
            let by = b1(&c);
            let mut call = op_call(&w, &wl, 1, &by, &Do::CloseTok(DEST, TOKEN, vec![t(0), t(1), t(2)]));
            call.head[2..4].copy_from_slice(&off.to_le_bytes());
            call.dp = call.head.clone();
            let ixs = call.go(&w, &wl, 1, &by);
            let ms = ixs.last().unwrap().metas.clone();
            let named: Vec<Key> = ms.iter().skip(off as usize).map(|x| x.key).collect();
            let exp = expect(&w, &wl, 1, &by, &Do::CloseTok(DEST, TOKEN, named), &ms);
            let l = || format!("offset {off} kind {tr}");
            note(ck, verdict(Some(ck), &w, exp, &ixs, "close-token", &l), &l);
        }
    });
    // rent claimers
    let mut cases = vec![];
    for i in 0..lists.len() { for before in [None, Some(DEST), Some(DEST2)] { for legacy in [None, Some(0u64), Some(1_614_720)] { cases.push((i, before, legacy)); } } }
    ck.each("claimer", &cases, |ck, (i, before, legacy)| {
        let (w54, s1, s2) = (Wl::new(54), wl.sub1(1).0, wl.sub2(0).0);
        for t in [ED, K1, R1S, PES] {
            let c = cr(t, 9);
            let w = world(&c, &lists[*i], *before, *legacy);
            for k in [[0; 32], wl.swig, wl.wallet, DEST, DEST2, [255; 32], PAYER, SYSTEM, SWIG, w54.swig, w54.wallet, s1, s2, { let mut k = wl.swig; k[31] ^= 1; k }, { let mut k = wl.wallet; k[0] ^= 1; k }, { let mut k = [0; 32]; k[31] = 1; k }, { let mut k = [0; 32]; k[0] = 1; k }] {
                let l = || format!("{:?} kind {t} before {before:?} claimer {}", crate::p_roles::kinds(&lists[*i]), hx(&k));
                let Some(n) = note(ck, apply(Some(ck), &w, &wl, &st(1, b1(&c), Do::Claimer(k))), &l) else { continue };
                // only to the claimer from now on
                for d in [DEST, DEST2, k] { if d == SYSTEM || d == SWIG || d == wl.swig || d == wl.wallet { continue; } note(ck, apply(Some(ck), &n, &wl, &st(0, By::Main(OWNER), Do::CloseSwig(d))), &l); }
                for k2 in [DEST, DEST2, k] { note(ck, apply(Some(ck), &n, &wl, &st(0, By::Main(OWNER), Do::Claimer(k2))), &l); }
            }
        }
    });
    // the configuration account holds more or less than its rent
    let mut cases = vec![];
    for t in AUTH_TYPES { for legacy in [None, Some(0u64), Some(1_614_720)] { cases.push((t, legacy)); } }
    ck.each("claimer-balance", &cases, |ck, &(t, legacy)| {
        let c = cr(t, 9);
        let w0 = world(&c, &[act(perm::CLOSE)], None, legacy);
        let n = size(&w0);
        let need = (rent(n + 40) - rent(n)) as i64;
        for d in [-need, -1, 0, 1, 2, need / 2, need - 1, need, need + 1, 2 * need, 1_000_000_000_000] {
            let mut w = w0.clone();
            w.fund(wl.swig, (rent(n) as i64 + d) as u64);
            for payer in [u64::MAX / 2, need as u64, (need - d).max(0) as u64, 1] {
                w.fund(PAYER, payer);
                note(ck, apply(Some(ck), &w, &wl, &st(1, by_of(&c), Do::Claimer(DEST))), &|| format!("kind {t} legacy {legacy:?} configuration holds {d} more than its rent, payer {payer}"));
            }
        }
    });
    // histories: nothing but the one setting touches the claimer; closing ends everything
    let mut acts = vec![];
    let b0 = By::Main(OWNER);
    for (r, b) in [(0u32, b0), (1, By::Main(c))] {
        for k in [DEST, DEST2] { acts.push(st(r, b, Do::Claimer(k))); acts.push(st(r, b, Do::CloseSwig(k))); acts.push(st(r, b, Do::CloseTok(k, TOKEN, vec![STO]))); }
        acts.push(st(r, b, Do::Add(cr(K1, 4), vec![act(perm::CLOSE), a_sol(5)])));
        acts.push(st(r, b, Do::Remove(2)));
        acts.push(st(r, b, Do::Replace(1, ed_key(12).to_vec())));
        acts.push(st(r, b, Do::Transfer(vec![])));
        acts.push(st(r, b, Do::Migrate));
        acts.push(st(r, b, Do::Sign(vec![sys_transfer(&wl.wallet, &DEST, 3)])));
    }
    acts.push(st(3, By::Main(cr(K1, 4)), Do::CloseSwig(DEST2)));
    acts.push(st(3, By::Main(cr(K1, 4)), Do::Claimer(DEST2)));
    acts.push(st(0, b0, Do::Up(1, Upd::Append(vec![act(perm::CLOSE)]))));
    acts.push(st(0, b0, Do::Up(1, Upd::ByType(vec![perm::CLOSE as u8]))));
    acts.push(st(0, b0, Do::Up(2, Upd::Replace(vec![crate::p_roles::scope()]))));
    acts.push(st(0, b0, Do::S1Create));
    acts.push(st(0, b0, Do::S2Create));
    let mut inits = vec![];
    for legacy in [None, Some(1_614_720)] { for cl in [None, Some(DEST2)] {
        let mut w = world(&c, &[a_sol(9), act(perm::CLOSE)], cl, legacy);
        let s = wl.sw(&w);
        if legacy.is_none() { let mut s = s; s.roles[0].acts.extend([act(perm::SUB), act(perm::V2_CREATE)]); wl.store(&mut w, &s); w.fund(wl.wallet, rent(0) + 3); }
        tok_at(&mut w, STO, TOKEN, if legacy.is_some() { wl.swig } else { wl.wallet }, 0, &|_| {});
        inits.push(w);
    } }
    ck.bfs("closing-history", &OpM { wl, inits, acts }, if ck.thorough { 8 } else { 6 });
}
/// a closed wallet stays closed
fn dead(ck: &Ck, n: &World, wl: &Wl) {
    let l = || "after closing".to_string();
    for op in [Do::CloseSwig(DEST), Do::Add(cr(ED, 8), vec![a_all()]), Do::Claimer(DEST), Do::Transfer(vec![]), Do::Migrate, Do::Sign(vec![])] { note(ck, apply(Some(ck), n, wl, &st(0, By::Main(OWNER), op)), &l); }
    for t in [ED, K1S] {
        let ix = create_ix(wl, &cr(t, 5), &[a_all()]);
        note(ck, create(Some(ck), n, &[ix], &l), &l);
    }
}

/// Every byte of every account an operation names (configurations aside) changed, one at a
/// time; and a copy, at an address off by one byte, in place of each account whose address
/// is prescribed.
pub fn near_misses(ck: &Ck, name: &str, wl: &Wl, cases: &[(String, World, St)], fixed: &[Key]) {
    let mut v = vec![];
    for (n, (_, w, s)) in cases.iter().enumerate() {
        let ixs = op_call(w, wl, s.role, &s.by, &s.op).go(w, wl, s.role, &s.by);
        for (i, x) in ixs.last().unwrap().metas.iter().enumerate() {
            let first = !ixs.last().unwrap().metas[..i].iter().any(|y| y.key == x.key);
            if fixed.contains(&x.key) { for b in 0..32 { v.push((n, i, b, true)); } }
            if first && w.owner(&x.key) != SWIG { for b in 0..w.data(&x.key).len() { v.push((n, i, b, false)); } }
        }
    }
    ck.each(name, &v, |ck, &(n, i, b, key)| {
        let (l, w, s) = &cases[n];
        let mut call = op_call(w, wl, s.role, &s.by, &s.op);
        let k = call.metas.get(i).map_or([0; 32], |x| x.key);
        if !key {
            let k = op_call(w, wl, s.role, &s.by, &s.op).go(w, wl, s.role, &s.by).last().unwrap().metas[i].key;
            if k == SYSTEM || readonly_always(&k) { return; }
            for x in [1u8, 2, 0x80] {
                let mut w = w.clone();
                w.edit(&k, |a| a.data[b] ^= x);
                note(ck, apply(Some(ck), &w, wl, s), &|| format!("{l}: byte {b} of account {i} changed by {x}"));
            }
            return;
        }
        if i >= call.metas.len() { return; }
        for x in [1u8, 0x80] {
            let mut w = w.clone();
            let mut o = k;
            o[b] ^= x;
            if let Some(mut a) = w.get(&k).cloned() { if a.owner == SWIG { a.owner = R; } w.put(o, a); }
            call.metas[i].key = o;
            call.metas[i].signer = false;
            let ixs = call.go(&w, wl, s.role, &s.by);
            let lb = || format!("{l}: account {i} replaced by a copy whose address differs in byte {b}");
            note(ck, verdict(Some(ck), &w, Err("another account"), &ixs, s.op.name(), &lb), &lb);
        }
    });
}

// ------------------------------------------------------------------ P21
pub fn p21(ck: &Ck) {
    let wl = Wl::new(55);
    let other = Wl::new(56);
    let lists = close_lists();
    let world = |c: &Cred, acts: &[Act], claimer: bool, legacy: Option<u64>| {
        let mut w = base();
        let mut s = wl.install(&mut w, &[(OWNER, vec![a_all()]), (*c, acts.to_vec()), (cr(K1S, 7), vec![a_sol(5), crate::p_roles::scope()]), (cr(PE, 8), vec![act(perm::SUB)])], rent(0));
        let slot = w.slot;
        open(&mut s.roles[1], c.n, slot);
        open(&mut s.roles[2], 7, slot);
        s.roles[2].set_odometer(77);
        s.roles.remove(3);
        s.claimer = claimer.then_some(DEST2);
        if let Some(r) = legacy { wl.legacy(&mut s, r); w.accts.remove(&wl.wallet); } else { s.subctr = 3; }
        wl.store(&mut w, &s);
        w.put(MINT, tok::mint_acct(TOKEN, PAYER, 100));
        w
    };
    let reserved = [Some(0u64), Some(256), Some(890_880), Some(1_614_720), Some(1_392_000 << 8), Some(1 << 32), Some(u64::MAX), Some(0xff00), Some(0x0100_0000), None];
    let mut cases = vec![];
    for i in 0..lists.len() { for t in AUTH_TYPES { for r in 0..reserved.len() { cases.push((i, t, r)); } } }
    ck.each("migration", &cases, |ck, &(i, t, r)| {
        let c = cr(t, 9);
        for cl in [false, true] {
            let w0 = world(&c, &lists[i], cl, reserved[r]);
            for lw in [0u64, 1, rent(0) - 1, rent(0), rent(0) + 9] {
                let mut w = w0.clone();
                if reserved[r].is_some() { if lw > 0 { w.fund(wl.wallet, lw); } } else if lw != rent(0) { continue; }
                let l = || format!("{:?} kind {t} reserved {:?} lamport address holds {lw}", crate::p_roles::kinds(&lists[i]), reserved[r]);
                let Some(n) = note(ck, apply(Some(ck), &w, &wl, &st(1, by_of(&c), Do::Migrate)), &l) else { continue };
                note(ck, apply(Some(ck), &n, &wl, &st(1, by_of(&c), Do::Migrate)), &l);
                // everybody can go on
                for s in [st(0, By::Main(OWNER), Do::Add(cr(ED, 4), vec![a_sol(3)])), st(2, sess(7), Do::Sign(vec![sys_transfer(&wl.wallet, &DEST, 1)])), st(2, sess(7), Do::Session(3, sess_key(8))), st(0, By::Main(OWNER), Do::Transfer(vec![])), st(0, By::Main(OWNER), Do::CloseSwig(DEST2))] { note(ck, apply(Some(ck), &n, &wl, &s), &l); }
            }
        }
    });
    // the announced bump and the address given
    let cases: Vec<u8> = (0..=255).collect();
    ck.each("migration-address", &cases, |ck, &b| {
        let w = world(&LTD, &[a_all()], false, Some(1_614_720));
        let mut keys = vec![wl.wallet, other.wallet, wl.swig, DEST, nk(0x11, 3), wl.sub1(0).0, wl.sub2(0).0];
        if let Some(k) = create_pda(&[b"swig-wallet-address", &wl.swig, &[b]], &SWIG) { keys.push(k); }
        for k in keys { for funded in [false, true] {
            let mut w = w.clone();
            if funded && k != wl.swig { w.fund(k, rent(0)); }
            let mut call = c_migrate_raw(&wl, 1, ed_key(LTD.n), b);
            call.metas[3].key = k;
            let by = By::Main(LTD);
            let ixs = call.go(&w, &wl, 1, &by);
            let exp = if b == wl.wbump && k == wl.wallet { expect(&w, &wl, 1, &by, &Do::Migrate, &ixs[0].metas) } else { Err("not the derived address") };
            let l = || format!("bump {b} address {}", crate::model::short(&k));
            note(ck, verdict(Some(ck), &w, exp, &ixs, "migrate", &l), &l);
        } }
    });
    // what is at the lamport address
    let pre = [Acct { lamports: rent(1), owner: SYSTEM, exec: false, data: vec![0] }, Acct { lamports: rent(0), owner: R, exec: false, data: vec![] }, Acct { lamports: rent(0), owner: SWIG, exec: false, data: vec![] }, Acct { lamports: rent(1), owner: SWIG, exec: false, data: vec![255] }, tok::acct(TOKEN, &tok::new(MINT, wl.swig, 4))];
    ck.each("migration-occupied", &[0usize, 1, 2, 3, 4], |ck, i| {
        let mut w = world(&LTD, &[a_all()], false, Some(890_880));
        w.put(wl.wallet, pre[*i].clone());
        note(ck, apply(Some(ck), &w, &wl, &st(1, By::Main(LTD), Do::Migrate)), &|| format!("occupied {i}"));
    });
    // asset transfers: who, how much
    let mut cases = vec![];
    for i in 0..lists.len() { for t in AUTH_TYPES { for legacy in [None, Some(0u64), Some(1_614_720)] { cases.push((i, t, legacy)); } } }
    let t = |n: u8| nk(0x7D, n);
    ck.each("transfer-sol", &cases, |ck, &(i, kt, legacy)| {
        let c = cr(kt, 9);
        for cl in [false, true] { for e in [-5i64, 0, 1, 890_879, 10_000_000_000] { for lw in [0u64, rent(0), rent(0) + 4] {
            let mut w = world(&c, &lists[i], cl, legacy);
            let l = w.lam(&wl.swig);
            w.fund(wl.swig, (l as i64 + e) as u64);
            w.fund(wl.wallet, lw);
            if lw == 0 { w.accts.remove(&wl.wallet); }
            let lb = || format!("{:?} kind {kt} legacy {legacy:?} excess {e} wallet {lw}", crate::p_roles::kinds(&lists[i]));
            note(ck, apply(Some(ck), &w, &wl, &st(1, by_of(&c), Do::Transfer(vec![]))), &lb);
        } } }
    });
    // the acting role elsewhere in the wallet or under another number; wallets of any size
    let mut cases = vec![];
    for i in 0..lists.len() { for v in 0..crate::p_roles::RELOCATIONS { for t in [ED, EDS, K1, R1S, PE] { cases.push((i, v, t)); } } }
    ck.each("positions", &cases, |ck, &(i, v, t)| {
        let c = cr(t, 9);
        for legacy in [None, Some(1_614_720u64)] {
            let mut w0 = world(&c, &lists[i], v % 2 == 1, legacy);
            w0.fund(wl.wallet, rent(0) + 3);
            let Some((w, role, what)) = crate::p_roles::relocate(&w0, &wl, 1, v) else { continue };
            for op in [Do::Migrate, Do::Transfer(vec![])] { note(ck, apply(Some(ck), &w, &wl, &st(role, by_of(&c), op.clone())), &|| format!("{what}, {:?} kind {t} legacy {legacy:?}: {}", crate::p_roles::kinds(&lists[i]), short_op(&op))); }
        }
    });
    let wb = Wl::new(57);
    let big = crate::p_roles::big_stores(&wb);
    ck.each("large-wallets", &big, |ck, (l, w)| {
        let mut w = w.clone();
        let mut s = wb.sw(&w);
        wb.legacy(&mut s, 256);
        wb.store(&mut w, &s);
        let lam = w.lam(&wb.swig);
        w.fund(wb.swig, lam + 77);
        w.fund(wb.wallet, rent(0));
        if let Some(n) = note(ck, apply(Some(ck), &w, &wb, &st(0, By::Main(OWNER), Do::Migrate)), &|| format!("{l}: migrate")) {
            for extra in [1u64, 2, 5000, 890_880, 1 << 40] {
                let mut n = n.clone();
                let r = rent(n.data(&wb.swig).len());
                n.fund(wb.swig, r + extra);
                note(ck, apply(Some(ck), &n, &wb, &st(0, By::Main(OWNER), Do::Transfer(vec![]))), &|| format!("{l}: {extra} to transfer"));
            }
        }
        for op in [Do::Migrate, Do::Transfer(vec![])] {
            let lb = || format!("{l}: {}", short_op(&op));
            let Some(n) = note(ck, apply(Some(ck), &w, &wb, &st(0, By::Main(OWNER), op.clone())), &lb) else { continue };
            note(ck, apply(Some(ck), &n, &wb, &st(0, By::Main(OWNER), Do::Transfer(vec![]))), &lb);
        }
    });
    // token triples
    let assets = |e: u64, legacy: Option<u64>| {
        let mut w = world(&LTD, &[act(perm::MANAGE)], false, legacy);
        let l = w.lam(&wl.swig);
        w.fund(wl.swig, l + e);
        if legacy.is_some() { w.fund(wl.wallet, rent(0)); }
        other.install(&mut w, &[(OWNER, vec![a_all()])], rent(0));
        let mut p = |n: u8, prog: Key, mint: Key, owner: Key, amount: u64| { w.put(t(n), tok::acct(prog, &tok::new(mint, owner, amount))); };
        let m2 = nk(0x3D, 2);
        p(0, TOKEN, MINT, wl.swig, 10); p(1, TOKEN, MINT, wl.swig, 0); p(2, TOKEN, MINT, wl.wallet, 6); p(3, TOKEN, MINT, PAYER, 8); p(4, TOKEN, m2, wl.swig, 3); p(5, TOKEN22, MINT, wl.swig, 9);
        p(6, TOKEN, MINT, other.swig, 5); p(7, TOKEN, MINT, wl.swig, u64::MAX);
        p(10, TOKEN, MINT, wl.wallet, 1); p(11, TOKEN, MINT, other.wallet, 1); p(12, TOKEN, m2, wl.wallet, 0); p(13, TOKEN22, MINT, wl.wallet, 0); p(14, TOKEN, MINT, DEST, 0);
        w.put(t(20), Acct { lamports: rent(71), owner: TOKEN, exec: false, data: vec![1; 71] });
        // shaped like token accounts, owned by another program
        let mut f = tok::acct(R, &tok::new(MINT, wl.swig, 7)); f.owner = R; w.put(t(21), f);
        let mut f = tok::acct(R, &tok::new(MINT, wl.wallet, 7)); f.owner = R; w.put(t(22), f);
        let mut f = tok::acct(TOKEN, &tok::new(MINT, wl.swig, 7)); f.data[108] = 2; w.put(t(23), f);
        let mut f = tok::acct(TOKEN, &tok::new(MINT, wl.wallet, 7)); f.data[108] = 2; w.put(t(24), f);
        w
    };
    let src: Vec<Key> = (0..8).map(t).chain([t(20), t(21), t(23), nk(0x11, 1), wl.swig]).collect();
    let dst: Vec<Key> = (10..15).map(t).chain([t(20), t(22), t(24), t(0), t(2), DEST, wl.wallet]).collect();
    let progs = [TOKEN, TOKEN22, SYSTEM, R];
    let mut one = vec![];
    for s in &src { for d in &dst { for p in &progs { one.push((*s, *d, *p)); } } }
    let mut cases = vec![];
    for e in [0u64, 7] { for legacy in [None, Some(1_614_720u64)] { for x in &one { cases.push((e, legacy, vec![*x])); } } }
    let pick: Vec<(Key, Key, Key)> = if ck.thorough { one.iter().filter(|x| x.2 == TOKEN || x.2 == TOKEN22).cloned().collect() } else { vec![(t(0), t(10), TOKEN), (t(1), t(10), TOKEN), (t(4), t(12), TOKEN), (t(5), t(13), TOKEN22), (t(0), t(14), TOKEN), (t(3), t(10), TOKEN), (t(2), t(10), TOKEN), (t(0), t(12), TOKEN), (t(0), t(10), SYSTEM), (t(21), t(10), TOKEN), (t(20), t(20), TOKEN), (t(23), t(10), TOKEN), (t(10), t(0), TOKEN), (t(5), t(13), TOKEN), (t(7), t(10), TOKEN)] };
    for a in &pick { for b in &pick { for e in [0u64, 7] { cases.push((e, None, vec![*a, *b])); } } }
    if !ck.thorough { for a in &pick[..6] { for b in &pick[..6] { for c in &pick[..6] { cases.push((3, None, vec![*a, *b, *c])); } } } }
    ck.each("transfer-tokens", &cases, |ck, (e, legacy, v)| {
        let w = assets(*e, *legacy);
        let l = || format!("excess {e} legacy {legacy:?} {:?}", v.iter().map(|x| format!("{}>{} by {}", crate::model::short(&x.0), crate::model::short(&x.1), crate::model::short(&x.2))).collect::<Vec<_>>());
        note(ck, apply(Some(ck), &w, &wl, &st(1, By::Main(LTD), Do::Transfer(v.clone()))), &l);
        note(ck, apply(Some(ck), &w, &wl, &st(2, sess(7), Do::Transfer(v.clone()))), &l);
        note(ck, apply(Some(ck), &w, &wl, &st(1, By::Main(LTD2), Do::Transfer(v.clone()))), &l);
    });
    // any number of triples
    let mut cases = vec![];
    for n in 0..21usize { for at in 0..=n { for bad in 0..3u8 { if at == n && bad > 0 { continue; } cases.push((n, at, bad)); } } }
    ck.each("many-triples", &cases, |ck, &(n, at, bad)| {
        for kind in [ED, K1] {
            // counter-signed calls carry at most 64 accounts
            if kind == K1 && n > 19 { continue; }
            let me = cr(kind, 9);
            let mut w = world(&me, &[act(perm::MANAGE)], false, None);
            let tr: Vec<(Key, Key, Key)> = (0..n).map(|i| {
                let (s, d) = (nk(0x7B, i as u8), nk(0x7E, i as u8));
                let p = if i % 4 == 3 { TOKEN22 } else { TOKEN };
                w.put(s, tok::acct(p, &tok::new(MINT, if i == at && bad == 0 { PAYER } else { wl.swig }, 1 + i as u64)));
                w.put(d, tok::acct(p, &tok::new(MINT, if i == at && bad == 1 { PAYER } else { wl.wallet }, 0)));
                (s, if i == at && bad == 2 { DEST } else { d }, p)
            }).collect();
            note(ck, apply(Some(ck), &w, &wl, &st(1, by_of(&me), Do::Transfer(tr))), &|| format!("{n} triples, number {at} bad ({bad}), kind {kind}"));
        }
    });
    let mut cases = vec![];
    for legacy in [None, Some(1_614_720u64)] {
        let w = assets(7, legacy);
        cases.push((format!("migrate {legacy:?}"), w.clone(), st(1, By::Main(LTD), Do::Migrate)));
        for tr in [vec![], vec![(t(0), t(10), TOKEN)], vec![(t(5), t(13), TOKEN22), (t(0), t(10), TOKEN)]] { cases.push((format!("transfer {} {legacy:?}", tr.len()), w.clone(), st(1, By::Main(LTD), Do::Transfer(tr)))); }
    }
    near_misses(ck, "near-misses", &wl, &cases, &[wl.swig, wl.wallet]);
    // incomplete and shifted triples
    ck.each("transfer-shapes", &[0usize, 1, 2, 3, 4, 5, 6, 7], |ck, &k| {
        let w = assets(5, None);
        let by = By::Main(LTD);
        let full = [mw(t(0)), mw(t(10)), m(TOKEN), mw(t(4)), mw(t(12)), m(TOKEN)];
        for shift in 0..3usize {
            let mut call = c_transfer_assets(&wl, 1, &[]);
            for _ in 0..shift { call.metas.push(m(DEST)); }
            call.metas.extend_from_slice(&full[..k.min(6)]);
            if k == 7 { call.metas.push(ms(ed_key(LTD.n))); }
            let ixs = call.go(&w, &wl, 1, &by);
            let ms = ixs[0].metas.clone();
            let tr: Vec<(Key, Key, Key)> = ms[4..].chunks_exact(3).map(|c| (c[0].key, c[1].key, c[2].key)).collect();
            let exp = expect(&w, &wl, 1, &by, &Do::Transfer(tr), &ms);
            let l = || format!("{k} of the six accounts after {shift} others");
            note(ck, verdict(Some(ck), &w, exp, &ixs, "transfer", &l), &l);
        }
    });
    // histories from a legacy wallet
    let mut acts = vec![];
    let b0 = By::Main(OWNER);
    for (r, b) in [(0u32, b0), (1, By::Main(LTD))] {
        acts.push(st(r, b, Do::Migrate));
        acts.push(st(r, b, Do::Transfer(vec![])));
        acts.push(st(r, b, Do::Transfer(vec![(t(0), t(10), TOKEN)])));
        acts.push(st(r, b, Do::Transfer(vec![(t(1), t(14), TOKEN), (t(5), t(13), TOKEN22)])));
        acts.push(st(r, b, Do::Add(cr(R1, 4), vec![act(perm::MANAGE), a_sol(5)])));
        acts.push(st(r, b, Do::Remove(2)));
        acts.push(st(r, b, Do::S2Create));
        acts.push(st(r, b, Do::Claimer(DEST)));
        acts.push(st(r, b, Do::CloseSwig(DEST)));
        acts.push(st(r, b, Do::CloseTok(DEST, TOKEN, vec![t(1)])));
    }
    acts.push(st(2, sess(7), Do::Sign(vec![sys_transfer(&wl.wallet, &DEST, 2)])));
    acts.push(st(4, By::Main(cr(R1, 4)), Do::Migrate));
    acts.push(st(4, By::Main(cr(R1, 4)), Do::Transfer(vec![])));
    acts.push(st(0, b0, Do::Sign(vec![Ix { prog: R, metas: vec![m(wl.wallet)], data: script_data(&[]) }])));
    acts.push(st(0, b0, Do::Up(0, Upd::Append(vec![act(perm::V2_CREATE)]))));
    let inits = vec![assets(9, Some(1_614_720)), assets(0, Some(0)), assets(0, None)];
    ck.bfs("migration-history", &OpM { wl, inits, acts }, if ck.thorough { 7 } else { 5 });
}
