//! P23: the client-side compact encoding and the reader of that encoding, both
//! called directly, over all small instruction lists.
use crate::mcx::*;
use crate::sw::nk;
use crate::vm::Key;
use pinocchio::account_info::AccountInfo;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use std::panic::{catch_unwind, AssertUnwindSafe};
use swig_compact_instructions::*;

fn pk(k: &Key) -> Pubkey { Pubkey::new_from_array(*k) }
const SWG: Key = nk(0xC0, 1);
const SUBA: Key = nk(0xC0, 2);
fn key(i: usize) -> Key { match i { 0 => SWG, 1 => SUBA, i => { let mut k = nk(0xC1, 1); k[2] = i as u8; k[3] = (i >> 8) as u8; k } } }
/// what an instruction looks like here: program, (account, signer, writable)*, data length
type In = (usize, Vec<(usize, bool, bool)>, usize);
fn data(n: usize, salt: usize) -> Vec<u8> { (0..n).map(|i| ((i * 31 + salt * 7 + 3) % 251) as u8).collect() }
fn to_ix(l: &[In]) -> Vec<Instruction> {
    l.iter().enumerate().map(|(n, (p, a, d))| Instruction {
        program_id: pk(&key(*p)),
        accounts: a.iter().map(|(k, s, w)| AccountMeta { pubkey: pk(&key(*k)), is_signer: *s, is_writable: *w }).collect(),
        data: data(*d, n),
    }).collect()
}
#[repr(C, align(8))]
struct Raw { head: [u8; 8], key: Key, owner: Key, lamports: u64, len: u64, data: [u8; 16] }
/// account views as the runtime hands them to a program
struct Infos { _own: Vec<Box<Raw>>, v: Vec<AccountInfo> }
fn infos(l: &[(Key, bool, bool)]) -> Infos {
    let mut own: Vec<Box<Raw>> = l.iter().map(|(k, s, w)| Box::new(Raw { head: [255, *s as u8, *w as u8, 0, 0, 0, 0, 0], key: *k, owner: [0; 32], lamports: 1, len: 0, data: [0; 16] })).collect();
    let v = own.iter_mut().map(|b| { let p: *mut Raw = &mut **b; unsafe { std::mem::transmute::<*mut Raw, AccountInfo>(p) } }).collect();
    Infos { _own: own, v }
}
#[derive(Debug, PartialEq, Clone)]
struct Dec { prog: Key, metas: Vec<(Key, bool, bool)>, idx: Vec<usize>, data: Vec<u8>, me: bool, cpi: usize }
/// Strict reader of the form, with the privileges the reader must assign.
fn model(bytes: &[u8], accts: &[(Key, bool, bool)], me: &Key, restricted: &[Key]) -> Option<Vec<Dec>> {
    let n = *bytes.first()? as usize;
    let mut at = 1usize;
    let mut out = vec![];
    for _ in 0..n {
        let prog = accts.get(*bytes.get(at)? as usize)?.0;
        let na = *bytes.get(at + 1)? as usize;
        if na > 254 { return None; }
        let idx: Vec<usize> = bytes.get(at + 2..at + 2 + na)?.iter().map(|x| *x as usize).collect();
        at += 2 + na;
        let dl = u16::from_le_bytes(bytes.get(at..at + 2)?.try_into().unwrap()) as usize;
        let d = bytes.get(at + 2..at + 2 + dl)?.to_vec();
        at += 2 + dl;
        let mut metas = vec![];
        for i in &idx { let a = accts.get(*i)?; metas.push((a.0, (a.0 == *me || a.1) && !restricted.contains(&a.0), a.2)); }
        let uses = metas.iter().any(|x| x.0 == *me && x.1);
        out.push(Dec { prog, cpi: metas.len(), metas, idx, data: d, me: uses });
    }
    Some(out)
}
fn real(bytes: &[u8], accts: &Infos, me: &Key, restricted: &[Key]) -> Option<Vec<Dec>> {
    let rk: Vec<&Key> = restricted.iter().collect();
    let rs: &[&Key] = &rk;
    let it = InstructionIterator::new(&accts.v[..], bytes, me, rs).ok()?;
    let mut out = vec![];
    for h in it {
        let h = h.ok()?;
        out.push(Dec {
            prog: *h.program_id, cpi: h.cpi_accounts.len(), idx: h.indexes.clone(), data: h.data.to_vec(), me: h.uses_swig_signer,
            metas: h.accounts.iter().map(|a| (*a.pubkey, a.is_signer, a.is_writable)).collect(),
        });
    }
    Some(out)
}
fn tup(a: &[AccountMeta]) -> Vec<(Key, bool, bool)> { a.iter().map(|m| (m.pubkey.to_bytes(), m.is_signer, m.is_writable)).collect() }

/// One encoding: the account list, the instruction list, and the bytes, read back by both readers.
fn one(ck: &Ck, sub: bool, init: &[(usize, bool, bool)], l: &[In], label: &str) {
    ck.trans(1 + l.len() as u64);
    let ixs = to_ix(l);
    let start: Vec<AccountMeta> = init.iter().map(|(k, s, w)| AccountMeta { pubkey: pk(&key(*k)), is_signer: *s, is_writable: *w }).collect();
    let before = tup(&start);
    let (accts, c) = if sub { compact_instructions_sub_account(pk(&SWG), pk(&SUBA), start, ixs.clone()) } else { compact_instructions(pk(&SWG), start, ixs.clone()) };
    let accts = tup(&accts);
    if accts.len() > 255 { return; }
    let fail = |k: &str, msg: String| ck.fail(k, format!("{label} sub={sub} accounts {init:?} instructions {}: {msg}", if l.len() < 6 { format!("{l:?}") } else { format!("{} of them", l.len()) }), vec![], None);
    let mine = |k: &Key| *k == SWG || (sub && *k == SUBA);
    // same programs, accounts, order and data
    if c.inner_instructions.len() != ixs.len() { return fail("count", format!("{} instructions encoded", c.inner_instructions.len())); }
    for (n, (e, ix)) in c.inner_instructions.iter().zip(&ixs).enumerate() {
        if accts.get(e.program_id_index as usize).map(|a| a.0) != Some(ix.program_id.to_bytes()) { return fail("program", format!("instruction {n} names account {} as its program", e.program_id_index)); }
        let got: Vec<Option<Key>> = e.accounts.iter().map(|i| accts.get(*i as usize).map(|a| a.0)).collect();
        let want: Vec<Option<Key>> = ix.accounts.iter().map(|a| Some(a.pubkey.to_bytes())).collect();
        if got != want { return fail("accounts", format!("instruction {n}: accounts {:?}", e.accounts)); }
        if e.data != ix.data { return fail("data", format!("instruction {n}: data differs")); }
    }
    // the given accounts stay where they are
    for (i, a) in before.iter().enumerate() {
        if accts.get(i).map(|x| x.0) != Some(a.0) || (a.1 && !accts[i].1) || (a.2 && !accts[i].2) { return fail("prefix", format!("account {i} changed")); }
    }
    // exactly the privileges needed, in total per address
    let mut keys: Vec<Key> = accts.iter().map(|a| a.0).collect();
    keys.sort();
    keys.dedup();
    for k in keys {
        let uses = || ixs.iter().flat_map(|i| &i.accounts).filter(|a| a.pubkey.to_bytes() == k);
        let s0 = before.iter().any(|a| a.0 == k && a.1);
        let w0 = before.iter().any(|a| a.0 == k && a.2);
        let listed = before.iter().any(|a| a.0 == k);
        // who signs among the accounts the caller listed is the caller's decision
        let want = (if listed { s0 } else { !mine(&k) && uses().any(|a| a.is_signer) }, w0 || uses().any(|a| a.is_writable));
        let got = (accts.iter().any(|a| a.0 == k && a.1), accts.iter().any(|a| a.0 == k && a.2));
        if got != want {
            let key = if got.0 & !want.0 || got.1 & !want.1 { "excess-privilege" } else { "lost-privilege" };
            return fail(key, format!("account {:?} listed with signer,writable = {got:?}, needed {want:?}", l.iter().flat_map(|i| &i.1).map(|a| a.0).find(|i| key_of(*i) == k)));
        }
        if !before.iter().any(|a| a.0 == k) && uses().next().is_none() && !ixs.iter().any(|i| i.program_id.to_bytes() == k) { return fail("stray", "an account nothing uses was added".into()); }
    }
    // the bytes
    let bytes = c.into_bytes();
    let flags: Vec<(Key, bool, bool)> = accts.clone();
    let inf = infos(&flags);
    let me = if sub { SUBA } else { SWG };
    match (real(&bytes, &inf, &me, &[]), model(&bytes, &flags, &me, &[])) {
        (a, b) if a != b || a.is_none() => fail("decode", format!("decoded as {a:?}, bytes say {b:?}")),
        (Some(a), _) => {
            for (n, (d, ix)) in a.iter().zip(&ixs).enumerate() {
                if a.len() != ixs.len() || d.prog != ix.program_id.to_bytes() || d.data != ix.data || d.metas.iter().map(|x| x.0).ne(ix.accounts.iter().map(|x| x.pubkey.to_bytes())) { return fail("round-trip", format!("instruction {n} came back as {d:?}")); }
                for (x, y) in d.metas.iter().zip(&ix.accounts) {
                    // a requested privilege is there, unless the wallet program itself grants it
                    if (y.is_writable && !x.2) || (y.is_signer && !x.1 && !mine(&x.0) && !before.iter().any(|b| b.0 == x.0)) { return fail("lost-privilege", format!("instruction {n}: {x:?} asked for {y:?}")); }
                }
            }
        }
        _ => {}
    }
}
fn key_of(i: usize) -> Key { key(i) }

pub fn p23(ck: &Ck) {
    // all lists over a small alphabet with all flag combinations
    let flags = [(false, false), (false, true), (true, false), (true, true)];
    let refs: Vec<(usize, bool, bool)> = (0..4).flat_map(|k| flags.iter().map(move |(s, w)| (k, *s, *w))).collect();
    let mut accs: Vec<Vec<(usize, bool, bool)>> = vec![vec![]];
    let mut last = accs.clone();
    for _ in 0..2 { let mut nx = vec![]; for l in &last { for r in &refs { let mut l = l.clone(); l.push(*r); nx.push(l); } } accs.extend(nx.iter().cloned()); last = nx; }
    let inits: Vec<Vec<(usize, bool, bool)>> = vec![vec![], vec![(0, false, true)], vec![(0, false, false), (1, false, true)], vec![(2, true, true), (0, false, false)], vec![(2, false, false), (3, false, true), (1, false, false)]];
    let mut cases: Vec<(bool, usize, Vec<In>)> = vec![];
    for sub in [false, true] { for i in 0..inits.len() {
        cases.push((sub, i, vec![]));
        for p in [2usize, 4] { for a in &accs { cases.push((sub, i, vec![(p, a.clone(), 3)])); } }
        // every two-instruction list with up to 2 + 1 accounts
        for a in &accs { for b in accs.iter().filter(|b| b.len() <= if ck.thorough { 2 } else { 1 }) { cases.push((sub, i, vec![(4, a.clone(), 0), (5, b.clone(), 2)])); } }
        // and three with at most one account each
        for a in accs.iter().filter(|a| a.len() <= 1) { for b in accs.iter().filter(|a| a.len() <= 1) { for c in accs.iter().filter(|a| a.len() <= 1) { cases.push((sub, i, vec![(4, a.clone(), 1), (3, b.clone(), 2), (4, c.clone(), 0)])); } } }
    } }
    ck.each("lists", &cases, |ck, (sub, i, l)| { ck.see(&(sub, i, l)); one(ck, *sub, &inits[*i], l, "list"); });
    // lengths
    let mut cases: Vec<(bool, Vec<In>)> = vec![];
    for sub in [false, true] {
        for d in [0usize, 1, 2, 127, 128, 254, 255, 256, 257, 511, 512, 4096, 32767, 32768, 65534, 65535] { cases.push((sub, vec![(4, vec![(2, true, true)], d)])); cases.push((sub, vec![(4, vec![], 7), (5, vec![(0, true, true)], d), (4, vec![(3, false, true)], 1)])); }
        for n in [0usize, 1, 2, 3, 63, 64, 100, 127, 128, 129, 200, 250, 251, 252, 253] { cases.push((sub, vec![(4, (0..n).map(|i| (10 + i, i % 2 == 0, i % 3 == 0)).collect(), 2)])); cases.push((sub, vec![(4, (0..n).map(|i| (10 + i % 3, i % 2 == 0, i % 3 == 0)).collect(), 2)])); }
        cases.push((sub, vec![(4, vec![(2, false, false); 254], 2)]));
        for n in [1usize, 2, 16, 100, 127, 128, 200, 250] { cases.push((sub, (0..n).map(|i| (4, vec![(i % 3, i % 5 == 0, i % 7 == 0)], i % 4)).collect())); }
    }
    ck.each("lengths", &cases, |ck, (sub, l)| { ck.see(&(sub, l)); one(ck, *sub, &[(0, false, true)], l, "lengths"); });

    // the reader on arbitrary bytes
    let accts: Vec<(Key, bool, bool)> = vec![(SWG, false, true), (SUBA, false, false), (key(2), true, true), (key(3), true, false), (key(4), false, true), (SWG, true, false)];
    let seeds: Vec<Vec<u8>> = vec![
        vec![0], vec![1, 4, 0, 0, 0], vec![1, 4, 2, 0, 1, 3, 0, 9, 9, 9], vec![2, 4, 1, 2, 0, 0, 4, 3, 0, 3, 5, 1, 0, 7],
        vec![3, 4, 0, 1, 0, 1, 3, 1, 0, 0, 0, 2, 2, 1, 1, 2, 0, 5, 6], vec![1, 5, 4, 0, 0, 2, 2, 4, 0, 1, 2, 3, 4],
    ];
    let mut cases: Vec<Vec<u8>> = vec![vec![]];
    for s in &seeds {
        for n in 0..=s.len() { cases.push(s[..n].to_vec()); }
        for at in 0..s.len() {
            for v in 0..=255u8 { let mut q = s.clone(); q[at] = v; cases.push(q); }
            let mut q = s.clone(); q.remove(at); cases.push(q);
            let mut q = s.clone(); q.insert(at, s[at]); cases.push(q);
        }
        let vals: &[u8] = if ck.thorough { &[0, 1, 2, 3, 4, 5, 6, 7, 253, 254, 255] } else { &[0, 1, 5, 6, 255] };
        for a in 0..s.len() { for b in a + 1..s.len() { for x in vals { for y in vals { let mut q = s.clone(); q[a] = *x; q[b] = *y; cases.push(q); } } } }
    }
    // every byte string of a length over a small alphabet
    let alpha = [0u8, 1, 2, 5, 6, 255];
    let max = if ck.thorough { 8 } else { 6 };
    for n in 1..=max { for mut i in 0..alpha.len().pow(n) { let mut q = vec![]; for _ in 0..n { q.push(alpha[i % alpha.len()]); i /= alpha.len(); } cases.push(q); } }
    // many accounts and long data
    for n in [253usize, 254, 255] { let mut q = vec![1, 4, n as u8]; q.extend(vec![2u8; n]); q.extend([0, 0]); cases.push(q.clone()); q.pop(); cases.push(q); }
    for n in [255usize, 256, 65534, 65535] { let mut q = vec![1, 4, 0]; q.extend((n as u16).to_le_bytes()); q.extend(vec![7; n]); cases.push(q.clone()); q.pop(); cases.push(q); }
    ck.each("bytes", &cases, |ck, b| {
        ck.see(b);
        // exact-size allocation: a read past the end is caught by the guard bytes below
        let inf = infos(&accts);
        ck.trans(15);
        for (me, rs) in [(SWG, vec![]), (SUBA, vec![]), (SWG, vec![SWG]), (SWG, vec![key(2), key(3)]), (key(3), vec![key(2), SWG])] {
            let want = model(b, &accts, &me, &rs);
            // the same bytes followed by different surroundings must read the same
            let mut got = vec![];
            for pad in [0u8, 1, 0xFF] {
                let mut v = b.clone();
                v.extend([pad; 300]);
                match catch_unwind(AssertUnwindSafe(|| real(&v[..b.len()], &inf, &me, &rs))) {
                    Ok(r) => got.push(r),
                    Err(_) => return ck.fail("reader-panic", format!("reading {b:?} panics"), vec![], None),
                }
            }
            for g in &got {
                if *g != want { ck.fail("reader", format!("reading {:?} with signer {me:?} restricted {rs:?}: {g:?}, expected {want:?}", &b[..b.len().min(40)]), vec![], None); return; }
            }
        }
    });
    end_to_end(ck);
    ck.assume("lists with more than 255 accounts in total, more than 254 accounts in one instruction, or more than 65535 bytes of data do not fit the form and are not encoded");
}

/// Lists encoded by the client function and executed by the program.
fn end_to_end(ck: &Ck) {
    use crate::p_sign::{base, OWNER, R, R2};
    use crate::sw::*;
    use crate::vm::{exec, m, mw, CpiRec, Meta, SYSTEM};
    let wl = Wl::new(7);
    let mut w = base();
    wl.install(&mut w, &[(OWNER, vec![a_all()])], crate::vm::rent(0) + 1_000_000);
    let (st, sk) = (wl.sub1(0), PAYER);
    let _ = st;
    let keys = [wl.wallet, sk, DEST, wl.swig];
    let flags = [(false, false), (false, true), (true, false), (true, true)];
    let refs: Vec<(usize, bool, bool)> = (0..4).flat_map(|k| flags.iter().map(move |(s, w)| (k, *s, *w))).filter(|(k, s, _)| !*s || *k < 2).collect();
    let mut lists: Vec<Vec<(usize, bool, bool)>> = vec![vec![]];
    for a in &refs { lists.push(vec![*a]); for b in &refs { lists.push(vec![*a, *b]); } }
    let mut cases = vec![];
    for a in &lists { for b in lists.iter().filter(|b| ck.thorough || b.len() <= 1) { cases.push((a.clone(), b.clone())); } }
    ck.each("end-to-end", &cases, |ck, (a, b)| {
        let ixs: Vec<Instruction> = [(R, a), (R2, b)].iter().enumerate().map(|(n, (p, l))| Instruction { program_id: pk(p), accounts: l.iter().map(|(k, s, w)| AccountMeta { pubkey: pk(&keys[*k]), is_signer: *s, is_writable: *w }).collect(), data: data(n + 2, n) }).collect();
        let start = vec![AccountMeta::new(pk(&wl.swig), false), AccountMeta::new(pk(&wl.wallet), false), AccountMeta::new_readonly(pk(&SYSTEM), false)];
        let (metas, c) = compact_instructions(pk(&wl.swig), start, ixs.clone());
        let metas: Vec<Meta> = tup(&metas).into_iter().map(|(key, signer, writable)| Meta { key, signer, writable }).collect();
        let tx = c_sign_raw(metas, 0, &c.into_bytes()).go(&w, &wl, 0, &By::Main(OWNER));
        let _ = (m(SYSTEM), mw(SYSTEM));
        match exec(&w, &tx) {
            Err(e) => ck.fail("end-to-end-refused", format!("{a:?} {b:?}: a list encoded by the client library is refused: {e:?}"), vec![], Some((w.clone(), tx))),
            Ok(d) => {
                let got: Vec<&CpiRec> = d.cpis.iter().filter(|c| c.depth == 1).collect();
                let ok = got.len() == ixs.len() && got.iter().zip(&ixs).all(|(g, x)| g.prog == x.program_id.to_bytes() && g.data == x.data && g.metas.len() == x.accounts.len()
                    && g.metas.iter().zip(&x.accounts).all(|(p, q)| p.key == q.pubkey.to_bytes() && (p.signer || !q.is_signer) && (p.writable || !q.is_writable)));
                if !ok { ck.fail("end-to-end", format!("{a:?} {b:?}: executed {got:?}"), vec![], Some((w.clone(), tx))); }
            }
        }
    });
}
