//! An in-process Solana runtime: enough of the SVM to execute whole
//! transactions against the real Swig program (compiled for the host with the
//! on-chain configuration) and to enforce the rules the program relies on:
//! privilege escalation, PDA signing, account ownership, lamport conservation,
//! re-entrancy, rent-state transitions and transaction atomicity.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::Arc;

pub type Key = [u8; 32];

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Acct {
    pub lamports: u64,
    pub owner: Key,
    pub exec: bool,
    pub data: Vec<u8>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct World {
    pub accts: BTreeMap<Key, Arc<Acct>>,
    pub slot: u64,
}

impl World {
    pub fn get(&self, k: &Key) -> Option<&Acct> { self.accts.get(k).map(|a| &**a) }
    pub fn lam(&self, k: &Key) -> u64 { self.get(k).map_or(0, |a| a.lamports) }
    pub fn data(&self, k: &Key) -> &[u8] { self.get(k).map_or(&[], |a| &a.data) }
    pub fn owner(&self, k: &Key) -> Key { self.get(k).map_or(SYSTEM, |a| a.owner) }
    pub fn put(&mut self, k: Key, a: Acct) { self.accts.insert(k, Arc::new(a)); }
    pub fn fund(&mut self, k: Key, lamports: u64) {
        let mut a = self.get(&k).cloned().unwrap_or_default();
        a.lamports = lamports;
        self.put(k, a);
    }
    pub fn edit(&mut self, k: &Key, f: impl FnOnce(&mut Acct)) {
        let mut a = self.get(k).cloned().unwrap_or_default();
        f(&mut a);
        self.put(*k, a);
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Meta { pub key: Key, pub signer: bool, pub writable: bool }
pub fn m(key: Key) -> Meta { Meta { key, signer: false, writable: false } }
pub fn mw(key: Key) -> Meta { Meta { key, signer: false, writable: true } }
pub fn ms(key: Key) -> Meta { Meta { key, signer: true, writable: false } }
pub fn msw(key: Key) -> Meta { Meta { key, signer: true, writable: true } }

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Ix { pub prog: Key, pub metas: Vec<Meta>, pub data: Vec<u8> }

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum E {
    /// ProgramError returned by a program, in its u64 encoding
    Prog(u64),
    /// runtime rule violated
    Rt(&'static str),
    /// the program panicked (aborts the transaction on chain)
    Panic(String),
}
impl E {
    pub fn custom(&self) -> Option<u32> {
        match self { E::Prog(v) if *v < (1 << 32) && *v != 0 => Some(*v as u32), _ => None }
    }
}

#[derive(Clone, Debug)]
pub struct TxErr { pub ix: usize, pub e: E }

/// One cross-program invocation as the callee saw it.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct CpiRec { pub depth: usize, pub caller: Key, pub prog: Key, pub metas: Vec<Meta>, pub data: Vec<u8> }

pub struct Done { pub world: World, pub cpis: Vec<CpiRec> }

// ------------------------------------------------------------------ ids
pub const fn b58(s: &str) -> Key {
    let s = s.as_bytes();
    let mut out = [0u8; 32];
    let mut i = 0;
    while i < s.len() {
        let c = s[i];
        let alpha = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
        let mut v = 0usize;
        while alpha[v] != c { v += 1; }
        let mut carry = v as u32;
        let mut j = 32;
        while j > 0 {
            j -= 1;
            carry += out[j] as u32 * 58;
            out[j] = carry as u8;
            carry >>= 8;
        }
        i += 1;
    }
    out
}
pub const SYSTEM: Key = [0; 32];
pub const SWIG: Key = b58("swigypWHEksbC64pWKwah1WTeh9JXwx8H1rJHLdbQMB");
pub const TOKEN: Key = b58("TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA");
pub const TOKEN22: Key = b58("TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb");
pub const STAKE: Key = b58("Stake11111111111111111111111111111111111111");
pub const R1PROG: Key = b58("Secp256r1SigVerify1111111111111111111111111");
pub const IXS: Key = b58("Sysvar1nstructions1111111111111111111111111");
pub const SYSVAR_OWNER: Key = b58("Sysvar1111111111111111111111111111111111111");
pub const NATIVE_LOADER: Key = b58("NativeLoader1111111111111111111111111111111");
pub const BPF_LOADER: Key = b58("BPFLoaderUpgradeab1e11111111111111111111111");
/// Scripted programs: behave arbitrarily, as told by their instruction data.
pub const fn script_id(n: u8) -> Key {
    let mut k = [0x5c; 32];
    k[0] = b'S';
    k[31] = n;
    k
}
pub fn is_script(k: &Key) -> bool { k[0] == b'S' && k[1..31].iter().all(|b| *b == 0x5c) }

pub fn default_acct(k: &Key) -> Acct {
    if *k == SYSTEM || *k == STAKE || *k == R1PROG {
        return Acct { lamports: 1, owner: NATIVE_LOADER, exec: true, data: vec![] };
    }
    if *k == SWIG || *k == TOKEN || *k == TOKEN22 || is_script(k) {
        return Acct { lamports: 1_000_000_000, owner: BPF_LOADER, exec: true, data: vec![] };
    }
    if *k == IXS {
        return Acct { lamports: 0, owner: SYSVAR_OWNER, exec: false, data: vec![] };
    }
    Acct::default()
}
fn is_virtual(k: &Key) -> bool {
    *k == SYSTEM || *k == STAKE || *k == R1PROG || *k == SWIG || *k == TOKEN || *k == TOKEN22 || *k == IXS || is_script(k)
}

pub fn rent(len: usize) -> u64 { (128 + len as u64) * 3480 * 2 }

// ------------------------------------------------------------------ hashing and addresses
pub fn sha256(parts: &[&[u8]]) -> Key {
    use sha2::Digest;
    let mut h = sha2::Sha256::new();
    for p in parts { h.update(p); }
    h.finalize().into()
}
pub fn keccak256(parts: &[&[u8]]) -> Key {
    let mut st = [0u64; 25];
    let mut buf = [0u8; 136];
    let mut n = 0;
    let absorb = |st: &mut [u64; 25], buf: &[u8; 136]| {
        for i in 0..17 { st[i] ^= u64::from_le_bytes(buf[i * 8..i * 8 + 8].try_into().unwrap()); }
        keccak::f1600(st);
    };
    for p in parts {
        for b in p.iter() {
            buf[n] = *b;
            n += 1;
            if n == 136 { absorb(&mut st, &buf); n = 0; }
        }
    }
    for b in buf[n..].iter_mut() { *b = 0; }
    buf[n] ^= 1;
    buf[135] ^= 0x80;
    absorb(&mut st, &buf);
    let mut o = [0; 32];
    for i in 0..4 { o[i * 8..i * 8 + 8].copy_from_slice(&st[i].to_le_bytes()); }
    o
}
pub fn on_curve(k: &Key) -> bool {
    curve25519_dalek::edwards::CompressedEdwardsY(*k).decompress().is_some()
}
thread_local! {
    static PDA_MEMO: RefCell<HashMap<Vec<u8>, Option<Key>>> = RefCell::new(HashMap::new());
    static FIND_MEMO: RefCell<HashMap<Vec<u8>, Option<(Key, u8)>>> = RefCell::new(HashMap::new());
}
fn seed_key(seeds: &[&[u8]], prog: &Key) -> Vec<u8> {
    let mut k = Vec::with_capacity(160);
    for s in seeds { k.push(s.len() as u8); k.extend_from_slice(s); }
    k.push(0xff);
    k.extend_from_slice(prog);
    k
}
pub fn create_pda(seeds: &[&[u8]], prog: &Key) -> Option<Key> {
    if seeds.len() > 16 || seeds.iter().any(|s| s.len() > 32) { return None; }
    let mk = seed_key(seeds, prog);
    if let Some(r) = PDA_MEMO.with(|m| m.borrow().get(&mk).copied()) { return r; }
    let mut parts: Vec<&[u8]> = seeds.to_vec();
    parts.push(prog);
    parts.push(b"ProgramDerivedAddress");
    let h = sha256(&parts);
    let r = if on_curve(&h) { None } else { Some(h) };
    PDA_MEMO.with(|m| { m.borrow_mut().insert(mk, r); });
    r
}
pub fn find_pda(seeds: &[&[u8]], prog: &Key) -> Option<(Key, u8)> {
    if seeds.len() > 15 || seeds.iter().any(|s| s.len() > 32) { return None; }
    let mk = seed_key(seeds, prog);
    if let Some(r) = FIND_MEMO.with(|m| m.borrow().get(&mk).copied()) { return r; }
    let mut r = None;
    for b in (1..=255u8).rev() {
        let bs = [b];
        let mut s = seeds.to_vec();
        s.push(&bs);
        if let Some(k) = create_pda(&s, prog) { r = Some((k, b)); break; }
    }
    FIND_MEMO.with(|m| { m.borrow_mut().insert(mk, r); });
    r
}

// ------------------------------------------------------------------ runtime state
#[derive(Clone, Copy, Debug)]
pub struct Ia { pub t: usize, pub signer: bool, pub writable: bool }

struct TxA { key: Key, a: Acct, writable: bool, pre: Option<Arc<Acct>> }
struct Frame { prog: Key, ia: Vec<Ia> }

pub struct Rt {
    accts: Vec<TxA>,
    frames: Vec<Frame>,
    delta: i128,
    slot: u64,
    cpis: Vec<CpiRec>,
    all_data: Vec<Vec<u8>>,
    pub log: bool,
}
thread_local! {
    static RT: Cell<*mut Rt> = const { Cell::new(std::ptr::null_mut()) };
    static BUFS: RefCell<Vec<Vec<u64>>> = RefCell::new(Vec::new());
    pub static LOG: Cell<bool> = const { Cell::new(false) };
    pub static TX_COUNT: Cell<u64> = const { Cell::new(0) };
    /// transactions that went through
    pub static TX_OK: Cell<u64> = const { Cell::new(0) };
    /// with MC_WHY: how often each error came out
    pub static TX_WHY: std::cell::RefCell<std::collections::BTreeMap<String, u64>> = const { std::cell::RefCell::new(std::collections::BTreeMap::new()) };
    pub static LAST_LOG: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}
fn rt() -> &'static mut Rt { unsafe { &mut *RT.with(|r| r.get()) } }

struct Abort(E);

type R<T> = Result<T, E>;

impl Rt {
    fn prog(&self) -> Key { self.frames.last().unwrap().prog }
    pub fn acct(&self, i: Ia) -> &Acct { &self.accts[i.t].a }
    pub fn key(&self, i: Ia) -> Key { self.accts[i.t].key }
    pub fn set_lamports(&mut self, i: Ia, v: u64) -> R<()> {
        let p = self.prog();
        let a = &mut self.accts[i.t].a;
        if a.lamports == v { return Ok(()); }
        if a.owner != p && v < a.lamports { return Err(E::Rt("ExternalAccountLamportSpend")); }
        if !i.writable { return Err(E::Rt("ReadonlyLamportChange")); }
        self.delta += v as i128 - a.lamports as i128;
        a.lamports = v;
        Ok(())
    }
    pub fn set_data(&mut self, i: Ia, d: &[u8]) -> R<()> {
        let p = self.prog();
        let a = &mut self.accts[i.t].a;
        if a.data == d { return Ok(()); }
        if d.len() != a.data.len() && a.owner != p { return Err(E::Rt("AccountDataSizeChanged")); }
        if !i.writable { return Err(E::Rt("ReadonlyDataModified")); }
        if a.owner != p { return Err(E::Rt("ExternalAccountDataModified")); }
        if d.len() > 10 * 1024 * 1024 { return Err(E::Rt("InvalidRealloc")); }
        a.data.clear();
        a.data.extend_from_slice(d);
        Ok(())
    }
    pub fn set_owner(&mut self, i: Ia, o: &Key) -> R<()> {
        let p = self.prog();
        let a = &mut self.accts[i.t].a;
        if a.owner == *o { return Ok(()); }
        if a.owner != p || !i.writable || a.data.iter().any(|b| *b != 0) { return Err(E::Rt("ModifiedProgramId")); }
        a.owner = *o;
        Ok(())
    }

    /// Runs one instruction (top level or CPI) against the transaction state.
    fn process(&mut self, prog: Key, ia: Vec<Ia>, data: &[u8]) -> R<()> {
        if let Some(last) = self.frames.last() {
            if last.prog != prog && self.frames.iter().any(|f| f.prog == prog) {
                return Err(E::Rt("ReentrancyNotAllowed"));
            }
            if self.delta != 0 { return Err(E::Rt("UnbalancedInstruction")); }
        }
        if self.frames.len() >= 5 { return Err(E::Rt("CallDepth")); }
        self.frames.push(Frame { prog, ia: ia.clone() });
        let r = if prog == SWIG { self.run_swig(&ia, data) }
            else if prog == SYSTEM { crate::progs::system(self, &ia, data) }
            else if prog == TOKEN || prog == TOKEN22 { crate::progs::token(self, &ia, data) }
            else if prog == R1PROG { crate::progs::secp256r1(&self.all_data, data) }
            else if prog == STAKE || is_script(&prog) { crate::progs::script(self, &ia, data) }
            else if self.accts.iter().any(|a| a.key == prog && a.a.exec && a.a.owner == BPF_LOADER) { crate::progs::script(self, &ia, data) }
            else { Err(E::Rt("UnsupportedProgramId")) };
        self.frames.pop();
        r?;
        if self.delta != 0 { return Err(E::Rt("UnbalancedInstruction")); }
        Ok(())
    }

    fn run_swig(&mut self, ia: &[Ia], data: &[u8]) -> R<()> {
        if ia.len() > 255 { return Err(E::Rt("MaxAccountsExceeded")); }
        // layout: u64 n, per account {dup marker | header + data + 10240 + align + rent epoch}, data len, data, program id
        let mut size = 8;
        for (n, i) in ia.iter().enumerate() {
            if ia[..n].iter().any(|j| j.t == i.t) { size += 8; continue; }
            let l = self.accts[i.t].a.data.len();
            size += 88 + ((l + 10240 + 7) & !7) + 8;
        }
        size += 8 + data.len() + 32;
        let words = size.div_ceil(8) + 16;
        let mut buf = BUFS.with(|b| b.borrow_mut().pop()).unwrap_or_default();
        if buf.len() < words { buf.resize(words, 0); }
        let base = buf.as_mut_ptr() as *mut u8;
        let mut off = 8usize;
        let mut pos: Vec<usize> = Vec::with_capacity(ia.len());
        unsafe {
            *(base as *mut u64) = ia.len() as u64;
            for (n, i) in ia.iter().enumerate() {
                if let Some(d) = ia[..n].iter().position(|j| j.t == i.t) {
                    *(base.add(off) as *mut u64) = d as u64;
                    pos.push(usize::MAX);
                    off += 8;
                    continue;
                }
                pos.push(off);
                let a = &self.accts[i.t];
                let p = base.add(off);
                *p = 0xff;
                *p.add(1) = i.signer as u8;
                *p.add(2) = i.writable as u8;
                *p.add(3) = a.a.exec as u8;
                *(p.add(4) as *mut u32) = 0;
                std::ptr::copy_nonoverlapping(a.key.as_ptr(), p.add(8), 32);
                std::ptr::copy_nonoverlapping(a.a.owner.as_ptr(), p.add(40), 32);
                *(p.add(72) as *mut u64) = a.a.lamports;
                let l = a.a.data.len();
                *(p.add(80) as *mut u64) = l as u64;
                std::ptr::copy_nonoverlapping(a.a.data.as_ptr(), p.add(88), l);
                let padded = (l + 10240 + 7) & !7;
                std::ptr::write_bytes(p.add(88 + l), 0, padded - l);
                *(p.add(88 + padded) as *mut u64) = u64::MAX;
                off += 88 + padded + 8;
            }
            *(base.add(off) as *mut u64) = data.len() as u64;
            std::ptr::copy_nonoverlapping(data.as_ptr(), base.add(off + 8), data.len());
            std::ptr::copy_nonoverlapping(SWIG.as_ptr(), base.add(off + 8 + data.len()), 32);
        }
        let r = catch_unwind(AssertUnwindSafe(|| unsafe {
            swig::process_instruction(pinocchio::entrypoint::InstructionContext::new_unchecked(base))
        }));
        let r = match r {
            Ok(Ok(())) => (|| {
                for (n, i) in ia.iter().enumerate() {
                    if pos[n] == usize::MAX { continue; }
                    unsafe {
                        let p = base.add(pos[n]);
                        let lam = *(p.add(72) as *const u64);
                        let len = *(p.add(80) as *const u64) as usize;
                        let pre = self.accts[i.t].a.data.len();
                        if len > pre + 10240 || len > 10 * 1024 * 1024 { return Err(E::Rt("InvalidRealloc")); }
                        let owner: Key = *(p.add(40) as *const Key);
                        self.set_lamports(*i, lam)?;
                        self.set_data(*i, std::slice::from_raw_parts(p.add(88), len))?;
                        self.set_owner(*i, &owner)?;
                    }
                }
                Ok(())
            })(),
            Ok(Err(e)) => Err(E::Prog(u64::from(e))),
            Err(p) => match p.downcast::<Abort>() {
                Ok(a) => Err(a.0),
                Err(p) => {
                    let s = p.downcast_ref::<String>().cloned()
                        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    Err(E::Panic(s))
                }
            },
        };
        BUFS.with(|b| b.borrow_mut().push(buf));
        r
    }

    /// CPI issued by a builtin/scripted program.
    pub fn invoke(&mut self, prog: Key, metas: &[Meta], data: &[u8]) -> R<()> {
        self.invoke_checked(prog, metas, data, &[])
    }
    fn invoke_checked(&mut self, prog: Key, metas: &[Meta], data: &[u8], pdas: &[Key]) -> R<()> {
        let caller = self.frames.last().unwrap();
        let mut ia: Vec<Ia> = Vec::with_capacity(metas.len());
        for mt in metas {
            let Some(t) = self.accts.iter().position(|a| a.key == mt.key) else { return Err(E::Rt("MissingAccount")) };
            let Some(c) = caller.ia.iter().find(|i| i.t == t) else { return Err(E::Rt("MissingAccount")) };
            // privileges of duplicates are merged
            let signer = metas.iter().any(|x| x.key == mt.key && x.signer);
            let writable = metas.iter().any(|x| x.key == mt.key && x.writable);
            if writable && !c.writable { return Err(E::Rt("PrivilegeEscalation(writable)")); }
            if signer && !c.signer && !pdas.contains(&mt.key) { return Err(E::Rt("PrivilegeEscalation(signer)")); }
            ia.push(Ia { t, signer, writable });
        }
        match self.accts.iter().find(|a| a.key == prog) {
            Some(a) if a.a.exec => {}
            Some(_) => return Err(E::Rt("AccountNotExecutable")),
            None => return Err(E::Rt("MissingAccount(program)")),
        }
        let caller = caller.prog;
        self.cpis.push(CpiRec {
            depth: self.frames.len(),
            caller,
            prog,
            metas: ia.iter().map(|i| Meta { key: self.accts[i.t].key, signer: i.signer, writable: i.writable }).collect(),
            data: data.to_vec(),
        });
        self.process(prog, ia, data)
    }
}

// ------------------------------------------------------------------ transactions
pub fn exec(w: &World, ixs: &[Ix]) -> Result<Done, TxErr> { exec_inner(w, ixs, None) }
/// The state after each instruction (the last one is the final state).
pub fn exec_steps(w: &World, ixs: &[Ix]) -> Result<Vec<World>, TxErr> {
    let mut v = vec![];
    let d = exec_inner(w, ixs, Some(&mut v))?;
    v.pop();
    v.push(d.world);
    Ok(v)
}
fn fold(w: &World, accts: &[TxA]) -> World {
    let mut world = w.clone();
    for a in accts {
        if is_virtual(&a.key) { continue; }
        if a.a.lamports == 0 && a.a.data.is_empty() && a.pre.is_none() { continue; }
        match &a.pre {
            Some(p) if **p == a.a => {}
            _ => { world.accts.insert(a.key, Arc::new(a.a.clone())); }
        }
    }
    world
}
fn exec_inner(w: &World, ixs: &[Ix], steps: Option<&mut Vec<World>>) -> Result<Done, TxErr> {
    static WHY: std::sync::LazyLock<bool> = std::sync::LazyLock::new(|| std::env::var("MC_WHY").is_ok());
    let r = exec_raw(w, ixs, steps);
    match &r {
        Ok(_) => TX_OK.with(|c| c.set(c.get() + 1)),
        Err(e) if *WHY => TX_WHY.with(|c| *c.borrow_mut().entry(format!("{:?}", e.e)).or_insert(0) += 1),
        _ => {}
    }
    r
}
fn exec_raw(w: &World, ixs: &[Ix], mut steps: Option<&mut Vec<World>>) -> Result<Done, TxErr> {
    TX_COUNT.with(|c| c.set(c.get() + 1));
    let mut keys: Vec<(Key, bool, bool)> = vec![];
    fn add(keys: &mut Vec<(Key, bool, bool)>, k: &Key, s: bool, wr: bool) {
        match keys.iter_mut().find(|x| x.0 == *k) {
            Some(x) => { x.1 |= s; x.2 |= wr; }
            None => keys.push((*k, s, wr)),
        }
    }
    for ix in ixs {
        for mt in &ix.metas { add(&mut keys, &mt.key, mt.signer, mt.writable); }
        add(&mut keys, &ix.prog, false, false);
    }
    // programs and sysvars are never writable
    for k in keys.iter_mut() { if is_virtual(&k.0) { k.2 = false; } }
    let accts = keys.iter().map(|(k, _, wr)| {
        let pre = w.accts.get(k).cloned();
        TxA { key: *k, a: pre.as_ref().map(|a| (**a).clone()).unwrap_or_else(|| default_acct(k)), writable: *wr, pre }
    }).collect();
    let mut r = Rt {
        accts, frames: vec![], delta: 0, slot: w.slot, cpis: vec![],
        all_data: ixs.iter().map(|i| i.data.clone()).collect(), log: LOG.with(|l| l.get()),
    };
    if r.log { LAST_LOG.with(|l| l.borrow_mut().clear()); }
    let ixs_pos = r.accts.iter().position(|a| a.key == IXS);
    if let Some(p) = ixs_pos { r.accts[p].a.data = serialize_ixs(ixs, &keys); }
    let prev = RT.with(|c| c.replace(&mut r));
    let mut res = Ok(());
    for (n, ix) in ixs.iter().enumerate() {
        if let Some(p) = ixs_pos {
            let d = &mut r.accts[p].a.data;
            let l = d.len();
            d[l - 2..].copy_from_slice(&(n as u16).to_le_bytes());
        }
        let ia = ix.metas.iter().map(|mt| {
            let t = keys.iter().position(|k| k.0 == mt.key).unwrap();
            Ia { t, signer: keys[t].1, writable: keys[t].2 }
        }).collect();
        if let Err(e) = r.process(ix.prog, ia, &ix.data) { res = Err(TxErr { ix: n, e }); break; }
        if let Some(s) = steps.as_deref_mut() { s.push(fold(w, &r.accts)); }
    }
    RT.with(|c| c.set(prev));
    res?;
    // rent-state transitions
    let n = ixs.len();
    for a in &r.accts {
        if !a.writable { continue; }
        if a.a.lamports == 0 || a.a.lamports >= rent(a.a.data.len()) { continue; }
        let ok = match &a.pre {
            Some(p) => p.lamports > 0 && p.lamports < rent(p.data.len())
                && p.data.len() == a.a.data.len() && a.a.lamports <= p.lamports,
            None => false,
        };
        if !ok { return Err(TxErr { ix: n, e: E::Rt("InsufficientFundsForRent") }); }
    }
    let mut world = w.clone();
    for a in r.accts {
        if is_virtual(&a.key) { continue; }
        if a.a.lamports == 0 { world.accts.remove(&a.key); continue; }
        match &a.pre {
            Some(p) if **p == a.a => {}
            _ => { world.accts.insert(a.key, Arc::new(a.a)); }
        }
    }
    Ok(Done { world, cpis: r.cpis })
}

fn serialize_ixs(ixs: &[Ix], keys: &[(Key, bool, bool)]) -> Vec<u8> {
    let mut d = vec![];
    d.extend_from_slice(&(ixs.len() as u16).to_le_bytes());
    for _ in ixs { d.extend_from_slice(&[0; 2]); }
    for (n, ix) in ixs.iter().enumerate() {
        let start = d.len() as u16;
        d[2 + 2 * n..4 + 2 * n].copy_from_slice(&start.to_le_bytes());
        d.extend_from_slice(&(ix.metas.len() as u16).to_le_bytes());
        for mt in &ix.metas {
            let k = keys.iter().find(|k| k.0 == mt.key).unwrap();
            d.push(k.1 as u8 | (k.2 as u8) << 1);
            d.extend_from_slice(&mt.key);
        }
        d.extend_from_slice(&ix.prog);
        d.extend_from_slice(&(ix.data.len() as u16).to_le_bytes());
        d.extend_from_slice(&ix.data);
    }
    d.extend_from_slice(&[0; 2]);
    d
}

// ------------------------------------------------------------------ syscalls
#[repr(C)]
struct CIx { prog: *const Key, accts: *const CMeta, naccts: u64, data: *const u8, ndata: u64 }
#[repr(C)]
struct CMeta { key: *const Key, writable: u8, signer: u8 }
#[repr(C)]
struct CInfo { key: *const Key, lamports: *mut u64, data_len: u64, data: *mut u8, owner: *mut Key, rent_epoch: u64, signer: u8, writable: u8, exec: u8 }
#[repr(C)]
struct CSlice { p: *const u8, n: u64 }

unsafe fn slices<'a>(p: *const u8, n: u64) -> Vec<&'a [u8]> {
    std::slice::from_raw_parts(p as *const CSlice, n as usize).iter()
        .map(|s| if s.n == 0 { &[][..] } else { std::slice::from_raw_parts(s.p, s.n as usize) }).collect()
}
fn abort_with(e: E) -> ! { resume_unwind(Box::new(Abort(e))) }

unsafe fn cpi(ix: *const u8, infos: *const u8, ninfos: u64, seeds: *const u8, nseeds: u64) -> R<()> {
    let r = rt();
    let ix = &*(ix as *const CIx);
    let prog = *ix.prog;
    let cms: &[CMeta] = if ix.naccts == 0 { &[] } else { std::slice::from_raw_parts(ix.accts, ix.naccts as usize) };
    let data: Vec<u8> = if ix.ndata == 0 { vec![] } else { std::slice::from_raw_parts(ix.data, ix.ndata as usize).to_vec() };
    let metas: Vec<Meta> = cms.iter().map(|c| Meta { key: *c.key, signer: c.signer != 0, writable: c.writable != 0 }).collect();
    let infos: &[CInfo] = if ninfos == 0 { &[] } else { std::slice::from_raw_parts(infos as *const CInfo, ninfos as usize) };
    let me = r.prog();
    let mut pdas = vec![];
    if nseeds > 0 {
        for s in std::slice::from_raw_parts(seeds as *const CSlice, nseeds as usize) {
            let sv = slices(s.p, s.n);
            match create_pda(&sv, &me) { Some(k) => pdas.push(k), None => return Err(E::Rt("InvalidSeeds")) }
        }
    }
    // caller -> transaction state
    let caller_ia = r.frames.last().unwrap().ia.clone();
    let mut synced: Vec<(Ia, &CInfo)> = vec![];
    for mt in &metas {
        let Some(i) = caller_ia.iter().find(|i| r.accts[i.t].key == mt.key).copied() else { return Err(E::Rt("MissingAccount")) };
        if synced.iter().any(|s| s.0.t == i.t) { continue; }
        if r.accts[i.t].a.exec { continue; }
        let Some(info) = infos.iter().find(|c| *c.key == mt.key) else { return Err(E::Rt("MissingAccount(info)")) };
        r.set_lamports(i, *info.lamports)?;
        let d = std::slice::from_raw_parts(info.data, info.data_len as usize);
        r.set_data(i, d)?;
        r.set_owner(i, &*info.owner)?;
        synced.push((i, info));
    }
    let orig: Vec<usize> = synced.iter().map(|s| r.accts[s.0.t].a.data.len()).collect();
    r.invoke_checked(prog, &metas, &data, &pdas)?;
    // transaction state -> caller
    for ((i, info), orig) in synced.iter().zip(orig) {
        if !metas.iter().any(|mt| mt.writable && mt.key == r.accts[i.t].key) { continue; }
        let a = &r.accts[i.t].a;
        *info.lamports = a.lamports;
        *info.owner = a.owner;
        if a.data.len() > orig + 10240 { return Err(E::Rt("InvalidRealloc")); }
        let lenp = info.data.sub(8) as *mut u64;
        if a.data.len() < orig { std::ptr::write_bytes(info.data.add(a.data.len()), 0, orig - a.data.len()); }
        *lenp = a.data.len() as u64;
        std::ptr::copy_nonoverlapping(a.data.as_ptr(), info.data, a.data.len());
    }
    Ok(())
}

#[no_mangle]
pub unsafe extern "C-unwind" fn sol_invoke_signed_c(ix: *const u8, infos: *const u8, ninfos: u64, seeds: *const u8, nseeds: u64) -> u64 {
    match cpi(ix, infos, ninfos, seeds, nseeds) {
        Ok(()) => 0,
        Err(e) => abort_with(e),
    }
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_log_(p: *const u8, n: u64) {
    if LOG.with(|l| l.get()) {
        let s = String::from_utf8_lossy(std::slice::from_raw_parts(p, n as usize)).into_owned();
        LAST_LOG.with(|l| l.borrow_mut().push(s));
    }
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_log_64_(_: u64, _: u64, _: u64, _: u64, _: u64) {}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_log_pubkey(_: *const u8) {}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_log_compute_units_() {}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_log_data(_: *const u8, _: u64) {}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_remaining_compute_units() -> u64 { 1_000_000 }
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_create_program_address(seeds: *const u8, n: u64, prog: *const u8, out: *mut u8) -> u64 {
    match create_pda(&slices(seeds, n), &*(prog as *const Key)) {
        Some(k) => { std::ptr::copy_nonoverlapping(k.as_ptr(), out, 32); 0 }
        None => 1,
    }
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_try_find_program_address(seeds: *const u8, n: u64, prog: *const u8, out: *mut u8, bump: *mut u8) -> u64 {
    match find_pda(&slices(seeds, n), &*(prog as *const Key)) {
        Some((k, b)) => { std::ptr::copy_nonoverlapping(k.as_ptr(), out, 32); *bump = b; 0 }
        None => 1,
    }
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_sha256(v: *const u8, n: u64, out: *mut u8) -> u64 {
    let h = sha256(&slices(v, n));
    std::ptr::copy_nonoverlapping(h.as_ptr(), out, 32);
    0
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_keccak256(v: *const u8, n: u64, out: *mut u8) -> u64 {
    let h = keccak256(&slices(v, n));
    std::ptr::copy_nonoverlapping(h.as_ptr(), out, 32);
    0
}
thread_local! { static REC_MEMO: RefCell<HashMap<(Key, u64, [u8; 64]), Option<[u8; 64]>>> = RefCell::new(HashMap::new()); }
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_secp256k1_recover(hash: *const u8, rid: u64, sig: *const u8, out: *mut u8) -> u64 {
    let k = (*(hash as *const Key), rid, *(sig as *const [u8; 64]));
    let r = REC_MEMO.with(|mm| mm.borrow().get(&k).copied());
    let r = match r {
        Some(r) => r,
        None => {
            let r = (|| {
                let msg = libsecp256k1::Message::parse(&k.0);
                let rid = libsecp256k1::RecoveryId::parse(rid as u8).ok()?;
                let s = libsecp256k1::Signature::parse_standard(&k.2).ok()?;
                let pk = libsecp256k1::recover(&msg, &s, &rid).ok()?;
                let b = pk.serialize();
                let mut o = [0; 64];
                o.copy_from_slice(&b[1..]);
                Some(o)
            })();
            REC_MEMO.with(|mm| { mm.borrow_mut().insert(k, r); });
            r
        }
    };
    match r { Some(o) => { std::ptr::copy_nonoverlapping(o.as_ptr(), out, 64); 0 } None => 1 }
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_curve_validate_point(_curve: u64, p: *const u8, _res: *mut u8) -> u64 {
    if on_curve(&*(p as *const Key)) { 0 } else { 1 }
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_get_clock_sysvar(out: *mut u8) -> u64 {
    let s = rt().slot;
    let v = [s, s, s / 432_000, s / 432_000, s];
    std::ptr::copy_nonoverlapping(v.as_ptr() as *const u8, out, 40);
    0
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_get_rent_sysvar(out: *mut u8) -> u64 {
    *(out as *mut u64) = 3480;
    *(out.add(8) as *mut f64) = 2.0;
    *out.add(16) = 50;
    0
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_get_stack_height() -> u64 { rt().frames.len() as u64 }
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_memcpy_(d: *mut u8, s: *const u8, n: u64) { std::ptr::copy_nonoverlapping(s, d, n as usize) }
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_memmove_(d: *mut u8, s: *const u8, n: u64) { std::ptr::copy(s, d, n as usize) }
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_memset_(d: *mut u8, c: u8, n: u64) { std::ptr::write_bytes(d, c, n as usize) }
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_memcmp_(a: *const u8, b: *const u8, n: u64, r: *mut i32) {
    let a = std::slice::from_raw_parts(a, n as usize);
    let b = std::slice::from_raw_parts(b, n as usize);
    *r = a.iter().zip(b).find(|(x, y)| x != y).map_or(0, |(x, y)| *x as i32 - *y as i32);
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_set_return_data(_: *const u8, _: u64) {}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_get_return_data(_: *mut u8, _: u64, _: *mut Key) -> u64 { 0 }

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("MC_PANIC").is_ok() || i.location().is_some_and(|l| !l.file().starts_with("/repo") && l.file().contains("harness")) {
            eprintln!("{i}");
        }
    }));
}
