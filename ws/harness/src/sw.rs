//! Independent description of the Swig wire formats: credentials, permission
//! records, the configuration account, instructions and authority payloads.
//! Nothing here calls the code under test.
use crate::progs::*;
use crate::vm::*;

// ------------------------------------------------------------------ little helpers
pub fn le16(d: &[u8], o: usize) -> u16 { u16::from_le_bytes(d[o..o + 2].try_into().unwrap()) }
pub fn le32(d: &[u8], o: usize) -> u32 { u32::from_le_bytes(d[o..o + 4].try_into().unwrap()) }
pub fn le64(d: &[u8], o: usize) -> u64 { u64::from_le_bytes(d[o..o + 8].try_into().unwrap()) }
pub fn put32(d: &mut [u8], o: usize, v: u32) { d[o..o + 4].copy_from_slice(&v.to_le_bytes()) }
pub fn put64(d: &mut [u8], o: usize, v: u64) { d[o..o + 8].copy_from_slice(&v.to_le_bytes()) }
/// A distinct key per small number; `c` names the family.
pub const fn nk(c: u8, n: u8) -> Key {
    let mut k = [c; 32];
    k[1] = n;
    k[30] = n;
    k
}
/// a real public key too, of this seed
pub const PAYER_SEED: Key = [0xA1; 32];
pub const PAYER: Key = [188, 124, 188, 181, 99, 99, 117, 250, 29, 130, 67, 77, 70, 103, 36, 217, 35, 119, 245, 59, 152, 6, 149, 221, 73, 210, 109, 12, 225, 34, 5, 165];
pub const DEST: Key = nk(0xA2, 1);
pub const DEST2: Key = nk(0xA2, 2);

// ------------------------------------------------------------------ credentials
pub const ED: u16 = 1;
pub const EDS: u16 = 2;
pub const K1: u16 = 3;
pub const K1S: u16 = 4;
pub const R1: u16 = 5;
pub const R1S: u16 = 6;
pub const PE: u16 = 7;
pub const PES: u16 = 8;
pub const AUTH_TYPES: [u16; 8] = [ED, EDS, K1, K1S, R1, R1S, PE, PES];

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Cred { pub t: u16, pub n: u8 }
pub fn is_session(t: u16) -> bool { matches!(t, EDS | K1S | R1S | PES) }
pub fn stored_len(t: u16) -> usize { match t { ED => 32, EDS => 80, K1 | R1 => 40, K1S | R1S => 88, PE => 80, PES => 128, _ => 0 } }

pub fn ed_seed(n: u8) -> Key { nk(0xED, n) }
/// a real public key, so that client software can sign for it
pub fn ed_key(n: u8) -> Key {
    static T: std::sync::OnceLock<Vec<Key>> = std::sync::OnceLock::new();
    T.get_or_init(|| (0..=255).map(|n| ed_public(&ed_seed(n))).collect())[n as usize]
}
pub fn ed_public(seed: &Key) -> Key {
    use sha2::Digest;
    let mut h: Key = sha2::Sha512::digest(seed)[..32].try_into().unwrap();
    h[0] &= 248; h[31] &= 127; h[31] |= 64;
    curve25519_dalek::EdwardsPoint::mul_base_clamped(h).compress().to_bytes()
}
pub fn sess_key(n: u8) -> Key { nk(0x5E, n) }
pub fn k1_secret(n: u8) -> libsecp256k1::SecretKey { libsecp256k1::SecretKey::parse(&sha256(&[b"k1", &[n]])).unwrap() }
thread_local! { static K1PK: std::cell::RefCell<std::collections::HashMap<u8, [u8; 64]>> = Default::default(); }
pub fn k1_full(n: u8) -> [u8; 64] {
    K1PK.with(|m| *m.borrow_mut().entry(n).or_insert_with(|| {
        let p = libsecp256k1::PublicKey::from_secret_key(&k1_secret(n)).serialize();
        p[1..].try_into().unwrap()
    }))
}
pub fn k1_comp(n: u8) -> [u8; 33] {
    let f = k1_full(n);
    let mut o = [0; 33];
    o[0] = 2 + (f[63] & 1);
    o[1..].copy_from_slice(&f[..32]);
    o
}
pub fn r1_pk(n: u8) -> [u8; 33] {
    let mut o = [0; 33];
    o[0] = 2 + (n & 1);
    o[1..].copy_from_slice(&sha256(&[b"r1", &[n]]));
    o
}
/// program-execution credential `n`: a scripted program and an instruction prefix
pub fn pe_prog(n: u8) -> Key { script_id(40 + n) }
pub fn pe_prefix(n: u8) -> Vec<u8> { if n >= 240 { b"rplauth1"[..(n as usize - 239).min(8)].to_vec() } else if n >= PE_PROOF { b"rplauth1".to_vec() } else { vec![0xA0 + n, 1, 2] } }
/// program-execution credentials from this number on approve credential replacements
pub const PE_PROOF: u8 = 40;
pub fn pe_state(prog: &Key, prefix: &[u8]) -> Vec<u8> {
    let mut v = prog.to_vec();
    v.push(prefix.len() as u8);
    v.extend([0; 7]);
    v.extend(prefix);
    v.resize(80, 0);
    v
}
impl Cred {
    /// default maximum session length of session credentials
    pub const MAX: u64 = 100;
    /// What a client passes to register this credential.
    pub fn create(&self) -> Vec<u8> { self.create_max(Self::MAX) }
    pub fn create_max(&self, max: u64) -> Vec<u8> {
        let n = self.n;
        let ses = |mut v: Vec<u8>| { v.extend([0u8; 32]); v.extend(max.to_le_bytes()); v };
        match self.t {
            ED => ed_key(n).to_vec(),
            EDS => ses(ed_key(n).to_vec()),
            K1 => k1_full(n).to_vec(),
            K1S => ses(k1_full(n).to_vec()),
            R1 => r1_pk(n).to_vec(),
            R1S => { let mut v = r1_pk(n).to_vec(); v.extend([0; 7]); ses(v) }
            PE => pe_state(&pe_prog(n), &pe_prefix(n)),
            PES => { let mut v = ses(pe_state(&pe_prog(n), &pe_prefix(n))); v.extend([0; 8]); v }
            _ => vec![],
        }
    }
    /// What the account must hold for it right after registration.
    pub fn stored(&self) -> Vec<u8> { self.stored_max(Self::MAX) }
    pub fn stored_max(&self, max: u64) -> Vec<u8> {
        let n = self.n;
        let ctr = |p: [u8; 33]| { let mut v = p.to_vec(); v.extend([0; 7]); v };
        let ses = |mut v: Vec<u8>| { v.extend([0u8; 32]); v.extend(max.to_le_bytes()); v.extend([0; 8]); v };
        match self.t {
            ED => ed_key(n).to_vec(),
            EDS => ses(ed_key(n).to_vec()),
            K1 => ctr(k1_comp(n)),
            K1S => ses(ctr(k1_comp(n))),
            R1 => ctr(r1_pk(n)),
            R1S => ses(ctr(r1_pk(n))),
            PE => pe_state(&pe_prog(n), &pe_prefix(n)),
            PES => ses(pe_state(&pe_prog(n), &pe_prefix(n))),
            _ => vec![],
        }
    }
    /// identity bytes clients look a role up by
    pub fn identity(&self) -> Vec<u8> {
        match self.t {
            ED | EDS => ed_key(self.n).to_vec(),
            K1 | K1S => k1_comp(self.n).to_vec(),
            R1 | R1S => r1_pk(self.n).to_vec(),
            _ => pe_state(&pe_prog(self.n), &pe_prefix(self.n)),
        }
    }
    pub fn has_counter(&self) -> bool { matches!(self.t, K1 | K1S | R1 | R1S) }
}
/// session fields of a stored session credential: (key, max, expiration) offsets
pub fn sess_off(t: u16) -> usize { stored_len(t) - 48 }

// ------------------------------------------------------------------ permission records
#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Act { pub ty: u16, pub data: Vec<u8> }
pub mod perm {
    pub const SOL: u16 = 1;
    pub const SOL_REC: u16 = 2;
    pub const PROGRAM: u16 = 3;
    pub const SCOPE: u16 = 4;
    pub const TOK: u16 = 5;
    pub const TOK_REC: u16 = 6;
    pub const ALL: u16 = 7;
    pub const MANAGE: u16 = 8;
    pub const SUB: u16 = 9;
    pub const STAKE: u16 = 10;
    pub const STAKE_REC: u16 = 11;
    pub const STAKE_ALL: u16 = 12;
    pub const PROG_ALL: u16 = 13;
    pub const CURATED: u16 = 14;
    pub const ALL_BUT: u16 = 15;
    pub const SOL_DEST: u16 = 16;
    pub const SOL_REC_DEST: u16 = 17;
    pub const TOK_DEST: u16 = 18;
    pub const TOK_REC_DEST: u16 = 19;
    pub const CLOSE: u16 = 20;
    pub const REPLACE: u16 = 21;
    pub const V2_CREATE: u16 = 22;
    pub const V2_ALL: u16 = 23;
    pub const V2_SIGN: u16 = 24;
    pub const V2_WITHDRAW: u16 = 25;
    pub const V2_TOGGLE: u16 = 26;
    /// record length of every permission type
    pub fn len(ty: u16) -> Option<usize> {
        Some(match ty {
            SOL => 8, SOL_REC => 32, PROGRAM => 32, SCOPE => 144, TOK => 40, TOK_REC => 64,
            ALL | MANAGE | STAKE_ALL | PROG_ALL | ALL_BUT | CLOSE | V2_CREATE => 0,
            SUB => 72, STAKE => 8, STAKE_REC => 32, CURATED => 32, SOL_DEST => 40,
            SOL_REC_DEST => 64, TOK_DEST => 72, TOK_REC_DEST => 96, REPLACE => 8,
            V2_ALL | V2_SIGN | V2_WITHDRAW | V2_TOGGLE => 8,
            _ => return None,
        })
    }
}
fn cat(parts: &[&[u8]]) -> Vec<u8> { parts.concat() }
fn q(v: u64) -> [u8; 8] { v.to_le_bytes() }
pub fn act(ty: u16) -> Act { Act { ty, data: vec![0; perm::len(ty).unwrap_or(0)] } }
pub fn a_all() -> Act { act(perm::ALL) }
pub fn a_manage() -> Act { act(perm::MANAGE) }
pub fn a_sol(n: u64) -> Act { Act { ty: perm::SOL, data: q(n).to_vec() } }
pub fn a_sol_rec(lim: u64, win: u64) -> Act { a_sol_rec_at(lim, win, 0, lim) }
pub fn a_sol_rec_at(lim: u64, win: u64, last: u64, cur: u64) -> Act { Act { ty: perm::SOL_REC, data: cat(&[&q(lim), &q(win), &q(last), &q(cur)]) } }
pub fn a_program(p: &Key) -> Act { Act { ty: perm::PROGRAM, data: p.to_vec() } }
pub fn a_tok(mint: &Key, n: u64) -> Act { Act { ty: perm::TOK, data: cat(&[mint, &q(n)]) } }
pub fn a_tok_rec(mint: &Key, lim: u64, win: u64) -> Act { a_tok_rec_at(mint, lim, win, 0, lim) }
pub fn a_tok_rec_at(mint: &Key, lim: u64, win: u64, last: u64, cur: u64) -> Act { Act { ty: perm::TOK_REC, data: cat(&[mint, &q(win), &q(lim), &q(cur), &q(last)]) } }
pub fn a_sol_dest(d: &Key, n: u64) -> Act { Act { ty: perm::SOL_DEST, data: cat(&[d, &q(n)]) } }
pub fn a_sol_rec_dest(d: &Key, lim: u64, win: u64) -> Act { Act { ty: perm::SOL_REC_DEST, data: cat(&[d, &q(lim), &q(win), &q(0), &q(lim)]) } }
pub fn a_tok_dest(mint: &Key, d: &Key, n: u64) -> Act { Act { ty: perm::TOK_DEST, data: cat(&[mint, d, &q(n)]) } }
pub fn a_tok_rec_dest(mint: &Key, d: &Key, lim: u64, win: u64) -> Act { Act { ty: perm::TOK_REC_DEST, data: cat(&[mint, d, &q(lim), &q(win), &q(0), &q(lim)]) } }
pub fn a_stake(n: u64) -> Act { Act { ty: perm::STAKE, data: q(n).to_vec() } }
pub fn a_stake_rec(lim: u64, win: u64) -> Act { Act { ty: perm::STAKE_REC, data: cat(&[&q(lim), &q(win), &q(0), &q(lim)]) } }
pub fn a_sub() -> Act { act(perm::SUB) }
pub fn a_replace(role: u32) -> Act { Act { ty: perm::REPLACE, data: cat(&[&role.to_le_bytes(), &[0; 4]]) } }
pub fn a_v2(ty: u16, id: u32) -> Act { Act { ty, data: cat(&[&id.to_le_bytes(), &[0; 4]]) } }
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Scope { pub cur: u128, pub lim: u128, pub win: u64, pub last: u64, pub prog: Key, pub target: Key, pub kind: u64, pub num: u64, pub start: u64, pub end: u64 }
pub fn a_scope(s: &Scope) -> Act {
    Act { ty: perm::SCOPE, data: cat(&[&s.cur.to_le_bytes(), &s.lim.to_le_bytes(), &q(s.win), &q(s.last), &s.prog, &s.target, &q(s.kind), &q(s.num), &q(s.start), &q(s.end)]) }
}
pub fn parse_scope(d: &[u8]) -> Scope {
    Scope {
        cur: u128::from_le_bytes(d[..16].try_into().unwrap()), lim: u128::from_le_bytes(d[16..32].try_into().unwrap()),
        win: le64(d, 32), last: le64(d, 40), prog: d[48..80].try_into().unwrap(), target: d[80..112].try_into().unwrap(),
        kind: le64(d, 112), num: le64(d, 120), start: le64(d, 128), end: le64(d, 136),
    }
}
/// client encoding of a list of permission records
pub fn acts_bytes(a: &[Act]) -> Vec<u8> {
    let mut v: Vec<u8> = vec![];
    for x in a {
        v.extend(x.ty.to_le_bytes());
        v.extend((x.data.len() as u16).to_le_bytes());
        let b = v.len() + 4 + x.data.len();
        v.extend((b as u32).to_le_bytes());
        v.extend(&x.data);
    }
    v
}

// ------------------------------------------------------------------ the configuration account
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Role { pub id: u32, pub aty: u16, pub auth: Vec<u8>, pub acts: Vec<Act> }
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Sw { pub bump: u8, pub id: Key, pub counter: u32, pub wbump: u8, pub subctr: u32, pub v1: Option<u64>, pub roles: Vec<Role>, pub claimer: Option<Key> }
impl Role {
    pub fn has(&self, ty: u16) -> bool { self.acts.iter().any(|a| a.ty == ty) }
    pub fn size(&self) -> usize { 16 + self.auth.len() + self.acts.iter().map(|a| 8 + a.data.len()).sum::<usize>() }
    pub fn odometer(&self) -> u32 { if matches!(self.aty, K1 | K1S | R1 | R1S) { le32(&self.auth, 36) } else { 0 } }
    pub fn set_odometer(&mut self, v: u32) { if matches!(self.aty, K1 | K1S | R1 | R1S) { put32(&mut self.auth, 36, v) } }
}
impl Sw {
    pub fn role(&self, id: u32) -> Option<&Role> { self.roles.iter().find(|r| r.id == id) }
    pub fn role_mut(&mut self, id: u32) -> Option<&mut Role> { self.roles.iter_mut().find(|r| r.id == id) }
    pub fn pos(&self, id: u32) -> Option<usize> { self.roles.iter().position(|r| r.id == id) }
    /// the one canonical encoding
    pub fn encode(&self) -> Vec<u8> {
        let mut v = vec![1, self.bump];
        v.extend(self.id);
        v.extend((self.roles.len() as u16).to_le_bytes());
        v.extend(self.counter.to_le_bytes());
        match self.v1 {
            Some(reserved) => v.extend(reserved.to_le_bytes()),
            None => { v.extend([self.wbump, 0, 0, 0]); v.extend(self.subctr.to_le_bytes()); }
        }
        debug_assert_eq!(v.len(), 48);
        for r in &self.roles {
            let b = v.len() - 48 + r.size();
            v.extend(r.aty.to_le_bytes());
            v.extend((r.auth.len() as u16).to_le_bytes());
            v.extend((r.acts.len() as u16).to_le_bytes());
            v.extend([0; 2]);
            v.extend(r.id.to_le_bytes());
            v.extend((b as u32).to_le_bytes());
            v.extend(&r.auth);
            v.extend(acts_bytes(&r.acts));
        }
        if let Some(c) = &self.claimer {
            v.extend([1, 1, 32, 0, 0, 0, 0, 0]);
            v.extend(c);
        }
        v
    }
    /// Strict parse: every redundancy of the format is checked.
    pub fn parse(d: &[u8]) -> Result<Sw, String> {
        if d.len() < 48 { return Err(format!("account of {} bytes", d.len())); }
        if d[0] != 1 { return Err(format!("discriminator {}", d[0])); }
        let v1 = d[40] == 0 || d[41..44] != [0; 3];
        let mut s = Sw { bump: d[1], id: d[2..34].try_into().unwrap(), counter: 0, wbump: if v1 { 0 } else { d[40] }, subctr: 0, v1: v1.then(|| le64(d, 40)), roles: vec![], claimer: None };
        let n = le16(d, 34) as usize;
        s.counter = le32(d, 36);
        if !v1 { s.subctr = le32(d, 44); }
        let r = &d[48..];
        let mut c = 0usize;
        for i in 0..n {
            if c + 16 > r.len() { return Err(format!("role {i}: position out of bounds")); }
            let (aty, al, na, id, b) = (le16(r, c), le16(r, c + 2) as usize, le16(r, c + 4) as usize, le32(r, c + 8), le32(r, c + 12) as usize);
            if al != stored_len(aty) { return Err(format!("role {i}: authority type {aty} of {al} bytes")); }
            if le16(r, c + 6) != 0 { return Err(format!("role {i}: position padding")); }
            if b > r.len() || b < c + 16 + al { return Err(format!("role {i}: boundary {b} at {c} of {}", r.len())); }
            if id >= s.counter { return Err(format!("role {i}: id {id} not below the counter {}", s.counter)); }
            if s.roles.iter().any(|x| x.id == id) { return Err(format!("duplicate role id {id}")); }
            let a = &r[c + 16 + al..b];
            let mut acts = vec![];
            let mut k = 0usize;
            while k < a.len() {
                if k + 8 > a.len() { return Err(format!("role {i}: truncated permission header")); }
                let (ty, l, bb) = (le16(a, k), le16(a, k + 2) as usize, le32(a, k + 4) as usize);
                if perm::len(ty) != Some(l) { return Err(format!("role {i}: permission {ty} of {l} bytes")); }
                if k + 8 + l > a.len() { return Err(format!("role {i}: truncated permission")); }
                if bb != k + 8 + l { return Err(format!("role {i}: permission boundary {bb}, expected {}", k + 8 + l)); }
                acts.push(Act { ty, data: a[k + 8..k + 8 + l].to_vec() });
                k += 8 + l;
            }
            if acts.is_empty() { return Err(format!("role {i} has no permission")); }
            if acts.len() != na { return Err(format!("role {i}: {na} permissions announced, {} stored", acts.len())); }
            s.roles.push(Role { id, aty, auth: r[c + 16..c + 16 + al].to_vec(), acts });
            c = b;
        }
        match &r[c..] {
            [] => {}
            t if t.len() == 40 && t[..8] == [1, 1, 32, 0, 0, 0, 0, 0] => s.claimer = Some(t[8..].try_into().unwrap()),
            t => return Err(format!("unexpected tail {t:02x?}")),
        }
        Ok(s)
    }
}

// ------------------------------------------------------------------ wallets
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Wl { pub id: Key, pub swig: Key, pub bump: u8, pub wallet: Key, pub wbump: u8 }
impl Wl {
    pub fn new(n: u8) -> Wl { Wl::of(nk(0x1D, n)) }
    pub fn of(id: Key) -> Wl {
        let (swig, bump) = find_pda(&[b"swig", &id], &SWIG).unwrap();
        let (wallet, wbump) = find_pda(&[b"swig-wallet-address", &swig], &SWIG).unwrap();
        Wl { id, swig, bump, wallet, wbump }
    }
    pub fn sub1(&self, role: u32) -> (Key, u8) { find_pda(&[b"sub-account", &self.id, &role.to_le_bytes()], &SWIG).unwrap() }
    pub fn sub2_state(&self, id: u32) -> (Key, u8) { find_pda(&[b"sub-account-v2-state", &self.id, &id.to_le_bytes()], &SWIG).unwrap() }
    pub fn sub2(&self, id: u32) -> (Key, u8) { find_pda(&[b"sub-account-v2", &self.id, &id.to_le_bytes()], &SWIG).unwrap() }
    pub fn sw(&self, w: &World) -> Sw { Sw::parse(w.data(&self.swig)).unwrap_or_else(|e| panic!("swig account: {e}")) }
    pub fn blank(&self) -> Sw { Sw { bump: self.bump, id: self.id, counter: 0, wbump: self.wbump, subctr: 0, v1: None, roles: vec![], claimer: None } }
    /// turns a wallet into one of the layout that had no lamport address
    pub fn legacy(&self, s: &mut Sw, reserved: u64) { s.wbump = 0; s.subctr = 0; s.v1 = Some(reserved); }
    /// Installs a wallet whose roles are given, as if it had been built up by instructions.
    pub fn install(&self, w: &mut World, roles: &[(Cred, Vec<Act>)], wallet_lamports: u64) -> Sw {
        let mut s = self.blank();
        for (c, a) in roles {
            s.roles.push(Role { id: s.counter, aty: c.t, auth: c.stored(), acts: a.clone() });
            s.counter += 1;
        }
        self.store(w, &s);
        w.put(self.wallet, Acct { lamports: wallet_lamports, owner: SYSTEM, exec: false, data: vec![] });
        s
    }
    pub fn store(&self, w: &mut World, s: &Sw) {
        let data = s.encode();
        w.put(self.swig, Acct { lamports: rent(data.len()), owner: SWIG, exec: false, data });
    }
}

// ------------------------------------------------------------------ instructions
/// An instruction still lacking its authority payload.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Call {
    pub metas: Vec<Meta>,
    pub head: Vec<u8>,
    /// the bytes a counter signature covers
    pub dp: Vec<u8>,
    /// offset of a u16 authority payload length, in both `head` and `dp`
    pub plen_at: Option<usize>,
    /// the number of accounts is fixed: do not append any
    pub fixed: bool,
}
fn call(metas: Vec<Meta>, head: Vec<u8>) -> Call { Call { metas, dp: head.clone(), head, plen_at: None, fixed: false } }

pub fn create_ix(wl: &Wl, cred: &Cred, acts: &[Act]) -> Ix { create_ix_raw(wl, cred.t, &cred.create(), &acts_bytes(acts), wl.bump, wl.wbump) }
pub fn create_ix_raw(wl: &Wl, t: u16, auth: &[u8], acts: &[u8], bump: u8, wbump: u8) -> Ix {
    let mut d = vec![0, 0];
    d.extend(t.to_le_bytes());
    d.extend((auth.len() as u16).to_le_bytes());
    d.extend([bump, wbump]);
    d.extend(wl.id);
    d.extend(auth);
    d.extend(acts);
    Ix { prog: SWIG, metas: vec![mw(wl.swig), msw(PAYER), mw(wl.wallet), m(SYSTEM)], data: d }
}
fn mgmt(wl: &Wl) -> Vec<Meta> { vec![mw(wl.swig), msw(PAYER), m(SYSTEM)] }
pub fn c_add(wl: &Wl, acting: u32, t: u16, auth: &[u8], acts: &[u8], nacts: u8) -> Call {
    let mut d = vec![1, 0];
    d.extend((auth.len() as u16).to_le_bytes());
    d.extend((acts.len() as u16).to_le_bytes());
    d.extend(t.to_le_bytes());
    d.extend([nacts, 0, 0, 0]);
    d.extend(acting.to_le_bytes());
    d.extend(auth);
    d.extend(acts);
    call(mgmt(wl), d)
}
pub fn c_add_cred(wl: &Wl, acting: u32, c: &Cred, acts: &[Act]) -> Call { c_add(wl, acting, c.t, &c.create(), &acts_bytes(acts), acts.len() as u8) }
pub fn c_remove(wl: &Wl, acting: u32, target: u32) -> Call {
    let mut d = vec![2, 0, 0, 0, 0, 0, 0, 0];
    d.extend(acting.to_le_bytes());
    d.extend(target.to_le_bytes());
    let mut c = call(mgmt(wl), d);
    c.plen_at = Some(2);
    c
}
pub fn c_update(wl: &Wl, acting: u32, target: u32, op: &[u8], nacts: u8) -> Call {
    let mut d = vec![3, 0];
    d.extend((op.len() as u16).to_le_bytes());
    d.extend([nacts, 0, 0, 0]);
    d.extend(acting.to_le_bytes());
    d.extend(target.to_le_bytes());
    d.extend(op);
    call(mgmt(wl), d)
}
pub fn c_replace(wl: &Wl, acting: u32, target: u32, signer: &[u8]) -> Call {
    let mut d = vec![16, 0, 0, 0];
    d.extend(acting.to_le_bytes());
    d.extend(target.to_le_bytes());
    d.extend((signer.len() as u16).to_le_bytes());
    d.extend([0, 0]);
    d.extend(signer);
    call(vec![mw(wl.swig)], d)
}
pub fn c_session(wl: &Wl, role: u32, dur: u64, key: &Key) -> Call {
    let mut d = vec![5, 0, 0, 0];
    d.extend(role.to_le_bytes());
    d.extend(dur.to_le_bytes());
    d.extend(key);
    call(mgmt(wl), d)
}
pub fn c_claimer(wl: &Wl, role: u32, claimer: &Key) -> Call {
    let mut d = vec![17, 0, 0, 0];
    d.extend(role.to_le_bytes());
    d.extend(claimer);
    call(mgmt(wl), d)
}
/// compact encoding of inner instructions: (program index, account indexes, data)
pub fn compact(ixs: &[(u8, Vec<u8>, Vec<u8>)]) -> Vec<u8> {
    let mut v = vec![ixs.len() as u8];
    for (p, a, d) in ixs {
        v.push(*p);
        v.push(a.len() as u8);
        v.extend(a);
        v.extend((d.len() as u16).to_le_bytes());
        v.extend(d);
    }
    v
}
/// Adds the accounts of `inner` to `metas`; `me` never signs at the outer level.
pub fn gather(metas: &mut Vec<Meta>, inner: &[Ix], me: &[Key]) -> Vec<u8> {
    fn idx(metas: &mut Vec<Meta>, mt: &Meta, me: &[Key]) -> u8 {
        let signer = mt.signer && !me.contains(&mt.key);
        match metas.iter().position(|x| x.key == mt.key) {
            Some(i) => { metas[i].signer |= signer; metas[i].writable |= mt.writable; i as u8 }
            None => { metas.push(Meta { key: mt.key, signer, writable: mt.writable }); metas.len() as u8 - 1 }
        }
    }
    let mut v = vec![];
    for ix in inner {
        let p = idx(metas, &m(ix.prog), me);
        let a = ix.metas.iter().map(|mt| idx(metas, mt, me)).collect();
        v.push((p, a, ix.data.clone()));
    }
    compact(&v)
}
pub fn c_sign(wl: &Wl, role: u32, inner: &[Ix]) -> Call {
    let mut metas = vec![mw(wl.swig), mw(wl.wallet), m(SYSTEM)];
    let p = gather(&mut metas, inner, &[wl.wallet]);
    c_sign_raw(metas, role, &p)
}
pub fn c_sign_raw(metas: Vec<Meta>, role: u32, payload: &[u8]) -> Call {
    let mut d = vec![11, 0];
    d.extend((payload.len() as u16).to_le_bytes());
    d.extend(role.to_le_bytes());
    d.extend(payload);
    Call { metas, head: d, dp: payload.to_vec(), plen_at: None, fixed: false }
}
pub fn c_sub1_create(wl: &Wl, role: u32) -> Call {
    let (k, b) = wl.sub1(role);
    let mut d = vec![6, 0, 0, 0];
    d.extend(role.to_le_bytes());
    d.extend([b, 0, 0, 0, 0, 0, 0, 0]);
    call(vec![mw(wl.swig), msw(PAYER), mw(k), m(SYSTEM)], d)
}
pub fn c_sub1_withdraw(wl: &Wl, role: u32, sub: &Key, amount: u64, auth: Key, tok: Option<(Key, Key, Key)>) -> Call {
    let mut d = vec![7, 0, 0, 0];
    d.extend(role.to_le_bytes());
    d.extend(amount.to_le_bytes());
    let mut metas = vec![mw(wl.swig), msw(PAYER), mw(*sub), m(auth), mw(wl.wallet), m(SYSTEM)];
    if let Some((s, t, p)) = tok { metas.extend([mw(s), mw(t), m(p)]); }
    let mut c = call(metas, d);
    c.fixed = true;
    c
}
pub fn c_sub1_sign(wl: &Wl, role: u32, sub: &Key, inner: &[Ix]) -> Call {
    let mut metas = vec![mw(wl.swig), mw(*sub), m(SYSTEM)];
    let p = gather(&mut metas, inner, &[*sub]);
    let mut d = vec![9, 0];
    d.extend((p.len() as u16).to_le_bytes());
    d.extend(role.to_le_bytes());
    d.extend([0; 8]);
    d.extend(&p);
    Call { metas, head: d, dp: p, plen_at: None, fixed: false }
}
pub fn c_sub1_toggle(wl: &Wl, acting: u32, target: u32, sub: &Key, enabled: u8) -> Call {
    let mut d = vec![10, 0, enabled, 0, 0, 0, 0, 0];
    d.extend(target.to_le_bytes());
    d.extend(acting.to_le_bytes());
    call(vec![mw(wl.swig), msw(PAYER), mw(*sub)], d)
}
pub fn c_migrate(wl: &Wl, role: u32, authority: Key) -> Call { c_migrate_raw(wl, role, authority, wl.wbump) }
pub fn c_migrate_raw(wl: &Wl, role: u32, authority: Key, wb: u8) -> Call {
    let mut d = vec![12, 0, wb, 0];
    d.extend(role.to_le_bytes());
    call(vec![mw(wl.swig), m(authority), msw(PAYER), mw(wl.wallet), m(SYSTEM)], d)
}
pub fn c_transfer_assets(wl: &Wl, role: u32, toks: &[(Key, Key, Key)]) -> Call {
    let mut d = vec![13, 0, 0, 0];
    d.extend(role.to_le_bytes());
    let mut metas = vec![mw(wl.swig), mw(wl.wallet), msw(PAYER), m(SYSTEM)];
    for (a, b, p) in toks { metas.extend([mw(*a), mw(*b), m(*p)]); }
    call(metas, d)
}
/// `pre`: accounts between the fixed ones and the token accounts (signers)
pub fn c_close_token(wl: &Wl, role: u32, dest: &Key, prog: &Key, pre: &[Meta], toks: &[Key]) -> Call {
    let mut metas = vec![mw(wl.swig), mw(wl.wallet), mw(*dest), m(*prog)];
    metas.extend_from_slice(pre);
    let off = metas.len() as u16;
    for t in toks { metas.push(mw(*t)); }
    let mut d = vec![14, 0];
    d.extend(off.to_le_bytes());
    d.extend(role.to_le_bytes());
    let mut c = call(metas, d);
    c.fixed = true;
    c
}
pub fn c_close_swig(wl: &Wl, role: u32, dest: &Key) -> Call {
    let mut d = vec![15, 0, 0, 0];
    d.extend(role.to_le_bytes());
    call(vec![mw(wl.swig), mw(wl.wallet), mw(*dest), m(SYSTEM)], d)
}
pub fn c_sub2_create(wl: &Wl, role: u32, id: u32) -> Call {
    let (st, sb) = wl.sub2_state(id);
    let (at, ab) = wl.sub2(id);
    let mut d = vec![18, 0, 0, 0];
    d.extend(role.to_le_bytes());
    d.extend([sb, ab, 0, 0, 0, 0, 0, 0]);
    call(vec![mw(wl.swig), msw(PAYER), mw(st), mw(at), m(SYSTEM)], d)
}
pub fn c_sub2_toggle(wl: &Wl, role: u32, id: u32, enabled: u8) -> Call {
    let mut d = vec![19, 0, enabled, 0];
    d.extend(role.to_le_bytes());
    d.extend(id.to_le_bytes());
    d.extend([0; 4]);
    call(vec![mw(wl.swig), msw(PAYER), mw(wl.sub2_state(id).0)], d)
}
pub fn c_sub2_sign(wl: &Wl, role: u32, id: u32, inner: &[Ix]) -> Call {
    let mut metas = vec![mw(wl.swig), m(wl.sub2_state(id).0), mw(wl.sub2(id).0), m(SYSTEM)];
    let p = gather(&mut metas, inner, &[wl.sub2(id).0]);
    let mut d = vec![20, 0];
    d.extend((p.len() as u16).to_le_bytes());
    d.extend(role.to_le_bytes());
    d.extend(id.to_le_bytes());
    d.extend([0; 4]);
    d.extend(&p);
    call(metas, d)
}
pub fn c_sub2_withdraw(wl: &Wl, role: u32, id: u32, amount: u64, auth: Key, tok: Option<(Key, Key, Key)>) -> Call {
    let mut d = vec![21, 0, 0, 0];
    d.extend(role.to_le_bytes());
    d.extend(id.to_le_bytes());
    d.extend([0; 4]);
    d.extend(amount.to_le_bytes());
    let mut metas = vec![mw(wl.swig), msw(PAYER), m(wl.sub2_state(id).0), mw(wl.sub2(id).0), mw(wl.wallet), m(auth), m(SYSTEM)];
    if let Some((s, t, p)) = tok { metas.extend([mw(s), mw(t), m(p)]); }
    let mut c = call(metas, d);
    c.fixed = true;
    c
}

// ------------------------------------------------------------------ authority payloads
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum By { Main(Cred), Sess(Key) }

fn merged(metas: &[Meta]) -> Vec<Meta> {
    metas.iter().map(|x| {
        let signer = metas.iter().any(|y| y.key == x.key && y.signer);
        let writable = metas.iter().any(|y| y.key == x.key && y.writable) && !readonly_always(&x.key);
        Meta { key: x.key, signer, writable }
    }).collect()
}
pub fn readonly_always(k: &Key) -> bool { *k == SYSTEM || *k == STAKE || *k == R1PROG || *k == SWIG || *k == TOKEN || *k == TOKEN22 || *k == IXS || is_script(k) }
/// the bytes that describe the instruction's accounts in a signed message
pub fn accounts_bytes(metas: &[Meta]) -> Vec<u8> {
    let mut v = vec![];
    for x in merged(metas) {
        v.extend(x.key);
        v.extend([x.writable as u8, x.signer as u8, 0, 0, 0, 0, 0, 0]);
    }
    v
}
pub fn k1_msg(dp: &[u8], metas: &[Meta], slot: u64, ctr: u32, prefix: &[u8]) -> Key {
    let h = sha256(&[dp, &accounts_bytes(metas), &slot.to_le_bytes(), &ctr.to_le_bytes()]);
    let hex: String = h.iter().map(|b| format!("{b:02x}")).collect();
    keccak256(&[prefix, hex.as_bytes()])
}
/// r ‖ s ‖ v with v = 27 + recovery id
pub fn k1_sign(n: u8, msg: &Key) -> [u8; 65] {
    let (s, r) = libsecp256k1::sign(&libsecp256k1::Message::parse(msg), &k1_secret(n));
    let mut o = [0; 65];
    o[..64].copy_from_slice(&s.serialize());
    o[64] = 27 + r.serialize();
    o
}
pub fn k1_payload(n: u8, dp: &[u8], metas: &[Meta], slot: u64, ctr: u32) -> Vec<u8> {
    let mut v = slot.to_le_bytes().to_vec();
    v.extend(ctr.to_le_bytes());
    v.extend(k1_sign(n, &k1_msg(dp, metas, slot, ctr, b"")));
    v
}
pub fn r1_msg(dp: &[u8], metas: &[Meta], slot: u64, ctr: u32) -> Key {
    keccak256(&[dp, &accounts_bytes(metas), &slot.to_le_bytes(), &ctr.to_le_bytes()])
}
pub fn r1_payload(slot: u64, ctr: u32, ixs_idx: u8) -> Vec<u8> {
    let mut v = slot.to_le_bytes().to_vec();
    v.extend(ctr.to_le_bytes());
    v.push(ixs_idx);
    v.extend([0; 4]);
    v
}
/// the instruction a program-execution credential must be preceded by
pub fn pe_ix(n: u8, metas: &[Meta]) -> Ix {
    let mut ms: Vec<Meta> = metas.iter().take(2).map(|x| m(x.key)).collect();
    while ms.len() < 2 { ms.push(m(SYSTEM)); }
    Ix { prog: pe_prog(n), metas: ms, data: pe_prefix(n) }
}
impl Call {
    pub fn index_of(&mut self, k: &Key, signer: bool) -> u8 {
        match self.metas.iter().position(|x| x.key == *k) {
            Some(i) => { self.metas[i].signer |= signer; i as u8 }
            None if self.fixed => 0,
            None => { self.metas.push(Meta { key: *k, signer, writable: false }); self.metas.len() as u8 - 1 }
        }
    }
    pub fn set_plen(&mut self, n: usize) {
        if let Some(o) = self.plen_at {
            self.head[o..o + 2].copy_from_slice(&(n as u16).to_le_bytes());
            self.dp[o..o + 2].copy_from_slice(&(n as u16).to_le_bytes());
        }
    }
    /// Finished instruction with a given payload.
    pub fn with(&self, payload: &[u8]) -> Ix {
        let mut c = self.clone();
        c.set_plen(payload.len());
        let mut data = c.head;
        data.extend_from_slice(payload);
        Ix { prog: SWIG, metas: c.metas, data }
    }
    /// The transaction that performs this call on behalf of `by`.
    pub fn sign(&self, by: &By, slot: u64, ctr: u32) -> Vec<Ix> {
        let mut c = self.clone();
        match by {
            By::Sess(k) => { let i = c.index_of(k, true); vec![c.with(&[i])] }
            By::Main(cr) => match cr.t {
                ED | EDS => { let i = c.index_of(&ed_key(cr.n), true); vec![c.with(&[i])] }
                K1 | K1S => {
                    c.set_plen(77);
                    let p = k1_payload(cr.n, &c.dp, &c.metas, slot, ctr);
                    vec![c.with(&p)]
                }
                R1 | R1S => {
                    let i = c.index_of(&IXS, false);
                    c.set_plen(17);
                    let msg = r1_msg(&c.dp, &c.metas, slot, ctr);
                    vec![r1_ix(&r1_pk(cr.n), &msg), c.with(&r1_payload(slot, ctr, i))]
                }
                _ => {
                    let i = c.index_of(&IXS, false);
                    vec![pe_ix(cr.n, &c.metas), c.with(&[i])]
                }
            },
        }
    }
    /// As `sign`, taking slot and counter from the chain state.
    pub fn go(&self, w: &World, wl: &Wl, role: u32, by: &By) -> Vec<Ix> {
        let ctr = Sw::parse(w.data(&wl.swig)).ok().and_then(|s| s.role(role).map(|r| r.odometer())).unwrap_or(0).wrapping_add(1);
        self.sign(by, w.slot, ctr)
    }
}
pub fn sys_transfer(from: &Key, to: &Key, n: u64) -> Ix {
    let mut d = vec![2, 0, 0, 0];
    d.extend(n.to_le_bytes());
    Ix { prog: SYSTEM, metas: vec![msw(*from), mw(*to)], data: d }
}
pub fn tok_transfer(prog: &Key, from: &Key, to: &Key, auth: &Key, n: u64) -> Ix {
    let mut d = vec![3];
    d.extend(n.to_le_bytes());
    Ix { prog: *prog, metas: vec![mw(*from), mw(*to), ms(*auth)], data: d }
}

/// `ix` called by the scripted program `prog` instead of by the transaction
pub fn through(prog: Key, prefix: &[u8], ix: &Ix) -> Ix {
    let mut metas = ix.metas.clone();
    let at = metas.len() as u8;
    metas.push(m(ix.prog));
    let call = crate::progs::Op::Call(at, ix.metas.iter().enumerate().map(|(i, x)| (i as u8, x.signer, x.writable)).collect(), ix.data.clone());
    Ix { prog, metas, data: crate::progs::script_with_prefix(prefix, &[call]) }
}
