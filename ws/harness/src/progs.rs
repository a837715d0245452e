//! The other programs of the emulated chain: System, SPL Token / Token-2022,
//! the secp256r1 precompile (with ideal signatures) and scripted programs that
//! do whatever their instruction data says.
use crate::vm::*;

fn u32le(d: &[u8], o: usize) -> Option<u32> { d.get(o..o + 4).map(|b| u32::from_le_bytes(b.try_into().unwrap())) }
fn u64le(d: &[u8], o: usize) -> Option<u64> { d.get(o..o + 8).map(|b| u64::from_le_bytes(b.try_into().unwrap())) }
fn key(d: &[u8], o: usize) -> Option<Key> { d.get(o..o + 32).map(|b| b.try_into().unwrap()) }
const BAD: E = E::Rt("InvalidInstructionData");
const MISSING: E = E::Rt("NotEnoughAccountKeys");
const NOSIG: E = E::Rt("MissingRequiredSignature");

// ------------------------------------------------------------------ system program
fn transfer(r: &mut Rt, from: Ia, to: Ia, n: u64) -> Result<(), E> {
    if !from.signer { return Err(NOSIG); }
    if !r.acct(from).data.is_empty() { return Err(E::Rt("TransferFromCarriesData")); }
    let l = r.acct(from).lamports;
    if n > l { return Err(E::Prog(1)); }
    if from.t == to.t { return Ok(()); }
    // the system program may only debit accounts it owns
    r.set_lamports(from, l - n)?;
    let t = r.acct(to).lamports;
    r.set_lamports(to, t.checked_add(n).ok_or(E::Rt("ArithmeticOverflow"))?)
}
fn allocate(r: &mut Rt, a: Ia, space: u64) -> Result<(), E> {
    if !a.signer { return Err(NOSIG); }
    if !r.acct(a).data.is_empty() || r.acct(a).owner != SYSTEM { return Err(E::Prog(0x1_0000_0000)); }
    if space > 10 * 1024 * 1024 { return Err(E::Rt("InvalidAccountDataLength")); }
    r.set_data(a, &vec![0; space as usize])
}
fn assign(r: &mut Rt, a: Ia, owner: Key) -> Result<(), E> {
    if r.acct(a).owner == owner { return Ok(()); }
    if !a.signer { return Err(NOSIG); }
    r.set_owner(a, &owner)
}
pub fn system(r: &mut Rt, ia: &[Ia], d: &[u8]) -> Result<(), E> {
    let tag = u32le(d, 0).ok_or(BAD)?;
    match tag {
        0 => {
            let (l, s, o) = (u64le(d, 4).ok_or(BAD)?, u64le(d, 12).ok_or(BAD)?, key(d, 20).ok_or(BAD)?);
            if ia.len() < 2 { return Err(MISSING); }
            if r.acct(ia[1]).lamports > 0 { return Err(E::Prog(0x1_0000_0000)); }
            allocate(r, ia[1], s)?;
            assign(r, ia[1], o)?;
            transfer(r, ia[0], ia[1], l)
        }
        1 => assign(r, *ia.first().ok_or(MISSING)?, key(d, 4).ok_or(BAD)?),
        2 => {
            if ia.len() < 2 { return Err(MISSING); }
            transfer(r, ia[0], ia[1], u64le(d, 4).ok_or(BAD)?)
        }
        8 => allocate(r, *ia.first().ok_or(MISSING)?, u64le(d, 4).ok_or(BAD)?),
        _ => Err(BAD),
    }
}

// ------------------------------------------------------------------ SPL token
pub mod tok {
    use super::*;
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct T {
        pub mint: Key,
        pub owner: Key,
        pub amount: u64,
        pub delegate: Option<Key>,
        pub state: u8,
        pub native: Option<u64>,
        pub delegated: u64,
        pub close: Option<Key>,
    }
    fn opt_key(d: &[u8]) -> Option<Key> { if d[0] == 1 { Some(d[4..36].try_into().unwrap()) } else { None } }
    fn put_opt(d: &mut [u8], k: &Option<Key>) {
        d[..36].fill(0);
        if let Some(k) = k { d[0] = 1; d[4..36].copy_from_slice(k); }
    }
    pub fn parse(d: &[u8]) -> Option<T> {
        if d.len() < 165 { return None; }
        if d.len() > 165 && d[165] != 2 { return None; }
        Some(T {
            mint: d[..32].try_into().unwrap(),
            owner: d[32..64].try_into().unwrap(),
            amount: u64::from_le_bytes(d[64..72].try_into().unwrap()),
            delegate: opt_key(&d[72..108]),
            state: d[108],
            native: if d[109] == 1 { Some(u64::from_le_bytes(d[113..121].try_into().unwrap())) } else { None },
            delegated: u64::from_le_bytes(d[121..129].try_into().unwrap()),
            close: opt_key(&d[129..165]),
        })
    }
    pub fn write(t: &T, d: &mut [u8]) {
        d[..32].copy_from_slice(&t.mint);
        d[32..64].copy_from_slice(&t.owner);
        d[64..72].copy_from_slice(&t.amount.to_le_bytes());
        put_opt(&mut d[72..108], &t.delegate);
        d[108] = t.state;
        d[109..121].fill(0);
        if let Some(n) = t.native { d[109] = 1; d[113..121].copy_from_slice(&n.to_le_bytes()); }
        d[121..129].copy_from_slice(&t.delegated.to_le_bytes());
        put_opt(&mut d[129..165], &t.close);
    }
    pub fn new(mint: Key, owner: Key, amount: u64) -> T {
        T { mint, owner, amount, delegate: None, state: 1, native: None, delegated: 0, close: None }
    }
    pub fn acct(prog: Key, t: &T) -> Acct {
        let mut data = vec![0; 165];
        write(t, &mut data);
        let a = Acct { lamports: rent(165), owner: prog, exec: false, data };
        // Token-2022 accounts usually carry extensions
        if prog == TOKEN22 { extended(a, 4) } else { a }
    }
    /// with `n` bytes of extensions, as Token-2022 accounts have
    pub fn extended(mut a: Acct, n: usize) -> Acct {
        a.data.push(2);
        a.data.extend((0..n).map(|i| [7, 0, (n.max(4) - 4) as u8, 0].get(i).copied().unwrap_or(i as u8)));
        a.lamports += rent(a.data.len()) - rent(165);
        a
    }
    pub fn amount(w: &World, k: &Key) -> u64 { parse(w.data(k)).map_or(0, |t| t.amount) }
    pub fn mint_acct(prog: Key, authority: Key, supply: u64) -> Acct {
        let mut data = vec![0; 82];
        data[0] = 1;
        data[4..36].copy_from_slice(&authority);
        data[36..44].copy_from_slice(&supply.to_le_bytes());
        data[44] = 6;
        data[45] = 1;
        Acct { lamports: rent(82), owner: prog, exec: false, data }
    }
}
pub fn token(r: &mut Rt, ia: &[Ia], d: &[u8]) -> Result<(), E> {
    use tok::*;
    let me = if let Some(p) = ia.first() { r.acct(*p).owner } else { return Err(MISSING) };
    let load = |r: &Rt, i: usize| -> Result<T, E> {
        let i = *ia.get(i).ok_or(MISSING)?;
        if r.acct(i).owner != me || (me != TOKEN && me != TOKEN22) { return Err(E::Rt("IncorrectProgramId")); }
        let t = parse(&r.acct(i).data).ok_or(E::Rt("InvalidAccountData"))?;
        if t.state == 0 { return Err(E::Rt("UninitializedAccount")); }
        Ok(t)
    };
    let store = |r: &mut Rt, i: usize, t: &T| -> Result<(), E> {
        let mut data = r.acct(ia[i]).data.clone();
        write(t, &mut data);
        r.set_data(ia[i], &data)
    };
    let tag = *d.first().ok_or(BAD)?;
    match tag {
        // an arbitrary effect on accounts of the token program
        0xEE => script(r, ia, d),
        // Transfer / TransferChecked / Burn / BurnChecked
        3 | 12 | 8 | 15 => {
            let amount = u64le(d, 1).ok_or(BAD)?;
            let (dst, auth) = match tag { 3 => (1, 2), 12 => (2, 3), _ => (1, 2) };
            let burn = tag == 8 || tag == 15;
            let mut s = load(r, 0)?;
            if s.state == 2 { return Err(E::Prog(17)); }
            let a = *ia.get(auth).ok_or(MISSING)?;
            if amount > s.amount { return Err(E::Prog(1)); }
            let ak = r.key(a);
            if s.delegate == Some(ak) {
                if !a.signer { return Err(NOSIG); }
                if s.delegated < amount { return Err(E::Prog(1)); }
                if ia[0].t != ia.get(dst).ok_or(MISSING)?.t || burn {
                    s.delegated -= amount;
                    if s.delegated == 0 { s.delegate = None; }
                }
            } else {
                if s.owner != ak { return Err(E::Prog(4)); }
                if !a.signer { return Err(NOSIG); }
            }
            if burn {
                let mk = *ia.get(1).ok_or(MISSING)?;
                if r.key(mk) != s.mint { return Err(E::Prog(3)); }
                let mut md = r.acct(mk).data.clone();
                let sup = u64le(&md, 36).ok_or(BAD)?;
                md[36..44].copy_from_slice(&(sup.saturating_sub(amount)).to_le_bytes());
                s.amount -= amount;
                store(r, 0, &s)?;
                return r.set_data(mk, &md);
            }
            let mut t = load(r, dst)?;
            if t.state == 2 { return Err(E::Prog(17)); }
            if t.mint != s.mint { return Err(E::Prog(3)); }
            if tag == 12 && r.key(*ia.get(1).ok_or(MISSING)?) != s.mint { return Err(E::Prog(3)); }
            if ia[0].t == ia[dst].t { return store(r, 0, &s).map(|_| ()); }
            s.amount -= amount;
            t.amount = t.amount.checked_add(amount).ok_or(E::Prog(14))?;
            store(r, 0, &s)?;
            store(r, dst, &t)
        }
        4 | 5 => {
            let mut s = load(r, 0)?;
            let (ai, del) = if tag == 4 { (2, Some(r.key(*ia.get(1).ok_or(MISSING)?))) } else { (1, None) };
            let a = *ia.get(ai).ok_or(MISSING)?;
            if s.owner != r.key(a) { return Err(E::Prog(4)); }
            if !a.signer { return Err(NOSIG); }
            s.delegate = del;
            s.delegated = if tag == 4 { u64le(d, 1).ok_or(BAD)? } else { 0 };
            store(r, 0, &s)
        }
        6 => {
            let mut s = load(r, 0)?;
            let a = *ia.get(1).ok_or(MISSING)?;
            let kind = *d.get(1).ok_or(BAD)?;
            let new = if *d.get(2).ok_or(BAD)? == 1 { Some(key(d, 3).ok_or(BAD)?) } else { None };
            if !a.signer { return Err(NOSIG); }
            match kind {
                2 => {
                    if s.owner != r.key(a) { return Err(E::Prog(4)); }
                    s.owner = new.ok_or(E::Prog(12))?;
                    s.delegate = None;
                    s.delegated = 0;
                    if s.native.is_some() { s.close = None; }
                }
                3 => {
                    if s.close.unwrap_or(s.owner) != r.key(a) { return Err(E::Prog(4)); }
                    s.close = new;
                }
                _ => return Err(E::Prog(15)),
            }
            store(r, 0, &s)
        }
        9 => {
            let s = load(r, 0)?;
            let (dst, a) = (*ia.get(1).ok_or(MISSING)?, *ia.get(2).ok_or(MISSING)?);
            if ia[0].t == dst.t { return Err(E::Rt("InvalidAccountData")); }
            if s.native.is_none() && s.amount != 0 { return Err(E::Prog(11)); }
            if s.close.unwrap_or(s.owner) != r.key(a) { return Err(E::Prog(4)); }
            if !a.signer { return Err(NOSIG); }
            let l = r.acct(ia[0]).lamports;
            let dl = r.acct(dst).lamports;
            r.set_lamports(dst, dl.checked_add(l).ok_or(E::Rt("Overflow"))?)?;
            r.set_lamports(ia[0], 0)?;
            r.set_data(ia[0], &[])?;
            r.set_owner(ia[0], &SYSTEM)
        }
        7 => {
            let mk = ia[0];
            let dsti = *ia.get(1).ok_or(MISSING)?;
            let a = *ia.get(2).ok_or(MISSING)?;
            let amount = u64le(d, 1).ok_or(BAD)?;
            let mut md = r.acct(mk).data.clone();
            if md.len() < 82 || md[0] != 1 || md[4..36] != r.key(a) || !a.signer { return Err(E::Prog(4)); }
            let mut t = load(r, 1)?;
            if t.mint != r.key(mk) { return Err(E::Prog(3)); }
            let sup = u64le(&md, 36).unwrap();
            md[36..44].copy_from_slice(&sup.checked_add(amount).ok_or(E::Prog(14))?.to_le_bytes());
            t.amount = t.amount.checked_add(amount).ok_or(E::Prog(14))?;
            r.set_data(mk, &md)?;
            let _ = dsti;
            store(r, 1, &t)
        }
        _ => Err(BAD),
    }
}

// ------------------------------------------------------------------ secp256r1 precompile
/// Ideal signatures: the only valid signature of `msg` under `pk`.
pub fn r1_sig(pk: &[u8], msg: &[u8]) -> [u8; 64] {
    let mut s = [0; 64];
    s[..32].copy_from_slice(&sha256(&[b"r1-sig-a", pk, msg]));
    s[32..].copy_from_slice(&sha256(&[b"r1-sig-b", pk, msg]));
    s
}
pub fn secp256r1(all: &[Vec<u8>], d: &[u8]) -> Result<(), E> {
    const FAIL: E = E::Rt("PrecompileFailure");
    let n = *d.first().ok_or(FAIL)? as usize;
    if n == 0 || n > 8 { return Err(FAIL); }
    if d.len() < 2 + 14 * n { return Err(FAIL); }
    let slice = |ix: u16, off: u16, len: usize| -> Result<&[u8], E> {
        let s: &[u8] = if ix == u16::MAX { d } else { all.get(ix as usize).ok_or(FAIL)? };
        s.get(off as usize..off as usize + len).ok_or(FAIL)
    };
    for i in 0..n {
        let f: Vec<u16> = d[2 + 14 * i..16 + 14 * i].chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect();
        let sig = slice(f[1], f[0], 64)?;
        let pk = slice(f[3], f[2], 33)?;
        let msg = slice(f[6], f[4], f[5] as usize)?;
        if sig != r1_sig(pk, msg) { return Err(FAIL); }
    }
    Ok(())
}
/// Canonical precompile instruction (as solana-secp256r1-program builds it).
pub fn r1_ix(pk: &[u8; 33], msg: &[u8]) -> Ix {
    r1_ix_with_sig(pk, msg, &r1_sig(pk, msg))
}
pub fn r1_ix_with_sig(pk: &[u8; 33], msg: &[u8], sig: &[u8; 64]) -> Ix {
    let mut d = vec![1, 0];
    for v in [49u16, 0xffff, 16, 0xffff, 113, msg.len() as u16, 0xffff] { d.extend_from_slice(&v.to_le_bytes()); }
    d.extend_from_slice(pk);
    d.extend_from_slice(sig);
    d.extend_from_slice(msg);
    Ix { prog: R1PROG, metas: vec![], data: d }
}

// ------------------------------------------------------------------ scripted programs
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    /// move lamports between instruction accounts by direct debit/credit
    Move(u8, u8, u64),
    /// overwrite account data at an offset
    Write(u8, u16, Vec<u8>),
    Assign(u8, Key),
    Resize(u8, u16),
    /// call program (account index), metas (index, signer, writable), data
    Call(u8, Vec<(u8, bool, bool)>, Vec<u8>),
    Fail,
}
pub fn script_data(ops: &[Op]) -> Vec<u8> {
    let mut d = vec![0xEE];
    d.extend(script_body(ops));
    d
}
/// Script with a caller-chosen instruction prefix: `prefix` is skipped by the
/// script program when the first account flag byte says so.
pub fn script_with_prefix(prefix: &[u8], ops: &[Op]) -> Vec<u8> {
    let mut d = prefix.to_vec();
    d.push(0xEE);
    d.extend(script_body(ops));
    d
}
fn script_body(ops: &[Op]) -> Vec<u8> {
    let mut d = vec![];
    for o in ops {
        match o {
            Op::Move(a, b, n) => { d.extend([1, *a, *b]); d.extend(n.to_le_bytes()); }
            Op::Write(a, off, b) => { d.extend([2, *a]); d.extend(off.to_le_bytes()); d.push(b.len() as u8); d.extend(b); }
            Op::Assign(a, k) => { d.extend([3, *a]); d.extend(k); }
            Op::Resize(a, n) => { d.extend([4, *a]); d.extend(n.to_le_bytes()); }
            Op::Call(p, ms, data) => {
                d.extend([5, *p, ms.len() as u8]);
                for (i, s, w) in ms { d.extend([*i, *s as u8 | (*w as u8) << 1]); }
                d.extend((data.len() as u16).to_le_bytes());
                d.extend(data);
            }
            Op::Fail => d.push(6),
        }
    }
    d
}
pub fn script(r: &mut Rt, ia: &[Ia], d: &[u8]) -> Result<(), E> {
    // everything before the first 0xEE byte is an opaque prefix
    if d.starts_with(b"rplauth1") { return Ok(()); }
    let Some(p) = d.iter().position(|b| *b == 0xEE) else { return Ok(()) };
    let d = &d[p + 1..];
    let mut c = 0usize;
    let at = |i: u8| ia.get(i as usize).copied().ok_or(MISSING);
    macro_rules! u8_ { () => {{ let v = *d.get(c).ok_or(BAD)?; c += 1; v }} }
    macro_rules! u16_ { () => {{ let v = d.get(c..c + 2).ok_or(BAD)?; c += 2; u16::from_le_bytes(v.try_into().unwrap()) }} }
    while c < d.len() {
        match u8_!() {
            1 => {
                let (a, b) = (at(u8_!())?, at(u8_!())?);
                let n = u64le(d, c).ok_or(BAD)?;
                c += 8;
                let la = r.acct(a).lamports;
                r.set_lamports(a, la.checked_sub(n).ok_or(E::Rt("script underflow"))?)?;
                let lb = r.acct(b).lamports;
                r.set_lamports(b, lb.checked_add(n).ok_or(E::Rt("script overflow"))?)?;
            }
            2 => {
                let a = at(u8_!())?;
                let off = u16_!() as usize;
                let n = u8_!() as usize;
                let b = d.get(c..c + n).ok_or(BAD)?;
                c += n;
                let mut data = r.acct(a).data.clone();
                data.get_mut(off..off + n).ok_or(BAD)?.copy_from_slice(b);
                r.set_data(a, &data)?;
            }
            3 => {
                let a = at(u8_!())?;
                let k = key(d, c).ok_or(BAD)?;
                c += 32;
                r.set_owner(a, &k)?;
            }
            4 => {
                let a = at(u8_!())?;
                let n = u16_!() as usize;
                let mut data = r.acct(a).data.clone();
                data.resize(n, 0);
                r.set_data(a, &data)?;
            }
            5 => {
                let p = at(u8_!())?;
                let n = u8_!();
                let mut metas = vec![];
                for _ in 0..n {
                    let i = at(u8_!())?;
                    let f = u8_!();
                    metas.push(Meta { key: r.key(i), signer: f & 1 != 0, writable: f & 2 != 0 });
                }
                let n = u16_!() as usize;
                let data = d.get(c..c + n).ok_or(BAD)?.to_vec();
                c += n;
                let prog = r.key(p);
                r.invoke(prog, &metas, &data)?;
            }
            6 => return Err(E::Rt("script failure")),
            _ => return Err(BAD),
        }
    }
    Ok(())
}
