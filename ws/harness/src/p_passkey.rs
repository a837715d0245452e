//! P04: passkey (WebAuthn) approvals.
use crate::mcx::*;
use crate::model::diff;
use crate::p_auth::*;
use crate::p_roles::main_by;
use crate::progs::r1_ix;
use crate::spec::*;
use crate::sw::*;
use crate::vm::*;

fn b64(h: &Key) -> String {
    const C: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    let bits: Vec<u8> = h.iter().flat_map(|b| (0..8).rev().map(move |i| b >> i & 1)).collect();
    bits.chunks(6).map(|c| { let mut v = 0u8; for i in 0..6 { v = v << 1 | c.get(i).copied().unwrap_or(0); } C[v as usize] as char }).collect()
}
/// the message a passkey signs for this client data
fn signed(auth: &[u8], client: &[u8]) -> Vec<u8> { [auth, &sha256(&[client])[..]].concat() }
fn auth_data(n: usize) -> Vec<u8> { (0..n).map(|i| (i as u8).wrapping_mul(37) ^ 0x5A).collect() }

// ------------------------------------------------------------------ packed client data
const FIELDS: [u8; 4] = [1, 2, 3, 4];
/// a prefix code over the origin's bytes: byte j is j ones and a zero
fn huffman(origin: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let mut cs: Vec<u8> = vec![];
    for c in origin { if !cs.contains(c) { cs.push(*c); } }
    if cs.is_empty() { cs.push(b'x'); }
    let k = cs.len();
    let mut tree: Vec<u8> = cs.iter().flat_map(|c| [0, *c, 0]).collect();
    if k == 1 { tree.extend([1, 0, 0]); } else {
        let mut next = k - 1;
        for j in (0..k - 1).rev() { tree.extend([1, j as u8, next as u8]); next = tree.len() / 3 - 1; }
    }
    let mut bits = vec![];
    for c in origin {
        let j = cs.iter().position(|x| x == c).unwrap();
        for _ in 0..j { bits.push(1u8); }
        if k == 1 || j < k - 1 { bits.push(0); }
    }
    let enc = bits.chunks(8).map(|c| c.iter().enumerate().fold(0u8, |v, (i, b)| v | b << (7 - i))).collect();
    (tree, enc)
}
fn packed(auth: &[u8], order: &[u8; 4], origin_len: usize, tree: &[u8], enc: &[u8]) -> Vec<u8> {
    let l = |n: usize| (n as u16).to_le_bytes();
    [&[1, 0][..], &l(auth.len()), auth, order, &l(origin_len), &l(tree.len()), &l(enc.len()), tree, enc].concat()
}
fn client(order: &[u8; 4], h: &Key, origin: &str) -> Vec<u8> {
    let f: Vec<String> = order.iter().filter_map(|o| match o {
        1 => Some("\"type\":\"webauthn.get\"".to_string()),
        2 => Some(format!("\"challenge\":\"{}\"", b64(h))),
        3 => Some(format!("\"origin\":\"{origin}\"")),
        4 => Some("\"crossOrigin\":false".into()),
        _ => None,
    }).collect();
    format!("{{{}}}", f.join(",")).into_bytes()
}
fn unpack_origin(tree: &[u8], enc: &[u8], want: usize) -> Option<Vec<u8>> {
    if tree.is_empty() || tree.len() % 3 != 0 { return None; }
    let nodes: Vec<&[u8]> = tree.chunks(3).collect();
    let root = nodes.len() - 1;
    let (mut at, mut out) = (root, vec![]);
    for b in enc.iter().flat_map(|b| (0..8).rev().map(move |i| b >> i & 1)) {
        if out.len() == want { break; }
        if nodes[at][0] == 0 { return None; }
        at = nodes[at][1 + b as usize] as usize;
        let n = nodes.get(at)?;
        if n[0] == 0 { out.push(n[1]); at = root; }
    }
    Some(out)
}
/// what a packed payload claims was signed
fn packed_claim(p: &[u8], h: &Key) -> Option<Vec<u8>> {
    let u = |o: usize| p.get(o..o + 2).map(|b| u16::from_le_bytes(b.try_into().unwrap()) as usize);
    let al = u(2)?;
    if al >= 196 { return None; }
    let auth = p.get(4..4 + al)?;
    let o = 4 + al;
    let order: [u8; 4] = p.get(o..o + 4)?.try_into().unwrap();
    if order.iter().any(|x| *x > 4) || order.iter().filter(|x| **x == 1).count() != 1 || order.iter().filter(|x| **x == 2).count() != 1 { return None; }
    let (ol, tl, el) = (u(o + 4)?, u(o + 6)?, u(o + 8)?);
    let tree = p.get(o + 10..o + 10 + tl)?;
    let enc = p.get(o + 10 + tl..o + 10 + tl + el)?;
    let origin = String::from_utf8(unpack_origin(tree, enc, ol)?).ok()?;
    Some(signed(auth, &client(&order, h, &origin)))
}
// ------------------------------------------------------------------ raw client data
fn raw(auth: &[u8], json: &[u8]) -> Vec<u8> {
    let l = |n: usize| (n as u16).to_le_bytes();
    [&[2, 0][..], &l(auth.len()), auth, &l(json.len()), json].concat()
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Ok3 { Yes, No, Maybe }
/// a plain JSON reader; `plain` is cleared by anything browsers never write
struct J<'a> { d: &'a [u8], i: usize, plain: bool, chal: Vec<Option<String>>, ty: Vec<Option<String>> }
impl J<'_> {
    fn ws(&mut self) { while self.d.get(self.i).is_some_and(|b| matches!(b, b' ' | b'\t' | b'\n' | b'\r')) { self.i += 1; } }
    fn eat(&mut self, b: u8) -> Option<()> { (self.d.get(self.i) == Some(&b)).then(|| self.i += 1) }
    fn string(&mut self) -> Option<String> {
        self.eat(b'"')?;
        let mut v = vec![];
        loop {
            let b = *self.d.get(self.i)?;
            self.i += 1;
            match b {
                b'"' => break,
                b'\\' => {
                    self.plain = false;
                    let e = *self.d.get(self.i)?;
                    self.i += 1;
                    v.push(match e {
                        b'"' | b'\\' | b'/' => e, b'n' => b'\n', b't' => b'\t', b'r' => b'\r', b'b' => 8, b'f' => 12,
                        b'u' => {
                            let n = u32::from_str_radix(std::str::from_utf8(self.d.get(self.i..self.i + 4)?).ok()?, 16).ok()?;
                            self.i += 4;
                            let mut t = [0; 4];
                            v.extend(char::from_u32(n)?.encode_utf8(&mut t).bytes());
                            continue;
                        }
                        _ => return None,
                    });
                }
                0..=31 => return None,
                b => v.push(b),
            }
        }
        String::from_utf8(v).ok()
    }
    fn value(&mut self, depth: usize) -> Option<Option<String>> {
        self.ws();
        match *self.d.get(self.i)? {
            b'"' => return self.string().map(Some),
            b'{' => self.object(depth + 1)?,
            b'[' => {
                self.plain = false;
                self.i += 1;
                self.ws();
                if self.eat(b']').is_some() { return Some(None); }
                loop { self.value(depth + 1)?; self.ws(); if self.eat(b',').is_some() { continue; } self.eat(b']')?; break; }
            }
            _ => {
                let s = self.i;
                while self.d.get(self.i).is_some_and(|b| b.is_ascii_alphanumeric() || *b == b'-' || *b == b'.') { self.i += 1; }
                let w = std::str::from_utf8(&self.d[s..self.i]).ok()?;
                if !(matches!(w, "true" | "false" | "null") || !w.is_empty() && w.bytes().all(|b| b.is_ascii_digit()) && (w == "0" || !w.starts_with('0'))) { return None; }
            }
        }
        Some(None)
    }
    fn object(&mut self, depth: usize) -> Option<()> {
        self.ws();
        self.eat(b'{')?;
        self.ws();
        if self.eat(b'}').is_some() { return Some(()); }
        loop {
            self.ws();
            let k = self.string()?;
            self.ws();
            self.eat(b':')?;
            let v = self.value(depth)?;
            if depth == 1 { match k.as_str() { "challenge" => self.chal.push(v), "type" => self.ty.push(v), _ => {} } }
            self.ws();
            if self.eat(b',').is_some() { continue; }
            return self.eat(b'}');
        }
    }
}
/// may this client data approve the operation with hash `h`?
fn json_verdict(d: &[u8], h: &Key) -> Ok3 {
    let has = |s: &[u8]| d.windows(s.len()).any(|w| w == s);
    let c = b64(h);
    let mut j = J { d, i: 0, plain: true, chal: vec![], ty: vec![] };
    let valid = j.object(1).is_some() && { j.ws(); j.i == d.len() };
    if !valid { return if has(c.as_bytes()) && has(b"webauthn.get") { Ok3::Maybe } else { Ok3::No }; }
    let good = |v: &[Option<String>], x: &str| v.iter().filter(|s| s.as_deref() == Some(x)).count();
    let (gc, gt) = (good(&j.chal, &c), good(&j.ty, "webauthn.get"));
    if gc == 0 || gt == 0 { return Ok3::No; }
    if !j.plain || j.chal.len() != 1 || j.ty.len() != 1 { return Ok3::Maybe; }
    Ok3::Yes
}
fn raw_claim(p: &[u8], h: &Key) -> (Option<Vec<u8>>, Ok3) {
    let u = |o: usize| p.get(o..o + 2).map(|b| u16::from_le_bytes(b.try_into().unwrap()) as usize);
    let go = || -> Option<(Vec<u8>, Ok3)> {
        let al = u(2)?;
        if al >= 196 { return None; }
        let auth = p.get(4..4 + al)?;
        let jl = u(4 + al)?;
        let json = p.get(6 + al..)?;
        if jl == 0 || jl > 1024 || json.len() != jl { return None; }
        Some((signed(auth, json), json_verdict(json, h)))
    };
    match go() { Some((m, v)) => (Some(m), v), None => (None, Ok3::No) }
}
fn claim(p: &[u8], h: &Key) -> (Option<Vec<u8>>, Ok3) {
    match p.get(..2) {
        Some([1, 0]) => { let m = packed_claim(p, h); let v = if m.is_some() { Ok3::Yes } else { Ok3::No }; (m, v) }
        Some([2, 0]) => raw_claim(p, h),
        _ => (None, Ok3::No),
    }
}

// ------------------------------------------------------------------ one request
struct Req { w: World, c: Call, n: u8, idx: u8, hash: Key, good: World }
impl Req {
    fn new(ck: &Ck, wl: &Wl, w: &World, t: u16, op: &Do, ctr: u32) -> Option<Req> {
        let by = main_by(t, 11);
        let mut w = w.clone();
        let mut s = wl.sw(&w);
        s.roles[t as usize].set_odometer(ctr - 1);
        wl.store(&mut w, &s);
        let w = &w;
        let mut c = op_call(w, wl, t as u32, &by, op);
        let idx = c.index_of(&IXS, false);
        let ixs = op_ixs(w, wl, t as u32, &by, op);
        let good = note(ck, compare(Some(ck), w, wl, t as u32, &by, op, &ixs), &|| format!("kind {t} {}", op.name()))?;
        let hash = [0; 32];
        let mut r = Req { w: w.clone(), c, n: 11, idx, hash, good };
        r.hash = r.hash_for(0, ctr);
        Some(r)
    }
    fn hash_for(&self, extra: usize, ctr: u32) -> Key { let mut c = self.c.clone(); c.set_plen(17 + extra); r1_msg(&c.dp, &c.metas, self.w.slot, ctr) }
    fn ixs(&self, ctr: u32, extra: &[u8], msg: &[u8]) -> Vec<Ix> {
        let mut p = r1_payload(self.w.slot, ctr, self.idx);
        p.extend(extra);
        vec![r1_ix(&r1_pk(self.n), msg), self.c.with(&p)]
    }
    /// the payload `extra` while the passkey has signed `msg`
    fn check(&self, ck: &Ck, ctr: u32, extra: &[u8], msg: &[u8], key: &str, label: &dyn Fn() -> String) {
        let h = self.hash_for(extra.len(), ctr);
        let (m, v) = claim(extra, &h);
        let v = if m.as_deref() != Some(msg) { Ok3::No } else { v };
        let ixs = self.ixs(ctr, extra, msg);
        match v {
            Ok3::Yes => judge(ck, &self.w, &ixs, &self.good, true, key, label),
            Ok3::No => judge(ck, &self.w, &ixs, &self.good, false, key, label),
            Ok3::Maybe => judge_maybe(ck, &self.w, &ixs, &self.good, key, label),
        }
    }
}
fn genuine(kind: u8, auth: &[u8], h: &Key, origin: &str) -> (Vec<u8>, Vec<u8>) {
    let order = [1, 2, 3, 4];
    let json = client(&order, h, origin);
    if kind == 1 { let (t, e) = huffman(origin.as_bytes()); (packed(auth, &order, origin.len(), &t, &e), signed(auth, &json)) } else { (raw(auth, &json), signed(auth, &json)) }
}

pub fn p04(ck: &Ck) {
    let wl = Wl::new(37);
    let w = crowd(&wl, 11, false, None);
    let lw = crowd(&wl, 11, true, None);
    let origin = "https://app.example.com";
    let ops = |t: u16, legacy: bool| -> Vec<Do> { every_op(&wl, t as u32, legacy).into_iter().filter(|o| matches!(o, Do::Session(..)) == is_session(t)).collect() };
    // every operation, both encodings
    let mut cases = vec![];
    for legacy in [false, true] { for t in [R1, R1S] { for i in 0..ops(t, legacy).len() { for k in [1u8, 2] { cases.push((t, legacy, i, k)); } } } }
    ck.each("operations", &cases, |ck, &(t, legacy, i, k)| {
        let op = ops(t, legacy)[i].clone();
        let Some(r) = Req::new(ck, &wl, if legacy { &lw } else { &w }, t, &op, 1) else { return };
        let l = |x: &str| format!("kind {t} encoding {k} {}: {x}", op.name());
        // the hash depends on the payload length for one instruction, so size first
        let len = genuine(k, &auth_data(37), &[0; 32], origin).0.len();
        let h = r.hash_for(len, 1);
        let (p, msg) = genuine(k, &auth_data(37), &h, origin);
        r.check(ck, 1, &p, &msg, "genuine", &|| l("genuine"));
        for b in 0..256 {
            let mut h2 = h;
            h2[b / 8] ^= 1 << (b % 8);
            let (p2, msg2) = genuine(k, &auth_data(37), &h2, origin);
            r.check(ck, 1, &p2, &msg2, "challenge", &|| l("passkey signed another challenge"));
            r.check(ck, 1, &p, &msg2, "challenge", &|| l("passkey signed another challenge, payload genuine"));
        }
        r.check(ck, 1, &p, &h, "challenge", &|| l("passkey signed the bare hash"));
        r.check(ck, 1, &[], &msg, "challenge", &|| l("passkey data missing"));
        for kk in 0..=300u16 { let mut q = p.clone(); q[..2].copy_from_slice(&kk.to_le_bytes()); r.check(ck, 1, &q, &msg, "encoding", &|| l("other encoding number")); }
        for kk in [512u16, 513, 0x101, 0x201, 0xffff, 0x8001] { let mut q = p.clone(); q[..2].copy_from_slice(&kk.to_le_bytes()); r.check(ck, 1, &q, &msg, "encoding", &|| l("other encoding number")); }
        // the wrong key
        let mut x = r.ixs(1, &p, &msg);
        x[0] = r1_ix(&r1_pk(66), &msg);
        judge(ck, &r.w, &x, &r.good, false, "key", &|| l("another passkey"));
        // the approval of one counter with the next, nothing before
        judge(ck, &r.w, &r.ixs(2, &p, &msg), &r.good, false, "counter", &|| l("another counter"));
        judge(ck, &r.w, &r.ixs(1, &p, &msg)[1..], &r.good, false, "preceding", &|| l("nothing signed"));
        // somebody else's operation
        for o in ops(t, legacy) {
            if o == op { continue; }
            let Some(r2) = Req::new(ck, &wl, &r.w, t, &o, 1) else { continue };
            r2.check(ck, 1, &p, &msg, "other-operation", &|| l(&format!("used for {}", o.name())));
        }
    });
    // all characters of the challenge, padding and case
    let cases: Vec<u32> = (1..=if ck.thorough { 4000 } else { 400 }).collect();
    ck.each("challenges", &cases, |ck, &ctr| {
        let t = if ctr % 2 == 0 { R1 } else { R1S };
        let op = ops(t, false).into_iter().find(|o| matches!(o, Do::Session(..) | Do::Sign(..))).unwrap();
        let Some(r) = Req::new(ck, &wl, &w, t, &op, ctr) else { return };
        let h = r.hash;
        for k in [1u8, 2] {
            let (p, msg) = genuine(k, &auth_data(37), &h, origin);
            r.check(ck, ctr, &p, &msg, "genuine", &|| format!("encoding {k} counter {ctr}"));
        }
        let c = b64(&h);
        let json = |c: &str| format!("{{\"type\":\"webauthn.get\",\"challenge\":\"{c}\",\"origin\":\"{origin}\",\"crossOrigin\":false}}").into_bytes();
        let mut alts: Vec<String> = vec![format!("{c}="), format!("{c}A"), c[..42].into(), c[1..].into(), String::new(), c.to_lowercase(), c.replace('-', "+").replace('_', "/"), format!(" {c}"), format!("{c} "), c.chars().rev().collect()];
        for i in 0..43 { let mut b = c.clone().into_bytes(); b[i] = if b[i] == b'A' { b'B' } else { b'A' }; alts.push(String::from_utf8(b).unwrap()); }
        for a in alts {
            let j = json(&a);
            let p = raw(&auth_data(37), &j);
            r.check(ck, ctr, &p, &signed(&auth_data(37), &j), "challenge", &|| format!("challenge {a} instead of {c}"));
        }
    });
    let req = |t: u16| { let op = ops(t, false).into_iter().find(|o| matches!(o, Do::Session(..) | Do::Sign(..))).unwrap(); Req::new(ck, &wl, &w, t, &op, 1).unwrap() };
    let rs = [req(R1), req(R1S)];
    // every length of authenticator and client data
    let mut cases = vec![];
    for t in 0..2usize { for k in [1u8, 2] { for n in (0..=270).chain([300, 500, 1000]) { cases.push((t, k, n)); } } }
    ck.each("authenticator-data", &cases, |ck, &(t, k, n)| {
        let r = &rs[t];
        for origin in [origin, ""] {
            let (p, msg) = genuine(k, &auth_data(n), &r.hash, origin);
            r.check(ck, 1, &p, &msg, "authenticator-data", &|| format!("encoding {k}, {n} bytes of authenticator data"));
            // the announced length is wrong
            for d in [-37i64, -2, -1, 1, 2, 32, 256] {
                let mut q = p.clone();
                let l = n as i64 + d;
                if !(0..65536).contains(&l) { continue; }
                q[2..4].copy_from_slice(&(l as u16).to_le_bytes());
                r.check(ck, 1, &q, &msg, "authenticator-data", &|| format!("encoding {k}, {n} bytes announced as {l}"));
                if let Some(m) = claim(&q, &r.hash).0 { r.check(ck, 1, &q, &m, "authenticator-data", &|| format!("encoding {k}, {n} bytes announced as {l}, signed so")); }
            }
        }
    });
    let mut cases = vec![];
    for t in 0..2usize { for n in 0..=1100usize { cases.push((t, n)); } }
    ck.each("client-data-length", &cases, |ck, &(t, n)| {
        let r = &rs[t];
        let json = client(&FIELDS, &r.hash, &"o".repeat(n));
        let a = auth_data(37);
        r.check(ck, 1, &raw(&a, &json), &signed(&a, &json), "client-data-length", &|| format!("client data of {} bytes", json.len()));
        if n < 600 {
            // origins of this length, packed
            let o: String = (0..n).map(|i| (b'a' + (i * i % 7) as u8) as char).collect();
            let (tree, enc) = huffman(o.as_bytes());
            let json = client(&FIELDS, &r.hash, &o);
            r.check(ck, 1, &packed(&a, &FIELDS, n, &tree, &enc), &signed(&a, &json), "client-data-length", &|| format!("origin of {n} bytes"));
            for d in [n.wrapping_sub(1), n + 1, n + 7] { if d < 65536 { let p = packed(&a, &FIELDS, d, &tree, &enc); r.check(ck, 1, &p, &signed(&a, &json), "client-data-length", &|| format!("origin of {n} bytes announced as {d}")); if let Some(m) = claim(&p, &r.hash).0 { r.check(ck, 1, &p, &m, "client-data-length", &|| format!("origin of {n} bytes announced as {d}, signed so")); } } }
        }
    });
    // single-byte changes and cuts
    let origins = [origin, "", "a", "aa", "http://x\u{e9}\u{20ac}.y:8080/"];
    let mut cases = vec![];
    for t in 0..2usize { for k in [1u8, 2] { for o in 0..origins.len() { for al in [0usize, 37, 195] { cases.push((t, k, o, al)); } } } }
    ck.each("byte-changes", &cases, |ck, &(t, k, o, al)| {
        let r = &rs[t];
        let (p, msg) = genuine(k, &auth_data(al), &r.hash, origins[o]);
        let l = |x: String| format!("encoding {k} origin {:?} authenticator data {al}: {x}", origins[o]);
        r.check(ck, 1, &p, &msg, "genuine", &|| l("genuine".into()));
        for i in 0..p.len() {
            for x in 1..=255u8 {
                if !(ck.thorough || x.is_power_of_two() || x == 0xff || (i < 4 || i >= 4 + al && i < 14 + al)) { continue; }
                let mut q = p.clone();
                q[i] ^= x;
                r.check(ck, 1, &q, &msg, "byte", &|| l(format!("byte {i} ^ {x}")));
                if let Some(m) = claim(&q, &r.hash).0 { if m != msg { r.check(ck, 1, &q, &m, "byte", &|| l(format!("byte {i} ^ {x}, signed so"))); } }
            }
            let mut q = p.clone(); q.remove(i); r.check(ck, 1, &q, &msg, "byte", &|| l(format!("byte {i} dropped")));
            for b in [0u8, 1, b'"', b'}', b' '] { let mut q = p.clone(); q.insert(i, b); r.check(ck, 1, &q, &msg, "byte", &|| l(format!("byte {b} inserted at {i}"))); if let Some(m) = claim(&q, &r.hash).0 { if m != msg { r.check(ck, 1, &q, &m, "byte", &|| l(format!("byte {b} inserted at {i}, signed so"))); } } }
        }
        for n in 1..p.len() { r.check(ck, 1, &p[..n], &msg, "cut", &|| l(format!("cut to {n}"))); if let Some(m) = claim(&p[..n], &r.hash).0 { r.check(ck, 1, &p[..n], &m, "cut", &|| l(format!("cut to {n}, signed so"))); } }
        for n in 1..=40usize { let q = [&p[..], &vec![0; n]].concat(); r.check(ck, 1, &q, &msg, "cut", &|| l(format!("{n} bytes appended"))); }
        // the signed message one byte off
        for i in 0..msg.len() { let mut m2 = msg.clone(); m2[i] ^= 1; r.check(ck, 1, &p, &m2, "message", &|| l(format!("message byte {i}"))); }
        for n in 0..msg.len() { r.check(ck, 1, &p, &msg[..n], "message", &|| l(format!("message cut to {n}"))); }
        r.check(ck, 1, &p, &[&msg[..], &[0]].concat(), "message", &|| l("message extended".into()));
        r.check(ck, 1, &p, &[&[0][..], &msg].concat(), "message", &|| l("message shifted".into()));
    });
    // field orders
    let mut cases = vec![];
    for a in 0..6u8 { for b in 0..6u8 { for c in 0..6u8 { for d in 0..6u8 { cases.push([a, b, c, d]); } } } }
    for i in 0..4 { for v in 6..=255u8 { let mut o = FIELDS; o[i] = v; cases.push(o); } }
    ck.each("field-orders", &cases, |ck, o| {
        for r in &rs {
            let (tree, enc) = huffman(origin.as_bytes());
            let a = auth_data(37);
            let p = packed(&a, o, origin.len(), &tree, &enc);
            let json = client(o, &r.hash, origin);
            r.check(ck, 1, &p, &signed(&a, &json), "field-order", &|| format!("fields {o:?}"));
            r.check(ck, 1, &p, &signed(&a, &client(&FIELDS, &r.hash, origin)), "field-order", &|| format!("fields {o:?}, standard order signed"));
            r.check(ck, 1, &raw(&a, &json), &signed(&a, &json), "field-order", &|| format!("fields {o:?}, raw"));
        }
    });
    // malformed code trees
    let mut cases = vec![];
    let g: Vec<[u8; 3]> = (0..3u8).flat_map(|t| (0..4u8).flat_map(move |a| (0..4u8).map(move |b| [t, if t == 0 { b'0' + a } else { a }, b]))).collect();
    let small: Vec<[u8; 3]> = g.iter().filter(|x| x[0] < 2).cloned().collect();
    for a in &g { cases.push(a.to_vec()); for b in &g { cases.push([*a, *b].concat()); } }
    for a in &small { for b in &small { for c in if ck.thorough { &small[..] } else { &small[16..] } { cases.push([*a, *b, *c].concat()); } } }
    for n in [0usize, 1, 2, 4, 5, 7, 255 * 3, 256 * 3, 257 * 3] { cases.push(vec![1; n]); cases.push(vec![0; n]); cases.push([vec![0; n], vec![1, 0, 0]].concat()); cases.push([vec![0; n], vec![1, 255, 254]].concat()); }
    ck.each("code-trees", &cases, |ck, tree| {
        let a = auth_data(3);
        let r = &rs[0];
        for enc in [&[][..], &[0], &[0x55], &[0xff], &[0x80, 0x01]] { for n in [0usize, 1, 3, 9, 65535] {
            let p = packed(&a, &FIELDS, n, tree, enc);
            let m = claim(&p, &r.hash).0;
            let m2 = m.clone().unwrap_or_else(|| signed(&a, &client(&FIELDS, &r.hash, "")));
            r.check(ck, 1, &p, &m2, "code-tree", &|| format!("tree {tree:02x?} code {enc:02x?} length {n}"));
        } }
    });
    // client data texts
    let h = rs[0].hash;
    let c = b64(&h);
    let c2 = c.clone();
    let mut other = h;
    other[0] ^= 0x80;
    let o = b64(&other);
    let members: Vec<String> = [
        "\"challenge\":\"C\"", "\"challenge\":\"O\"", "\"type\":\"webauthn.get\"", "\"type\":\"webauthn.create\"", "\"origin\":\"https://a\"",
        "\"a\":{\"challenge\":\"C\"}", "\"a\":{\"b\":\"}\",\"challenge\":\"C\"}", "\"a\":{\"type\":\"webauthn.get\"}", "\"a\":{\"b\":\"{\"}", "\"a\":\"}\"", "\"a\":\"{\"",
        "\"challenge\":null", "\"challenge\":{\"challenge\":\"C\"}", "\"challenge\":[\"C\"]", "\"a\":[\"challenge\",\"C\"]", "\"a\":\"\\\"challenge\\\":\\\"C\\\"\"", "\"Challenge\":\"C\"", "\"challenge\\u0000\":\"C\"", "\"challengeX\":\"C\"", "\"Xchallenge\":\"C\"", "\"Xtype\":\"webauthn.get\"", "\"typeX\":\"webauthn.get\"", "\"typ\":\"webauthn.get\"", "\"challeng\":\"C\"",
        "\"type\":\"webauthn.get \"", "\"type\":\"webauthn.ge\"", "\"crossOrigin\":false", "\"a\":{\"b\":{\"b\":\"}\"},\"challenge\":\"C\"}", "\"a\":\"challenge\"", "\"challenge\" : \"C\"", "\"type\" :\n\"webauthn.get\"", "\"a\":{\"b\":\"}\",\"type\":\"webauthn.get\"}", "\"a\":12", "\"a\":[{\"challenge\":\"C\"}]", "\"a\":[\"}\"]", "\"a\":{\"b\":\"\\\"}\",\"challenge\":\"C\"}", "\"\":\"\"", "\"challenge\":\"\"",
    ].iter().map(|s| s.replace('C', &c2).replace("Challenge", "\u{1}").replace('\u{1}', "Challenge").replace('O', &o).replace(&format!("cross{o}rigin"), "crossOrigin").replace(&format!("{c2}hallenge"), "Challenge")).collect();
    let nm = members.len();
    let mut cases: Vec<Vec<usize>> = vec![vec![]];
    for a in 0..nm { cases.push(vec![a]); for b in 0..nm { cases.push(vec![a, b]); for c in 0..nm { cases.push(vec![a, b, c]); } } }
    ck.each("client-data-members", &cases, |ck, ms| {
        let a = auth_data(37);
        let r = &rs[0];
        let go = |ms: &[usize]| {
            let body: Vec<&str> = ms.iter().map(|i| members[*i].as_str()).collect();
            let t = format!("{{{}}}", body.join(","));
            for (pre, post) in [("", ""), (" \n", "\t ")] {
                let json = format!("{pre}{t}{post}").into_bytes();
                r.check(ck, 1, &raw(&a, &json), &signed(&a, &json), "client-data", &|| format!("client data {}", String::from_utf8_lossy(&json)));
            }
        };
        go(ms);
        if ck.thorough && ms.len() == 3 { for d in 0..nm { go(&[ms[0], ms[1], ms[2], d]); } }
    });
    // arbitrary token strings
    let toks: Vec<String> = ["{", "}", "[", "]", ":", ",", "\"", " ", "\"challenge\"", "\"type\"", "\"C\"", "\"webauthn.get\"", "\"challenge\":\"C\"", "\"type\":\"webauthn.get\"", "\"a\"", "\\", "0"].iter().map(|s| s.replace('C', &c)).collect();
    let n = toks.len();
    let mut cases = vec![];
    for a in 0..n { for b in 0..n { for c in 0..n { cases.push((a, b, c)); } } }
    ck.each("client-data-tokens", &cases, |ck, &(x, y, z)| {
        let a = auth_data(37);
        let r = &rs[0];
        let run = |s: String| { let json = s.into_bytes(); r.check(ck, 1, &raw(&a, &json), &signed(&a, &json), "client-data", &|| format!("client data {}", String::from_utf8_lossy(&json))); };
        let s = format!("{}{}{}", toks[x], toks[y], toks[z]);
        run(s.clone());
        for d in &toks { run(format!("{s}{d}")); for e in &toks { run(format!("{s}{d}{e}")); if ck.thorough { for f in &toks { run(format!("{s}{d}{e}{f}")); } } } }
    });
    let _ = diff as fn(&World, &World) -> Option<String>;
}
