//! P29: histories of SDK wallet calls against an emulated cluster.
use crate::mcx::*;
use crate::p_auth::{crowd, every_op};
use crate::p_cli::*;
use crate::p_roles::cr;
use crate::p_sdk::meaning;
use crate::p_sign::{base, LTD, OWNER};
use crate::progs::r1_sig;
use crate::spec::*;
use crate::sw::*;
use crate::vm::*;
use solana_client::{Cluster, CLUSTER};
use solana_program::pubkey::Pubkey;
use solana_sdk::{account::Account, message::VersionedMessage, signature::Keypair, transaction::VersionedTransaction};
use std::{cell::RefCell, rc::Rc};
use swig_sdk::client_role::*;
use swig_sdk::types::{Permission as P, UpdateAuthorityData as U};
use swig_sdk::{SwigError, SwigWallet};

#[derive(Clone, Default)]
struct Net { w: World, sent: Option<Vec<Ix>> }
#[derive(Clone)]
struct Shared(Rc<RefCell<Net>>);
/// The instructions of a transaction, with the account privileges the runtime gives them.
fn unpack(tx: &VersionedTransaction) -> Result<Vec<Ix>, String> {
    let VersionedMessage::V0(msg) = &tx.message else { return Err("message version".into()) };
    let (h, keys) = (&msg.header, &msg.account_keys);
    let (ns, n) = (h.num_required_signatures as usize, keys.len());
    if tx.signatures.len() != ns || !msg.address_table_lookups.is_empty() { return Err("signatures".into()); }
    let body = tx.message.serialize();
    if !tx.signatures.iter().zip(keys).all(|(s, k)| s.verify(k.as_ref(), &body)) { return Err("bad signature".into()); }
    let meta = |i: u8| {
        let i = i as usize;
        Meta { key: keys[i].to_bytes(), signer: i < ns, writable: if i < ns { i < ns - h.num_readonly_signed_accounts as usize } else { i < n - h.num_readonly_unsigned_accounts as usize } }
    };
    Ok(msg.instructions.iter().map(|c| Ix { prog: keys[c.program_id_index as usize].to_bytes(), metas: c.accounts.iter().map(|i| meta(*i)).collect(), data: c.data.clone() }).collect())
}
impl Cluster for Shared {
    fn account(&self, k: &Pubkey) -> Option<Account> {
        self.0.borrow().w.get(&k.to_bytes()).filter(|a| a.lamports > 0).map(|a| Account { lamports: a.lamports, data: a.data.clone(), owner: pk(&a.owner), executable: a.exec, rent_epoch: 0 })
    }
    fn slot(&self) -> u64 { self.0.borrow().w.slot }
    fn send(&mut self, tx: &VersionedTransaction) -> Result<(), String> {
        let ixs = unpack(tx)?;
        let mut net = self.0.borrow_mut();
        net.sent = Some(ixs.clone());
        let d = exec(&net.w, &ixs).map_err(|e| format!("{e:?}"))?;
        net.w = d.world;
        Ok(())
    }
}
fn key_of(n: u8) -> Keypair { Keypair::new_from_array(ed_seed(n)) }
/// session keys in these histories
fn skey(t: u16) -> u8 { 100 + t as u8 }
fn client_role(wl: &Wl, t: u16, by: &By) -> Box<dyn ClientRole> {
    use swig_state::authority::{ed25519::CreateEd25519SessionAuthority as E, secp256k1::CreateSecp256k1SessionAuthority as K, secp256r1::CreateSecp256r1SessionAuthority as R};
    let n = match by { By::Main(c) => c.n, _ => 11 };
    let kf = Box::new(move |m: &[u8]| k1_sign(n, m.try_into().unwrap()));
    let rf = Box::new(move |m: &[u8]| r1_sig(&r1_pk(n), m));
    match by {
        By::Sess(k) => {
            let mut v = cr(t, n).create();
            let o = match t { EDS => 32, K1S => 64, R1S => 40, _ => 0 };
            v[o..o + 32].copy_from_slice(k);
            match t {
                K1S => Box::new(Secp256k1SessionClientRole::new(read::<K>(&v), kf)),
                R1S => Box::new(Secp256r1SessionClientRole::new(read::<R>(&v), rf)),
                _ => Box::new(Ed25519SessionClientRole::new(E::new(ed_key(n), *k, 5))),
            }
        }
        By::Main(c) => match c.t {
            ED | EDS => Box::new(Ed25519ClientRole::new(pk(&ed_key(n)))),
            K1 | K1S => Box::new(Secp256k1ClientRole::new(k1_full(n).to_vec().into(), kf)),
            R1 | R1S => Box::new(Secp256r1ClientRole::new(r1_pk(n), rf)),
            _ => { let pre = Ix { metas: vec![m(wl.swig), m(wl.wallet)], ..pe_ix(n, &[]) }; Box::new(ProgramExecClientRole::new(pk(&pe_prog(n)), pe_prefix(n), move || to(&pre))) }
        },
    }
}
#[derive(Clone, Debug)]
enum Step { Op(Do), Wait(u64) }
/// what the wallet object is asked to do for an operation
fn call(x: &mut SwigWallet, wl: &Wl, role: u32, op: &Do) -> Option<Result<(), SwigError>> {
    let s1 = |o: u32| pk(&wl.sub1(o).0);
    let inner = |l: &[Ix]| l.iter().map(to).collect::<Vec<_>>();
    let one = |l: &[Act]| l.iter().map(|a| meaning(a).unwrap()).collect::<Vec<P>>();
    Some(match op {
        Do::Add(c, l) => x.add_authority(aty(c.t), &c.create(), one(l)).map(|_| ()),
        // by credential: the harness only removes ed25519 ones
        Do::Remove(9) => x.remove_authority(&ed_key(LTD.n)).map(|_| ()),
        Do::Up(t, Upd::Append(l)) => x.update_authority(*t, U::AddActions(one(l))).map(|_| ()),
        Do::Session(d, k) => x.create_session(pk(k), *d),
        Do::Claimer(k) => x.set_rent_claimer(pk(k)).map(|_| ()),
        Do::Sign(l) => x.sign_v2(inner(l), None).map(|_| ()),
        Do::S1Create => x.create_sub_account().map(|_| ()),
        Do::S1Wd(o, n, None) => x.withdraw_from_sub_account(s1(*o), *n).map(|_| ()),
        Do::S1Sign(_, l) => x.sign_with_sub_account(inner(l), None).map(|_| ()),
        Do::S1Tog(t, o, e) => x.toggle_sub_account(s1(*o), role, *t, *e).map(|_| ()),
        Do::S2Create => x.create_sub_account_v2().map(|_| ()),
        Do::S2Tog(i, e) => x.toggle_sub_account_v2(*i, *e).map(|_| ()),
        Do::S2Sign(i, l) => x.sign_with_sub_account_v2(*i, inner(l), None).map(|_| ()),
        Do::S2Wd(i, n, None) => x.withdraw_from_sub_account_v2(*i, *n).map(|_| ()),
        _ => return None,
    })
}
fn history(ck: &Ck, wl: &Wl, start: &World, role: u32, t: u16, by: &By, steps: &[Step], payer: &Keypair, kp: Option<&Keypair>) {
    ck.count("histories", 1);
    let net = Shared(Rc::new(RefCell::new(Net { w: start.clone(), sent: None })));
    CLUSTER.with(|c| *c.borrow_mut() = Some(Box::new(net.clone())));
    let owner = key_of(OWNER.n);
    let who = format!("role {role} ({t}) by {by:?}");
    let fail = |key: &str, msg: String, i: usize| ck.fail(&format!("{}:{key}", cred_name(by)), format!("{who}: {msg}"), vec![format!("{}", trunc(&format!("{:?}", &steps[..i]), 1500))], None);
    let r = if t == ED || matches!((t, by), (K1 | R1 | PE, By::Main(_))) {
        SwigWallet::new(wl.id, client_role(wl, t, by), payer, String::new(), kp)
    } else {
        SwigWallet::new(wl.id, Box::new(Ed25519ClientRole::new(pk(&ed_key(OWNER.n)))), payer, String::new(), Some(&owner)).and_then(|mut x| { x.switch_authority(role, client_role(wl, t, by), kp)?; Ok(x) })
    };
    let mut x = match r { Ok(x) => x, Err(e) => return fail("open", format!("cannot be opened: {e:?}"), 0) };
    for (i, s) in steps.iter().enumerate() {
        let op = match s { Step::Wait(n) => { net.0.borrow_mut().w.slot += n; continue; } Step::Op(op) => op };
        // a role removed from under its own wallet object
        let before = net.0.borrow().w.clone();
        net.0.borrow_mut().sent = None;
        let Some(r) = call(&mut x, wl, role, op) else { return };
        ck.count("calls", 1);
        let (after, sent) = { let n = net.0.borrow(); (n.w.clone(), n.sent.clone()) };
        ck.see(&after);
        ck.trans(1);
        let ops: Vec<Do> = match op { Do::Sign(l) => l.iter().map(|i| Do::Sign(vec![i.clone()])).collect(), o => vec![o.clone()] };
        let mut exp: Result<World, String> = Ok(before.clone());
        for o in &ops {
            exp = exp.and_then(|w| {
                let mine = op_ixs(&w, wl, role, by, o);
                let metas = sent.as_ref().map_or(&mine.last().unwrap().metas, |s| &s.last().unwrap().metas);
                expect(&w, wl, role, by, o, metas).map_err(|e| format!("{e:?}"))
            });
        }
        match (exp, &r) {
            (Ok(e), Ok(())) => { if let Some(d) = crate::model::diff(&e, &after) { return fail(&format!("{}:effect", op.name()), format!("wrong effect: {d}"), i + 1); } ck.count("carried out", 1); }
            (Err(_), Err(_)) => { if after != before { return fail(&format!("{}:partial", op.name()), "reported as failed, but something changed".into(), i + 1); } }
            (Ok(_), Err(e)) => return fail(&format!("{}:failed", op.name()), format!("failed: {} ({})", trunc(&format!("{e:?}"), 200), if after == before { "no effect" } else { "after it took effect" }), i + 1),
            (Err(e), Ok(())) => return fail(&format!("{}:accepted", op.name()), format!("reported as done although {e}"), i + 1),
        }
        // what the object says about its role is what the chain holds
        let sw = wl.sw(&after);
        let Some(rl) = sw.role(role) else { return };
        if matches!(rl.aty, K1 | K1S | R1 | R1S) && x.get_odometer().ok() != Some(rl.odometer()) { return fail(&format!("{}:counter", op.name()), format!("counter {:?} instead of {}", x.get_odometer().ok(), rl.odometer()), i + 1); }
        let mut want: Vec<String> = rl.acts.iter().filter_map(meaning).map(|p| format!("{p:?}")).collect();
        let mut got: Vec<String> = x.get_current_permissions().map(|l| l.iter().map(|p| format!("{p:?}")).collect()).unwrap_or_default();
        want.sort(); got.sort(); want.dedup(); got.dedup();
        if want != got { return fail(&format!("{}:permissions", op.name()), format!("holds {want:?}, reported {got:?}"), i + 1); }
        if x.get_sub_account_v2_counter().ok() != Some(sw.subctr) || x.get_role_count().ok() != Some(sw.counter) { return fail("counts", "role or sub-account count differs".into(), i + 1); }
    }
}
pub fn p29(ck: &Ck) {
    ck.assume("an emulated cluster answers the SDK's RPC calls; transactions carry real ed25519 signatures, which are verified");
    let wl = Wl::new(143);
    let n = 11u8;
    let mut cases: Vec<(u16, By, Vec<Step>)> = vec![];
    for t in AUTH_TYPES {
        let t32 = t as u32;
        let mut who = vec![];
        if t != PES { who.push(By::Main(cr(t, n))); }
        if is_session(t) { who.push(By::Sess(ed_key(skey(t)))); }
        for by in who {
            let pe = matches!(by, By::Main(Cred { t: PE, .. }));
            let mut al: Vec<Step> = every_op(&wl, t32, false).into_iter().filter(|o| !matches!(o, Do::Replace(..) | Do::CloseTok(..) | Do::CloseSwig(..) | Do::Transfer(..) | Do::Sign(..)) && !(pe && matches!(o, Do::S2Create | Do::S2Tog(..) | Do::S2Sign(..) | Do::S2Wd(..) | Do::Claimer(..)))).map(Step::Op).collect();
            // approving instructions of fixed accounts suit only these
            if pe { al.retain(|s| matches!(s, Step::Op(Do::Remove(_)))); al.clear(); }
            if matches!(by, By::Sess(_)) { al.retain(|s| !matches!(s, Step::Op(Do::Session(..)))); }
            let pay = |v: &[u64]| Step::Op(Do::Sign(v.iter().map(|v| sys_transfer(&wl.wallet, &DEST, *v)).collect()));
            al.extend([pay(&[1]), pay(&[1, 2]), pay(&[1 << 50]), Step::Wait(3)]);
            if is_session(t) { al.push(Step::Wait(90)); }
            let depth = if ck.thorough { 4 } else { 3 };
            let mut level: Vec<Vec<Step>> = vec![vec![]];
            for _ in 0..depth {
                level = level.iter().flat_map(|l| al.iter().map(move |s| { let mut v = l.clone(); v.push(s.clone()); v })).collect();
            }
            cases.extend(level.into_iter().map(|l| (t, by.clone(), l)));
        }
    }
    let mut w = crowd(&wl, n, false, Some(90));
    w.fund(wl.wallet, rent(0) + 1000);
    let mut s = wl.sw(&w);
    for r in s.roles.iter_mut() { if is_session(r.aty) { let o = sess_off(r.aty); r.auth[o..o + 32].copy_from_slice(&ed_key(skey(r.aty))); } r.set_odometer(200 + r.id); }
    wl.store(&mut w, &s);
    let payer = Keypair::new_from_array(PAYER_SEED);
    let keys: Vec<Keypair> = (0..=255).map(key_of).collect();
    ck.each("histories", &cases, |ck, (t, by, l)| {
        let kp = match by { By::Sess(_) => Some(&keys[skey(*t) as usize]), By::Main(c) if matches!(c.t, ED | EDS) => Some(&keys[n as usize]), _ => None };
        history(ck, &wl, &w, *t as u32, *t, by, l, &payer, kp);
    });
    // a wallet created by the SDK, then used
    let fresh: Vec<Cred> = [ED, K1, R1, PE].map(|t| cr(t, n)).to_vec();
    ck.each("new wallets", &fresh, |ck, c| {
        let wl = Wl::new(144);
        let net = Shared(Rc::new(RefCell::new(Net { w: base(), sent: None })));
        CLUSTER.with(|x| *x.borrow_mut() = Some(Box::new(net.clone())));
        let kp = (c.t == ED).then(|| &keys[n as usize]);
        let by = By::Main(*c);
        let r = SwigWallet::new(wl.id, client_role(&wl, c.t, &by), &payer, String::new(), kp).map(|_| ());
        let after = net.0.borrow().w.clone();
        let mine = create_ix(&wl, c, &[a_all()]);
        match (crate::p_life::expect_create(&base(), &mine), r) {
            (Ok(e), Ok(())) if crate::model::diff(&e, &after).is_none() => {}
            (_, r) => return ck.fail("create", format!("creation by {c:?}: {r:?}"), vec![], None),
        }
        let mut w = after;
        w.fund(wl.wallet, rent(0) + 1000);
        let pay = Step::Op(Do::Sign(vec![sys_transfer(&wl.wallet, &DEST, 1)]));
        history(ck, &wl, &w, 0, c.t, &by, &[pay.clone(), pay], &payer, kp);
    });
}
