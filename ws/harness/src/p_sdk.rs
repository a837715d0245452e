//! P28: the transactions the SDK builds, and its form of permissions, judged
//! by the same reference models as the program.
use crate::mcx::*;
use crate::p_auth::{crowd, every_op, own};
use crate::p_cli::*;
use crate::p_life::expect_create;
use crate::p_roles::cr;
use crate::p_sign::{base, OWNER};
use crate::progs::r1_sig;
use crate::spec::*;
use crate::sw::*;
use crate::vm::*;
use solana_program::instruction::Instruction;
use solana_program::pubkey::Pubkey;
use swig_sdk::client_role::*;
use swig_sdk::types::{Permission as P, RecurringConfig, UpdateAuthorityData as U};
use swig_sdk::SwigInstructionBuilder;

fn g64(d: &[u8], o: usize) -> u64 { u64::from_le_bytes(d[o..o + 8].try_into().unwrap()) }
fn g32(d: &[u8], o: usize) -> u32 { u32::from_le_bytes(d[o..o + 4].try_into().unwrap()) }
fn gk(d: &[u8], o: usize) -> Pubkey { Pubkey::new_from_array(d[o..o + 32].try_into().unwrap()) }
/// What a stored record means, in the SDK's terms; none for what it cannot express.
pub fn meaning(a: &Act) -> Option<P> {
    let d = &a.data[..];
    let rec = |w: u64, r: u64, c: u64| Some(RecurringConfig { window: w, last_reset: r, current_amount: c });
    Some(match a.ty {
        perm::ALL => P::All,
        perm::MANAGE => P::ManageAuthority,
        perm::REPLACE => P::ReplaceAuthority { role_id: g32(d, 0) },
        perm::SOL => P::Sol { amount: g64(d, 0), recurring: None },
        perm::SOL_REC => P::Sol { amount: g64(d, 0), recurring: rec(g64(d, 8), g64(d, 16), g64(d, 24)) },
        perm::SOL_DEST => P::SolDestination { destination: gk(d, 0), amount: g64(d, 32), recurring: None },
        perm::SOL_REC_DEST => P::SolDestination { destination: gk(d, 0), amount: g64(d, 32), recurring: rec(g64(d, 40), g64(d, 48), g64(d, 56)) },
        perm::TOK => P::Token { mint: gk(d, 0), amount: g64(d, 32), recurring: None },
        perm::TOK_REC => P::Token { mint: gk(d, 0), amount: g64(d, 40), recurring: rec(g64(d, 32), g64(d, 56), g64(d, 48)) },
        perm::TOK_DEST => P::TokenDestination { mint: gk(d, 0), destination: gk(d, 32), amount: g64(d, 64), recurring: None },
        perm::TOK_REC_DEST => P::TokenDestination { mint: gk(d, 0), destination: gk(d, 32), amount: g64(d, 64), recurring: rec(g64(d, 72), g64(d, 80), g64(d, 88)) },
        perm::PROGRAM => P::Program { program_id: gk(d, 0) },
        perm::PROG_ALL => P::ProgramAll,
        perm::CURATED => P::ProgramCurated,
        perm::SCOPE => {
            let s = parse_scope(d);
            P::ProgramScope { program_id: gk(&s.prog, 0), target_account: gk(&s.target, 0), numeric_type: s.num, limit: if s.kind > 0 { Some(u64::try_from(s.lim).ok()?) } else { None }, window: if s.kind == 2 { Some(s.win) } else { None }, balance_field_start: Some(s.start), balance_field_end: Some(s.end) }
        }
        perm::SUB => P::SubAccount { sub_account: d[..32].try_into().unwrap() },
        perm::STAKE => P::Stake { amount: g64(d, 0), recurring: None },
        perm::STAKE_REC => P::Stake { amount: g64(d, 0), recurring: rec(g64(d, 8), g64(d, 16), g64(d, 24)) },
        perm::STAKE_ALL => P::StakeAll,
        perm::ALL_BUT => P::AllButManageAuthority,
        perm::V2_CREATE => P::SubAccountV2Create,
        perm::V2_ALL => P::SubAccountV2All { subacc_id: g32(d, 0) },
        perm::V2_SIGN => P::SubAccountV2Sign { subacc_id: g32(d, 0) },
        perm::V2_WITHDRAW => P::SubAccountV2Withdraw { subacc_id: g32(d, 0) },
        perm::V2_TOGGLE => P::SubAccountV2Toggle { subacc_id: g32(d, 0) },
        _ => return None,
    })
}
/// a record that a permission of the SDK, freshly granted, stands for
fn fresh(a: &Act) -> bool {
    let d = &a.data[..];
    match a.ty {
        perm::SOL_REC | perm::STAKE_REC => g64(d, 16) == 0 && g64(d, 24) == g64(d, 0),
        perm::SOL_REC_DEST => g64(d, 48) == 0 && g64(d, 56) == g64(d, 32),
        perm::TOK_REC => g64(d, 56) == 0 && g64(d, 48) == g64(d, 40),
        perm::TOK_REC_DEST => g64(d, 80) == 0 && g64(d, 88) == g64(d, 64),
        perm::SCOPE => { let s = parse_scope(d); s.cur == 0 && s.last == 0 && (s.kind > 0 || s.lim == 0) && (s.kind == 2 || s.win == 0) }
        perm::SUB => *d == a_sub_new(d[..32].try_into().unwrap())[..],
        _ => true,
    }
}
fn a_sub_new(k: [u8; 32]) -> Vec<u8> { let mut v = swig_state::action::sub_account::SubAccount::new(k); let _ = &mut v; unsafe { std::slice::from_raw_parts(&v as *const _ as *const u8, std::mem::size_of_val(&v)) }.to_vec() }
fn perms(l: &[Act]) -> Option<Vec<P>> { l.iter().map(|a| meaning(a).filter(|_| fresh(a))).collect() }
/// any permission of the given kind
fn of_kind(t: u16) -> Option<P> { crate::p_roles::specimens().iter().find(|a| a.ty == t).and_then(meaning) }
fn upd(u: &Upd) -> Option<U> {
    Some(match u {
        Upd::Replace(a) => U::ReplaceAll(perms(a)?),
        Upd::Append(a) => U::AddActions(perms(a)?),
        Upd::ByType(t) => U::RemoveActionsByType(t.iter().map(|t| of_kind(*t as u16)).collect::<Option<_>>()?),
        Upd::ByIndex(t) => U::RemoveActionsByIndex(t.clone()),
        Upd::Raw(..) => return None,
    })
}
/// The SDK's form of a credential.
fn client_role(t: u16, by: &By, ctr: u32, session: bool, first: &[Key]) -> Option<Box<dyn ClientRole>> {
    use swig_state::authority::{ed25519::CreateEd25519SessionAuthority as E, secp256k1::CreateSecp256k1SessionAuthority as K, secp256r1::CreateSecp256r1SessionAuthority as R};
    let first = first.to_vec();
    let n = match by { By::Main(c) => c.n, _ => 0 };
    let kf = Box::new(move |m: &[u8]| k1_sign(n, m.try_into().unwrap()));
    let rf = Box::new(move |m: &[u8]| r1_sig(&r1_pk(n), m));
    let mut r: Box<dyn ClientRole> = match by {
        By::Sess(k) => match t {
            EDS | PES => Box::new(Ed25519SessionClientRole::new(E::new([9; 32], *k, 5))),
            K1S => Box::new(Secp256k1SessionClientRole::new(K { public_key: [9; 64], session_key: *k, max_session_length: 5 }, kf)),
            R1S => { let mut v = cr(R1S, 1).create(); v[40..72].copy_from_slice(k); Box::new(Secp256r1SessionClientRole::new(read::<R>(&v), rf)) }
            _ => Box::new(Ed25519ClientRole::new(pk(k))),
        },
        By::Main(c) => match c.t {
            EDS if session => Box::new(Ed25519SessionClientRole::new(read::<E>(&c.create()))),
            K1S if session => Box::new(Secp256k1SessionClientRole::new(read::<K>(&c.create()), kf)),
            R1S if session => Box::new(Secp256r1SessionClientRole::new(read::<R>(&c.create()), rf)),
            ED | EDS => Box::new(Ed25519ClientRole::new(pk(&ed_key(n)))),
            K1 | K1S => Box::new(Secp256k1ClientRole::new(if n % 2 == 0 { k1_full(n).to_vec() } else { [&[4u8][..], &k1_full(n)].concat() }.into(), kf)),
            R1 | R1S => Box::new(Secp256r1ClientRole::new(r1_pk(n), rf)),
            _ => {
                let mut pre = pe_ix(n, &[]);
                pre.metas = first.iter().map(|k| m(*k)).collect();
                Box::new(ProgramExecClientRole::new(pk(&pe_prog(n)), pe_prefix(n), move || to(&pre)))
            }
        },
    };
    let _ = r.update_odometer(ctr);
    Some(r)
}
fn builder(w: &World, wl: &Wl, role: u32, t: u16, by: &By, session: bool, first: &[Key]) -> Option<SwigInstructionBuilder> {
    let ctr = Sw::parse(w.data(&wl.swig)).ok().and_then(|s| s.role(role).map(|r| r.odometer())).unwrap_or(0);
    Some(SwigInstructionBuilder::new(wl.id, client_role(t, by, ctr, session, first)?, pk(&PAYER), role))
}
fn sdk(w: &World, wl: &Wl, role: u32, t: u16, by: &By, op: &Do) -> Out {
    let out = sdk_with(w, wl, role, t, by, op, &[wl.swig, wl.wallet])?;
    // an approving instruction names the accounts of what it approves
    match (by, &out) {
        (By::Main(Cred { t: PE | PES, .. }), Ok(v)) if v.len() == 2 => sdk_with(w, wl, role, t, by, op, &v[1].accounts.iter().take(2).map(|a| a.pubkey.to_bytes()).collect::<Vec<_>>()),
        _ => Some(out),
    }
}
fn sdk_with(w: &World, wl: &Wl, role: u32, t: u16, by: &By, op: &Do, first: &[Key]) -> Out {
    let mut b = builder(w, wl, role, t, by, matches!(op, Do::Session(..)), first)?;
    let slot = Some(w.slot);
    let subctr = Sw::parse(w.data(&wl.swig)).map_or(0, |s| s.subctr);
    let s1 = |o: u32| pk(&wl.sub1(o).0);
    let inner = |l: &[Ix]| l.iter().map(to).collect::<Vec<_>>();
    let r: Result<Vec<Instruction>, _> = match op {
        Do::Add(c, l) => {
            let mut id = c.create();
            if c.t == K1 && c.n % 2 == 1 && matches!(by, By::Main(Cred { t: K1 | K1S, .. })) { id.insert(0, 4); }
            b.add_authority_instruction(aty(c.t), &id, perms(l)?, slot)
        }
        Do::Remove(t) => b.remove_authority(*t, slot),
        Do::Up(t, u) => b.update_authority(*t, slot, upd(u)?),
        Do::Session(..) if matches!(by, By::Sess(_)) => return None,
        Do::Session(d, k) => b.create_session_instruction(pk(k), *d, slot, None),
        Do::Claimer(k) => { if matches!(by, By::Main(Cred { t: PE | PES, .. })) { return None; } b.set_rent_claimer(pk(k), slot) }
        Do::Sign(l) => { if l.len() != 1 { return None; } b.sign_v2_instruction(inner(l), slot) }
        Do::S1Create => b.create_sub_account(slot),
        Do::S1Wd(o, n, None) => b.withdraw_from_sub_account(s1(*o), *n, slot),
        Do::S1Wd(o, n, Some((x, y, p))) => b.withdraw_token_from_sub_account(s1(*o), pk(x), pk(y), pk(p), *n, slot),
        Do::S1Sign(o, l) => { if *o != role { return None; } b.sign_instruction_with_sub_account(inner(l), slot) }
        Do::S1Tog(t, o, e) => b.toggle_sub_account(s1(*o), *t, role, *e, slot),
        Do::S2Create | Do::S2Tog(..) | Do::S2Sign(..) | Do::S2Wd(..) if matches!(by, By::Main(Cred { t: PE | PES, .. })) => return None,
        Do::S2Create => b.create_sub_account_v2(pk(&wl.sub2_state(subctr).0), pk(&wl.sub2(subctr).0), wl.sub2_state(subctr).1, wl.sub2(subctr).1, slot),
        Do::S2Tog(i, e) => b.toggle_sub_account_v2(*i, *e, slot),
        Do::S2Sign(i, l) => b.sign_instruction_with_sub_account_v2(*i, inner(l), slot),
        Do::S2Wd(i, n, None) => b.withdraw_from_sub_account_v2(*i, *n, slot),
        Do::S2Wd(i, n, Some((x, y, p))) => b.withdraw_token_from_sub_account_v2(*i, pk(x), pk(y), pk(p), *n, slot),
        _ => return None,
    };
    Some(r.map_err(|e| format!("{e:?}")))
}
fn ask(ck: &Ck, w: &World, wl: &Wl, role: u32, t: u16, by: &By, op: &Do, label: &dyn Fn() -> String) -> Option<World> {
    judge(ck, w, wl, role, by, op, Way::Plain, &[], label, sdk(w, wl, role, t, by, op)?)
}
/// several payments requested at once: the effect of one after the other
fn batch(ck: &Ck, w: &World, wl: &Wl, role: u32, t: u16, by: &By, l: &[Ix]) {
    ck.count("requests", 1);
    let mut b = match builder(w, wl, role, t, by, false, &[wl.swig, wl.wallet]) { Some(b) => b, None => return };
    let ixs: Vec<Ix> = match b.sign_v2_instruction(l.iter().map(to).collect(), Some(w.slot)) { Ok(v) => v.iter().map(from).collect(), Err(e) => return ck.fail(&format!("{}:batch", cred_name(by)), format!("not built: {e:?}"), vec![], None) };
    let mut exp: Result<World, String> = Ok(w.clone());
    for i in l {
        exp = exp.and_then(|w| {
            let op = Do::Sign(vec![i.clone()]);
            let mine = op_ixs(&w, wl, role, by, &op);
            expect(&w, wl, role, by, &op, &mine.last().unwrap().metas).map_err(|e| format!("{e:?}"))
        });
    }
    let got = ck.exec(w, &ixs);
    match (exp, got) {
        (Ok(e), Ok(g)) => { if let Some(d) = crate::model::diff(&e, &g.world) { ck.fail(&format!("{}:batch", cred_name(by)), format!("{} payments by {by:?}: {d}", l.len()), vec![], Some((w.clone(), ixs))); } else { ck.count("carried out", 1); } }
        (Err(_), Err(_)) => {}
        (Ok(_), Err(e)) => ck.fail(&format!("{}:batch", cred_name(by)), format!("{} payments by {by:?}: refused: {e:?}", l.len()), vec![], Some((w.clone(), ixs))),
        (Err(e), Ok(_)) => ck.fail(&format!("{}:batch", cred_name(by)), format!("{} payments by {by:?}: carried out although {e}", l.len()), vec![], Some((w.clone(), ixs))),
    }
}
fn reported(w: &World, wl: &Wl, role: u32) -> Result<Vec<P>, String> {
    let s = swig_state::swig::SwigWithRoles::from_bytes(w.data(&wl.swig)).map_err(|e| format!("{e:?}"))?;
    let r = s.get_role(role).map_err(|e| format!("{e:?}"))?.ok_or("no role")?;
    P::from_role(&r).map_err(|e| format!("{e:?}"))
}
fn sorted(v: &[P]) -> Vec<String> { let mut v: Vec<String> = v.iter().map(|p| format!("{p:?}")).collect(); v.sort(); v }
pub fn p28(ck: &Ck) {
    ck.assume("the SDK is compiled against shims for solana-sdk, solana-client, alloy and spl crates; requests carry the wallet's current slot and counter");
    let wl = Wl::new(142);
    let n = 11u8;
    // creation
    let creds: Vec<Cred> = AUTH_TYPES.iter().flat_map(|t| [7u8, 8, 9].map(|n| cr(*t, n))).filter(|c| c.t != PES).collect();
    ck.each("creation", &creds, |ck, c| {
        ck.count("requests", 1);
        let w = base();
        let b = SwigInstructionBuilder::new(wl.id, client_role(c.t, &By::Main(*c), 0, true, &[]).unwrap(), pk(&PAYER), 0);
        if b.get_swig_account().unwrap().to_bytes() != wl.swig || b.swig_wallet_address().to_bytes() != wl.wallet { ck.fail("addresses", "derived addresses differ".into(), vec![], None); }
        let ix = match b.build_swig_account() { Ok(i) => from(&i), Err(e) => return ck.fail("create:not-built", format!("{c:?}: {e:?}"), vec![], None) };
        let mine = create_ix(&wl, c, &[a_all()]);
        if let Err(b) = verdict(Some(ck), &w, expect_create(&w, &mine), &[ix], "create", &|| format!("creation by {c:?}")) { ck.fail(&b.key, b.msg, vec![], b.last); }
    });
    // every operation by every credential, wanted and unwanted
    let mut cases = vec![];
    for t in AUTH_TYPES { for legacy in [false, true] {
        let t32 = t as u32;
        let mut w = crowd(&wl, n, legacy, Some(90));
        let toks = tokens(&mut w, &wl, t32);
        let mut ops = every_op(&wl, t32, legacy);
        for c in AUTH_TYPES { for k in [96, 97] { ops.push(Do::Add(cr(c, k), vec![a_sol(1), a_v2(perm::V2_SIGN, 3)])); } }
        for x in [0u32, 1, 9, 10, 256, u32::MAX] { ops.extend([Do::Remove(x), Do::Up(x, Upd::Append(vec![a_sol(3)])), Do::S1Tog(x, t32, false), Do::S1Wd(x, 1, None), Do::S2Tog(x, false), Do::S2Wd(x, 1, None), Do::S2Sign(x, vec![])]); }
        for x in [0u64, 1, 30, 31, 256, rent(0) + 30, u64::MAX] { ops.extend([Do::S1Wd(t32, x, None), Do::S2Wd(0, x, None), Do::Session(x, sess_key(99))]); }
        for (p, a, b, c) in &toks { for x in [0u64, 1, 9, 10, u64::MAX] { ops.extend([Do::S1Wd(t32, x, Some((*b, *a, *p))), Do::S2Wd(0, x, Some((*c, *a, *p)))]); } }
        for e in [false, true] { ops.extend([Do::S1Tog(t32, t32, e), Do::S2Tog(0, e)]); }
        ops.extend([Do::Up(9, Upd::Replace(vec![a_sol(3), a_all()])), Do::Up(9, Upd::ByType(vec![1, 7])), Do::Up(9, Upd::ByIndex(vec![0])), Do::Up(t32, Upd::ByIndex(vec![1, 2])), Do::Up(t32, Upd::ByIndex(vec![300])), Do::Claimer([0; 32])]);
        for a in crate::p_roles::specimens() { ops.push(Do::Up(t32, Upd::ByType(vec![a.ty as u8]))); }
        for v in [0u64, 1, 5] { for d in [DEST, PAYER, wl.wallet] { ops.push(Do::Sign(vec![sys_transfer(&wl.wallet, &d, v)])); } }
        for op in ops { cases.push((t, legacy, op, w.clone())); }
    } }
    ck.each("operations", &cases, |ck, (t, legacy, op, w)| {
        for by in [own(*t, n, op), By::Main(cr(*t, n)), By::Main(cr(*t, 12)), By::Sess(sess_key(77))] {
            ask(ck, w, &wl, *t as u32, *t, &by, op, &|| format!("legacy={legacy}"));
        }
    });
    // several payments in one request
    let amounts = [1u64, 2, 5];
    let mut cases: Vec<(u16, Vec<Ix>)> = vec![];
    for t in AUTH_TYPES { for a in amounts { for b in amounts { let p = |d: Key, v| sys_transfer(&wl.wallet, &d, v); cases.push((t, vec![p(DEST, a), p(DEST2, b)])); for c in amounts { cases.push((t, vec![p(DEST, a), p(DEST2, b), p(DEST, c)])); } } } }
    ck.each("batches", &cases, |ck, (t, l)| {
        let mut w = crowd(&wl, n, false, Some(90));
        w.fund(wl.wallet, rent(0) + 8);
        let by = own(*t, n, &Do::Sign(l.clone()));
        batch(ck, &w, &wl, *t as u32, *t, &by, l);
    });
    // permissions: granted as asked, reported as granted
    let sp = crate::p_roles::specimens();
    let mut lists: Vec<Vec<Act>> = vec![vec![a_all()]];
    for a in &sp { lists.push(vec![a.clone()]); for b in &sp { lists.push(vec![a.clone(), b.clone()]); if ck.thorough { for c in &sp { lists.push(vec![a.clone(), b.clone(), c.clone()]); } } } }
    ck.each("permissions", &lists, |ck, l| {
        ck.count("permission lists", 1);
        let w = crowd(&wl, n, false, Some(90));
        if perms(l).is_some() {
            let k = l.iter().map(|a| a.ty as usize).sum::<usize>();
            let t = AUTH_TYPES[k % 8];
            for op in [Do::Add(cr(ED, 97), l.clone()), Do::Up(9, Upd::Append(l.clone())), Do::Up(9, Upd::Replace(l.clone()))] { ask(ck, &w, &wl, t as u32, t, &own(t, n, &op), &op, &|| String::new()); }
        }
        // reported
        let mut v = base();
        wl.install(&mut v, &[(OWNER, vec![a_all()]), (cr(ED, 5), l.clone())], rent(0));
        // of a kind of which only the first counts, at most one
        let single = |t: u16| !matches!(t, perm::PROGRAM | perm::SCOPE | perm::TOK | perm::TOK_REC | perm::SOL_DEST | perm::SOL_REC_DEST | perm::TOK_DEST | perm::TOK_REC_DEST | perm::REPLACE | perm::V2_ALL | perm::V2_SIGN | perm::V2_WITHDRAW | perm::V2_TOGGLE);
        if l.iter().enumerate().any(|(i, a)| single(a.ty) && l[..i].iter().any(|b| b.ty == a.ty)) { return; }
        let want: Option<Vec<P>> = l.iter().filter(|a| a.ty != perm::CLOSE).map(meaning).collect();
        if let Some(want) = want {
            match reported(&v, &wl, 1) {
                Ok(g) if sorted(&g) == sorted(&want) => {}
                g => ck.fail(&format!("report:{:?}", crate::p_roles::kinds(l)), format!("{:?}\nreported as {g:?}", want), vec![], None),
            }
        }
    });
    for a in &sp { if let Some(p) = meaning(a) { if p.to_action_type() as u16 != a.ty { ck.fail("kind", format!("{p:?} is said to be kind {}", p.to_action_type()), vec![], None); } } }
    // counters
    let mut v = base();
    let mut roles = vec![(OWNER, vec![a_all()])];
    for t in AUTH_TYPES { for n in [5u8, 6] { roles.push((cr(t, n), vec![a_all()])); } }
    wl.install(&mut v, &roles, rent(0));
    let mut s = wl.sw(&v);
    for (i, r) in s.roles.iter_mut().enumerate() { r.set_odometer(1000 + i as u32); }
    wl.store(&mut v, &s);
    for (i, (c, _)) in roles.iter().enumerate() {
        let want = 1000 + i as u32;
        let got = match c.t { K1 => swig_sdk::get_secp256k1_signature_counter(v.data(&wl.swig), &k1_full(c.n)).map_err(|_| ()), R1 => swig_sdk::get_secp256r1_signature_counter(v.data(&wl.swig), &r1_pk(c.n)).map_err(|_| ()), _ => continue };
        if got != Ok(want) { ck.fail("counter", format!("counter of {c:?}: {got:?} instead of {want}"), vec![], None); }
    }
}
