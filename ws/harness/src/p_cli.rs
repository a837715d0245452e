//! P27: the transactions the client library builds, executed on the program
//! and judged by the reference model of the requested operation.
use crate::mcx::*;
use crate::model::Rej;
use crate::p_auth::{crowd, every_op, other_ix, own};
use crate::p_life::expect_create;
use crate::p_roles::cr;
use crate::p_sign::{base, MINT, OWNER, R};
use crate::progs::{r1_sig, script_data, tok};
use crate::spec::*;
use crate::sw::*;
use crate::vm::*;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use swig_interface::*;
use swig_state::action as sa;
use swig_state::authority::AuthorityType;

pub fn pk(k: &Key) -> Pubkey { Pubkey::new_from_array(*k) }
pub fn to(i: &Ix) -> Instruction { Instruction { program_id: pk(&i.prog), accounts: i.metas.iter().map(|x| AccountMeta { pubkey: pk(&x.key), is_signer: x.signer, is_writable: x.writable }).collect(), data: i.data.clone() } }
pub fn from(i: &Instruction) -> Ix { Ix { prog: i.program_id.to_bytes(), metas: i.accounts.iter().map(|a| Meta { key: a.pubkey.to_bytes(), signer: a.is_signer, writable: a.is_writable }).collect(), data: i.data.clone() } }
pub fn aty(t: u16) -> AuthorityType { AuthorityType::try_from(t).unwrap() }
pub fn read<T: swig_state::Transmutable>(d: &[u8]) -> T { assert_eq!(d.len(), T::LEN); unsafe { std::ptr::read_unaligned(d.as_ptr() as *const T) } }
/// the client's form of a permission record
pub fn client_act(a: &Act) -> ClientAction {
    let d = &a.data;
    match a.ty {
        perm::SOL => ClientAction::SolLimit(read(d)),
        perm::SOL_REC => ClientAction::SolRecurringLimit(read(d)),
        perm::PROGRAM => ClientAction::Program(read(d)),
        perm::SCOPE => ClientAction::ProgramScope(read(d)),
        perm::TOK => ClientAction::TokenLimit(read(d)),
        perm::TOK_REC => ClientAction::TokenRecurringLimit(read(d)),
        perm::ALL => ClientAction::All(sa::all::All {}),
        perm::MANAGE => ClientAction::ManageAuthority(sa::manage_authority::ManageAuthority {}),
        perm::SUB => ClientAction::SubAccount(read(d)),
        perm::STAKE => ClientAction::StakeLimit(read(d)),
        perm::STAKE_REC => ClientAction::StakeRecurringLimit(read(d)),
        perm::STAKE_ALL => ClientAction::StakeAll(sa::stake_all::StakeAll {}),
        perm::PROG_ALL => ClientAction::ProgramAll(read(d)),
        perm::CURATED => ClientAction::ProgramCurated(read(d)),
        perm::ALL_BUT => ClientAction::AllButManageAuthority(read(d)),
        perm::SOL_DEST => ClientAction::SolDestinationLimit(read(d)),
        perm::SOL_REC_DEST => ClientAction::SolRecurringDestinationLimit(read(d)),
        perm::TOK_DEST => ClientAction::TokenDestinationLimit(read(d)),
        perm::TOK_REC_DEST => ClientAction::TokenRecurringDestinationLimit(read(d)),
        perm::CLOSE => ClientAction::CloseSwigAuthority(read(d)),
        perm::REPLACE => ClientAction::ReplaceAuthority(read(d)),
        perm::V2_CREATE => ClientAction::SubAccountV2Create(read(d)),
        perm::V2_ALL => ClientAction::SubAccountV2All(read(d)),
        perm::V2_SIGN => ClientAction::SubAccountV2Sign(read(d)),
        perm::V2_WITHDRAW => ClientAction::SubAccountV2Withdraw(read(d)),
        perm::V2_TOGGLE => ClientAction::SubAccountV2Toggle(read(d)),
        t => panic!("kind {t}"),
    }
}
fn acts(a: &[Act]) -> Vec<ClientAction> { a.iter().map(client_act).collect() }
fn upd(u: &Upd) -> Option<UpdateAuthorityData> {
    Some(match u {
        Upd::Replace(a) => UpdateAuthorityData::ReplaceAll(acts(a)),
        Upd::Append(a) => UpdateAuthorityData::AddActions(acts(a)),
        Upd::ByType(t) => UpdateAuthorityData::RemoveActionsByType(t.clone()),
        Upd::ByIndex(t) => UpdateAuthorityData::RemoveActionsByIndex(t.clone()),
        Upd::Raw(..) => return None,
    })
}
/// how the client is asked for the transaction
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Way { Plain, Signers, Index }
pub type Out = Option<anyhow_result::R>;
pub mod anyhow_result { pub type R = Result<Vec<solana_program::instruction::Instruction>, String>; }
fn one<E: std::fmt::Debug>(r: Result<Instruction, E>) -> Out { Some(r.map(|x| vec![x]).map_err(|e| format!("{e:?}"))) }
fn many<E: std::fmt::Debug>(r: Result<Vec<Instruction>, E>) -> Out { Some(r.map_err(|e| format!("{e:?}"))) }

/// What the client library returns for an operation; none where it has no such builder.
pub fn client(w: &World, wl: &Wl, role: u32, by: &By, op: &Do, way: Way, signers: &[Key]) -> Out {
    let (slot, ctr) = (w.slot, Sw::parse(w.data(&wl.swig)).ok().and_then(|s| s.role(role).map(|r| r.odometer())).unwrap_or(0).wrapping_add(1));
    let (sw, wa, pay) = (pk(&wl.swig), pk(&wl.wallet), pk(&PAYER));
    let sig: Vec<Pubkey> = signers.iter().map(pk).collect();
    let n = match by { By::Main(c) => c.n, _ => 0 };
    let kf = move |m: &[u8]| k1_sign(n, m.try_into().unwrap());
    let rf = move |m: &[u8]| r1_sig(&r1_pk(n), m);
    let rk = &r1_pk(n);
    let inner = |l: &[Ix]| l.iter().map(to).collect::<Vec<_>>();
    let s1 = |o: u32| pk(&wl.sub1(o).0);
    let st2 = |i: u32| pk(&wl.sub2_state(i).0);
    let s2 = |i: u32| pk(&wl.sub2(i).0);
    let subctr = Sw::parse(w.data(&wl.swig)).map_or(0, |s| s.subctr);
    if way == Way::Signers && !matches!(op, Do::Sign(_)) { return None; }
    let ed = match by { By::Sess(k) => Some(pk(k)), By::Main(c) if matches!(c.t, ED | EDS) => Some(pk(&ed_key(n))), _ => None };
    if way == Way::Index && !matches!(by, By::Main(Cred { t: PE | PES, .. })) { return None; }
    if let Some(a) = ed {
        return match op {
            Do::Add(c, l) => one(AddAuthorityInstruction::new_with_ed25519_authority(sw, pay, a, role, AuthorityConfig { authority_type: aty(c.t), authority: &c.create() }, acts(l))),
            Do::Remove(t) => one(RemoveAuthorityInstruction::new_with_ed25519_authority(sw, pay, a, role, *t)),
            Do::Up(t, u) => one(UpdateAuthorityInstruction::new_with_ed25519_authority(sw, pay, a, role, *t, upd(u)?)),
            Do::Replace(t, s) => one(ReplaceAuthorityInstruction::new_with_ed25519_authority(sw, a, role, *t, s)),
            Do::Session(d, k) => one(CreateSessionInstruction::new_with_ed25519_authority(sw, pay, a, role, pk(k), *d)),
            Do::Claimer(k) => one(SetRentClaimerV1Instruction::new_with_ed25519_authority(sw, pay, a, role, *k)),
            Do::Sign(l) => { if l.len() != 1 { return None; } one(if way == Way::Signers { SignV2Instruction::new_ed25519_with_signers(sw, wa, a, to(&l[0]), role, &sig) } else { SignV2Instruction::new_ed25519(sw, wa, a, to(&l[0]), role) }) }
            Do::S1Create => one(CreateSubAccountInstruction::new_with_ed25519_authority(sw, a, pay, s1(role), role, wl.sub1(role).1)),
            Do::S1Wd(o, n, None) => one(WithdrawFromSubAccountInstruction::new_with_ed25519_authority(sw, a, pay, s1(*o), wa, role, *n)),
            Do::S1Wd(o, n, Some((x, y, p))) => one(WithdrawFromSubAccountInstruction::new_token_with_ed25519_authority(sw, a, pay, s1(*o), wa, pk(x), pk(y), pk(p), role, *n)),
            Do::S1Sign(o, l) => one(SubAccountSignInstruction::new_with_ed25519_authority(sw, s1(*o), a, role, inner(l))),
            Do::S1Tog(t, o, e) => one(ToggleSubAccountInstruction::new_with_ed25519_authority(sw, a, pay, s1(*o), *t, role, *e)),
            Do::Transfer(t) if t.is_empty() => one(TransferAssetsV1Instruction::new_with_ed25519_authority(sw, wa, pay, a, role)),
            Do::CloseTok(d, p, t) => one(CloseTokenAccountV1Instruction::new_with_ed25519_authority(sw, wa, a, pk(d), pk(p), t.iter().map(pk).collect(), role)),
            Do::CloseSwig(d) => one(CloseSwigV1Instruction::new_with_ed25519_authority(sw, wa, a, pk(d), role)),
            Do::S2Create => one(CreateSubAccountV2Instruction::new_with_ed25519_authority(sw, a, pay, st2(subctr), s2(subctr), role, wl.sub2_state(subctr).1, wl.sub2(subctr).1)),
            Do::S2Tog(i, e) => one(ToggleSubAccountV2Instruction::new_with_ed25519_authority(sw, a, pay, st2(*i), role, *i, *e)),
            Do::S2Sign(i, l) => one(SubAccountSignV2Instruction::new_with_ed25519_authority(sw, st2(*i), s2(*i), a, role, *i, inner(l))),
            Do::S2Wd(i, n, None) => one(WithdrawFromSubAccountV2Instruction::new_with_ed25519_authority(sw, a, pay, st2(*i), s2(*i), wa, role, *i, *n)),
            Do::S2Wd(i, n, Some((x, y, p))) => one(WithdrawFromSubAccountV2Instruction::new_token_with_ed25519_authority(sw, a, pay, st2(*i), s2(*i), wa, pk(x), pk(y), pk(p), role, *i, *n)),
            _ => None,
        };
    }
    let By::Main(c) = by else { unreachable!() };
    match c.t {
        K1 | K1S => match op {
            Do::Add(c, l) => one(AddAuthorityInstruction::new_with_secp256k1_authority(sw, pay, kf, slot, ctr, role, AuthorityConfig { authority_type: aty(c.t), authority: &c.create() }, acts(l))),
            Do::Remove(t) => one(RemoveAuthorityInstruction::new_with_secp256k1_authority(sw, pay, kf, slot, ctr, role, *t)),
            Do::Up(t, u) => one(UpdateAuthorityInstruction::new_with_secp256k1_authority(sw, pay, kf, slot, ctr, role, *t, upd(u)?)),
            Do::Replace(t, s) => one(ReplaceAuthorityInstruction::new_with_secp256k1_authority(sw, kf, slot, ctr, role, *t, s)),
            Do::Session(d, k) => one(CreateSessionInstruction::new_with_secp256k1_authority(sw, pay, kf, slot, ctr, role, pk(k), *d)),
            Do::Claimer(k) => one(SetRentClaimerV1Instruction::new_with_secp256k1_authority(sw, pay, kf, slot, ctr, role, *k)),
            Do::Sign(l) => { if l.len() != 1 { return None; } one(if way == Way::Signers { SignV2Instruction::new_secp256k1_with_signers(sw, wa, kf, slot, ctr, to(&l[0]), role, &sig) } else { SignV2Instruction::new_secp256k1(sw, wa, kf, slot, ctr, to(&l[0]), role) }) }
            Do::S1Create => one(CreateSubAccountInstruction::new_with_secp256k1_authority(sw, pay, kf, slot, ctr, s1(role), role, wl.sub1(role).1)),
            Do::S1Wd(o, n, None) => one(WithdrawFromSubAccountInstruction::new_with_secp256k1_authority(sw, pay, kf, slot, ctr, s1(*o), wa, role, *n)),
            Do::S1Wd(o, n, Some((x, y, p))) => one(WithdrawFromSubAccountInstruction::new_token_with_secp256k1_authority(sw, pay, kf, slot, ctr, s1(*o), wa, pk(x), pk(y), pk(p), role, *n)),
            Do::S1Sign(o, l) => one(SubAccountSignInstruction::new_with_secp256k1_authority(sw, s1(*o), kf, slot, ctr, role, inner(l))),
            Do::S1Tog(t, o, e) => one(ToggleSubAccountInstruction::new_with_secp256k1_authority(sw, pay, kf, slot, ctr, s1(*o), *t, role, *e)),
            Do::Transfer(t) if t.is_empty() => one(TransferAssetsV1Instruction::new_with_secp256k1_authority(sw, wa, pay, kf, slot, ctr, role)),
            Do::CloseTok(d, p, t) => one(CloseTokenAccountV1Instruction::new_with_secp256k1_authority(sw, wa, kf, slot, ctr, pk(d), pk(p), t.iter().map(pk).collect(), role)),
            Do::CloseSwig(d) => one(CloseSwigV1Instruction::new_with_secp256k1_authority(sw, wa, kf, slot, ctr, pk(d), role)),
            Do::S2Create => one(CreateSubAccountV2Instruction::new_with_secp256k1_authority(sw, pay, kf, slot, ctr, st2(subctr), s2(subctr), role, wl.sub2_state(subctr).1, wl.sub2(subctr).1)),
            Do::S2Tog(i, e) => one(ToggleSubAccountV2Instruction::new_with_secp256k1_authority(sw, pay, kf, slot, ctr, st2(*i), role, *i, *e)),
            Do::S2Sign(i, l) => one(SubAccountSignV2Instruction::new_with_secp256k1_authority(sw, st2(*i), s2(*i), kf, slot, ctr, role, *i, inner(l))),
            Do::S2Wd(i, n, None) => one(WithdrawFromSubAccountV2Instruction::new_with_secp256k1_authority(sw, pay, kf, slot, ctr, st2(*i), s2(*i), wa, role, *i, *n)),
            Do::S2Wd(i, n, Some((x, y, p))) => one(WithdrawFromSubAccountV2Instruction::new_token_with_secp256k1_authority(sw, pay, kf, slot, ctr, st2(*i), s2(*i), wa, pk(x), pk(y), pk(p), role, *i, *n)),
            _ => None,
        },
        R1 | R1S => match op {
            Do::Add(c, l) => many(AddAuthorityInstruction::new_with_secp256r1_authority(sw, pay, rf, slot, ctr, role, rk, AuthorityConfig { authority_type: aty(c.t), authority: &c.create() }, acts(l))),
            Do::Remove(t) => many(RemoveAuthorityInstruction::new_with_secp256r1_authority(sw, pay, rf, slot, ctr, role, *t, rk)),
            Do::Up(t, u) => many(UpdateAuthorityInstruction::new_with_secp256r1_authority(sw, pay, rf, slot, ctr, role, *t, upd(u)?, rk)),
            Do::Replace(t, s) => many(ReplaceAuthorityInstruction::new_with_secp256r1_authority(sw, rf, slot, ctr, role, *t, s, rk)),
            Do::Session(d, k) => many(CreateSessionInstruction::new_with_secp256r1_authority(sw, pay, rf, slot, ctr, role, pk(k), *d, rk)),
            Do::Claimer(k) => many(SetRentClaimerV1Instruction::new_with_secp256r1_authority(sw, pay, rf, slot, ctr, role, *k, rk)),
            Do::Sign(l) => { if l.len() != 1 { return None; } many(if way == Way::Signers { SignV2Instruction::new_secp256r1_with_signers(sw, wa, rf, slot, ctr, to(&l[0]), role, rk, &sig) } else { SignV2Instruction::new_secp256r1(sw, wa, rf, slot, ctr, to(&l[0]), role, rk) }) }
            Do::S1Create => many(CreateSubAccountInstruction::new_with_secp256r1_authority(sw, pay, rf, slot, ctr, s1(role), role, wl.sub1(role).1, rk)),
            Do::S1Wd(o, n, None) => many(WithdrawFromSubAccountInstruction::new_with_secp256r1_authority(sw, pay, rf, slot, ctr, s1(*o), wa, role, *n, rk)),
            Do::S1Wd(o, n, Some((x, y, p))) => many(WithdrawFromSubAccountInstruction::new_token_with_secp256r1_authority(sw, pay, rf, slot, ctr, s1(*o), wa, pk(x), pk(y), pk(p), role, *n, rk)),
            Do::S1Sign(o, l) => many(SubAccountSignInstruction::new_with_secp256r1_authority(sw, s1(*o), rf, slot, ctr, role, inner(l), rk)),
            Do::S1Tog(t, o, e) => many(ToggleSubAccountInstruction::new_with_secp256r1_authority(sw, pay, rf, slot, ctr, s1(*o), *t, role, *e, rk)),
            Do::Transfer(t) if t.is_empty() => many(TransferAssetsV1Instruction::new_with_secp256r1_authority(sw, wa, pay, rf, slot, ctr, role, rk)),
            Do::CloseTok(d, p, t) => many(CloseTokenAccountV1Instruction::new_with_secp256r1_authority(sw, wa, rf, slot, ctr, pk(d), pk(p), t.iter().map(pk).collect(), role, rk)),
            Do::CloseSwig(d) => many(CloseSwigV1Instruction::new_with_secp256r1_authority(sw, wa, rf, slot, ctr, pk(d), role, rk)),
            Do::S2Create => many(CreateSubAccountV2Instruction::new_with_secp256r1_authority(sw, pay, rf, slot, ctr, st2(subctr), s2(subctr), role, wl.sub2_state(subctr).1, wl.sub2(subctr).1, rk)),
            Do::S2Tog(i, e) => many(ToggleSubAccountV2Instruction::new_with_secp256r1_authority(sw, pay, rf, slot, ctr, st2(*i), role, *i, *e, rk)),
            Do::S2Sign(i, l) => many(SubAccountSignV2Instruction::new_with_secp256r1_authority(sw, st2(*i), s2(*i), rf, slot, ctr, role, *i, inner(l), rk)),
            Do::S2Wd(i, n, None) => many(WithdrawFromSubAccountV2Instruction::new_with_secp256r1_authority(sw, pay, rf, slot, ctr, st2(*i), s2(*i), wa, role, *i, *n, rk)),
            Do::S2Wd(i, n, Some((x, y, p))) => many(WithdrawFromSubAccountV2Instruction::new_token_with_secp256r1_authority(sw, pay, rf, slot, ctr, st2(*i), s2(*i), wa, pk(x), pk(y), pk(p), role, *i, *n, rk)),
            _ => None,
        },
        _ => {
            // the call the credential stands for must name the same first two accounts
            let go = |pre: Instruction| -> Out {
                let x = way == Way::Index;
                match op {
                    Do::Add(c, l) => { let k = c.create(); let g = AuthorityConfig { authority_type: aty(c.t), authority: &k }; many(if x { AddAuthorityInstruction::new_with_program_exec_ix_index(sw, pay, pre, role, g, acts(l), 0) } else { AddAuthorityInstruction::new_with_program_exec(sw, pay, pre, role, g, acts(l)) }) }
                    Do::Remove(t) => many(if x { RemoveAuthorityInstruction::new_with_program_exec_ix_index(sw, pay, pre, role, *t, 0) } else { RemoveAuthorityInstruction::new_with_program_exec(sw, pay, pre, role, *t) }),
                    Do::Up(t, u) => many(if x { UpdateAuthorityInstruction::new_with_program_exec_ix_index(sw, pay, pre, role, *t, upd(u)?, 0) } else { UpdateAuthorityInstruction::new_with_program_exec(sw, pay, pre, role, *t, upd(u)?) }),
                    Do::Replace(t, s) => { if x { return None; } many(ReplaceAuthorityInstruction::new_with_program_exec(sw, wa, pre, role, *t, s)) }
                    Do::Session(d, k) => many(if x { CreateSessionInstruction::new_with_program_exec_ix_index(sw, pay, pre, role, *d, pk(k), 0) } else { CreateSessionInstruction::new_with_program_exec(sw, pay, pre, role, *d, pk(k)) }),
                    Do::Sign(l) => { if l.len() != 1 { return None; } many(if x { SignV2Instruction::new_program_exec_with_ix_index(sw, wa, pay, pre, to(&l[0]), role, 0) } else { SignV2Instruction::new_program_exec(sw, wa, pay, pre, to(&l[0]), role) }) }
                    Do::S1Create => many(if x { CreateSubAccountInstruction::new_with_program_exec_ix_index(sw, pay, pre, s1(role), role, wl.sub1(role).1, 0) } else { CreateSubAccountInstruction::new_with_program_exec(sw, pay, pre, s1(role), role, wl.sub1(role).1) }),
                    Do::S1Wd(o, n, None) => many(if x { WithdrawFromSubAccountInstruction::new_with_program_exec_ix_index(sw, pay, pre, s1(*o), wa, role, *n, 0) } else { WithdrawFromSubAccountInstruction::new_with_program_exec(sw, pay, pre, s1(*o), wa, role, *n) }),
                    Do::S1Wd(o, n, Some((a, b, p))) => many(if x { WithdrawFromSubAccountInstruction::new_token_with_program_exec_ix_index(sw, pay, pre, s1(*o), wa, pk(a), pk(b), pk(p), role, *n, 0) } else { WithdrawFromSubAccountInstruction::new_token_with_program_exec(sw, pay, pre, s1(*o), wa, pk(a), pk(b), pk(p), role, *n) }),
                    Do::S1Sign(o, l) => many(if x { SubAccountSignInstruction::new_with_program_exec_ix_index(sw, s1(*o), pay, pre, role, inner(l), 0) } else { SubAccountSignInstruction::new_with_program_exec(sw, s1(*o), pay, pre, role, inner(l)) }),
                    Do::S1Tog(t, o, e) => many(if x { ToggleSubAccountInstruction::new_with_program_exec_ix_index(sw, pay, pre, s1(*o), *t, role, *e, 0) } else { ToggleSubAccountInstruction::new_with_program_exec(sw, pay, pre, s1(*o), *t, role, *e) }),
                    Do::Transfer(t) if t.is_empty() => many(if x { TransferAssetsV1Instruction::new_with_program_exec_ix_index(sw, wa, pay, pre, role, 0) } else { TransferAssetsV1Instruction::new_with_program_exec(sw, wa, pay, pre, role) }),
                    _ => None,
                }
            };
            let mut pre = pe_ix(c.n, &[]);
            if let (Do::Replace(t, s), true) = (op, c.n >= PE_PROOF) {
                let r = Sw::parse(w.data(&wl.swig)).ok()?.role(*t)?.clone();
                if let Ok(d) = ReplaceAuthorityInstruction::program_exec_proof_data(sw, wa, role, *t, aty(r.aty), &r.auth[..signer_len(r.aty).min(r.auth.len())], s) { pre.data = d; }
            }
            let first = match go(to(&pre))? { Ok(v) => v, e => return Some(e) };
            pre.metas = first[1].accounts.iter().take(2).map(|a| m(a.pubkey.to_bytes())).collect();
            go(to(&pre))
        }
    }
}
pub fn cred_name(by: &By) -> &'static str { match by { By::Sess(_) => "session", By::Main(c) => match c.t { ED | EDS => "ed25519", K1 | K1S => "secp256k1", R1 | R1S => "secp256r1", _ => "program-exec" } } }

/// Builds, executes and judges one request.
fn ask(ck: &Ck, w: &World, wl: &Wl, role: u32, by: &By, op: &Do, way: Way, signers: &[Key], label: &dyn Fn() -> String) -> Option<World> {
    let out = client(w, wl, role, by, op, way, signers)?;
    judge(ck, w, wl, role, by, op, way, signers, label, out)
}
/// Privileges belong to a transaction, not to its instructions; a payer that the builder was told of pays the fees.
pub fn in_transaction(mut ixs: Vec<Ix>, pays: bool) -> Vec<Ix> {
    let mut all: Vec<Meta> = if pays { vec![msw(PAYER)] } else { vec![] };
    for x in ixs.iter().flat_map(|i| &i.metas) {
        match all.iter_mut().find(|y| y.key == x.key) { Some(y) => { y.signer |= x.signer; y.writable |= x.writable; } None => all.push(x.clone()) }
    }
    for x in ixs.iter_mut().flat_map(|i| &mut i.metas) { *x = all.iter().find(|y| y.key == x.key).unwrap().clone(); }
    ixs
}
pub fn judge(ck: &Ck, w: &World, wl: &Wl, role: u32, by: &By, op: &Do, way: Way, signers: &[Key], label: &dyn Fn() -> String, out: Result<Vec<Instruction>, String>) -> Option<World> {
    ck.count("requests", 1);
    let what = format!("{}:{}", cred_name(by), op.name());
    let lbl = || format!("{} {way:?} role {role} by {by:?}: {}", label(), short_op(op));
    let ixs: Vec<Ix> = match out {
        Ok(v) => in_transaction(v.iter().map(from).collect(), !matches!(op, Do::Sign(..) | Do::S1Sign(..) | Do::S2Sign(..))),
        Err(e) => {
            // the client may refuse only what the program would refuse
            let mine = op_ixs(w, wl, role, by, op);
            if expect(w, wl, role, by, op, &mine.last().unwrap().metas).is_ok() { ck.fail(&format!("{what}:not-built"), format!("{}: {e}", lbl()), vec![], None); }
            return None;
        }
    };
    // nobody but the payer, the named credential and those asked for has to sign
    for x in ixs.iter().flat_map(|i| &i.metas).filter(|x| x.signer) {
        let asked = x.key == PAYER || signers.contains(&x.key) || matches!(by, By::Sess(k) if *k == x.key) || matches!(by, By::Main(c) if matches!(c.t, ED | EDS) && ed_key(c.n) == x.key)
            || matches!(op, Do::Sign(l) | Do::S1Sign(_, l) | Do::S2Sign(_, l) if l.iter().flat_map(|i| &i.metas).any(|y| y.key == x.key && y.signer && x.key != wl.wallet && x.key != wl.sub1(role).0 && x.key != wl.sub2(0).0 && x.key != wl.sub2(1).0));
        if !asked { ck.fail(&format!("{what}:signer"), format!("{}: {} has to sign", lbl(), crate::model::short(&x.key)), vec![], Some((w.clone(), ixs.clone()))); return None; }
    }
    // those asked for do have to
    if way == Way::Signers && matches!(op, Do::Sign(_)) && !matches!(by, By::Main(c) if [PE, PES].contains(&c.t)) {
        for x in ixs.iter().flat_map(|i| &i.metas).filter(|x| !x.signer && signers.contains(&x.key)) { ck.fail(&format!("{what}:signer"), format!("{}: {} does not have to sign", lbl(), crate::model::short(&x.key)), vec![], Some((w.clone(), ixs.clone()))); return None; }
    }
    match compare(Some(ck), w, wl, role, by, op, &ixs) {
        Ok(o) => {
            if let (Some(_), true) = (&o, way == Way::Index) {
                // the explicit index is honoured: something else in between does not matter
                let v = vec![ixs[0].clone(), other_ix(), ixs[1].clone()];
                if ck.exec(w, &v).is_err() { ck.fail(&format!("{what}:index"), format!("{}: refused with another instruction in between", lbl()), vec![], Some((w.clone(), v))); }
            }
            if o.is_some() { ck.count("carried out", 1); }
            o
        }
        Err(b) => { ck.fail(&format!("{what}:{}", b.key.rsplit(':').next().unwrap()), b.msg, vec![lbl()], b.last); None }
    }
}
fn create(ck: &Ck, wl: &Wl, c: &Cred, l: &[Act]) {
    ck.count("requests", 1);
    let w = base();
    let ix = match CreateInstruction::new(pk(&wl.swig), wl.bump, pk(&PAYER), pk(&wl.wallet), wl.wbump, AuthorityConfig { authority_type: aty(c.t), authority: &c.create() }, acts(l), wl.id) { Ok(i) => from(&i), Err(e) => return ck.fail("create:not-built", format!("{c:?} {l:?}: {e:?}"), vec![], None) };
    let mine = create_ix(wl, c, l);
    let exp: Result<World, Rej> = expect_create(&w, &mine);
    if let Err(b) = verdict(Some(ck), &w, exp, &[ix], "create", &|| format!("creation by {c:?} with {:?}", crate::p_roles::kinds(l))) { ck.fail(&b.key, b.msg, vec![], b.last); }
}
/// tokens held by everything that can hold them
pub fn tokens(w: &mut World, wl: &Wl, t: u32) -> Vec<(Key, Key, Key, Key)> {
    let mut v = vec![];
    for (p, n) in [(TOKEN, 0u8), (TOKEN22, 1)] {
        let k = |i: u8| nk(0x76, 16 * n + i);
        for (i, o) in [(1, wl.wallet), (2, wl.sub1(t).0), (3, wl.sub2(0).0)] { w.put(k(i), tok::acct(p, &tok::new(MINT, o, 9))); }
        v.push((p, k(1), k(2), k(3)));
    }
    v
}
pub fn p27(ck: &Ck) {
    ck.assume("the client library is compiled against a shim that re-exports the items of solana-sdk it uses from the crates defining them");
    let wl = Wl::new(141);
    let n = 11u8;
    if swig_key_bytes(&wl.id).to_bytes() != wl.swig || swig_wallet_address(&pk(&wl.swig)).to_bytes() != wl.wallet || program_id().to_bytes() != SWIG || PROGRAM_ID != SWIG { ck.fail("addresses", "derived addresses differ".into(), vec![], None); }
    // every operation by every credential, wanted and unwanted
    let mut cases = vec![];
    for t in AUTH_TYPES { for legacy in [false, true] { for way in [Way::Plain, Way::Signers, Way::Index] {
        let t32 = t as u32;
        let mut w = crowd(&wl, n, legacy, Some(90));
        let toks = tokens(&mut w, &wl, t32);
        w.edit(&wl.swig.clone(), |a| a.lamports += 7);
        let mut ops = every_op(&wl, t32, legacy);
        for c in AUTH_TYPES { ops.push(Do::Add(cr(c, 97), vec![a_sol(1), a_v2(perm::V2_SIGN, 3)])); }
        for x in [0u32, 1, 9, 10, 255, 256, 65536, u32::MAX] { ops.extend([Do::Remove(x), Do::Up(x, Upd::Append(vec![a_sol(3)])), Do::Replace(x, ed_key(98).to_vec()), Do::S1Tog(x, t32, false), Do::S1Wd(x, 1, None), Do::S2Tog(x, false), Do::S2Wd(x, 1, None), Do::S2Sign(x, vec![])]); }
        for x in [0u64, 1, 29, 30, 31, 255, 256, rent(0), rent(0) + 30, 1 << 32, u64::MAX] { ops.extend([Do::S1Wd(t32, x, None), Do::S2Wd(0, x, None), Do::Session(x, sess_key(99))]); }
        for x in [99u64, 100, 101] { ops.push(Do::Session(x, sess_key(98))); }
        for (p, a, b, c) in &toks { for x in [0u64, 1, 9, 10, 256, u64::MAX] { ops.extend([Do::S1Wd(t32, x, Some((*b, *a, *p))), Do::S2Wd(0, x, Some((*c, *a, *p)))]); } ops.push(Do::CloseTok(DEST, *p, vec![*a])); }
        for tt in AUTH_TYPES { for s in [ed_key(98).to_vec(), k1_comp(98).to_vec(), k1_full(98).to_vec(), r1_pk(98).to_vec(), vec![7; 31], vec![], vec![7; 65]] { ops.push(Do::Replace(tt as u32, s)); } }
        for e in [false, true] { ops.extend([Do::S1Tog(t32, t32, e), Do::S2Tog(0, e)]); }
        ops.extend([Do::Up(9, Upd::Replace(vec![a_sol(3), a_all()])), Do::Up(9, Upd::ByType(vec![1, 7])), Do::Up(t32, Upd::ByType(vec![9, 20])), Do::Up(t32, Upd::ByIndex(vec![1, 2])), Do::Up(t32, Upd::ByIndex(vec![300])), Do::Up(t32, Upd::ByIndex(vec![0])), Do::Up(t32, Upd::ByType(vec![])), Do::Up(9, Upd::Replace(vec![]))]);
        ops.extend([Do::Claimer([0; 32]), Do::Claimer(wl.wallet), Do::CloseSwig(PAYER)]);
        for op in ops { cases.push((t, legacy, way, op, w.clone())); }
    } } }
    ck.each("operations", &cases, |ck, (t, legacy, way, op, w)| {
        for by in [own(*t, n, op), By::Main(cr(*t, n)), By::Main(cr(*t, 12)), By::Sess(sess_key(77))] {
            ask(ck, w, &wl, *t as u32, &by, op, *way, &[], &|| format!("legacy={legacy}"));
        }
    });
    // replacement approved by a program
    let mut w = base();
    let mut roles = vec![(OWNER, vec![a_all()]), (cr(PE, PE_PROOF), vec![a_all()])];
    for t in AUTH_TYPES { roles.push((cr(t, n), vec![a_sol(1)])); }
    wl.install(&mut w, &roles, rent(0));
    let targets: Vec<(u32, Vec<u8>)> = (0..11u32).flat_map(|r| [ed_key(98).to_vec(), ed_key(n).to_vec(), k1_comp(98).to_vec(), k1_full(98).to_vec(), k1_full(n).to_vec(), r1_pk(98).to_vec(), vec![1; 31]].map(|s| (r, s))).collect();
    ck.each("approved replacements", &targets, |ck, (r, s)| { ask(ck, &w, &wl, 1, &By::Main(cr(PE, PE_PROOF)), &Do::Replace(*r, s.clone()), Way::Plain, &[], &|| String::new()); });
    // permission records of every kind, in creations, additions and changes
    let mut lists: Vec<Vec<Act>> = vec![vec![], vec![a_all(); 254], vec![a_all(); 255]];
    for a in crate::p_roles::specimens() { lists.push(vec![a.clone()]); lists.push(vec![a_manage(), a.clone()]); for b in crate::p_roles::specimens() { lists.push(vec![a_all(), a.clone(), b.clone()]); } }
    ck.each("permission lists", &lists, |ck, l| {
        let k = l.iter().map(|a| a.ty as usize).sum::<usize>();
        for (i, t) in AUTH_TYPES.into_iter().enumerate() {
            if l.len() == 3 && !ck.thorough && (i + k) % 8 != 0 { continue; }
            create(ck, &wl, &cr(t, 7), l);
            let w = crowd(&wl, n, false, Some(90));
            for op in [Do::Add(cr(AUTH_TYPES[(i + k) % 8], 97), l.clone()), Do::Up(9, Upd::Append(l.clone())), Do::Up(9, Upd::Replace(l.clone()))] { ask(ck, &w, &wl, t as u32, &own(t, n, &op), &op, Way::Plain, &[], &|| String::new()); }
        }
    });
    // slots, counters, role numbers
    let mut cases = vec![];
    for t in AUTH_TYPES { for slot in [0u64, 61, 255, 256, 1 << 33, u64::MAX - 100] { for ctr in [0u32, 1, 254, 255, 256, 65535, 1 << 24, u32::MAX - 1] { for shift in [0u32, 250, 65530] { cases.push((t, slot, ctr, shift)); } } } }
    ck.each("slots, counters, numbers", &cases, |ck, (t, slot, ctr, shift)| {
        let mut w = crowd(&wl, n, false, None);
        w.slot = *slot;
        let mut s = wl.sw(&w);
        for r in s.roles.iter_mut() {
            r.set_odometer(*ctr);
            r.id += shift;
            for a in r.acts.iter_mut() { if a.ty == perm::SUB && a.data[..32] != [0; 32] { *a = sub1_rec(&wl, r.id, true); } }
            if is_session(r.aty) { let o = sess_off(r.aty); r.auth[o..o + 32].copy_from_slice(&sess_key(r.aty as u8)); put64(&mut r.auth, o + 40, slot.saturating_add(50)); }
        }
        s.counter += shift;
        wl.store(&mut w, &s);
        let id = *t as u32 + shift;
        w.fund(wl.sub1(id).0, rent(0) + 30);
        for mut op in every_op(&wl, id, false) {
            match &mut op { Do::Remove(x) | Do::Up(x, _) | Do::Replace(x, _) => *x += shift, _ => {} }
            let by = own(*t, n, &op);
            for way in [Way::Plain, Way::Index] { ask(ck, &w, &wl, id, &by, &op, way, &[], &|| format!("slot {slot} counter {ctr} numbers+{shift}")); }
        }
    });
    // inner instructions: all privileges of up to three accounts
    let keys = [wl.wallet, DEST, PAYER, DEST2, wl.swig, wl.sub2(0).0];
    let flags = [(false, false), (false, true), (true, false), (true, true)];
    let refs: Vec<Meta> = keys.iter().flat_map(|k| flags.map(|(s, w)| Meta { key: *k, signer: s, writable: w })).collect();
    let mut lists: Vec<Vec<Meta>> = vec![vec![]];
    for a in &refs { lists.push(vec![a.clone()]); for b in &refs { lists.push(vec![a.clone(), b.clone()]); if ck.thorough { for c in &refs { lists.push(vec![a.clone(), b.clone(), c.clone()]); } } } }
    let worlds: Vec<World> = AUTH_TYPES.iter().map(|_| crowd(&wl, n, false, Some(90))).collect();
    ck.each("inner accounts", &lists, |ck, l| {
        for (i, t) in AUTH_TYPES.into_iter().enumerate() {
            let ix = |me: &Key| Ix { prog: R, metas: l.iter().filter(|x| !x.signer || x.key == *me || x.key == PAYER || x.key == DEST2).cloned().collect(), data: script_data(&[]) };
            for (way, sg) in [(Way::Plain, vec![]), (Way::Signers, vec![]), (Way::Signers, vec![DEST2]), (Way::Signers, vec![DEST2, PAYER, nk(0x99, 1)]), (Way::Index, vec![])] {
                let by = own(t, n, &Do::S1Create);
                ask(ck, &worlds[i], &wl, t as u32, &by, &Do::Sign(vec![ix(&wl.wallet)]), way, &sg, &|| format!("signers {}", sg.len()));
                let s1 = wl.sub1(t as u32).0;
                let mut x = ix(&wl.sub2(0).0);
                ask(ck, &worlds[i], &wl, t as u32, &by, &Do::S2Sign(0, vec![x.clone(), x.clone()]), way, &sg, &|| String::new());
                for m in x.metas.iter_mut() { if m.key == wl.sub2(0).0 { m.key = s1; } }
                ask(ck, &worlds[i], &wl, t as u32, &by, &Do::S1Sign(t as u32, vec![x.clone(), x]), way, &sg, &|| String::new());
            }
        }
    });
    // transfers that matter
    let amounts = [0u64, 1, 2, 5, 255, 256, 1 << 40];
    ck.each("payments", &amounts, |ck, v| {
        for (i, t) in AUTH_TYPES.into_iter().enumerate() {
            let mut w = worlds[i].clone();
            w.fund(wl.wallet, rent(0) + 256);
            for way in [Way::Plain, Way::Signers, Way::Index] { for d in [DEST, PAYER, wl.wallet, wl.swig] {
                let op = Do::Sign(vec![sys_transfer(&wl.wallet, &d, *v)]);
                ask(ck, &w, &wl, t as u32, &own(t, n, &op), &op, way, &[], &|| String::new());
            } }
        }
    });
}
