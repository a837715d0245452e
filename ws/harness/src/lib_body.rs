// The checks of the state library, included once for the library as the program
// compiles it and once as off-chain users compile it (`st` names the crate).
use crate::mcx::*;
use crate::model::*;
use crate::p_lib::*;
use pinocchio::program_error::ProgramError;
use st::action::*;
use st::authority::AuthorityType;
use st::swig::*;
use st::role::RoleMut;
use st::{IntoBytes, Transmutable};

fn raw<T: Transmutable>(t: &T) -> Vec<u8> { unsafe { std::slice::from_raw_parts(t as *const T as *const u8, T::LEN) }.to_vec() }

macro_rules! every_kind { ($f:ident ( $($a:expr),* )) => {{
    $f::<sol_limit::SolLimit>(perm::SOL, $($a),*);
    $f::<sol_recurring_limit::SolRecurringLimit>(perm::SOL_REC, $($a),*);
    $f::<program::Program>(perm::PROGRAM, $($a),*);
    $f::<program_scope::ProgramScope>(perm::SCOPE, $($a),*);
    $f::<token_limit::TokenLimit>(perm::TOK, $($a),*);
    $f::<token_recurring_limit::TokenRecurringLimit>(perm::TOK_REC, $($a),*);
    $f::<all::All>(perm::ALL, $($a),*);
    $f::<manage_authority::ManageAuthority>(perm::MANAGE, $($a),*);
    $f::<sub_account::SubAccount>(perm::SUB, $($a),*);
    $f::<stake_limit::StakeLimit>(perm::STAKE, $($a),*);
    $f::<stake_recurring_limit::StakeRecurringLimit>(perm::STAKE_REC, $($a),*);
    $f::<stake_all::StakeAll>(perm::STAKE_ALL, $($a),*);
    $f::<program_all::ProgramAll>(perm::PROG_ALL, $($a),*);
    $f::<program_curated::ProgramCurated>(perm::CURATED, $($a),*);
    $f::<all_but_manage_authority::AllButManageAuthority>(perm::ALL_BUT, $($a),*);
    $f::<sol_destination_limit::SolDestinationLimit>(perm::SOL_DEST, $($a),*);
    $f::<sol_recurring_destination_limit::SolRecurringDestinationLimit>(perm::SOL_REC_DEST, $($a),*);
    $f::<token_destination_limit::TokenDestinationLimit>(perm::TOK_DEST, $($a),*);
    $f::<token_recurring_destination_limit::TokenRecurringDestinationLimit>(perm::TOK_REC_DEST, $($a),*);
    $f::<close_swig_authority::CloseSwigAuthority>(perm::CLOSE, $($a),*);
    $f::<replace_authority::ReplaceAuthority>(perm::REPLACE, $($a),*);
    $f::<sub_account_v2::SubAccountV2Create>(perm::V2_CREATE, $($a),*);
    $f::<sub_account_v2::SubAccountV2All>(perm::V2_ALL, $($a),*);
    $f::<sub_account_v2::SubAccountV2Sign>(perm::V2_SIGN, $($a),*);
    $f::<sub_account_v2::SubAccountV2Withdraw>(perm::V2_WITHDRAW, $($a),*);
    $f::<sub_account_v2::SubAccountV2Toggle>(perm::V2_TOGGLE, $($a),*);
}} }

// ------------------------------------------------------------------ permissions of one role
struct Pr<'a> { ck: &'a Ck, sw: &'a Sw, data: &'a Buf, role: usize, base: usize, keys: Option<(u16, &'a [Vec<u8>])>, label: &'a dyn Fn() -> String }
fn bad_rec(p: &Pr, what: &str, ty: u16, key: &[u8], want: String, got: String) {
    p.ck.fail("wrong-permission", format!("{VARIANT}: {what} of kind {ty} for parameter {} in role {} of {}: expected {want}, got {got}", hx(key), p.sw.roles[p.role].id, (p.label)()), vec![], None);
}
fn find_one<A: for<'x> Actionable<'x>>(ty: u16, p: &Pr) {
    let role = &p.sw.roles[p.role];
    if A::TYPE as u16 != ty || A::LEN != perm::len(ty).unwrap() || A::REPEATABLE != repeatable(ty) {
        p.ck.fail("kind-constants", format!("{VARIANT}: kind {ty} is {} of {} bytes, repeatable {}", A::TYPE as u16, A::LEN, A::REPEATABLE), vec![], None);
        return;
    }
    let keys = match p.keys { Some((t, _)) if t != ty => return, Some((_, k)) => k.to_vec(), None => keys_of(ty) };
    let offs = offsets(role, p.base);
    let swr = match SwigWithRoles::from_bytes(p.data.get()) { Ok(s) => s, Err(e) => return p.ck.fail("unreadable", format!("{VARIANT}: {}: {e:?}", (p.label)()), vec![], None) };
    for key in &keys {
        let want = role.acts.iter().position(|a| a.ty == ty && (!repeatable(ty) || matches(a, key)));
        let wd = want.map(|i| role.acts[i].data.clone());
        let show = |o: &Option<Vec<u8>>| match o { Some(d) => format!("record {}", hx(d)), None => "none".into() };
        p.ck.trans(1);
        let r = swr.get_role(role.id);
        match &r {
            Ok(Some(r)) => match r.get_action::<A>(key) {
                Ok(g) => { let gd = g.map(raw); if gd != wd || (A::LEN > 0 && g.map(|x| x as *const A as usize - p.data.get().as_ptr() as usize) != want.map(|i| offs[i])) { bad_rec(p, "record", ty, key, show(&wd), show(&gd)); } }
                Err(e) => bad_rec(p, "record", ty, key, show(&wd), format!("error {e:?}")),
            },
            _ => bad_rec(p, "role", ty, key, "a role".into(), "none".into()),
        }
        // the mutable view
        let mut m = p.data.clone();
        let start = m.get().as_ptr() as usize;
        let end = 48 + p.sw.roles.iter().map(|r| r.size()).sum::<usize>();
        {
            let v = unsafe { &mut *(&mut m.get_mut()[48..end] as *mut [u8]) };
            match Swig::get_mut_role(role.id, v) {
                Ok(Some(r)) => match r.get_action::<A>(key) {
                    Ok(g) => { let gd = g.map(raw); if gd != wd { bad_rec(p, "record (mutable view)", ty, key, show(&wd), show(&gd)); } }
                    Err(e) => bad_rec(p, "record (mutable view)", ty, key, show(&wd), format!("error {e:?}")),
                },
                _ => bad_rec(p, "role (mutable view)", ty, key, "a role".into(), "none".into()),
            }
        }
        {
            let v = unsafe { &mut *(&mut m.get_mut()[48..end] as *mut [u8]) };
            if let Ok(Some(r)) = Swig::get_mut_role(role.id, v) {
                match RoleMut::get_action_mut::<A>(r.actions, key) {
                    Ok(g) => {
                        let at = g.map(|x| { let q = x as *mut A as *mut u8; unsafe { for i in 0..A::LEN { *q.add(i) ^= 0xFF } }; q as usize - start });
                        let wrong = match (at, want) { (None, None) => false, (Some(a), Some(i)) => A::LEN > 0 && a != offs[i], _ => true };
                        if wrong { bad_rec(p, "writable record", ty, key, format!("{:?}", want.map(|i| offs[i])), format!("{at:?}")); }
                    }
                    Err(e) => bad_rec(p, "writable record", ty, key, show(&wd), format!("error {e:?}")),
                }
            }
        }
        let mut exp = p.data.get().to_vec();
        if let Some(i) = want { for b in &mut exp[offs[i]..offs[i] + A::LEN] { *b ^= 0xFF } }
        if m.get() != &exp[..] { bad_rec(p, "write through the writable record", ty, key, "only that record to change".into(), "other bytes changed".into()); }
    }
    let r = swr.get_role(role.id);
    if let Ok(Some(r)) = &r {
        let want: Vec<Vec<u8>> = role.acts.iter().filter(|a| a.ty == ty).map(|a| a.data.clone()).collect();
        match r.get_all_actions_of_type::<A>() {
            Ok(g) => { let g: Vec<_> = g.into_iter().map(raw).collect(); if g != want { bad_rec(p, "all records", ty, &[], format!("{} records", want.len()), format!("{} records", g.len())); } }
            Err(e) => bad_rec(p, "all records", ty, &[], format!("{} records", want.len()), format!("error {e:?}")),
        }
    };
}
fn find_in<A: for<'x> Actionable<'x>>(ty: u16, ck: &Ck, list: &[Act], bytes: &Buf, label: &dyn Fn() -> String) {
    ck.trans(1);
    let want = list.iter().find(|a| a.ty == ty).map(|a| a.data.clone());
    match ActionLoader::find_action::<A>(bytes.get()) {
        Ok(g) => { let g = g.map(raw); ck.ensure(g == want, "wrong-permission", || format!("{VARIANT}: first record of kind {ty} in {}: {g:?}", label())); }
        Err(e) => ck.fail("wrong-permission", format!("{VARIANT}: find_action {ty} in {}: {e:?}", label()), vec![], None),
    }
}

/// Everything a reader can see of one configuration account.
pub fn read_back(ck: &Ck, sw: &Sw, label: &dyn Fn() -> String) {
    let data = Buf::new(&sw.encode());
    let d = data.get();
    ck.see(sw);
    let f = |what: &str, m: String| ck.fail(what, format!("{VARIANT}: {m} in {}", label()), vec![], None);
    let roles_end = 48 + sw.roles.iter().map(|r| r.size()).sum::<usize>();
    match Swig::roles_end_offset(d) { Ok(n) if n == roles_end => {} r => f("layout", format!("roles end at {r:?}, expected {roles_end}")) }
    match Swig::split_parts(d) { Ok(p) if p.roles == &d[48..roles_end] && p.tail == &d[roles_end..] && state_ok(p.state, sw) => {} _ => f("layout", "split_parts".into()) }
    match Swig::split_roles_and_tail(d) { Ok((r, t)) if r == &d[48..roles_end] && t == &d[roles_end..] => {} _ => f("layout", "split_roles_and_tail".into()) }
    let mut m = data.clone();
    match Swig::split_parts_mut(m.get_mut()) { Ok(p) if p.roles == &d[48..roles_end] && p.tail == &d[roles_end..] && state_ok(p.state, sw) => {} _ => f("layout", "split_parts_mut".into()) }
    match Swig::split_roles_and_tail_mut(m.get_mut()) { Ok((r, t)) if r == &d[48..roles_end] && t == &d[roles_end..] => {} _ => f("layout", "split_roles_and_tail_mut".into()) }
    let want = sw.claimer;
    match st::tail::rent_claimer::read_strict(&d[roles_end..]) { Ok(c) if c.copied() == want => {} r => f("claimer", format!("claimer {r:?}")) }
    match st::tail::rent_claimer::read(&d[roles_end..]) { Ok(c) if c.copied() == want => {} r => f("claimer", format!("claimer {r:?}")) }
    match st::tail::SavedTail::take(&d[roles_end..]) {
        Ok(t) => {
            let mut z = vec![7u8; 60 + t.len()];
            let ok = t.len() == d.len() - roles_end && t.is_empty() == sw.claimer.is_none() && t.restore(&mut z).is_ok() && z[60..] == d[roles_end..] && z[..60] == [7; 60];
            let mut y = vec![7u8; 60 + t.len()];
            let ok2 = t.restore_at(&mut y, 3).is_ok() && y[3..3 + t.len()] == d[roles_end..] && y[..3] == [7; 3] && y[3 + t.len()..].iter().all(|b| *b == 7);
            if !ok || !ok2 { f("claimer", "saved tail".into()) }
            if !t.is_empty() && (t.restore_at(&mut y, 61).is_ok() || t.restore_at(&mut y, usize::MAX).is_ok() || t.restore(&mut y[..t.len() - 1]).is_ok()) { f("claimer", "saved tail restored out of bounds".into()) }
        }
        Err(e) => f("claimer", format!("saved tail {e:?}")),
    }
    let swr = match SwigWithRoles::from_bytes(d) { Ok(s) => s, Err(e) => return f("unreadable", format!("{e:?}")) };
    if !state_ok(swr.state, sw) { f("header", "header fields".into()) }
    let mut ids: Vec<u32> = (0..sw.counter.min(64) + 2).collect();
    ids.push(u32::MAX);
    if sw.counter > 64 {
        ids = crate::p_roles::big_targets(sw).into_iter().flat_map(|i| [i, i & 0xff, i & 0xffff, i + 1, i - 1, i.wrapping_add(256), i.wrapping_add(65536)]).collect();
        ids.extend([0, sw.counter, u32::MAX]);
        ids.sort();
        ids.dedup();
    }
    for id in ids {
        ck.trans(1);
        let want = sw.role(id);
        let got = swr.get_role(id);
        let mut m = data.clone();
        let v = unsafe { &mut *(&mut m.get_mut()[48..roles_end] as *mut [u8]) };
        let gm = Swig::get_mut_role(id, v);
        match (want, got, gm) {
            (None, Ok(None), Ok(None)) => {}
            (Some(r), Ok(Some(g)), Ok(Some(gm))) => {
                let p = g.position;
                let ok = p.id() == id && p.authority_type().ok().map(|t| t as u16) == Some(r.aty) && g.authority_type().ok().map(|t| t as u16) == Some(r.aty)
                    && p.authority_length() as usize == r.auth.len() && p.num_actions() as usize == r.acts.len() && p.boundary() as usize == r_end(sw, id) - 48
                    && g.actions == &acts_bytes(&r.acts)[..]
                    && gm.position.id() == id && gm.position.boundary() == p.boundary() && gm.num_actions as usize == r.acts.len() && gm.actions == &acts_bytes(&r.acts)[..];
                if !ok { f("role-fields", format!("role {id}")) }
                for (a, who) in [(g.authority, "read-only"), (&*gm.authority, "mutable")] {
                    let idn = if matches!(r.aty, PE | PES) { r.auth[40..40 + r.auth[32] as usize].to_vec() } else { r.auth[..if matches!(r.aty, ED | EDS) { 32 } else { 33 }].to_vec() };
                    let odo = matches!(r.aty, K1 | K1S | R1 | R1S).then(|| r.odometer());
                    if a.authority_type() as u16 != r.aty || a.length() != r.auth.len() || a.session_based() != is_session(r.aty) || a.identity().ok() != Some(&idn[..]) || a.signature_odometer() != odo {
                        f("authority-fields", format!("{who} authority of role {id}: type {} length {} session {} odometer {:?}", a.authority_type() as u16, a.length(), a.session_based(), a.signature_odometer()))
                    }
                }
                match g.get_all_actions() {
                    Ok(l) => {
                        let mut b = 0u32;
                        let ok = l.len() == r.acts.len() && l.iter().zip(&r.acts).all(|(x, a)| { b += 8 + a.data.len() as u32; x.permission().ok().map(|p| p as u16) == Some(a.ty) && x.length() as usize == a.data.len() && x.boundary() == b });
                        if !ok { f("wrong-permission", format!("listed permissions of role {id}")) }
                    }
                    Err(e) => f("wrong-permission", format!("listing permissions of role {id}: {e:?}")),
                }
            }
            (w, g, gm) => f("role-presence", format!("role {id}: expected present={}, found {:?}, mutable view {:?}", w.is_some(), g.map(|x| x.is_some()), gm.map(|x| x.is_some()))),
        };
    }
    for t in scope_targets() {
        let mut want: Option<(u8, Vec<u8>)> = None;
        for id in 0..sw.counter { if let Some(r) = sw.role(id) { if let Some(a) = r.acts.iter().find(|a| a.ty == perm::SCOPE && a.data[80..112] == t) { want = Some((id as u8, a.data.clone())); break; } } }
        let got = swr.find_program_scope_by_target(&t).map(|(i, s)| (i, raw(&s)));
        if got != want { f("scope-lookup", format!("scope of {}: {:?}", hx(&t[..2]), got.map(|x| x.0))) }
    }
}
fn r_end(sw: &Sw, id: u32) -> usize { let p = sw.pos(id).unwrap(); 48 + sw.roles[..=p].iter().map(|r| r.size()).sum::<usize>() }
fn state_ok(s: &Swig, sw: &Sw) -> bool {
    s.discriminator == 1 && s.bump == sw.bump && s.id == sw.id && s.roles as usize == sw.roles.len() && s.role_counter == sw.counter && s.wallet_bump == sw.wbump && s.sub_account_counter == sw.subctr
        && s.into_bytes().ok() == Some(&sw.encode()[..48])
}
pub fn lookups(ck: &Ck, sw: &Sw, label: &dyn Fn() -> String) {
    let data = Buf::new(&sw.encode());
    let Ok(swr) = SwigWithRoles::from_bytes(data.get()) else { return ck.fail("unreadable", format!("{VARIANT}: {}", label()), vec![], None) };
    for key in lookup_keys() {
        ck.trans(1);
        let want = sw.roles.iter().find(|r| authority_is(r, key)).map(|r| r.id);
        let got = swr.lookup_role_id(key);
        ck.ensure(got == Ok(want), "wrong-role-lookup", || format!("{VARIANT}: looking up {} in {}: expected {want:?}, got {got:?}", hx(key), label()));
    }
}
/// the records of one kind, looked up by these parameters
pub fn parameters(ck: &Ck, sw: &Sw, role: usize, ty: u16, keys: &[Vec<u8>], label: &dyn Fn() -> String) {
    let data = Buf::new(&sw.encode());
    ck.see(sw);
    let base = 48 + sw.roles[..role].iter().map(|r| r.size()).sum::<usize>();
    let p = Pr { ck, sw, data: &data, role, base, keys: Some((ty, keys)), label };
    every_kind!(find_one(&p));
}
pub fn permissions(ck: &Ck, sw: &Sw, role: usize, label: &dyn Fn() -> String) {
    let data = Buf::new(&sw.encode());
    ck.see(sw);
    let base = 48 + sw.roles[..role].iter().map(|r| r.size()).sum::<usize>();
    let p = Pr { ck, sw, data: &data, role, base, keys: None, label };
    every_kind!(find_one(&p));
    let b = Buf::new(&acts_bytes(&sw.roles[role].acts));
    every_kind!(find_in(ck, &sw.roles[role].acts, &b, label));
}

// ------------------------------------------------------------------ identifiers and layouts
fn layout_of<A: for<'x> Actionable<'x>>(ty: u16, ck: &Ck) {
    for n in 0..=160usize {
        for pat in layouts(ty, n) {
            ck.trans(1);
            let b = Buf::new(&pat);
            let want = crate::spec::valid_act(&Act { ty, data: pat.clone() });
            let got = A::valid_layout(b.get());
            let via = Permission::try_from(ty).map_err(|_| ProgramError::InvalidArgument).and_then(|p| ActionLoader::validate_layout(p, b.get()));
            ck.ensure(got.as_ref().ok().copied().unwrap_or(false) == want && via.as_ref().ok().copied().unwrap_or(false) == want, "wrong-layout",
                || format!("{VARIANT}: record of kind {ty} with {n} bytes {}: expected valid={want}, got {got:?} / {via:?}", hx(b.get())));
            if n == A::LEN && n > 0 {
                let ok = unsafe { A::load_unchecked(b.get()) }.ok().map(raw) == Some(pat.clone());
                ck.ensure(ok, "wrong-layout", || format!("{VARIANT}: record of kind {ty} does not read back"));
            }
        }
        if n != A::LEN { ck.ensure(unsafe { A::load_unchecked(Buf::new(&vec![0; n]).get()) }.is_err(), "wrong-layout", || format!("{VARIANT}: {n} bytes accepted as kind {ty}")) }
    }
}
pub fn identifiers(ck: &Ck) {
    for v in 0..=u16::MAX {
        ck.trans(3);
        let p = Permission::try_from(v).ok().map(|p| p as u16);
        ck.ensure(p == (v <= 26).then_some(v), "kind-id", || format!("{VARIANT}: permission kind {v} reads as {p:?}"));
        let p2 = Permission::try_from(&v.to_le_bytes()[..]).ok().map(|p| p as u16);
        ck.ensure(p2 == p, "kind-id", || format!("{VARIANT}: permission kind bytes of {v} read as {p2:?}"));
        let a = AuthorityType::try_from(v);
        ck.ensure(a.as_ref().ok().map(|a| *a as u16) == (1..=8).contains(&v).then_some(v), "kind-id", || format!("{VARIANT}: credential kind {v} reads as {a:?}"));
        if let Ok(a) = a { ck.ensure(st::authority::authority_type_to_length(&a).ok() == Some(stored_len(v)), "kind-id", || format!("{VARIANT}: length of credential kind {v}")) }
    }
    for v in 0..=u8::MAX {
        let d = st::Discriminator::try_from(v).ok().map(|d| d as u8);
        ck.ensure(d == matches!(v, 1 | 2 | 255).then_some(v), "kind-id", || format!("{VARIANT}: account kind {v} reads as {d:?}"));
        let n = program_scope::NumericType::from_u8(v);
        let want = match v { 0 => Some(u8::MAX as u128), 1 => Some(u32::MAX as u128), 2 => Some(u64::MAX as u128), 3 => Some(u128::MAX), _ => None };
        ck.ensure(n.map(|n| n.max_value()) == want && n.map(|n| n as u8) == want.map(|_| v), "kind-id", || format!("{VARIANT}: numeric kind {v}"));
    }
    for n in 0..5usize { ck.ensure(Permission::try_from(&vec![0u8; n][..]).is_ok() == (n == 2), "kind-id", || format!("{VARIANT}: permission kind from {n} bytes")) }
    every_kind!(layout_of(ck));
    for p in curated_probe() {
        let want = curated(&p);
        ck.trans(1);
        ck.ensure(program_curated::ProgramCurated::is_curated_program(&p) == want && program_curated::ProgramCurated::get_curated_programs().contains(&p) == want, "curated", || format!("{VARIANT}: curated program {}", hx(&p)));
    }
}
/// duplicate scoped records
pub fn duplicates(ck: &Ck, list: &[Act]) {
    ck.trans(1);
    let b = Buf::new(&acts_bytes(list));
    let want = !dup_v2(list);
    let got = ActionLoader::reject_duplicate_v2_scoped(b.get());
    ck.ensure(got.is_ok() == want, "duplicates", || format!("{VARIANT}: list {:?}: {got:?}", crate::p_roles::kinds(list)));
}

// ------------------------------------------------------------------ spend accounting
fn accounting<T>(ck: &Ck, name: &str, a: &Act, n: u64, slot: u64, want: Result<Act, Rej>, mut t: T, run: impl FnOnce(&mut T) -> Result<(), ProgramError>) where T: Transmutable {
    ck.trans(1);
    let r = run(&mut t);
    let got = raw(&t);
    match (want, r) {
        (Ok(w), Ok(())) if w.data == got => {}
        (Err(_), Err(_)) => {}
        (w, r) => ck.fail("wrong-accounting", format!("{VARIANT}: {name} {} charged {n} at slot {slot}: expected {w:?}, got {r:?} leaving {}", hx(&a.data), hx(&got)), vec![], None),
    }
}
fn load<T: Transmutable>(a: &Act) -> T {
    assert_eq!(a.data.len(), T::LEN);
    unsafe { std::ptr::read_unaligned(a.data.as_ptr() as *const T) }
}
pub fn spending(ck: &Ck, n: u64) {
    let vals = edge64();
    for &cur in &vals {
        let lim = |mut a: Act, o: usize| { let e = run_limit(&mut a.data, o, n); e.map(|_| a) };
        let a = a_sol(cur);
        accounting(ck, "SolLimit", &a, n, 0, lim(a.clone(), 0), load::<sol_limit::SolLimit>(&a), |t| t.run(n));
        let a = a_stake(cur);
        accounting(ck, "StakeLimit", &a, n, 0, lim(a.clone(), 0), load::<stake_limit::StakeLimit>(&a), |t| t.run(n));
        let a = a_tok(&DEST, cur);
        accounting(ck, "TokenLimit", &a, n, 0, lim(a.clone(), 32), load::<token_limit::TokenLimit>(&a), |t| t.run(n));
        let a = a_sol_dest(&DEST, cur);
        accounting(ck, "SolDestinationLimit", &a, n, 0, lim(a.clone(), 32), load::<sol_destination_limit::SolDestinationLimit>(&a), |t| t.run(n));
        let a = a_tok_dest(&DEST, &DEST2, cur);
        accounting(ck, "TokenDestinationLimit", &a, n, 0, lim(a.clone(), 64), load::<token_destination_limit::TokenDestinationLimit>(&a), |t| t.run(n));
        for &limit in &vals {
            for &win in &[1u64, 2, 5, u64::MAX - 1, u64::MAX] {
                for &last in &[0u64, 1, 4, 5, 10, u64::MAX - 1] {
                    for slot in slots_for(last, win) {
                        let rec = |a: &Act, f: &Rec| { let mut b = a.clone(); run_rec(&mut b.data, f, n, slot).map(|_| b) };
                        let a = a_sol_rec_at(limit, win, last, cur);
                        accounting(ck, "SolRecurringLimit", &a, n, slot, rec(&a, &SOL_REC), load::<sol_recurring_limit::SolRecurringLimit>(&a), |t| t.run(n, slot));
                        let a = Act { ty: perm::STAKE_REC, data: a.data };
                        accounting(ck, "StakeRecurringLimit", &a, n, slot, rec(&a, &SOL_REC), load::<stake_recurring_limit::StakeRecurringLimit>(&a), |t| t.run(n, slot));
                        let a = a_tok_rec_at(&DEST, limit, win, last, cur);
                        accounting(ck, "TokenRecurringLimit", &a, n, slot, rec(&a, &TOK_REC), load::<token_recurring_limit::TokenRecurringLimit>(&a), |t| t.run(n, slot));
                        if slot >= last {
                            let mut a = a_sol_rec_dest(&DEST, limit, win);
                            put64(&mut a.data, 48, last);
                            put64(&mut a.data, 56, cur);
                            accounting(ck, "SolRecurringDestinationLimit", &a, n, slot, rec(&a, &SOL_REC_DEST), load::<sol_recurring_destination_limit::SolRecurringDestinationLimit>(&a), |t| t.run(n, slot));
                            let mut a = a_tok_rec_dest(&DEST, &DEST2, limit, win);
                            put64(&mut a.data, 80, last);
                            put64(&mut a.data, 88, cur);
                            accounting(ck, "TokenRecurringDestinationLimit", &a, n, slot, rec(&a, &TOK_REC_DEST), load::<token_recurring_destination_limit::TokenRecurringDestinationLimit>(&a), |t| t.run(n, slot));
                        }
                        for wide in [0u128, 1 << 70] {
                            for kind in 0..3u64 {
                                if kind != 2 && (win != 1 || last != 0) { continue; }
                                let nn = n as u128 | wide;
                                let a = a_scope(&Scope { cur: cur as u128, lim: (limit as u128) | (wide & if limit == 5 { u128::MAX } else { 0 }), win, last, prog: DEST, target: DEST2, kind, num: 2, start: 0, end: 8 });
                                let mut b = a.clone();
                                let want = run_scope(&mut b, nn, slot).map(|_| b);
                                accounting(ck, "ProgramScope", &a, n, slot, want, load::<program_scope::ProgramScope>(&a), |t| t.run(nn, Some(slot)));
                                if kind == 2 { ck.ensure(load::<program_scope::ProgramScope>(&a).run(nn, None).is_err(), "wrong-accounting", || format!("{VARIANT}: recurring scope without a slot")); }
                            }
                        }
                    }
                }
            }
        }
    }
}
pub fn scopes(ck: &Ck) {
    use program_scope::*;
    let data: Vec<u8> = (0..40u8).map(|i| i.wrapping_mul(37) ^ 0x91).collect();
    for num in 0..6u64 { for start in 0..=26u64 { for end in 0..=42u64 { for len in [0usize, 1, 8, 16, 24, 25, 40] {
        ck.trans(1);
        let s = Scope { cur: 0, lim: 0, win: 0, last: 0, prog: DEST, target: DEST2, kind: 1, num, start, end };
        if end < start { continue; }
        let want = scope_balance(&s, &data[..len]);
        let got = load::<ProgramScope>(&a_scope(&s)).read_account_balance(&data[..len]);
        ck.ensure(got.as_ref().ok() == want.as_ref(), "scope-balance", || format!("{VARIANT}: numeric kind {num} bytes {start}..{end} of {len}: expected {want:?}, got {got:?}"));
    } } } }
    for start in [0u64, 1, 7, 8, 1016, 1023, 1024, u64::MAX] { for end in [0u64, 1, 7, 8, 9, 1023, 1024, 1025, u64::MAX] {
        let mut s = ProgramScope::new_basic(DEST, DEST2);
        let r = s.set_balance_field_indices(start, end);
        let want = start < end && end <= 1024;
        let p = parse_scope(&raw(&s));
        ck.trans(1);
        ck.ensure(r.is_ok() == want && (p.start, p.end) == if want { (start, end) } else { (0, 0) }, "scope-fields", || format!("{VARIANT}: balance field {start}..{end}: {r:?}"));
    } }
    let nums = [NumericType::U8, NumericType::U32, NumericType::U64, NumericType::U128];
    let vals: Vec<u128> = [0u128, 1, 255, 256, u32::MAX as u128, 1 << 32, u64::MAX as u128, 1 << 64, u128::MAX].to_vec();
    for (i, n) in nums.iter().enumerate() { for &v in &vals {
        ck.trans(1);
        let s = parse_scope(&raw(&ProgramScope::new_limit(DEST, DEST2, v, *n)));
        let z = Scope { cur: 0, lim: v, win: 0, last: 0, prog: DEST, target: DEST2, kind: 1, num: i as u64, start: 0, end: 0 };
        ck.ensure(s == z, "scope-fields", || format!("{VARIANT}: limited scope {s:?}"));
        let s = parse_scope(&raw(&ProgramScope::new_recurring_limit(DEST, DEST2, v, 77, *n)));
        ck.ensure(s == Scope { kind: 2, win: 77, ..z.clone() }, "scope-fields", || format!("{VARIANT}: recurring scope {s:?}"));
        let s = parse_scope(&raw(&ProgramScope::new_basic(DEST, DEST2)));
        ck.ensure(s == Scope { kind: 0, lim: 0, num: 2, ..z.clone() }, "scope-fields", || format!("{VARIANT}: basic scope {s:?}"));
        let mut t = ProgramScope::new_limit(DEST, DEST2, 9u128, *n);
        let fits = v <= n.max_value();
        ck.ensure(t.validate_amount(v).is_ok() == fits && t.set_current_amount(v).is_ok() == fits && t.current_amount == if fits { v } else { 0 }, "scope-fields", || format!("{VARIANT}: amount {v} in {n:?}"));
        let g8 = t.get_current_amount::<u8>().ok().map(|x| x as u128);
        let g64 = t.get_current_amount::<u64>().ok().map(|x| x as u128);
        let c = t.current_amount;
        ck.ensure(g8 == (c < 256).then_some(c) && g64 == (c <= u64::MAX as u128).then_some(c) && t.get_current_amount::<u128>().ok() == Some(c), "scope-fields", || format!("{VARIANT}: amount {c} reads back as {g8:?}/{g64:?}"));
    } }
}

// ------------------------------------------------------------------ addresses, sub-account records, trailing entries, keys
fn flat(s: &[&[u8]]) -> Vec<Vec<u8>> { s.iter().map(|x| x.to_vec()).collect() }
fn sg(s: &[pinocchio::instruction::Seed]) -> Vec<Vec<u8>> { s.iter().map(|x| x.to_vec()).collect() }
pub fn addresses(ck: &Ck) {
    for n in 0..6u8 {
        let wl = Wl::new(n);
        for role in [0u32, 1, 255, 256, 0x01020304, u32::MAX] {
            ck.trans(1);
            let le = role.to_le_bytes();
            let b = [wl.bump ^ role as u8];
            let mut w = vec![b"swig".to_vec(), wl.id.to_vec()];
            let mut ok = flat(&swig_account_seeds(&wl.id)) == w;
            w.push(b.to_vec());
            ok &= flat(&swig_account_seeds_with_bump(&wl.id, &b)) == w && sg(&swig_account_signer(&wl.id, &b)) == w;
            let mut w = vec![b"swig-wallet-address".to_vec(), wl.swig.to_vec()];
            ok &= flat(&swig_wallet_address_seeds(&wl.swig)) == w;
            w.push(b.to_vec());
            ok &= flat(&swig_wallet_address_seeds_with_bump(&wl.swig, &b)) == w && sg(&swig_wallet_address_signer(&wl.swig, &b)) == w;
            let mut w = vec![b"sub-account".to_vec(), wl.id.to_vec(), le.to_vec()];
            ok &= flat(&sub_account_seeds(&wl.id, &le)) == w;
            w.push(b.to_vec());
            ok &= flat(&sub_account_seeds_with_bump(&wl.id, &le, &b)) == w && sg(&sub_account_signer(&wl.id, &le, &b)) == w;
            let mut w = vec![b"sub-account-v2-state".to_vec(), wl.id.to_vec(), le.to_vec()];
            ok &= flat(&sub_account_v2_state_seeds(&wl.id, &le)) == w;
            w.push(b.to_vec());
            ok &= flat(&sub_account_v2_state_seeds_with_bump(&wl.id, &le, &b)) == w && sg(&sub_account_v2_state_signer(&wl.id, &le, &b)) == w;
            let mut w = vec![b"sub-account-v2".to_vec(), wl.id.to_vec(), le.to_vec()];
            ok &= flat(&sub_account_v2_asset_seeds(&wl.id, &le)) == w;
            w.push(b.to_vec());
            ok &= flat(&sub_account_v2_asset_seeds_with_bump(&wl.id, &le, &b)) == w && sg(&sub_account_v2_asset_signer(&wl.id, &le, &b)) == w;
            ck.ensure(ok, "wrong-address", || format!("{VARIANT}: seeds of wallet {n} role/number {role}"));
            ck.ensure(find_pda(&swig_wallet_address_seeds(&wl.swig), &SWIG) == Some((wl.wallet, wl.wbump)) && find_pda(&swig_account_seeds(&wl.id), &SWIG) == Some((wl.swig, wl.bump))
                && find_pda(&sub_account_seeds(&wl.id, &le), &SWIG) == Some(wl.sub1(role)) && find_pda(&sub_account_v2_asset_seeds(&wl.id, &le), &SWIG) == Some(wl.sub2(role)) && find_pda(&sub_account_v2_state_seeds(&wl.id, &le), &SWIG) == Some(wl.sub2_state(role)),
                "wrong-address", || format!("{VARIANT}: addresses of wallet {n} role/number {role}"));
            // sub-account records
            use st::sub_account_v2::SubAccountV2;
            let mut s = SubAccountV2::new(7, 9, role, wl.id, wl.swig);
            let mut want = vec![2u8, 7, 9, 1];
            want.extend(le);
            want.extend(wl.id);
            want.extend(wl.swig);
            ck.ensure(raw(&s) == want && s.check_discriminator().is_ok() && s.is_enabled() == Ok(true), "sub-record", || format!("{VARIANT}: new sub-account record {}", hx(&raw(&s))));
            for v in 0..=255u8 {
                s.enabled = v;
                ck.ensure(s.is_enabled().ok() == match v { 0 => Some(false), 1 => Some(true), _ => None }, "sub-record", || format!("{VARIANT}: enabled byte {v}"));
                s.set_enabled(v & 1 == 1);
                ck.ensure(s.enabled == v & 1, "sub-record", || format!("{VARIANT}: set_enabled"));
                s.discriminator = v;
                ck.ensure(s.check_discriminator().is_ok() == (v == 2), "sub-record", || format!("{VARIANT}: record kind {v}"));
            }
        }
    }
    for n in 1..=9u8 {
        let f = k1_full(n);
        let c = st::authority::secp256k1::compress(&f);
        ck.ensure(c == k1_comp(n), "compress", || format!("{VARIANT}: compressed key {n}"));
    }
    let all: Vec<u8> = (0..=255).collect();
    let mut out = vec![0u8; 512];
    st::authority::secp256k1::hex_encode(&all, &mut out);
    ck.ensure(out == hx(&all).into_bytes(), "hex", || format!("{VARIANT}: hex text"));
    for (w, s) in [(false, false), (false, true), (true, false), (true, true)] {
        let p = st::authority::secp256k1::AccountsPayload::new(DEST, w, s);
        let mut e = DEST.to_vec();
        e.extend([w as u8, s as u8, 0, 0, 0, 0, 0, 0]);
        ck.ensure(p.into_bytes().ok() == Some(&e[..]), "accounts-payload", || format!("{VARIANT}: account payload {w} {s}"));
    }
    for n in 0..=48usize {
        let pre: Vec<u8> = (0..n as u8).map(|x| x + 1).collect();
        let d = st::authority::programexec::ProgramExecAuthority::create_authority_data(&DEST, &pre);
        ck.ensure(d == pe_state(&DEST, &pre[..n.min(40)]), "pe-data", || format!("{VARIANT}: program-execution data for a prefix of {n}"));
    }
}
pub fn tails(ck: &Ck, kind: u8) {
    use st::tail::*;
    let e = rent_claimer::entry(&DEST);
    ck.ensure(e[..8] == [1, 1, 32, 0, 0, 0, 0, 0] && e[8..] == DEST, "claimer", || format!("{VARIANT}: new trailing entry"));
    let lens = [0usize, 1, 31, 32, 33, 40, 255, 256];
    let body: Vec<u8> = (0..400).map(|i| (i % 251) as u8).collect();
    for &vl in &lens { for ver in [0u8, 1, 2] { for pay in [0u8, 1] { for extra in [-1i64, 0, 1, 7, 8, 40] {
        let mut t = vec![kind, ver, vl as u8, (vl >> 8) as u8, 0, 0, 0, pay];
        t.extend(&body[..vl]);
        let n = (t.len() as i64 + extra).max(0) as usize;
        if n > t.len() { let e = rent_claimer::entry(&DEST2); let more: Vec<u8> = e.iter().copied().cycle().take(n - t.len()).collect(); t.extend(more); } else { t.truncate(n); }
        ck.trans(1);
        let head = (t.len() >= 8).then(|| 8 + (t[2] as usize | (t[3] as usize) << 8));
        let whole = head.is_some_and(|h| t.len() >= h);
        // strict
        let want = if t.is_empty() { Some(None) } else if t.len() == 40 && t[..8] == [1, 1, 32, 0, 0, 0, 0, 0] { Some(Some(t[8..].to_vec())) } else { None };
        let got = rent_claimer::read_strict(&t).ok().map(|o| o.map(|x| x.to_vec()));
        ck.ensure(got == want, "claimer", || format!("{VARIANT}: trailing bytes {}: expected {want:?}, got {got:?}", hx(&t[..t.len().min(12)])));
        ck.ensure(SavedTail::take(&t).is_ok() == want.is_some(), "claimer", || format!("{VARIANT}: saved trailing bytes {}", hx(&t[..t.len().min(12)])));
        // one entry of any kind
        let one = whole && (kind != 1 || vl == 32);
        let got = AnyTailEntry::read(&t);
        let ok = match (&got, one) {
            (Ok((AnyTailEntry::RentClaimer(r), n)), true) => kind == 1 && *n == 40 && r.claimer[..] == t[8..40] && r.header.version == ver,
            (Ok((AnyTailEntry::Unknown(u), n)), true) => kind != 1 && *n == 8 + vl && u.value == &t[8..8 + vl] && u.header.kind == kind && u.header.value_len as usize == vl,
            (Err(_), false) => true,
            _ => false,
        };
        ck.ensure(ok, "claimer", || format!("{VARIANT}: trailing entry {}: {got:?}", hx(&t[..t.len().min(12)])));
        // all entries, first claimer
        let mut at = 0;
        let mut list = Some(vec![]);
        let mut first: Option<Option<Vec<u8>>> = Some(None);
        while at < t.len() {
            let h = (t.len() - at >= 8).then(|| 8 + (t[at + 2] as usize | (t[at + 3] as usize) << 8)).filter(|h| at + h <= t.len());
            let Some(h) = h else { list = None; if first == Some(None) { first = None; } break };
            if t[at] == 1 {
                if h != 40 { list = None; if first == Some(None) { first = None; } break }
                if first == Some(None) { first = Some(Some(t[at + 8..at + 40].to_vec())); }
            }
            if let Some(l) = &mut list { l.push(t[at]); }
            at += h;
        }
        let got = AnyTailEntry::read_all(&t).ok().map(|l| l.iter().map(|e| match e { AnyTailEntry::RentClaimer(r) => r.header.kind, AnyTailEntry::Unknown(u) => u.header.kind }).collect::<Vec<_>>());
        ck.ensure(got == list, "claimer", || format!("{VARIANT}: entries of {}: {got:?}", hx(&t[..t.len().min(12)])));
        let got = rent_claimer::read(&t).ok().map(|o| o.map(|x| x.to_vec()));
        ck.ensure(got == first, "claimer", || format!("{VARIANT}: first claimer of {}: {got:?}", hx(&t[..t.len().min(12)])));
    } } } }
}

// ------------------------------------------------------------------ sessions through the library
pub fn sessions(ck: &Ck) {
    for t in AUTH_TYPES { for max in [0u64, 1, 100, u64::MAX] { for dur in [0u64, 1, 2, 99, 100, 101, u64::MAX - 1001, u64::MAX] { for slot in [0u64, 5, 1000] {
        if slot.checked_add(dur).is_none() { continue; }
        ck.trans(1);
        let c = Cred { t, n: 1 };
        let sw = Sw { bump: 1, id: nk(1, 1), counter: 1, wbump: 2, subctr: 0, v1: None, claimer: None, roles: vec![Role { id: 0, aty: t, auth: c.stored_max(max), acts: vec![a_all()] }] };
        let mut b = Buf::new(&sw.encode());
        let len = b.get().len();
        let key = nk(0x99, 3);
        let r = { let v = &mut b.get_mut()[48..len]; match Swig::get_mut_role(0, v) { Ok(Some(r)) => r.authority.start_session(key, slot, dur), _ => Err(ProgramError::InvalidArgument) } };
        let mut want = sw.clone();
        let ok = is_session(t) && dur <= max;
        if ok { let o = sess_off(t); want.roles[0].auth[o..o + 32].copy_from_slice(&key); put64(&mut want.roles[0].auth, o + 40, slot + dur); }
        ck.ensure(r.is_ok() == ok && b.get() == &want.encode()[..], "session", || format!("{VARIANT}: session of {dur} slots (maximum {max}) at slot {slot} for credential kind {t}: {r:?}"));
    } } } }
}

// ------------------------------------------------------------------ writing through the library
pub fn build(b: &mut Buf, op: &BOp) -> Result<Option<(usize, usize)>, String> {
    let acts = if let BOp::Add(_, a) = op { Some(Buf::new(&acts_bytes_client(a))) } else { None };
    // SAFETY: the builder keeps no reference to the list beyond the call
    let acts: &'static [u8] = unsafe { std::mem::transmute(acts.as_ref().map_or(&[][..], |a| a.get())) };
    let mut bl = SwigBuilder::new_from_bytes(unsafe { &mut *(b.get_mut() as *mut [u8]) }).map_err(|e| format!("{e:?}"))?;
    match op {
        BOp::Add(c, _) => bl.add_role(AuthorityType::try_from(c.t).unwrap(), Buf::new(&c.create()).get(), acts).map(|_| None).map_err(|e| format!("{e:?}")),
        BOp::Remove(id) => bl.remove_role(*id).map(Some).map_err(|e| format!("{e:?}")),
    }
}
pub fn fresh(id: Key, bump: u8, wbump: u8) -> Buf {
    let mut b = Buf::new(&[0u8; 48]);
    let _ = SwigBuilder::create(b.get_mut(), Swig::new(id, bump, wbump));
    b
}

// ------------------------------------------------------------------ damaged accounts (P22)
/// What the readers make of an account, as text; bytes after it must not matter.
fn reading(d: &[u8], sw: &Sw, walk: bool) -> String {
    use std::fmt::Write;
    let mut o = String::new();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut o = String::new();
        let _ = write!(o, "end {:?} parts {:?} ", Swig::roles_end_offset(d), Swig::split_parts(d).map(|p| (hx(p.roles), hx(p.tail))));
        let _ = write!(o, "tail {:?} ", Swig::split_roles_and_tail(d).map(|p| (hx(p.0), hx(p.1))));
        let mut c = Buf::new(d);
        let _ = write!(o, "mut {:?} ", Swig::split_roles_and_tail_mut(c.get_mut()).map(|p| (hx(p.0), hx(p.1))));
        if walk {
            match SwigWithRoles::from_bytes(d) {
                Err(e) => { let _ = write!(o, "no wallet {e:?}"); }
                Ok(s) => {
                    for id in 0..sw.counter + 1 {
                        match s.get_role(id) {
                            Ok(Some(r)) => { let _ = write!(o, "role {id}: {} {:?} {:?} {} ", hx(r.actions), r.authority.identity().map(hx), r.authority.signature_odometer(), r.position.boundary()); let _ = write!(o, "{:?} ", r.get_all_actions().map(|l| l.len())); }
                            x => { let _ = write!(o, "role {id}: {:?} ", x.map(|_| ())); }
                        }
                    }
                    for k in lookup_keys().iter().take(12) { let _ = write!(o, "{:?} ", s.lookup_role_id(k)); }
                }
            }
        }
        o
    }));
    match r { Ok(s) => o += &s, Err(_) => o += "panic" }
    o
}
pub fn damaged(ck: &Ck, sw: &Sw, walk: bool, d: &[u8], label: &dyn Fn() -> String) -> String {
    ck.trans(1);
    let mut first: Option<String> = None;
    for fill in [0u8, 1, 0x28, 0xFF] {
        let mut b = d.to_vec();
        b.resize(d.len() + 320, fill);
        let b = Buf::new(&b);
        let r = reading(&b.get()[..d.len()], sw, walk);
        if let Some(f) = &first { ck.ensure(*f == r, "reads-outside", || format!("{VARIANT}: {}: bytes behind the account change what is read: {} / {}", label(), trunc(f, 200), trunc(&r, 200))); }
        first.get_or_insert(r);
    }
    first.unwrap()
}
pub fn cut_wallet(ck: &Ck, sw: &Sw, label: &dyn Fn() -> String) {
    let full = sw.encode();
    let ends: Vec<usize> = (0..sw.roles.len()).map(|i| 48 + sw.roles[..=i].iter().map(|r| r.size()).sum::<usize>()).collect();
    let end = *ends.last().unwrap_or(&48);
    for n in 0..full.len() {
        let r = damaged(ck, sw, true, &full[..n], &|| format!("{} cut at {n}", label()));
        if n < end { ck.ensure(r == "panic" || r.starts_with("end Err"), "misread", || format!("{VARIANT}: {} cut at {n}: {}", label(), trunc(&r, 200))) }
        for (i, e) in ends.iter().enumerate() {
            if n < *e { let id = sw.roles[i].id; ck.ensure(!r.contains(&format!("role {id}: {}", hx(&acts_bytes(&sw.roles[i].acts)))), "misread", || format!("{VARIANT}: {} cut at {n}: role {id} read from a table that ends at {e}", label())) }
        }
    }
    // boundaries and role counts that lead outside
    let mut at = 48;
    for i in 0..sw.roles.len() {
        let rest = (full.len() - 48) as u32;
        for v in [rest + 1, rest + 2, rest + 15, rest + 16, rest + 17, rest + 300, 0x7FFF_FFFF, 0x8000_0000, u32::MAX - 16, u32::MAX - 1, u32::MAX] {
            let mut d = full.clone();
            put32(&mut d, at + 12, v);
            let r = damaged(ck, sw, false, &d, &|| format!("{} boundary of role {i} set to {v}", label()));
            ck.ensure(r == "panic" || r.starts_with("end Err"), "misread", || format!("{VARIANT}: {} boundary of role {i} set to {v}: {}", label(), trunc(&r, 200)));
        }
        at = ends[i];
    }
    for extra in [1u16, 2, 255, 0x100] {
        let mut d = full[..end].to_vec();
        let n = sw.roles.len() as u16 + extra;
        d[34..36].copy_from_slice(&n.to_le_bytes());
        let r = damaged(ck, sw, false, &d, &|| format!("{} with {n} roles announced", label()));
        ck.ensure(r == "panic" || r.starts_with("end Err"), "misread", || format!("{VARIANT}: {} with {n} roles announced: {}", label(), trunc(&r, 200)));
    }
}
