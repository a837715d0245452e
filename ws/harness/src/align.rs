//! On chain, 128-bit integers are 8-byte aligned and account data is laid out
//! accordingly; on x86-64 the compiler assumes 16 bytes and may emit aligned
//! moves, which fault. The fault handler rewrites such a move, once and for all,
//! into its unaligned counterpart. (The build uses VEX encodings, of which only
//! the explicitly aligned moves care.)
unsafe fn patch(rip: *mut u8) -> bool {
    let mut p = rip;
    let mut at: Option<(*mut u8, u8)> = None;
    match *p {
        0xC5 | 0xC4 => {
            let three = *p == 0xC4;
            if three && *p.add(1) & 0x1f != 1 { return false; }
            let pay = if three { p.add(2) } else { p.add(1) };
            let op = pay.add(1);
            match (*op, *pay & 3) {
                (0x28, 0 | 1) => at = Some((op, 0x10)),
                (0x29, 0 | 1) => at = Some((op, 0x11)),
                (0x6F | 0x7F, 1) => at = Some((pay, (*pay & !3) | 2)),
                _ => {}
            }
        }
        _ => {
            let pre = if *p == 0x66 { let q = p; p = p.add(1); Some(q) } else { None };
            if *p & 0xF0 == 0x40 { p = p.add(1); }
            if *p == 0x0F {
                let op = p.add(1);
                match (*op, pre) {
                    (0x28, _) => at = Some((op, 0x10)),
                    (0x29, _) => at = Some((op, 0x11)),
                    (0x6F | 0x7F, Some(q)) => at = Some((q, 0xF3)),
                    _ => {}
                }
            }
        }
    }
    let Some((a, v)) = at else { return false };
    let page = (a as usize & !4095) as *mut libc::c_void;
    if libc::mprotect(page, 4096, libc::PROT_READ | libc::PROT_WRITE | libc::PROT_EXEC) != 0 { return false; }
    std::ptr::write_volatile(a, v);
    true
}
unsafe extern "C" fn handler(_: libc::c_int, info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    let uc = ctx as *mut libc::ucontext_t;
    let rip = (*uc).uc_mcontext.gregs[libc::REG_RIP as usize] as *mut u8;
    // alignment faults are general-protection faults: no address is reported
    if (*info).si_addr().is_null() && patch(rip) { return; }
    libc::signal(libc::SIGSEGV, libc::SIG_DFL);
}
pub fn install() {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = handler as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK | libc::SA_NODEFER;
        libc::sigaction(libc::SIGSEGV, &sa, std::ptr::null_mut());
    }
}
