//! Calls with known values in every callee-saved register.

use core::arch::global_asm;

#[cfg(target_arch = "x86_64")]
pub const NREG: usize = 6;
#[cfg(target_arch = "x86")]
pub const NREG: usize = 4;
#[cfg(target_arch = "x86_64")]
pub const NAMES: [&str; NREG] = ["rbx", "rbp", "r12", "r13", "r14", "r15"];
#[cfg(target_arch = "x86")]
pub const NAMES: [&str; NREG] = ["ebx", "ebp", "esi", "edi"];
/// DWARF numbers.
#[cfg(target_arch = "x86_64")]
pub const DWARF: [i32; NREG] = [3, 6, 12, 13, 14, 15];
#[cfg(target_arch = "x86")]
pub const DWARF: [i32; NREG] = [3, 5, 6, 7];

#[cfg(target_arch = "x86_64")]
global_asm!(
    ".globl grids_probe_call",
    ".type grids_probe_call, @function",
    "grids_probe_call:",
    ".cfi_startproc",
    "push rbp", ".cfi_adjust_cfa_offset 8", ".cfi_rel_offset rbp, 0",
    "push rbx", ".cfi_adjust_cfa_offset 8", ".cfi_rel_offset rbx, 0",
    "push r12", ".cfi_adjust_cfa_offset 8", ".cfi_rel_offset r12, 0",
    "push r13", ".cfi_adjust_cfa_offset 8", ".cfi_rel_offset r13, 0",
    "push r14", ".cfi_adjust_cfa_offset 8", ".cfi_rel_offset r14, 0",
    "push r15", ".cfi_adjust_cfa_offset 8", ".cfi_rel_offset r15, 0",
    "push rcx", ".cfi_adjust_cfa_offset 8",
    "mov rax, rdi",
    "mov rdi, rsi",
    "mov rbx, [rdx]",
    "mov rbp, [rdx + 8]",
    "mov r12, [rdx + 16]",
    "mov r13, [rdx + 24]",
    "mov r14, [rdx + 32]",
    "mov r15, [rdx + 40]",
    "call rax",
    "mov rcx, [rsp]",
    "mov [rcx], rbx",
    "mov [rcx + 8], rbp",
    "mov [rcx + 16], r12",
    "mov [rcx + 24], r13",
    "mov [rcx + 32], r14",
    "mov [rcx + 40], r15",
    "add rsp, 8", ".cfi_adjust_cfa_offset -8",
    "pop r15", ".cfi_adjust_cfa_offset -8", ".cfi_restore r15",
    "pop r14", ".cfi_adjust_cfa_offset -8", ".cfi_restore r14",
    "pop r13", ".cfi_adjust_cfa_offset -8", ".cfi_restore r13",
    "pop r12", ".cfi_adjust_cfa_offset -8", ".cfi_restore r12",
    "pop rbx", ".cfi_adjust_cfa_offset -8", ".cfi_restore rbx",
    "pop rbp", ".cfi_adjust_cfa_offset -8", ".cfi_restore rbp",
    "ret",
    ".cfi_endproc",
    ".size grids_probe_call, . - grids_probe_call",
);
#[cfg(target_arch = "x86")]
global_asm!(
    ".globl grids_probe_call",
    ".type grids_probe_call, @function",
    "grids_probe_call:",
    ".cfi_startproc",
    "push ebp", ".cfi_adjust_cfa_offset 4", ".cfi_rel_offset ebp, 0",
    "push ebx", ".cfi_adjust_cfa_offset 4", ".cfi_rel_offset ebx, 0",
    "push esi", ".cfi_adjust_cfa_offset 4", ".cfi_rel_offset esi, 0",
    "push edi", ".cfi_adjust_cfa_offset 4", ".cfi_rel_offset edi, 0",
    "mov eax, [esp + 20]",
    "mov ecx, [esp + 24]",
    "mov edx, [esp + 28]",
    "sub esp, 8", ".cfi_adjust_cfa_offset 8",
    "push ecx", ".cfi_adjust_cfa_offset 4",
    "mov ebx, [edx]",
    "mov ebp, [edx + 4]",
    "mov esi, [edx + 8]",
    "mov edi, [edx + 12]",
    "call eax",
    "add esp, 12", ".cfi_adjust_cfa_offset -12",
    "mov edx, [esp + 32]",
    "mov [edx], ebx",
    "mov [edx + 4], ebp",
    "mov [edx + 8], esi",
    "mov [edx + 12], edi",
    "pop edi", ".cfi_adjust_cfa_offset -4", ".cfi_restore edi",
    "pop esi", ".cfi_adjust_cfa_offset -4", ".cfi_restore esi",
    "pop ebx", ".cfi_adjust_cfa_offset -4", ".cfi_restore ebx",
    "pop ebp", ".cfi_adjust_cfa_offset -4", ".cfi_restore ebp",
    "ret",
    ".cfi_endproc",
    ".size grids_probe_call, . - grids_probe_call",
);

extern "C-unwind" {
    pub fn grids_probe_call(f: extern "C-unwind" fn(*mut u8), arg: *mut u8, regs_in: *const usize, regs_out: *mut usize);
}

pub type Regs = [usize; NREG];

static mut COUNT: usize = 0;

/// Values not used before.
pub fn fresh() -> Regs {
    let mut r = [0; NREG];
    for (i, x) in r.iter_mut().enumerate() {
        unsafe { COUNT += 1 };
        let c = unsafe { COUNT };
        *x = match c % 11 {
            0 => !i,
            _ => (c.wrapping_mul(0x9E37_79B1) ^ (c << 7)) | 1,
        };
    }
    r
}

/// Calls `f` with `regs` in the callee-saved registers; returns what is found in them afterwards.
#[inline(never)]
pub fn call<R, F: FnOnce() -> R>(regs: &Regs, f: F) -> (R, Regs) {
    struct D<F, R>(Option<F>, Option<R>);
    extern "C-unwind" fn go<R, F: FnOnce() -> R>(p: *mut u8) {
        let d = unsafe { &mut *(p as *mut D<F, R>) };
        let f = d.0.take().unwrap();
        d.1 = Some(f());
    }
    let mut d: D<F, R> = D(Some(f), None);
    let mut out = [0; NREG];
    unsafe { grids_probe_call(go::<R, F>, &mut d as *mut _ as *mut u8, regs.as_ptr(), out.as_mut_ptr()) };
    (d.1.take().unwrap(), out)
}

/// Calls `f` and requires the callee-saved registers to be preserved.
#[inline(never)]
pub fn preserved<R, F: FnOnce() -> R>(what: &str, f: F) -> R {
    let regs = fresh();
    let (r, out) = call(&regs, f);
    for i in 0..NREG {
        crate::require!(out[i] == regs[i], "{}: {} is {:#x} afterwards instead of {:#x}", what, NAMES[i], out[i], regs[i]);
    }
    r
}

/// Overwrites every register a callee may overwrite, and those it has to save first.
#[inline(always)]
pub fn trash() {
    unsafe {
        #[cfg(target_arch = "x86_64")]
        core::arch::asm!(
            "mov rax, 0x1111111111111111", "mov rcx, rax", "mov rdx, rax", "mov rsi, rax", "mov rdi, rax",
            "mov r8, rax", "mov r9, rax", "mov r10, rax", "mov r11, rax", "mov r12, rax", "mov r13, rax",
            "mov r14, rax", "mov r15, rax",
            "movq xmm0, rax", "movq xmm1, rax", "movq xmm2, rax", "movq xmm3, rax", "movq xmm4, rax",
            "movq xmm5, rax", "movq xmm6, rax", "movq xmm7, rax", "movq xmm8, rax", "movq xmm9, rax",
            "movq xmm10, rax", "movq xmm11, rax", "movq xmm12, rax", "movq xmm13, rax", "movq xmm14, rax",
            "movq xmm15, rax",
            out("rax") _, out("rcx") _, out("rdx") _, out("rsi") _, out("rdi") _, out("r8") _, out("r9") _,
            out("r10") _, out("r11") _, out("r12") _, out("r13") _, out("r14") _, out("r15") _,
            out("xmm0") _, out("xmm1") _, out("xmm2") _, out("xmm3") _, out("xmm4") _, out("xmm5") _,
            out("xmm6") _, out("xmm7") _, out("xmm8") _, out("xmm9") _, out("xmm10") _, out("xmm11") _,
            out("xmm12") _, out("xmm13") _, out("xmm14") _, out("xmm15") _,
        );
        #[cfg(target_arch = "x86")]
        core::arch::asm!(
            "mov eax, 0x11111111", "mov ecx, eax", "mov edx, eax", "mov edi, eax", "mov ebx, eax",
            "movd xmm0, eax", "movd xmm1, eax", "movd xmm2, eax", "movd xmm3, eax", "movd xmm4, eax",
            "movd xmm5, eax", "movd xmm6, eax", "movd xmm7, eax",
            out("eax") _, out("ecx") _, out("edx") _, out("edi") _, out("ebx") _,
            out("xmm0") _, out("xmm1") _, out("xmm2") _, out("xmm3") _, out("xmm4") _, out("xmm5") _,
            out("xmm6") _, out("xmm7") _,
        );
    }
}

/// What a trap handler does with the registers it is told to set.
pub unsafe fn jump(r: corosensei::trap::TrapHandlerRegs) -> ! {
    #[cfg(target_arch = "x86_64")]
    core::arch::asm!("mov rsp, rax", "mov rbp, rcx", "xor ebx, ebx", "jmp rdx",
        in("rax") r.rsp, in("rcx") r.rbp, in("rdx") r.rip, in("rdi") r.rdi, in("rsi") r.rsi, options(noreturn));
    #[cfg(target_arch = "x86")]
    core::arch::asm!("mov ebp, [eax + 4]", "mov esp, [eax]", "mov ebx, 0", "mov esi, 0", "mov edi, 0", "jmp [eax + 8]",
        in("eax") &[r.esp, r.ebp, r.eip], in("ecx") r.ecx, in("edx") r.edx, options(noreturn));
}
