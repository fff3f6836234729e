//! How much a call does: basic blocks entered, bytes copied or compared (by 16), bytes requested (by
//! 64), per thread. Counted only in the build with `--cfg work`, whose code is instrumented.
#[cfg(work)]
std::arch::global_asm!(
    r#"
    .section .tbss,"awT",@nobits
    .p2align 3
    .type mc_work,@object
    .size mc_work,8
mc_work:
    .quad 0
    .text
    .globl __sanitizer_cov_trace_pc
    .type __sanitizer_cov_trace_pc,@function
__sanitizer_cov_trace_pc:
    inc qword ptr fs:[mc_work@tpoff]
    ret
    .globl mc_work_get
    .type mc_work_get,@function
mc_work_get:
    mov rax, fs:[mc_work@tpoff]
    ret
    .globl mc_work_add
    .type mc_work_add,@function
mc_work_add:
    add fs:[mc_work@tpoff], rdi
    ret
    .globl memcpy
    .type memcpy,@function
memcpy:
    mov rax, rdi
    mov rcx, rdx
    shr rdx, 4
    add fs:[mc_work@tpoff], rdx
    rep movsb
    ret
    .globl memmove
    .type memmove,@function
memmove:
    mov rax, rdi
    mov rcx, rdx
    shr rdx, 4
    add fs:[mc_work@tpoff], rdx
    mov rdx, rdi
    sub rdx, rsi
    cmp rdx, rcx
    jb 2f
    rep movsb
    ret
2:
    lea rdi, [rdi + rcx - 1]
    lea rsi, [rsi + rcx - 1]
    std
    rep movsb
    cld
    ret
    .globl memset
    .type memset,@function
memset:
    mov r9, rdi
    mov eax, esi
    mov rcx, rdx
    shr rdx, 4
    add fs:[mc_work@tpoff], rdx
    rep stosb
    mov rax, r9
    ret
    .globl memcmp
    .type memcmp,@function
    .globl bcmp
    .type bcmp,@function
memcmp:
bcmp:
    xor ecx, ecx
3:
    cmp rcx, rdx
    je 4f
    movzx eax, byte ptr [rdi + rcx]
    movzx r8d, byte ptr [rsi + rcx]
    inc rcx
    sub eax, r8d
    je 3b
    shr rcx, 4
    add fs:[mc_work@tpoff], rcx
    ret
4:
    shr rcx, 4
    add fs:[mc_work@tpoff], rcx
    xor eax, eax
    ret
"#
);

#[cfg(work)]
extern "C" {
    fn mc_work_get() -> u64;
    fn mc_work_add(n: u64);
}

pub fn counted() -> bool {
    cfg!(work)
}

#[inline(never)]
pub fn so_far() -> u64 {
    #[cfg(work)]
    unsafe {
        return mc_work_get();
    }
    #[cfg(not(work))]
    0
}

#[inline(always)]
pub fn add(_n: u64) {
    #[cfg(work)]
    unsafe {
        mc_work_add(_n);
    }
}
