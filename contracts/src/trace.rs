//! Which machine instructions a piece of code executes: single-stepping with the processor's trap flag. The
//! verifier does not read this; it is how a run on concrete inputs shows a timing dependence.
use std::cell::Cell;

thread_local! {
    static WANTED: Cell<bool> = const { Cell::new(false) };
    static ON: Cell<bool> = const { Cell::new(false) };
    static STEPS: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
    static DONE: Cell<Option<(&'static str, bool, u64, u64)>> = const { Cell::new(None) };
    static NOW: Cell<(&'static str, bool)> = const { Cell::new(("", false)) };
}
pub fn wanted() -> bool {
    WANTED.with(|w| w.get())
}
pub fn want(b: bool) {
    WANTED.with(|w| w.set(b));
    DONE.with(|d| d.set(None));
}
/// the last region run: its label, whether the reply was right, number and digest of the instructions
pub fn last() -> Option<(&'static str, bool, u64, u64)> {
    DONE.with(|d| d.get())
}

#[cfg(all(target_arch = "x86_64", target_os = "linux"))]
mod imp {
    use super::*;
    use std::arch::asm;
    #[repr(C)]
    struct Action {
        handler: usize,
        mask: [u64; 16],
        flags: i32,
        restorer: usize,
    }
    extern "C" {
        fn sigaction(sig: i32, act: *const Action, old: *mut Action) -> i32;
        static __executable_start: u8;
        static etext: u8;
    }
    extern "C" fn step(_: i32, _: *mut u8, context: *mut u8) {
        // ucontext_t: flags, link, stack (3 words), then the registers; RIP is the seventeenth
        let rip = unsafe { *(context.add(40) as *const u64).add(16) };
        let (lo, hi) = (std::ptr::addr_of!(__executable_start) as u64, std::ptr::addr_of!(etext) as u64);
        // the allocator and other C code keep history of their own
        if rip < lo || rip >= hi {
            return;
        }
        STEPS.with(|s| {
            let (n, h) = s.get();
            s.set((n + 1, (h ^ (rip - lo)).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(23)));
        });
    }
    pub fn install() {
        use std::sync::Once;
        static O: Once = Once::new();
        O.call_once(|| {
            let a = Action { handler: step as *const () as usize, mask: [0; 16], flags: 4, restorer: 0 };
            unsafe { sigaction(5, &a, std::ptr::null_mut()) };
        });
    }
    #[inline(never)]
    pub fn on() {
        unsafe { asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") }
    }
    #[inline(never)]
    pub fn off() {
        unsafe { asm!("pushfq", "and qword ptr [rsp], -257", "popfq") }
    }
}
#[cfg(not(all(target_arch = "x86_64", target_os = "linux")))]
mod imp {
    pub fn install() {}
    pub fn on() {}
    pub fn off() {}
}

pub fn start(label: &'static str, right: bool) {
    imp::install();
    NOW.with(|n| n.set((label, right)));
    STEPS.with(|s| s.set((0, 0)));
    ON.with(|o| o.set(true));
    imp::on();
}
pub fn stop() {
    imp::off();
    if ON.with(|o| o.replace(false)) {
        let (l, r) = NOW.with(|n| n.get());
        let (n, h) = STEPS.with(|s| s.get());
        DONE.with(|d| d.set(Some((l, r, n, h))));
    }
}
