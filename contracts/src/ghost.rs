//! The contract vocabulary. The verifier gives these calls their logical meaning; the bodies below are
//! what the same contracts do when they are run on concrete inputs to replay a failure.
use std::cell::RefCell;

pub struct Skip;
pub struct Fail(pub &'static str);

thread_local! { pub static COVERED: RefCell<Vec<&'static str>> = const { RefCell::new(Vec::new()) }; }
thread_local! { pub static HINTS: RefCell<Vec<(&'static str, Vec<u8>)>> = const { RefCell::new(Vec::new()) }; }

/// Precondition: the rest of the program only has to hold where `c` does.
pub fn requires(c: bool) {
    if !c {
        std::panic::panic_any(Skip);
    }
}
/// Postcondition, named `properties|what`: `c` must hold on every path that reaches this point.
pub fn ensures(label: &'static str, c: bool) {
    if !c {
        std::panic::panic_any(Fail(label));
    }
}
/// Postcondition: no path reaches this point.
pub fn dead(label: &'static str) -> ! {
    std::panic::panic_any(Fail(label))
}
/// Vacuity guard: some input must reach this point (the verifier must fail to prove it unreachable).
pub fn cover(label: &'static str) {
    COVERED.with(|c| c.borrow_mut().push(label));
}
/// Axiom switched on for the rest of the program: hash inputs with equal digests are equal.
pub fn no_collisions() {}
/// Tells a concrete run which value of the named input is interesting. No meaning for the verifier.
pub fn hint(name: &'static str, v: &[u8]) {
    HINTS.with(|c| c.borrow_mut().push((name, v.to_vec())));
}
/// From here to `ct_end`, nothing but whether `reply` is `expected` may show in the run time: two runs that
/// differ in the secrets only (`expected` among them) make the same branches and index the same elements.
pub fn ct_begin(label: &'static str, expected: &[u8], reply: &[u8], secrets: &[&[u8]]) {
    if crate::trace::wanted() {
        crate::trace::start(label, expected == reply);
    }
    let _ = secrets;
}
pub fn ct_end() {
    crate::trace::stop();
}
/// The text `{:?}` prints for `x`; `{:#?}` if `alternate`; padded to `width` columns unless that is 0.
pub fn debug<T: core::fmt::Debug>(x: &T, alternate: bool, width: usize) -> Vec<u8> {
    match (alternate, width) {
        (false, 0) => format!("{:?}", x),
        (true, 0) => format!("{:#?}", x),
        (false, w) => format!("{:w$?}", x),
        (true, w) => format!("{:#w$?}", x),
    }
    .into_bytes()
}
/// `s` is UTF-8
pub fn is_utf8(s: &[u8]) -> bool {
    std::str::from_utf8(s).is_ok()
}
/// `needle` occurs in `text`
pub fn contains(text: &[u8], needle: &[u8]) -> bool {
    needle.is_empty() || text.windows(needle.len()).any(|w| w == needle)
}
