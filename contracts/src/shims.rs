//! Rust definitions that stand for standard-library functions whose own source (unsafe, specialised)
//! is outside the verified fragment.

/// `Iterator::collect` into a `Vec`
pub fn collect_vec<I: Iterator>(mut it: I) -> Vec<I::Item> {
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        v.push(x);
    }
    v
}

/// `Iterator::collect` into a `String`
pub fn collect_string_string<I: Iterator<Item = String>>(mut it: I) -> String {
    let mut s = String::new();
    while let Some(x) = it.next() {
        s.push_str(&x);
    }
    s
}
pub fn collect_string_str<'a, I: Iterator<Item = &'a str>>(mut it: I) -> String {
    let mut s = String::new();
    while let Some(x) = it.next() {
        s.push_str(x);
    }
    s
}
pub fn collect_string_char<I: Iterator<Item = char>>(mut it: I) -> String {
    let mut s = String::new();
    while let Some(x) = it.next() {
        s.push(x);
    }
    s
}
