#![allow(dead_code)]
use tedium::*;

fn check<T: Encode + Decode + Estimable + PartialEq + std::fmt::Debug>(v: T, want: &[u8], known: Option<usize>) {
    assert_eq!(v.to_bytes(), want);
    assert_eq!(T::try_decode::<&[u8], ByteParser>(want).unwrap(), v);
    assert_eq!(v.estimate(), want.len());
    assert_eq!(T::KNOWN, known);
}
fn fixed<T: FixedLength>(n: usize) {
    assert_eq!(T::LEN, n);
}
/// Documented.
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Debug, PartialEq)]
#[non_exhaustive]
struct X {
    /// field
    #[allow(unused)]
    a: u8,
    b: FixedBytes<2>,
}
fn main() {
    check(X { a: 1, b: FixedBytes::try_from([5u8, 6]).unwrap() }, &[1, 5, 6], Some(3));
}
