#![allow(dead_code)]
use tedium::*;

fn check<T: Encode + Decode + Estimable + PartialEq + std::fmt::Debug>(v: T, want: &[u8], known: Option<usize>) {
    assert_eq!(v.to_bytes(), want);
    assert_eq!(T::try_decode::<&[u8], ByteParser>(want).unwrap(), v);
    assert_eq!(v.estimate(), want.len());
    assert_eq!(T::KNOWN, known);
}
fn fixed<T: FixedLength>(n: usize) {
    assert_eq!(T::LEN, n);
}
#[derive(tedium::Encode, tedium::Decode, tedium::Estimable, Debug, PartialEq)] struct X {}
fn main() {
    check(X {}, &[], Some(0));
    fixed::<X>(0);
}
