#![allow(dead_code)]
use tedium::*;

fn check<T: Encode + Decode + Estimable + PartialEq + std::fmt::Debug>(v: T, want: &[u8], known: Option<usize>) {
    assert_eq!(v.to_bytes(), want);
    assert_eq!(T::try_decode::<&[u8], ByteParser>(want).unwrap(), v);
    assert_eq!(v.estimate(), want.len());
    assert_eq!(T::KNOWN, known);
}
fn fixed<T: FixedLength>(n: usize) {
    assert_eq!(T::LEN, n);
}
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Debug, PartialEq)] struct X { r#type: u8, r#match: u8, f: u8, p: u8, buf: u8 }
fn main() {
    check(X { r#type: 1, r#match: 2, f: 3, p: 4, buf: 5 }, &[1, 2, 3, 4, 5], Some(5));
    fixed::<X>(5);
}
