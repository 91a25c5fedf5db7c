#![allow(dead_code)]
use tedium::*;

fn check<T: Encode + Decode + Estimable + PartialEq + std::fmt::Debug>(v: T, want: &[u8], known: Option<usize>) {
    assert_eq!(v.to_bytes(), want);
    assert_eq!(T::try_decode::<&[u8], ByteParser>(want).unwrap(), v);
    assert_eq!(v.estimate(), want.len());
    assert_eq!(T::KNOWN, known);
}
fn fixed<T: FixedLength>(n: usize) {
    assert_eq!(T::LEN, n);
}
#[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Debug, PartialEq)] struct X { y: Y, z: Y } #[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Debug, PartialEq)] struct Y(u8, Z1); #[derive(tedium::Encode, tedium::Decode, tedium::FixedLength, Debug, PartialEq)] struct Z1 { q: bool }
fn main() {
    check(X { y: Y(1, Z1 { q: true }), z: Y(2, Z1 { q: false }) }, &[1, 255, 2, 0], Some(4));
    fixed::<X>(4);
}
