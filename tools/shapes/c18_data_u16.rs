#![allow(dead_code, non_camel_case_types)]
use tedium::*;

fn check<T: Encode + Decode + Estimable>(v: T, want: &[u8]) {
    assert_eq!(v.to_bytes(), want);
    assert_eq!(T::try_decode::<&[u8], ByteParser>(want).unwrap().to_bytes(), want);
    assert_eq!(v.estimate(), want.len());
}
data!(X, u16, x, { 2 => A(pub u8), 3 => B { pub n: u16, m: bool }, 200 => C(), 7 => D, 5 => E(u8, pub u8), 0 => F, });
fn main() {
    check(X::A(x::A(9)), &[0, 2, 9]);
    check(X::C(x::C), &[0, 200]);
    check(X::D(x::D), &[0, 7]);
    check(X::F(x::F), &[0, 0]);
    let e = &[0, 5, 1, 2]; assert_eq!(X::try_decode::<&[u8], ByteParser>(&e[..]).unwrap().to_bytes(), e);
    let e = &[0, 3, 1, 2, 255]; assert_eq!(X::try_decode::<&[u8], ByteParser>(&e[..]).unwrap().to_bytes(), e);
}
