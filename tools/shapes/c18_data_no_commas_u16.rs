#![allow(dead_code, non_camel_case_types)]
use tedium::*;

fn check<T: Encode + Decode + Estimable>(v: T, want: &[u8]) {
    assert_eq!(v.to_bytes(), want);
    assert_eq!(T::try_decode::<&[u8], ByteParser>(want).unwrap().to_bytes(), want);
    assert_eq!(v.estimate(), want.len());
}
data!(X, u16, x, { 1 => A(pub u8) 4 => B { pub q: u8 } });
fn main() {
    check(X::A(x::A(1)), &[0, 1, 1]);
    check(X::B(x::B { q: 3 }), &[0, 4, 3]);
}
