#![allow(dead_code, non_camel_case_types)]
use tedium::*;

fn check<T: Encode + Decode + Estimable>(v: T, want: &[u8]) {
    assert_eq!(v.to_bytes(), want);
    assert_eq!(T::try_decode::<&[u8], ByteParser>(want).unwrap().to_bytes(), want);
    assert_eq!(v.estimate(), want.len());
}
cstyle!(X, u16, { Only = 9 , });
fn main() {
    check(X::Only, &[0, 9]);
}
