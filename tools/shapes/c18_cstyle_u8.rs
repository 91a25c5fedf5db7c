#![allow(dead_code, non_camel_case_types)]
use tedium::*;

fn check<T: Encode + Decode + Estimable>(v: T, want: &[u8]) {
    assert_eq!(v.to_bytes(), want);
    assert_eq!(T::try_decode::<&[u8], ByteParser>(want).unwrap().to_bytes(), want);
    assert_eq!(v.estimate(), want.len());
}
cstyle!(X, u8, { A = 3, B = 255, C = 0  });
fn main() {
    check(X::A, &[3]);
    check(X::B, &[255]);
    assert!(X::try_from(3).unwrap() == X::A && X::try_from(4).is_err());
    assert_eq!(X::iter_tags().collect::<Vec<_>>(), [3, 255, 0]);
    assert_eq!((X::C as u8, std::mem::size_of::<X>()), (0, 1));
}
