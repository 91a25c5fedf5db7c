#![allow(dead_code)]
use tedium::*;
data!(Expr, u8, expr, { 0 => Int(pub i32), 1 => Seq(pub Dynamic<u30, Sequence<Expr>>), 2 => Neg(pub AutoBox<Expr>) });
fn main() {
    let b = [1u8, 0, 0, 0, 11, 2, 0, 0, 0, 0, 5, 0, 255, 255, 255, 255];
    let v = Expr::try_decode::<&[u8], ByteParser>(&b[..]).unwrap();
    assert_eq!(v.to_bytes(), b);
    assert_eq!(v.estimate(), b.len());
}
