#![allow(dead_code)]
mod m {
    #[derive(tedium::Encode, tedium::Decode, tedium::Estimable)]
    pub struct A { pub a: u8, pub b: u16 }
    #[derive(tedium::Encode, tedium::Decode, tedium::FixedLength)]
    pub struct B(pub u8, pub u16);
    #[derive(tedium::Encode, tedium::Decode, tedium::Estimable)]
    pub struct C(pub A, pub B);
}
fn main() {
    use tedium::*;
    let c = m::C(m::A { a: 1, b: 2 }, m::B(3, 4));
    assert_eq!(c.to_bytes(), [1, 0, 2, 3, 0, 4]);
    let d = m::C::try_decode::<&[u8], ByteParser>(&[1u8, 0, 2, 3, 0, 4][..]).unwrap();
    assert_eq!((d.0.a, d.0.b, d.1 .0, d.1 .1), (1, 2, 3, 4));
    assert_eq!(d.estimate(), 6);
}
