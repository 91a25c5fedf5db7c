#![allow(dead_code)]
mod m {
    tedium::cstyle!(A, u16, { One = 1, Two = 2 });
    tedium::data!(B, u8, b, { 1 => P(pub super::A), 2 => Q, });
}
fn main() {
    use tedium::*;
    assert_eq!(m::B::P(m::b::P(m::A::Two)).to_bytes(), [1, 0, 2]);
    assert_eq!(m::B::try_decode::<&[u8], ByteParser>(&[2u8][..]).unwrap().get_tagval(), 2);
    assert_eq!(m::A::get_name(2), Some("Two"));
}
