//! Generated by tools/gentypes.py; do not edit.
#![allow(non_camel_case_types, unused_imports, dead_code)]
use crate::types::{RF0, RF1, RF2};
use vcore::wire::{entry, entry_fixed, Entry};
use tedium::*;

vcore::wire_cstyle!(GC0, u32, { V0 = 0, V1 = 1, V2 = 2, V3 = 6, V4 = 7, V5 = 9, V6 = 10, V7 = 257, V8 = 258, V9 = 513, V10 = 88839317, V11 = 236894354, V12 = 2147483647, V13 = 2612382492 });
vcore::wire_cstyle!(GC1, u8, { V0 = 2, V1 = 108 });
vcore::wire_cstyle!(GC2, u8, { V0 = 0, V1 = 2, V2 = 3, V3 = 127, V4 = 5, V5 = 6, V6 = 10, V7 = 154, V8 = 255 });
vcore::wire_cstyle!(GC3, u16, { V0 = 256 });
vcore::wire_cstyle!(GC4, u32, { V0 = 2563690442 });
vcore::rec_unit! { FixedLength GU0 (); }
vcore::rec_unit! { FixedLength GU1 {} }
vcore::rec_unit! { FixedLength GU2 (); }
vcore::rec_named! { fixed GR0 { f1: u30, estimate: RF0, r#match: RangedInt<i8, 1, 1>, inner: u30, write_to: FixedString<5>, f: u64, pos0: i16, y: RangedInt<u32, 100000, 100003>, x: RangedInt<i32, -1073741824, 1073741823>, r#type: i64, acc: i8, name: i32 } }
vcore::wire_data! { GE0, u8, ge0, { 127 => V0 unit(); 1 => V1 unit(); 3 => V2 named(r#match: Dynamic<u30, AutoBox<N>>, buf: Dynamic<u8, N>, self_: Option<N>); 5 => V3 tuple(t0: Dynamic<u8, VPadded<Z, 4>>); 201 => V4 tuple(t0: Dynamic<u16, AutoBox<Vec<u8>>>, t1: RangedInt<i32, -1073741824, 1073741823>, t2: Sequence<Dynamic<u30, N>>); 11 => V5 tuple(t0: FixedBytes<32>, t1: RangedInt<u16, 250, 260>); 165 => V6 named(b2: Dynamic<u30, VPadded<N, 3>>, inner: Dynamic<u16, i64>); 255 => V7 tuple(t0: Option<RangedInt<i8, -5, 5>>, t1: N, t2: Z); 10 => V8 named(f0: AutoBox<Z>, f1: FixSeq<N, 3>, f2: Option<Bytes>); 60 => V9 tuple(t0: i32) } }
vcore::rec_tuple! { GR1(t0: Dynamic<u30, Option<Z>>, t1: RangedInt<u8, 3, 12>, t2: Dynamic<u8, N>, t3: AutoBox<RangedInt<i8, -128, -1>>, t4: AutoBox<bool>, t5: Z, t6: N, t7: Dynamic<u16, String>, t8: String) }
vcore::wire_data! { GE1, u8, ge1, { 128 => V0 tuple(t0: LimSeq<Z, 8>); 8 => V1 unit(); 51 => V2 tuple(t0: Option<N>); 254 => V3 named(f0: Option<LimSeq<i8, 2>>); 0 => V4 named(unknown: Dynamic<u8, N>, write_to: Nullable<FixedString<1>>); 10 => V5 tuple(t0: Z, t1: Option<AutoBox<N>>, t2: String); 127 => V6 named(f0: Nullable<Z>); 96 => V7 tuple(t0: Option<i64>, t1: FixSeq<GC3, 1>, t2: Z); 6 => V8 tuple(t0: Nullable<GC4>); 5 => V9 unit() } }
vcore::rec_tuple! { GR2(t0: AutoBox<N>, t1: GC0, t2: GC0, t3: GC0, t4: GR0, t5: RF2, t6: GC0, t7: f64) }
vcore::wire_data! { GE2, u16, ge2, { 0 => V0 named(f0: Z, f1: Option<Dynamic<u30, Z>>, f2: VPadded<N, 0>); 1 => V1 named(f0: Dynamic<u30, VPadded<Bytes, 3>>, f1: Dynamic<u30, Sequence<u32>>, f2: Dynamic<u16, Z>, f3: Option<N>, f4: N, f5: Z, f6: RangedInt<i8, -5, 5>, f7: Dynamic<u16, VPadded<String, 2>>, f8: Option<Dynamic<u8, ()>>, f9: Dynamic<u8, Z>, f10: Dynamic<u30, N>); 2 => V2 tuple(t0: FixedBytes<4>, t1: Option<u30>, t2: FixSeq<Dynamic<u8, Z>, 3>); 3 => V3 tuple(t0: N, t1: Z, t2: Z); 4 => V4 tuple(t0: Dynamic<u16, Sequence<N>>, t1: FixSeq<FixedBytes<4>, 2>, t2: Z, t3: i16, t4: N, t5: Dynamic<u8, Bytes>, t6: u8, t7: FixSeq<Option<N>, 2>, t8: N, t9: Option<Dynamic<u30, N>>, t10: N) } }
vcore::rec_named! { hashed GR3 { f0: N, f1: Dynamic<u30, Dynamic<u16, Z>>, f2: Dynamic<u30, Dynamic<u16, Z>>, f3: N, f4: N, f5: FixSeq<Dynamic<u8, N>, 3>, f6: Z, f7: i16, f8: Option<FixedBytes<20>>, f9: Dynamic<u8, VPadded<Z, 3>> } }
vcore::wire_data! { GE3, u8, ge3, { 5 => V0 tuple(t0: Sequence<Z>); 3 => V1 named(parse: Option<Padded<u64, 1>>); 10 => V2 tuple(t0: Sequence<Z>); 95 => V3 unit(); 127 => V4 unit(); 2 => V5 tuple(t0: Option<Z>, t1: Option<RangedInt<i16, -3000, 17>>); 9 => V6 unit(); 114 => V7 tuple(t0: Option<Dynamic<u30, Z>>, t1: GR3, t2: AutoBox<N>); 8 => V8 tuple(t0: FixSeq<Padded<RangedInt<i16, 9, 300>, 3>, 1>, t1: Option<i32>, t2: Option<RangedInt<u8, 0, 254>>); 1 => V9 unit() } }
vcore::rec_tuple! { fixed GR4(t0: RangedInt<i32, -7, 0>, t1: RangedInt<i32, -7, 0>) }
vcore::wire_data! { GE4, u8, ge4, { 11 => V0 tuple(t0: Z, t1: FixSeq<FixedBytes<1>, 2>); 0 => V1 unit(); 14 => V2 named(other: Dynamic<u16, LimSeq<N, 3>>); 1 => V3 tuple(t0: Option<N>); 2 => V4 named(pos0: Dynamic<u16, Vec<u8>>, self_: FixSeq<i8, 1>, inner: N); 255 => V5 tuple(t0: AutoBox<N>, t1: RangedInt<u8, 0, 10>) } }
vcore::rec_tuple! { hashed GR5(t0: GR3, t1: GR3, t2: Z, t3: Dynamic<u8, Sequence<RangedInt<i8, 1, 1>>>, t4: FixSeq<Z, 3>, t5: Z, t6: Z, t7: Option<u16>, t8: Option<u16>, t9: Option<i8>) }
vcore::wire_data! { GE5, u8, ge5, { 0 => V0 unit(); 31 => V1 unit(); 7 => V2 unit() } }
vcore::rec_tuple! { GR6(t0: Dynamic<u16, N>, t1: LimSeq<FixedBytes<32>, 8>) }
vcore::wire_data! { GE6, u8, ge6, { 254 => V0 named(res: N); 6 => V1 tuple(t0: N, t1: Option<AutoBox<i64>>); 43 => V2 named(res: FixSeq<AutoBox<FixedBytes<4>>, 3>, state: AutoBox<()>); 11 => V3 unit(); 128 => V4 tuple(t0: FixSeq<Z, 1>) } }
vcore::rec_tuple! { hashed GR7(t0: Option<FixSeq<Z, 1>>, t1: Dynamic<u16, N>, t2: FixedBytes<2>, t3: AutoBox<Dynamic<u16, String>>, t4: N, t5: Z, t6: u32, t7: Dynamic<u8, Option<Bytes>>, t8: N, t9: Option<GR5>, t10: Dynamic<u30, N>, t11: Dynamic<u30, N>, t12: Dynamic<u30, N>, t13: Bytes) }
vcore::wire_data! { GE7, u8, ge7, { 3 => V0 tuple(t0: i8, t1: N, t2: Dynamic<u30, N>); 9 => V1 named(unknown: Dynamic<u8, VPadded<u64, 3>>); 0 => V2 tuple(t0: Sequence<Dynamic<u16, Bytes>>); 127 => V3 named(pos0: Option<Z>, f0: FixSeq<Dynamic<u16, ()>, 2>, disc: Dynamic<u30, Vec<u8>>); 8 => V4 tuple(t0: Dynamic<u8, Z>, t1: Z, t2: Z); 2 => V5 tuple(t0: FixSeq<Option<Z>, 1>, t1: FixSeq<Dynamic<u16, Z>, 2>, t2: GC0, t3: Dynamic<u8, LimSeq<u30, 2>>, t4: Dynamic<u8, Bytes>, t5: N, t6: Option<Z>, t7: Dynamic<u8, Nullable<N>>, t8: FixSeq<N, 1>, t9: bool, t10: Option<Z>, t11: Option<RangedInt<i32, -7, 0>>, t12: LimSeq<N, 1>) } }
vcore::rec_tuple! { fixed GR8(t0: RangedInt<u32, 100000, 100003>, t1: RF2, t2: GC2, t3: bool, t4: u8, t5: u8, t6: RangedInt<i16, -3000, 17>, t7: FixedBytes<32>, t8: RangedInt<u32, 100000, 100003>, t9: u64, t10: i32, t11: i31, t12: i31) }
vcore::wire_data! { GE8, u8, ge8, { 1 => V0 tuple(t0: AutoBox<Option<N>>); 4 => V1 tuple(t0: N, t1: AutoBox<Dynamic<u8, Z>>, t2: GE5); 255 => V2 unit(); 3 => V3 named(r#type: Z, len: Dynamic<u30, LimSeq<N, 3>>); 7 => V4 named(f0: AutoBox<FixSeq<u16, 4>>, f1: FixSeq<Option<Z>, 1>); 207 => V5 tuple(t0: Option<String>); 0 => V6 unit(); 9 => V7 tuple(t0: N, t1: Dynamic<u16, Dynamic<u16, Z>>, t2: Sequence<Z>); 165 => V8 unit(); 127 => V9 tuple(t0: N, t1: LimSeq<Z, 8>); 128 => V10 tuple(t0: Z, t1: Dynamic<u8, Option<()>>); 227 => V11 tuple(t0: N); 237 => V12 unit(); 22 => V13 unit(); 35 => V14 tuple(t0: Option<FixSeq<N, 2>>); 11 => V15 tuple(t0: u32, t1: LimSeq<Dynamic<u30, String>, 3>); 98 => V16 named(f0: Option<Z>); 254 => V17 tuple(t0: AutoBox<Dynamic<u16, Bytes>>, t1: Dynamic<u8, Sequence<u8>>, t2: Dynamic<u30, Sequence<N>>) } }
vcore::rec_tuple! { hashed GR9(t0: Option<u32>, t1: RangedInt<u8, 0, 254>, t2: Dynamic<u8, Option<()>>, t3: bool, t4: Z, t5: Dynamic<u16, LimSeq<u30, 1>>, t6: Dynamic<u16, LimSeq<u30, 1>>, t7: Dynamic<u16, LimSeq<u30, 1>>, t8: GR3, t9: Dynamic<u30, Bytes>, t10: Option<Z>) }
vcore::wire_data! { GE9, u8, ge9, { 127 => V0 unit() } }
vcore::rec_tuple! { GR10(t0: Dynamic<u16, ()>, t1: N) }
vcore::rec_tuple! { hashed GR11(t0: N, t1: Sequence<Dynamic<u8, String>>) }
vcore::rec_named! { hashed fixed GR12 { write_to: FixedBytes<1>, estimate: GC1, known: FixedString<1>, res: RangedInt<i32, -1073741824, 1073741823>, r#type: GC3, p: RangedInt<i16, -3000, 17>, tag: FixedBytes<2>, y: u64, buf: i31, parse: i32, unknown: RangedInt<i16, -3000, 17>, _a: GC1, x: GC1, r#in: u30, self_: bool, r#match: RangedInt<i8, -128, -1>, b2: u30, name: i8 } }
vcore::rec_tuple! { hashed GR13(t0: FixSeq<Dynamic<u16, ()>, 2>, t1: FixSeq<Dynamic<u16, ()>, 2>, t2: AutoBox<Dynamic<u30, N>>, t3: Sequence<Z>) }
vcore::rec_named! { GR14 { self_: Dynamic<u30, String>, parse: RangedInt<u16, 0, 1000>, known: Dynamic<u8, ()>, state: AutoBox<FixSeq<N, 2>>, other: AutoBox<FixSeq<N, 2>>, buf: f64, r#type: VPadded<Option<GE9>, 5> } }
vcore::rec_named! { GR15 { r#in: GR0, r#match: FixSeq<Dynamic<u8, RF2>, 2>, f1: FixedBytes<4>, write_to: Dynamic<u30, Sequence<N>>, len: AutoBox<Dynamic<u30, GU0>>, pos1: N, estimate: Dynamic<u8, LimSeq<RangedInt<i8, -128, -1>, 8>>, x: Option<N>, y: N, known: N, val: AutoBox<Z>, acc: Z } }
vcore::rec_named! { fixed GR16 { x: u16, p: f64, inner: RangedInt<u16, 250, 260>, r#match: u16, tag: GC4, acc: RangedInt<i8, -5, 5>, estimate: RangedInt<u8, 0, 254>, _a: RangedInt<i8, -128, -1>, unknown: u8, self_: FixedBytes<1>, y: FixedBytes<1>, state: FixedBytes<1>, pos1: GC4, f0: u30 } }
vcore::rec_named! { GR17 { pos0: Dynamic<u8, LimSeq<N, 2>>, r#type: RangedInt<u16, 0, 1000>, name: Dynamic<u30, Nullable<N>>, tag: Z, _a: Option<GR8>, unknown: GR3 } }
vcore::rec_named! { hashed GR18 { val: FixSeq<Option<N>, 2>, write_to: FixSeq<GR12, 2>, disc: Dynamic<u16, AutoBox<Bytes>>, b2: Dynamic<u8, Vec<u8>>, res: Z } }
vcore::rec_named! { hashed GR19 { y: GR5, pos1: Dynamic<u8, Sequence<i8>>, b2: Nullable<u64> } }

macro_rules! with_generated {
    (cstyle $m:ident) => { $m! { GC0: u32, GC1: u8, GC2: u8, GC3: u16, GC4: u32 } };
    (data $m:ident) => { $m! { GE0, GE1, GE2, GE3, GE4, GE5, GE6, GE7, GE8, GE9 } };
}
pub(crate) use with_generated;

pub fn generated() -> Vec<Entry> {
    let mut v = vec![];
    v.push(entry::<VPadded<Dynamic<u30, Nullable<AutoBox<Z>>>, 1>>("VPadded<Dynamic<u30, Nullable<AutoBox<Z>>>, 1>"));
    v.push(entry::<Sequence<AutoBox<N>>>("Sequence<AutoBox<N>>"));
    v.push(entry::<VPadded<Option<Bytes>, 0>>("VPadded<Option<Bytes>, 0>"));
    v.push(entry::<VPadded<Nullable<Z>, 3>>("VPadded<Nullable<Z>, 3>"));
    v.push(entry::<Nullable<Dynamic<u30, FixSeq<RF2, 2>>>>("Nullable<Dynamic<u30, FixSeq<RF2, 2>>>"));
    v.push(entry::<LimSeq<Option<Dynamic<u8, Bytes>>, 8>>("LimSeq<Option<Dynamic<u8, Bytes>>, 8>"));
    v.push(entry::<Option<LimSeq<Dynamic<u16, ()>, 2>>>("Option<LimSeq<Dynamic<u16, ()>, 2>>"));
    v.push(entry::<Sequence<Dynamic<u30, Sequence<FixSeq<N, 1>>>>>("Sequence<Dynamic<u30, Sequence<FixSeq<N, 1>>>>"));
    v.push(entry::<Sequence<Dynamic<u16, Z>>>("Sequence<Dynamic<u16, Z>>"));
    v.push(entry::<Nullable<Dynamic<u16, LimSeq<GR18, 2>>>>("Nullable<Dynamic<u16, LimSeq<GR18, 2>>>"));
    v.push(entry::<Option<Dynamic<u30, GR17>>>("Option<Dynamic<u30, GR17>>"));
    v.push(entry::<Nullable<AutoBox<AutoBox<N>>>>("Nullable<AutoBox<AutoBox<N>>>"));
    v.push(entry::<LimSeq<RangedInt<i8, -128, -1>, 1>>("LimSeq<RangedInt<i8, -128, -1>, 1>"));
    v.push(entry::<Sequence<AutoBox<Dynamic<u16, Vec<u8>>>>>("Sequence<AutoBox<Dynamic<u16, Vec<u8>>>>"));
    v.push(entry::<Sequence<Dynamic<u16, Option<Z>>>>("Sequence<Dynamic<u16, Option<Z>>>"));
    v.push(entry::<Option<Sequence<Dynamic<u8, LimSeq<N, 3>>>>>("Option<Sequence<Dynamic<u8, LimSeq<N, 3>>>>"));
    v.push(entry::<LimSeq<AutoBox<FixSeq<Dynamic<u16, GU1>, 2>>, 8>>("LimSeq<AutoBox<FixSeq<Dynamic<u16, GU1>, 2>>, 8>"));
    v.push(entry::<Sequence<Option<GR12>>>("Sequence<Option<GR12>>"));
    v.push(entry::<Sequence<Dynamic<u16, VPadded<GR10, 2>>>>("Sequence<Dynamic<u16, VPadded<GR10, 2>>>"));
    v.push(entry::<VPadded<Option<Sequence<u8>>, 3>>("VPadded<Option<Sequence<u8>>, 3>"));
    v.push(entry::<FixSeq<Option<Dynamic<u8, Bytes>>, 1>>("FixSeq<Option<Dynamic<u8, Bytes>>, 1>"));
    v.push(entry::<Nullable<Dynamic<u8, AutoBox<N>>>>("Nullable<Dynamic<u8, AutoBox<N>>>"));
    v.push(entry::<Option<Sequence<i32>>>("Option<Sequence<i32>>"));
    v.push(entry::<AutoBox<Dynamic<u8, Nullable<Z>>>>("AutoBox<Dynamic<u8, Nullable<Z>>>"));
    v.push(entry::<Sequence<Dynamic<u16, N>>>("Sequence<Dynamic<u16, N>>"));
    v.push(entry::<Sequence<Option<AutoBox<Dynamic<u16, String>>>>>("Sequence<Option<AutoBox<Dynamic<u16, String>>>>"));
    v.push(entry::<Nullable<Dynamic<u16, Option<GR15>>>>("Nullable<Dynamic<u16, Option<GR15>>>"));
    v.push(entry::<Sequence<Option<Z>>>("Sequence<Option<Z>>"));
    v.push(entry::<Option<LimSeq<Dynamic<u8, bool>, 2>>>("Option<LimSeq<Dynamic<u8, bool>, 2>>"));
    v.push(entry::<Nullable<Option<Dynamic<u8, String>>>>("Nullable<Option<Dynamic<u8, String>>>"));
    v.push(entry::<LimSeq<FixSeq<Padded<FixedBytes<4>, 4>, 2>, 8>>("LimSeq<FixSeq<Padded<FixedBytes<4>, 4>, 2>, 8>"));
    v.push(entry::<AutoBox<Option<VPadded<Option<i64>, 4>>>>("AutoBox<Option<VPadded<Option<i64>, 4>>>"));
    v.push(entry::<Dynamic<u30, Sequence<Z>>>("Dynamic<u30, Sequence<Z>>"));
    v.push(entry::<Sequence<Option<Dynamic<u30, LimSeq<Z, 2>>>>>("Sequence<Option<Dynamic<u30, LimSeq<Z, 2>>>>"));
    v.push(entry::<LimSeq<Option<Dynamic<u16, Bytes>>, 2>>("LimSeq<Option<Dynamic<u16, Bytes>>, 2>"));
    v.push(entry::<Dynamic<u16, Nullable<N>>>("Dynamic<u16, Nullable<N>>"));
    v.push(entry::<Sequence<Dynamic<u8, Option<String>>>>("Sequence<Dynamic<u8, Option<String>>>"));
    v.push(entry::<LimSeq<AutoBox<Z>, 8>>("LimSeq<AutoBox<Z>, 8>"));
    v.push(entry::<LimSeq<Option<Dynamic<u30, RangedInt<i16, -3000, 17>>>, 8>>("LimSeq<Option<Dynamic<u30, RangedInt<i16, -3000, 17>>>, 8>"));
    v.push(entry::<AutoBox<Option<i64>>>("AutoBox<Option<i64>>"));
    v.push(entry::<VPadded<VPadded<LimSeq<Dynamic<u8, Vec<u8>>, 1>, 3>, 2>>("VPadded<VPadded<LimSeq<Dynamic<u8, Vec<u8>>, 1>, 3>, 2>"));
    v.push(entry::<Sequence<Dynamic<u16, Option<N>>>>("Sequence<Dynamic<u16, Option<N>>>"));
    v.push(entry::<Sequence<Dynamic<u16, VPadded<Bytes, 3>>>>("Sequence<Dynamic<u16, VPadded<Bytes, 3>>>"));
    v.push(entry::<VPadded<VPadded<Nullable<Dynamic<u16, Vec<u8>>>, 1>, 1>>("VPadded<VPadded<Nullable<Dynamic<u16, Vec<u8>>>, 1>, 1>"));
    v.push(entry::<Sequence<Dynamic<u30, VPadded<Z, 0>>>>("Sequence<Dynamic<u30, VPadded<Z, 0>>>"));
    v.push(entry::<Nullable<Dynamic<u16, LimSeq<N, 2>>>>("Nullable<Dynamic<u16, LimSeq<N, 2>>>"));
    v.push(entry::<LimSeq<Option<N>, 2>>("LimSeq<Option<N>, 2>"));
    v.push(entry::<Dynamic<u16, FixSeq<Dynamic<u8, i16>, 1>>>("Dynamic<u16, FixSeq<Dynamic<u8, i16>, 1>>"));
    v.push(entry::<Dynamic<u8, LimSeq<Dynamic<u8, Z>, 8>>>("Dynamic<u8, LimSeq<Dynamic<u8, Z>, 8>>"));
    v.push(entry::<Nullable<Dynamic<u16, Sequence<Z>>>>("Nullable<Dynamic<u16, Sequence<Z>>>"));
    v.push(entry::<FixSeq<AutoBox<Dynamic<u30, Z>>, 1>>("FixSeq<AutoBox<Dynamic<u30, Z>>, 1>"));
    v.push(entry::<LimSeq<Dynamic<u16, LimSeq<Z, 1>>, 1>>("LimSeq<Dynamic<u16, LimSeq<Z, 1>>, 1>"));
    v.push(entry::<Sequence<Dynamic<u30, GU0>>>("Sequence<Dynamic<u30, GU0>>"));
    v.push(entry::<Dynamic<u8, LimSeq<N, 1>>>("Dynamic<u8, LimSeq<N, 1>>"));
    v.push(entry::<Option<Dynamic<u8, Sequence<Dynamic<u30, Z>>>>>("Option<Dynamic<u8, Sequence<Dynamic<u30, Z>>>>"));
    v.push(entry::<VPadded<Option<Nullable<Dynamic<u8, ()>>>, 1>>("VPadded<Option<Nullable<Dynamic<u8, ()>>>, 1>"));
    v.push(entry::<AutoBox<Dynamic<u8, Sequence<RF0>>>>("AutoBox<Dynamic<u8, Sequence<RF0>>>"));
    v.push(entry::<Sequence<Dynamic<u30, String>>>("Sequence<Dynamic<u30, String>>"));
    v.push(entry::<LimSeq<Option<Option<i8>>, 8>>("LimSeq<Option<Option<i8>>, 8>"));
    v.push(entry::<AutoBox<LimSeq<RangedInt<i16, 9, 300>, 1>>>("AutoBox<LimSeq<RangedInt<i16, 9, 300>, 1>>"));
    v.push(entry::<Sequence<FixSeq<Dynamic<u8, bool>, 2>>>("Sequence<FixSeq<Dynamic<u8, bool>, 2>>"));
    v.push(entry::<Sequence<AutoBox<Option<N>>>>("Sequence<AutoBox<Option<N>>>"));
    v.push(entry::<AutoBox<Sequence<GR10>>>("AutoBox<Sequence<GR10>>"));
    v.push(entry::<Sequence<Dynamic<u8, Sequence<Option<Z>>>>>("Sequence<Dynamic<u8, Sequence<Option<Z>>>>"));
    v.push(entry::<Sequence<Dynamic<u8, AutoBox<Z>>>>("Sequence<Dynamic<u8, AutoBox<Z>>>"));
    v.push(entry::<Sequence<Dynamic<u16, ()>>>("Sequence<Dynamic<u16, ()>>"));
    v.push(entry::<Sequence<Dynamic<u8, ()>>>("Sequence<Dynamic<u8, ()>>"));
    v.push(entry::<Sequence<Dynamic<u30, GU2>>>("Sequence<Dynamic<u30, GU2>>"));
    v.push(entry::<Nullable<Dynamic<u16, Z>>>("Nullable<Dynamic<u16, Z>>"));
    v.push(entry::<Option<Nullable<Dynamic<u8, AutoBox<Z>>>>>("Option<Nullable<Dynamic<u8, AutoBox<Z>>>>"));
    v.push(entry_fixed::<GC0>("GC0"));
    v.push(entry_fixed::<GC1>("GC1"));
    v.push(entry_fixed::<GC2>("GC2"));
    v.push(entry_fixed::<GC3>("GC3"));
    v.push(entry_fixed::<GC4>("GC4"));
    v.push(entry_fixed::<GU0>("GU0"));
    v.push(entry_fixed::<GU1>("GU1"));
    v.push(entry_fixed::<GU2>("GU2"));
    v.push(entry_fixed::<GR0>("GR0"));
    v.push(entry::<GR1>("GR1"));
    v.push(entry::<GR2>("GR2"));
    v.push(entry::<GR3>("GR3"));
    v.push(entry_fixed::<GR4>("GR4"));
    v.push(entry::<GR5>("GR5"));
    v.push(entry::<GR6>("GR6"));
    v.push(entry::<GR7>("GR7"));
    v.push(entry_fixed::<GR8>("GR8"));
    v.push(entry::<GR9>("GR9"));
    v.push(entry::<GR10>("GR10"));
    v.push(entry::<GR11>("GR11"));
    v.push(entry_fixed::<GR12>("GR12"));
    v.push(entry::<GR13>("GR13"));
    v.push(entry::<GR14>("GR14"));
    v.push(entry::<GR15>("GR15"));
    v.push(entry_fixed::<GR16>("GR16"));
    v.push(entry::<GR17>("GR17"));
    v.push(entry::<GR18>("GR18"));
    v.push(entry::<GR19>("GR19"));
    v.push(entry::<GE0>("GE0"));
    v.push(entry::<Sequence<Dynamic<u16, GE0>>>("Sequence<Dynamic<u16, GE0>>"));
    v.push(entry::<GE1>("GE1"));
    v.push(entry::<Sequence<Dynamic<u16, GE1>>>("Sequence<Dynamic<u16, GE1>>"));
    v.push(entry::<GE2>("GE2"));
    v.push(entry::<Sequence<Dynamic<u16, GE2>>>("Sequence<Dynamic<u16, GE2>>"));
    v.push(entry::<GE3>("GE3"));
    v.push(entry::<Sequence<Dynamic<u16, GE3>>>("Sequence<Dynamic<u16, GE3>>"));
    v.push(entry::<GE4>("GE4"));
    v.push(entry::<Sequence<Dynamic<u16, GE4>>>("Sequence<Dynamic<u16, GE4>>"));
    v.push(entry::<GE5>("GE5"));
    v.push(entry::<Sequence<Dynamic<u16, GE5>>>("Sequence<Dynamic<u16, GE5>>"));
    v.push(entry::<GE6>("GE6"));
    v.push(entry::<Sequence<Dynamic<u16, GE6>>>("Sequence<Dynamic<u16, GE6>>"));
    v.push(entry::<GE7>("GE7"));
    v.push(entry::<Sequence<Dynamic<u16, GE7>>>("Sequence<Dynamic<u16, GE7>>"));
    v.push(entry::<GE8>("GE8"));
    v.push(entry::<Sequence<Dynamic<u16, GE8>>>("Sequence<Dynamic<u16, GE8>>"));
    v.push(entry::<GE9>("GE9"));
    v.push(entry::<Sequence<Dynamic<u16, GE9>>>("Sequence<Dynamic<u16, GE9>>"));
    v
}
