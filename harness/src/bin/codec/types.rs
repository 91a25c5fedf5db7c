//! The registry of wire types under test.
use vcore::wire::{entry, entry_fixed, Entry};
use tedium::*;

pub type RF0 = RangedFloat<{ 0x8000_0000_0000_0000 }, { 0x3ff0_0000_0000_0000 }>; // -0.0 ..= 1.0
pub type RF1 = RangedFloat<{ 0xc059_0000_0000_0000 }, { 0x4059_0000_0000_0000 }>; // -100 ..= 100
pub type RF2 = RangedFloat<{ 0xfff0_0000_0000_0000 }, { 0x7ff0_0000_0000_0000 }>; // -inf ..= inf
pub type RF3 = RangedFloat<{ 0x3ff0_0000_0000_0000 }, { 0x3ff8_0000_0000_0000 }>; // 1.0 ..= 1.5
pub type RF4 = RangedFloat<{ 0xc000_0000_0000_0000 }, { 0xbff0_0000_0000_0000 }>; // -2.0 ..= -1.0

vcore::rec_named! { Named1 { a: u8 } }
vcore::rec_named! { Named2 { a: u16, b: Dynamic<u30, String> } }
vcore::rec_named! { Named3 { flag: bool, n: N, z: Z } }
vcore::rec_named! { Named4 { a: Option<u32>, b: Dynamic<u8, Bytes>, c: FixSeq<i16, 3>, d: Nullable<u64> } }
vcore::rec_named! { Named5 { a: u8, b: u8, c: u16, d: i32, e: i64, f: bool, g: u30 } }
vcore::rec_named! { Tail { head: Dynamic<u8, Named2>, tail: Sequence<u16> } }
vcore::rec_named! { Suffixed { a: u8, b: VPadded<Bytes, 4> } }
vcore::rec_named! { Block { body: Dynamic<u30, Suffixed>, sig: FixedBytes<4> } }
vcore::rec_named! { Paddy { a: Padded<u16, 2>, b: Padded<bool, 1>, c: u8 } }
vcore::rec_tuple! { Tup1(a: Z) }
vcore::rec_tuple! { Tup2(a: bool, b: Bytes) }
vcore::rec_tuple! { Tup3(a: i31, b: Dynamic<u16, Sequence<N>>, c: f64) }
vcore::rec_tuple! { Swap(a: u8, b: u16, c: u8) }
vcore::rec_tuple! { Units(a: (), b: u8, c: ()) }
vcore::rec_tuple! { Nothing(a: (), b: FixedBytes<0>) }
vcore::rec_tuple! { Tup13(a: u8, b: u16, c: bool, d: i8, e: u32, f: N, g: i16, h: Dynamic<u8, Bytes>, i: u8, j: u16, k: Z, l: u8, m: i32) }
vcore::rec_tuple! { fixed FixTup26(a: u8, b: u16, c: u8, d: i8, e: u32, f: bool, g: i16, h: u8, i: u8, j: u16, k: u64, l: u8, m: i32, n: u8, o: u8, p: u16, q: f64, r: u8, s: u8, t: u16, u: bool, v: u8, w: i64, x: u8, y: u16, z: u8) }
vcore::rec_named! { Named27 { zz: u8, b: u16, c: u8, d: i8, e: u32, f: bool, g: i16, h: u8, i: u8, j: u16, k: u64, l: u8, m: i32, n: u8, o: u8, p: u16, q: f64, r: u8, s: u8, t: u16, u: bool, v: u8, w: i64, x: u8, y: u16, z: u8, a: N } }
vcore::rec_named! { fixed FixNamed { a: u8, b: i64, c: FixedBytes<3> } }
vcore::rec_tuple! { fixed FixTup(a: f64, b: u30, c: bool) }
vcore::rec_tuple! { fixed FixOne(a: u32) }
vcore::rec_named! { fixed FixNest { a: FixNamed, b: FixTup } }
// runs of one field type
vcore::rec_named! { fixed FixRun { a: u16, b: u16, c: u8, d: u8, e: u8, f: u32, g: u32 } }
vcore::rec_tuple! { fixed FixRow(a: i16, b: i16, c: i16, d: i16, e: i16) }
vcore::rec_named! { fixed FixTwins { a: FixedBytes<3>, b: FixedBytes<3> } }
vcore::rec_named! { Runs { a: u8, b: u8, c: N, d: N, e: Dynamic<u8, Bytes>, f: Dynamic<u8, Bytes> } }

vcore::wire_cstyle!(Bit, u8, { Off = 0, On = 1 });
vcore::wire_cstyle!(Prime, u8, { Two = 2, Three = 3, Five = 5, Seven = 7 });
vcore::wire_cstyle!(Edge8, u8, { Max = 255, Min = 0, Mid = 128, Before = 127 });
vcore::wire_cstyle!(Single, u8, { Only = 9 });
vcore::wire_cstyle!(Wide16, u16, { A = 0, B = 256, C = 255, D = 65535, E = 1 });
vcore::wire_cstyle!(Unsorted16, u16, { Z = 500, Y = 20, X = 4000, W = 3 });
vcore::wire_cstyle!(Wide32, u32, { A = 16777216, B = 1, C = 4294967295, D = 65536, E = 0 });
vcore::wire_cstyle!(Full, u8, { V3 = 3, V10 = 10, V17 = 17, V24 = 24, V31 = 31, V38 = 38, V45 = 45, V52 = 52, V59 = 59, V66 = 66, V73 = 73, V80 = 80, V87 = 87, V94 = 94, V101 = 101, V108 = 108, V115 = 115, V122 = 122, V129 = 129, V136 = 136, V143 = 143, V150 = 150, V157 = 157, V164 = 164, V171 = 171, V178 = 178, V185 = 185, V192 = 192, V199 = 199, V206 = 206, V213 = 213, V220 = 220, V227 = 227, V234 = 234, V241 = 241, V248 = 248, V255 = 255, V6 = 6, V13 = 13, V20 = 20, V27 = 27, V34 = 34, V41 = 41, V48 = 48, V55 = 55, V62 = 62, V69 = 69, V76 = 76, V83 = 83, V90 = 90, V97 = 97, V104 = 104, V111 = 111, V118 = 118, V125 = 125, V132 = 132, V139 = 139, V146 = 146, V153 = 153, V160 = 160, V167 = 167, V174 = 174, V181 = 181, V188 = 188, V195 = 195, V202 = 202, V209 = 209, V216 = 216, V223 = 223, V230 = 230, V237 = 237, V244 = 244, V251 = 251, V2 = 2, V9 = 9, V16 = 16, V23 = 23, V30 = 30, V37 = 37, V44 = 44, V51 = 51, V58 = 58, V65 = 65, V72 = 72, V79 = 79, V86 = 86, V93 = 93, V100 = 100, V107 = 107, V114 = 114, V121 = 121, V128 = 128, V135 = 135, V142 = 142, V149 = 149, V156 = 156, V163 = 163, V170 = 170, V177 = 177, V184 = 184, V191 = 191, V198 = 198, V205 = 205, V212 = 212, V219 = 219, V226 = 226, V233 = 233, V240 = 240, V247 = 247, V254 = 254, V5 = 5, V12 = 12, V19 = 19, V26 = 26, V33 = 33, V40 = 40, V47 = 47, V54 = 54, V61 = 61, V68 = 68, V75 = 75, V82 = 82, V89 = 89, V96 = 96, V103 = 103, V110 = 110, V117 = 117, V124 = 124, V131 = 131, V138 = 138, V145 = 145, V152 = 152, V159 = 159, V166 = 166, V173 = 173, V180 = 180, V187 = 187, V194 = 194, V201 = 201, V208 = 208, V215 = 215, V222 = 222, V229 = 229, V236 = 236, V243 = 243, V250 = 250, V1 = 1, V8 = 8, V15 = 15, V22 = 22, V29 = 29, V36 = 36, V43 = 43, V50 = 50, V57 = 57, V64 = 64, V71 = 71, V78 = 78, V85 = 85, V92 = 92, V99 = 99, V106 = 106, V113 = 113, V120 = 120, V127 = 127, V134 = 134, V141 = 141, V148 = 148, V155 = 155, V162 = 162, V169 = 169, V176 = 176, V183 = 183, V190 = 190, V197 = 197, V204 = 204, V211 = 211, V218 = 218, V225 = 225, V232 = 232, V239 = 239, V246 = 246, V253 = 253, V4 = 4, V11 = 11, V18 = 18, V25 = 25, V32 = 32, V39 = 39, V46 = 46, V53 = 53, V60 = 60, V67 = 67, V74 = 74, V81 = 81, V88 = 88, V95 = 95, V102 = 102, V109 = 109, V116 = 116, V123 = 123, V130 = 130, V137 = 137, V144 = 144, V151 = 151, V158 = 158, V165 = 165, V172 = 172, V179 = 179, V186 = 186, V193 = 193, V200 = 200, V207 = 207, V214 = 214, V221 = 221, V228 = 228, V235 = 235, V242 = 242, V249 = 249, V0 = 0, V7 = 7, V14 = 14, V21 = 21, V28 = 28, V35 = 35, V42 = 42, V49 = 49, V56 = 56, V63 = 63, V70 = 70, V77 = 77, V84 = 84, V91 = 91, V98 = 98, V105 = 105, V112 = 112, V119 = 119, V126 = 126, V133 = 133, V140 = 140, V147 = 147, V154 = 154, V161 = 161, V168 = 168, V175 = 175, V182 = 182, V189 = 189, V196 = 196, V203 = 203, V210 = 210, V217 = 217, V224 = 224, V231 = 231, V238 = 238, V245 = 245, V252 = 252 });
vcore::wire_cstyle!(Dense, u8, { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26, V27 = 27, V28 = 28, V29 = 29, V30 = 30, V31 = 31, V32 = 32, V33 = 33, V34 = 34, V35 = 35, V36 = 36, V37 = 37, V38 = 38, V39 = 39, V40 = 40, V41 = 41, V42 = 42, V43 = 43, V44 = 44, V45 = 45, V46 = 46, V47 = 47, V48 = 48, V49 = 49, V50 = 50, V51 = 51, V52 = 52, V53 = 53, V54 = 54, V55 = 55, V56 = 56, V57 = 57, V58 = 58, V59 = 59, V60 = 60, V61 = 61, V62 = 62, V63 = 63 });
vcore::wire_cstyle!(Dense16, u16, { V250 = 250, V251 = 251, V252 = 252, V253 = 253, V254 = 254, V255 = 255, V256 = 256, V257 = 257, V258 = 258, V259 = 259, V260 = 260, V261 = 261, V262 = 262, V263 = 263, V264 = 264, V265 = 265, V266 = 266, V267 = 267, V268 = 268, V269 = 269, V270 = 270, V271 = 271, V272 = 272, V273 = 273, V274 = 274, V275 = 275, V276 = 276, V277 = 277, V278 = 278, V279 = 279, V280 = 280, V281 = 281, V282 = 282, V283 = 283, V284 = 284, V285 = 285, V286 = 286, V287 = 287, V288 = 288, V289 = 289, V290 = 290, V291 = 291, V292 = 292, V293 = 293, V294 = 294, V295 = 295, V296 = 296, V297 = 297, V298 = 298, V299 = 299 });
vcore::wire_data! { Ladder, u8, ladder, { 0 => L0 unit(); 1 => L1 tuple(a: u8); 2 => L2 named(a: u16, b: Dynamic<u8, Bytes>); 3 => L3 tuple(a: N); 4 => L4 unit(); 5 => L5 tuple(a: u8); 6 => L6 named(a: u16, b: Dynamic<u8, Bytes>); 7 => L7 tuple(a: N); 8 => L8 unit(); 9 => L9 tuple(a: u8); 10 => L10 named(a: u16, b: Dynamic<u8, Bytes>); 11 => L11 tuple(a: N); 12 => L12 unit(); 13 => L13 tuple(a: u8); 14 => L14 named(a: u16, b: Dynamic<u8, Bytes>); 15 => L15 tuple(a: N); 16 => L16 unit(); 17 => L17 tuple(a: u8); 18 => L18 named(a: u16, b: Dynamic<u8, Bytes>); 19 => L19 tuple(a: N); 20 => L20 unit(); 21 => L21 tuple(a: u8); 22 => L22 named(a: u16, b: Dynamic<u8, Bytes>); 23 => L23 tuple(a: N); 24 => L24 unit(); 25 => L25 tuple(a: u8); 26 => L26 named(a: u16, b: Dynamic<u8, Bytes>); 27 => L27 tuple(a: N); 28 => L28 unit(); 29 => L29 tuple(a: u8); 30 => L30 named(a: u16, b: Dynamic<u8, Bytes>); 31 => L31 tuple(a: N); 32 => L32 unit() } }
vcore::wire_cstyle!(Many, u8, { A = 10, B = 8, C = 6, D = 4, E = 2, F = 1, G = 3, H = 5, I = 7, J = 9 });

vcore::wire_data! { Shape, u8, shape, {
    0 => Empty unit();
    1 => Circle tuple(r: u32);
    2 => Rect named(w: u16, h: u16);
    7 => Poly tuple(pts: Dynamic<u30, Sequence<i32>>);
    255 => Label named(text: Dynamic<u8, String>, tail: Option<N>)
} }
vcore::wire_data! { Op, u16, op, {
    258 => Swapped tuple(a: u8, b: u8);
    513 => Other tuple(a: u8);
    1 => One tuple(a: Z);
    65535 => Last unit();
    0 => Zero named(rest: Bytes)
} }
vcore::wire_data! { AllUnit, u8, all_unit, { 3 => C unit(); 1 => A unit(); 2 => B unit() } }
vcore::wire_data! { Padv, u8, padv, {
    0 => V tuple(a: VPadded<Sequence<u8>, 3>);
    1 => W named(a: LimSeq<u16, 2>);
    2 => X tuple(a: Nullable<Dynamic<u8, Bytes>>)
} }
vcore::wire_data! { Outer, u8, outer, {
    0 => In tuple(a: Shape2);
    1 => Cs named(a: Prime, b: Wide16, c: Edge8)
} }
vcore::wire_data! { Shape2, u8, shape2, { 4 => Q tuple(a: u8); 5 => R tuple(a: Dynamic<u30, Bytes>, b: bool) } }
vcore::wire_data! { recursive Expr, u8, expr, {
    0 => Int tuple(n: Z);
    1 => Str tuple(s: Dynamic<u30, String>);
    2 => Seq tuple(items: Dynamic<u30, Sequence<Expr>>);
    3 => Prim named(p: Prime, arg: AutoBox<Expr>);
    4 => Pair tuple(l: AutoBox<Expr>, r: AutoBox<Expr>);
    5 => Maybe tuple(o: Option<AutoBox<Expr>>);
    6 => Blob tuple(b: Dynamic<u16, Bytes>)
} }

pub fn registry() -> Vec<Entry> {
    let mut v: Vec<Entry> = vec![];
    macro_rules! e { ($($t:ty),* $(,)?) => { $( v.push(entry::<$t>(stringify!($t))); )* } }
    macro_rules! f { ($($t:ty),* $(,)?) => { $( v.push(entry_fixed::<$t>(stringify!($t))); )* } }
    f![(), bool, u8, i8, u16, i16, u32, i32, u64, i64, f64, u30, i31];
    f![
        RangedInt<u8, 0, 10>, RangedInt<u8, 3, 12>, RangedInt<u8, 0, 255>, RangedInt<u8, 7, 7>, RangedInt<u8, 200, 455>,
        RangedInt<i8, { -5 }, 5>, RangedInt<i8, { -128 }, 127>, RangedInt<i8, { -100 }, { -90 }>,
        RangedInt<u16, 0, 1000>, RangedInt<u16, 250, 260>, RangedInt<u16, 1, 65536>, RangedInt<i16, { -3000 }, 17>,
        RangedInt<u32, 0, 1000000>, RangedInt<u32, 1, 10>, RangedInt<u32, 1073741000, 1073741823>,
        RangedInt<i32, { -7 }, 0>, RangedInt<i32, { -1073741824 }, 1073741823>,
        RangedInt<u8, 256, 300>, RangedInt<i8, 3, 100>, RangedInt<i16, 40000, 40010>, RangedInt<i32, 5, 6>,
    ];
    f![RF0, RF1, RF2, RF3, RF4];
    e![N, Z, Bytes, String, Vec<u8>];
    f![FixedBytes<0>, FixedBytes<1>, FixedBytes<4>, FixedBytes<32>, FixedString<0>, FixedString<1>, FixedString<5>, FixedString<64>];
    e![Option<()>, Option<bool>, Option<u16>, Option<Option<u8>>, Option<N>, Option<Bytes>, Option<RangedInt<u8, 3, 12>>, Option<RF1>];
    e![Nullable<u8>, Nullable<u32>, Nullable<N>, Nullable<Option<bool>>, Nullable<Bytes>, Nullable<Dynamic<u8, String>>, Nullable<Sequence<u16>>];
    e![
        Dynamic<u8, ()>, Dynamic<u8, u8>, Dynamic<u16, u64>, Dynamic<u30, i32>, Dynamic<u8, Bytes>, Dynamic<u16, Bytes>, Dynamic<u30, Bytes>,
        Dynamic<u8, String>, Dynamic<u30, String>, Dynamic<u30, Vec<u8>>, Dynamic<u8, N>, Dynamic<u30, Z>, Dynamic<u8, Option<u8>>, Dynamic<u8, Nullable<u8>>,
        Dynamic<u8, Dynamic<u8, Bytes>>, Dynamic<u30, Dynamic<u16, Dynamic<u8, Bytes>>>, Dynamic<u16, Sequence<Dynamic<u8, Bytes>>>,
        Dynamic<u30, VPadded<Bytes, 4>>, Dynamic<u8, VPadded<Sequence<u16>, 1>>, Dynamic<u8, LimSeq<u8, 3>>, Dynamic<u30, FixSeq<u8, 4>>, Dynamic<u8, f64>,
        Dynamic<u8, bool>, Dynamic<u16, RangedInt<u8, 3, 12>>, Dynamic<u8, Padded<u8, 2>>,
    ];
    e![VPadded<Bytes, 0>, VPadded<Bytes, 1>, VPadded<Bytes, 4>, VPadded<String, 2>, VPadded<Sequence<u16>, 3>, VPadded<u16, 2>, VPadded<N, 1>, VPadded<VPadded<Bytes, 2>, 3>,
       VPadded<Nullable<u8>, 2>, VPadded<Dynamic<u8, Bytes>, 5>, VPadded<(), 3>, VPadded<LimSeq<u16, 2>, 2>, VPadded<FixSeq<u16, 2>, 2>];
    e![Padded<u8, 0>, Padded<u8, 1>, Padded<u16, 3>, Padded<(), 2>, Padded<bool, 7>, Padded<RangedInt<u16, 250, 260>, 2>, Padded<FixSeq<u16, 2>, 1>, Padded<Padded<u8, 1>, 2>, Padded<FixedBytes<3>, 2>, Padded<f64, 16>];
    e![Sequence<u8>, Sequence<u16>, Sequence<i64>, Sequence<bool>, Sequence<N>, Sequence<Z>, Sequence<Option<u8>>, Sequence<Dynamic<u8, String>>, Sequence<Dynamic<u30, Sequence<u8>>>,
       Sequence<RangedInt<i8, { -5 }, 5>>, Sequence<f64>, Sequence<FixedBytes<3>>, Sequence<FixSeq<u8, 2>>, Sequence<Padded<u8, 1>>, Sequence<Dynamic<u8, ()>>,
       // elements that take no bytes: only the empty sequence can be read
       Sequence<()>, Sequence<FixedBytes<0>>, Sequence<FixSeq<u8, 0>>, Dynamic<u8, Sequence<()>>, Sequence<VPadded<(), 2>>, LimSeq<(), 3>, Dynamic<u8, Sequence<Nothing>>, Sequence<Dynamic<u8, Sequence<()>>>];
    e![FixSeq<u8, 0>, FixSeq<u8, 1>, FixSeq<u16, 4>, FixSeq<bool, 3>, FixSeq<N, 2>, FixSeq<Dynamic<u8, Bytes>, 2>, FixSeq<Option<i32>, 3>, FixSeq<FixSeq<u8, 2>, 2>, FixSeq<Z, 5>, FixSeq<u8, 40>];
    e![LimSeq<u8, 0>, LimSeq<u8, 1>, LimSeq<u8, 3>, LimSeq<u16, 4>, LimSeq<N, 2>, LimSeq<bool, 5>, LimSeq<Dynamic<u8, Bytes>, 2>, LimSeq<Option<u8>, 3>, LimSeq<FixSeq<u8, 3>, 2>, LimSeq<u8, 40>, LimSeq<Z, 3>];
    // small and large constants
    e![VPadded<u16, 0>, VPadded<N, 0>, VPadded<(), 0>, VPadded<VPadded<u8, 0>, 1>, VPadded<Bytes, 7>, VPadded<Bytes, 256>, VPadded<u32, 300>,
       Dynamic<u8, VPadded<Bytes, 0>>, Sequence<Dynamic<u8, VPadded<Bytes, 0>>>, Dynamic<u30, VPadded<String, 255>>,
       Padded<u32, 8>, Padded<u8, 255>, Padded<u16, 256>, Padded<bool, 300>, Padded<(), 0>, Sequence<Padded<u16, 9>>,
       FixSeq<u8, 255>, FixSeq<u8, 256>, FixSeq<u16, 300>, FixSeq<N, 257>, FixSeq<bool, 8>, FixSeq<Dynamic<u8, Bytes>, 9>, Dynamic<u16, FixSeq<u32, 128>>, FixSeq<u8, 1025>, LimSeq<u8, 1000>, LimSeq<u16, 4096>, Dynamic<u30, LimSeq<u8, 65537>>,
       LimSeq<u8, 255>, LimSeq<u8, 256>, LimSeq<u16, 300>, LimSeq<N, 257>, LimSeq<bool, 8>, Dynamic<u8, LimSeq<u8, 300>>, Dynamic<u30, LimSeq<Dynamic<u8, Bytes>, 9>>,
       Dynamic<u8, Dynamic<u16, Dynamic<u30, N>>>, Sequence<u30>, Sequence<i31>, FixSeq<u30, 2>, LimSeq<i31, 2>,
       Option<Dynamic<u8, ()>>, Option<FixSeq<u8, 3>>, Nullable<FixSeq<u16, 2>>, Nullable<Padded<u8, 1>>, Nullable<i31>, Dynamic<u16, Nullable<Dynamic<u8, Bytes>>>];
    // many sequences of few elements under a large bound (inline storage has the size of the bound by design)
    #[cfg(not(any(feature = "arrayvec_limseq", feature = "arrayvec_fixseq")))]
    e![Sequence<Dynamic<u8, LimSeq<u64, 5000>>>, Sequence<Dynamic<u16, LimSeq<Dynamic<u8, Bytes>, 3000>>>, Sequence<Dynamic<u8, Nullable<LimSeq<u8, 70000>>>>, Sequence<Option<Dynamic<u8, LimSeq<N, 4000>>>>];
    f![FixedBytes<20>, FixedBytes<33>, FixedBytes<255>, FixedBytes<256>, FixedBytes<300>, FixedBytes<4097>, FixedString<255>, FixedString<256>, FixedString<4097>];
    e![Padded<u8, 5000>, Dynamic<u16, Padded<u16, 1025>>];
    #[cfg(feature = "relaxed_padding_invariant")]
    e![Padded<N, 0>, Padded<N, 2>, Padded<Z, 1>, Padded<Option<u16>, 3>, Padded<Dynamic<u8, Bytes>, 4>, Dynamic<u16, Padded<N, 2>>, Sequence<Padded<Option<bool>, 1>>,
       FixSeq<Padded<N, 1>, 2>, Padded<Padded<Z, 1>, 2>, Padded<FixSeq<N, 2>, 1>, Dynamic<u8, VPadded<Padded<Dynamic<u16, String>, 2>, 1>>, Padded<Shape2, 2>];
    e![AutoBox<u8>, AutoBox<Bytes>, AutoBox<AutoBox<Z>>, AutoBox<Option<Dynamic<u8, String>>>];
    e![Named1, Named2, Named3, Named4, Named5, Tail, Suffixed, Block, Paddy, Tup1, Tup2, Tup3, Swap, Units, Tup13, Named27, Runs];
    f![FixNamed, FixTup, FixOne, FixNest, FixTup26, FixRun, FixRow, FixTwins];
    f![Bit, Prime, Edge8, Single, Wide16, Unsorted16, Wide32, Many, Full, Dense, Dense16];
    e![Shape, Op, AllUnit, Padv, Outer, Shape2, Ladder, Dynamic<u8, Sequence<Full>>, Expr, Sequence<Shape2>, Dynamic<u30, Op>, Option<Shape>, FixSeq<Prime, 3>, Dynamic<u30, Sequence<Expr>>, Sequence<Expr>];
    v.extend(crate::types_gen::generated());
    v
}
