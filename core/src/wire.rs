//! Bridge between the reference model and the real types.
use crate::engine::Roomy;
use crate::model::{Back, Pref, Sch, Val};
use num_bigint::{BigInt, BigUint};
use tedium::conv::{len::Estimable, len::FixedLength, target::Target, Decode, Encode, EncodeLength};
use tedium::dynamic::LenPref;
use tedium::parse::buffer::{SliceBuffer, VecBuffer};
use tedium::parse::error::ParseError;
use tedium::parse::ParserExt;
use tedium::parse::{byteparser::ByteParser, cleanup::CleanupResult, memoparser::MemoParser, sliceparser::SliceParser, ParseResult, Parser};
use tedium::*;

pub trait Wire: Encode + Decode + Estimable + Clone + std::fmt::Debug + PartialEq + Send + Sync + 'static {
    const RECURSIVE: bool = false;
    /// For records: the codecs of the fields, each on its own.
    fn fields() -> Vec<Field> {
        vec![]
    }
    fn sch() -> Sch;
    fn from_val(v: &Val) -> Self;
    fn to_val(&self) -> Val;
}
/// One field's codec, used by itself.
pub struct Field {
    pub ty: &'static str,
    pub known: Option<usize>,
    pub plain: fn(&Val) -> Vec<u8>,
    pub estimate: fn(&Val) -> usize,
    pub parse: fn(&mut AnyParser) -> Result<Val, ParseError>,
}
pub fn field<T: Wire>(ty: &'static str) -> Field {
    Field {
        ty,
        known: <T as Estimable>::KNOWN,
        plain: |v| T::from_val(v).to_bytes(),
        estimate: |v| T::from_val(v).estimate(),
        parse: |p| T::parse(p).map(|v| v.to_val()),
    }
}
pub fn sub<T: Wire>() -> Sch {
    if T::RECURSIVE {
        Sch::Lazy(T::sch)
    } else {
        T::sch()
    }
}

macro_rules! wire_int {
    ($($t:ty: $w:expr, $s:expr);+ $(;)?) => { $(
        impl Wire for $t {
            fn sch() -> Sch { Sch::Int($w, $s) }
            fn from_val(v: &Val) -> Self { v.int() as $t }
            fn to_val(&self) -> Val { Val::Int(*self as i128) }
        } )+ };
}
wire_int!(u8:1,false; i8:1,true; u16:2,false; i16:2,true; u32:4,false; i32:4,true; u64:8,false; i64:8,true);

impl Wire for () {
    fn sch() -> Sch {
        Sch::Unit
    }
    fn from_val(_: &Val) -> Self {}
    fn to_val(&self) -> Val {
        Val::Unit
    }
}
impl Wire for bool {
    fn sch() -> Sch {
        Sch::Bool
    }
    fn from_val(v: &Val) -> Self {
        *v == Val::Bool(true)
    }
    fn to_val(&self) -> Val {
        Val::Bool(*self)
    }
}
impl Wire for f64 {
    fn sch() -> Sch {
        Sch::F64
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::F(b) => f64::from_bits(*b),
            _ => panic!("harness"),
        }
    }
    fn to_val(&self) -> Val {
        Val::F(self.to_bits())
    }
}
impl<const A: u64, const B: u64> Wire for RangedFloat<A, B> {
    fn sch() -> Sch {
        Sch::RFloat(f64::from_bits(A), f64::from_bits(B))
    }
    fn from_val(v: &Val) -> Self {
        RangedFloat::try_from_f64(f64::from_val(v)).expect("in-range float refused")
    }
    fn to_val(&self) -> Val {
        Val::F(self.as_f64().to_bits())
    }
}
macro_rules! wire_rint {
    ($($t:ty: $b:ident);+) => { $(
        impl<const A: i32, const B: i32> Wire for RangedInt<$t, A, B> {
            fn sch() -> Sch { Sch::RInt(Back::$b, A as i64, B as i64) }
            fn from_val(v: &Val) -> Self { RangedInt::<$t, A, B>::try_from_i32(v.int() as i32).expect("in-range number refused") }
            fn to_val(&self) -> Val { Val::Int(self.to_i32() as i128) }
        } )+ };
}
wire_rint!(u8:U8; i8:I8; u16:U16; i16:I16; u32:U32; i32:I32);

impl Wire for N {
    fn sch() -> Sch {
        Sch::N
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Big(b) => N(b.magnitude().clone()),
            _ => panic!("harness"),
        }
    }
    fn to_val(&self) -> Val {
        Val::Big(BigInt::from(<N as Clone>::clone(self).into_inner()))
    }
}
impl Wire for Z {
    fn sch() -> Sch {
        Sch::Z
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Big(b) => Z(b.clone()),
            _ => panic!("harness"),
        }
    }
    fn to_val(&self) -> Val {
        Val::Big(<Z as Clone>::clone(self).into_inner())
    }
}
impl Wire for Vec<u8> {
    fn sch() -> Sch {
        Sch::Bytes
    }
    fn from_val(v: &Val) -> Self {
        v.bytes().to_vec().roomy()
    }
    fn to_val(&self) -> Val {
        Val::Bytes(self.clone())
    }
}
impl Wire for Bytes {
    fn sch() -> Sch {
        Sch::Bytes
    }
    fn from_val(v: &Val) -> Self {
        if v.bytes().len() % 2 == 0 { Bytes::from(v.bytes().to_vec().roomy()) } else { Bytes::from(v.bytes()) }
    }
    fn to_val(&self) -> Val {
        Val::Bytes(self.clone().into_vec())
    }
}
impl Wire for String {
    fn sch() -> Sch {
        Sch::Str
    }
    fn from_val(v: &Val) -> Self {
        String::from_utf8(v.bytes().to_vec()).expect("harness: text").roomy()
    }
    fn to_val(&self) -> Val {
        Val::Bytes(self.as_bytes().to_vec())
    }
}
impl<const K: usize> Wire for FixedBytes<K> {
    fn sch() -> Sch {
        Sch::FixBytes(K)
    }
    fn from_val(v: &Val) -> Self {
        FixedBytes::<K>::try_from_slice(v.bytes()).expect("exact width refused")
    }
    fn to_val(&self) -> Val {
        Val::Bytes(self.bytes().to_vec())
    }
}
impl<const K: usize> Wire for FixedString<K> {
    fn sch() -> Sch {
        Sch::FixBytes(K)
    }
    fn from_val(v: &Val) -> Self {
        FixedString::<K>::try_from_bytes(v.bytes()).expect("exact width refused")
    }
    fn to_val(&self) -> Val {
        // the only lossless public view of arbitrary contents is the encoding
        Val::Bytes(self.to_bytes())
    }
}
impl<T: Wire> Wire for Option<T> {
    fn sch() -> Sch {
        Sch::Opt(Box::new(sub::<T>()))
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Opt(o) => o.as_ref().map(|x| T::from_val(x)),
            _ => panic!("harness"),
        }
    }
    fn to_val(&self) -> Val {
        Val::Opt(self.as_ref().map(|x| Box::new(x.to_val())))
    }
}
impl<T: Wire> Wire for Nullable<T> {
    fn sch() -> Sch {
        Sch::Nullable(Box::new(sub::<T>()))
    }
    fn from_val(v: &Val) -> Self {
        Nullable::from(Option::<T>::from_val(v))
    }
    fn to_val(&self) -> Val {
        Val::Opt(self.as_inner().as_ref().map(|x| Box::new(x.to_val())))
    }
}
pub trait PrefKind {
    const P: Pref;
}
impl PrefKind for u8 {
    const P: Pref = Pref::U8;
}
impl PrefKind for u16 {
    const P: Pref = Pref::U16;
}
impl PrefKind for u30 {
    const P: Pref = Pref::U30;
}
impl<S: LenPref + PrefKind + Send + Sync + 'static, T: Wire> Wire for Dynamic<S, T>
where
    Dynamic<S, T>: Clone,
{
    fn sch() -> Sch {
        Sch::Dyn(S::P, Box::new(sub::<T>()))
    }
    fn from_val(v: &Val) -> Self {
        Dynamic::new(T::from_val(v))
    }
    fn to_val(&self) -> Val {
        AsRef::<T>::as_ref(self).to_val()
    }
}
impl<T: Wire, const K: usize> Wire for VPadded<T, K> {
    fn sch() -> Sch {
        Sch::VPad(Box::new(sub::<T>()), K)
    }
    fn from_val(v: &Val) -> Self {
        VPadded::new(T::from_val(v))
    }
    fn to_val(&self) -> Val {
        self.clone().into_inner().to_val()
    }
}
impl<T: Wire, const K: usize> Wire for Padded<T, K> {
    fn sch() -> Sch {
        Sch::Pad(Box::new(sub::<T>()), K)
    }
    fn from_val(v: &Val) -> Self {
        Padded::new(T::from_val(v))
    }
    fn to_val(&self) -> Val {
        self.as_inner().to_val()
    }
}
impl<T: Wire> Wire for Sequence<T> {
    fn sch() -> Sch {
        Sch::Seq(Box::new(sub::<T>()))
    }
    fn from_val(v: &Val) -> Self {
        Sequence::from_vec(v.list().iter().map(T::from_val).collect::<Vec<_>>().roomy())
    }
    fn to_val(&self) -> Val {
        Val::List(self.iter().map(T::to_val).collect())
    }
}
impl<T: Wire, const K: usize> Wire for FixSeq<T, K> {
    fn sch() -> Sch {
        Sch::FixSeq(Box::new(sub::<T>()), K)
    }
    fn from_val(v: &Val) -> Self {
        match FixSeq::try_from(v.list().iter().map(T::from_val).collect::<Vec<_>>().roomy()) {
            Ok(x) => x,
            Err(e) => panic!("exact count refused: {e:?}"),
        }
    }
    fn to_val(&self) -> Val {
        Val::List(self.iter().map(T::to_val).collect())
    }
}
impl<T: Wire, const K: usize> Wire for LimSeq<T, K> {
    fn sch() -> Sch {
        Sch::LimSeq(Box::new(sub::<T>()), K)
    }
    fn from_val(v: &Val) -> Self {
        match LimSeq::try_from(v.list().iter().map(T::from_val).collect::<Vec<_>>().roomy()) {
            Ok(x) => x,
            Err(e) => panic!("permitted count refused: {e:?}"),
        }
    }
    fn to_val(&self) -> Val {
        Val::List(self.iter().map(T::to_val).collect())
    }
}
impl<T: Wire> Wire for AutoBox<T> {
    fn sch() -> Sch {
        sub::<T>()
    }
    fn from_val(v: &Val) -> Self {
        AutoBox::new(T::from_val(v))
    }
    fn to_val(&self) -> Val {
        self.as_inner().to_val()
    }
}

#[macro_export]
macro_rules! rec_named {
    (@derive [$($d:ident),*] $name:ident { $($f:ident : $t:ty),+ $(,)? }) => {
        #[derive(tedium::Encode, tedium::Decode, $(tedium::$d,)* Clone, Debug, PartialEq)]
        pub struct $name { $(pub $f: $t),+ }
        $crate::rec_named!(@wire $name { $($f : $t),+ });
    };
    (@hashed [$($d:ident),*] $name:ident { $($f:ident : $t:ty),+ $(,)? }) => {
        #[derive(tedium::Encode, tedium::Decode, $(tedium::$d,)* Clone, Debug, PartialEq, PartialOrd, Hash)]
        pub struct $name { $(pub $f: $t),+ }
        $crate::rec_named!(@wire $name { $($f : $t),+ });
    };
    (@wire $name:ident { $($f:ident : $t:ty),+ }) => {
        impl $crate::wire::Wire for $name {
            fn fields() -> Vec<$crate::wire::Field> { vec![$($crate::wire::field::<$t>(stringify!($t))),+] }
            fn sch() -> $crate::model::Sch { $crate::model::Sch::Rec(vec![$(<$t as $crate::wire::Wire>::sch()),+]) }
            fn from_val(v: &$crate::model::Val) -> Self { let mut it = v.list().iter(); $name { $($f: <$t as $crate::wire::Wire>::from_val(it.next().unwrap())),+ } }
            fn to_val(&self) -> $crate::model::Val { $crate::model::Val::List(vec![$(self.$f.to_val()),+]) }
        }
    };
    (hashed fixed $name:ident $b:tt) => { $crate::rec_named!(@hashed [FixedLength] $name $b); };
    (hashed $name:ident $b:tt) => { $crate::rec_named!(@hashed [Estimable] $name $b); };
    (fixed $name:ident $b:tt) => { $crate::rec_named!(@derive [FixedLength] $name $b); };
    ($name:ident $b:tt) => { $crate::rec_named!(@derive [Estimable] $name $b); };
}
#[macro_export]
macro_rules! rec_tuple {
    (@derive $d:ident $name:ident ( $($f:ident : $t:ty),+ $(,)? )) => {
        #[derive(tedium::Encode, tedium::Decode, tedium::$d, Clone, Debug, PartialEq)]
        pub struct $name($(pub $t),+);
        $crate::rec_tuple!(@wire $name ( $($f : $t),+ ));
    };
    (@hashed $d:ident $name:ident ( $($f:ident : $t:ty),+ $(,)? )) => {
        #[derive(tedium::Encode, tedium::Decode, tedium::$d, Clone, Debug, PartialEq, PartialOrd, Hash)]
        pub struct $name($(pub $t),+);
        $crate::rec_tuple!(@wire $name ( $($f : $t),+ ));
    };
    (@wire $name:ident ( $($f:ident : $t:ty),+ )) => {
        impl $crate::wire::Wire for $name {
            fn fields() -> Vec<$crate::wire::Field> { vec![$($crate::wire::field::<$t>(stringify!($t))),+] }
            fn sch() -> $crate::model::Sch { $crate::model::Sch::Rec(vec![$(<$t as $crate::wire::Wire>::sch()),+]) }
            fn from_val(v: &$crate::model::Val) -> Self { let mut it = v.list().iter(); $name($(<$t as $crate::wire::Wire>::from_val(it.next().unwrap())),+) }
            fn to_val(&self) -> $crate::model::Val { let $name($($f),+) = self; $crate::model::Val::List(vec![$($f.to_val()),+]) }
        }
    };
    (hashed fixed $name:ident $b:tt) => { $crate::rec_tuple!(@hashed FixedLength $name $b); };
    (hashed $name:ident $b:tt) => { $crate::rec_tuple!(@hashed Estimable $name $b); };
    (fixed $name:ident $b:tt) => { $crate::rec_tuple!(@derive FixedLength $name $b); };
    ($name:ident $b:tt) => { $crate::rec_tuple!(@derive Estimable $name $b); };
}
/// Structs without fields, in each of their three forms.
#[macro_export]
macro_rules! rec_unit {
    ($d:ident $name:ident $($body:tt)*) => {
        #[derive(tedium::Encode, tedium::Decode, tedium::$d, Clone, Debug, PartialEq)]
        pub struct $name $($body)*
        impl $crate::wire::Wire for $name {
            fn fields() -> Vec<$crate::wire::Field> { vec![] }
            fn sch() -> $crate::model::Sch { $crate::model::Sch::Rec(vec![]) }
            fn from_val(_: &$crate::model::Val) -> Self { $name {} }
            fn to_val(&self) -> $crate::model::Val { $crate::model::Val::List(vec![]) }
        }
    };
}
#[macro_export]
macro_rules! wire_cstyle {
    // the trailing comma is optional
    ($name:ident, $w:ident, { $($v:ident = $d:literal),+ , }) => {
        tedium::cstyle!($name, $w, { $($v = $d),+ , });
        $crate::wire_cstyle!(@wire $name, $w, { $($v = $d),+ });
    };
    ($name:ident, $w:ident, { $($v:ident = $d:literal),+ }) => {
        tedium::cstyle!($name, $w, { $($v = $d),+ });
        $crate::wire_cstyle!(@wire $name, $w, { $($v = $d),+ });
    };
    (@wire $name:ident, $w:ident, { $($v:ident = $d:literal),+ }) => {
        impl $crate::wire::Wire for $name {
            fn sch() -> $crate::model::Sch { $crate::model::Sch::Enum(std::mem::size_of::<$w>(), vec![$(($d as u64, vec![], stringify!($v))),+]) }
            fn from_val(v: &$crate::model::Val) -> Self {
                let all = [$($name::$v),+];
                match v { $crate::model::Val::Var(i, _) => all[*i], _ => panic!("harness") }
            }
            fn to_val(&self) -> $crate::model::Val {
                let all = [$($name::$v),+];
                // discriminant comparison, independent of the crate's lookups
                let i = all.iter().position(|x| *x as u64 == *self as u64).unwrap();
                $crate::model::Val::Var(i, vec![])
            }
        }
        impl $crate::wire::TagTable for $name {
            fn width() -> usize { std::mem::size_of::<$w>() }
            fn tag_of(&self) -> u64 { self.get_tagval() as u64 }
            fn all_tags() -> Vec<u64> { <$name>::iter_tags().map(|t| t as u64).collect() }
            fn valid(t: u64) -> bool { <$name>::is_valid_tag(t as $w) }
            fn name_of(t: u64) -> Option<&'static str> { <$name>::get_name(t as $w) }
        }
    };
}
pub trait TagTable {
    fn width() -> usize;
    fn tag_of(&self) -> u64;
    fn all_tags() -> Vec<u64>;
    fn valid(t: u64) -> bool;
    fn name_of(t: u64) -> Option<&'static str>;
}
/// `wire_data!(Name, u8, payload, { 0 => A tuple(x: T); 1 => B named(y: U); 2 => C unit() })`
#[macro_export]
macro_rules! wire_data {
    ($name:ident, $w:ident, $m:ident, { $($body:tt)* }) => {
        $crate::wire_data!(@go false, $name, $w, $m, { $($body)* });
    };
    (recursive $name:ident, $w:ident, $m:ident, { $($body:tt)* }) => {
        $crate::wire_data!(@go true, $name, $w, $m, { $($body)* });
    };
    (@go $r:literal, $name:ident, $w:ident, $m:ident, { $($d:literal => $v:ident $k:ident ( $($f:ident : $t:ty),* ));+ $(;)? }) => {
        $crate::wire_data!(@decl $name, $w, $m, {}, $( $d => $v $k ( $($f : $t),* ); )+);
        impl $crate::wire::Wire for $name {
            const RECURSIVE: bool = $r;
            fn sch() -> $crate::model::Sch {
                $crate::model::Sch::Enum(std::mem::size_of::<$w>(), vec![$(($d as u64, vec![$(<$t as $crate::wire::Wire>::sch()),*], stringify!($v))),+])
            }
            #[allow(unused_assignments, unused_mut, unused_variables)]
            fn from_val(v: &$crate::model::Val) -> Self {
                let (i, fs) = match v { $crate::model::Val::Var(i, fs) => (*i, fs), _ => panic!("harness") };
                let mut k = 0usize;
                $( if i == k { let mut it = fs.iter(); return $name::$v($crate::wire_data!(@mk $k $m::$v, it, ($($f : $t),*))); } k += 1; )+
                panic!("harness: variant")
            }
            #[allow(unused_assignments)]
            fn to_val(&self) -> $crate::model::Val {
                let mut k = 0usize;
                $( if let $name::$v(p) = self { let _ = p; return $crate::model::Val::Var(k, $crate::wire_data!(@un $k $m::$v, p, ($($f : $t),*))); } k += 1; )+
                panic!("harness: variant")
            }
        }
        impl $crate::wire::TagTable for $name {
            fn width() -> usize { std::mem::size_of::<$w>() }
            fn tag_of(&self) -> u64 { self.get_tagval() as u64 }
            fn all_tags() -> Vec<u64> { <$name>::iter_tags().map(|t| t as u64).collect() }
            fn valid(t: u64) -> bool { <$name>::is_valid_tag(t as $w) }
            fn name_of(t: u64) -> Option<&'static str> { <$name>::get_name(t as $w) }
        }
    };
    (@decl $name:ident, $w:ident, $m:ident, { $($acc:tt)* }, $d:literal => $v:ident tuple ( $($f:ident : $t:ty),* ); $($rest:tt)*) => {
        $crate::wire_data!(@decl $name, $w, $m, { $($acc)* $d => $v ($(pub $t),*), }, $($rest)*);
    };
    (@decl $name:ident, $w:ident, $m:ident, { $($acc:tt)* }, $d:literal => $v:ident named ( $($f:ident : $t:ty),* ); $($rest:tt)*) => {
        $crate::wire_data!(@decl $name, $w, $m, { $($acc)* $d => $v { $(pub $f : $t),* }, }, $($rest)*);
    };
    (@decl $name:ident, $w:ident, $m:ident, { $($acc:tt)* }, $d:literal => $v:ident unit (); $($rest:tt)*) => {
        $crate::wire_data!(@decl $name, $w, $m, { $($acc)* $d => $v (), }, $($rest)*);
    };
    (@decl $name:ident, $w:ident, $m:ident, { $($acc:tt)* }, ) => {
        tedium::data!{ $name, $w, $m, { $($acc)* } }
    };
    (@mk unit $p:path, $it:ident, ()) => { $p };
    (@mk tuple $p:path, $it:ident, ($($f:ident : $t:ty),*)) => { $p($(<$t as $crate::wire::Wire>::from_val($it.next().unwrap())),*) };
    (@mk named $p:path, $it:ident, ($($f:ident : $t:ty),*)) => { { $(let $f = <$t as $crate::wire::Wire>::from_val($it.next().unwrap());)* $p { $($f),* } } };
    (@un unit $p:path, $x:ident, ()) => { vec![] };
    (@un tuple $p:path, $x:ident, ($($f:ident : $t:ty),*)) => { { let $p($($f),*) = $x; vec![$($f.to_val()),*] } };
    (@un named $p:path, $x:ident, ($($f:ident : $t:ty),*)) => { { let $p { $($f),* } = $x; vec![$($f.to_val()),*] } };
}

// ------------------------------------------------------------- parser kinds

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Byte,
    Memo,
    Slice,
}
pub const KINDS: [Kind; 3] = [Kind::Byte, Kind::Memo, Kind::Slice];

/// Result of decoding one value from a position in a stream.
pub struct Out {
    pub res: Result<Val, ParseError>,
    /// bytes left in the innermost open window after the attempt
    pub rest: Vec<u8>,
}

/// Surroundings in which a value is decoded: some bytes read before, an
/// optional enclosing window.
#[derive(Clone, Debug, Default)]
pub struct Around {
    pub skip: usize,
    pub window: Option<usize>,
}
fn run<T: Wire, P: Parser>(p: &mut P, a: &Around, buf: &[u8]) -> Out {
    let behind = &buf[a.window.map_or(buf.len(), |w| a.skip + w)..];
    if a.skip > 0 {
        p.consume(a.skip).map(|_| ()).expect("reading the preceding bytes failed");
    }
    if let Some(w) = a.window {
        p.set_fit(w).expect("opening a fitting window failed");
    }
    let res = T::parse(p);
    // leave nothing to the type's own borrow
    let res = res.map(|v| v.to_val());
    let n = p.remainder();
    let rest = p.take_dynamic(n).expect("reading the remainder failed");
    if res.is_ok() {
        // A decoded value has closed every window it opened, and no other.
        if a.window.is_some() {
            p.enforce_target().expect("the enclosing window is not the innermost one after decoding");
            let n = p.remainder();
            let got = p.take_dynamic(n).expect("reading past the window failed");
            assert!(got == behind, "after closing the enclosing window {got:02x?} remains instead of {behind:02x?}");
        }
        if let Ok(()) = p.enforce_target() {
            panic!("a window is still open after decoding");
        }
    }
    Out { res, rest }
}

/// A parser that delegates to a real one of any kind while counting
/// operations, so that lack of progress shows up as a deterministic failure
/// instead of a hang, and so that one history can mix dynamically chosen types.
pub enum AnyP<'a> {
    Byte(ByteParser),
    Memo(MemoParser),
    Slice(SliceParser<'a>),
}
pub struct AnyParser<'a> {
    pub inner: AnyP<'a>,
    pub left: std::cell::Cell<u64>,
}
impl<'a> AnyParser<'a> {
    pub fn new(k: Kind, buf: &'a [u8], budget: u64) -> Self {
        let inner = match k {
            Kind::Byte => AnyP::Byte(mk_byte(buf)),
            Kind::Memo => AnyP::Memo(mk_memo(buf)),
            Kind::Slice => AnyP::Slice(SliceParser::from_buffer(SliceBuffer::from(buf))),
        };
        AnyParser { inner, left: budget.into() }
    }
    fn tick(&self) {
        let l = self.left.get();
        if l == 0 {
            panic!("no progress: decoding exceeded its operation budget");
        }
        self.left.set(l - 1);
    }
}
macro_rules! any {
    ($s:expr, $p:ident => $e:expr) => {
        match $s {
            AnyP::Byte($p) => $e,
            AnyP::Memo($p) => $e,
            AnyP::Slice($p) => $e,
        }
    };
}
impl<'a> Parser for AnyParser<'a> {
    type Buffer = SliceBuffer<'a>;
    fn from_buffer(b: SliceBuffer<'a>) -> Self {
        AnyParser { inner: AnyP::Slice(SliceParser::from_buffer(b)), left: u64::MAX.into() }
    }
    fn view_len(&self) -> usize {
        self.tick();
        any!(&self.inner, p => p.view_len())
    }
    fn offset(&self) -> usize {
        self.tick();
        any!(&self.inner, p => p.offset())
    }
    fn remainder(&self) -> usize {
        self.tick();
        any!(&self.inner, p => p.remainder())
    }
    fn consume_byte(&mut self) -> ParseResult<u8> {
        self.tick();
        any!(&mut self.inner, p => p.consume_byte())
    }
    fn consume(&mut self, n: usize) -> ParseResult<&[u8]> {
        self.tick();
        any!(&mut self.inner, p => p.consume(n))
    }
    fn set_fit(&mut self, n: usize) -> ParseResult<()> {
        self.tick();
        any!(&mut self.inner, p => p.set_fit(n))
    }
    fn test_target(&mut self) -> ParseResult<bool> {
        self.tick();
        any!(&mut self.inner, p => p.test_target())
    }
    fn enforce_target(&mut self) -> ParseResult<()> {
        self.tick();
        any!(&mut self.inner, p => p.enforce_target())
    }
    fn cleanup(self) -> CleanupResult {
        any!(self.inner, p => p.cleanup())
    }
}
impl ParserExt for AnyParser<'_> {
    fn skip(&mut self, n: usize) -> ParseResult<usize> {
        self.tick();
        any!(&mut self.inner, p => ParserExt::skip(p, n))
    }
    fn skip_exactly(&mut self, n: usize) -> ParseResult<()> {
        self.tick();
        any!(&mut self.inner, p => p.skip_exactly(n))
    }
    fn skip_dynamic<L: LenPref>(&mut self) -> ParseResult<usize> {
        any!(&mut self.inner, p => p.skip_dynamic::<L>())
    }
    fn process_prefix<L: LenPref>(&mut self) -> ParseResult<usize> {
        any!(&mut self.inner, p => p.process_prefix::<L>())
    }
}

/// Any output target, chosen at run time.
pub enum AnyTarget {
    Vec(Vec<u8>),
    Hex(HexString),
    Strict(StrictBuilder),
    Memo(MemoBuilder),
    Sink(std::io::Sink, usize),
}
macro_rules! anyt {
    ($s:expr, $p:ident => $e:expr) => {
        match $s {
            AnyTarget::Vec($p) => $e,
            AnyTarget::Hex($p) => $e,
            AnyTarget::Strict($p) => $e,
            AnyTarget::Memo($p) => $e,
            AnyTarget::Sink($p, _) => $e,
        }
    };
}
pub const TARGETS: [&str; 5] = ["Vec", "HexString", "StrictBuilder", "MemoBuilder", "ByteCounter"];
impl AnyTarget {
    pub fn new(k: usize) -> Self {
        match k {
            0 => AnyTarget::Vec(Target::create()),
            1 => AnyTarget::Hex(Target::create()),
            2 => AnyTarget::Strict(Target::create()),
            3 => AnyTarget::Memo(Target::create()),
            _ => AnyTarget::Sink(Target::create(), 0),
        }
    }
    /// Contents, where the target keeps them.
    pub fn contents(&self) -> Option<Vec<u8>> {
        match self {
            AnyTarget::Vec(v) => Some(v.clone()),
            AnyTarget::Hex(h) => Some(h.clone().into_inner()),
            AnyTarget::Strict(b) => Some(b.clone().into_vec()),
            AnyTarget::Memo(b) => Some(b.clone().into_vec()),
            AnyTarget::Sink(..) => None,
        }
    }
}
impl Target for AnyTarget {
    fn anticipate(&mut self, n: usize) {
        anyt!(self, t => t.anticipate(n))
    }
    fn create() -> Self {
        AnyTarget::new(0)
    }
    fn push_one(&mut self, b: u8) -> usize {
        anyt!(self, t => t.push_one(b))
    }
    fn push_many<const N: usize>(&mut self, a: [u8; N]) -> usize {
        anyt!(self, t => t.push_many(a))
    }
    fn push_all(&mut self, b: &[u8]) -> usize {
        anyt!(self, t => t.push_all(b))
    }
    fn resolve(&mut self) {
        anyt!(self, t => t.resolve())
    }
    fn resolve_zero(&mut self) -> usize {
        anyt!(self, t => t.resolve_zero())
    }
}

pub trait Ops: Send + Sync {
    fn fields(&self) -> Vec<Field>;
    fn known(&self) -> Option<usize>;
    fn fixed(&self) -> Option<usize>;
    /// Every way of obtaining the encoded bytes.
    fn encodings(&self, v: &Val) -> Vec<(&'static str, Vec<u8>)>;
    /// Every way of obtaining the encoded length.
    fn lengths(&self, v: &Val) -> Vec<(&'static str, usize)>;
    fn plain(&self, v: &Val) -> Vec<u8>;
    fn decode(&self, k: Kind, buf: &[u8], a: &Around) -> Out;
    /// Whole-input decoding entry points (complete-parse checked under the feature).
    fn try_decode(&self, k: Kind, buf: &[u8]) -> Result<Val, tedium::conv::error::DecodeError>;
    /// Decode from a parser in any state.
    fn parse_any(&self, p: &mut AnyParser) -> Result<Val, ParseError>;
    /// Write to a target in any state.
    fn write_any(&self, v: &Val, t: &mut AnyTarget) -> usize;
    /// Re-encode what an input decodes to (real codec both ways).
    fn reencode(&self, buf: &[u8]) -> Result<Vec<u8>, ParseError>;
    /// `decode(encode(v)) == v` under the type's own equality.
    fn own_eq_roundtrip(&self, v: &Val) -> Result<bool, String>;
    /// decode() / decode_memo(), Err when they panic
    fn decode_or_panic(&self, memo: bool, buf: &[u8]) -> Result<Val, String>;
    /// write v to targets that already hold `pre`
    fn append_to_all(&self, pre: &[u8], v: &Val) -> Vec<(&'static str, Vec<u8>, usize)>;
    fn try_decode_form(&self, form: usize, buf: &[u8]) -> Option<Result<Val, String>>;
    /// final segmentation shown by the memo builder: concatenation and display
    fn memo_display(&self, v: &Val) -> String;
    fn debug(&self, v: &Val) -> String;
}

pub struct Ty<T> {
    pub fixed: Option<usize>,
    pub _p: std::marker::PhantomData<fn() -> T>,
}

fn mk_byte(b: &[u8]) -> ByteParser {
    ByteParser::from_buffer(VecBuffer::from(b))
}
fn mk_memo(b: &[u8]) -> MemoParser {
    MemoParser::from_buffer(VecBuffer::from(b))
}

impl<T: Wire> Ops for Ty<T> {
    fn fields(&self) -> Vec<Field> {
        T::fields()
    }
    fn known(&self) -> Option<usize> {
        <T as Estimable>::KNOWN
    }
    fn fixed(&self) -> Option<usize> {
        self.fixed
    }
    fn encodings(&self, v: &Val) -> Vec<(&'static str, Vec<u8>)> {
        let t = T::from_val(v);
        let mut out = vec![];
        let mut b = Vec::new();
        t.write_to(&mut b);
        out.push(("write_to Vec", b));
        let mut b = Vec::new();
        t.write_to_vec(&mut b);
        out.push(("write_to_vec", b));
        out.push(("to_bytes", t.to_bytes()));
        out.push(("to_bytes_full", t.to_bytes_full()));
        out.push(("encode::<Vec>", t.encode::<Vec<u8>>()));
        out.push(("encode::<HexString>", t.encode::<HexString>().into_inner()));
        out.push(("encode::<StrictBuilder>", t.encode::<StrictBuilder>().into_vec()));
        out.push(("encode::<MemoBuilder>", t.encode::<MemoBuilder>().into_vec()));
        out
    }
    fn lengths(&self, v: &Val) -> Vec<(&'static str, usize)> {
        let t = T::from_val(v);
        let mut out = vec![];
        let mut b = Vec::new();
        out.push(("write_to(Vec) return", t.write_to(&mut b)));
        out.push(("write_to(sink) return", t.write_to(&mut std::io::sink())));
        out.push(("write_to(StrictBuilder) return", t.write_to(&mut StrictBuilder::create())));
        out.push(("write_to(MemoBuilder) return", t.write_to(&mut MemoBuilder::create())));
        out.push(("write_to(HexString) return", t.write_to(&mut HexString::create())));
        out.push(("enc_len", t.enc_len()));
        out.push(("estimate", t.estimate()));
        out.push(("unknown", t.unknown()));
        out
    }
    fn plain(&self, v: &Val) -> Vec<u8> {
        T::from_val(v).to_bytes()
    }
    fn decode(&self, k: Kind, buf: &[u8], a: &Around) -> Out {
        match k {
            Kind::Byte => run::<T, _>(&mut mk_byte(buf), a, buf),
            Kind::Memo => run::<T, _>(&mut mk_memo(buf), a, buf),
            Kind::Slice => run::<T, _>(&mut SliceParser::from_buffer(SliceBuffer::from(buf)), a, buf),
        }
    }
    fn try_decode(&self, k: Kind, buf: &[u8]) -> Result<Val, tedium::conv::error::DecodeError> {
        match k {
            Kind::Byte => T::try_decode::<&[u8], ByteParser>(buf),
            Kind::Memo => T::try_decode::<&[u8], MemoParser>(buf),
            Kind::Slice => T::try_decode::<&[u8], SliceParser>(buf),
        }
        .map(|v| v.to_val())
    }
    fn parse_any(&self, p: &mut AnyParser) -> Result<Val, ParseError> {
        T::parse(p).map(|v| v.to_val())
    }
    fn write_any(&self, v: &Val, t: &mut AnyTarget) -> usize {
        T::from_val(v).write_to(t)
    }
    fn reencode(&self, buf: &[u8]) -> Result<Vec<u8>, ParseError> {
        T::parse(&mut mk_byte(buf)).map(|v| v.to_bytes())
    }
    fn own_eq_roundtrip(&self, v: &Val) -> Result<bool, String> {
        let t = T::from_val(v);
        let b = t.to_bytes();
        match T::parse(&mut mk_byte(&b)) {
            Ok(u) => Ok(u == t),
            Err(e) => Err(format!("{e:?}")),
        }
    }
    fn decode_or_panic(&self, memo: bool, buf: &[u8]) -> Result<Val, String> {
        crate::engine::guard(|| if memo { T::decode_memo(buf) } else { T::decode(buf) }.to_val())
    }
    fn append_to_all(&self, pre: &[u8], v: &Val) -> Vec<(&'static str, Vec<u8>, usize)> {
        let t = T::from_val(v);
        let mut out = vec![];
        let mut b: Vec<u8> = pre.to_vec();
        let n = t.write_to(&mut b);
        out.push(("Vec", b, n));
        let mut b = HexString::from(pre);
        let n = t.write_to(&mut b);
        out.push(("HexString", b.into_inner(), n));
        let mut b = StrictBuilder::from(pre);
        let n = t.write_to(&mut b);
        out.push(("StrictBuilder", b.into_vec(), n));
        let mut b = MemoBuilder::from(pre);
        let n = t.write_to(&mut b);
        out.push(("MemoBuilder", b.into_vec(), n));
        let mut b: Vec<u8> = pre.to_vec();
        t.write_to_vec(&mut b);
        let n = b.len() - pre.len().min(b.len());
        out.push(("write_to_vec", b, n));
        out
    }
    fn try_decode_form(&self, form: usize, buf: &[u8]) -> Option<Result<Val, String>> {
        fn fin<T: Wire>(r: Result<T, tedium::conv::error::DecodeError>) -> Option<Result<Val, String>> {
            Some(r.map(|v| v.to_val()).map_err(|e| format!("{e:?}")))
        }
        match form {
            0 => fin(T::try_decode::<Vec<u8>, ByteParser>(buf.to_vec().roomy())),
            1 => fin(T::try_decode::<&[u8], ByteParser>(buf)),
            2 => fin(T::try_decode::<HexString, ByteParser>(HexString::from(buf))),
            3 => fin(T::try_decode::<VecBuffer, ByteParser>(VecBuffer::from(buf))),
            4 => fin(T::try_decode::<SliceBuffer, SliceParser>(SliceBuffer::from(buf))),
            5 => fin(T::try_decode::<HexString, MemoParser>(HexString::from(buf))),
            _ => None,
        }
    }
    fn memo_display(&self, v: &Val) -> String {
        format!("{}", T::from_val(v).encode::<MemoBuilder>())
    }
    fn debug(&self, v: &Val) -> String {
        format!("{:?}", T::from_val(v))
    }
}

pub struct Entry {
    pub name: &'static str,
    pub sch: Sch,
    pub ops: Box<dyn Ops>,
}
pub fn entry<T: Wire>(name: &'static str) -> Entry {
    Entry { name, sch: T::sch(), ops: Box::new(Ty::<T> { fixed: None, _p: std::marker::PhantomData }) }
}
pub fn entry_fixed<T: Wire + FixedLength>(name: &'static str) -> Entry {
    Entry { name, sch: T::sch(), ops: Box::new(Ty::<T> { fixed: Some(T::LEN), _p: std::marker::PhantomData }) }
}
pub fn big(u: u64) -> BigUint {
    BigUint::from(u)
}
