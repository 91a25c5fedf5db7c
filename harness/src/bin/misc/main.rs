//! Worker for the properties about parsers, builders, sequences, ranged
//! numbers, text forms and wrappers.
#![allow(unused_braces, unused_parens, clippy::all)]
mod bufs;
mod build;
mod errs;
mod hist;
mod internal;
mod memo;
mod nums;
mod seqs;
mod text;
mod wrap;

use hist::KINDS;
use vcore::engine::Target;
use tedium::int::RangedInt;
use vcore::engine::*;

fn lookup(id: &str) -> Option<Property> {
    let mut t: Vec<Target> = vec![];
    let (id, rule): (&'static str, &'static str) = match id {
        #[cfg(feature = "expose_internal")]
        "C31" => {
            t.push(target("bytes", 4000, 40000, internal::splits::history::<u8>));
            t.push(target("texts", 2000, 20000, internal::splits::history::<String>));
            t.push(target("pairs", 2000, 20000, internal::splits::history::<(u32, bool)>));
            t.push(target("elements that cannot be copied", 1500, 15000, internal::splits::copies));
            ("C31", "non-trivial: the vector ends up with several segments, not all of them empty")
        }
        #[cfg(feature = "expose_internal")]
        "C32" => {
            t.push(target("trackers", 10000, 100000, internal::offsets::history));
            t.push(target("indices", 10000, 100000, internal::offsets::index));
            ("C32", "non-trivial: a history with a refused operation; a positive increment of a positive index")
        }
        #[cfg(feature = "serde_impls")]
        "C33" => {
            t.push(target("bytes", 2000, 20000, internal::ser::bytes));
            macro_rules! each {
                ($($w:literal),+) => { $( t.push(target(format!("fixed-{}", $w), 500, 5000, internal::ser::fixed::<$w>)); )+ };
            }
            each!(0, 1, 2, 3, 4, 8, 16, 20, 31, 32, 33, 64, 65, 127, 128, 255, 256, 257, 1000);
            ("C33", "non-trivial: at least one byte")
        }
        "C06" => {
            t.push(target("histories", 2500, 30000, hist::three_way));
            ("C06", "non-trivial: the history opens a window and has a failing operation")
        }
        "C08" => {
            for k in KINDS {
                t.push(target(format!("history-{k:?}"), 2500, 30000, move |cx| hist::against_model(cx, k, false)));
            }
            ("C08", "non-trivial: the history opens a window or has a failing operation")
        }
        "C24" => {
            for k in KINDS {
                t.push(target(format!("history-{k:?}"), 2500, 30000, move |cx| hist::against_model(cx, k, true)));
            }
            t.push(target("texts", 8000, 80000, errs::texts));
            t.push(target("bounds", 20000, 200000, errs::restrict));
            ("C24", "non-trivial: the history opens a window or has a failing operation")
        }
        "C10" => {
            for k in KINDS {
                t.push(target(format!("cleanup-{k:?}"), 2500, 30000, move |cx| hist::cleanup(cx, k)));
            }
            t.push(target("leftover-state", 4000, 30000, hist::leftover_state));
            ("C10", "non-trivial: a window is still open when the parser is finalised")
        }
        "C11" => {
            for k in KINDS {
                t.push(target(format!("twins-{k:?}"), 5000, 60000, move |cx| hist::twins(cx, k)));
            }
            ("C11", "every case is a skip, a prefix or a search against its reading twin")
        }
        "C26" => {
            t.push(target("history", 2500, 30000, memo::history));
            t.push(target("whole-values", 2000, 20000, memo::whole_values));
            ("C26", "non-trivial: at least two groups and a skip or a failure among the operations")
        }
        "C12" => {
            macro_rules! each {
                ($t:ident; $($b:ident $lo:literal $hi:literal),+) => { $(
                    $t.push(target(format!("{}[{}..={}]", stringify!($b), $lo, $hi), 1500, 20000,
                        |cx| nums::int_case::<RangedInt<$b, $lo, $hi>>(cx)));
                    $t.push(enumerated(format!("all-{}[{}..={}]", stringify!($b), $lo, $hi), nums::INT_BLOCKS,
                        |cx, i| nums::int_all::<RangedInt<$b, $lo, $hi>>(cx, i)));
                )+ };
            }
            rints!(each, t);
            if !cfg!(feature = "invalid_range_checking") {
                t.push(target("empty[1..=0]", 1500, 15000, errs::empty_int::<1, 0>));
                t.push(target("empty[0..=-1]", 1500, 15000, errs::empty_int::<0, -1>));
                t.push(target("empty[-5..=-7]", 1500, 15000, errs::empty_int::<-5, -7>));
                t.push(target("empty[300..=5]", 1500, 15000, errs::empty_int::<300, 5>));
                t.push(target("empty[100..=-100]", 1500, 15000, errs::empty_int::<100, -100>));
            }
            t.push(target("bounds", 20000, 200000, errs::restrict));
            ("C12", "non-trivial: a number at most one off a bound or out of bounds; an exhausted block of numbers")
        }
        "C21" => {
            macro_rules! each {
                ($($lo:expr, $hi:expr);+) => { $(
                    t.push(target(format!("declared {}..={}", $lo, $hi), 300, 4000, errs::declared::<{ $lo }, { $hi }>));
                )+ };
            }
            each!(0, 0; 0, 255; -5, 5; 3, 3; 200, 400; -0x4000_0000, 0x3fff_ffff; 0, 0x3fff_ffff; 0x3fff_ffff, 0x3fff_ffff; -0x4000_0000, -0x4000_0000;
                0, 0x4000_0000; 5, 0x4000_0000; -5, 0x4000_0000; -0x4000_0001, 7; -0x4000_0001, 0; -0x4000_0001, -9; -0x4000_0001, 0x3fff_ffff;
                0x4000_0000, 0x4000_0000; -0x4000_0001, -0x4000_0001; i32::MIN, i32::MAX; 0, i32::MAX; i32::MIN, 0; i32::MIN, i32::MIN; i32::MAX, i32::MAX;
                1, 0; 0, -1; -5, -7; 300, 5; 100, -100; 0x3fff_ffff, -0x4000_0000; 0x4000_0000, 0x3fff_ffff);
            ("C21", "a number and a declared range, sound or not; distinct by number")
        }
        "C13" => {
            macro_rules! each {
                ($($lo:expr, $hi:expr);+) => { $(
                    t.push(target(format!("[{:e}..={:e}]", $lo as f64, $hi as f64), 1500, 20000,
                        |cx| nums::float_case::<{ f64::to_bits($lo) }, { f64::to_bits($hi) }>(cx)));
                )+ };
            }
            each!(0.0, 1.0; -1.0, 1.0; -100.0, 100.0; f64::NEG_INFINITY, f64::INFINITY; f64::MIN, f64::MAX; 0.0, f64::INFINITY;
                f64::NEG_INFINITY, -0.0; 3.5, 3.5; -7.25, -7.0; 1e-310, 1e-300; 0.1, 0.3; -0.0, 0.0; f64::MIN_POSITIVE, f64::MAX;
                1e300, f64::INFINITY; -1e-320, 1e-320; 16777217.0, 16777219.0; 3.5e38, 1e39);
            macro_rules! none {
                ($($lo:expr, $hi:expr);+) => { $(
                    t.push(target(format!("none in [{:e}..={:e}]", $lo as f64, $hi as f64), 1000, 10000,
                        errs::empty_float::<{ f64::to_bits($lo) }, { f64::to_bits($hi) }>));
                )+ };
            }
            none!(1.0, 0.0; f64::NAN, 1.0; 0.0, f64::NAN; f64::NAN, f64::NAN; f64::INFINITY, f64::NEG_INFINITY; 1.5, 1.25);
            t.push(target("bits", 4000, 40000, errs::float_bits));
            t.push(target("bounds", 20000, 200000, errs::restrict));
            ("C13", "non-trivial: special values, bounds and values out of bounds")
        }
        "C14" => {
            t.push(target("numbers", 40000, 400000, nums::big_case));
            t.push(enumerated("all-to-2^21", nums::BIG_BLOCKS, nums::big_all));
            t.push(enumerated("powers-of-two", 600, nums::big_powers));
            ("C14", "non-trivial: more than six significant bits; an exhausted block of numbers")
        }
        "C16" => {
            t.push(target("texts", 15000, 400000, text::hex_texts));
            t.push(target("bytes", 10000, 100000, text::hex_bytes));
            t.push(target("long bytes", 6, 60, text::hex_long));
            t.push(enumerated("pairs", text::HEX_BLOCKS, text::hex_pairs));
            ("C16", "non-trivial: text that is not lowercase hexadecimal digits; non-empty byte strings")
        }
        "C20" => {
            macro_rules! each {
                ($($w:literal),+) => { $(
                    t.push(target(format!("bytes-{}", $w), 2500, 20000, text::fixed_bytes::<$w>));
                    t.push(target(format!("text-{}", $w), 2500, 20000, text::fixed_string::<$w>));
                )+ };
            }
            t.push(enumerated("defaults", 1, |cx, _| text::fixed_default(cx)));
            each!(0, 1, 2, 3, 4, 5, 8, 16, 20, 31, 32, 33, 64, 255, 256, 257);
            ("C20", "non-trivial: a source of the wrong width or which is not plain text")
        }
        "C15" => {
            use tedium::{Bytes, Dynamic, FixSeq, LimSeq, N};
            macro_rules! each {
                ($($w:literal),+) => { $(
                    t.push(target(format!("history-exact-{}", $w), 1500, 15000, seqs::history::<FixSeq<seqs::El, $w>>));
                    t.push(target(format!("history-limited-{}", $w), 1500, 15000, seqs::history::<LimSeq<seqs::El, $w>>));
                    t.push(target(format!("wire-exact-u16-{}", $w), 400, 4000, |cx| seqs::wire::<FixSeq<u16, $w>, u16>(cx, |s| s.draw(65535) as u16)));
                    t.push(target(format!("wire-limited-u16-{}", $w), 400, 4000, |cx| seqs::wire::<LimSeq<u16, $w>, u16>(cx, |s| s.draw(65535) as u16)));
                    t.push(target(format!("wire-exact-N-{}", $w), 400, 4000, |cx| seqs::wire::<FixSeq<N, $w>, N>(cx, |s| N::new(s.draw(70000).into()))));
                    t.push(target(format!("wire-limited-N-{}", $w), 400, 4000, |cx| seqs::wire::<LimSeq<N, $w>, N>(cx, |s| N::new(s.draw(70000).into()))));
                    t.push(target(format!("wire-exact-dyn-{}", $w), 400, 4000, |cx| seqs::wire::<FixSeq<Dynamic<u8, Bytes>, $w>, _>(cx, |s| { let k = s.range(0, 3); Dynamic::new(Bytes::from(s.bytes(k))) })));
                    t.push(target(format!("wire-limited-dyn-{}", $w), 400, 4000, |cx| seqs::wire::<LimSeq<Dynamic<u8, Bytes>, $w>, _>(cx, |s| { let k = s.range(0, 3); Dynamic::new(Bytes::from(s.bytes(k))) })));
                )+ };
            }
            each!(0, 1, 2, 3, 4, 7, 8, 16, 33, 64, 300);
            ("C15", "non-trivial: a history with growth and a refusal; a number of encoded elements other than the bound")
        }
        "C17" => {
            t.push(target("history", 30000, 300000, build::history));
            t.push(target("values", 10000, 100000, build::values));
            ("C17", "non-trivial: more than two segments or an empty one; every composite value")
        }
        "C27" => {
            t.push(target("vector", 30000, 300000, bufs::vec_buffer));
            t.push(target("slice", 20000, 200000, bufs::slice_buffer));
            t.push(target("text", 2000, 20000, bufs::text_buffer));
            t.push(target("long", 100, 1000, bufs::big_inputs));
            t.push(enumerated("short", 24, bufs::small));
            ("C27", "non-trivial: arguments out of bounds, or a buffer used up")
        }
        "C28" => {
            t.push(target("text-inputs", 4000, 40000, text::text_inputs));
            t.push(target("buffers", 4000, 40000, bufs::text_buffer));
            t.push(target("big-inputs", 300, 3000, bufs::big_inputs));
            ("C28", "non-trivial: any text but the empty one")
        }
        "C23" => {
            use tedium::int::u30;
            macro_rules! each {
                ($($p:ty),+) => { $(
                    let n = stringify!($p);
                    t.push(target(format!("length-{n}"), 3000, 20000, wrap::by_length::<$p>));
                    t.push(target(format!("padded-{n}"), 1000, 6000, wrap::padded::<$p>));
                    t.push(target(format!("real-{n}"), 300, 3000, wrap::real::<$p>));
                    t.push(target(format!("u8-in-{n}"), 1500, 10000, wrap::nested::<$p, u8>));
                    t.push(target(format!("u16-in-{n}"), 1500, 10000, wrap::nested::<$p, u16>));
                    t.push(target(format!("u30-in-{n}"), 1500, 10000, wrap::nested::<$p, u30>));
                )+ };
            }
            each!(u8, u16, u30);
            t.push(enumerated("known-lengths", 3, wrap::known_lengths));
            t.push(target("fixed-width", 1500, 15000, wrap::too_wide));
            ("C23", "non-trivial: a payload at most two bytes below a prefix's maximum, or beyond it")
        }
        "C25" => {
            use tedium::*;
            macro_rules! each {
                ($f:ident; $($t:ty),+) => { $(
                    t.push(target(format!("{}-{}", stringify!($f), stringify!($t)), 1500, 15000, wrap::$f::<$t>));
                )+ };
            }
            each!(wrapped; u8, i64, bool, f64, wrap::Odd, Bytes, String, Z, Sequence<u16>, Option<u8>, Dynamic<u8, Bytes>, FixedBytes<3>, wrap::Suit, wrap::Shape);
            each!(wrapped_ord; u8, i64, bool, wrap::Odd, Bytes, String, Sequence<u16>, Option<u8>);
            each!(wrapped_display; u8, i64, bool, f64, String, wrap::Odd);
            each!(sequences; u8, i64, f64, wrap::Odd, Dynamic<u8, Bytes>, Z, wrap::Suit, wrap::Shape);
            each!(sequences_ord; u8, wrap::Odd, String, Option<u8>, Dynamic<u8, Bytes>, wrap::Suit);
            t.push(target("byte-strings", 5000, 50000, wrap::byte_strings));
            t.push(target("fixed-byte-strings", 5000, 50000, wrap::fixed_strings));
            t.push(target("numbers", 4000, 40000, wrap::numbers));
            t.push(target("data-enums", 8000, 80000, wrap::data_enums));
            t.push(target("enums of a user's type", 6000, 80000, wrap::loose_enums));
            t.push(enumerated("plain-enums", 3, wrap::plain_enums));
            ("C25", "every pair of values; pairs of non-empty byte strings and sequences")
        }
        _ => return None,
    };
    Some(Property { id, rule, targets: t })
}

fn main() {
    vcore::engine::main_with(lookup)
}
