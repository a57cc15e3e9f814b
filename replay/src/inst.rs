// Instances of the derive macros: one wrapper and one list type per type of the mapping table, unions over them.
// The modules are also roots of the MIR extraction (harness/src/main.rs includes this file).
#[allow(unused_imports)]
use {super::inst as u, xsd_types::types as xs};
macro_rules! inst { ($($m:ident: [$($t:tt)*],)*) => { $(
pub mod $m {
    #[allow(unused_imports)]
    use std::str::FromStr;
    use xsd_macro_utils::*;
    #[allow(unused_imports)]
    use {super::super::inst as u, xsd_types::types as xs};
    #[derive(Default, Clone, PartialEq, Debug, UtilsTupleIo, UtilsDefaultSerde)]
    pub struct T(pub $($t)*);
    pub fn r_parse(s: &str) -> Result<T, String> { <T as std::str::FromStr>::from_str(s) }
    pub fn r_print(v: &T) -> String { format!("{}", v) }
    pub fn r_ser(v: &T, w: &mut yaserde::ser::Serializer<Vec<u8>>) -> Result<(), String> { yaserde::YaSerialize::serialize(v, w) }
    pub fn r_de(r: &mut yaserde::de::Deserializer<&[u8]>) -> Result<T, String> { yaserde::YaDeserialize::deserialize(r) }
})* 
dispatch! { $($m [$($t)*]),* }
} }
inst! {
    w_str: [String], w_bool: [bool], w_i8: [i8], w_u8: [u8], w_i16: [i16], w_u16: [u16], w_i32: [i32], w_u32: [u32], w_i64: [i64], w_u64: [u64], w_f64: [f64],
    w_integer: [xs::Integer], w_decimal: [xs::Decimal], w_date: [xs::Date], w_time: [xs::Time], w_datetime: [xs::DateTime], w_datetimestamp: [xs::DateTimeStamp], w_duration: [xs::Duration],
    w_nonneg: [xs::NonNegativeInteger], w_pos: [xs::PositiveInteger], w_nonpos: [xs::NonPositiveInteger], w_neg: [xs::NegativeInteger],
    w_nest: [u::w_i32::T], w_nest2: [u::w_nest::T], w_nestv: [u::v_i32::T],
    v_str: [Vec<String>], v_bool: [Vec<bool>], v_i8: [Vec<i8>], v_u8: [Vec<u8>], v_i16: [Vec<i16>], v_u16: [Vec<u16>], v_i32: [Vec<i32>], v_u32: [Vec<u32>], v_i64: [Vec<i64>], v_u64: [Vec<u64>], v_f64: [Vec<f64>],
    v_integer: [Vec<xs::Integer>], v_decimal: [Vec<xs::Decimal>], v_date: [Vec<xs::Date>], v_datetime: [Vec<xs::DateTime>], v_duration: [Vec<xs::Duration>],
    v_nonneg: [Vec<xs::NonNegativeInteger>], v_pos: [Vec<xs::PositiveInteger>],
    v_nest: [Vec<u::w_u8::T>], v_nest2: [Vec<u::w_str::T>],
}
macro_rules! uni { ($($m:ident { $($v:ident[$($t:tt)*]),* })*) => { $(
pub mod $m {
    use xsd_macro_utils::*;
    #[allow(unused_imports)]
    use {super::super::inst as u, xsd_types::types as xs};
    #[derive(PartialEq, Debug, UtilsUnionSerDe)]
    pub enum T { $($v($($t)*),)* __Unknown__(String) }
    impl Default for T { fn default() -> T { Self::__Unknown__("No valid variants".into()) } }
    pub fn r_ser(v: &T, w: &mut yaserde::ser::Serializer<Vec<u8>>) -> Result<(), String> { yaserde::YaSerialize::serialize(v, w) }
    pub fn r_de(r: &mut yaserde::de::Deserializer<&[u8]>) -> Result<T, String> { yaserde::YaDeserialize::deserialize(r) }
})*
dispatch_union! { $($m { $($v[$($t)*]),* })* }
} }
uni! {
    u1 { Num[u::w_i32::T], List[u::v_i32::T], Flag[bool], Text[String] }
    u2 { Small[u8], Big[i32], Flag[bool] }
    u3 { Only[u::w_u8::T] }
    u4 { A[u::w_u8::T], B[u::v_i32::T], C[u::w_integer::T], D[u::w_date::T], E[u::v_str::T], F[u::w_str::T] }
    u5 { Str[String], Num[i32] }
    u6 { X[i64], Y[u64], Z[f64], W[xs::Decimal] }
    u7 { Flag[bool], A1[u8], A2[i8], A3[u16], A4[i16], A5[u32], A6[i32], A7[u64], A8[i64], Fl[f64], Dec[u::w_decimal::T], Int[u::w_integer::T], Dat[u::w_date::T], LBool[u::v_bool::T],
         LInt[u::v_i32::T], LU64[u::v_u64::T], LFlo[u::v_f64::T], LDat[u::v_date::T], Again[i32], Last[u::v_str::T] }
    u8_ { Unknown[u8], UnknownText[bool], __Unknown[i32], _Unknown_[i64], Unknown__[u::v_bool::T], unknown[u::w_date::T] }
}
// Inner types by names that resemble those the macros treat in a special way: the derived code has to compile.
macro_rules! named { ($($n:ident)*) => {
#[allow(dead_code, non_camel_case_types, non_snake_case, unused_imports)]
pub mod named { $( pub mod $n {
    use xsd_macro_utils::*;
    use std::str::FromStr;
    pub mod i { pub use super::super::super::w_bool::T as $n; }
    #[derive(Default, Clone, PartialEq, Debug, UtilsTupleIo, UtilsDefaultSerde)]
    pub struct W(pub i::$n);
    #[derive(Default, Clone, PartialEq, Debug, UtilsTupleIo, UtilsDefaultSerde)]
    pub struct V(pub Vec<i::$n>);
    #[derive(PartialEq, Debug, UtilsUnionSerDe)]
    pub enum U { $n(i::$n), Flag(bool), __Unknown__(String) }
} )* }
} }
named! { Name Token NcName Id Str Text Strings string Bool Boolean Int Integer Float Double Char Byte List Array Vector VecOf Items Value Date Decimal Uri Empty Unit Any Struct Tuple Type Box Rc Cow }
