use xsd_types::types::*;
pub fn r_tz(s: &str) -> Result<chrono::FixedOffset, String> { parse_timezone(s) }
macro_rules! g { ($p:ident,$d:ident,$n:ident,$t:ty; $($a:ident),*) => {
pub fn $p(s: &str) -> Result<$t, <$t as std::str::FromStr>::Err> { <$t as std::str::FromStr>::from_str(s) }
pub fn $d(v: &$t) -> String { format!("{}", v) }
pub fn $n($($a: i32,)* tz: Option<chrono::FixedOffset>) -> Result<$t, String> { <$t>::new($($a,)* tz) }
}}
g!(r_gday_parse, r_gday_print, r_gday_new, GDay; d);
g!(r_gmonth_parse, r_gmonth_print, r_gmonth_new, GMonth; m);
g!(r_gmonthday_parse, r_gmonthday_print, r_gmonthday_new, GMonthDay; m, d);
g!(r_gyear_parse, r_gyear_print, r_gyear_new, GYear; y);
g!(r_gyearmonth_parse, r_gyearmonth_print, r_gyearmonth_new, GYearMonth; y, m);
pub fn r_gmonthday_gmonth(v: GMonthDay) -> GMonth { v.gmonth() }
pub fn r_gmonthday_gday(v: GMonthDay) -> GDay { v.gday() }
pub fn r_gyearmonth_gyear(v: GYearMonth) -> GYear { v.gyear() }
pub fn r_gyearmonth_gmonth(v: GYearMonth) -> GMonth { v.gmonth() }
macro_rules! t { ($p:ident,$d:ident,$t:ty) => {
pub fn $p(s: &str) -> Result<$t, <$t as std::str::FromStr>::Err> { <$t as std::str::FromStr>::from_str(s) }
pub fn $d(v: &$t) -> String { format!("{}", v) }
}}
t!(r_date_parse, r_date_print, Date);
t!(r_time_parse, r_time_print, Time);
t!(r_datetime_parse, r_datetime_print, DateTime);
t!(r_datetimestamp_parse, r_datetimestamp_print, DateTimeStamp);
t!(r_integer_parse, r_integer_print, Integer);
t!(r_pos_parse, r_pos_print, PositiveInteger);
t!(r_neg_parse, r_neg_print, NegativeInteger);
t!(r_nonneg_parse, r_nonneg_print, NonNegativeInteger);
t!(r_nonpos_parse, r_nonpos_print, NonPositiveInteger);
t!(r_decimal_parse, r_decimal_print, Decimal);
t!(r_duration_parse, r_duration_print, Duration);
pub fn r_duration_std(v: &Duration) -> Result<std::time::Duration, String> { v.to_std_duration() }
pub fn r_gday_default() -> GDay { GDay::default() }
pub fn r_gmonth_default() -> GMonth { GMonth::default() }
pub fn r_gyear_default() -> GYear { GYear::default() }
pub fn r_gmonthday_default() -> GMonthDay { GMonthDay::default() }
pub fn r_gyearmonth_default() -> GYearMonth { GYearMonth::default() }
pub fn r_date_default() -> Date { Date::default() }
pub fn r_time_default() -> Time { Time::default() }
pub fn r_datetime_default() -> DateTime { DateTime::default() }
pub fn r_datetimestamp_default() -> DateTimeStamp { DateTimeStamp::default() }
pub fn r_integer_default() -> Integer { Integer::default() }
pub fn r_pos_default() -> PositiveInteger { PositiveInteger::default() }
pub fn r_neg_default() -> NegativeInteger { NegativeInteger::default() }
pub fn r_nonneg_default() -> NonNegativeInteger { NonNegativeInteger::default() }
pub fn r_nonpos_default() -> NonPositiveInteger { NonPositiveInteger::default() }
pub fn r_decimal_default() -> Decimal { Decimal::default() }
pub fn r_duration_default() -> Duration { Duration::default() }
use roxmltree::Namespace;
use xsd_parser::generator::{builder::GeneratorBuilder, default as gd, Generator};
use xsd_parser::parser::types as pt;
type Ns<'a> = Option<Namespace<'a>>;
fn mkgen<'a>(tns: Ns<'a>, xsd: Ns<'a>) -> Generator<'a> {
    let g = GeneratorBuilder::default().build();
    *g.target_ns.borrow_mut() = tns;
    *g.xsd_ns.borrow_mut() = xsd;
    g
}
pub fn r_type_name(n: &str, tns: Ns, xsd: Ns) -> String { let g = mkgen(tns, xsd); let s = g.base().format_type_name(n, &g).into_owned(); s }
pub fn r_field_name(n: &str) -> String { let g = mkgen(None, None); let s = g.base().format_name(n).into_owned(); s }
pub fn r_mod_name(n: &str) -> String { let g = mkgen(None, None); let s = g.base().mod_name(n); s }
pub fn r_comment(d: Option<&str>, max: usize, indent: usize) -> String { gd::default_format_comment(d, max, indent) }
pub fn r_modify(n: &str, m: &[pt::TypeModifier]) -> String { gd::default_modify_type(n, m).into_owned() }
pub fn r_gen_field(e: pt::StructField, tns: Ns, xsd: Ns) -> String { mkgen(tns, xsd).generate(&pt::RsEntity::StructField(e)) }
pub fn r_gen_case(e: pt::EnumCase, tns: Ns, xsd: Ns) -> String { mkgen(tns, xsd).generate(&pt::RsEntity::EnumCase(e)) }
pub fn r_gen_alias(e: pt::Alias, tns: Ns, xsd: Ns) -> String { mkgen(tns, xsd).generate(&pt::RsEntity::Alias(e)) }
pub fn r_gen_import(e: pt::Import, tns: Ns, xsd: Ns) -> String { mkgen(tns, xsd).generate(&pt::RsEntity::Import(e)) }
pub fn r_gen_tuple(e: pt::TupleStruct, tns: Ns, xsd: Ns) -> String { mkgen(tns, xsd).generate(&pt::RsEntity::TupleStruct(e)) }
pub fn r_gen_struct(e: pt::Struct, tns: Ns, xsd: Ns) -> String { mkgen(tns, xsd).generate(&pt::RsEntity::Struct(e)) }
pub fn r_gen_enum(e: pt::Enum, tns: Ns, xsd: Ns) -> String { mkgen(tns, xsd).generate(&pt::RsEntity::Enum(e)) }
pub fn r_parse_schema<'a>(n: &roxmltree::Node<'a, 'a>) -> pt::RsFile<'a> { xsd_parser::parser::schema::parse_schema(n) }
pub fn r_parse_elem<'a>(n: &roxmltree::Node<'a, 'a>) -> pt::RsFile<'a> { xsd_parser::parser::parse_schema_element(n) }
pub fn r_gen_file<'a>(tns0: Ns<'a>, xsd0: Ns<'a>, f: &pt::RsFile<'a>) -> String { mkgen(tns0, xsd0).generate_rs_file(f) }
// derive macros on instances: the code under contract is what the macros of /repo expand to
macro_rules! dispatch { ($($m:ident [$($t:tt)*]),*) => {} }
macro_rules! dispatch_union { ($($m:ident { $($v:ident[$($t:tt)*]),* })*) => {} }
#[path = "../../replay/src/inst.rs"]
pub mod inst;
pub fn r_i32_parse(s: &str) -> Result<i32, String> { s.parse::<i32>().map_err(|e| e.to_string()) }
pub fn r_u8_parse(s: &str) -> Result<u8, String> { s.parse::<u8>().map_err(|e| e.to_string()) }
pub fn r_bool_parse(s: &str) -> Result<bool, String> { s.parse::<bool>().map_err(|e| e.to_string()) }
pub fn r_wsdl(d: &wsdl_parser::parser::definitions::Definitions) -> String { wsdl_parser::generator::generate(d) }
pub fn r_wsdl_new<'a>(n: &roxmltree::Node<'a, 'a>) -> wsdl_parser::parser::definitions::Definitions<'a> { wsdl_parser::parser::definitions::Definitions::new(n) }
fn main() {}
