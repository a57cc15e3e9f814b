use crate::{hex, unhex};
use chrono::FixedOffset;
use std::str::FromStr;
use xsd_types::types::*;

fn tz(o: &Option<FixedOffset>) -> String {
    match o { None => "-".into(), Some(t) => t.local_minus_utc().to_string() }
}
fn rtz(s: &str) -> Option<FixedOffset> {
    if s == "-" { None } else { Some(FixedOffset::east_opt(s.parse().unwrap()).unwrap()) }
}
fn i(s: &str) -> i32 { s.parse().unwrap() }

pub fn run(op: &str, a: &[&str]) -> Option<Option<String>> {
    macro_rules! parse { ($t:ty, $v:ident, $e:expr) => { <$t>::from_str(&unhex(a[0])).ok().map(|$v| $e) } }
    Some(match op {
        "tz" => parse_timezone(&unhex(a[0])).ok().map(|t| t.local_minus_utc().to_string()),
        "gday_parse" => parse!(GDay, v, format!("{}\t{}", v.value, tz(&v.timezone))),
        "gmonth_parse" => parse!(GMonth, v, format!("{}\t{}", v.value, tz(&v.timezone))),
        "gyear_parse" => parse!(GYear, v, format!("{}\t{}", v.value, tz(&v.timezone))),
        "gmonthday_parse" => parse!(GMonthDay, v, format!("{}\t{}\t{}", v.month, v.day, tz(&v.timezone))),
        "gyearmonth_parse" => parse!(GYearMonth, v, format!("{}\t{}\t{}", v.year, v.month, tz(&v.timezone))),
        "gday_new" => GDay::new(i(a[0]), rtz(a[1])).ok().map(|v| format!("{}\t{}", v.value, tz(&v.timezone))),
        "gmonth_new" => GMonth::new(i(a[0]), rtz(a[1])).ok().map(|v| format!("{}\t{}", v.value, tz(&v.timezone))),
        "gyear_new" => GYear::new(i(a[0]), rtz(a[1])).ok().map(|v| format!("{}\t{}", v.value, tz(&v.timezone))),
        "gmonthday_new" => GMonthDay::new(i(a[0]), i(a[1]), rtz(a[2])).ok().map(|v| format!("{}\t{}\t{}", v.month, v.day, tz(&v.timezone))),
        "gyearmonth_new" => GYearMonth::new(i(a[0]), i(a[1]), rtz(a[2])).ok().map(|v| format!("{}\t{}\t{}", v.year, v.month, tz(&v.timezone))),
        "gday_print" => Some(hex(&GDay { value: i(a[0]), timezone: rtz(a[1]) }.to_string())),
        "gmonth_print" => Some(hex(&GMonth { value: i(a[0]), timezone: rtz(a[1]) }.to_string())),
        "gyear_print" => Some(hex(&GYear { value: i(a[0]), timezone: rtz(a[1]) }.to_string())),
        "gmonthday_print" => Some(hex(&GMonthDay { month: i(a[0]), day: i(a[1]), timezone: rtz(a[2]) }.to_string())),
        "gyearmonth_print" => Some(hex(&GYearMonth { year: i(a[0]), month: i(a[1]), timezone: rtz(a[2]) }.to_string())),
        "gmonthday_gmonth" => { let v = GMonthDay { month: i(a[0]), day: i(a[1]), timezone: rtz(a[2]) }.gmonth(); Some(format!("{}\t{}", v.value, tz(&v.timezone))) }
        "gmonthday_gday" => { let v = GMonthDay { month: i(a[0]), day: i(a[1]), timezone: rtz(a[2]) }.gday(); Some(format!("{}\t{}", v.value, tz(&v.timezone))) }
        "gyearmonth_gyear" => { let v = GYearMonth { year: i(a[0]), month: i(a[1]), timezone: rtz(a[2]) }.gyear(); Some(format!("{}\t{}", v.value, tz(&v.timezone))) }
        "gyearmonth_gmonth" => { let v = GYearMonth { year: i(a[0]), month: i(a[1]), timezone: rtz(a[2]) }.gmonth(); Some(format!("{}\t{}", v.value, tz(&v.timezone))) }
        "gday_roundtrip" => { let t = GDay { value: i(a[0]), timezone: rtz(a[1]) }.to_string(); GDay::from_str(&t).ok().map(|v| format!("{}\t{}\t{}", v.value, tz(&v.timezone), hex(&t))) }
        "gmonth_roundtrip" => { let t = GMonth { value: i(a[0]), timezone: rtz(a[1]) }.to_string(); GMonth::from_str(&t).ok().map(|v| format!("{}\t{}\t{}", v.value, tz(&v.timezone), hex(&t))) }
        "gyear_roundtrip" => { let t = GYear { value: i(a[0]), timezone: rtz(a[1]) }.to_string(); GYear::from_str(&t).ok().map(|v| format!("{}\t{}\t{}", v.value, tz(&v.timezone), hex(&t))) }
        "gmonthday_roundtrip" => { let t = GMonthDay { month: i(a[0]), day: i(a[1]), timezone: rtz(a[2]) }.to_string(); GMonthDay::from_str(&t).ok().map(|v| format!("{}\t{}\t{}\t{}", v.month, v.day, tz(&v.timezone), hex(&t))) }
        "gyearmonth_roundtrip" => { let t = GYearMonth { year: i(a[0]), month: i(a[1]), timezone: rtz(a[2]) }.to_string(); GYearMonth::from_str(&t).ok().map(|v| format!("{}\t{}\t{}\t{}", v.year, v.month, tz(&v.timezone), hex(&t))) }
        "g_defaults" => {
            let (d, m, y, md, ym) = (GDay::default(), GMonth::default(), GYear::default(), GMonthDay::default(), GYearMonth::default());
            Some(format!("{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}", d.value, tz(&d.timezone), m.value, tz(&m.timezone), y.value, tz(&y.timezone),
                md.month, md.day, tz(&md.timezone), ym.year, ym.month, tz(&ym.timezone)))
        }
        "date_parse" => parse!(Date, v, format!("{}\t{}", sdate(&v.value), tz(&v.timezone))),
        "date_print" => Some(hex(&mdate(a).to_string())),
        "date_roundtrip" => { let v = mdate(a); let t = v.to_string(); Date::from_str(&t).ok().map(|w| format!("{}\t{}\t{}\t{}", sdate(&w.value), tz(&w.timezone), w == v, hex(&t))) }
        "date_default" => { let v = Date::default(); Some(format!("{}\t{}", sdate(&v.value), tz(&v.timezone))) }
        "time_parse" => parse!(Time, v, format!("{}\t{}", stime(&v.value), tz(&v.timezone))),
        "time_print" => Some(hex(&mtime(a).to_string())),
        "time_roundtrip" => { let v = mtime(a); let t = v.to_string(); Time::from_str(&t).ok().map(|w| format!("{}\t{}\t{}\t{}", stime(&w.value), tz(&w.timezone), w == v, hex(&t))) }
        "time_default" => { let v = Time::default(); Some(format!("{}\t{}", stime(&v.value), tz(&v.timezone))) }
        "datetime_parse" => parse!(DateTime, v, sdt(&v.value)),
        "datetime_print" => Some(hex(&DateTime { value: mdt(a) }.to_string())),
        "datetime_roundtrip" => { let v = DateTime { value: mdt(a) }; let t = v.to_string(); DateTime::from_str(&t).ok().map(|w| format!("{}\t{}\t{}", sdt(&w.value), w == v, hex(&t))) }
        "datetime_default" => Some(sdt(&DateTime::default().value)),
        "datetimestamp_parse" => parse!(DateTimeStamp, v, sdt(&v.to_chrono_datetime())),
        "datetimestamp_print" => Some(hex(&DateTimeStamp::from_chrono_datetime(mdt(a)).to_string())),
        "datetimestamp_roundtrip" => { let v = DateTimeStamp::from_chrono_datetime(mdt(a)); let t = v.to_string(); DateTimeStamp::from_str(&t).ok().map(|w| format!("{}\t{}\t{}", sdt(&w.to_chrono_datetime()), w == v, hex(&t))) }
        "datetimestamp_default" => Some(sdt(&DateTimeStamp::default().to_chrono_datetime())),
        "integer_parse" => parse!(Integer, v, v.0.to_str_radix(10)),
        "pos_parse" => parse!(PositiveInteger, v, v.0.to_str_radix(10)),
        "neg_parse" => parse!(NegativeInteger, v, v.0.to_str_radix(10)),
        "nonneg_parse" => parse!(NonNegativeInteger, v, v.0.to_str_radix(10)),
        "nonpos_parse" => parse!(NonPositiveInteger, v, v.0.to_str_radix(10)),
        "integer_print" => Some(hex(&Integer(a[0].parse().unwrap()).to_string())),
        "pos_print" => Some(hex(&PositiveInteger(a[0].parse().unwrap()).to_string())),
        "neg_print" => Some(hex(&NegativeInteger(a[0].parse().unwrap()).to_string())),
        "nonneg_print" => Some(hex(&NonNegativeInteger(a[0].parse().unwrap()).to_string())),
        "nonpos_print" => Some(hex(&NonPositiveInteger(a[0].parse().unwrap()).to_string())),
        "integer_roundtrip" => { let v = Integer(a[0].parse().unwrap()); let t = v.to_string(); Integer::from_str(&t).ok().map(|w| format!("{}\t{}\t{}", w.0, w == v, hex(&t))) }
        "pos_roundtrip" => { let v = PositiveInteger(a[0].parse().unwrap()); let t = v.to_string(); PositiveInteger::from_str(&t).ok().map(|w| format!("{}\t{}\t{}", w.0, w == v, hex(&t))) }
        "neg_roundtrip" => { let v = NegativeInteger(a[0].parse().unwrap()); let t = v.to_string(); NegativeInteger::from_str(&t).ok().map(|w| format!("{}\t{}\t{}", w.0, w == v, hex(&t))) }
        "nonneg_roundtrip" => { let v = NonNegativeInteger(a[0].parse().unwrap()); let t = v.to_string(); NonNegativeInteger::from_str(&t).ok().map(|w| format!("{}\t{}\t{}", w.0, w == v, hex(&t))) }
        "nonpos_roundtrip" => { let v = NonPositiveInteger(a[0].parse().unwrap()); let t = v.to_string(); NonPositiveInteger::from_str(&t).ok().map(|w| format!("{}\t{}\t{}", w.0, w == v, hex(&t))) }
        "integer_default" => Some(Integer::default().0.to_string()),
        "pos_default" => Some(PositiveInteger::default().0.to_string()),
        "neg_default" => Some(NegativeInteger::default().0.to_string()),
        "nonneg_default" => Some(NonNegativeInteger::default().0.to_string()),
        "nonpos_default" => Some(NonPositiveInteger::default().0.to_string()),
        "decimal_parse" => parse!(Decimal, v, sdec(&v)),
        "decimal_print" => Some(hex(&mdec(a).to_string())),
        "decimal_roundtrip" => { let v = mdec(a); let t = v.to_string(); Decimal::from_str(&t).ok().map(|w| format!("{}\t{}\t{}", sdec(&w), w == v, hex(&t))) }
        "decimal_default" => Some(sdec(&Decimal::default())),
        "duration_parse" => parse!(Duration, v, sdur(&v)),
        "duration_print" => Some(hex(&mdur(a).to_string())),
        "duration_roundtrip" => { let v = mdur(a); let t = v.to_string(); Duration::from_str(&t).ok().map(|w| format!("{}\t{}\t{}", sdur(&w), w == v, hex(&t))) }
        "duration_std" => mdur(a).to_std_duration().ok().map(|d| format!("{}\t{}", d.as_secs(), d.subsec_nanos())),
        "duration_default" => Some(sdur(&Duration::default())),
        _ => return None,
    })
}

use chrono::{Datelike, NaiveDate, NaiveTime, NaiveDateTime, TimeZone, Timelike};
fn sdate(d: &NaiveDate) -> String { format!("{:04}-{:02}-{:02}", d.year(), d.month(), d.day()) }
fn stime(t: &NaiveTime) -> String { format!("{:02}:{:02}:{:02}\t{:09}", t.hour(), t.minute(), t.second(), t.nanosecond()) }
fn sdt(v: &chrono::DateTime<FixedOffset>) -> String {
    let l = v.naive_local();
    format!("{}\t{}\t{}", sdate(&l.date()), stime(&l.time()), v.offset().local_minus_utc())
}
fn nd(s: &str) -> NaiveDate {
    let i = s.rfind('-').unwrap();
    let j = s[..i].rfind('-').unwrap();
    NaiveDate::from_ymd_opt(s[..j].parse().unwrap(), s[j + 1..i].parse().unwrap(), s[i + 1..].parse().unwrap()).unwrap()
}
fn nt(s: &str, n: &str) -> NaiveTime {
    NaiveTime::from_hms_nano_opt(s[0..2].parse().unwrap(), s[3..5].parse().unwrap(), s[6..8].parse().unwrap(), n.parse().unwrap()).unwrap()
}
fn mdate(a: &[&str]) -> Date { Date { value: nd(a[0]), timezone: rtz(a[1]) } }
fn mtime(a: &[&str]) -> Time { Time { value: nt(a[0], a[1]), timezone: rtz(a[2]) } }
fn mdt(a: &[&str]) -> chrono::DateTime<FixedOffset> {
    rtz(a[3]).unwrap().from_local_datetime(&NaiveDateTime::new(nd(a[0]), nt(a[1], a[2]))).unwrap()
}
fn sdec(v: &Decimal) -> String { let (b, e) = v.0.as_bigint_and_exponent(); format!("{}\t{}", b, e) }
fn mdec(a: &[&str]) -> Decimal { Decimal(bigdecimal::BigDecimal::new(a[0].parse().unwrap(), a[1].parse().unwrap())) }
fn sdur(d: &Duration) -> String {
    format!("{}\t{}\t{}\t{}\t{}\t{}\t{:016x}", d.is_negative as u8, d.years, d.months, d.days, d.hours, d.minutes, d.seconds.to_bits())
}
fn mdur(a: &[&str]) -> Duration {
    Duration { is_negative: a[0] == "1", years: a[1].parse().unwrap(), months: a[2].parse().unwrap(), days: a[3].parse().unwrap(),
        hours: a[4].parse().unwrap(), minutes: a[5].parse().unwrap(), seconds: f64::from_bits(u64::from_str_radix(a[6], 16).unwrap()) }
}
