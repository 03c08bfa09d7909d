//! Printing (C04): the components in the lexical form of the standard, then the zone if there is one.
use chrono::{Datelike, FixedOffset, Timelike};
use xsd_types::types::*;

use crate::{any, open};

fn zone(tz: Option<FixedOffset>) -> String {
    match tz {
        Some(tz) => tz.to_string(),
        None => String::new(),
    }
}

fn year(y: i32) -> String {
    if y > 0 {
        format!("{:04}", y)
    } else if y < 0 {
        format!("-{:04}", y.unsigned_abs())
    } else {
        // there is no year 0
        any()
    }
}

pub fn code_date(v: &Date) -> String {
    v.to_string()
}

pub fn want_date(v: &Date) -> String {
    let y = v.value.year();
    if y > 9999 {
        any()
    } else if y == 0 {
        any()
    } else {
        format!("{}-{:02}-{:02}{}", year(y), v.value.month(), v.value.day(), zone(v.timezone))
    }
}

pub fn code_time(v: &Time) -> String {
    v.to_string()
}

pub fn want_time(v: &Time) -> String {
    // leap seconds and fractions, which no literal that is read can give
    if v.value.nanosecond() > 0 {
        return any();
    }
    format!("{:02}:{:02}:{:02}{}", v.value.hour(), v.value.minute(), v.value.second(), zone(v.timezone))
}

pub fn code_datetime(v: &DateTime) -> String {
    v.to_string()
}

pub fn want_datetime(v: &DateTime) -> String {
    v.value.to_rfc3339()
}

pub fn code_datetimestamp(v: &DateTimeStamp) -> String {
    v.to_string()
}

pub fn want_datetimestamp(v: &DateTimeStamp) -> String {
    v.value.value.to_rfc3339()
}

pub fn code_gday(v: &GDay) -> String {
    v.to_string()
}

pub fn want_gday(v: &GDay) -> String {
    if v.value < 1 || v.value > 31 {
        return any();
    }
    format!("---{:02}{}", v.value, zone(v.timezone))
}

pub fn code_gmonth(v: &GMonth) -> String {
    v.to_string()
}

pub fn want_gmonth(v: &GMonth) -> String {
    if v.value < 1 || v.value > 12 {
        return any();
    }
    format!("--{:02}{}", v.value, zone(v.timezone))
}

pub fn code_gmonthday(v: &GMonthDay) -> String {
    v.to_string()
}

pub fn want_gmonthday(v: &GMonthDay) -> String {
    if v.month < 1 || v.month > 12 || v.day < 1 || v.day > 31 {
        return any();
    }
    format!("--{:02}-{:02}{}", v.month, v.day, zone(v.timezone))
}

pub fn code_gyear(v: &GYear) -> String {
    v.to_string()
}

pub fn want_gyear(v: &GYear) -> String {
    if v.value == 0 {
        return any();
    }
    format!("{}{}", year(v.value), zone(v.timezone))
}

pub fn code_gyearmonth(v: &GYearMonth) -> String {
    v.to_string()
}

pub fn want_gyearmonth(v: &GYearMonth) -> String {
    if v.year == 0 || v.month < 1 || v.month > 12 {
        return any();
    }
    format!("{}-{:02}{}", year(v.year), v.month, zone(v.timezone))
}

pub fn code_decimal(v: &Decimal) -> String {
    v.to_string()
}

pub fn want_decimal(v: &Decimal) -> String {
    v.0.to_string()
}

pub fn code_integer(v: &Integer) -> String {
    v.to_string()
}

pub fn want_integer(v: &Integer) -> String {
    v.0.to_string()
}

pub fn code_negative_integer(v: &NegativeInteger) -> String {
    v.to_string()
}

pub fn want_negative_integer(v: &NegativeInteger) -> String {
    v.0.to_string()
}

pub fn code_positive_integer(v: &PositiveInteger) -> String {
    v.to_string()
}

pub fn want_positive_integer(v: &PositiveInteger) -> String {
    v.0.to_string()
}

pub fn code_non_negative_integer(v: &NonNegativeInteger) -> String {
    v.to_string()
}

pub fn want_non_negative_integer(v: &NonNegativeInteger) -> String {
    v.0.to_string()
}

pub fn code_non_positive_integer(v: &NonPositiveInteger) -> String {
    v.to_string()
}

pub fn want_non_positive_integer(v: &NonPositiveInteger) -> String {
    v.0.to_string()
}
