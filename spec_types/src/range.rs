//! Value ranges (C02): the constructors of the gregorian types and the parsers of the bounded integers.
use std::str::FromStr;

use chrono::FixedOffset;
use num_bigint::{BigInt, BigUint};
use xsd_types::types::*;

fn unit<T, E>(r: Result<T, E>) -> Result<T, ()> {
    match r {
        Ok(v) => Ok(v),
        Err(_) => Err(()),
    }
}

pub fn code_gday(day: i32, timezone: Option<FixedOffset>) -> Result<GDay, ()> {
    unit(GDay::new(day, timezone))
}

pub fn want_gday(day: i32, timezone: Option<FixedOffset>) -> Result<GDay, ()> {
    if day >= 1 && day <= 31 {
        Ok(GDay { value: day, timezone })
    } else {
        Err(())
    }
}

pub fn code_gmonth(month: i32, timezone: Option<FixedOffset>) -> Result<GMonth, ()> {
    unit(GMonth::new(month, timezone))
}

pub fn want_gmonth(month: i32, timezone: Option<FixedOffset>) -> Result<GMonth, ()> {
    if month >= 1 && month <= 12 {
        Ok(GMonth { value: month, timezone })
    } else {
        Err(())
    }
}

pub fn days_in(month: i32) -> i32 {
    match month {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        2 => 29,
        _ => 0,
    }
}

pub fn code_gmonthday(month: i32, day: i32, timezone: Option<FixedOffset>) -> Result<GMonthDay, ()> {
    unit(GMonthDay::new(month, day, timezone))
}

pub fn want_gmonthday(month: i32, day: i32, timezone: Option<FixedOffset>) -> Result<GMonthDay, ()> {
    if day >= 1 && day <= days_in(month) {
        Ok(GMonthDay { month, day, timezone })
    } else {
        Err(())
    }
}

pub fn code_gyear(year: i32, timezone: Option<FixedOffset>) -> Result<GYear, ()> {
    unit(GYear::new(year, timezone))
}

pub fn want_gyear(year: i32, timezone: Option<FixedOffset>) -> Result<GYear, ()> {
    if year != 0 {
        Ok(GYear { value: year, timezone })
    } else {
        Err(())
    }
}

pub fn code_gyearmonth(year: i32, month: i32, timezone: Option<FixedOffset>) -> Result<GYearMonth, ()> {
    unit(GYearMonth::new(year, month, timezone))
}

pub fn want_gyearmonth(year: i32, month: i32, timezone: Option<FixedOffset>) -> Result<GYearMonth, ()> {
    if year != 0 && month >= 1 && month <= 12 {
        Ok(GYearMonth { year, month, timezone })
    } else {
        Err(())
    }
}

// the part of a value keeps what it is a part of

pub fn code_month_of(v: GMonthDay) -> GMonth {
    v.gmonth()
}

pub fn want_month_of(v: GMonthDay) -> GMonth {
    GMonth { value: v.month, timezone: v.timezone }
}

pub fn code_day_of(v: GMonthDay) -> GDay {
    v.gday()
}

pub fn want_day_of(v: GMonthDay) -> GDay {
    GDay { value: v.day, timezone: v.timezone }
}

pub fn code_year_of(v: GYearMonth) -> GYear {
    v.gyear()
}

pub fn want_year_of(v: GYearMonth) -> GYear {
    GYear { value: v.year, timezone: v.timezone }
}

pub fn code_yearmonth_month(v: GYearMonth) -> GMonth {
    v.gmonth()
}

pub fn want_yearmonth_month(v: GYearMonth) -> GMonth {
    GMonth { value: v.month, timezone: v.timezone }
}

pub fn code_integer(s: &str) -> Result<Integer, ()> {
    unit(Integer::from_str(s))
}

pub fn want_integer(s: &str) -> Result<Integer, ()> {
    match BigInt::from_str(s) {
        Ok(v) => Ok(Integer(v)),
        Err(_) => Err(()),
    }
}

pub fn code_negative(s: &str) -> Result<NegativeInteger, ()> {
    unit(NegativeInteger::from_str(s))
}

pub fn want_negative(s: &str) -> Result<NegativeInteger, ()> {
    match BigInt::from_str(s) {
        Ok(v) if v < BigInt::from(0) => Ok(NegativeInteger(v)),
        _ => Err(()),
    }
}

pub fn code_non_positive(s: &str) -> Result<NonPositiveInteger, ()> {
    unit(NonPositiveInteger::from_str(s))
}

pub fn want_non_positive(s: &str) -> Result<NonPositiveInteger, ()> {
    match BigInt::from_str(s) {
        Ok(v) if v <= BigInt::from(0) => Ok(NonPositiveInteger(v)),
        _ => Err(()),
    }
}

pub fn code_positive(s: &str) -> Result<PositiveInteger, ()> {
    unit(PositiveInteger::from_str(s))
}

pub fn want_positive(s: &str) -> Result<PositiveInteger, ()> {
    match BigUint::from_str(s) {
        Ok(v) if v > BigUint::from(0u32) => Ok(PositiveInteger(v)),
        _ => Err(()),
    }
}

pub fn code_non_negative(s: &str) -> Result<NonNegativeInteger, ()> {
    unit(NonNegativeInteger::from_str(s))
}

pub fn want_non_negative(s: &str) -> Result<NonNegativeInteger, ()> {
    match BigUint::from_str(s) {
        Ok(v) => Ok(NonNegativeInteger(v)),
        Err(_) => Err(()),
    }
}
