//! Parsing of the zoned types (C01-C03).  1: not of the form, 2: value out of range, 3: zone out of range.
use std::str::FromStr;

use chrono::{FixedOffset, NaiveDate, NaiveTime};
use xsd_types::types::*;

pub const TEXT: u8 = 1;
pub const RANGE: u8 = 2;
pub const ZONE: u8 = 3;

/// hh or mm
fn two(s: &str) -> Result<i32, u8> {
    if s.len() == 2 && s.chars().all(|c| c.is_ascii_digit()) {
        s.parse::<i32>().map_err(|_| TEXT)
    } else {
        Err(TEXT)
    }
}

pub fn want_timezone(s: &str) -> Result<FixedOffset, u8> {
    if s == "Z" {
        return Ok(FixedOffset::east_opt(0).unwrap());
    }
    let east = s.starts_with('+');
    let digits = match s.strip_prefix(|c| c == '+' || c == '-') {
        Some(d) => d,
        None => return Err(TEXT),
    };
    let (hh, mm) = match digits.split_once(':') {
        Some(x) => x,
        None => return Err(TEXT),
    };
    let hours = two(hh)?;
    let minutes = two(mm)?;
    if minutes >= 60 || hours > 14 || hours == 14 && minutes > 0 {
        return Err(ZONE);
    }
    let seconds = hours * 3600 + minutes * 60;
    if east {
        Ok(FixedOffset::east_opt(seconds).unwrap())
    } else {
        Ok(FixedOffset::east_opt(-seconds).unwrap())
    }
}

/// what follows the value
fn zone(s: &str) -> Result<Option<FixedOffset>, u8> {
    if s.is_empty() {
        Ok(None)
    } else {
        match want_timezone(s) {
            Ok(z) => Ok(Some(z)),
            Err(e) => Err(e),
        }
    }
}

/// two digits at the front, and the rest
fn front(s: &str) -> Result<(i32, &str), u8> {
    match (s.get(..2), s.get(2..)) {
        (Some(a), Some(b)) => Ok((two(a)?, b)),
        _ => Err(TEXT),
    }
}

/// at least four digits at the front, and the rest
fn year(s: &str) -> Result<(i32, &str), u8> {
    let end = match s.find(|c: char| !c.is_ascii_digit()) {
        Some(i) => i,
        None => s.len(),
    };
    if end < 4 {
        return Err(TEXT);
    }
    match s[..end].parse::<i32>() {
        Ok(y) => Ok((y, &s[end..])),
        Err(_) => Err(RANGE),
    }
}

pub fn code_gday(s: &str) -> Result<GDay, ()> {
    GDay::from_str(s).map_err(|_| ())
}

pub fn want_gday(s: &str) -> Result<GDay, u8> {
    let s = match s.strip_prefix("---") {
        Some(s) => s,
        None => return Err(TEXT),
    };
    let (value, s) = front(s)?;
    let timezone = zone(s)?;
    if value < 1 || value > 31 {
        return Err(RANGE);
    }
    Ok(GDay { value, timezone })
}

pub fn code_gmonth(s: &str) -> Result<GMonth, ()> {
    GMonth::from_str(s).map_err(|_| ())
}

pub fn want_gmonth(s: &str) -> Result<GMonth, u8> {
    let s = match s.strip_prefix("--") {
        Some(s) => s,
        None => return Err(TEXT),
    };
    let (value, s) = front(s)?;
    let timezone = zone(s)?;
    if value < 1 || value > 12 {
        return Err(RANGE);
    }
    Ok(GMonth { value, timezone })
}

pub fn code_gmonthday(s: &str) -> Result<GMonthDay, ()> {
    GMonthDay::from_str(s).map_err(|_| ())
}

pub fn want_gmonthday(s: &str) -> Result<GMonthDay, u8> {
    let s = match s.strip_prefix("--") {
        Some(s) => s,
        None => return Err(TEXT),
    };
    let (month, s) = front(s)?;
    let s = match s.strip_prefix('-') {
        Some(s) => s,
        None => return Err(TEXT),
    };
    let (day, s) = front(s)?;
    let timezone = zone(s)?;
    if day < 1 || day > crate::range::days_in(month) {
        return Err(RANGE);
    }
    Ok(GMonthDay { month, day, timezone })
}

pub fn code_gyear(s: &str) -> Result<GYear, ()> {
    GYear::from_str(s).map_err(|_| ())
}

pub fn want_gyear(s: &str) -> Result<GYear, u8> {
    let (negative, s) = match s.strip_prefix('-') {
        Some(s) => (true, s),
        None => (false, s),
    };
    let (value, s) = year(s)?;
    let timezone = zone(s)?;
    if value == 0 {
        return Err(RANGE);
    }
    Ok(GYear { value: if negative { -value } else { value }, timezone })
}

pub fn code_gyearmonth(s: &str) -> Result<GYearMonth, ()> {
    GYearMonth::from_str(s).map_err(|_| ())
}

pub fn want_gyearmonth(s: &str) -> Result<GYearMonth, u8> {
    let (negative, s) = match s.strip_prefix('-') {
        Some(s) => (true, s),
        None => (false, s),
    };
    let (y, s) = year(s)?;
    let s = match s.strip_prefix('-') {
        Some(s) => s,
        None => return Err(TEXT),
    };
    let (month, s) = front(s)?;
    let timezone = zone(s)?;
    if y == 0 || month < 1 || month > 12 {
        return Err(RANGE);
    }
    Ok(GYearMonth { year: if negative { -y } else { y }, month, timezone })
}

/// The zone of a date starts at its sign: '+', or a third '-'.
pub fn code_date(s: &str) -> Result<Date, ()> {
    Date::from_str(s).map_err(|_| ())
}

fn naive_date(s: &str) -> Result<NaiveDate, u8> {
    match NaiveDate::parse_from_str(s, "%Y-%m-%d") {
        Ok(d) => Ok(d),
        Err(_) => Err(TEXT),
    }
}

pub fn want_date(s: &str) -> Result<Date, u8> {
    if let Some(v) = s.strip_suffix('Z') {
        return Ok(Date { value: naive_date(v)?, timezone: zone("Z")? });
    }
    let cut = if s.contains('+') {
        s.find('+')
    } else if s.matches('-').count() == 3 {
        s.rfind('-')
    } else {
        None
    };
    match cut {
        None => Ok(Date { value: naive_date(s)?, timezone: None }),
        Some(i) => {
            let timezone = zone(&s[i..])?;
            Ok(Date { value: naive_date(&s[..i])?, timezone })
        }
    }
}

/// The zone of a time starts at its sign.
pub fn code_time(s: &str) -> Result<Time, ()> {
    Time::from_str(s).map_err(|_| ())
}

fn naive_time(s: &str) -> Result<NaiveTime, u8> {
    match NaiveTime::parse_from_str(s, "%H:%M:%S") {
        Ok(t) => Ok(t),
        Err(_) => Err(TEXT),
    }
}

pub fn want_time(s: &str) -> Result<Time, u8> {
    if let Some(v) = s.strip_suffix('Z') {
        return Ok(Time { value: naive_time(v)?, timezone: zone("Z")? });
    }
    match s.find(|c| c == '+' || c == '-') {
        None => Ok(Time { value: naive_time(s)?, timezone: None }),
        Some(i) => {
            let timezone = zone(&s[i..])?;
            Ok(Time { value: naive_time(&s[..i])?, timezone })
        }
    }
}

// ---- what the parsers of chrono accept (no more than this; the analysis asks these functions)

/// `%Y-%m-%d`
pub fn form_date(s: &str) -> bool {
    // two separators, and a sign of the year
    s.chars().all(|c| c.is_ascii_digit() || c == '-' || c == '+' || c.is_whitespace()) && s.matches('-').count() <= 3
}

/// `%H:%M:%S`
pub fn form_time(s: &str) -> bool {
    s.chars().all(|c| c.is_ascii_digit() || c == ':' || c.is_whitespace())
}

/// RFC 3339: a date with two dashes, 'T', a time, 'Z' or a signed offset
pub fn form_rfc3339(s: &str) -> bool {
    let (date, time) = match s.split_once(|c| c == 'T' || c == 't' || c == ' ') {
        Some(x) => x,
        None => return false,
    };
    if !date.chars().all(|c| c.is_ascii_digit() || c == '-') || date.matches('-').count() != 2 {
        return false;
    }
    match time.split_once(|c: char| !(c.is_ascii_digit() || c == ':' || c == '.')) {
        Some((_, z)) => {
            let sign = time[..time.len() - z.len()].chars().next_back().unwrap();
            if sign == 'Z' || sign == 'z' {
                z.is_empty()
            } else {
                (sign == '+' || sign == '-' || sign == '\u{2212}') && z.chars().all(|c| c.is_ascii_digit() || c == ':')
            }
        }
        None => false,
    }
}

pub fn code_datetime(s: &str) -> Result<DateTime, ()> {
    DateTime::from_str(s).map_err(|_| ())
}

fn chrono_datetime(s: &str) -> Result<chrono::DateTime<FixedOffset>, u8> {
    match chrono::DateTime::parse_from_rfc3339(s) {
        Ok(d) => Ok(d),
        Err(_) => Err(TEXT),
    }
}

/// Without a zone it is in UTC.
pub fn want_datetime(s: &str) -> Result<DateTime, u8> {
    if s.ends_with('Z') || s.contains('+') || s.matches('-').count() == 3 {
        Ok(DateTime { value: chrono_datetime(s)? })
    } else {
        let mut t = String::from(s);
        t.push('Z');
        Ok(DateTime { value: chrono_datetime(&t)? })
    }
}

pub fn code_datetimestamp(s: &str) -> Result<DateTimeStamp, ()> {
    DateTimeStamp::from_str(s).map_err(|_| ())
}

pub fn want_datetimestamp(s: &str) -> Result<DateTimeStamp, u8> {
    Ok(DateTimeStamp { value: DateTime { value: chrono_datetime(s)? } })
}

// ---- parsers that may not panic
pub fn total_duration(s: &str) -> Result<Duration, ()> {
    Duration::from_str(s).map_err(|_| ())
}

pub fn total_decimal(s: &str) -> Result<Decimal, ()> {
    Decimal::from_str(s).map_err(|_| ())
}

pub fn total_integer(s: &str) -> Result<Integer, ()> {
    Integer::from_str(s).map_err(|_| ())
}

pub fn total_nonnegativeinteger(s: &str) -> Result<NonNegativeInteger, ()> {
    NonNegativeInteger::from_str(s).map_err(|_| ())
}

pub fn total_nonpositiveinteger(s: &str) -> Result<NonPositiveInteger, ()> {
    NonPositiveInteger::from_str(s).map_err(|_| ())
}

pub fn total_positiveinteger(s: &str) -> Result<PositiveInteger, ()> {
    PositiveInteger::from_str(s).map_err(|_| ())
}

pub fn total_negativeinteger(s: &str) -> Result<NegativeInteger, ()> {
    NegativeInteger::from_str(s).map_err(|_| ())
}
