//! Durations: printing (C05) and conversion to clock time (C06).
use xsd_types::types::Duration;

use crate::{any, open};

pub fn code_print(v: &Duration) -> String {
    v.to_string()
}

pub fn want_print(v: &Duration) -> String {
    if !(v.seconds > 0.0) && v.seconds != 0.0 {
        return any();
    }
    let mut date = String::new();
    if v.years != 0 {
        date = format!("{}{}Y", date, v.years);
    }
    if v.months != 0 {
        date = format!("{}{}M", date, v.months);
    }
    if v.days != 0 {
        date = format!("{}{}D", date, v.days);
    }
    let mut time = String::new();
    if v.hours != 0 {
        time = format!("{}{}H", time, v.hours);
    }
    if v.minutes != 0 {
        time = format!("{}{}M", time, v.minutes);
    }
    if v.seconds > 0.0 {
        time = format!("{}{}S", time, v.seconds);
    }
    let sign = if v.is_negative { "-P" } else { "P" };
    if time != "" {
        format!("{}{}T{}", sign, date, time)
    } else if date != "" {
        format!("{}{}", sign, date)
    } else {
        format!("{}0Y", sign)
    }
}

pub fn code_clock(v: &Duration) -> Result<std::time::Duration, ()> {
    match v.to_std_duration() {
        Ok(d) => Ok(d),
        Err(_) => Err(()),
    }
}

pub fn want_clock(v: &Duration) -> Result<std::time::Duration, ()> {
    if v.years != 0 || v.months != 0 || v.is_negative {
        return Err(());
    }
    let days = match v.days.checked_mul(86400) {
        Some(x) => x,
        None => return Err(()),
    };
    let hours = match v.hours.checked_mul(3600) {
        Some(x) => x,
        None => return Err(()),
    };
    let minutes = match v.minutes.checked_mul(60) {
        Some(x) => x,
        None => return Err(()),
    };
    let whole = match days.checked_add(hours) {
        Some(x) => match x.checked_add(minutes) {
            Some(x) => x,
            None => return Err(()),
        },
        None => return Err(()),
    };
    let seconds = match std::time::Duration::try_from_secs_f64(v.seconds) {
        Ok(x) => x,
        Err(_) => return Err(()),
    };
    match seconds.checked_add(std::time::Duration::from_secs(whole)) {
        Some(x) => Ok(x),
        None => Err(()),
    }
}

pub fn code_parse(s: &str) -> Result<Duration, String> {
    s.parse::<Duration>()
}

/// -?P(nY)?(nM)?(nD)?(T(nH)?(nM)?(n(.n)?S)?)? with a part present after P and after T; the empty text stands for the
/// zero duration. Parts are ranked 1..=6; a number too large for its part is an error, fraction digits beyond 64 bits
/// are not read.
pub fn want_parse(s: &str) -> Result<Duration, String> {
    let mut d = Duration::default();
    if s.is_empty() {
        return Ok(d);
    }
    let bad = Err(String::new());
    let mut started = false;
    let mut time = false;
    let mut rank = 0;
    let mut whole: u64 = 0;
    let mut digits = false;
    let mut point = false;
    let mut part: u64 = 0;
    let mut scale: u64 = 1;
    for (i, c) in s.chars().enumerate() {
        if c == '-' {
            if i != 0 {
                return bad;
            }
            d.is_negative = true;
            continue;
        }
        if c == 'P' {
            if started || i != 0 && !(i == 1 && d.is_negative) {
                return bad;
            }
            started = true;
            continue;
        }
        if !started {
            return bad;
        }
        if c == 'T' {
            if time || digits {
                return bad;
            }
            time = true;
            continue;
        }
        if c == '.' {
            if point || !digits {
                return bad;
            }
            point = true;
            continue;
        }
        if let Some(n) = c.to_digit(10) {
            if point {
                if let (Some(p), Some(q)) = (shifted(part, n), scale.checked_mul(10)) {
                    part = p;
                    scale = q;
                }
            } else {
                whole = match shifted(whole, n) {
                    Some(x) => x,
                    None => return bad,
                };
                digits = true;
            }
            continue;
        }
        if !digits {
            return bad;
        }
        let place = match (c, time) {
            ('Y', false) => 1,
            ('M', false) => 2,
            ('D', false) => 3,
            ('H', true) => 4,
            ('M', true) => 5,
            ('S', true) => 6,
            _ => return bad,
        };
        if place <= rank || point && (place != 6 || scale == 1) {
            return bad;
        }
        match place {
            1 => d.years = whole,
            2 => d.months = whole,
            3 => d.days = whole,
            4 => d.hours = whole,
            5 => d.minutes = whole,
            _ => d.seconds = whole as f64 + part as f64 / scale as f64,
        }
        rank = place;
        whole = 0;
        digits = false;
        point = false;
    }
    if digits || rank == 0 || time && rank <= 3 {
        return bad;
    }
    Ok(d)
}

fn shifted(n: u64, digit: u32) -> Option<u64> {
    match n.checked_mul(10) {
        Some(x) => x.checked_add(digit as u64),
        None => None,
    }
}
