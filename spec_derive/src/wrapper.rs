//! Wrappers (C09): one value with the wrapped type's parser and printer, a list item by item.
use std::str::FromStr;

use xsd_macro_utils::UtilsTupleIo;
use xsd_types::types as xs;

use crate::union::{Other, Own};

macro_rules! one {
    ($t:ident, $m:ty, $read_code:ident, $read_want:ident, $print_code:ident, $print_want:ident) => {
        pub fn $read_code(s: &str) -> Result<$t, ()> {
            match $t::from_str(s) {
                Ok(v) => Ok(v),
                Err(_) => Err(()),
            }
        }

        pub fn $read_want(s: &str) -> Result<$t, ()> {
            match <$m as FromStr>::from_str(s) {
                Ok(v) => Ok($t(v)),
                Err(_) => Err(()),
            }
        }

        pub fn $print_code(v: &$t) -> String {
            v.to_string()
        }

        pub fn $print_want(v: &$t) -> String {
            v.0.to_string()
        }
    };
}

macro_rules! list {
    ($t:ident, $m:ty, $read_code:ident, $read_want:ident, $print_code:ident, $print_want:ident) => {
        pub fn $read_code(s: &str) -> Result<$t, ()> {
            match $t::from_str(s) {
                Ok(v) => Ok(v),
                Err(_) => Err(()),
            }
        }

        pub fn $read_want(s: &str) -> Result<$t, ()> {
            let mut out = Vec::new();
            for item in s.split_whitespace() {
                match <$m as FromStr>::from_str(item) {
                    Ok(v) => out.push(v),
                    Err(_) => return Err(()),
                }
            }
            Ok($t(out))
        }

        pub fn $print_code(v: &$t) -> String {
            v.to_string()
        }

        pub fn $print_want(v: &$t) -> String {
            let mut out = String::new();
            let mut first = true;
            for x in &v.0 {
                if !first {
                    out.push(' ');
                }
                first = false;
                out.push_str(&x.to_string());
            }
            out
        }
    };
}

#[derive(Default, Clone, PartialEq, Debug, UtilsTupleIo)]
pub struct OBool(pub bool);

one!(OBool, bool, code_read_bool, want_read_bool, code_print_bool, want_print_bool);

#[derive(Default, Clone, PartialEq, Debug, UtilsTupleIo)]
pub struct OI8(pub i8);

one!(OI8, i8, code_read_i8, want_read_i8, code_print_i8, want_print_i8);

#[derive(Default, Clone, PartialEq, Debug, UtilsTupleIo)]
pub struct OU8(pub u8);

one!(OU8, u8, code_read_u8, want_read_u8, code_print_u8, want_print_u8);

#[derive(Default, Clone, PartialEq, Debug, UtilsTupleIo)]
pub struct OI16(pub i16);

one!(OI16, i16, code_read_i16, want_read_i16, code_print_i16, want_print_i16);

#[derive(Default, Clone, PartialEq, Debug, UtilsTupleIo)]
pub struct OU16(pub u16);

one!(OU16, u16, code_read_u16, want_read_u16, code_print_u16, want_print_u16);

#[derive(Default, Clone, PartialEq, Debug, UtilsTupleIo)]
pub struct OI32(pub i32);

one!(OI32, i32, code_read_i32, want_read_i32, code_print_i32, want_print_i32);

#[derive(Default, Clone, PartialEq, Debug, UtilsTupleIo)]
pub struct OU32(pub u32);

one!(OU32, u32, code_read_u32, want_read_u32, code_print_u32, want_print_u32);

#[derive(Default, Clone, PartialEq, Debug, UtilsTupleIo)]
pub struct OI64(pub i64);

one!(OI64, i64, code_read_i64, want_read_i64, code_print_i64, want_print_i64);

#[derive(Default, Clone, PartialEq, Debug, UtilsTupleIo)]
pub struct OU64(pub u64);

one!(OU64, u64, code_read_u64, want_read_u64, code_print_u64, want_print_u64);

#[derive(Default, Clone, PartialEq, Debug, UtilsTupleIo)]
pub struct OF32(pub f32);

one!(OF32, f32, code_read_f32, want_read_f32, code_print_f32, want_print_f32);

#[derive(Default, Clone, PartialEq, Debug, UtilsTupleIo)]
pub struct OF64(pub f64);

one!(OF64, f64, code_read_f64, want_read_f64, code_print_f64, want_print_f64);

#[derive(Default, Clone, PartialEq, Debug, UtilsTupleIo)]
pub struct OString(pub String);

one!(OString, String, code_read_string, want_read_string, code_print_string, want_print_string);

#[derive(Default, Clone, PartialEq, Debug, UtilsTupleIo)]
pub struct OStdString(pub std::string::String);

one!(OStdString, std::string::String, code_read_stdstring, want_read_stdstring, code_print_stdstring, want_print_stdstring);

#[derive(Default, Clone, PartialEq, Debug, UtilsTupleIo)]
pub struct ODate(pub xs::Date);

one!(ODate, xs::Date, code_read_date, want_read_date, code_print_date, want_print_date);

#[derive(Default, Clone, PartialEq, Debug, UtilsTupleIo)]
pub struct OInteger(pub xsd_types::types::Integer);

one!(OInteger, xsd_types::types::Integer, code_read_integer, want_read_integer, code_print_integer, want_print_integer);

#[derive(Default, Clone, PartialEq, Debug, UtilsTupleIo)]
pub struct OOwn(pub Own);

one!(OOwn, Own, code_read_own, want_read_own, code_print_own, want_print_own);

#[derive(Default, Clone, PartialEq, Debug, UtilsTupleIo)]
pub struct OOther(pub crate::union::Other);

one!(OOther, crate::union::Other, code_read_other, want_read_other, code_print_other, want_print_other);

// a wrapper of a wrapper
#[derive(Default, Clone, PartialEq, Debug, UtilsTupleIo)]
pub struct ONested(pub OOwn);

one!(ONested, OOwn, code_read_nested, want_read_nested, code_print_nested, want_print_nested);

#[derive(Default, Clone, PartialEq, Debug, UtilsTupleIo)]
pub struct LBool(pub Vec<bool>);

list!(LBool, bool, code_read_lbool, want_read_lbool, code_print_lbool, want_print_lbool);

#[derive(Default, Clone, PartialEq, Debug, UtilsTupleIo)]
pub struct LI32(pub Vec<i32>);

list!(LI32, i32, code_read_li32, want_read_li32, code_print_li32, want_print_li32);

#[derive(Default, Clone, PartialEq, Debug, UtilsTupleIo)]
pub struct LU64(pub std::vec::Vec<u64>);

list!(LU64, u64, code_read_lu64, want_read_lu64, code_print_lu64, want_print_lu64);

#[derive(Default, Clone, PartialEq, Debug, UtilsTupleIo)]
pub struct LF64(pub Vec<f64>);

list!(LF64, f64, code_read_lf64, want_read_lf64, code_print_lf64, want_print_lf64);

#[derive(Default, Clone, PartialEq, Debug, UtilsTupleIo)]
pub struct LString(pub Vec<String>);

list!(LString, String, code_read_lstring, want_read_lstring, code_print_lstring, want_print_lstring);

#[derive(Default, Clone, PartialEq, Debug, UtilsTupleIo)]
pub struct LOwn(pub Vec<Own>);

list!(LOwn, Own, code_read_lown, want_read_lown, code_print_lown, want_print_lown);

#[derive(Default, Clone, PartialEq, Debug, UtilsTupleIo)]
pub struct LOther(pub Vec<crate::union::Other>);

list!(LOther, Other, code_read_lother, want_read_lother, code_print_lother, want_print_lother);

#[derive(Default, Clone, PartialEq, Debug, UtilsTupleIo)]
pub struct LInteger(pub Vec<xs::Integer>);

list!(LInteger, xs::Integer, code_read_linteger, want_read_linteger, code_print_linteger, want_print_linteger);

