//! Unions (C08): the first member, in the order of declaration, whose parser accepts the text; the printed form of the
//! member that is held.
use std::io::{Read, Write};
use std::str::FromStr;

use xsd_macro_utils::UtilsUnionSerDe;
use xsd_types::types as xs;
use yaserde::de::Deserializer;
use yaserde::ser::Serializer;
use yaserde::{YaDeserialize, YaSerialize};

/// a member type of its own, with the traits generated types have
#[derive(Default, Clone, PartialEq, Debug)]
pub struct Own(pub String);

impl FromStr for Own {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        crate::any()
    }
}

impl std::fmt::Display for Own {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&own_text(self))
    }
}

pub fn own_text(v: &Own) -> String {
    crate::any()
}

#[derive(Default, Clone, PartialEq, Debug)]
pub struct Other(pub u32);

impl FromStr for Other {
    type Err = std::num::ParseIntError;
    fn from_str(s: &str) -> Result<Self, std::num::ParseIntError> {
        crate::any()
    }
}

impl std::fmt::Display for Other {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&other_text(self))
    }
}

pub fn other_text(v: &Other) -> String {
    crate::any()
}

#[derive(PartialEq, Debug, UtilsUnionSerDe)]
pub enum One {
    Only(Own),
    __Unknown__(String),
}

#[derive(PartialEq, Debug, UtilsUnionSerDe)]
pub enum Two {
    Second(Other),
    First(Own),
    __Unknown__(String),
}

#[derive(PartialEq, Debug, UtilsUnionSerDe)]
pub enum Text {
    Date(xs::Date),
    String(String),
    Bool(bool),
    __Unknown__(String),
}

/// many members: every kind of type name, one type twice
#[derive(PartialEq, Debug, UtilsUnionSerDe)]
pub enum Many {
    Bool(bool),
    I8(i8),
    U8(u8),
    I16(i16),
    U16(u16),
    I32(i32),
    U32(u32),
    I64(i64),
    U64(u64),
    F32(f32),
    F64(f64),
    Decimal(xs::Decimal),
    Duration(xsd_types::types::Duration),
    Own(Own),
    Other(self::Other),
    Again(Own),
    Text(std::string::String),
    __Unknown__(std::string::String),
}

impl Default for One {
    fn default() -> One {
        Self::__Unknown__("No valid variants".into())
    }
}

impl Default for Two {
    fn default() -> Two {
        Self::__Unknown__("No valid variants".into())
    }
}

impl Default for Text {
    fn default() -> Text {
        Self::__Unknown__("No valid variants".into())
    }
}

impl Default for Many {
    fn default() -> Many {
        Self::__Unknown__("No valid variants".into())
    }
}

fn put<W: Write>(text: &str, name: &str, writer: &mut Serializer<W>) -> Result<(), ()> {
    let tag = match writer.get_start_event_name() {
        Some(n) => n,
        None => name.to_string(),
    };
    let skip = writer.skip_start_end();
    if !skip {
        if writer.write(xml::writer::XmlEvent::start_element(tag.as_str())).is_err() {
            return Err(());
        }
    }
    if writer.write(xml::writer::XmlEvent::characters(text)).is_err() {
        return Err(());
    }
    if !skip {
        if writer.write(xml::writer::XmlEvent::end_element()).is_err() {
            return Err(());
        }
    }
    Ok(())
}

fn get<R: Read, T>(reader: &mut Deserializer<R>, parse: fn(&str) -> T) -> Result<T, ()> {
    match reader.peek() {
        Ok(xml::reader::XmlEvent::StartElement { .. }) => {}
        _ => return Err(()),
    }
    if reader.next_event().is_err() {
        return Err(());
    }
    match reader.peek() {
        Ok(xml::reader::XmlEvent::Characters(text)) => Ok(parse(text)),
        Ok(_) => Ok(parse("")),
        Err(_) => Err(()),
    }
}

fn unit<T>(r: Result<T, String>) -> Result<T, ()> {
    match r {
        Ok(v) => Ok(v),
        Err(_) => Err(()),
    }
}

macro_rules! union {
    ($t:ident, $n:literal, $read_code:ident, $read_want:ident, $write_code:ident, $write_want:ident, $attr_code:ident, $attr_want:ident, $parse:ident, $($v:ident : $m:ty),*) => {
        pub fn $read_code<R: Read>(reader: &mut Deserializer<R>) -> Result<$t, ()> {
            unit(<$t as YaDeserialize>::deserialize(reader))
        }

        pub fn $read_want<R: Read>(reader: &mut Deserializer<R>) -> Result<$t, ()> {
            get(reader, $parse)
        }

        fn $parse(s: &str) -> $t {
            $(
                match <$m as FromStr>::from_str(s) {
                    Ok(v) => return $t::$v(v),
                    Err(_) => {}
                }
            )*
            $t::__Unknown__(s.to_string())
        }

        pub fn $write_code<W: Write>(v: &$t, writer: &mut Serializer<W>) -> Result<(), ()> {
            unit(v.serialize(writer))
        }

        pub fn $write_want<W: Write>(v: &$t, writer: &mut Serializer<W>) -> Result<(), ()> {
            let text = match v {
                $($t::$v(x) => x.to_string(),)*
                $t::__Unknown__(x) => x.clone(),
            };
            put(&text, $n, writer)
        }

        pub fn $attr_code(
            v: &$t,
            attributes: Vec<xml::attribute::OwnedAttribute>,
            namespace: xml::namespace::Namespace,
        ) -> Result<(Vec<xml::attribute::OwnedAttribute>, xml::namespace::Namespace), ()> {
            unit(v.serialize_attributes(attributes, namespace))
        }

        pub fn $attr_want(
            v: &$t,
            attributes: Vec<xml::attribute::OwnedAttribute>,
            namespace: xml::namespace::Namespace,
        ) -> Result<(Vec<xml::attribute::OwnedAttribute>, xml::namespace::Namespace), ()> {
            Ok((attributes, namespace))
        }
    };
}

union!(One, "One", code_read_one, want_read_one, code_write_one, want_write_one, code_attr_one, want_attr_one, one, Only: Own);
union!(Two, "Two", code_read_two, want_read_two, code_write_two, want_write_two, code_attr_two, want_attr_two, two, Second: Other, First: Own);
union!(Text, "Text", code_read_text, want_read_text, code_write_text, want_write_text, code_attr_text, want_attr_text, text, Date: xs::Date, String: String, Bool: bool);
union!(Many, "Many", code_read_many, want_read_many, code_write_many, want_write_many, code_attr_many, want_attr_many, many,
    Bool: bool, I8: i8, U8: u8, I16: i16, U16: u16, I32: i32, U32: u32, I64: i64, U64: u64, F32: f32, F64: f64, Decimal: xs::Decimal,
    Duration: xs::Duration, Own: Own, Other: Other, Again: Own, Text: String);
