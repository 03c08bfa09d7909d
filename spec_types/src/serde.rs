//! Writing to and reading from XML (C07).
use std::io::{Read, Write};
use std::str::FromStr;

use xml::attribute::OwnedAttribute;
use xml::namespace::Namespace;
use xsd_types::types::*;
use yaserde::de::Deserializer;
use yaserde::ser::Serializer;
use yaserde::{YaDeserialize, YaSerialize};

/// one start tag, the text and one end tag; the tags only if the writer was not told to skip them
pub fn put<W: Write>(text: &str, name: &str, writer: &mut Serializer<W>) -> Result<(), ()> {
    let tag = match writer.get_start_event_name() {
        Some(n) => n,
        None => name.to_string(),
    };
    let skip = writer.skip_start_end();
    if !skip {
        if writer.write(xml::writer::XmlEvent::start_element(tag.as_str())).is_err() {
            return Err(());
        }
    }
    if writer.write(xml::writer::XmlEvent::characters(text)).is_err() {
        return Err(());
    }
    if !skip {
        if writer.write(xml::writer::XmlEvent::end_element()).is_err() {
            return Err(());
        }
    }
    Ok(())
}

/// one start tag is consumed and the text behind it, if any, is left to the parser
pub fn get<R: Read, T>(reader: &mut Deserializer<R>, parse: fn(&str) -> Result<T, ()>) -> Result<T, ()> {
    match reader.peek() {
        Ok(xml::reader::XmlEvent::StartElement { .. }) => {}
        _ => return Err(()),
    }
    if reader.next_event().is_err() {
        return Err(());
    }
    match reader.peek() {
        Ok(xml::reader::XmlEvent::Characters(text)) => parse(text),
        Ok(_) => parse(""),
        Err(_) => Err(()),
    }
}

pub fn unit<T>(r: Result<T, String>) -> Result<T, ()> {
    match r {
        Ok(v) => Ok(v),
        Err(_) => Err(()),
    }
}

macro_rules! pair {
    ($t:ident, $n:literal, $ser_code:ident, $ser_want:ident, $attr_code:ident, $attr_want:ident, $de_code:ident, $de_want:ident, $p:ident) => {
        pub fn $ser_code<W: Write>(v: &$t, writer: &mut Serializer<W>) -> Result<(), ()> {
            unit(v.serialize(writer))
        }

        pub fn $ser_want<W: Write>(v: &$t, writer: &mut Serializer<W>) -> Result<(), ()> {
            put(&v.to_string(), $n, writer)
        }

        pub fn $attr_code(
            v: &$t,
            attributes: Vec<OwnedAttribute>,
            namespace: Namespace,
        ) -> Result<(Vec<OwnedAttribute>, Namespace), ()> {
            unit(v.serialize_attributes(attributes, namespace))
        }

        pub fn $attr_want(
            v: &$t,
            attributes: Vec<OwnedAttribute>,
            namespace: Namespace,
        ) -> Result<(Vec<OwnedAttribute>, Namespace), ()> {
            Ok((attributes, namespace))
        }

        pub fn $de_code<R: Read>(reader: &mut Deserializer<R>) -> Result<$t, ()> {
            unit(<$t as YaDeserialize>::deserialize(reader))
        }

        pub fn $de_want<R: Read>(reader: &mut Deserializer<R>) -> Result<$t, ()> {
            get(reader, $p)
        }

        fn $p(s: &str) -> Result<$t, ()> {
            match $t::from_str(s) {
                Ok(v) => Ok(v),
                Err(_) => Err(()),
            }
        }
    };
}

pair!(Date, "Date", code_ser_date, want_ser_date, code_attr_date, want_attr_date, code_de_date, want_de_date, p_date);
pair!(DateTime, "DateTime", code_ser_datetime, want_ser_datetime, code_attr_datetime, want_attr_datetime, code_de_datetime, want_de_datetime, p_datetime);
pair!(DateTimeStamp, "DateTimeStamp", code_ser_stamp, want_ser_stamp, code_attr_stamp, want_attr_stamp, code_de_stamp, want_de_stamp, p_stamp);
pair!(Decimal, "Decimal", code_ser_decimal, want_ser_decimal, code_attr_decimal, want_attr_decimal, code_de_decimal, want_de_decimal, p_decimal);
pair!(Duration, "Duration", code_ser_duration, want_ser_duration, code_attr_duration, want_attr_duration, code_de_duration, want_de_duration, p_duration);
pair!(GDay, "GDay", code_ser_gday, want_ser_gday, code_attr_gday, want_attr_gday, code_de_gday, want_de_gday, p_gday);
pair!(GMonth, "GMonth", code_ser_gmonth, want_ser_gmonth, code_attr_gmonth, want_attr_gmonth, code_de_gmonth, want_de_gmonth, p_gmonth);
pair!(GMonthDay, "GMonthDay", code_ser_gmonthday, want_ser_gmonthday, code_attr_gmonthday, want_attr_gmonthday, code_de_gmonthday, want_de_gmonthday, p_gmonthday);
pair!(GYear, "GYear", code_ser_gyear, want_ser_gyear, code_attr_gyear, want_attr_gyear, code_de_gyear, want_de_gyear, p_gyear);
pair!(GYearMonth, "GYearMonth", code_ser_gyearmonth, want_ser_gyearmonth, code_attr_gyearmonth, want_attr_gyearmonth, code_de_gyearmonth, want_de_gyearmonth, p_gyearmonth);
pair!(Integer, "Integer", code_ser_integer, want_ser_integer, code_attr_integer, want_attr_integer, code_de_integer, want_de_integer, p_integer);
pair!(NegativeInteger, "NegativeInteger", code_ser_neg, want_ser_neg, code_attr_neg, want_attr_neg, code_de_neg, want_de_neg, p_neg);
pair!(NonNegativeInteger, "NonNegativeInteger", code_ser_nonneg, want_ser_nonneg, code_attr_nonneg, want_attr_nonneg, code_de_nonneg, want_de_nonneg, p_nonneg);
pair!(NonPositiveInteger, "NonPositiveInteger", code_ser_nonpos, want_ser_nonpos, code_attr_nonpos, want_attr_nonpos, code_de_nonpos, want_de_nonpos, p_nonpos);
pair!(PositiveInteger, "PositiveInteger", code_ser_pos, want_ser_pos, code_attr_pos, want_attr_pos, code_de_pos, want_de_pos, p_pos);
pair!(Time, "Time", code_ser_time, want_ser_time, code_attr_time, want_attr_time, code_de_time, want_de_time, p_time);
