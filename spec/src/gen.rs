//! What the default generators must write for one entity, given what the parts of it are written as.
use std::borrow::Cow;

use inflector::cases::{pascalcase::to_pascal_case, snakecase::to_snake_case};
use roxmltree::Namespace;
use xsd_parser::generator::{
    alias::*, base::*, enum_case::*, import::*, r#enum::*, r#struct::*, struct_field::*, tuple_struct::*, *,
};
use xsd_parser::parser::types::*;
use xsd_parser::parser::xsd_elements::FacetType;

use crate::{any, open};

// ---------------------------------------------------------------- names

fn keyword(s: &str) -> bool {
    matches!(
        s,
        "as" | "break" | "const" | "continue" | "crate" | "else" | "enum" | "extern" | "false" | "fn" | "for" | "if"
            | "impl" | "in" | "let" | "loop" | "match" | "mod" | "move" | "mut" | "pub" | "ref" | "return" | "self"
            | "Self" | "static" | "struct" | "super" | "trait" | "true" | "type" | "unsafe" | "use" | "where"
            | "while" | "async" | "await" | "dyn" | "abstract" | "become" | "box" | "do" | "final" | "macro"
            | "override" | "priv" | "typeof" | "unsized" | "virtual" | "yield" | "try"
    )
}

/// words that were reserved once, or are reserved in a later edition: either spelling will do
fn doubtful(s: &str) -> bool {
    matches!(s, "alignof" | "offsetof" | "proc" | "pure" | "sizeof" | "gen" | "extern crate" | "if let")
}

fn identifier(s: String) -> String {
    if s.is_empty() || doubtful(&s) {
        return any();
    }
    if keyword(&s) || s.chars().next().unwrap().is_numeric() {
        return format!("_{}", s);
    }
    s
}

fn ascii_word(s: &str) -> String {
    s.chars().filter(|c| c.is_ascii() && (c.is_alphanumeric() || *c == '_')).collect()
}

fn halves(name: &str) -> (Option<&str>, &str) {
    match name.find(':') {
        None => (None, name),
        Some(i) => (Some(&name[..i]), &name[i + 1..]),
    }
}

fn member_name(name: &str) -> String {
    identifier(to_snake_case(name.split(':').last().unwrap()))
}

fn user_type(name: &str, target: &Option<Namespace>) -> String {
    let (prefix, local) = halves(name);
    let word = ascii_word(&to_pascal_case(local));
    let own = match target {
        Some(ns) => ns.name(),
        None => None,
    };
    let path = match prefix {
        None => word,
        Some(p) => {
            if own == Some(p) {
                word
            } else if doubtful(&ascii_word(p)) {
                return any();
            } else {
                format!("{}::{}", plain_identifier(ascii_word(p)), word)
            }
        }
    };
    identifier(path)
}

fn plain_identifier(s: String) -> String {
    if !s.is_empty() && (keyword(&s) || s.chars().next().unwrap().is_numeric()) {
        return format!("_{}", s);
    }
    s
}

fn built_in(name: &str, xsd: &Option<Namespace>) -> Option<&'static str> {
    let (prefix, local) = halves(name);
    let bound = match xsd {
        Some(ns) => ns.name(),
        None => None,
    };
    if prefix != bound {
        return None;
    }
    Some(match local {
        "hexBinary" | "base64Binary" | "string" | "normalizedString" | "token" | "language" | "Name" | "NCName"
        | "ENTITY" | "ID" | "IDREF" | "NMTOKEN" | "anyURI" | "QName" | "NOTATION" | "anySimpleType" => "String",
        "boolean" => "bool",
        "integer" => "xs::Integer",
        "nonNegativeInteger" => "xs::NonNegativeInteger",
        "positiveInteger" => "xs::PositiveInteger",
        "nonPositiveInteger" => "xs::NonPositiveInteger",
        "negativeInteger" => "xs::NegativeInteger",
        "long" => "i64",
        "int" => "i32",
        "short" => "i16",
        "byte" => "i8",
        "unsignedLong" => "u64",
        "unsignedInt" => "u32",
        "unsignedShort" => "u16",
        "unsignedByte" => "u8",
        "decimal" => "xs::Decimal",
        "double" => "f64",
        "float" => "f64",
        "date" => "xs::Date",
        "time" => "xs::Time",
        "dateTime" => "xs::DateTime",
        "dateTimeStamp" => "xs::DateTimeStamp",
        "duration" => "xs::Duration",
        "gDay" => "xs::GDay",
        "gMonth" => "xs::GMonth",
        "gMonthDay" => "xs::GMonthDay",
        "gYear" => "xs::GYear",
        "gYearMonth" => "xs::GYearMonth",
        "ENTITIES" | "IDREFS" | "NMTOKENS" => "Vec<String>",
        _ => return None,
    })
}

// ---------------------------------------------------------------- BaseGenerator

pub fn base_indent(this: &DefaultBaseGenerator) -> String {
    "    ".to_string()
}

pub fn base_indent_size(this: &DefaultBaseGenerator) -> usize {
    4
}

pub fn base_format_type_name<'a>(this: &'a DefaultBaseGenerator, type_name: &str, gen: &Generator) -> Cow<'a, str> {
    match built_in(type_name, &gen.xsd_ns.borrow()) {
        Some(t) => Cow::Borrowed(t),
        None => Cow::Owned(user_type(type_name, &gen.target_ns.borrow())),
    }
}

pub fn base_format_name<'a>(this: &'a DefaultBaseGenerator, name: &str) -> Cow<'a, str> {
    Cow::Owned(member_name(name))
}

pub fn base_mod_name(this: &DefaultBaseGenerator, name: &str) -> String {
    member_name(name)
}

pub fn base_modify_type<'a>(this: &'a DefaultBaseGenerator, type_name: &str, modifiers: &[TypeModifier]) -> Cow<'a, str> {
    if modifiers.contains(&TypeModifier::Empty) {
        return Cow::Borrowed("()");
    }
    if modifiers.contains(&TypeModifier::Recursive) {
        return Cow::Owned(format!("Vec<{}>", type_name));
    }
    let mut t = type_name.to_string();
    for m in modifiers {
        t = match m {
            TypeModifier::Array => format!("Vec<{}>", t),
            TypeModifier::Option => format!("Option<{}>", t),
            _ => t,
        };
    }
    Cow::Owned(t)
}

pub fn base_format_comment(this: &DefaultBaseGenerator, comment: Option<&str>, indent: usize) -> String {
    let mut out = String::new();
    if let Some(doc) = comment {
        for line in doc.lines() {
            let line = line.trim();
            if line.len() > 1 {
                out += &comment_lines(line, indent);
            }
        }
    }
    out
}

fn comment_lines(line: &str, indent: usize) -> String {
    let margin = " ".repeat(indent);
    let mut out = format!("{}//", margin);
    let mut used = indent + 2;
    for word in line.split_whitespace() {
        if used + word.len() < 80 {
            out = format!("{} {}", out, word);
            used = used + 1 + word.len();
        } else {
            out = format!("{}\n{}// {}", out, margin, word);
            used = indent + 3 + word.len();
        }
    }
    format!("{}\n", out)
}

pub fn base_join_subtypes(this: &DefaultBaseGenerator, subtypes: &[RsEntity], gen: &Generator) -> String {
    let mut all: Vec<String> = Vec::new();
    for s in subtypes {
        all.push(gen.generate(s));
    }
    all.join("\n")
}

// ---------------------------------------------------------------- fields

pub fn field_generate(this: &DefaultStructFieldGen, entity: &StructField, gen: &Generator) -> String {
    if entity.type_modifiers.contains(&TypeModifier::Empty) {
        return String::new();
    }
    format!(
        "{}{}{}pub {}: {},",
        this.format_comment(entity, gen),
        this.macros(entity, gen),
        gen.base().indent(),
        this.get_name(entity, gen),
        this.get_type_name(entity, gen)
    )
}

pub fn field_get_type_name(this: &DefaultStructFieldGen, entity: &StructField, gen: &Generator) -> String {
    let plain = gen.base().format_type_name(&entity.type_name, gen);
    gen.base().modify_type(&plain, &entity.type_modifiers).to_string()
}

pub fn field_get_name(this: &DefaultStructFieldGen, entity: &StructField, gen: &Generator) -> String {
    gen.base().format_name(&entity.name).to_string()
}

pub fn field_format_comment(this: &DefaultStructFieldGen, entity: &StructField, gen: &Generator) -> String {
    gen.base().format_comment(entity.comment.as_deref(), gen.base().indent_size())
}

pub fn field_macros(this: &DefaultStructFieldGen, entity: &StructField, gen: &Generator) -> String {
    let indent = gen.base().indent();
    let (prefix, local) = halves(&entity.name);
    match entity.source {
        StructFieldSource::Choice => format!("{}#[yaserde(flatten)]\n", indent),
        StructFieldSource::Attribute => match prefix {
            Some(p) => format!("{}#[yaserde(attribute, prefix = \"{}\", rename = \"{}\")]\n", indent, p, local),
            None => format!("{}#[yaserde(attribute, rename = \"{}\")]\n", indent, local),
        },
        StructFieldSource::Element => {
            let ns = gen.target_ns.borrow();
            let shown = match prefix {
                Some(p) => Some(p),
                None => match &*ns {
                    Some(n) => n.name(),
                    None => None,
                },
            };
            match shown {
                Some(p) => format!("{}#[yaserde(prefix = \"{}\", rename = \"{}\")]\n", indent, p, local),
                None => format!("{}#[yaserde(rename = \"{}\")]\n", indent, local),
            }
        }
        StructFieldSource::Base | StructFieldSource::NA => String::new(),
    }
}

// ---------------------------------------------------------------- structs

pub fn struct_generate(this: &DefaultStructGen, entity: &Struct, gen: &Generator) -> String {
    let mut t = this.format_comment(entity, gen);
    t.push_str(&this.macros(entity, gen));
    t.push_str("pub struct ");
    t.push_str(&this.get_type_name(entity, gen));
    t.push_str(" {");
    t.push_str(&this.fields(entity, gen));
    t.push_str("}\n\n");
    t.push_str(&this.validation(entity, gen));
    t.push_str("\n");
    t.push_str(&this.subtypes(entity, gen));
    t.push_str("\n");
    t
}

pub fn struct_fields(this: &DefaultStructGen, entity: &Struct, gen: &Generator) -> String {
    let mut all: Vec<String> = Vec::new();
    for f in entity.fields.borrow().iter() {
        let shown = StructField {
            name: f.name.clone(),
            comment: f.comment.clone(),
            subtypes: f.subtypes.clone(),
            source: f.source.clone(),
            type_modifiers: f.type_modifiers.clone(),
            type_name: if f.subtypes.is_empty() {
                f.type_name.clone()
            } else {
                format!("{}::{}", this.mod_name(entity, gen), f.type_name)
            },
        };
        let text = gen.struct_field_gen().generate(&shown, gen);
        if !text.is_empty() {
            all.push(text);
        }
    }
    let text = all.join("\n\n");
    if text.is_empty() {
        text
    } else {
        format!("\n{}\n", text)
    }
}

pub fn struct_subtypes(this: &DefaultStructGen, entity: &Struct, gen: &Generator) -> String {
    let of_fields: String =
        entity.fields.borrow().iter().map(|f| gen.base().join_subtypes(&f.subtypes, gen)).collect();
    let own = gen.base().join_subtypes(&entity.subtypes, gen);
    if of_fields.is_empty() && own.is_empty() {
        return format!("{}\n{}", own, of_fields);
    }
    let indent = gen.base().indent();
    format!(
        "\npub mod {} {{\n{}use super::*;{}\n{}\n}}\n",
        this.mod_name(entity, gen),
        indent,
        own,
        this.shift(&of_fields, &indent)
    )
}

pub fn struct_shift(this: &DefaultStructGen, text: &str, indent: &str) -> String {
    let mut out = indent.to_string();
    for line in text.replace("\n\n\n", "\n").split('\n') {
        out.push('\n');
        if !line.is_empty() {
            out.push_str(indent);
            out.push_str(line);
        }
    }
    out
}

pub fn struct_get_type_name(this: &DefaultStructGen, entity: &Struct, gen: &Generator) -> String {
    gen.base().format_type_name(&entity.name, gen).to_string()
}

pub fn struct_macros(this: &DefaultStructGen, entity: &Struct, gen: &Generator) -> Cow<'static, str> {
    Cow::Owned(format!(
        "#[derive(Default, Clone, PartialEq, Debug, YaSerialize, YaDeserialize)]\n{}",
        namespace_marker(gen)
    ))
}

fn namespace_marker(gen: &Generator) -> String {
    match &*gen.target_ns.borrow() {
        None => "#[yaserde()]\n".to_string(),
        Some(ns) => match ns.name() {
            Some(p) => format!("#[yaserde(prefix = \"{}\", namespace = \"{}: {}\")]\n", p, p, ns.uri()),
            None => format!("#[yaserde(namespace = \"{}\")]\n", ns.uri()),
        },
    }
}

pub fn struct_format_comment(this: &DefaultStructGen, entity: &Struct, gen: &Generator) -> String {
    gen.base().format_comment(entity.comment.as_deref(), 0)
}

pub fn struct_mod_name(this: &DefaultStructGen, entity: &Struct, gen: &Generator) -> String {
    gen.base().mod_name(&entity.name)
}

pub fn struct_validation(this: &DefaultStructGen, entity: &Struct, gen: &Generator) -> Cow<'static, str> {
    Cow::Owned(format!("impl Validate for {} {{}}", this.get_type_name(entity, gen)))
}

// ---------------------------------------------------------------- enums

pub fn enum_generate(this: &DefaultEnumGen, entity: &Enum, gen: &Generator) -> String {
    let name = this.get_name(entity, gen);
    let indent = gen.base().indent();
    let default = format!(
        "impl Default for {n} {{\n{i}fn default() -> {n} {{\n{i}{i}Self::__Unknown__(\"No valid variants\".into())\n{i}}}\n}}",
        n = name,
        i = indent
    );
    [
        this.format_comment(entity, gen),
        this.macros(entity, gen).to_string(),
        format!("\npub enum {} {{\n", name),
        this.cases(entity, gen),
        format!("\n{}__Unknown__({}),\n}}\n\n", indent, this.get_type_name(entity, gen)),
        default,
        "\n\n".to_string(),
        this.validation(entity, gen).to_string(),
        "\n\n".to_string(),
        this.subtypes(entity, gen),
        "\n\n".to_string(),
    ]
    .concat()
}

pub fn enum_cases(this: &DefaultEnumGen, entity: &Enum, gen: &Generator) -> String {
    let mut all: Vec<String> = Vec::new();
    for c in &entity.cases {
        all.push(gen.enum_case_gen().generate(c, gen));
    }
    all.join("\n")
}

pub fn enum_subtypes(this: &DefaultEnumGen, entity: &Enum, gen: &Generator) -> String {
    gen.base().join_subtypes(&entity.subtypes, gen)
}

pub fn enum_get_type_name(this: &DefaultEnumGen, entity: &Enum, gen: &Generator) -> String {
    gen.base().format_type_name(&entity.type_name, gen).to_string()
}

pub fn enum_get_name(this: &DefaultEnumGen, entity: &Enum, gen: &Generator) -> String {
    gen.base().format_type_name(&entity.name, gen).to_string()
}

pub fn enum_macros(this: &DefaultEnumGen, entity: &Enum, gen: &Generator) -> Cow<'static, str> {
    match entity.source {
        EnumSource::Union => Cow::Borrowed("#[derive(PartialEq, Debug, UtilsUnionSerDe)]"),
        _ => Cow::Owned(format!(
            "#[derive(PartialEq, Debug, Clone, YaSerialize, YaDeserialize)]{}",
            namespace_marker(gen)
        )),
    }
}

pub fn enum_format_comment(this: &DefaultEnumGen, entity: &Enum, gen: &Generator) -> String {
    gen.base().format_comment(entity.comment.as_deref(), 0)
}

pub fn enum_validation(this: &DefaultEnumGen, entity: &Enum, gen: &Generator) -> Cow<'static, str> {
    Cow::Owned(format!("impl Validate for {} {{}}", this.get_name(entity, gen)))
}

// ---------------------------------------------------------------- cases

pub fn case_generate(this: &DefaultEnumCaseGen, entity: &EnumCase, gen: &Generator) -> String {
    let mut t = this.format_comment(entity, gen);
    t += &this.macros(entity, gen);
    t += &gen.base().indent();
    t += &this.get_name(entity, gen);
    if entity.type_name.is_some() {
        t += "(";
        t += &this.get_type_name(entity, gen);
        t += ")";
    }
    t += ",";
    t
}

pub fn case_get_name(this: &DefaultEnumCaseGen, entity: &EnumCase, gen: &Generator) -> String {
    let (prefix, local) = halves(&entity.name);
    let word = ascii_word(&to_pascal_case(local));
    identifier(word)
}

pub fn case_get_type_name(this: &DefaultEnumCaseGen, entity: &EnumCase, gen: &Generator) -> String {
    match &entity.type_name {
        None => open(),
        Some(t) => {
            let plain = gen.base().format_type_name(t, gen);
            gen.base().modify_type(&plain, &entity.type_modifiers).to_string()
        }
    }
}

pub fn case_format_comment(this: &DefaultEnumCaseGen, entity: &EnumCase, gen: &Generator) -> String {
    gen.base().format_comment(entity.comment.as_deref(), gen.base().indent_size())
}

pub fn case_macros(this: &DefaultEnumCaseGen, entity: &EnumCase, gen: &Generator) -> String {
    if matches!(entity.source, EnumSource::Union) {
        return String::new();
    }
    let (prefix, local) = halves(&entity.name);
    let indent = gen.base().indent();
    match prefix {
        Some(p) => format!("{}#[yaserde(prefix = \"{}\", rename = \"{}\")]\n", indent, p, local),
        None => {
            if this.get_name(entity, gen) == local {
                String::new()
            } else {
                format!("{}#[yaserde(rename = \"{}\")]\n", indent, local)
            }
        }
    }
}

// ---------------------------------------------------------------- wrappers

pub fn tuple_generate(this: &DefaultTupleStructGen, entity: &TupleStruct, gen: &Generator) -> String {
    format!(
        "{}{}pub struct {} (pub {});\n{}\n{}\n",
        this.format_comment(entity, gen),
        this.macros(entity, gen),
        this.get_name(entity, gen),
        this.get_type_name(entity, gen),
        this.subtypes(entity, gen),
        this.validation(entity, gen)
    )
}

pub fn tuple_subtypes(this: &DefaultTupleStructGen, entity: &TupleStruct, gen: &Generator) -> String {
    gen.base().join_subtypes(&entity.subtypes, gen)
}

pub fn tuple_get_type_name(this: &DefaultTupleStructGen, entity: &TupleStruct, gen: &Generator) -> String {
    let plain = gen.base().format_type_name(&entity.type_name, gen);
    gen.base().modify_type(&plain, &entity.type_modifiers).to_string()
}

pub fn tuple_get_name(this: &DefaultTupleStructGen, entity: &TupleStruct, gen: &Generator) -> String {
    gen.base().format_type_name(&entity.name, gen).to_string()
}

pub fn tuple_macros(this: &DefaultTupleStructGen, entity: &TupleStruct, gen: &Generator) -> Cow<'static, str> {
    Cow::Borrowed("#[derive(Default, Clone, PartialEq, Debug, UtilsTupleIo, UtilsDefaultSerde)]\n")
}

pub fn tuple_format_comment(this: &DefaultTupleStructGen, entity: &TupleStruct, gen: &Generator) -> String {
    gen.base().format_comment(entity.comment.as_deref(), 0)
}

pub fn tuple_validation(this: &DefaultTupleStructGen, entity: &TupleStruct, gen: &Generator) -> Cow<'static, str> {
    let ty = this.get_type_name(entity, gen);
    let mut body = String::new();
    for f in &entity.facets {
        body += &check(&f.facet_type, &ty);
    }
    let name = this.get_name(entity, gen);
    Cow::Owned(if body.is_empty() {
        format!("impl Validate for {} {{}}", name)
    } else {
        format!(
            "impl Validate for {} {{\n    fn validate(&self) -> Result<(), String> {{ {}\n        Ok(())\n    }}\n}}\n",
            name, body
        )
    })
}

/// The text of the check a facet stands for.
fn check(f: &FacetType, ty: &str) -> String {
    match f {
        FacetType::MaxExclusive(v) => bound("MaxExclusive", ">=", "<", v, ty),
        FacetType::MaxInclusive(v) => bound("MaxInclusive", ">", "<=", v, ty),
        FacetType::MinExclusive(v) => bound("MinExclusive", "<=", ">", v, ty),
        FacetType::MinInclusive(v) => bound("MinInclusive", "<", ">=", v, ty),
        FacetType::Length(v) => {
            let n: u32 = v.parse().unwrap();
            length("", "Length", ".", "!=", "==", n)
        }
        FacetType::MaxLength(v) => {
            let n: u32 = v.parse().unwrap();
            length("", "MaxLength", ".", ">", "<=", n)
        }
        FacetType::MinLength(v) => {
            let n: u32 = v.parse().unwrap();
            if n == 0 {
                String::new()
            } else {
                length("\n        #[allow(clippy::len_zero)]", "MinLength", ".", "<", ">=", n)
            }
        }
        _ => String::new(),
    }
}

fn bound(facet: &str, reject: &str, accept: &str, v: &str, ty: &str) -> String {
    format!(
        "\n        if self.0 {} \"{}\".parse::<{}>().unwrap() {{\n            return Err(format!(\"{} validation error: invalid value of 0! \\nExpected: 0 {} {}.\\nActual: 0 == {{}}\", self.0));\n        }}",
        reject, v, ty, facet, accept, v
    )
}

fn length(before: &str, facet: &str, dot: &str, reject: &str, accept: &str, n: u32) -> String {
    format!(
        "{}\n        if self.0.len() {} {} {{\n            return Err(format!(\"{} validation error{} \\nExpected: 0 length {} {} \\nActual: 0 length == {{}}\", self.0.len()));\n        }}",
        before, reject, n, facet, dot, accept, n
    )
}

// ---------------------------------------------------------------- aliases, imports

pub fn alias_generate(this: &DefaultAliasGen, entity: &Alias, gen: &Generator) -> String {
    format!(
        "//{} pub type {} = {};\n",
        this.format_comment(entity.comment.as_deref(), gen),
        this.format_name(&entity.name, gen),
        this.format_original_type(&entity.original, gen)
    )
}

pub fn alias_format_comment(this: &DefaultAliasGen, comment: Option<&str>, gen: &Generator) -> String {
    gen.base().format_comment(comment, 0)
}

pub fn alias_format_name(this: &DefaultAliasGen, name: &str, gen: &Generator) -> String {
    gen.base().format_type_name(name, gen).to_string()
}

pub fn alias_format_original_type(this: &DefaultAliasGen, name: &str, gen: &Generator) -> String {
    gen.base().format_type_name(name, gen).to_string()
}

pub fn import_generate(this: &DefaultImportGen, entity: &Import, gen: &Generator) -> String {
    format!("//use {}  {};\n", entity.location, entity.name)
}

// ---------------------------------------------------------------- files

pub fn file<'input>(gen: &Generator<'input>, schema: &RsFile<'input>) -> String {
    *gen.target_ns.borrow_mut() = schema.target_ns.clone();
    *gen.xsd_ns.borrow_mut() = schema.xsd_ns.clone();
    let mut out = String::new();
    for t in &schema.types {
        out += &gen.generate(t);
    }
    out
}

pub fn dispatch(gen: &Generator, entity: &RsEntity) -> String {
    match entity {
        RsEntity::Struct(e) => gen.struct_gen.as_ref().unwrap().generate(e, gen),
        RsEntity::StructField(e) => gen.struct_field_gen.as_ref().unwrap().generate(e, gen),
        RsEntity::TupleStruct(e) => gen.tuple_struct_gen.as_ref().unwrap().generate(e, gen),
        RsEntity::Enum(e) => gen.enum_gen.as_ref().unwrap().generate(e, gen),
        RsEntity::EnumCase(e) => gen.enum_case_gen.as_ref().unwrap().generate(e, gen),
        RsEntity::Alias(e) => gen.alias_gen.as_ref().unwrap().generate(e, gen),
        RsEntity::Import(e) => gen.import_gen.as_ref().unwrap().generate(e, gen),
    }
}

pub fn base<'a>(gen: &'a Generator) -> &'a dyn BaseGenerator {
    gen.base.as_ref().unwrap().as_ref()
}

pub fn struct_field_gen<'a>(gen: &'a Generator) -> &'a dyn StructFieldGenerator {
    gen.struct_field_gen.as_ref().unwrap().as_ref()
}

pub fn enum_case_gen<'a>(gen: &'a Generator) -> &'a dyn EnumCaseGenerator {
    gen.enum_case_gen.as_ref().unwrap().as_ref()
}
