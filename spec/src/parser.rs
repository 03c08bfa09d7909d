//! What reading one schema node must produce.
use std::cell::RefCell;

use roxmltree::Node;
use xsd_parser::parser::types::*;
use xsd_parser::parser::xsd_elements::{FacetType, WhiteSpace};

use crate::{any, open};

/// Stands for the repository's own dispatcher: reading a nested node.
pub fn parse_node(_node: &Node, _parent: &Node) -> RsEntity {
    loop {}
}

pub fn tag<'a>(n: &Node<'a, '_>) -> &'a str {
    n.tag_name().name()
}

fn doc(n: &Node) -> Option<String> {
    let a = n.children().find(|c| tag(c) == "annotation")?;
    let d = a.children().find(|c| tag(c) == "documentation")?;
    d.text().map(|t| t.to_string())
}

/// The name of the closest enclosing named declaration.
pub fn enclosing_name<'a>(n: &Node<'a, '_>) -> &'a str {
    match n.parent_element() {
        None => any(),
        Some(p) => {
            if tag(&p) == "schema" {
                return any();
            }
            match p.attribute("name") {
                Some(name) => name,
                None => enclosing_name(&p),
            }
        }
    }
}

fn is_attribute(n: &Node) -> bool {
    tag(n) == "attribute" || tag(n) == "anyAttribute"
}

fn attributes(n: &Node) -> Vec<StructField> {
    n.children()
        .filter(|c| is_attribute(c))
        .map(|c| match parse_node(&c, n) {
            RsEntity::StructField(f) => f,
            _ => open(),
        })
        .collect()
}

fn groups(n: &Node) -> Vec<Alias> {
    n.children()
        .filter(|c| tag(c) == "attributeGroup")
        .map(|c| match parse_node(&c, n) {
            RsEntity::Alias(a) => a,
            _ => open(),
        })
        .collect()
}

fn choice_field(name: String, mut en: Enum) -> StructField {
    en.name = name.clone();
    let source = match en.source {
        EnumSource::Choice => StructFieldSource::Choice,
        _ => StructFieldSource::Element,
    };
    StructField {
        name: name.clone(),
        type_name: name,
        comment: None,
        subtypes: vec![RsEntity::Enum(en)],
        source,
        type_modifiers: vec![],
    }
}

// ---------------------------------------------------------------- element

fn min_occurs(n: &Node) -> usize {
    match n.attribute("minOccurs") {
        Some(s) => match s.parse::<usize>() {
            Ok(v) => v,
            Err(_) => 1,
        },
        None => 1,
    }
}

/// maxOccurs: None when absent or unreadable, Some(None) when unbounded
fn max_occurs(n: &Node) -> Option<Option<usize>> {
    match n.attribute("maxOccurs") {
        Some("unbounded") => Some(None),
        Some(s) => match s.parse::<usize>() {
            Ok(v) => Some(Some(v)),
            Err(_) => None,
        },
        None => None,
    }
}

pub fn occurrence(n: &Node) -> TypeModifier {
    let min = min_occurs(n);
    let many = match max_occurs(n) {
        Some(None) => true,
        Some(Some(v)) => v > 1,
        None => false,
    };
    if min > 1 || many {
        TypeModifier::Array
    } else if min == 0 {
        TypeModifier::Option
    } else {
        TypeModifier::None
    }
}

pub fn element(node: &Node, parent: &Node) -> RsEntity {
    match tag(parent) {
        "schema" => global_element(node),
        "sequence" | "all" => field(node),
        "choice" => case(node),
        _ => any(),
    }
}

fn inner_type<'a, 'i>(node: &Node<'a, 'i>) -> Option<Node<'a, 'i>> {
    node.children().filter(|c| tag(c) == "simpleType" || tag(c) == "complexType").last()
}

fn global_element(node: &Node) -> RsEntity {
    let name = match node.attribute("name") {
        Some(n) => n,
        None => open(),
    };
    if let Some(ty) = node.attribute("type") {
        return RsEntity::Alias(Alias {
            name: name.to_string(),
            original: ty.to_string(),
            comment: doc(node),
            subtypes: vec![],
        });
    }
    match inner_type(node) {
        Some(c) => {
            let mut e = parse_node(&c, node);
            e.set_name(name);
            if let Some(d) = doc(node) {
                e.set_comment(Some(d));
            }
            e
        }
        None => RsEntity::Struct(Struct {
            name: name.to_string(),
            comment: doc(node),
            fields: RefCell::new(vec![]),
            attribute_groups: RefCell::new(vec![]),
            subtypes: vec![],
        }),
    }
}

fn field(node: &Node) -> RsEntity {
    let name: String = match node.attribute("name") {
        Some(n) => n.to_string(),
        None => match node.attribute("ref") {
            Some(r) => r.to_string(),
            None => any(),
        },
    };
    let ty = match node.attribute("type") {
        Some(t) => Some(t),
        None => node.attribute("ref"),
    };
    if let Some(t) = ty {
        return RsEntity::StructField(StructField {
            name,
            type_name: t.to_string(),
            comment: doc(node),
            subtypes: vec![],
            source: StructFieldSource::Element,
            type_modifiers: vec![occurrence(node)],
        });
    }
    let c = match inner_type(node) {
        Some(c) => c,
        None => open(),
    };
    let mut e = parse_node(&c, node);
    e.set_name(&format!("{}Type", name));
    RsEntity::StructField(StructField {
        name,
        type_name: e.name().to_string(),
        comment: doc(node),
        subtypes: vec![e],
        source: StructFieldSource::Element,
        type_modifiers: vec![occurrence(node)],
    })
}

fn case(node: &Node) -> RsEntity {
    let (name, ty): (String, Option<String>) = match node.attribute("ref") {
        Some(r) => (r.to_string(), Some(r.to_string())),
        None => (
            match node.attribute("name") {
                Some(n) => n.to_string(),
                None => any(),
            },
            node.attribute("type").map(|t| t.to_string()),
        ),
    };
    RsEntity::EnumCase(EnumCase {
        name,
        comment: doc(node),
        value: any(),
        type_name: ty,
        type_modifiers: vec![occurrence(node)],
        source: EnumSource::Choice,
    })
}

// ---------------------------------------------------------------- attributes

pub fn attribute(node: &Node, parent: &Node) -> RsEntity {
    if tag(parent) == "schema" {
        return global_attribute(node);
    }
    let name = match node.attribute("name") {
        Some(n) => n,
        None => match node.attribute("ref") {
            Some(r) => r,
            None => open(),
        },
    };
    let ty = match node.attribute("type") {
        Some(t) => t,
        None => match node.attribute("ref") {
            Some(r) => r,
            None => "String",
        },
    };
    let modifier = match node.attribute("use") {
        None => TypeModifier::Option,
        Some("optional") => TypeModifier::Option,
        Some("required") => TypeModifier::None,
        Some("prohibited") => TypeModifier::Empty,
        Some(_) => open(),
    };
    RsEntity::StructField(StructField {
        name: name.to_string(),
        type_name: ty.to_string(),
        comment: doc(node),
        subtypes: vec![],
        source: StructFieldSource::Attribute,
        type_modifiers: vec![modifier],
    })
}

fn global_attribute(node: &Node) -> RsEntity {
    if let Some(r) = node.attribute("ref") {
        return RsEntity::Alias(Alias {
            name: r.to_string(),
            original: r.to_string(),
            comment: doc(node),
            subtypes: vec![],
        });
    }
    let name = match node.attribute("name") {
        Some(n) => n,
        None => open(),
    };
    if let Some(t) = node.attribute("type") {
        return RsEntity::Alias(Alias {
            name: name.to_string(),
            original: t.to_string(),
            comment: doc(node),
            subtypes: vec![],
        });
    }
    match node.children().filter(|c| tag(c) == "simpleType").last() {
        Some(c) => {
            let mut e = parse_node(&c, node);
            e.set_name(name);
            if let Some(d) = doc(node) {
                e.set_comment(Some(d));
            }
            e
        }
        None => RsEntity::Struct(Struct {
            name: name.to_string(),
            comment: doc(node),
            fields: RefCell::new(vec![]),
            attribute_groups: RefCell::new(vec![]),
            subtypes: vec![],
        }),
    }
}

pub fn any_attribute(node: &Node, _parent: &Node) -> RsEntity {
    RsEntity::StructField(StructField {
        name: any(),
        type_name: any(),
        comment: doc(node),
        subtypes: vec![],
        source: StructFieldSource::Attribute,
        type_modifiers: vec![TypeModifier::Empty],
    })
}

pub fn any_element(node: &Node, _parent: &Node) -> RsEntity {
    RsEntity::StructField(StructField {
        name: any(),
        type_name: any(),
        comment: doc(node),
        subtypes: vec![],
        source: StructFieldSource::Element,
        type_modifiers: vec![TypeModifier::Empty],
    })
}

pub fn attribute_group(node: &Node, parent: &Node) -> RsEntity {
    if tag(parent) == "schema" {
        let name = match node.attribute("name") {
            Some(n) => n,
            None => open(),
        };
        return RsEntity::Struct(Struct {
            name: name.to_string(),
            comment: any(),
            fields: RefCell::new(attributes(node)),
            attribute_groups: any(),
            subtypes: any(),
        });
    }
    let r = match node.attribute("ref") {
        Some(r) => r,
        None => open(),
    };
    RsEntity::Alias(Alias {
        name: r.to_string(),
        original: r.to_string(),
        comment: doc(node),
        subtypes: vec![],
    })
}

// ---------------------------------------------------------------- content models

/// sequence and all
pub fn group_content(node: &Node, parent: &Node) -> RsEntity {
    let name = enclosing_name(node);
    let fields = node
        .children()
        .filter(|c| c.is_element() && tag(c) != "annotation")
        .map(|c| match parse_node(&c, node) {
            RsEntity::StructField(mut f) => {
                if f.type_name.split(':').last() == Some(name) {
                    f.type_modifiers.push(TypeModifier::Recursive);
                }
                f
            }
            RsEntity::Enum(en) => choice_field(format!("{}Choice", name), en),
            _ => open(),
        })
        .collect();
    RsEntity::Struct(Struct {
        name: name.to_string(),
        comment: doc(parent),
        fields: RefCell::new(fields),
        attribute_groups: RefCell::new(vec![]),
        subtypes: vec![],
    })
}

pub fn choice(node: &Node, _parent: &Node) -> RsEntity {
    let cases = node
        .children()
        .filter(|c| tag(c) == "element")
        .map(|c| match parse_node(&c, node) {
            RsEntity::EnumCase(c) => c,
            _ => open(),
        })
        .collect();
    RsEntity::Enum(Enum {
        name: any(),
        cases,
        comment: None,
        type_name: "String".to_string(),
        subtypes: vec![],
        source: EnumSource::Choice,
    })
}

// ---------------------------------------------------------------- complex types

fn has_elements(n: &Node) -> bool {
    n.children().any(|c| c.is_element())
}

pub fn complex_type(node: &Node, parent: &Node) -> RsEntity {
    let name: &str = if tag(parent) == "schema" {
        match node.attribute("name") {
            Some(n) => n,
            None => open(),
        }
    } else {
        enclosing_name(node)
    };
    let content = node
        .children()
        .filter(|c| {
            matches!(
                tag(c),
                "all" | "choice" | "complexContent" | "group" | "sequence" | "simpleContent"
            )
        })
        .last();
    let mut own = attributes(node);
    let plain = match content {
        Some(c) => !has_elements(&c),
        None => true,
    };
    if plain {
        return RsEntity::Struct(Struct {
            name: name.to_string(),
            comment: doc(node),
            fields: RefCell::new(own),
            attribute_groups: RefCell::new(groups(node)),
            subtypes: vec![],
        });
    }
    match parse_node(&content.unwrap(), node) {
        RsEntity::Struct(s) => {
            let mut fields = s.fields.into_inner();
            fields.append(&mut own);
            let mut gs = s.attribute_groups.into_inner();
            gs.append(&mut groups(node));
            RsEntity::Struct(Struct {
                name: name.to_string(),
                comment: match doc(node) {
                    Some(d) => Some(d),
                    None => s.comment,
                },
                fields: RefCell::new(fields),
                attribute_groups: RefCell::new(gs),
                subtypes: s.subtypes,
            })
        }
        RsEntity::Enum(en) => {
            let choice = format!("{}Choice", name);
            own.push(StructField {
                name: choice.clone(),
                type_name: choice.clone(),
                comment: None,
                subtypes: vec![],
                source: StructFieldSource::Choice,
                type_modifiers: vec![],
            });
            RsEntity::Enum(Enum {
                name: choice,
                cases: en.cases,
                comment: en.comment,
                type_name: en.type_name,
                subtypes: vec![RsEntity::Struct(Struct {
                    name: name.to_string(),
                    comment: doc(node),
                    fields: RefCell::new(own),
                    attribute_groups: RefCell::new(groups(node)),
                    subtypes: vec![],
                })],
                source: en.source,
            })
        }
        other => any(),
    }
}

/// complexContent and simpleContent
pub fn content(node: &Node, _parent: &Node) -> RsEntity {
    match node.children().filter(|c| c.is_element() && tag(c) != "annotation").last() {
        Some(c) => parse_node(&c, node),
        None => open(),
    }
}

fn base_field(node: &Node) -> StructField {
    StructField {
        name: "__base__".to_string(),
        type_name: match node.attribute("base") {
            Some(b) => b.to_string(),
            None => open(),
        },
        comment: any(),
        subtypes: vec![],
        source: StructFieldSource::Base,
        type_modifiers: vec![],
    }
}

/// extension and restriction
pub fn derivation(node: &Node, _parent: &Node) -> RsEntity {
    match node.parent_element() {
        None => open(),
        Some(p) => match (tag(node), tag(&p)) {
            (_, "complexContent") => complex_derivation(node),
            ("extension", "simpleContent") => simple_extension(node),
            ("restriction", "simpleType") => simple_restriction(node),
            _ => open(),
        },
    }
}

fn simple_extension(node: &Node) -> RsEntity {
    let mut fields = attributes(node);
    fields.push(base_field(node));
    RsEntity::Struct(Struct {
        name: any(),
        comment: doc(node),
        fields: RefCell::new(fields),
        attribute_groups: RefCell::new(groups(node)),
        subtypes: vec![],
    })
}

fn complex_derivation(node: &Node) -> RsEntity {
    let mut own = attributes(node);
    own.push(base_field(node));
    let content = node
        .children()
        .filter(|c| matches!(tag(c), "all" | "choice" | "group" | "sequence"))
        .last();
    match content {
        None => (),
        Some(c) => match parse_node(&c, node) {
            RsEntity::Struct(s) => {
                let mut fields = s.fields.into_inner();
                fields.append(&mut own);
                let mut gs = s.attribute_groups.into_inner();
                gs.append(&mut groups(node));
                return RsEntity::Struct(Struct {
                    name: any(),
                    comment: doc(node),
                    fields: RefCell::new(fields),
                    attribute_groups: RefCell::new(gs),
                    subtypes: s.subtypes,
                });
            }
            RsEntity::Enum(en) => {
                own.push(choice_field(format!("{}Choice", enclosing_name(node)), en));
            }
            _ => return any(),
        },
    }
    RsEntity::Struct(Struct {
        name: any(),
        comment: doc(node),
        fields: RefCell::new(own),
        attribute_groups: RefCell::new(groups(node)),
        subtypes: vec![],
    })
}

// ---------------------------------------------------------------- simple types

fn value(n: &Node) -> String {
    match n.attribute("value") {
        Some(v) => v.to_string(),
        None => open(),
    }
}

pub fn facet(n: &Node) -> Option<FacetType> {
    Some(match tag(n) {
        "enumeration" => FacetType::Enumeration(value(n)),
        "fractionDigits" => FacetType::FractionDigits(value(n)),
        "length" => FacetType::Length(value(n)),
        "maxExclusive" => FacetType::MaxExclusive(value(n)),
        "maxInclusive" => FacetType::MaxInclusive(value(n)),
        "maxLength" => FacetType::MaxLength(value(n)),
        "minExclusive" => FacetType::MinExclusive(value(n)),
        "minInclusive" => FacetType::MinInclusive(value(n)),
        "minLength" => FacetType::MinLength(value(n)),
        "pattern" => FacetType::Pattern(value(n)),
        "totalDigits" => FacetType::TotalDigits(value(n)),
        "whiteSpace" => FacetType::WhiteSpace(match n.attribute("value") {
            Some("preserve") => WhiteSpace::Preserve,
            Some("replace") => WhiteSpace::Replace,
            Some("collapse") => WhiteSpace::Collapse,
            _ => open(),
        }),
        _ => return None,
    })
}

fn is_word(s: &str) -> bool {
    !s.is_empty() && s.chars().all(|c| c.is_alphanumeric() || c == '-')
}

fn simple_restriction(node: &Node) -> RsEntity {
    let base = match node.attribute("base") {
        Some(b) => b,
        None => open(),
    };
    let plain = node
        .children()
        .filter(|c| tag(c) == "enumeration")
        .all(|c| match c.attribute("value") {
            Some(v) => is_word(v),
            None => open(),
        });
    let some = node.children().any(|c| tag(&c) == "enumeration");
    if plain && some {
        return RsEntity::Enum(Enum {
            name: format!("{}Enum", enclosing_name(node)),
            cases: node
                .children()
                .filter(|c| tag(c) == "enumeration")
                .map(|c| EnumCase {
                    name: value(&c),
                    comment: doc(&c),
                    value: value(&c),
                    type_name: None,
                    type_modifiers: vec![],
                    source: EnumSource::Restriction,
                })
                .collect(),
            comment: None,
            type_name: base.to_string(),
            subtypes: vec![],
            source: EnumSource::Restriction,
        });
    }
    RsEntity::TupleStruct(TupleStruct {
        name: any(),
        comment: None,
        type_name: base.to_string(),
        subtypes: vec![],
        type_modifiers: vec![],
        facets: node
            .children()
            .filter_map(|c| match facet(&c) {
                Some(f) => Some(Facet { facet_type: f, comment: doc(&c) }),
                None => None,
            })
            .collect(),
    })
}

pub fn simple_type(node: &Node, parent: &Node) -> RsEntity {
    let name = node.attribute("name");
    if (tag(parent) == "schema") != name.is_some() {
        open();
    }
    let c = match node.children().filter(|c| c.is_element() && tag(c) != "annotation").last() {
        Some(c) => c,
        None => open(),
    };
    let mut e = parse_node(&c, node);
    if let Some(n) = name {
        e.set_name(n);
    }
    e.set_comment(doc(node));
    e
}

pub fn list(node: &Node, _parent: &Node) -> RsEntity {
    match node.attribute("itemType") {
        Some(t) => RsEntity::TupleStruct(TupleStruct {
            name: any(),
            comment: None,
            type_name: t.to_string(),
            subtypes: vec![],
            type_modifiers: vec![TypeModifier::Array],
            facets: vec![],
        }),
        None => {
            let c = match node.children().find(|c| tag(c) == "simpleType") {
                Some(c) => c,
                None => open(),
            };
            match parse_node(&c, node) {
                RsEntity::Enum(en) => RsEntity::TupleStruct(TupleStruct {
                    name: any(),
                    comment: None,
                    type_name: en.name.clone(),
                    subtypes: vec![RsEntity::Enum(en)],
                    type_modifiers: vec![TypeModifier::Array],
                    facets: vec![],
                }),
                RsEntity::TupleStruct(mut t) => {
                    t.type_modifiers.push(TypeModifier::Array);
                    RsEntity::TupleStruct(t)
                }
                _ => open(),
            }
        }
    }
}

pub fn union(node: &Node, _parent: &Node) -> RsEntity {
    let mut cases: Vec<EnumCase> = match node.attribute("memberTypes") {
        Some(m) => m
            .split(' ')
            .filter(|t| !t.is_empty())
            .map(|t| EnumCase {
                name: t.to_string(),
                comment: None,
                value: any(),
                type_name: Some(t.to_string()),
                type_modifiers: vec![],
                source: EnumSource::Union,
            })
            .collect(),
        None => vec![],
    };
    let subtypes: Vec<RsEntity> = node
        .children()
        .filter(|c| tag(c) == "simpleType")
        .enumerate()
        .map(|(i, c)| {
            let mut e = parse_node(&c, node);
            e.set_name(&format!("EnumCaseType_{}", i));
            e
        })
        .collect();
    let mut nested: Vec<EnumCase> = subtypes
        .iter()
        .enumerate()
        .map(|(i, e)| EnumCase {
            name: format!("EnumCase_{}", i),
            comment: None,
            value: any(),
            type_name: Some(e.name().to_string()),
            type_modifiers: vec![],
            source: EnumSource::Union,
        })
        .collect();
    cases.append(&mut nested);
    let en = Enum {
        name: any(),
        cases,
        comment: doc(node),
        type_name: "String".to_string(),
        subtypes,
        source: EnumSource::Union,
    };
    let mut fields = attributes(node);
    if fields.is_empty() {
        RsEntity::Enum(en)
    } else {
        fields.push(choice_field(format!("{}Choice", enclosing_name(node)), en));
        RsEntity::Struct(Struct {
            name: any(),
            comment: None,
            fields: RefCell::new(fields),
            attribute_groups: RefCell::new(vec![]),
            subtypes: vec![],
        })
    }
}

pub fn import(node: &Node, _parent: &Node) -> RsEntity {
    RsEntity::Import(Import {
        name: match node.attribute("namespace") {
            Some(n) => n.to_string(),
            None => String::new(),
        },
        location: match node.attribute("schemaLocation") {
            Some(l) => l.to_string(),
            None => String::new(),
        },
        comment: None,
    })
}

// ---------------------------------------------------------------- classification

pub fn classify(n: &Node) -> xsd_parser::parser::xsd_elements::ElementType {
    use xsd_parser::parser::xsd_elements::ElementType as E;
    use xsd_parser::parser::xsd_elements::{ExtensionType, RestrictionType};
    if let Some(f) = facet(n) {
        return E::Facet(f);
    }
    match tag(n) {
        "all" => E::All,
        "annotation" => E::Annotation,
        "any" => E::Any,
        "anyAttribute" => E::AnyAttribute,
        "appInfo" => E::AppInfo,
        "attribute" => E::Attribute,
        "attributeGroup" => E::AttributeGroup,
        "choice" => E::Choice,
        "complexContent" => E::ComplexContent,
        "complexType" => E::ComplexType,
        "documentation" => E::Documentation,
        "element" => E::Element,
        "field" => E::Field,
        "group" => E::Group,
        "import" => E::Import,
        "include" => E::Include,
        "key" => E::Key,
        "keyRef" => E::KeyRef,
        "list" => E::List,
        "notation" => E::Notation,
        "redefine" => E::Redefine,
        "schema" => E::Schema,
        "selector" => E::Selector,
        "sequence" => E::Sequence,
        "simpleContent" => E::SimpleContent,
        "simpleType" => E::SimpleType,
        "union" => E::Union,
        "unique" => E::Unique,
        "extension" => match n.parent_element() {
            Some(p) => match tag(&p) {
                "complexContent" => E::Extension(ExtensionType::ComplexContent),
                "simpleContent" => E::Extension(ExtensionType::SimpleContent),
                _ => E::XsdError(any()),
            },
            None => E::XsdError(any()),
        },
        "restriction" => match n.parent_element() {
            Some(p) => match tag(&p) {
                "complexContent" => E::Restriction(RestrictionType::ComplexContent),
                "simpleContent" => E::Restriction(RestrictionType::SimpleContent),
                "simpleType" => E::Restriction(RestrictionType::SimpleType),
                _ => E::XsdError(any()),
            },
            None => E::XsdError(any()),
        },
        other => E::UnknownElement(other.to_string()),
    }
}

// ---------------------------------------------------------------- entities

pub fn name(e: &RsEntity) -> &str {
    match e {
        RsEntity::Struct(x) => &x.name,
        RsEntity::StructField(x) => &x.name,
        RsEntity::TupleStruct(x) => &x.name,
        RsEntity::Enum(x) => &x.name,
        RsEntity::EnumCase(x) => &x.name,
        RsEntity::Alias(x) => &x.name,
        RsEntity::Import(x) => &x.name,
    }
}

pub fn set_name(e: &mut RsEntity, name: &str) {
    let n = name.to_string();
    match e {
        RsEntity::Struct(x) => x.name = n,
        RsEntity::StructField(x) => x.name = n,
        RsEntity::TupleStruct(x) => x.name = n,
        RsEntity::Enum(x) => x.name = n,
        RsEntity::EnumCase(x) => x.name = n,
        RsEntity::Alias(x) => x.name = n,
        RsEntity::Import(x) => x.name = n,
    }
}

pub fn set_comment(e: &mut RsEntity, comment: Option<String>) {
    match e {
        RsEntity::Struct(x) => x.comment = comment,
        RsEntity::StructField(x) => x.comment = comment,
        RsEntity::TupleStruct(x) => x.comment = comment,
        RsEntity::Enum(x) => x.comment = comment,
        RsEntity::EnumCase(x) => x.comment = comment,
        RsEntity::Alias(x) => x.comment = comment,
        RsEntity::Import(x) => x.comment = comment,
    }
}

// ---------------------------------------------------------------- schema

const XSD: &str = "http://www.w3.org/2001/XMLSchema";

pub fn schema<'i>(node: &Node<'_, 'i>) -> RsFile<'i> {
    let target = match node.attribute("targetNamespace") {
        Some(uri) => node.namespaces().find(|n| n.uri() == uri).cloned(),
        None => None,
    };
    let xsd = match node.namespaces().find(|n| n.uri() == XSD && n.name().is_some()) {
        Some(n) => Some(n.clone()),
        None => node.namespaces().find(|n| n.uri() == XSD).cloned(),
    };
    RsFile {
        name: any(),
        namespace: any(),
        types: node
            .children()
            .filter(|c| c.is_element() && tag(c) != "annotation" && tag(c) != "attributeGroup")
            .map(|c| parse_node(&c, node))
            .collect(),
        attribute_groups: node
            .children()
            .filter(|c| tag(c) == "attributeGroup")
            .map(|c| parse_node(&c, node))
            .collect(),
        target_ns: target,
        xsd_ns: xsd,
    }
}

// ---------------------------------------------------------------- resolution of bases and groups

use std::collections::HashMap;

/// stands for the method of the same name
pub fn extend_base(_s: &Struct, _types: &HashMap<&String, &Struct>) {
    loop {}
}

pub fn extend_attribute_group(_s: &Struct, _types: &HashMap<&String, &Struct>) {
    loop {}
}

pub fn structs(_e: &RsEntity) -> Vec<&Struct> {
    loop {}
}

pub fn types_map(_s: &Struct) -> HashMap<&String, &Struct> {
    loop {}
}

pub fn read_schema<'i>(_n: &Node<'_, 'i>) -> RsFile<'i> {
    loop {}
}

fn local(name: &str) -> &str {
    name.split(':').last().unwrap()
}

pub fn structs_spec(e: &RsEntity) -> Vec<&Struct> {
    match e {
        RsEntity::Struct(s) => vec![s],
        RsEntity::Enum(en) => en.subtypes.iter().flat_map(|t| structs(t)).collect(),
        _ => vec![],
    }
}

pub fn types_map_spec(s: &Struct) -> HashMap<&String, &Struct> {
    let mut m = HashMap::new();
    m.insert(&s.name, s);
    for t in &s.subtypes {
        if let RsEntity::Struct(n) = t {
            m.extend(types_map(n));
        }
    }
    m
}

fn nested_base(subtypes: &[RsEntity], types: &HashMap<&String, &Struct>) {
    for t in subtypes {
        for s in structs(t) {
            extend_base(s, types);
        }
    }
}

pub fn extend_base_spec(s: &Struct, types: &HashMap<&String, &Struct>) {
    let bases: Vec<String> = s
        .fields
        .borrow()
        .iter()
        .filter(|f| f.name == "__base__")
        .map(|f| local(&f.type_name).to_string())
        .collect();
    if !bases.is_empty() {
        s.fields.borrow_mut().retain(|f| f.name != "__base__");
    }
    for key in bases.iter() {
        if let Some(base) = types.get(key) {
            extend_base(base, types);
            let mut inherited: Vec<StructField> = base
                .fields
                .borrow()
                .iter()
                .filter(|f| s.fields.borrow().iter().all(|own| own.name != f.name))
                .cloned()
                .collect();
            s.fields.borrow_mut().append(&mut inherited);
        }
    }
    for f in s.fields.borrow().iter() {
        nested_base(&f.subtypes, types);
    }
    nested_base(&s.subtypes, types);
}

fn nested_groups(subtypes: &[RsEntity], types: &HashMap<&String, &Struct>) {
    for t in subtypes {
        for s in structs(t) {
            extend_attribute_group(s, types);
        }
    }
}

pub fn extend_attribute_group_spec(s: &Struct, types: &HashMap<&String, &Struct>) {
    let mut fields: Vec<StructField> = s
        .attribute_groups
        .borrow()
        .iter()
        .flat_map(|g| match types.get(&local(&g.original).to_string()) {
            Some(g) => g.fields.borrow().clone(),
            None => vec![],
        })
        .collect();
    s.fields.borrow_mut().append(&mut fields);
    for f in s.fields.borrow().iter() {
        nested_groups(&f.subtypes, types);
    }
    nested_groups(&s.subtypes, types);
}

pub fn parse(text: &str) -> Result<RsFile, ()> {
    let doc = match roxmltree::Document::parse(text) {
        Ok(d) => d,
        Err(_) => return Err(()),
    };
    let root = doc.root();
    let node = match root.children().filter(|c| c.is_element()).last() {
        Some(n) => n,
        None => open(),
    };
    let file = read_schema(&node);
    let mut map = HashMap::new();
    for t in &file.types {
        for s in structs(t) {
            map.extend(types_map(s));
        }
    }
    let mut groups = HashMap::new();
    for g in &file.attribute_groups {
        if let RsEntity::Struct(s) = g {
            groups.extend(types_map(s));
        }
    }
    for t in &file.types {
        for s in structs(t) {
            extend_attribute_group(s, &groups);
        }
    }
    for t in &file.types {
        for s in structs(t) {
            extend_base(s, &map);
        }
    }
    Ok(file)
}

// ---------------------------------------------------------------- what the reader does not do (known findings)

/// every member of a choice is a case, nested groups and wildcards included
pub fn choice_members(node: &Node, _parent: &Node) -> RsEntity {
    let cases = node
        .children()
        .filter(|c| matches!(tag(c), "element" | "sequence" | "choice" | "any" | "group"))
        .map(|_| any())
        .collect();
    RsEntity::Enum(Enum {
        name: any(),
        cases,
        comment: any(),
        type_name: any(),
        subtypes: any(),
        source: any(),
    })
}

/// a global attribute group keeps its references to other groups
pub fn nested_attribute_groups(node: &Node, parent: &Node) -> RsEntity {
    if tag(parent) != "schema" || node.attribute("name").is_none() {
        open()
    }
    RsEntity::Struct(Struct {
        name: any(),
        comment: any(),
        fields: any(),
        attribute_groups: RefCell::new(groups(node)),
        subtypes: any(),
    })
}
