//! Reference functions for the service-description parser and generator.  Nothing in this crate is ever executed:
//! it is type-checked next to the repository's crates and summarised by the same analysis.
#![allow(clippy::all, unused, unconditional_recursion)]
use std::collections::HashMap;

use inflector::cases::{pascalcase::to_pascal_case, snakecase::to_snake_case};
use roxmltree::{Namespace, Node};
use wsdl_parser::generator::function::*;
use wsdl_parser::parser::{binding, definitions::*, message::*, port_type::*, types::*};

/// A value the specification leaves open.
pub fn any<T>() -> T {
    loop {}
}

/// The specification says nothing about this input.
pub fn open() -> ! {
    panic!()
}

// ---------------------------------------------------------------- reading: what the accessors show

pub enum Kind {
    RequestResponse(String, String, Vec<String>),
    OneWay(String),
    SolicitResponse(String, String, Vec<String>),
    Notification(String),
}

/// what the repository's reader makes of an operation
pub fn code_kind<'a>(node: &Node<'a, 'a>) -> Kind {
    kind(&OperationType::new(node))
}

fn kind(t: &OperationType) -> Kind {
    match t {
        OperationType::RequestResponse { input, output, faults } => {
            Kind::RequestResponse(input.message().to_string(), output.message().to_string(), faults.iter().map(|f| f.message().to_string()).collect())
        }
        OperationType::OneWay { input } => Kind::OneWay(input.message().to_string()),
        OperationType::SolicitResponse { output, input, faults } => {
            Kind::SolicitResponse(output.message().to_string(), input.message().to_string(), faults.iter().map(|f| f.message().to_string()).collect())
        }
        OperationType::Notification { output } => Kind::Notification(output.message().to_string()),
    }
}

pub fn want_kind<'a>(node: &Node<'a, 'a>) -> Kind {
    let mut rest = node.children().filter(|n| n.is_element());
    loop {
        let first = match rest.next() {
            Some(n) => n,
            None => open(),
        };
        let incoming = match first.tag_name().name() {
            "input" => true,
            "output" => false,
            _ => continue,
        };
        let answer = match rest.next() {
            Some(n) => n,
            None if incoming => return Kind::OneWay(message(&first).to_string()),
            None => return Kind::Notification(message(&first).to_string()),
        };
        if answer.tag_name().name() != (if incoming { "output" } else { "input" }) {
            open();
        }
        let faults = rest.filter(|n| n.tag_name().name() == "fault").map(|n| n.attribute("message").unwrap().to_string()).collect();
        return if incoming {
            Kind::RequestResponse(message(&first).to_string(), message(&answer).to_string(), faults)
        } else {
            Kind::SolicitResponse(message(&first).to_string(), message(&answer).to_string(), faults)
        };
    }
}

fn message<'a>(n: &Node<'a, 'a>) -> &'a str {
    match n.attribute("message") {
        Some(m) => m,
        None => open(),
    }
}

pub fn code_operation<'a>(node: &Node<'a, 'a>) -> (&'a str, Option<&'a str>) {
    let o = Operation::new(node);
    (o.name(), o.documentation())
}

pub fn want_operation<'a>(node: &Node<'a, 'a>) -> (&'a str, Option<&'a str>) {
    let name = match node.attribute("name") {
        Some(n) => n,
        None => open(),
    };
    for n in node.children() {
        if n.tag_name().name() == "documentation" {
            if let Some(t) = n.text() {
                return (name, Some(t));
            }
        }
    }
    (name, None)
}

/// the message references of an operation are those of its own type
pub fn code_operation_kind<'a>(node: &Node<'a, 'a>) -> Kind {
    let o = Operation::new(node);
    kind(o.operation_type())
}

pub fn want_operation_kind<'a>(node: &Node<'a, 'a>) -> Kind {
    want_kind(node)
}

pub fn code_part<'a>(node: &Node<'a, 'a>) -> (Option<&'a str>, Option<&'a str>) {
    let p = Part::new(node);
    (p.element(), p.type_())
}

pub fn want_part<'a>(node: &Node<'a, 'a>) -> (Option<&'a str>, Option<&'a str>) {
    (node.attribute("element"), node.attribute("type"))
}

pub fn code_part_name<'a>(node: &Node<'a, 'a>) -> &'a str {
    Part::new(node).name()
}

pub fn want_part_name<'a>(node: &Node<'a, 'a>) -> &'a str {
    node.attribute("name").unwrap()
}

pub fn code_message<'a>(node: &Node<'a, 'a>) -> (&'a str, Vec<Part<'a>>) {
    let m = Message::new(node);
    (m.name(), m.parts().to_vec())
}

pub fn want_message<'a>(node: &Node<'a, 'a>) -> (&'a str, Vec<Part<'a>>) {
    let mut parts = Vec::new();
    for n in node.children() {
        if n.is_element() && n.tag_name().name() == "part" {
            parts.push(Part::new(&n));
        }
    }
    (node.attribute("name").unwrap(), parts)
}

/// the operations of a port type: name, documentation and kind of each, in order
pub fn code_port_type<'a>(node: &Node<'a, 'a>) -> (String, Vec<(String, Option<String>, Kind)>) {
    let p = PortType::new(node);
    let mut ops = Vec::new();
    for o in p.operations() {
        ops.push((o.name().to_string(), o.documentation().map(|d| d.to_string()), kind(o.operation_type())));
    }
    (p.name().to_string(), ops)
}

pub fn want_port_type<'a>(node: &Node<'a, 'a>) -> (String, Vec<(String, Option<String>, Kind)>) {
    let mut ops = Vec::new();
    for n in node.children() {
        if n.is_element() && n.tag_name().name() == "operation" {
            let (name, doc) = want_operation(&n);
            ops.push((name.to_string(), doc.map(|d| d.to_string()), want_kind(&n)));
        }
    }
    let name = node.attribute("name").unwrap();
    (name.to_string(), ops)
}

pub fn code_import<'a>(node: &Node<'a, 'a>) -> (&'a str, &'a str) {
    let i = Import::new(node);
    (i.namespace(), i.location())
}

pub fn want_import<'a>(node: &Node<'a, 'a>) -> (&'a str, &'a str) {
    (node.attribute("namespace").unwrap(), node.attribute("location").unwrap())
}

/// every declaration is kept under its own key; a second one with the same key is refused
pub fn code_imports<'a>(node: &Node<'a, 'a>) -> HashMap<&'a str, Import<'a>> {
    Definitions::new(node).imports().clone()
}

pub fn want_imports<'a>(node: &Node<'a, 'a>) -> HashMap<&'a str, Import<'a>> {
    let mut all = HashMap::new();
    for n in node.children() {
        if n.is_element() && n.tag_name().name() == "import" {
            if all.insert(n.attribute("namespace").unwrap(), Import::new(&n)).is_some() {
                open();
            }
        }
    }
    all
}

pub fn code_messages<'a>(node: &Node<'a, 'a>) -> HashMap<&'a str, Message<'a>> {
    Definitions::new(node).messages().clone()
}

pub fn want_messages<'a>(node: &Node<'a, 'a>) -> HashMap<&'a str, Message<'a>> {
    let mut all = HashMap::new();
    for n in node.children() {
        if n.is_element() && n.tag_name().name() == "message" {
            if all.insert(n.attribute("name").unwrap(), Message::new(&n)).is_some() {
                open();
            }
        }
    }
    all
}

pub fn code_port_types<'a>(node: &Node<'a, 'a>) -> HashMap<&'a str, PortType<'a>> {
    Definitions::new(node).port_types().clone()
}

pub fn want_port_types<'a>(node: &Node<'a, 'a>) -> HashMap<&'a str, PortType<'a>> {
    let mut all = HashMap::new();
    for n in node.children() {
        if n.is_element() && n.tag_name().name() == "portType" {
            if all.insert(n.attribute("name").unwrap(), PortType::new(&n)).is_some() {
                open();
            }
        }
    }
    all
}

pub fn want_bindings<'a>(node: &Node<'a, 'a>) -> HashMap<&'a str, binding::Binding<'a>> {
    let mut all = HashMap::new();
    for n in node.children() {
        if n.is_element() && n.tag_name().name() == "binding" {
            if all.insert(n.attribute("name").unwrap(), binding::Binding::new(&n)).is_some() {
                open();
            }
        }
    }
    all
}

/// the schemas of the types sections, in order
pub fn code_types<'a>(node: &Node<'a, 'a>) -> Vec<Vec<String>> {
    let d = Definitions::new(node);
    d.types().iter().map(|t| t.schemas().iter().map(|s| s.attribute("id").unwrap_or("").to_string()).collect()).collect()
}

pub fn want_types<'a>(node: &Node<'a, 'a>) -> Vec<Vec<String>> {
    let mut all = Vec::new();
    for n in node.children() {
        if n.is_element() && n.tag_name().name() == "types" {
            let mut here = Vec::new();
            for s in n.children() {
                if s.is_element() && s.tag_name().name() == "schema" {
                    here.push(s.attribute("id").unwrap_or("").to_string());
                }
            }
            all.push(here);
        }
    }
    all
}

// ---------------------------------------------------------------- names

fn keyword(s: &str) -> bool {
    matches!(
        s,
        "as" | "break" | "const" | "continue" | "crate" | "else" | "enum" | "extern" | "false" | "fn" | "for" | "if"
            | "impl" | "in" | "let" | "loop" | "match" | "mod" | "move" | "mut" | "pub" | "ref" | "return" | "self"
            | "Self" | "static" | "struct" | "super" | "trait" | "true" | "type" | "unsafe" | "use" | "where"
            | "while" | "async" | "await" | "dyn" | "abstract" | "become" | "box" | "do" | "final" | "macro"
            | "override" | "priv" | "typeof" | "unsized" | "virtual" | "yield" | "try"
    )
}

fn doubtful(s: &str) -> bool {
    matches!(s, "alignof" | "offsetof" | "proc" | "pure" | "sizeof" | "gen" | "extern crate" | "if let")
}

fn identifier(s: String) -> String {
    if s.is_empty() || doubtful(&s) {
        return any();
    }
    if keyword(&s) || s.chars().next().unwrap().is_numeric() {
        return format!("_{}", s);
    }
    s
}

fn ascii_word(s: &str) -> String {
    s.chars().filter(|c| c.is_ascii() && (c.is_alphanumeric() || *c == '_')).collect()
}

/// a prefix used as a module name
fn plain(s: String) -> String {
    if !s.is_empty() && (keyword(&s) || s.chars().next().unwrap().is_numeric()) {
        return format!("_{}", s);
    }
    s
}

pub fn format_name(name: &str) -> String {
    identifier(to_snake_case(name.split(':').last().unwrap()))
}

pub fn format_type(type_name: &str, target_ns: Option<&Namespace>) -> String {
    let (prefix, local) = match type_name.find(':') {
        None => (None, type_name),
        Some(i) => (Some(&type_name[..i]), &type_name[i + 1..]),
    };
    let word = ascii_word(&to_pascal_case(local));
    let own = match target_ns {
        None => None,
        Some(ns) => ns.name(),
    };
    let path = match prefix {
        None => word,
        Some(p) => {
            if own == Some(p) {
                word
            } else if doubtful(&ascii_word(p)) {
                return any();
            } else {
                format!("{}::{}", plain(ascii_word(p)), word)
            }
        }
    };
    identifier(path)
}

pub fn format_comment(doc: Option<&str>, max_len: usize, indent: usize) -> String {
    let mut out = String::new();
    if let Some(doc) = doc {
        for line in doc.lines() {
            let line = line.trim();
            if line.len() > 1 {
                let lead = " ".repeat(indent);
                out.push_str(&lead);
                out.push_str("//");
                let mut used = indent + 2;
                for word in line.split_whitespace() {
                    if used + word.len() < max_len {
                        out.push_str(" ");
                        used += 1 + word.len();
                    } else {
                        out.push_str("\n");
                        out.push_str(&lead);
                        out.push_str("// ");
                        used = indent + 3 + word.len();
                    }
                    out.push_str(word);
                }
                out.push_str("\n");
            }
        }
    }
    out
}

// ---------------------------------------------------------------- functions

fn type_of<'a>(part: &'a Part<'_>) -> &'a str {
    match part.element() {
        Some(e) => e,
        None => match part.type_() {
            Some(t) => t,
            None => open(),
        },
    }
}

fn referred<'a>(param: &'a wsdl_parser::parser::port_type::Param<'_>, definitions: &'a Definitions<'_>) -> &'a Message<'a> {
    match definitions.messages().get(param.message().split(':').last().unwrap()) {
        Some(m) => m,
        None => open(),
    }
}

pub fn function<'a>(operation: &'a Operation<'_>, definitions: &'a Definitions<'_>) -> Function<'a> {
    let (input, output) = match operation.operation_type() {
        OperationType::RequestResponse { input, output, .. } => {
            (referred(input, definitions), Some(referred(output, definitions)))
        }
        OperationType::OneWay { input } => (referred(input, definitions), None),
        _ => open(),
    };
    let mut arguments = vec![wsdl_parser::generator::function::Param { name: "transport", typename: "T" }];
    let parts = input.parts();
    if parts.len() == 1 {
        arguments.push(wsdl_parser::generator::function::Param { name: "request", typename: type_of(&parts[0]) });
    } else {
        for p in parts {
            arguments.push(wsdl_parser::generator::function::Param { name: p.name(), typename: type_of(p) });
        }
    }
    Function {
        generic_params: vec![wsdl_parser::generator::function::Param { name: "T", typename: "transport::Transport" }],
        arguments,
        return_type: match output {
            None => "",
            Some(m) => match m.parts().first() {
                None => "",
                Some(p) => type_of(p),
            },
        },
        documentation: operation.documentation(),
        name: operation.name(),
    }
}

pub fn generate_function(func: &Function<'_>, target_ns: Option<&Namespace>) -> String {
    let mut generics: Vec<String> = Vec::new();
    for p in &func.generic_params {
        generics.push(format!("{}: {}", p.name, format_type(p.typename, target_ns)));
    }
    let mut arguments: Vec<String> = Vec::new();
    for p in &func.arguments {
        arguments.push(format!("{}: &{}", p.name, format_type(p.typename, target_ns)));
    }
    let result = if func.return_type.is_empty() { "()".to_string() } else { format_type(func.return_type, target_ns) };
    format!(
        "\n{}pub async fn {}<{}>(\n    {}\n) -> Result<{}, transport::Error> {{\n    transport::request(transport, request).await\n}}\n",
        format_comment(func.documentation, 80, 0),
        format_name(func.name),
        generics.join(", "),
        arguments.join(",\n    "),
        result,
    )
}

pub fn generate(definitions: &Definitions) -> String {
    let mut ports: Vec<&PortType> = definitions.port_types().values().collect();
    ports.sort_by_key(|p| p.name());
    let mut out = String::new();
    for port in ports {
        for op in port.operations() {
            out.push_str(&generate_function(&function(op, definitions), definitions.target_namespace()));
        }
    }
    out
}

pub fn code_target_namespace<'a>(definitions: &'a Definitions<'a>) -> Option<&'a str> {
    definitions.target_namespace().map(|n| n.uri())
}

/// the namespace declaration whose name is the targetNamespace attribute
pub fn want_target_namespace<'a>(definitions: &'a Definitions<'a>) -> Option<&'a str> {
    let uri = definitions.node().attribute("targetNamespace")?;
    for ns in definitions.node().namespaces() {
        if ns.uri() == uri {
            return Some(ns.uri());
        }
    }
    None
}
