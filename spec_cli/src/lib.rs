//! Reference functions for the command-line tools.  Nothing in this crate is ever executed: it is type-checked next
//! to the repository's crates and summarised by the same analysis, with the file system as a trace of events.
#![allow(clippy::all, unused, unconditional_recursion)]
use std::fs;
use std::path::{Path, PathBuf};

use wsdl_parser::parser::definitions::Definitions;
use xsd_parser::generator::builder::GeneratorBuilder;
use xsd_parser::parser::schema::parse_schema;

/// Every failure ends the run; which error is reported is left open.
pub struct Failed;

/// the options the user gave
fn input() -> Option<PathBuf> {
    loop {}
}

fn output() -> Option<PathBuf> {
    loop {}
}

fn run(
    default_input: &str,
    default_output: &str,
    dir: fn(&Path, &Path) -> Result<(), Failed>,
    file: fn(&Path, Option<&Path>) -> Result<(), Failed>,
) -> Result<(), Failed> {
    let from = match input() {
        Some(p) => p,
        None => PathBuf::from(default_input),
    };
    if !from.exists() {
        return Err(Failed);
    }
    if from.is_dir() {
        let to = match output() {
            Some(p) => p,
            None => PathBuf::from(default_output),
        };
        dir(&from, &to)
    } else {
        match output() {
            Some(p) => file(&from, Some(&p)),
            None => file(&from, None),
        }
    }
}

fn all(
    from: &Path,
    to: &Path,
    dir: fn(&Path, &Path) -> Result<(), Failed>,
    file: fn(&Path, Option<&Path>) -> Result<(), Failed>,
) -> Result<(), Failed> {
    if !to.exists() {
        if let Err(_) = fs::create_dir_all(to) {
            return Err(Failed);
        }
    }
    let entries = match fs::read_dir(from) {
        Ok(e) => e,
        Err(_) => return Err(Failed),
    };
    for entry in entries {
        let path = match entry {
            Ok(e) => e.path(),
            Err(_) => return Err(Failed),
        };
        let name = path.file_name().unwrap();
        if path.is_dir() {
            dir(&path, &to.join(name))?;
        } else {
            let target = to.join(PathBuf::from(name).with_extension("rs"));
            file(&path, Some(&target))?;
        }
    }
    Ok(())
}

/// the output is touched last, once everything is known, and replaced as a whole
fn put(to: Option<&Path>, code: &str) -> Result<(), Failed> {
    match to {
        Some(p) => match fs::write(p, code) {
            Ok(()) => Ok(()),
            Err(_) => Err(Failed),
        },
        None => Ok(()),
    }
}

// ---------------------------------------------------------------- schemas

pub fn xsd_main() -> Result<(), Failed> {
    run("input/xsd", "output/rs", xsd_dir, xsd_file)
}

pub fn xsd_dir(from: &Path, to: &Path) -> Result<(), Failed> {
    all(from, to, xsd_dir, xsd_file)
}

pub fn xsd_file(from: &Path, to: Option<&Path>) -> Result<(), Failed> {
    let text = match fs::read_to_string(from) {
        Ok(t) => t,
        Err(_) => return Err(Failed),
    };
    let code = match xsd_parser::parser::parse(&text) {
        Ok(file) => GeneratorBuilder::default().build().generate_rs_file(&file),
        Err(_) => return Err(Failed),
    };
    put(to, &code)
}

// ---------------------------------------------------------------- service descriptions

pub fn wsdl_main() -> Result<(), Failed> {
    run("input/wsdl", "output/wsdl-rs", wsdl_dir, wsdl_file)
}

pub fn wsdl_dir(from: &Path, to: &Path) -> Result<(), Failed> {
    all(from, to, wsdl_dir, wsdl_file)
}

pub fn wsdl_file(from: &Path, to: Option<&Path>) -> Result<(), Failed> {
    let text = match fs::read_to_string(from) {
        Ok(t) => t,
        Err(_) => return Err(Failed),
    };
    let doc = match roxmltree::Document::parse(&text) {
        Ok(d) => d,
        Err(_) => return Err(Failed),
    };
    let definitions = Definitions::new(&doc.root_element());
    let generator = GeneratorBuilder::default().build();
    let mut code = String::new();
    for types in definitions.types() {
        for schema in types.schemas() {
            code.push_str(&generator.generate_rs_file(&parse_schema(&schema)));
        }
    }
    code.push_str(&wsdl_parser::generator::generate(&definitions));
    put(to, &code)
}
