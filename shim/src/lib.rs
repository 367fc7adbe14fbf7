//! Thin, instrumented entry points into the real library.  This crate exists so
//! that the generic parts of wayfinder are instantiated (and instrumented)
//! here; it contains no logic of its own.
use std::io::{self, Write};
use std::path::Path;
use wayfinder::RouteConfig;

pub enum Parsed {
    Ok(RouteConfig),
    /// Renders the diagnostics to the given writer.
    Err(Box<dyn FnOnce(&mut dyn Write) + Send>),
}

pub fn parse(text: &'static str) -> Parsed {
    match wayfinder::parse::route_config(text) {
        Ok((_, config)) => Parsed::Ok(config),
        result => Parsed::Err(Box::new(move |mut w: &mut dyn Write| {
            wayfinder::parse::errors::show_errors(&mut w, text, result, "")
        })),
    }
}

pub fn generate(mut w: &mut dyn Write, config: &RouteConfig) -> io::Result<()> {
    wayfinder::gen::codegen(&mut w, config)
}

pub fn build(input: &Path, output: &Path) {
    wayfinder::build::Builder::new()
        .input_file(input)
        .output_file(output)
        .build()
}

/// Paths relative to what Cargo names in the environment.
pub fn build_env(input: &Path, output: &Path) {
    wayfinder::build::Builder::from_env()
        .input_file(input)
        .output_file(output)
        .build()
}

pub fn build_config(config: RouteConfig, output: &Path) {
    wayfinder::build::Builder::new()
        .input_config(config)
        .output_file(output)
        .build()
}
