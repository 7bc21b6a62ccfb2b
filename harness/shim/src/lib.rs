//! The library's generic functions for the types the C19 check uses them with, so that they are
//! compiled here: in the C19 build this crate is instrumented like the library itself.

use piston_meta::{json, load_syntax_data, stderr_unwrap, MetaData, ParseError, ParseErrorHandler, Range};
use std::path::Path;

#[inline(never)]
pub fn write_json(d: &[Range<MetaData>]) -> Result<Vec<u8>, String> {
    let mut v: Vec<u8> = vec![];
    json::write(&mut v, d).map(|_| v).map_err(|e| e.to_string())
}

#[inline(never)]
pub fn write_string(s: &str) -> Result<Vec<u8>, String> {
    let mut v: Vec<u8> = vec![];
    json::write_string(&mut v, s).map(|_| v).map_err(|e| e.to_string())
}

#[inline(never)]
pub fn report(t: &str, e: Range<ParseError>) -> Result<Vec<u8>, String> {
    let mut v: Vec<u8> = vec![];
    ParseErrorHandler::new(t).write(&mut v, e).map(|_| v).map_err(|e| e.to_string())
}

#[inline(never)]
pub fn message(t: &str, r: Range, m: &str) -> Result<Vec<u8>, String> {
    let mut v: Vec<u8> = vec![];
    ParseErrorHandler::new(t).write_msg(&mut v, r, m).map(|_| v).map_err(|e| e.to_string())
}

#[inline(never)]
pub fn load(a: &Path, b: &Path) -> Vec<Range<MetaData>> { load_syntax_data(a, b) }

#[inline(never)]
pub fn unwrap(t: &str, r: Result<u64, Range<ParseError>>) -> u64 { stderr_unwrap(t, r) }
