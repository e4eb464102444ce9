//! Tokenizer, parser and transformer: what holds for every document.
pub mod gen;
pub mod refm;
pub mod walk;
mod tokens;
mod trees;
mod diags;
mod robust;
use robust::*;
use diags::*;
use tokens::*;
use trees::*;

sym::harnesses! { c01, c02, c03, c04, c05, c05t, c06, c07, c08, c09, c09l, c29, c10 }
