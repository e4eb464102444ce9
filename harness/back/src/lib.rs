//! What happens to a document after the front end: plugins, macros, output, projects, editors.
//! Each feature is a part of the code under test; a part that does not build leaves the others.
pub mod tree;
pub mod world;
pub mod codegen;
pub mod macros;
pub mod os;
#[cfg(feature = "cli")]
pub mod cli;
#[cfg(feature = "cli")]
pub mod commands;
#[cfg(feature = "project")]
pub mod project;
#[cfg(feature = "server")]
pub mod server;
#[path = "../../front/src/gen.rs"]
pub mod gen;
#[path = "../../front/src/refm.rs"]
pub mod refm;
macro_rules! parts {
    ($($f:literal $m:ident: $($n:ident)*;)*) => {
        #[cfg(target_family = "wasm")]
        mod exports { $( $( #[cfg(feature = $f)] #[no_mangle] pub extern "C" fn $n() { crate::$m::$n() } )* )* }
        #[cfg(not(target_family = "wasm"))]
        pub fn table(n: &str) -> Option<fn()> { match n { $( $( #[cfg(feature = $f)] stringify!($n) => Some($m::$n), )* )* _ => None } }
    };
}
parts! {
    "codegen" codegen: b02 b02t b02w b03 b03w b29;
    "codegen" macros: b01 b01w b04 b04w b05 b05f b06 b06m b06a;
    "project" project: p01 p02 p03 p04 p05 p09;
    "cli" commands: p05c p06 p07 p08;
    "server" server: s01 s02 s03 s04 s05 s06 s07;
}
