//! The command line's own part.
#![allow(dead_code, unused_imports)]
include!("/repo/src/main.rs");
/// Whether it succeeds, and what it prints.
pub fn compile(plugins: &str, filename: &str, output_level: u8, json: bool) -> (bool, Vec<u8>) {
    let (r, out) = crate::os::stdout(|| run_compile(SubCommands::Compile { plugins_dir_path: Some(plugins.into()), backend: "html".into(), filename: filename.into(), output_level, json }));
    (r.is_ok(), out)
}
pub fn new(name: &str) -> bool { new_project(name).is_ok() }
