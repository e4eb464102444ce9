//! The command line.
use crate::{gen, os, project::*, refm, tree::*, world::*};
use brack_project_manager::project::Project;

/// From a source text to the output of `compile`, which knows of no hooks.
pub fn p05c() {
    let d = gen::template(DOCS[sym::param(0) as usize]);
    std::fs::write("d.[]", &d.bytes).unwrap();
    let p = [Plug { flags: [false; 4], ..std_plug() }];
    plugs(&p);
    prepared(&mut Project::new("."), &p);
    let (got, out) = crate::cli::compile("plugins", "d.[]", 5, false);
    match becomes(&d, &p) {
        Some(mut w) => { sym::cover("compiled"); sym::emit(&w); w.push(b'\n'); sym::check(got && out == w, "compile prints something else") }
        None => { sym::cover("refused"); sym::check(!got && out.is_empty(), "compile accepts what cannot be built") }
    }
}
/// What `compile` prints at the levels before the last, as JSON.
pub fn p06() {
    let d = gen::template(DOCS[sym::param(0) as usize]);
    let name = ["d.[]", "d.txt", "d", "d[]", "[]", "d.[]x"][if sym::param(1) == 1 { sym::choice(6) as usize } else { 0 }];
    std::fs::write(name, &d.bytes).unwrap();
    let p = [Plug { flags: [false; 4], ..std_plug() }];
    plugs(&p);
    prepared(&mut Project::new("."), &p);
    let level = if sym::param(1) == 1 { [0, 1, 2, 3, 4, 5, 6, 255][sym::choice(8) as usize] } else { [3, 4][sym::choice(2) as usize] };
    let (ok, out) = crate::cli::compile("plugins", name, level, true);
    let tree = refm::P::document(&d);
    if name != "d.[]" || level == 0 || level > 4 || (level == 4 && tree.is_none()) { sym::cover("refused"); sym::check(!ok && out.is_empty(), "compile takes what it must not"); return }
    // the command may be unknown, and a name may be missing
    if level == 4 && !ok { sym::cover("not expanded"); sym::check(expanded(&d, &p).is_none(), "macros that can be expanded are not"); return }
    sym::check(ok, "compile refuses a document");
    let Ok(j) = serde_json::from_slice::<serde_json::Value>(&out) else { sym::fail("what is printed is not JSON") };
    let got = match level { 3 | 4 => T::from_json(&j), _ => { sym::cover("earlier"); return } };
    let Some(got) = got else { sym::fail("what is printed is no tree") };
    let want = if level == 3 { tree } else { expanded(&d, &p).map(|t| to_r(&t)) };
    match want {
        Some(w) => { sym::cover(if level == 3 { "tree" } else { "expanded" }); sym::check(refm::same(&to_r(&got), &w), "the tree that is printed is not the document's") }
        None => sym::check(level == 3, "macros that cannot be expanded are"),
    }
}
/// Which files are plugins for `compile`, and what they are called.
pub fn p07() {
    std::fs::create_dir("plugins").unwrap();
    let name = word(sym::param(0), b'-', b'z');
    // a file name, and nothing that a module cannot be called
    for b in &name { sym::assume(*b != b'/' && *b != b'.' && *b != b'<' && *b != b'>' && *b != b'[' && *b != b']' && *b != b'\\') }
    let [stem, ext] = match sym::choice(5) { 0 => ["_0aF", ".wasm"], 1 => ["_0aF", ".wasm.tmp"], 2 => ["", ".wasm"], 3 => ["_0aF", "xwasm"], _ => ["_0aF", ".txt"] };
    let file = format!("plugins/{}{}{}", s(&name), stem, ext);
    std::fs::write(&file, b"Aw").unwrap();
    let is = stem != "" && ext == ".wasm";
    let p = plug("m", vec![cmd("c", "blk", &[ARRAY], BLOCK)], [false; 4]);
    plugs(&[p]);
    let mut doc = b"{".to_vec();
    doc.extend_from_slice(&name);
    doc.extend_from_slice(b".c x}");
    std::fs::write("d.[]", &doc).unwrap();
    let (got, out) = crate::cli::compile("plugins", "d.[]", 5, false);
    if is { sym::cover("plugin"); sym::check(got && out == b"blk([*x];)\n", "a plugin is not known by its name") }
    else if name.contains(&b'_') { sym::cover("unclear") }
    else { sym::cover("other file"); sym::check(!got, "a file that is no plugin is taken for one") }
}
/// `new` makes a project that can be loaded and built, whatever it is called.
pub fn p08() {
    let name = (0..sym::param(0)).map(|_| sym::byte(1, 127)).collect::<Vec<u8>>();
    for b in &name { sym::assume(*b != b'/' && *b != b'.') }
    if sym::param(1) == 1 {
        // what is there already is not touched
        let file = sym::choice(2) == 1;
        let (dir, inside) = (s(&name).to_string(), format!("{}/Brack.toml", s(&name)));
        if file { std::fs::write(&dir, "keep").unwrap() } else { std::fs::create_dir(&dir).unwrap(); std::fs::write(&inside, "keep").unwrap() }
        sym::check(!crate::cli::new(&dir), "a project is made where there is one already");
        sym::check(std::fs::read(if file { &dir } else { &inside }).ok() == Some(b"keep".to_vec()), "making a project changes what is there already");
        sym::check(file || under(&dir) == ["Brack.toml"], "making a project adds to what is there already");
        sym::cover("there already");
        return;
    }
    if !crate::cli::new(s(&name)) { sym::fail("no project is made") }
    let mut p = Project::new(s(&name));
    if p.load_brack_toml().is_err() { sym::fail("a new project cannot be loaded") }
    sym::check(p.config.document.name.as_bytes() == &name[..], "a new project is called something else");
    sym::check(p.config.plugins.as_ref().map_or(true, |p| p.is_empty()), "a new project has plugins");
    sym::check(tokio::block_on(p.download_plugins_using_config()).is_ok(), "a new project has no plugins to fetch");
    sym::check(os::stdout(|| p.build()).0.is_ok(), "a new project cannot be built");
    sym::cover("made");
}
