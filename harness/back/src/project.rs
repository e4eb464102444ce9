//! Projects: configuration, plugins from the network, building.
use crate::{codegen::*, gen, macros::Exp, os, refm, refm::R, tree::*, world::*};
use brack_project_manager::project::Project;
use std::{cell::RefCell, rc::Rc};

#[derive(Clone, PartialEq)]
pub struct Plugin { pub name: Vec<u8>, pub owner: Vec<u8>, pub repo: Vec<u8>, pub version: Vec<u8>, pub hooks: [Option<bool>; 4] }
#[derive(Clone, PartialEq)]
pub struct Cfg { pub name: Vec<u8>, pub version: Vec<u8>, pub backend: Vec<u8>, pub authors: Vec<Vec<u8>>, pub plugins: Option<Vec<Plugin>> }
pub const HOOKS: [&str; 4] = ["document_hook", "stmt_hook", "expr_hook", "text_hook"];
pub fn s(b: &[u8]) -> &str { sym::as_str(b) }
/// Lines of a plugin's table.
fn lines(p: &Plugin) -> Vec<String> {
    let mut l = vec![String::from("schema = \"github\""), format!("owner = \"{}\"", s(&p.owner)), format!("repo = \"{}\"", s(&p.repo)), format!("version = \"{}\"", s(&p.version))];
    for h in 0..4 { if let Some(b) = p.hooks[h] { l.push(format!("{} = {}", HOOKS[h], b)) } }
    l
}
impl Cfg {
    pub fn toml(&self) -> String {
        let mut o = format!("[document]\nname = \"{}\"\nversion = \"{}\"\nbackend = \"{}\"\nauthors = [", s(&self.name), s(&self.version), s(&self.backend));
        for a in &self.authors { o.push_str(&format!("\"{}\",", s(a))) }
        o.push_str("]\n");
        if let Some(ps) = &self.plugins {
            o.push_str("[plugins]\n");
            for p in ps { o.push_str(&format!("[plugins.{}]\n{}\n", s(&p.name), lines(p).join("\n"))) }
        }
        o
    }
}
/// What was read, in the harness's own terms.
pub fn read(c: &brack_project_manager::config::Config) -> Cfg {
    let b = |s: &String| s.as_bytes().to_vec();
    let plugins = c.plugins.as_ref().map(|m| {
        let mut v: Vec<Plugin> = m.iter().map(|(n, p)| {
            let brack_project_manager::plugin::PluginSchema::GitHub { owner, repo, version, expr_hook, stmt_hook, document_hook, text_hook } = p;
            Plugin { name: b(n), owner: b(owner), repo: b(repo), version: b(version), hooks: [*document_hook, *stmt_hook, *expr_hook, *text_hook] }
        }).collect();
        v.sort_by(|a, b| a.name.cmp(&b.name));
        v
    });
    Cfg { name: b(&c.document.name), version: b(&c.document.version), backend: b(&c.document.backend), authors: c.document.authors.iter().map(b).collect(), plugins }
}
pub fn word(max: u64, lo: u8, hi: u8) -> Vec<u8> {
    let n = if max > 1 { sym::choice(max as u32) + 1 } else { 1 };
    (0..n).map(|_| sym::byte(lo, hi)).collect()
}
fn hook() -> Option<bool> { match sym::choice(3) { 0 => None, 1 => Some(true), _ => Some(false) } }
fn load() -> Result<Project, ()> {
    let mut p = Project::new(".");
    p.load_brack_toml().map(|_| p).map_err(|_| ())
}
/// Brack.toml means what it says, and what is written means the same.
pub fn p01() {
    let fields = sym::param(0);
    let l = |s: &str| s.as_bytes().to_vec();
    let mut p = Plugin { name: l("p"), owner: l("o"), repo: l("r"), version: l("v"), hooks: [None; 4] };
    let mut c = Cfg { name: l("n"), version: l("0"), backend: l("html"), authors: vec![l("a")], plugins: None };
    let (mut rot, mut fault) = (0, 0);
    match fields {
        0 => { p.hooks = [(); 4].map(|_| hook()); rot = sym::choice(3) as usize * 3 }
        1 => { fault = sym::choice(9); p.hooks[1] = Some(true) }
        2 => { c.name = word(2, b' ', b'!'); c.version = word(2, b'#', b'['); c.authors = (0..sym::choice(3)).map(|_| word(1, b']', b'~')).collect() }
        _ => { p.name = vec![sym::byte(b'a', b'z')]; p.owner = word(2, b'0', b'Z'); p.repo = word(1, b'_', b'z'); p.version = word(1, b'#', b'9') }
    }
    let q = Plugin { name: l("q"), owner: l("x"), repo: l("y"), version: l("z"), hooks: [Some(false), None, Some(true), None] };
    if p.name == q.name { return }
    let mut ps = lines(&p);
    ps.rotate_left(rot % 4);
    match fault {
        n @ 1..=4 => { ps.remove(n as usize - 1); }
        5 => ps.push("other = 1".into()),
        6 => { let x = ps[sym::choice(5) as usize].clone(); ps.push(x) }
        7 => ps[0] = "schema = \"gitlab\"".into(),
        8 => { let i = sym::choice(5) as usize; ps[i] = format!("{} = 3", ps[i].split(' ').next().unwrap()) }
        _ => (),
    }
    let mut t = c.toml();
    let some = fields != 2 || sym::choice(2) == 1;
    if some {
        t.push_str(&format!("[plugins.{}]\n{}\n[plugins.q]\n{}\n", s(&p.name), ps.join("\n"), lines(&q).join("\n")));
        let mut v = vec![p, q];
        v.sort_by(|a, b| a.name.cmp(&b.name));
        c.plugins = Some(v);
    }
    std::fs::write("Brack.toml", &t).unwrap();
    let got = load();
    if fault > 0 { sym::cover("refused"); sym::check(got.is_err(), "a plugin that is not written as plugins are is accepted"); return }
    let Ok(got) = got else { sym::fail("Brack.toml is refused") };
    sym::cover("read");
    sym::check(read(&got.config) == c, "Brack.toml does not mean what it says");
    let Ok(w) = toml::to_string(&got.config) else { sym::fail("a configuration cannot be written") };
    std::fs::write("Brack.toml", &w).unwrap();
    let Ok(again) = load() else { sym::fail("what was written cannot be read") };
    sym::check(read(&again.config) == c, "what was written means something else");
}
fn url(c: &Cfg, p: &Plugin) -> Vec<u8> {
    let mut o = b"https://github.com/".to_vec();
    for (x, sep) in [(&p.owner, "/"), (&p.repo, "/releases/download/"), (&p.version, "/"), (&p.name, "."), (&c.backend, ".wasm")] { o.extend_from_slice(x); o.extend_from_slice(sep.as_bytes()) }
    o
}
fn body(u: &[u8]) -> Vec<u8> { [b"A the plugin at ", u].concat() }
/// Every plugin of the configuration is there, with its own bytes and its own hooks.
fn complete(p: &Project, c: &Cfg) {
    for q in c.plugins.as_ref().unwrap() {
        let Some((path, flag)) = p.plugins_metadata.get(s(&q.name)) else { sym::fail("a plugin of the project is missing") };
        let Ok(b) = std::fs::read(path) else { sym::fail("a plugin of the project cannot be read") };
        sym::check(b == body(&url(c, q)), "a plugin is not what its address serves");
        sym::check([flag.document_hook, flag.stmt_hook, flag.expr_hook, flag.text_hook] == q.hooks.map(|h| h == Some(true)), "a plugin has the hooks of another configuration");
    }
    sym::check(p.plugins_metadata.len() == c.plugins.as_ref().unwrap().len(), "there are plugins that nobody asked for");
}
fn net(log: &Rc<RefCell<Vec<Vec<u8>>>>) {
    let l = log.clone();
    reqwest::network(move |u| { l.borrow_mut().push(u.as_bytes().to_vec()); Ok((200, Some(body(u.as_bytes())))) });
}
fn fetch() -> (Project, bool) {
    let Ok(mut p) = load() else { sym::fail("Brack.toml is refused") };
    let ok = tokio::block_on(p.download_plugins_using_config()).is_ok();
    (p, ok)
}
fn any(field: u64, max: u64) -> Cfg {
    let l = |s: &str| s.as_bytes().to_vec();
    let w = |i: u64, d: &str| if field >> i & 1 == 0 { l(d) } else if i > 0 && sym::param(2) == 1 { let v = word(max, b'#', b'~'); for b in &v { sym::assume(*b != b'\\') } v } else { word(max, b'a', b'b') };
    let p = Plugin { name: w(0, "p"), owner: w(1, "o"), repo: w(2, "r"), version: w(3, "v"), hooks: if field >> 5 & 1 == 1 { [(); 4].map(|_| if sym::choice(2) == 1 { Some(true) } else { None }) } else { [None; 4] } };
    Cfg { name: l("n"), version: l("0"), backend: w(4, "html"), authors: vec![], plugins: Some(vec![p]) }
}
/// A plugin is what its configuration asks for, whatever was there before, and is fetched once.
pub fn p02() {
    let log: Rc<RefCell<Vec<Vec<u8>>>> = Default::default();
    net(&log);
    for c in [any(sym::param(0), sym::param(1)), any(sym::param(0), sym::param(1))] {
        std::fs::write("Brack.toml", c.toml()).unwrap();
        for again in [false, true] {
            let before = log.borrow().len();
            let (p, ok) = fetch();
            sym::check(ok, "plugins that are there to be fetched are not");
            complete(&p, &c);
            if again { sym::check(log.borrow().len() == before, "a plugin is fetched again") }
        }
    }
    if log.borrow().len() == 1 { sym::cover("same") } else { sym::cover("another") }
}
/// An answer that is not the plugin.
fn refusal(any: bool) -> u16 { if any { let s = sym::u32(); sym::assume(s >= 300 && s < 600); s as u16 } else { 404 } }
/// Failures on the way, in any order of arrival, and what is left for the next try.
pub fn p03() {
    let n = sym::param(0) as usize;
    let l = |s: &str| s.as_bytes().to_vec();
    let ps: Vec<Plugin> = (0..n).map(|i| Plugin { name: vec![b'p', b'0' + i as u8], owner: l("o"), repo: l("r"), version: vec![b'0' + i as u8], hooks: [(i == 0).then_some(true), None, None, None] }).collect();
    let c = Cfg { name: l("n"), version: l("0"), backend: l("html"), authors: vec![], plugins: Some(ps.clone()) };
    std::fs::write("Brack.toml", c.toml()).unwrap();
    let how: Vec<u32> = (0..n).map(|_| sym::choice(4)).collect();
    let status = refusal(sym::param(1) & 8 == 8 && how.contains(&2));
    let (h, urls) = (how.clone(), ps.iter().map(|p| url(&c, p)).collect::<Vec<_>>());
    let full = body(&urls[0]).len() as u64;
    reqwest::network(move |u| {
        let Some(i) = urls.iter().position(|x| x == u.as_bytes()) else { sym::fail("something else is fetched") };
        match h[i] { 0 => Ok((200, Some(body(u.as_bytes())))), 1 => Err(()), 2 => Ok((status, Some(b"A not found".to_vec()))), _ => Ok((200, None)) }
    });
    if sym::param(1) & 1 == 1 { reqwest::waits(|| sym::choice(2) == 1) }
    if sym::param(1) & 2 == 2 { tokio::schedule(|n| sym::choice(n as u32) as usize) }
    let mut short = false;
    if sym::param(1) & 4 == 4 {
        let at = [0, 1, full / 2, full - 1, full][sym::choice(5) as usize];
        short = at < full;
        os::limit(Some(at))
    }
    let (p, ok) = fetch();
    os::limit(None);
    let all = how.iter().all(|x| *x == 0) && !short;
    sym::check(ok == all, if all { "plugins that can be fetched are not" } else { "a plugin that could not be fetched goes unnoticed" });
    if all { sym::cover("all there"); complete(&p, &c) } else { sym::cover("some missing") }
    // what a plugin is said to be is what it is, even now
    for (name, (path, _)) in &p.plugins_metadata {
        let q = ps.iter().find(|q| q.name == name.as_bytes()).unwrap();
        sym::check(std::fs::read(path).ok() == Some(body(&url(&c, q))), "half a plugin is taken for one");
    }
    reqwest::network(|u| Ok((200, Some(body(u.as_bytes())))));
    let (p, ok) = fetch();
    sym::check(ok, "the next try fails too");
    complete(&p, &c);
}
fn from_r(r: &R, ids: &mut Ids) -> T {
    let id = ids.next();
    let kids = |v: &Vec<R>, ids: &mut Ids| v.iter().map(|k| from_r(k, ids)).collect::<Vec<_>>();
    match r {
        R::Doc(v) => T::inner(DOC, id, kids(v, ids)),
        R::Stmt(v) => T::inner(STMT, id, kids(v, ids)),
        R::Expr(v) => T::inner(EXPR, id, kids(v, ids)),
        R::Cmd(k, v) => T::inner([ANGLE, CURLY, SQUARE][*k as usize], id, kids(v, ids)),
        R::Module(s) => T::leaf(MODULE, id, Some(s.clone())),
        R::Ident(s) => T::leaf(IDENT, id, Some(s.clone())),
        R::Text(s) => T::leaf(TEXT, id, Some(s.clone())),
        R::Bad => T::leaf(INVALID, id, None),
    }
}
/// The plugin that stands for all: its macros make names and texts.
pub fn std_plug() -> Plug {
    let hook = |n: &str, ret| cmd(n, &format!("on_{n}"), &[INLINE], ret);
    plug("m", vec![cmd("c", "inl", &[INLINE, OPTION], INLINE), cmd("c", "blk", &[ARRAY], BLOCK), cmd("md", "to_module", &[], TAST), cmd("id", "to_ident", &[], TAST), cmd("t", "to_text", &[ARRAY], TAST),
        hook("document", BLOCK), hook("stmt", BLOCK), hook("expr", INLINE)], [true, true, true, false])
}
fn answer(func: &str) -> T {
    match func { "to_module" => T::leaf(MODULE, "x".into(), Some(b"m".to_vec())), "to_ident" => T::leaf(IDENT, "y".into(), Some(b"c".to_vec())), _ => T::leaf(TEXT, "z".into(), Some(b"t".to_vec())) }
}
/// The document with its macros expanded, by the reference; None if it is malformed or they cannot be.
pub fn expanded(d: &gen::Doc, plugs: &[Plug]) -> Option<T> {
    let t = from_r(&refm::P::document(d)?, &mut Ids::new());
    // answers by the macro asked: the reference asks in order
    let mut answers: Vec<T> = vec![];
    loop {
        let mut e = Exp { plugs, whole: &t, answers: &answers, calls: vec![], stop: usize::MAX };
        match e.tree(&t) {
            Ok(w) => return Some(w),
            Err(()) => {
                let func = e.calls.get(answers.len())?.func.clone();
                answers.push(answer(&func));
            }
        }
    }
}
/// What it is rendered to.
pub fn becomes(d: &gen::Doc, plugs: &[Plug]) -> Option<Vec<u8>> { Gen { plugs, calls: vec![] }.render(&expanded(d, plugs)?).ok() }
pub fn plugs(p: &[Plug]) { install(p, None, |c| Some(serde_json::to_vec(&answer(&c.func).json()).unwrap())); }
pub fn prepared(project: &mut Project, p: &[Plug]) {
    std::fs::create_dir_all("plugins").unwrap();
    for (i, q) in p.iter().enumerate() {
        let f = format!("plugins/{}_{i}.wasm", s(&q.name));
        std::fs::write(&f, [b'A' + i as u8, b'w']).unwrap();
        let [document_hook, stmt_hook, expr_hook, text_hook] = q.flags;
        project.plugins_metadata.insert(s(&q.name).to_string(), (f.into(), brack_plugin::feature_flag::FeatureFlag { document_hook, stmt_hook, expr_hook, text_hook }));
    }
}
pub fn under(dir: &str) -> Vec<String> {
    let Ok(d) = std::fs::read_dir(dir) else { return vec![] };
    let mut v: Vec<String> = d.map(|e| e.unwrap().file_name().to_str().unwrap().to_string()).collect();
    v.sort();
    v
}
/// Documents, malformed ones, and other files: what is built from them.
pub fn p04() {
    let (n, fields) = (sym::param(0) as usize, sym::param(1));
    os::reverse(sym::choice(2) == 1);
    std::fs::create_dir("docs").unwrap();
    let p = [Plug { flags: if sym::param(2) == 1 { [false; 4] } else { std_plug().flags }, ..std_plug() }];
    plugs(&p);
    let backend = if fields == 1 { word(2, b'a', b'z') } else { b"html".to_vec() };
    let texts = ["x {m.c y}", "[m.c a, b] <m.t>", "[m.c", "plain", "[n.c a]", ""];
    let (mut want, mut bad) = (vec![], false);
    for i in 0..n {
        let mut stem = vec![b'a' + i as u8];
        if fields == 1 { stem.extend_from_slice([b"", &b".x"[..], b".[]"][sym::choice(3) as usize]); if sym::choice(2) == 1 { stem.push(sym::byte(b'a', b'z')) } }
        let ext = [".[]", ".txt", "", ".[]x", "[]"][if fields == 1 { 0 } else { sym::choice(5) as usize }];
        let text = texts[if fields == 1 { 0 } else { sym::choice(texts.len() as u32) as usize }];
        std::fs::write(format!("docs/{}{}", s(&stem), ext), text).unwrap();
        if ext != ".[]" { continue }
        let d = gen::template(text);
        match becomes(&d, &p) { Some(t) => want.push((format!("{}.{}", s(&stem), s(&backend)), t)), None => bad = true }
    }
    // what is left of an earlier build is replaced
    let stale = sym::choice(2) == 1;
    if stale { std::fs::create_dir("out").unwrap(); if let Some((f, _)) = want.first() { std::fs::write(format!("out/{f}"), "something that is long enough to be seen if it stays, even behind what comes before it, whatever that is").unwrap() } }
    let mut project = Project::new(".");
    project.config.document.backend = s(&backend).to_string();
    prepared(&mut project, &p);
    let before = under("docs");
    let (got, _) = os::stdout(|| project.build());
    if bad { sym::cover("malformed"); sym::check(got.is_err(), "a project with a document that cannot be built is built"); }
    else {
        sym::cover("built");
        sym::check(got.is_ok(), "a project that can be built is not");
        let mut names: Vec<String> = want.iter().map(|w| w.0.clone()).collect();
        names.sort();
        sym::check(under("out") == names, "the files that are built are not those of the documents");
        for (f, t) in &want { sym::check(std::fs::read(format!("out/{f}")).ok().as_ref() == Some(t), "a document is not what it is built to be") }
    }
    for o in under("out") { sym::check(want.iter().any(|w| w.0 == o), "something is built from what is no document") }
    sym::check(under("docs") == before, "building changes the documents");
}
/// From a source text to the file that is built and the output of `compile`.
pub fn p05() {
    let d = gen::template(DOCS[sym::param(0) as usize]);
    std::fs::create_dir("docs").unwrap();
    std::fs::write("docs/d.[]", &d.bytes).unwrap();
    let mut p = [std_plug()];
    plugs(&p);
    let want = becomes(&d, &p);
    let mut project = Project::new(".");
    project.config.document.backend = "html".into();
    prepared(&mut project, &p);
    let (got, _) = os::stdout(|| project.build());
    match &want {
        Some(w) => {
            sym::cover("built");
            sym::check(got.is_ok(), "a document that can be built is not");
            sym::check(std::fs::read("out/d.html").ok().as_ref() == Some(w), "a document is not what it is built to be");
            sym::emit(w);
        }
        None => { sym::cover("refused"); sym::check(got.is_err(), "a document that cannot be built is built"); sym::check(under("out").is_empty(), "what cannot be built is built") }
    }
}
pub const DOCS: &[&str] = &[
    /* 0 */ "[m.c ??]",
    /* 1 */ "{m.c ?,?}",
    /* 2 */ "?\n\n[m.c ?]",
    /* 3 */ "[m.<m.id>? {m.c ?}]",
    /* 4 */ "x?<m.t ?>?",
    /* 5 */ "[m.c {m.c ?} <m.t>?, ?]\n?",
    /* 6 */ "????",
    /* 7 */ "{?.? x}",
    /* 8 */ "{<m.md>.c ?[m.c ?]}",
    /* 9 */ "*?[m.c *]",
    /* 10 */ "⟨m.c ⟨m.c x⟩⟩§ y",
    /* 11 */ "§§⟨m.c x§⟩§",
    /* 12 */ "[m.??? x]",
    /* 13 */ "[m.c x]??",
];
pub fn to_r(t: &T) -> R {
    let kids = || { let mut o = vec![]; for k in &t.kids { refm::push(&mut o, to_r(k)) } o };
    let v = || t.value.clone().unwrap_or_default();
    match t.kind {
        DOC => R::Doc(t.kids.iter().map(to_r).collect()), STMT => R::Stmt(kids()), EXPR => R::Expr(kids()),
        ANGLE => R::Cmd(0, kids()), CURLY => R::Cmd(1, kids()), SQUARE => R::Cmd(2, kids()),
        MODULE => R::Module(v()), IDENT => R::Ident(v()), TEXT => R::Text(v()), _ => R::Bad,
    }
}
/// `add` adds the plugin and keeps everything else, or changes nothing.
pub fn p09() {
    let l = |s: &str| s.as_bytes().to_vec();
    let (fields, faults) = (sym::param(0), sym::param(1) > 0);
    let old = Plugin { name: l("p"), owner: l("o"), repo: l("r"), version: l("1"), hooks: [Some(true), Some(false), None, None] };
    let mut c = Cfg { name: l("n"), version: l("0"), backend: l("html"), authors: vec![l("a"), l("b <c@d>")], plugins: match sym::choice(3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![old]) } };
    let (mut owner, mut repo, mut version) = (l("own"), l("rep.html"), l("v1"));
    match fields {
        0 => owner = word(2, b'a', b'z'),
        1 => { repo = word(2, b'o', b'q'); if sym::choice(2) == 1 { repo.extend_from_slice(b".x") } }
        _ => version = word(2, b'.', b'9'),
    }
    for b in &version { sym::assume(*b != b'/') }
    std::fs::write("Brack.toml", c.toml()).unwrap();
    let before = read(&load().unwrap_or_else(|_| sym::fail("Brack.toml is refused")).config);
    let mut want = b"https://github.com/".to_vec();
    for (x, sep) in [(&owner, "/"), (&repo, "/releases/download/"), (&version, "/"), (&repo, ".wasm")] { want.extend_from_slice(x); want.extend_from_slice(sep.as_bytes()) }
    let how = if sym::param(1) == 2 { 2 } else if faults { sym::choice(4) } else { 0 };
    let status = refusal(sym::param(1) == 2);
    reqwest::network(move |u| {
        sym::check(u.as_bytes() == &want[..], "something else is fetched");
        match how { 0 => Ok((200, Some(b"Aw".to_vec()))), 1 => Err(()), 2 => Ok((status, Some(b"Aw".to_vec()))), _ => Ok((200, None)) }
    });
    let schema = format!("github:{}/{}@{}", s(&owner), s(&repo), s(&version));
    if faults && sym::choice(2) == 1 { os::limit(Some([0, 1, 2, 20, 60, 100][sym::choice(6) as usize])) }
    let got = tokio::block_on(brack_project_manager::plugin::add_plugin(&schema));
    os::limit(None);
    let name = repo.split(|b| *b == b'.').next().unwrap().to_vec();
    let known = c.plugins.as_ref().map_or(false, |p| p.iter().any(|p| p.name == name));
    let Ok(after) = load() else { sym::fail("Brack.toml is no longer what it was") };
    let after = read(&after.config);
    match got {
        Ok(_) => {
            sym::cover("added");
            sym::check(!known && how == 0, "a plugin is added that cannot be, or is there already");
            let ps = c.plugins.get_or_insert(vec![]);
            ps.push(Plugin { name, owner, repo, version, hooks: [None; 4] });
            ps.sort_by(|a, b| a.name.cmp(&b.name));
            sym::check(after == c, "adding a plugin changes something else, or adds something else");
        }
        Err(_) => {
            sym::cover("refused");
            sym::check(known || faults, "a plugin cannot be added");
            sym::check(after == before, "a plugin that is not added changes Brack.toml");
        }
    }
}
