//! Plugins as the harness models them, and the calls they get.
use crate::tree::T;
use brack_plugin::{feature_flag::FeatureFlag, plugin::Plugin};
use serde_json::Value as J;
use std::{cell::RefCell, rc::Rc};

/// Type names, as plugins state them in their metadata.
pub const TYPES: &[&str] = &["\"TInline\"", "\"TBlock\"", "{\"TOption\":\"TInline\"}", "{\"TArray\":\"TInline\"}", "{\"TInlineCmd\":\"x\"}", "{\"TBlockCmd\":\"y\"}", "\"TAST\"", "{\"TOption\":\"TBlock\"}", "{\"TArray\":\"TBlock\"}"];
pub const INLINE: usize = 0;
pub const BLOCK: usize = 1;
pub const OPTION: usize = 2;
pub const ARRAY: usize = 3;
pub const TAST: usize = 6;
#[derive(Clone)]
pub struct Cmd { pub name: Vec<u8>, pub call: String, pub args: Vec<usize>, pub ret: usize }
pub fn cmd(name: &str, call: &str, args: &[usize], ret: usize) -> Cmd { Cmd { name: name.as_bytes().to_vec(), call: call.into(), args: args.to_vec(), ret } }
#[derive(Clone)]
pub struct Plug { pub name: Vec<u8>, pub cmds: Vec<Cmd>, pub flags: [bool; 4] }
pub fn plug(name: &str, cmds: Vec<Cmd>, flags: [bool; 4]) -> Plug { Plug { name: name.as_bytes().to_vec(), cmds, flags } }

#[derive(Clone, Debug, PartialEq)]
pub enum Arg { Text(Vec<u8>), Opt(Option<Vec<u8>>), Arr(Vec<Vec<u8>>) }
#[derive(Clone, Debug)]
pub enum Input { Args(Vec<Arg>), Macro(T, Vec<u8>), Other }
#[derive(Clone, Debug)]
pub struct Call { pub plug: usize, pub func: String, pub input: Input }
pub fn same_call(a: &Call, b: &Call) -> bool {
    a.plug == b.plug && a.func == b.func && match (&a.input, &b.input) {
        (Input::Args(x), Input::Args(y)) => x == y,
        (Input::Macro(x, i), Input::Macro(y, j)) => crate::tree::same(x, y) && i == j,
        _ => false,
    }
}
pub type Log = Rc<RefCell<Vec<Call>>>;

pub fn metadata(cmds: &[Cmd]) -> Vec<u8> {
    let mut s = String::from("[");
    for (i, c) in cmds.iter().enumerate() {
        if i > 0 { s.push(',') }
        s.push_str("{\"command_name\":\"");
        s.push_str(sym::as_str(&c.name));
        s.push_str("\",\"call_name\":\"");
        s.push_str(&c.call);
        s.push_str("\",\"argument_types\":[");
        for (n, t) in c.args.iter().enumerate() {
            if n > 0 { s.push(',') }
            s.push_str("[\"arg\",");
            s.push_str(TYPES[*t]);
            s.push(']');
        }
        s.push_str("],\"return_type\":");
        s.push_str(TYPES[c.ret]);
        s.push('}');
    }
    s.push(']');
    s.into_bytes()
}
fn arg(j: &J) -> Option<Arg> {
    let o = j.as_object()?;
    let (k, v) = o.iter().next()?;
    let s = |v: &J| v.as_str().map(|s| s.as_bytes().to_vec());
    match k.as_str() {
        "Text" => Some(Arg::Text(s(v)?)),
        "TextOption" => Some(Arg::Opt(if v.is_null() { None } else { Some(s(v)?) })),
        "TextArray" => { let mut o = vec![]; for x in v.as_array()? { o.push(s(x)?) } Some(Arg::Arr(o)) }
        _ => None,
    }
}
pub fn input(b: &[u8]) -> Input {
    let Ok(j) = serde_json::from_slice::<J>(b) else { return Input::Other };
    let Some(a) = j.as_array() else { return Input::Other };
    if let [tree, J::String(id)] = &a[..] {
        if let Some(t) = T::from_json(tree) { return Input::Macro(t, id.as_bytes().to_vec()) }
    }
    let mut o = vec![];
    for x in a { match arg(x) { Some(x) => o.push(x), None => return Input::Other } }
    Input::Args(o)
}
/// What a command makes of its arguments: different calls give different texts.
pub fn said(call: &str, args: &[Arg]) -> Vec<u8> {
    let mut o = call.as_bytes().to_vec();
    o.push(b'(');
    for a in args {
        match a {
            Arg::Text(t) => { o.push(b'='); o.extend_from_slice(t) }
            Arg::Opt(None) => o.push(b'-'),
            Arg::Opt(Some(t)) => { o.push(b'?'); o.extend_from_slice(t) }
            Arg::Arr(v) => { o.push(b'['); for t in v { o.push(b'*'); o.extend_from_slice(t) } o.push(b']') }
        }
        o.push(b';');
    }
    o.push(b')');
    o
}
#[derive(Clone, Copy, PartialEq)]
pub enum Fault { Fails, NotText }
/// The plugins' answers: metadata as modelled, commands by `said`, macros by `macros`; the call
/// numbered `fault.0` (from 0, not counting metadata) goes wrong.
pub fn install(plugs: &[Plug], fault: Option<(usize, Fault)>, macros: impl Fn(&Call) -> Option<Vec<u8>> + 'static) -> Log {
    let log: Log = Rc::new(RefCell::new(vec![]));
    let (l, meta) = (log.clone(), plugs.iter().map(|p| metadata(&p.cmds)).collect::<Vec<_>>());
    extism::plugins(move |wasm, func, inp| {
        let plug = (wasm[0] - b'A') as usize;
        if func == "get_metadata" { return Some(meta[plug].clone()) }
        let c = Call { plug, func: func.to_string(), input: input(inp) };
        let n = l.borrow().len();
        l.borrow_mut().push(c.clone());
        match fault {
            Some((k, Fault::Fails)) if k == n => return None,
            Some((k, Fault::NotText)) if k == n => return Some(vec![b'"', 0xC3, b'"']),
            _ => (),
        }
        match &c.input { Input::Args(a) => Some(said(func, a)), Input::Macro(..) => macros(&c), Input::Other => None }
    });
    log
}
pub fn load(i: usize, p: &Plug) -> Result<Plugin, ()> {
    let f = format!("plugin{i}");
    std::fs::write(&f, [b'A' + i as u8, b'w']).unwrap();
    let [document_hook, stmt_hook, expr_hook, text_hook] = p.flags;
    Plugin::new(sym::as_str(&p.name), &f, FeatureFlag { document_hook, stmt_hook, expr_hook, text_hook }).map_err(|_| ())
}
