use crate::{tree::*, world::*};
use brack_plugin::plugins::Plugins;

pub struct Ids(usize);
impl Ids { pub fn new() -> Ids { Ids(0) } pub fn next(&mut self) -> String { self.0 += 1; format!("n{}", self.0) } }
fn text() -> Vec<u8> { vec![sym::byte(b'a', b'z')] }
/// A tree of at most `left` nodes below it, of the given kinds, as far as documents have them
/// and macros may return them.
pub fn grow(kind: usize, left: &mut usize, ids: &mut Ids, kinds: &[usize]) -> T {
    let id = ids.next();
    match kind {
        TEXT => return T::leaf(TEXT, id, Some(text())),
        IDENT | MODULE => return T::leaf(kind, id, Some(b"c".to_vec())),
        INVALID | IGNORED => return T::leaf(kind, id, None),
        _ => (),
    }
    let mut kids = vec![];
    if kind >= ANGLE {
        kids.push(T::leaf(MODULE, ids.next(), Some(b"m".to_vec())));
        kids.push(T::leaf(IDENT, ids.next(), Some(b"c".to_vec())));
    }
    while *left > 0 && sym::choice(2) == 1 {
        *left -= 1;
        let k = kinds[sym::choice(kinds.len() as u32) as usize];
        kids.push(grow(k, left, ids, kinds));
    }
    T::inner(kind, id, kids)
}
pub struct Gen<'a> { pub plugs: &'a [Plug], pub calls: Vec<Call> }
impl Gen<'_> {
    fn hook(&mut self, n: usize, s: Vec<u8>) -> Vec<u8> {
        let names = ["document", "stmt", "expr", "text"];
        let Some(plug) = self.plugs.iter().position(|p| p.flags[n]) else { return s };
        let ret = if n < 2 { BLOCK } else { INLINE };
        let c = self.plugs[plug].cmds.iter().find(|c| c.name == names[n].as_bytes() && c.ret == ret).unwrap();
        let args = vec![Arg::Text(s)];
        let out = said(&c.call, &args);
        self.calls.push(Call { plug, func: c.call.clone(), input: Input::Args(args) });
        out
    }
    /// What the tree is rendered to, and the calls it takes, in order.
    pub fn render(&mut self, t: &T) -> Result<Vec<u8>, ()> {
        match t.kind {
            TEXT => { let v = t.value.clone().ok_or(())?; Ok(self.hook(3, v)) }
            DOC | STMT | EXPR => {
                let mut s = vec![];
                for k in &t.kids {
                    // statements stand in documents only
                    if k.kind == DOC || (k.kind == STMT && t.kind != DOC) { return Err(()) }
                    s.extend(self.render(k)?);
                }
                Ok(self.hook(t.kind, s))
            }
            CURLY | SQUARE => {
                let mut a = vec![];
                for k in t.kids.iter().skip(2) {
                    if k.kind == STMT || k.kind == DOC { return Err(()) }
                    a.push(self.render(k)?);
                }
                let (Some(m), Some(i)) = (t.kids.first(), t.kids.get(1)) else { return Err(()) };
                if m.kind != MODULE || i.kind != IDENT { return Err(()) }
                let (m, i) = (m.value.clone().ok_or(())?, i.value.clone().ok_or(())?);
                let ret = if t.kind == SQUARE { INLINE } else { BLOCK };
                // the last plugin of a name and the last command of a signature count
                let plug = self.plugs.iter().rposition(|p| p.name == m).ok_or(())?;
                let c = self.plugs[plug].cmds.iter().rev().find(|c| c.name == i && c.ret == ret).ok_or(())?;
                let args = bind(&c.args, &a).ok_or(())?;
                let out = said(&c.call, &args);
                self.calls.push(Call { plug, func: c.call.clone(), input: Input::Args(args) });
                Ok(out)
            }
            _ => Err(()),
        }
    }
}
/// Arguments by position: what is required must be there, what is optional may be missing, a
/// list takes the rest, and nothing is left over.
pub fn bind(types: &[usize], a: &[Vec<u8>]) -> Option<Vec<Arg>> {
    let (mut out, mut i) = (vec![], 0);
    for t in types {
        match TYPES[*t] {
            t if t.contains("TOption") => { out.push(Arg::Opt(a.get(i).cloned())); i += 1 }
            t if t.contains("TArray") => { out.push(Arg::Arr(a[i.min(a.len())..].to_vec())); i = a.len().max(i) }
            _ => { out.push(Arg::Text(a.get(i)?.clone())); i += 1 }
        }
    }
    (a.len() <= i).then_some(out)
}
pub fn start(plugs: &[Plug]) -> Plugins {
    let v = plugs.iter().enumerate().map(|(i, p)| load(i, p).unwrap_or_else(|_| sym::fail("a plugin is refused"))).collect();
    Plugins::new(v).unwrap_or_else(|_| sym::fail("the plugins are refused"))
}
pub fn decide(t: &T, plugs: &[Plug], fault: Option<(usize, Fault)>) {
    let log = install(plugs, fault, |_| None);
    let mut p = start(plugs);
    let got = brack_codegen::generate::generate(&t.ast(), &mut p);
    let mut g = Gen { plugs, calls: vec![] };
    let mut want = if t.kind == DOC { g.render(t) } else { Err(()) };
    if let Some((k, _)) = fault.filter(|f| f.0 < g.calls.len()) {
        // what a plugin cannot answer ends it all
        g.calls.truncate(k + 1);
        want = Err(());
        sym::cover("a plugin fails");
        let calls = log.borrow();
        sym::check(calls.len() == k + 1 && calls.iter().zip(&g.calls).all(|(x, y)| same_call(x, y)), "plugins are called after one failed, or not called before it");
    }
    match (got, want) {
        (Ok(a), Ok(b)) => {
            sym::emit(a.as_bytes());
            sym::cover("rendered");
            sym::check(a.as_bytes() == &b[..], "the output is not what the document says");
            let calls = log.borrow();
            sym::check(calls.len() == g.calls.len() && calls.iter().zip(&g.calls).all(|(x, y)| same_call(x, y)), "the plugins are not called once per node, in order");
        }
        (Err(_), Err(_)) => sym::cover("refused"),
        (Ok(_), Err(_)) => sym::fail("a tree that cannot be rendered is accepted"),
        (Err(_), Ok(_)) => sym::fail("a tree that can be rendered is refused"),
    }
}
pub fn hooks(flags: [bool; 4]) -> Plug {
    plug("h", vec![cmd("document", "on_doc", &[INLINE], BLOCK), cmd("stmt", "on_stmt", &[INLINE], BLOCK), cmd("expr", "on_expr", &[INLINE], INLINE), cmd("text", "on_text", &[INLINE], INLINE)], flags)
}
/// Output of every tree, with every set of hooks.
pub fn b02() {
    let (kinds, mut left) = (sym::param(1), sym::param(0) as usize);
    let all: &[usize] = match kinds { 0 => &[STMT, EXPR, CURLY, SQUARE, TEXT], 1 => &[EXPR, SQUARE, CURLY, TEXT, ANGLE, IDENT, INVALID], 2 => &[EXPR, SQUARE, TEXT], _ => &[STMT, EXPR, CURLY, SQUARE, TEXT, ANGLE, IDENT, MODULE, INVALID, IGNORED, DOC] };
    let flags = if sym::param(2) == 0 { [true; 4] } else if sym::param(2) == 1 { [(); 4].map(|_| sym::choice(2) == 1) } else { [false; 4] };
    let mut ids = Ids::new();
    let t = grow(DOC, &mut left, &mut ids, all);
    let m = plug("m", vec![cmd("c", "inl", &[ARRAY], INLINE), cmd("c", "blk", &[ARRAY], BLOCK)], [false; 4]);
    decide(&t, &[m, hooks(flags)], None);
}
/// Texts of any characters reach the output and the commands as they are.
pub fn b02t() {
    let mut ids = Ids::new();
    let mut word = || { let mut v = vec![]; for _ in 0..sym::param(0) { crate::gen::any_char(&mut v) } T::leaf(TEXT, ids.next(), Some(v)) };
    let (mut x, mut ids2) = (vec![], Ids(100));
    if sym::param(1) == 0 { x.push(word()) } else {
        let kids = vec![T::leaf(MODULE, ids2.next(), Some(b"m".to_vec())), T::leaf(IDENT, ids2.next(), Some(b"c".to_vec())), T::inner(EXPR, ids2.next(), vec![word()])];
        x.push(T::inner([CURLY, SQUARE][sym::choice(2) as usize], ids2.next(), kids))
    }
    let t = T::inner(DOC, ids2.next(), vec![T::inner(STMT, ids2.next(), vec![T::inner(EXPR, ids2.next(), x)])]);
    let m = plug("m", vec![cmd("c", "inl", &[INLINE, OPTION], INLINE), cmd("c", "blk", &[ARRAY], BLOCK)], [false; 4]);
    decide(&t, &[m, hooks([sym::param(2) == 1; 4])], None);
}
fn types() -> Vec<usize> {
    let all: &[usize] = if sym::param(2) == 0 { &[INLINE, OPTION, ARRAY] } else { &[INLINE, BLOCK, OPTION, ARRAY, 4, 5, TAST, 7, 8] };
    let n = sym::choice(sym::param(0) as u32 + 1);
    (0..n).map(|_| all[sym::choice(all.len() as u32) as usize]).collect()
}
/// How arguments reach a command, for every signature and number of arguments.
pub fn b03() {
    let types = types();
    let n = sym::choice(sym::param(1) as u32 + 1);
    let kind = if sym::choice(2) == 0 { CURLY } else { SQUARE };
    let mut ids = Ids::new();
    let mut kids = vec![T::leaf(MODULE, ids.next(), Some(b"m".to_vec())), T::leaf(IDENT, ids.next(), Some(b"c".to_vec()))];
    // an argument may be nothing
    for _ in 0..n { let k = if sym::param(3) == 1 && sym::choice(2) == 1 { vec![] } else { vec![T::leaf(TEXT, ids.next(), Some(text()))] }; kids.push(T::inner(EXPR, ids.next(), k)) }
    let c = T::inner(kind, ids.next(), kids);
    let t = T::inner(DOC, ids.next(), vec![T::inner(STMT, ids.next(), vec![T::inner(EXPR, ids.next(), vec![c])])]);
    // lists take everything, so what comes after one cannot be said
    let after_list = types.iter().position(|t| TYPES[*t].contains("TArray")).map_or(false, |i| i + 1 < types.len());
    // and a required argument after one that may be missing cannot be told apart from it
    let opt = types.iter().position(|t| TYPES[*t].contains("TOption"));
    let after_option = opt.map_or(false, |i| types[i..].iter().any(|t| !TYPES[*t].contains("TOption") && !TYPES[*t].contains("TArray")));
    let ret = if kind == SQUARE { INLINE } else { BLOCK };
    let plugs = [plug("m", vec![cmd("c", "does", &types, ret)], [false; 4])];
    if after_list || after_option {
        let log = install(&plugs, None, |_| None);
        let mut p = start(&plugs);
        let r = brack_codegen::generate::generate(&t.ast(), &mut p);
        sym::check(r.is_ok() == (log.borrow().len() == 1), "the command is called and fails, or the other way round");
        sym::cover("odd signature");
        return;
    }
    decide(&t, &plugs, None);
}

pub fn unit(place: usize, n: usize, kinds: &[usize]) -> T { grow([STMT, EXPR, SQUARE, SQUARE, CURLY, EXPR][place], &mut { n }, &mut Ids::new(), kinds) }
/// `times` times the same in a document: as statements, in a line, in a command, within each other.
pub fn wide(place: usize, times: usize, unit: &T) -> T {
    let id = |s: &str| String::from(s);
    let command = |kind: usize, mut kids: Vec<T>| {
        kids.insert(0, T::leaf(MODULE, id("m"), Some(b"m".to_vec())));
        kids.insert(1, T::leaf(IDENT, id("c"), Some(b"c".to_vec())));
        T::inner(kind, id("k"), kids)
    };
    let mut kids: Vec<T> = (0..if place == 5 { 1 } else { times }).map(|_| unit.clone()).collect();
    if place == 5 { for i in 0..times { kids = vec![command([SQUARE, CURLY][i % 2], vec![T::inner(EXPR, id("e"), kids)])] } }
    if place == 3 { kids = vec![command(CURLY, kids)] }
    if place > 1 { kids = vec![T::inner(EXPR, id("e"), kids)] }
    if place > 0 { kids = vec![T::inner(STMT, id("s"), kids)] }
    let mut t = T::inner(DOC, id("d"), kids);
    // every node its own
    fn number(t: &mut T, n: &mut usize) { t.id = format!("w{n}"); *n += 1; for k in &mut t.kids { number(k, n) } }
    number(&mut t, &mut 0);
    t
}
/// Output of large trees.
pub fn b02w() {
    let (n, times, place) = (sym::param(0) as usize, sym::param(1) as usize, sym::param(2) as usize);
    let t = wide(place, times, &unit(place, n, &[TEXT, EXPR, SQUARE, CURLY]));
    let m = plug("m", vec![cmd("c", "inl", &[ARRAY], INLINE), cmd("c", "blk", &[ARRAY], BLOCK)], [false; 4]);
    decide(&t, &[m, hooks([sym::choice(2) == 1; 4])], None);
}
/// Long texts, and long signatures.
pub fn b03w() {
    let (a, b) = (sym::choice(sym::param(0) as u32 + 1) as usize, sym::choice(sym::param(0) as u32 + 1) as usize);
    let types: Vec<usize> = (0..a).map(|_| INLINE).chain((0..b).map(|_| OPTION)).chain((0..sym::choice(2)).map(|_| ARRAY)).collect();
    let n = sym::choice(sym::param(1) as u32 + 1) as usize;
    let kind = if sym::choice(2) == 0 { CURLY } else { SQUARE };
    let mut ids = Ids::new();
    let mut kids = vec![T::leaf(MODULE, ids.next(), Some(b"m".to_vec())), T::leaf(IDENT, ids.next(), Some(b"c".to_vec()))];
    for i in 0..n { let mut w = vec![b'a' + i as u8; if i == 1 { 300 } else { 1 }]; w.push(text()[0]); let k = vec![T::leaf(TEXT, ids.next(), Some(w))]; kids.push(T::inner(EXPR, ids.next(), k)) }
    let c = T::inner(kind, ids.next(), kids);
    let t = T::inner(DOC, ids.next(), vec![T::inner(STMT, ids.next(), vec![T::inner(EXPR, ids.next(), vec![c])])]);
    decide(&t, &[plug("m", vec![cmd("c", "inl", &types, INLINE), cmd("c", "blk", &types, BLOCK)], [false; 4])], None);
}
/// Rendering twice as much costs twice as much.
pub fn b29() {
    let (n, k, place) = (sym::param(0) as usize, sym::param(1) as usize * sym::scale(), sym::param(2) as usize);
    let hook = |n: &str, ret| cmd(n, &format!("on_{n}"), &[INLINE], ret);
    let plugs = [plug("m", vec![cmd("c", "inl", &[ARRAY], INLINE), cmd("c", "blk", &[ARRAY], BLOCK), hook("document", BLOCK), hook("stmt", BLOCK), hook("expr", INLINE), hook("text", INLINE)], [true; 4])];
    let unit = unit(place, n, &[TEXT, EXPR, SQUARE, CURLY]);
    install(&plugs, None, |_| None);
    let mut p = start(&plugs);
    let make = |times: usize| wide(place, times, &unit).ast();
    if brack_codegen::generate::generate(&make(1), &mut p).is_err() { return }
    let p = std::cell::RefCell::new(p);
    let cost = |times: usize| { let t = make(times); sym::cost(|| brack_codegen::generate::generate(&t, &mut p.borrow_mut()).is_ok()) };
    let (a, b, c) = (cost(k), cost(2 * k), cost(4 * k));
    let slack = if sym::scale() == 1 { 115 } else { 140 };
    sym::check((c - b) * 100 <= 2 * (b - a) * slack + 300_000, "rendering twice as much costs more than twice as much");
    sym::cover("rendered");
}
