//! Macros: which calls they take and what becomes of the tree; and which plugin answers to a name.
use crate::{codegen::*, tree::*, world::*};
use brack_plugin::plugins::Plugins;
use std::{cell::RefCell, rc::Rc};

fn pick(n: usize) -> usize {
    if n <= 256 { return sym::choice(n as u32) as usize }
    let at = sym::choice((n as u32 + 255) / 256) as usize * 256 + sym::choice(256) as usize;
    sym::assume(at < n);
    at
}
fn names(t: &T) -> Option<(&[u8], &[u8])> {
    let (m, i) = (t.kids.first()?, t.kids.get(1)?);
    if m.kind != MODULE || i.kind != IDENT { return None }
    Some((m.value.as_deref()?, i.value.as_deref()?))
}
/// The tree with every macro that stands in no other macro replaced by its answer, and the calls.
pub struct Exp<'a> { pub plugs: &'a [Plug], pub whole: &'a T, pub answers: &'a [T], pub calls: Vec<Call>, pub stop: usize }
impl Exp<'_> {
    pub fn tree(&mut self, t: &T) -> Result<T, ()> {
        let mut o = t.clone();
        o.kids = vec![];
        for k in &t.kids {
            if k.kind != ANGLE { o.kids.push(self.tree(k)?); continue }
            let (m, i) = names(k).ok_or(())?;
            let plug = self.plugs.iter().rposition(|p| p.name == m).ok_or(())?;
            let c = self.plugs[plug].cmds.iter().rev().find(|c| c.name == i && c.ret == TAST).ok_or(())?;
            let n = self.calls.len();
            self.calls.push(Call { plug, func: c.call.clone(), input: Input::Macro(self.whole.clone(), k.id.as_bytes().to_vec()) });
            if n == self.stop { return Err(()) }
            o.kids.push(self.answers.get(n).ok_or(())?.clone());
        }
        Ok(o)
    }
}
/// Names and places for what `grow` made: macros of either plugin, and places that are all different.
fn dress(t: &mut T, n: &mut usize) {
    *n += 4;
    t.at = [*n, *n + 1, *n + 2, *n + 3];
    if t.kind == ANGLE { t.kids[0].value = Some(vec![sym::byte(b'm', b'n')]) }
    for k in &mut t.kids { dress(k, n) }
}
fn parse(l: &Log) -> Vec<Call> { l.borrow().clone() }
fn agree(got: &[Call], want: &[Call], what: &str) {
    sym::check(got.len() == want.len() && got.iter().zip(want).all(|(x, y)| same_call(x, y)), what);
}
/// Every tree, every answer; what the macros made is rendered as well.
pub fn b01() {
    let (mut left, more, weird) = (sym::param(0) as usize, sym::param(1) as usize, sym::param(2));
    let mut ids = Ids::new();
    let mut t = grow(DOC, &mut left, &mut ids, if weird == 2 { &[EXPR, ANGLE] } else { &[STMT, ANGLE, SQUARE, TEXT] });
    dress(&mut t, &mut 0);
    let plugs = [
        plug("m", vec![cmd("c", "mac", &[], TAST), cmd("c", "inl", &[ARRAY], INLINE), cmd("c", "blk", &[ARRAY], BLOCK)], [false; 4]),
        plug("n", vec![cmd("c", "nac", &[TAST], TAST), cmd("c", "inl", &[ARRAY], INLINE)], [false; 4]),
    ];
    let answers: Rc<RefCell<Vec<T>>> = Default::default();
    let a = answers.clone();
    let log = install(&plugs, None, move |_| {
        let kinds: &[usize] = if weird == 0 { &[EXPR, TEXT] } else { &[EXPR, TEXT, ANGLE, SQUARE, IDENT, MODULE, INVALID, IGNORED, STMT, DOC] };
        let mut ids = Ids::new();
        let mut left = more;
        let k = kinds[sym::choice(kinds.len() as u32) as usize];
        let mut t = grow(k, &mut left, &mut ids, if weird == 0 { &[TEXT, ANGLE] } else { &[TEXT, SQUARE, IDENT] });
        if weird > 0 {
            // macros may forget names and values
            match sym::choice(3) { 1 if t.kind > SQUARE => t.value = None, 2 if t.kind >= ANGLE && t.kind <= SQUARE => { t.kids.pop(); } _ => () }
        }
        let j = serde_json::to_vec(&t.json()).unwrap();
        a.borrow_mut().push(t);
        Some(j)
    });
    let mut p = start(&plugs);
    let got = brack_expander::expand::expander(&t.ast(), &mut p);
    let answers = answers.borrow();
    let mut e = Exp { plugs: &plugs, whole: &t, answers: &answers, calls: vec![], stop: usize::MAX };
    let want = e.tree(&t);
    agree(&parse(&log), &e.calls, "macros are not called once each, in order, with the whole document");
    let (Ok(got), Ok(want)) = (got, want) else { sym::fail("a tree whose macros all answer is refused") };
    if !e.calls.is_empty() { sym::cover("expanded") }
    if e.calls.len() > 1 { sym::cover("two macros") }
    sym::check(same(&T::of(&got), &want), "the tree is not the document with its macros replaced by what they returned");
    if weird > 0 {
        let mut g = Gen { plugs: &plugs, calls: vec![] };
        let w = g.render(&want);
        match (brack_codegen::generate::generate(&got, &mut p), w) {
            (Ok(a), Ok(b)) => { sym::check(a.as_bytes() == &b[..], "what macros made is not rendered as it says"); sym::cover("rendered") }
            (Err(e), Err(_)) => { let _ = e.to_string(); sym::cover("refused") }
            (Ok(_), Err(_)) => sym::fail("what macros made cannot be rendered, but is"),
            (Err(_), Ok(_)) => sym::fail("what macros made can be rendered, but is not"),
        }
    }
}
/// Many macros.
pub fn b01w() {
    let (n, times, place) = (sym::param(0) as usize, sym::param(1) as usize, sym::param(2) as usize);
    let mut t = wide(place, times, &unit(place, n, &[TEXT, ANGLE, SQUARE]));
    dress2(&mut t, &mut 0);
    let plugs = [plug("m", vec![cmd("c", "mac", &[], TAST)], [false; 4]), plug("n", vec![cmd("c", "nac", &[], TAST)], [false; 4])];
    let answers: Vec<T> = (0..256).map(|i| T::leaf(TEXT, format!("r{i}"), Some(format!("{i}").into_bytes()))).collect();
    let (a, n) = (answers.clone(), std::cell::Cell::new(0));
    let log = install(&plugs, None, move |_| { n.set(n.get() + 1); Some(serde_json::to_vec(&a[n.get() - 1].json()).unwrap()) });
    let mut p = start(&plugs);
    let got = brack_expander::expand::expander(&t.ast(), &mut p);
    let mut e = Exp { plugs: &plugs, whole: &t, answers: &answers, calls: vec![], stop: usize::MAX };
    let Ok(want) = e.tree(&t) else { sym::fail("too many macros for the harness") };
    agree(&parse(&log), &e.calls, "macros are not called once each, in order, with the whole document");
    let Ok(got) = got else { sym::fail("a tree whose macros all answer is refused") };
    if e.calls.len() > 1 { sym::cover("two macros") }
    sym::check(same(&T::of(&got), &want), "the tree is not the document with its macros replaced by what they returned");
}
/// Every other macro belongs to the other plugin.
fn dress2(t: &mut T, n: &mut usize) {
    *n += 1;
    t.at = [*n, *n + 1, *n + 2, *n + 3];
    if t.kind == ANGLE { t.kids[0].value = Some(vec![b'm' + (*n % 2) as u8]) }
    for k in &mut t.kids { dress2(k, n) }
}
/// Many plugins with many commands: each name is one of them.
pub fn b04w() {
    let (np, nc) = (sym::param(0) as usize, sym::param(1) as usize);
    let kinds = [INLINE, BLOCK, TAST];
    let name = |p: usize, i: usize| format!("{}{}", ["a", "ab", "b", "c_", "A", "m0", "m1", "m10"][p % 8], i).into_bytes();
    let plugs: Vec<Plug> = (0..np).map(|p| Plug { name: name(p, 0), cmds: (0..nc).map(|c| Cmd { name: name(c, c % 3), call: format!("f{p}_{c}"), args: vec![ARRAY], ret: kinds[(p + c) % 3] }).collect(), flags: [false; 4] }).collect();
    let (x, y, k) = (sym::choice(np as u32) as usize, sym::choice(nc as u32) as usize, sym::choice(3) as usize);
    let (mut m, mut i) = (plugs[x].name.clone(), plugs[x].cmds[y].name.clone());
    // or almost
    match sym::choice(3) { 1 => { let l = m.len() - 1; m[l] = sym::byte(b'0', b'9') } 2 => { let l = i.len() - 1; i[l] = sym::byte(b'0', b'9') } _ => () }
    let mut ids = Ids::new();
    let kids = vec![T::leaf(MODULE, ids.next(), Some(m.clone())), T::leaf(IDENT, ids.next(), Some(i.clone()))];
    let c = T::inner([SQUARE, CURLY, ANGLE][k], ids.next(), kids);
    let t = T::inner(DOC, ids.next(), vec![T::inner(STMT, ids.next(), vec![T::inner(EXPR, ids.next(), vec![c])])]);
    let log = install(&plugs, None, move |_| Some(serde_json::to_vec(&T::leaf(TEXT, "r".into(), Some(b"r".to_vec())).json()).unwrap()));
    let mut p = start(&plugs);
    let got = brack_expander::expand::expander(&t.ast(), &mut p).and_then(|t| brack_codegen::generate::generate(&t, &mut p));
    let plug = plugs.iter().position(|p| p.name == m);
    let cm = plug.and_then(|p| plugs[p].cmds.iter().find(|c| c.name == i && c.ret == kinds[k]));
    let log = log.borrow();
    match cm {
        Some(cm) => { sym::cover("found"); sym::check(got.is_ok() && log.len() == 1 && Some(log[0].plug) == plug && log[0].func == cm.call, "another command is called, or none") }
        None => { sym::cover("unknown"); sym::check(got.is_err() && log.is_empty(), "a command that no plugin has is accepted") }
    }
}
/// Which plugin and which of its functions a command is, whatever they are called.
pub fn b04() {
    let n = sym::param(0) as usize; // letters in a name
    let wide = sym::param(2) == 1;
    let name = || (0..n).map(|_| if wide { let b = sym::byte(b'A', b'z'); sym::assume(b != b'\\'); b } else { sym::byte(b'a', b'c') }).collect::<Vec<u8>>();
    let kinds = [INLINE, BLOCK, TAST];
    let mut plugs = vec![];
    for p in 0..2 {
        let mut cmds: Vec<Cmd> = vec![];
        for c in 0..sym::param(1) as usize {
            let k = Cmd { name: name(), call: if wide { sym::as_str(&name()).to_string() } else { format!("f{p}{c}") }, args: vec![ARRAY], ret: kinds[sym::choice(3) as usize] };
            // plugins say what a command is once
            for o in &cmds { sym::assume(o.ret != k.ret || o.name != k.name) }
            cmds.push(k);
        }
        plugs.push(Plug { name: name(), cmds, flags: [false; 4] });
    }
    sym::assume(plugs[0].name != plugs[1].name);
    let mut ids = Ids::new();
    let kind = [ANGLE, CURLY, SQUARE][sym::choice(3) as usize];
    let kids = vec![T::leaf(MODULE, ids.next(), Some(name())), T::leaf(IDENT, ids.next(), Some(name()))];
    let c = T::inner(kind, ids.next(), kids);
    let t = T::inner(DOC, ids.next(), vec![T::inner(STMT, ids.next(), vec![T::inner(EXPR, ids.next(), vec![c])])]);
    let log = install(&plugs, None, move |_| Some(serde_json::to_vec(&T::leaf(TEXT, "r".into(), Some(b"r".to_vec())).json()).unwrap()));
    let mut p = start(&plugs);
    let got = brack_expander::expand::expander(&t.ast(), &mut p).and_then(|t| brack_codegen::generate::generate(&t, &mut p));
    let c = &t.kids[0].kids[0].kids[0];
    let (m, i) = names(c).unwrap();
    let ret = match kind { ANGLE => TAST, CURLY => BLOCK, _ => INLINE };
    let plug = plugs.iter().position(|p| p.name == m);
    let cm = plug.and_then(|p| plugs[p].cmds.iter().find(|c| c.name == i && c.ret == ret));
    let log = log.borrow();
    match cm {
        Some(cm) => {
            sym::cover("found");
            sym::check(got.is_ok(), "a command that its plugin has is refused");
            sym::check(log.len() == 1 && Some(log[0].plug) == plug && log[0].func == cm.call, "another command is called");
        }
        None => {
            sym::cover("unknown");
            sym::check(got.is_err(), "a command that no plugin has is accepted");
            sym::check(log.is_empty(), "something is called for a command that no plugin has");
        }
    }
}
/// Which plugins are taken, and which together.
pub fn b05() {
    let names = ["document", "stmt", "expr", "text", "other"];
    let rets = [BLOCK, BLOCK, INLINE, INLINE];
    let mut all = vec![];
    let mut flagged = [0; 4];
    for i in 0..sym::param(0) as usize {
        let n = sym::choice(sym::param(1) as u32 + 1);
        let cmds: Vec<Cmd> = (0..n).map(|c| cmd(names[sym::choice(5) as usize], &format!("f{c}"), &[INLINE], [INLINE, BLOCK, TAST][sym::choice(3) as usize])).collect();
        let flags = [(); 4].map(|_| sym::choice(2) == 1);
        let p = Plug { name: vec![b'p', b'0' + i as u8], cmds, flags };
        let has = |h: usize, right: bool| p.cmds.iter().any(|c| c.name == names[h].as_bytes() && (c.ret == rets[h]) == right);
        let _ = install(&[plug("", vec![], [false; 4]), p.clone()], None, |_| None);
        let got = load(1, &p);
        let hooks = || (0..4).filter(|h| flags[*h]);
        let missing = hooks().any(|h| !has(h, true));
        // a hook given both rightly and wrongly may be either
        let unclear = hooks().any(|h| has(h, false));
        if missing { sym::cover("missing hook"); sym::check(got.is_err(), "a plugin without the hook it is used for is taken"); return }
        if !unclear { sym::cover("taken"); sym::check(got.is_ok(), "a plugin with all its hooks is refused") }
        let Ok(got) = got else { return };
        // nothing said about the plugin is lost
        for c in &p.cmds { sym::check(got.signature_to_metadata.iter().any(|(k, m)| k.0.as_bytes() == &c.name[..] && m.return_type == k.1 && m.command_name == k.0), "a command of a plugin is lost") }
        for h in hooks() { flagged[h] += 1 }
        all.push(got);
    }
    let twice = flagged.iter().any(|n| *n > 1);
    let r = Plugins::new(all);
    if twice { sym::cover("two for a hook"); sym::check(r.is_err(), "two plugins are taken for one hook") } else { sym::cover("together"); sym::check(r.is_ok(), "plugins that go together are refused") }
}
/// Plugins that have all hooks: which go together.
pub fn b05f() {
    let n = sym::param(0) as usize;
    let plugs: Vec<Plug> = (0..n).map(|i| Plug { name: vec![b'p', b'0' + i as u8], cmds: hooks([true; 4]).cmds, flags: [(); 4].map(|_| sym::choice(2) == 1) }).collect();
    let _ = install(&plugs, None, |_| None);
    let all = plugs.iter().enumerate().map(|(i, p)| load(i, p).unwrap_or_else(|_| sym::fail("a plugin with all its hooks is refused"))).collect();
    let twice = (0..4).any(|h| plugs.iter().filter(|p| p.flags[h]).count() > 1);
    let r = Plugins::new(all);
    if twice { sym::cover("two for a hook"); sym::check(r.is_err(), "two plugins are taken for one hook") } else { sym::cover("together"); sym::check(r.is_ok(), "plugins that go together are refused") }
}
/// A call that fails ends everything, wherever it is.
pub fn b06() {
    let (kinds, mut left) = (sym::param(1), sym::param(0) as usize);
    let fault = if sym::choice(2) == 0 { Fault::Fails } else { Fault::NotText };
    let mut ids = Ids::new();
    if kinds == 1 {
        // macros
        let mut t = grow(DOC, &mut left, &mut ids, &[STMT, ANGLE, SQUARE]);
        dress(&mut t, &mut 0);
        let plugs = [plug("m", vec![cmd("c", "mac", &[], TAST)], [false; 4]), plug("n", vec![cmd("c", "nac", &[], TAST)], [false; 4])];
        let k = sym::choice(3) as usize;
        let r = T::leaf(TEXT, "r".into(), Some(b"r".to_vec()));
        let j = serde_json::to_vec(&r.json()).unwrap();
        let log = install(&plugs, Some((k, fault)), move |_| Some(j.clone()));
        let mut p = start(&plugs);
        let got = brack_expander::expand::expander(&t.ast(), &mut p);
        let answers = vec![r; 8];
        let mut e = Exp { plugs: &plugs, whole: &t, answers: &answers, calls: vec![], stop: k };
        let want = e.tree(&t);
        agree(&parse(&log), &e.calls, "macros are called after one failed, or not called before it");
        sym::check(got.is_ok() == want.is_ok(), "a macro that fails goes unnoticed, or the other way round");
        sym::cover(if want.is_ok() { "rendered" } else { "a plugin fails" });
        return;
    }
    let t = if kinds == 2 {
        // below a statement, an expression or an argument
        let e = grow(EXPR, &mut left, &mut ids, &[SQUARE, CURLY, TEXT]);
        T::inner(DOC, ids.next(), vec![T::inner(STMT, ids.next(), vec![e])])
    } else if kinds == 3 {
        let s = grow(STMT, &mut left, &mut ids, &[EXPR, CURLY, TEXT]);
        T::inner(DOC, ids.next(), vec![s])
    } else { grow(DOC, &mut left, &mut ids, &[EXPR, SQUARE, CURLY, TEXT]) };
    let m = plug("m", vec![cmd("c", "inl", &[ARRAY], INLINE), cmd("c", "blk", &[ARRAY], BLOCK)], [false; 4]);
    let k = sym::choice(sym::param(2) as u32) as usize;
    decide(&t, &[m, hooks([true; 4])], Some((k, fault)));
}
/// Metadata with one byte changed, or cut short, makes a plugin or an error.
pub fn b06m() {
    let p = plug("m", vec![cmd("c", "f", &[OPTION, ARRAY], INLINE)], [false; 4]);
    let mut m = metadata(&p.cmds);
    let at = pick(m.len());
    let cut = sym::choice(2) == 1;
    if cut { m.truncate(at) } else { m[at] = sym::byte(0, 255) }
    extism::plugins(move |_, func, _| if func == "get_metadata" { Some(m.clone()) } else { None });
    match load(0, &p) {
        Ok(_) => { sym::cover("taken"); sym::check(!cut, "a plugin that says half of what it is, is taken") }
        Err(_) => sym::cover("refused"),
    }
}
/// A macro's answer with one byte changed, or cut short, makes a document or an error.
pub fn b06a() {
    let mut ids = Ids::new();
    let mut left = 0;
    let a = grow(ANGLE, &mut left, &mut ids, &[]);
    let t = T::inner(DOC, ids.next(), vec![T::inner(STMT, ids.next(), vec![T::inner(EXPR, ids.next(), vec![a])])]);
    let plugs = [plug("m", vec![cmd("c", "mac", &[], TAST), cmd("c", "inl", &[ARRAY], INLINE), cmd("c", "blk", &[ARRAY], BLOCK)], [false; 4])];
    let r = match sym::param(0) { 0 => T::leaf(TEXT, "r".into(), Some(b"r".to_vec())), _ => grow(SQUARE, &mut 0, &mut ids, &[]) };
    let mut j = serde_json::to_vec(&r.json()).unwrap();
    let at = pick(j.len());
    let cut = sym::choice(2) == 1;
    if cut { j.truncate(at) } else { j[at] = sym::byte(0, 255) }
    install(&plugs, None, move |_| Some(j.clone()));
    let mut p = start(&plugs);
    match brack_expander::expand::expander(&t.ast(), &mut p).and_then(|t| brack_codegen::generate::generate(&t, &mut p)) {
        Ok(_) => { sym::cover("rendered"); sym::check(!cut, "half an answer of a macro is taken") }
        Err(e) => { let _ = e.to_string(); sym::cover("refused") }
    }
}
