use crate::{gen::*, refm::*, walk::*};

fn nesting(d: &Doc) -> usize {
    let k = d.kinds();
    let (mut stack, mut most, mut i) = (vec![], 0, 0);
    while i < k.len() {
        match k[i] {
            K::Back if i + 1 < k.len() && special(k[i + 1]) => i += 1,
            K::Open(o) => { stack.push(o); most = most.max(stack.len()) }
            K::Close(c) => while let Some(o) = stack.pop() { if o == c { break } },
            _ => (),
        }
        i += 1;
    }
    most
}
fn everything(s: &str) -> usize {
    let t = tokenize(s);
    let c = parse(&t);
    let shown = c.to_string().len();
    let (a, e) = brack_transformer::transform::transform(&c);
    sym::check(e.iter().all(|x| !x.to_string().is_empty()), "an empty message");
    shown.min(1) + a.to_string().len().min(1)
}
/// Nothing in a document stops the front end.
pub fn c09() {
    let d = doc();
    sym::check(everything(d.str()) == 2, "nothing is shown");
    sym::cover("done");
}
/// The stack needed depends on how deep commands are nested, not on how long the document is.
pub fn c09l() {
    let n = sym::param(0) as usize;
    let unit: Vec<u8> = (0..n).map(|_| sym::byte(0, 127)).collect();
    let make = |times: usize| { let mut p = vec![]; for _ in 0..times { for b in &unit { p.push(vec![*b]) } } Doc::new(&p) };
    let (short, long) = (make(3), make(sym::param(1) as usize));
    sym::assume(nesting(&short) == nesting(&long));
    let (_, s) = sym::stack_used(|| everything(short.str()));
    let (_, l) = sym::stack_used(|| everything(long.str()));
    sym::check(l <= s + 600, "a longer document needs a deeper stack");
    sym::cover("done");
}

/// Paragraphs do not depend on each other.
pub fn c10() {
    let (n, m) = (sym::param(0) as usize, sym::param(1) as usize);
    let pre = AROUND[sym::param(2) as usize];
    let part = |n: usize, pre: &str| { let mut p: Vec<Vec<u8>> = parts(pre); for _ in 0..n { p.push(vec![sym::byte(0, 127)]) } p };
    let (a, b) = (part(n, pre.0), part(m, pre.1));
    let brk = vec![vec![b'\n'], vec![b'\n']];
    let all: Vec<Vec<u8>> = a.iter().chain(&brk).chain(&b).cloned().collect();
    let (da, db, dall) = (Doc::new(&a), Doc::new(&b), Doc::new(&all));
    // a command that is still open goes on in the next paragraph
    sym::assume(unmatched(&da).0.is_empty());
    // and a carriage return would join the line feed after it
    sym::assume(a.last().map_or(true, |x| x[0] != b'\r'));
    let ((ta, ea), (tb, eb), (t, e)) = (compile(da.str()), compile(db.str()), compile(dall.str()));
    sym::emit(&[ea.len() as u8, eb.len() as u8, e.len() as u8]);
    let (ra, rb, rt) = (in_pieces(&ta), in_pieces(&tb), in_pieces(&t));
    if let (R::Doc(mut x), R::Doc(y), R::Doc(z)) = (ra, rb, rt) {
        x.extend(y);
        sym::check(same(&R::Doc(x), &R::Doc(z)), "a paragraph reads differently next to another one");
    } else { sym::fail("no document") }
    let lines = da.lines().len() - 1 + 2;
    let mut want: Vec<(String, Pos, Pos)> = ea.iter().map(|d| (d.msg.clone(), start(&d.at), end(&d.at))).collect();
    let down = |p: Pos| (p.0 + lines, p.1);
    want.extend(eb.iter().map(|d| (d.msg.clone(), down(start(&d.at)), down(end(&d.at)))));
    let got: Vec<(String, Pos, Pos)> = e.iter().map(|d| (d.msg.clone(), start(&d.at), end(&d.at))).collect();
    sym::check(want == got, "diagnostics of a paragraph differ next to another one");
    if e.is_empty() { sym::cover("well-formed") } else { sym::cover("malformed") }
}
pub const AROUND: &[(&str, &str)] = &[("", ""), ("[m.c ", ""), ("", "[m.c "), ("{m.c x} ", "<n.d y> "), ("[m.c", "a b.c "), ("⟨m.c ⟨n.d ⟨o.e x⟩⟩⟩", "b, c. d"), ("<m.<n.d> ⟨o.e y⟫§>", "§b, [p.f x]§"), ("⟨m.c ⟨n.d ⟨o.e ⟨p.f x⟫⟫⟫⟫", "q, r "), ("«30:a\n\n»[m.c x", "«20:b\n\n»b, "), ("[m.c «30:a, {n.d x}»]", "«20:[m.c x] »"), ("«10:[m.c »«10:]»", "«10:{m.c »«10:}»")];
/// Twice as long a document costs twice as much.
pub fn c29() {
    let (n, k) = (sym::param(0) as usize, sym::param(1) as usize * sym::scale());
    let unit: Vec<Vec<u8>> = parts(UNITS[sym::param(2) as usize].0).into_iter().chain((0..n).map(|_| vec![sym::byte(0, 127)])).chain(parts(UNITS[sym::param(2) as usize].1)).collect();
    let make = |times: usize| { let mut p = vec![]; for _ in 0..times { p.extend(unit.iter().cloned()) } Doc::new(&p) };
    // commands that are never closed are nested ever deeper
    sym::assume(nesting(&make(3)) == nesting(&make(4)));
    let costs = |times: usize| {
        let d = make(times);
        let t = tokenize(d.str());
        let c = parse(&t);
        [sym::cost(|| tokenize(d.str())), sym::cost(|| parse(&t)), sym::cost(|| brack_transformer::transform::transform(&c))]
    };
    let (a, b, c) = (costs(k), costs(2 * k), costs(4 * k));
    let slack = if sym::scale() == 1 { 115 } else { 140 };
    for (i, what) in ["tokenizing", "parsing", "transforming"].iter().enumerate() {
        sym::check((c[i] - b[i]) * 100 <= 2 * (b[i] - a[i]) * slack + 300_000, &format!("{what} a document twice as long costs more than twice as much"));
    }
    sym::cover("done");
}
const UNITS: [(&str, &str); 6] = [("", ""), ("[m.c ", "]"), ("x", "\n\n"), ("<m.c>", ""), ("abcdefgh", ""), ("{m.c a,", "}")];
