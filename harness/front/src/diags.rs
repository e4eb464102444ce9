use crate::{gen::*, refm::*, walk::*};
use brack_parser::cst::CST;

/// A document is refused exactly when it is not well-formed, and every diagnostic is about the
/// character it points at.
pub fn c07() {
    let d = doc();
    let (_, e) = compile(d.str());
    let good = P::document(&d).is_some();
    sym::emit(&[e.len() as u8]);
    sym::check(!good || e.is_empty(), "a well-formed document is refused");
    sym::check(good || !e.is_empty(), "a malformed document is accepted");
    sym::cover(if good { "well-formed" } else { "malformed" });
    let ps = positions(&d);
    let (open, stray) = unmatched(&d);
    let k = d.kinds();
    let mut bare = vec![];
    let mut escaped = vec![false; k.len() + 1];
    let mut i = 0;
    while i < k.len() {
        if k[i] == K::Back { if i + 1 < k.len() && special(k[i + 1]) { i += 1; escaped[i] = true } else { bare.push(i) } }
        i += 1;
    }
    let name = |o: u8| ["Angle", "Curly", "Square"][o as usize];
    let expect = |what: &str, want: Vec<(String, usize)>| {
        let mut got: Vec<(String, usize)> = vec![];
        for x in e.iter().filter(|x| x.msg.ends_with(what)) {
            match at(&ps, start(&x.at)) { Some(i) => got.push((x.msg.clone(), i)), None => sym::fail("a diagnostic outside the document") }
        }
        got.sort_by_key(|x| x.1);
        got == want
    };
    sym::check(expect("not closed", open.iter().map(|&(o, i)| (format!("{} bracket not closed", name(o)), i)).collect()), "the brackets reported as not closed are not those that are not closed");
    sym::check(expect("not opened", stray.iter().map(|&(o, i)| (format!("{} bracket not opened", name(o)), i)).collect()), "the brackets reported as not opened are not those that are not opened");
    sym::check(expect("backslash, or bracket", bare.iter().map(|&i| ("Backslash must be followed by dot, comma, backslash, or bracket".into(), i)).collect()), "the backslashes reported are not those that escape nothing");
    if !open.is_empty() { sym::cover("not closed") }
    if !stray.is_empty() { sym::cover("not opened") }
    if !bare.is_empty() { sym::cover("backslash") }
    let mut need = vec![];
    needs(&parse(&tokenize(d.str())), &mut need);
    for what in ["Need module", "Need dot after module", "Need identifier after module", "Unexpected dot", "Unexpected comma"] {
        let either: Vec<Pos> = need.iter().filter(|x| x.0.starts_with('(') && what == "Unexpected comma").map(|x| x.1).collect();
        let mut got: Vec<Pos> = e.iter().filter(|x| x.msg == what).map(|x| start(&x.at)).filter(|p| !either.contains(p)).collect();
        let mut want: Vec<Pos> = need.iter().filter(|x| x.0 == what).map(|x| x.1).collect();
        got.sort(); want.sort();
        sym::check(got == want, "the parts of a command reported as missing or unexpected are not those");
    }
    for x in &e {
        let (s, t) = (start(&x.at), end(&x.at));
        let i = match at(&ps, s) { Some(i) => i, None => sym::fail("a diagnostic starts outside the document") };
        sym::check(s <= t && at_end(&d, &ps, t).is_some(), "a diagnostic ends outside the document or before it starts");
        match &x.msg[..] {
            "Unexpected dot" => { sym::check(d.kind(i) == K::Dot && !escaped[i], "a dot is reported where none is"); sym::cover("dot") }
            "Unexpected comma" => { sym::check(i < k.len() && k[i] == K::Comma && !escaped[i], "a comma is reported where none is"); sym::cover("comma") }
            "Need module" => sym::cover("module"),
            "Need dot after module" => sym::cover("no dot"),
            "Need identifier after module" => sym::cover("identifier"),
            _ => (),
        }
    }
}

/// What every command of a syntax tree lacks, or has where it should not.
fn needs(c: &CST, out: &mut Vec<(&'static str, Pos)>) {
    if let CST::Document(n) | CST::Stmt(n) | CST::Expr(n) | CST::Angle(n) | CST::Curly(n) | CST::Square(n) = c { for x in &n.children { needs(x, out) } }
    let (CST::Angle(n) | CST::Curly(n) | CST::Square(n)) = c else { return };
    let mut parts: Vec<&CST> = vec![];
    for x in &n.children {
        let inner: Vec<&CST> = match x { CST::Expr(e) => e.children.iter().collect(), x => vec![x] };
        for y in inner { parts.push(match y { CST::BackSlash(b) if !b.children.is_empty() => &b.children[0], y => y }) }
    }
    let place = |i: usize| start(&parts[i].location());
    let name = |i: usize| matches!(parts[i], CST::Angle(_)) || (i == 1 && matches!(parts[i], CST::Module(_))) || (i == 3 && matches!(parts[i], CST::Ident(_)));
    let before = out.len();
    if parts.len() > 1 && !name(1) { out.push(("Need module", place(1))) }
    if parts.len() > 2 && !matches!(parts[2], CST::Dot(_)) { out.push(("Need dot after module", place(2))) }
    if parts.len() > 3 && !name(3) { out.push(("Need identifier after module", place(3))) }
    let headless = parts.len() < 4 || out.len() > before;
    let dots = parts.iter().skip(3).any(|x| matches!(x, CST::Dot(_)));
    for i in 3..parts.len() { if let CST::Dot(_) = parts[i] { out.push(("Unexpected dot", place(i))) } }
    if dots {
        // what an unexpected dot means for the arguments around it is not said
        for (i, x) in parts.iter().enumerate() { if let CST::Comma(_) = x { out.push(("(either)", place(i))) } }
    } else if headless {
        // where arguments begin is then anyone's guess, except that a space or line break is none
        let solid: Vec<&&CST> = parts.iter().filter(|x| !matches!(x, CST::Whitespace(_) | CST::Newline(_))).collect();
        if solid.len() > 4 { commas(solid[4..].iter().map(|x| **x).collect(), out) }
    } else { commas(parts[4..].to_vec(), out) }
}
fn commas(parts: Vec<&CST>, out: &mut Vec<(&'static str, Pos)>) {
    let (mut content, mut comma) = (false, None);
    for x in parts {
        match x {
            CST::Comma(_) => {
                if !content { out.push(("Unexpected comma", start(&x.location()))) } else { comma = Some(start(&x.location())) }
                content = false;
            }
            CST::AngleBracketClose(_) | CST::CurlyBracketClose(_) | CST::SquareBracketClose(_) => if let (false, Some(p)) = (content, comma) { out.push(("Unexpected comma", p)) },
            CST::Whitespace(_) | CST::Newline(_) | CST::Dot(_) => (),
            _ => { content = true; comma = None }
        }
    }
}
