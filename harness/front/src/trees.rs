use crate::{gen::*, refm::*, walk::*};
use brack_parser::cst::CST;
use brack_tokenizer::tokens::{Location, LocationData, Token};
use brack_transformer::ast::AST;

fn leaf_is(c: &CST, t: &Token, escaped: bool) -> bool {
    if let (CST::Text(l), true) = (c, escaped) { return l.value.as_deref() == Some(spelled(t)) }
    match (c, t) {
        (CST::Text(l), Token::Text(s, _)) | (CST::Module(l), Token::Module(s, _)) | (CST::Ident(l), Token::Ident(s, _)) => l.value.as_ref() == Some(s),
        (CST::Newline(_), Token::NewLine(_)) | (CST::Whitespace(_), Token::WhiteSpace(_)) | (CST::Dot(_), Token::Dot(_)) | (CST::Comma(_), Token::Comma(_))
        | (CST::AngleBracketOpen(_), Token::AngleBracketOpen(_)) | (CST::AngleBracketClose(_), Token::AngleBracketClose(_))
        | (CST::SquareBracketOpen(_), Token::SquareBracketOpen(_)) | (CST::SquareBracketClose(_), Token::SquareBracketClose(_))
        | (CST::CurlyBracketOpen(_), Token::CurlyBracketOpen(_)) | (CST::CurlyBracketClose(_), Token::CurlyBracketClose(_))
        | (CST::BackSlash(_), Token::BackSlash(_)) | (CST::EOF(_), Token::EOF(_)) => true,
        _ => false,
    }
}
fn shape(c: &CST) {
    let nl = |c: &CST| matches!(c, CST::Newline(_));
    let ok = |b: bool| sym::check(b, "the syntax tree is not of the grammar");
    match c {
        CST::Document(n) => {
            let k = &n.children;
            ok(matches!(k.last(), Some(CST::EOF(_))));
            for (i, x) in k[..k.len() - 1].iter().enumerate() {
                ok(nl(x) || matches!(x, CST::Stmt(_)));
                if let CST::Stmt(_) = x {
                    ok(i == 0 || nl(&k[i - 1]));
                    // a lone line break joins lines, so statements are two apart
                    if i > 1 && k[..i].iter().any(|x| matches!(x, CST::Stmt(_))) { ok(nl(&k[i - 2])); sym::cover("two statements") }
                }
                shape(x);
            }
        }
        CST::Stmt(n) => {
            let k = &n.children;
            ok(!k.is_empty() && !nl(&k[0]) && !nl(&k[k.len() - 1]));
            for i in 0..k.len() {
                ok(matches!(k[i], CST::Expr(_) | CST::Newline(_) | CST::AngleBracketClose(_) | CST::CurlyBracketClose(_) | CST::SquareBracketClose(_)));
                ok(i == 0 || !(nl(&k[i]) && nl(&k[i - 1])));
                ok(i == 0 || !(matches!(k[i], CST::Expr(_)) && matches!(k[i - 1], CST::Expr(_))));
                shape(&k[i]);
            }
        }
        CST::Expr(n) => {
            ok(!n.children.is_empty());
            for x in &n.children {
                ok(matches!(x, CST::Angle(_) | CST::Curly(_) | CST::Square(_) | CST::BackSlash(_) | CST::Module(_) | CST::Ident(_) | CST::Text(_) | CST::Whitespace(_) | CST::Dot(_) | CST::Comma(_)));
                shape(x);
            }
        }
        CST::Angle(n) | CST::Curly(n) | CST::Square(n) => {
            let k = &n.children;
            ok(matches!((c, &k[0]), (CST::Angle(_), CST::AngleBracketOpen(_)) | (CST::Curly(_), CST::CurlyBracketOpen(_)) | (CST::Square(_), CST::SquareBracketOpen(_))));
            for i in 1..k.len() {
                let close = matches!((c, &k[i]), (CST::Angle(_), CST::AngleBracketClose(_)) | (CST::Curly(_), CST::CurlyBracketClose(_)) | (CST::Square(_), CST::SquareBracketClose(_)));
                ok(nl(&k[i]) || matches!(k[i], CST::Expr(_)) || (close && i == k.len() - 1));
                if close { sym::cover("closed") }
                shape(&k[i]);
            }
        }
        CST::BackSlash(n) => ok(n.children.len() <= 1 && n.children.iter().all(|x| matches!(x, CST::Text(_)))),
        _ => (),
    }
}
fn faithful(t: &[Token]) {
    let c = parse(t);
    let mut l = vec![];
    leaves(&c, &mut l);
    sym::check(matches!(c, CST::Document(_)), "the root is not a document");
    sym::check(l.len() == t.len(), "the syntax tree drops or invents tokens");
    let mut after = false;
    for (x, y) in l.iter().zip(t) {
        sym::check(leaf_is(x, y, after), "a leaf of the syntax tree is not its token");
        if !matches!(x, CST::BackSlash(_)) { sym::check(x.location() == y.get_location(), "a leaf is not where its token is") }
        after = matches!(x, CST::BackSlash(n) if !n.children.is_empty());
    }
    shape(&c);
}

/// Every document has a syntax tree whose leaves are the tokens, and which is of the grammar.
pub fn c05() {
    let d = doc();
    let t = tokenize(d.str());
    emit_tokens(&t);
    faithful(&t);
}
/// The same for every sequence of tokens.
pub fn c05t() {
    let n = sym::param(0) as usize;
    let mut t = vec![];
    let loc = |i: usize| Location { start: LocationData { line: 0, character: i }, end: LocationData { line: 0, character: i + 1 } };
    for i in 0..n {
        let (l, s) = (loc(i), || String::from("x"));
        t.push(match sym::choice(14) {
            0 => Token::Text(s(), l), 1 => Token::Module(s(), l), 2 => Token::Ident(s(), l), 3 => Token::NewLine(l), 4 => Token::WhiteSpace(l),
            5 => Token::Dot(l), 6 => Token::BackSlash(l), 7 => Token::AngleBracketOpen(l), 8 => Token::AngleBracketClose(l), 9 => Token::SquareBracketOpen(l),
            10 => Token::SquareBracketClose(l), 11 => Token::CurlyBracketOpen(l), 12 => Token::CurlyBracketClose(l), _ => Token::Comma(l),
        });
    }
    t.push(Token::EOF(loc(n)));
    emit_tokens(&t);
    faithful(&t);
}

fn closed(c: &CST) -> bool {
    match c {
        CST::Angle(n) => matches!(n.children.last(), Some(CST::AngleBracketClose(_))),
        CST::Curly(n) => matches!(n.children.last(), Some(CST::CurlyBracketClose(_))),
        CST::Square(n) => matches!(n.children.last(), Some(CST::SquareBracketClose(_))),
        CST::Document(n) | CST::Stmt(n) | CST::Expr(n) => n.children.iter().all(closed),
        _ => true,
    }
}
fn inside(outer: &Location, inner: &Location) -> bool { start(outer) <= start(inner) && end(inner) <= end(outer) }
fn located(c: &CST) {
    let l = c.location();
    sym::check(start(&l) <= end(&l), "a node ends before it starts");
    if let CST::Document(n) | CST::Stmt(n) | CST::Expr(n) | CST::Angle(n) | CST::Curly(n) | CST::Square(n) | CST::BackSlash(n) = c {
        let all = closed(c);
        for (i, x) in n.children.iter().enumerate() {
            let m = x.location();
            sym::check(inside(&l, &m), "a node does not cover its parts");
            if i > 0 {
                let p = n.children[i - 1].location();
                sym::check(start(&p) <= start(&m), "parts of a node are out of order");
                if closed(&n.children[i - 1]) { sym::check(end(&p) <= start(&m), "parts of a node overlap") }
            }
            located(x);
        }
        if let Some(x) = n.children.first() {
            if !matches!(c, CST::BackSlash(_)) { sym::check(start(&x.location()) == start(&l), "a node starts before its first part") }
        }
        if let (Some(x), true) = (n.children.last(), all) { sym::check(end(&x.location()) == end(&l), "a node ends after its last part") }
    }
}
fn ast_loc(a: &AST) -> Location {
    match a {
        AST::Document(n) | AST::Stmt(n) | AST::Expr(n) | AST::Angle(n) | AST::Square(n) | AST::Curly(n) => n.location.clone(),
        AST::Ident(n) | AST::Module(n) | AST::Text(n) | AST::Invalid(n) | AST::Ignored(n) => n.location.clone(),
    }
}
fn sourced(d: &Doc, ps: &[Pos], a: &AST) {
    let l = ast_loc(a);
    match a {
        AST::Document(n) | AST::Stmt(n) | AST::Expr(n) | AST::Angle(n) | AST::Square(n) | AST::Curly(n) => {
            for (i, x) in n.children.iter().enumerate() {
                let m = ast_loc(x);
                sym::check(inside(&l, &m), "a node does not cover its children");
                if i > 0 { sym::check(end(&ast_loc(&n.children[i - 1])) <= start(&m), "children of a node overlap or are out of order") }
                sourced(d, ps, x);
            }
            let edge = match a { AST::Angle(_) => Some((0, "angle")), AST::Curly(_) => Some((1, "curly")), AST::Square(_) => Some((2, "square")), _ => None };
            if let Some((o, name)) = edge {
                let (i, j) = (at(ps, start(&l)), at_end(d, ps, end(&l)));
                sym::check(i.is_some_and(|i| d.kind(i) == K::Open(o)), "a command does not start at its bracket");
                sym::check(j.is_some_and(|j| j > 0 && d.kind(j - 1) == K::Close(o)), "a command does not end at its bracket");
                sym::cover(name);
            }
        }
        AST::Ident(n) | AST::Module(n) | AST::Text(n) => {
            let (i, j) = (at(ps, start(&l)), at_end(d, ps, end(&l)));
            match (i, j) {
                (Some(i), Some(j)) if i <= j => sym::check(n.value.as_deref().map(str::as_bytes) == Some(d.slice(i, j)), "a leaf is not the text at its place"),
                _ => sym::fail("a leaf is nowhere in the document"),
            }
        }
        _ => sym::fail("a well-formed document has an invalid node"),
    }
}
/// Nodes cover their parts and leaves are the text at their place.
pub fn c06() {
    let d = doc();
    let c = parse(&tokenize(d.str()));
    located(&c);
    let (a, e) = brack_transformer::transform::transform(&c);
    sym::emit(&[e.len() as u8]);
    if e.is_empty() { sourced(&d, &positions(&d), &a); sym::cover("well-formed") } else { sym::cover("malformed") }
}

/// A well-formed document means the tree that the reference reader reads from it.
pub fn c08() {
    let d = doc();
    let r = P::document(&d);
    if let Some(r) = r {
        let (a, _) = compile(d.str());
        sym::check(same(&from_ast(&a), &r), "the tree is not the one that is written");
        sym::cover("well-formed");
        sym::emit(&[1]);
    } else { sym::cover("malformed"); sym::emit(&[0]) }
}

fn unescape(r: &mut R, c: u8) {
    match r {
        R::Doc(v) | R::Stmt(v) | R::Expr(v) | R::Cmd(_, v) => for x in v { unescape(x, c) },
        R::Text(t) => while let Some(i) = t.windows(2).position(|w| w == b"QQ") { t[i] = c; t.remove(i + 1); },
        _ => (),
    }
}
fn has_qq(r: &R) -> bool {
    match r {
        R::Doc(v) | R::Stmt(v) | R::Expr(v) | R::Cmd(_, v) => v.iter().any(has_qq),
        R::Text(t) => t.windows(2).any(|w| w == b"QQ"),
        _ => false,
    }
}
/// An escaped character means the same as a plain one in its place.
pub fn c04() {
    let t = &expand(ESCAPED[sym::param(0) as usize]);
    let e = b"<>{}[].,\\"[sym::choice(9) as usize];
    let (mut with, mut without) = (vec![], vec![]);
    let mut b = [0; 4];
    for c in t.chars() {
        match c {
            '?' => { let b = sym::byte(0, 127); sym::assume(b != b'Q'); with.push(vec![b]); without.push(vec![b]) }
            '~' => { with.push(vec![b'\\']); with.push(vec![e]); without.push(vec![b'Q']); without.push(vec![b'Q']) }
            c => { let s = c.encode_utf8(&mut b).as_bytes().to_vec(); with.push(s.clone()); without.push(s) }
        }
    }
    let (dw, dn) = (Doc::new(&with), Doc::new(&without));
    // a backslash before a slot would escape the backslash instead
    let mut j = 0;
    while j < dn.len() {
        if dn.kind(j) == K::Back { sym::assume(j + 1 == dn.len() || dn.at(j + 1) != b"Q"); if j + 1 < dn.len() && special(dn.kind(j + 1)) { j += 1 } }
        j += 1;
    }
    let ((aw, ew), (an, en)) = (compile(dw.str()), compile(dn.str()));
    sym::emit(&[ew.len() as u8, en.len() as u8]);
    let bracket = |d: &Diag| d.msg.ends_with("not opened") || d.msg.ends_with("not closed");
    let (bw, bn): (Vec<_>, Vec<_>) = (ew.iter().filter(|d| bracket(d)).collect(), en.iter().filter(|d| bracket(d)).collect());
    sym::check(bw.len() == bn.len() && bw.iter().zip(&bn).all(|(x, y)| x.msg == y.msg && x.at == y.at), "an escaped character opens or closes a bracket");
    let mut rn = from_ast(&an);
    if en.is_empty() && has_qq(&rn) {
        sym::check(ew.is_empty(), "a document with an escaped character is refused");
        unescape(&mut rn, e);
        sym::check(same(&from_ast(&aw), &rn), "an escaped character is not itself");
        sym::cover("compared");
    } else { sym::cover("other") }
}
pub const ESCAPED: &[&str] = &[
    "~??", "?~?", "??~", "[m.c ?~?]", "[m.c ~ ?, ?]", "[m.c ?, ?~]", "{m.c [n.d ~]?~}", "<m.c ~?>?", "a ~ b\n?~\n", "?[m.c ?]~?", "[m.c ~][n.d ?]?", "[m.c {n.d ?} ~ ?]",
    "«8:[m.c »~?«8:]»?", "«300:x»?~", "{m.c «20:a, »?~}", "«20:a\n\n»~?[m.c ~]", "«30:~»?", "[m.c «20:~ »?]",
    "[m.c ?~?,?]", "??~??", "{m.c ??~??}",
];
