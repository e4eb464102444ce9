//! Helpers shared by the harnesses: running the front end and walking its results.
use crate::gen::*;
use brack_parser::cst::CST;
use brack_tokenizer::tokens::{Location, Token};
use brack_transformer::ast::AST;

pub fn tokenize(s: &str) -> Vec<Token> {
    match brack_tokenizer::tokenize::tokenize_str(s) { Ok(t) => t, Err(_) => sym::fail("the document cannot be tokenized") }
}
pub fn parse(t: &[Token]) -> CST {
    match brack_parser::parse::parse(t) { Ok(c) => c, Err(_) => sym::fail("the document cannot be parsed") }
}
pub struct Diag { pub msg: String, pub at: Location }
pub fn compile(s: &str) -> (AST, Vec<Diag>) {
    let (a, e) = brack_transformer::transform::transform(&parse(&tokenize(s)));
    (a, e.iter().map(|e| Diag { msg: e.get_message(), at: e.get_location() }).collect())
}

pub fn kind_no(t: &Token) -> u8 {
    match t {
        Token::Empty(_) => 0, Token::Text(..) => 1, Token::Module(..) => 2, Token::Ident(..) => 3, Token::NewLine(_) => 4,
        Token::WhiteSpace(_) => 5, Token::Dot(_) => 6, Token::BackSlash(_) => 7, Token::AngleBracketOpen(_) => 8,
        Token::AngleBracketClose(_) => 9, Token::SquareBracketOpen(_) => 10, Token::SquareBracketClose(_) => 11,
        Token::CurlyBracketOpen(_) => 12, Token::CurlyBracketClose(_) => 13, Token::Comma(_) => 14, Token::EOF(_) => 15,
    }
}
pub fn emit_tokens(t: &[Token]) { sym::emit(&t.iter().map(kind_no).collect::<Vec<_>>()) }
pub fn text_of(t: &Token) -> Option<&str> { match t { Token::Text(s, _) | Token::Module(s, _) | Token::Ident(s, _) => Some(s), _ => None } }
/// What a token without a text stands for.
pub fn spelled(t: &Token) -> &'static str {
    match t {
        Token::WhiteSpace(_) => " ", Token::Dot(_) => ".", Token::BackSlash(_) => "\\", Token::AngleBracketOpen(_) => "<",
        Token::AngleBracketClose(_) => ">", Token::SquareBracketOpen(_) => "[", Token::SquareBracketClose(_) => "]",
        Token::CurlyBracketOpen(_) => "{", Token::CurlyBracketClose(_) => "}", Token::Comma(_) => ",", _ => "",
    }
}
/// Clusters [i, j) that the token covers, if its text is what stands there in the document.
pub fn cover(d: &Doc, i: usize, t: &Token) -> Option<usize> {
    if let Token::NewLine(_) = t { return (i < d.len() && d.kind(i) == K::Nl).then_some(i + 1) }
    let s = text_of(t).unwrap_or(spelled(t)).as_bytes();
    if s.is_empty() { return None }
    let (mut j, end) = (i, d.cl[i] + s.len());
    while j < d.len() && d.cl[j] < end { j += 1 }
    (d.cl[j] == end && d.slice(i, j) == s).then_some(j)
}
/// (token, first cluster, end cluster); fails when the tokens are not the document.
pub fn tiles(d: &Doc, t: &[Token]) -> Vec<(usize, usize)> {
    let (mut v, mut i) = (vec![], 0);
    for x in &t[..t.len() - 1] {
        match cover(d, i, x) { Some(j) => { v.push((i, j)); i = j } None => sym::fail("a token is not what stands in the document") }
    }
    sym::check(i == d.len(), "the tokens end before the document does");
    v
}

pub type Pos = (usize, usize);
pub fn start(l: &Location) -> Pos { (l.start.line, l.start.character) }
pub fn end(l: &Location) -> Pos { (l.end.line, l.end.character) }
/// Line and column of every cluster and of the end of the document.
pub fn positions(d: &Doc) -> Vec<Pos> {
    let (mut v, mut p) = (vec![], (0, 0));
    for i in 0..d.len() { v.push(p); p = if d.kind(i) == K::Nl { (p.0 + 1, 0) } else { (p.0, p.1 + 1) } }
    v.push(p);
    v
}
/// The cluster that stands at a position.
pub fn at(ps: &[Pos], p: Pos) -> Option<usize> { ps.iter().position(|q| *q == p) }
/// The cluster whose end a position is (its right edge, on the line it stands on).
pub fn at_end(d: &Doc, ps: &[Pos], p: Pos) -> Option<usize> {
    if p == (0, 0) { return Some(0) }
    (0..d.len()).position(|i| (ps[i].0, ps[i].1 + 1) == p).map(|i| i + 1).or_else(|| at(ps, p))
}

pub fn leaves<'a>(c: &'a CST, out: &mut Vec<&'a CST>) {
    match c {
        CST::BackSlash(n) => { out.push(c); for x in &n.children { leaves(x, out) } }
        CST::Document(n) | CST::Stmt(n) | CST::Expr(n) | CST::Angle(n) | CST::Curly(n) | CST::Square(n) => for x in &n.children { leaves(x, out) },
        _ => out.push(c),
    }
}
