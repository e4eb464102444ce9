//! What a document means, written down independently of the implementation.
use crate::gen::*;
use brack_transformer::ast::AST;

#[derive(Debug, Clone)]
pub enum R { Doc(Vec<R>), Stmt(Vec<R>), Expr(Vec<R>), Cmd(u8, Vec<R>), Module(Vec<u8>), Ident(Vec<u8>), Text(Vec<u8>), Bad }

/// Adjacent pieces of text are one piece.
pub fn push(v: &mut Vec<R>, r: R) {
    if let (Some(R::Text(a)), R::Text(b)) = (v.last_mut(), &r) { a.extend_from_slice(b); return }
    v.push(r)
}

pub struct P<'a> { d: &'a Doc, k: Vec<K>, i: usize }
impl<'a> P<'a> {
    /// The tree of a well-formed document, None for any other.
    pub fn document(d: &'a Doc) -> Option<R> {
        let mut p = P { d, k: d.kinds(), i: 0 };
        let mut out = vec![];
        while p.i < p.k.len() {
            if p.k[p.i] == K::Nl { p.i += 1; continue }
            out.push(p.stmt()?);
        }
        Some(R::Doc(out))
    }
    fn kind(&self) -> Option<K> { self.k.get(self.i).copied() }
    fn stmt(&mut self) -> Option<R> {
        let mut out = vec![];
        loop {
            out.push(self.line()?);
            // a single line break continues the statement, anything more ends it
            match (self.kind(), self.k.get(self.i + 1)) {
                (Some(K::Nl), Some(k)) if *k != K::Nl => self.i += 1,
                _ => return Some(R::Stmt(out)),
            }
        }
    }
    fn line(&mut self) -> Option<R> {
        let mut out = vec![];
        while let Some(k) = self.kind() {
            match k {
                K::Nl => break,
                K::Close(_) => return None,
                K::Open(o) => { let c = self.command(o)?; push(&mut out, c) }
                K::Back => { let e = self.escape()?; push(&mut out, e) }
                _ => { push(&mut out, R::Text(self.d.at(self.i).to_vec())); self.i += 1 }
            }
        }
        Some(R::Expr(out))
    }
    fn escape(&mut self) -> Option<R> {
        let k = *self.k.get(self.i + 1)?;
        if !special(k) { return None }
        self.i += 2;
        Some(R::Text(self.d.at(self.i - 1).to_vec()))
    }
    fn name(&mut self) -> Option<Vec<u8>> {
        let mut out = vec![];
        while self.kind() == Some(K::Other) { out.extend_from_slice(self.d.at(self.i)); self.i += 1 }
        if out.is_empty() { None } else { Some(out) }
    }
    fn command(&mut self, o: u8) -> Option<R> {
        self.i += 1;
        let mut out = vec![];
        let m = if self.kind() == Some(K::Open(0)) { self.command(0)? } else { R::Module(self.name()?) };
        out.push(m);
        if self.kind()? != K::Dot { return None }
        self.i += 1;
        if self.kind() == Some(K::Open(0)) { let c = self.command(0)?; out.push(c) } else {
            let n = self.name()?;
            if !matches!(self.kind()?, K::Sp | K::Nl | K::Close(_)) { return None }
            out.push(R::Ident(n));
        }
        let (mut arg, mut after_comma, mut spaces, mut fresh) = (vec![], false, 0, true);
        loop {
            match self.kind()? {
                K::Sp => { spaces += 1; self.i += 1 }
                K::Nl => { fresh = true; self.i += 1 }
                K::Comma => {
                    if arg.is_empty() { return None }
                    out.push(R::Expr(std::mem::take(&mut arg)));
                    after_comma = true; fresh = true;
                    self.i += 1;
                }
                K::Close(c) => {
                    if c != o || (after_comma && arg.is_empty()) { return None }
                    if !arg.is_empty() { out.push(R::Expr(arg)) }
                    self.i += 1;
                    return Some(R::Cmd(o, out));
                }
                K::Dot => return None,
                k => {
                    if !fresh { for _ in 0..spaces { push(&mut arg, R::Text(b" ".to_vec())) } }
                    spaces = 0; fresh = false;
                    let r = match k {
                        K::Open(c) => self.command(c)?,
                        K::Back => self.escape()?,
                        _ => { self.i += 1; R::Text(self.d.at(self.i - 1).to_vec()) }
                    };
                    push(&mut arg, r);
                }
            }
        }
    }
}

/// Brackets that are opened but not closed, and closed but not opened, by cluster index.
pub fn unmatched(d: &Doc) -> (Vec<(u8, usize)>, Vec<(u8, usize)>) {
    let k = d.kinds();
    let (mut stack, mut open, mut stray) = (vec![], vec![], vec![]);
    let mut i = 0;
    while i < k.len() {
        match k[i] {
            K::Back if i + 1 < k.len() && special(k[i + 1]) => i += 1,
            K::Open(o) => stack.push((o, i)),
            K::Close(c) => {
                // a closing bracket ends every command in it that is still open
                while let Some(&(o, at)) = stack.last() {
                    if o == c { break }
                    open.push((o, at));
                    stack.pop();
                }
                if stack.pop().is_none() { stray.push((c, i)) }
            }
            _ => (),
        }
        i += 1;
    }
    open.extend(stack);
    open.sort_by_key(|x| x.1);
    (open, stray)
}

pub fn from_ast(a: &AST) -> R { tree(a, true) }
/// With the text in the pieces it is in.
pub fn in_pieces(a: &AST) -> R { tree(a, false) }
fn tree(a: &AST, join: bool) -> R {
    let kids = |v: &Vec<AST>| { let mut o = vec![]; for c in v { let r = tree(c, join); if join { push(&mut o, r) } else { o.push(r) } } o };
    let val = |v: &Option<String>| v.as_ref().map(|s| s.as_bytes().to_vec()).unwrap_or_default();
    match a {
        AST::Document(n) => R::Doc(n.children.iter().map(|c| tree(c, join)).collect()),
        AST::Stmt(n) => R::Stmt(kids(&n.children)),
        AST::Expr(n) => R::Expr(kids(&n.children)),
        AST::Angle(n) => R::Cmd(0, kids(&n.children)),
        AST::Curly(n) => R::Cmd(1, kids(&n.children)),
        AST::Square(n) => R::Cmd(2, kids(&n.children)),
        AST::Ident(n) => R::Ident(val(&n.value)),
        AST::Module(n) => R::Module(val(&n.value)),
        AST::Text(n) => R::Text(val(&n.value)),
        _ => R::Bad,
    }
}

pub fn same(a: &R, b: &R) -> bool {
    let all = |x: &Vec<R>, y: &Vec<R>| x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q));
    match (a, b) {
        (R::Doc(x), R::Doc(y)) | (R::Stmt(x), R::Stmt(y)) | (R::Expr(x), R::Expr(y)) => all(x, y),
        (R::Cmd(k, x), R::Cmd(l, y)) => k == l && all(x, y),
        (R::Module(x), R::Module(y)) | (R::Ident(x), R::Ident(y)) | (R::Text(x), R::Text(y)) => x == y,
        (R::Bad, R::Bad) => true,
        _ => false,
    }
}
