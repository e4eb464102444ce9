use crate::{gen::*, walk::*};
use brack_tokenizer::tokens::Token;

/// The tokens spell the document, character by character, and end with one end mark.
pub fn c01() {
    let d = doc();
    let t = tokenize(d.str());
    emit_tokens(&t);
    sym::check(matches!(t.last(), Some(Token::EOF(_))), "the last token is not the end of the document");
    tiles(&d, &t);
    for x in &t[..t.len() - 1] {
        if let Some(s) = text_of(x) {
            sym::check(!s.is_empty(), "a token without a character");
            sym::cover(match x { Token::Text(..) => "text", Token::Module(..) => "module", _ => "ident" });
        } else { sym::cover("mark") }
    }
}

/// Every token is where its characters are: lines and columns tile the document.
pub fn c02() {
    let d = doc();
    let t = tokenize(d.str());
    emit_tokens(&t);
    let ps = positions(&d);
    let v = tiles(&d, &t);
    for (x, (i, j)) in t.iter().zip(&v) {
        let l = x.get_location();
        sym::check(start(&l) == ps[*i], "a token starts somewhere else than its first character");
        let (line, col) = ps[*i];
        sym::check(end(&l) == (line, col + j - i), "a token ends somewhere else than its last character");
        if line > 0 { sym::cover("second line") }
        if col > 0 { sym::cover("later column") }
    }
    let l = t[t.len() - 1].get_location();
    sym::check(start(&l) == ps[d.len()] && end(&l) == ps[d.len()], "the end mark is not at the end of the document");
}

/// Which characters are marks: brackets and backslashes everywhere, dots, commas and spaces inside
/// commands, nothing after a backslash, and only the name parts of commands are names.
pub fn c03() {
    let d = doc();
    let t = tokenize(d.str());
    emit_tokens(&t);
    let (k, v) = (d.kinds(), tiles(&d, &t));
    let mut depth = [0usize; 3];
    let (mut i, mut n) = (0, 0);
    while i < k.len() {
        while v[n].1 <= i { n += 1 }
        let whole = v[n] == (i, i + 1) && text_of(&t[n]).is_none();
        let inside = depth.iter().sum::<usize>() > 0;
        let mark = match k[i] {
            K::Open(o) => { depth[o as usize] += 1; true }
            K::Close(o) => { let x = &mut depth[o as usize]; *x = x.saturating_sub(1); true }
            K::Back | K::Nl => true,
            K::Dot | K::Comma | K::Sp => inside,
            K::Other => false,
        };
        sym::check(mark == whole, if mark { "a mark is taken for text" } else { "text is taken for a mark" });
        if mark { sym::cover(if inside { "mark inside" } else { "mark outside" }) } else { sym::cover(if inside { "text inside" } else { "text outside" }) }
        if let Token::Module(..) | Token::Ident(..) = &t[n] {
            sym::check(inside, "a name outside of any command");
            let m = matches!(t[n], Token::Module(..));
            let (before, after) = (v[n].0.checked_sub(1).map(|b| k[b]), k.get(v[n].1));
            if m { sym::check(after == Some(&K::Dot), "a module name without a dot after it") }
            else { sym::check(matches!(after, Some(K::Sp | K::Nl | K::Close(_))), "a command name that does not end where it ends") }
            sym::check(before.is_some(), "a name at the start of the document");
        }
        if let K::Open(_) = k[i] {
            // directly after the bracket, what ends at a dot is the module, and what comes then the name
            let run = |from: usize| (from..k.len()).find(|j| k[*j] != K::Other).unwrap_or(k.len());
            let names = |x: &Token, m: bool| if m { matches!(x, Token::Module(..)) } else { matches!(x, Token::Ident(..)) };
            let is = |from: usize, to: usize, m: bool| v.iter().zip(&t).any(|(w, x)| *w == (from, to) && names(x, m));
            let j = run(i + 1);
            if j > i + 1 && k.get(j) == Some(&K::Dot) {
                sym::check(is(i + 1, j, true), "a module name is not taken for one");
                let e = run(j + 1);
                if e > j + 1 && matches!(k.get(e), Some(K::Sp | K::Nl | K::Close(_))) { sym::check(is(j + 1, e, false), "a command name is not taken for one"); sym::cover("name") }
            }
        }
        if k[i] == K::Back && i + 1 < k.len() && special(k[i + 1]) {
            i += 1;
            sym::check(v[n + 1] == (i, i + 1), "an escaped character is not on its own");
            sym::cover("escape");
        }
        i += 1;
    }
}
