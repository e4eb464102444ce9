//! The language server, through its standard input and output.
use crate::{codegen::*, gen::*, tree::*, world::*};
use brack_language_server::server::Server;
use serde_json::{json, Value as J};

pub fn frame(body: &[u8]) -> Vec<u8> { [format!("Content-Length: {}\r\n\r\n", body.len()).as_bytes(), body].concat() }
/// What the server writes for this input; every message it writes is framed as it must be.
pub fn session(pieces: Vec<Vec<u8>>) -> Vec<J> {
    tokio::io::input(pieces);
    let mut s = Server::default();
    sym::check(tokio::block_on(s.run()).is_ok(), "the language server gives up");
    messages(tokio::io::output())
}
pub fn messages(out: Vec<u8>) -> Vec<J> {
    let (mut v, mut i) = (vec![], 0);
    while i < out.len() {
        let Some(n) = out[i..].windows(4).position(|w| w == b"\r\n\r\n") else { sym::fail("what the server writes is not framed") };
        let Some(len) = sym::as_str(&out[i..i + n]).strip_prefix("Content-Length: ").and_then(|l| l.parse::<usize>().ok()) else { sym::fail("a message does not say how long it is") };
        let start = i + n + 4;
        let Some(b) = out.get(start..start + len) else { sym::fail("a message is shorter than it says") };
        let Ok(j) = serde_json::from_slice::<J>(b) else { sym::fail("a message is not JSON") };
        sym::check(j["jsonrpc"] == "2.0", "a message is no JSON-RPC");
        v.push(j);
        i = start + len;
    }
    v
}
/// A response is an answer or an error, and never both.
pub fn response(j: &J) -> bool {
    let o = j.as_object().unwrap();
    if !o.contains_key("id") { sym::check(o.contains_key("method"), "a message is neither a response nor a notification"); return false }
    sym::check(!o.contains_key("method"), "the server asks something");
    sym::check(o.contains_key("result") != o.contains_key("error"), "a response is neither an answer nor an error, or both");
    if let Some(e) = o.get("error") { sym::check(e["code"].is_i64() && e["message"].is_string(), "an error without a code or a message") }
    true
}
/// The messages of each input message: one marker request goes after each.
pub fn turns(msgs: &[Vec<u8>]) -> Vec<Vec<J>> {
    let mut input = vec![];
    for (i, m) in msgs.iter().enumerate() {
        input.extend(frame(m));
        input.extend(frame(format!("{{\"jsonrpc\":\"2.0\",\"id\":{},\"method\":\"mark\"}}", 1000 + i).as_bytes()));
    }
    let mut v = vec![vec![]];
    for j in session(vec![input]) {
        if response(&j) && j["id"] == json!(999 + v.len()) { v.push(vec![]) } else { v.last_mut().unwrap().push(j) }
    }
    sym::check(v.len() == msgs.len() + 1 && v[msgs.len()].is_empty(), "a request is not answered, or answered twice");
    v.pop();
    v
}
pub fn uri(file: &str) -> String { format!("file://{}", std::env::current_dir().unwrap().join(file).to_str().unwrap()) }
fn text(b: Vec<u8>) -> String { String::from_utf8(b).unwrap() }

/// Any messages, in any pieces.
pub fn s01() {
    let (variant, mut cuts) = (sym::param(0), sym::param(1));
    let ask = |id: &str| format!("{{\"jsonrpc\":\"2.0\",\"id\":{id},\"method\":\"m\"}}").into_bytes();
    let mut want: Vec<J> = vec![];
    let mut input = vec![];
    match variant {
        0 => for i in 1..4 { want.push(json!(i)); input.extend(frame(&ask(&i.to_string()))) },
        1 => {
            // around the size of one read
            for (id, n) in [("1", 1015 + sym::choice(20) as usize), ("2", 990 + sym::choice(40) as usize), ("3", 2100), ("4", 60)] {
                let mut b = ask(id);
                while frame(&b).len() < n { b.push(b' ') }
                want.push(id.parse().unwrap());
                input.extend(frame(&b))
            }
        }
        2 => {
            // lengths are bytes; there may be other headers, before and after
            let heads = ["", "Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n"];
            for (i, id) in ["é", "あ漢", "🐦"].iter().enumerate() {
                let b = ask(&format!("\"{id}\""));
                let f = format!("{}Content-Length: {}\r\n{}\r\n", heads[sym::choice(2) as usize], b.len(), heads[if i == 1 { sym::choice(2) as usize } else { 0 }]);
                input.extend_from_slice(f.as_bytes());
                input.extend(b);
                want.push(json!(id))
            }
        }
        3 => {
            // what is no JSON is answered by an error and nothing else is lost
            for i in 1..3 {
                let b: Vec<u8> = (0..sym::param(2)).map(|_| sym::byte(0, 255)).collect();
                if let Ok(j) = serde_json::from_slice::<J>(&b) { sym::assume(!j.is_object()); sym::cover("no message") } else { sym::cover("no JSON") }
                input.extend(frame(&b));
                want.push(J::Null);
                input.extend(frame(&ask(&i.to_string())));
                want.push(json!(i));
            }
        }
        _ => {
            // a header that does not say how long the content is, and then a message
            let head = match sym::choice(4) { 0 => vec![sym::byte(b':', b'z')], 1 => b"Content-Length: x".to_vec(), 2 => b"Content-Type: a\r\nX: y".to_vec(), _ => b"Content-Length: 99999999999999999999".to_vec() };
            input.extend(head);
            input.extend_from_slice(b"\r\n\r\n");
            input.extend(frame(&ask("7")));
            want.push(json!(7));
        }
    }
    // one character per piece, or the given number of cuts
    let mut pieces = vec![];
    if cuts == 9 { pieces = input.chunks(1).map(|c| c.to_vec()).collect(); cuts = 0; input.clear() }
    let mut at = 0;
    while cuts > 0 && at < input.len() {
        let n = (input.len() - at) as u32;
        let k = if n <= 256 { sym::choice(n) } else { [1, 1000, 1023, 1024, 1025, n - 1][sym::choice(6) as usize].min(n) } as usize;
        pieces.push(input[at..at + k].to_vec());
        at += k;
        cuts -= 1;
    }
    pieces.push(input[at..].to_vec());
    let got = session(pieces);
    sym::check(got.iter().all(response), "the server says more than its answers");
    sym::check(got.len() == want.len(), "not one answer per message");
    sym::check(got.iter().zip(&want).all(|(g, w)| g["id"] == *w), "an answer to another message");
    sym::cover("answered");
}
const METHODS: [&str; 9] = ["initialize", "textDocument/semanticTokens/full", "textDocument/completion", "textDocument/didOpen", "textDocument/didSave", "textDocument/didChange", "initialized", "shutdown", "other"];
fn params(n: u32) -> Option<String> {
    let u = uri("docs/a.[]");
    Some(match n {
        0 => return None,
        1 => "null".into(),
        2 => "[]".into(),
        3 => "{}".into(),
        // for each method what it needs, all at once
        n => {
            let u = match n { 4 => u, 5 => uri("docs/none.[]"), 6 => "http://x/y".into(), 7 => "file:///".into(), 8 => "x".into(), _ => uri("docs") };
            format!("{{\"processId\":null,\"rootUri\":null,\"capabilities\":{{}},\"textDocument\":{{\"uri\":\"{u}\",\"languageId\":\"brack\",\"version\":1,\"text\":\"\"}},\"position\":{{\"line\":0,\"character\":0}},\"context\":{{\"triggerKind\":2,\"triggerCharacter\":\"[\"}},\"contentChanges\":[]}}")
        }
    })
}
fn message(id: &str, method: Option<&str>, params: Option<String>) -> Vec<u8> {
    let mut m = String::from("{\"jsonrpc\":\"2.0\"");
    if id != "" { m.push_str(",\"id\":"); m.push_str(id) }
    if let Some(x) = method { m.push_str(",\"method\":\""); m.push_str(x); m.push('"') }
    if let Some(p) = params { m.push_str(",\"params\":"); m.push_str(&p) }
    m.push('}');
    m.into_bytes()
}
/// Every request is answered once, nothing else is, whatever the message says.
pub fn s02() {
    std::fs::create_dir("docs").unwrap();
    std::fs::write("docs/a.[]", "[m.c x]\n\n{m.c").unwrap();
    let mut msgs = vec![];
    let mut ids = vec![];
    for k in 0..sym::param(0) {
        let id = match sym::choice(5) {
            0 => String::new(),
            1 => text(vec![sym::byte(b'0', b'9')]),
            2 => ["-12", "4294967296", "9223372036854775807", "-9223372036854775808"][sym::choice(4) as usize].into(),
            3 => { let c = sym::byte(b' ', b'~'); sym::assume(c != b'"' && c != b'\\'); text(vec![b'"', c, b'"']) }
            _ => "\"あ\\n\"".into(),
        };
        let few = k > 0;
        let method = match sym::choice(if few { 3 } else { METHODS.len() as u32 + 1 }) { 0 => None, n => Some(METHODS[n as usize - 1]) };
        msgs.push(message(&id, method, params(if few { 4 } else { sym::choice(10) })));
        ids.push((id, method));
    }
    let got = turns(&msgs);
    for ((id, method), got) in ids.iter().zip(got) {
        let n = got.iter().filter(|j| response(j)).count();
        match (&id[..], method) {
            ("", None) => { sym::cover("invalid"); sym::check(n == 1 && got.iter().any(|j| j["id"].is_null() && !j["error"].is_null()), "a message that is none is not refused, or more than once") }
            (_, None) => { sym::cover("response"); sym::check(got.is_empty(), "a response is answered") }
            ("", _) => { sym::cover("notification"); sym::check(n == 0, "a notification is answered") }
            (id, Some(m)) => {
                let id: J = serde_json::from_str(id).unwrap();
                sym::cover("request");
                sym::check(n == 1 && got.iter().any(|j| j["id"] == id), "a request is not answered once, under its id");
                let e = got.iter().any(|j| j.get("error").is_some());
                if *m == "other" { sym::check(e, "a method that there is none of is answered") }
                if !e { sym::cover("result") } else { sym::cover("error") }
            }
        }
    }
}
fn lone_cr(d: &Doc) -> bool { (0..d.len()).any(|i| d.at(i) == b"\r") }
/// Where each cluster starts, as editors count: lines and UTF-16 code units.
pub fn units(d: &Doc) -> Vec<(u64, u64)> {
    let (mut v, mut l, mut c) = (vec![], 0, 0);
    for i in 0..d.len() {
        v.push((l, c));
        if kind(d.at(i)) == K::Nl { l += 1; c = 0 } else { c += sym::as_str(d.at(i)).encode_utf16().count() as u64 }
    }
    v.push((l, c));
    v
}
fn save(file: &str) -> Vec<u8> { message("", Some("textDocument/didSave"), Some(format!("{{\"textDocument\":{{\"uri\":\"{}\"}}}}", uri(file)))) }
pub const TEXTS: &[&str] = &[
    /* 0 */ "???",
    /* 1 */ "*?[m.c *?]",
    /* 2 */ "[m.c ?]*\n{n.d ?}",
    /* 3 */ "あ⟨🐦.c *⟩§ y",
    /* 4 */ "[あ.🐦 *,?*",
    /* 5 */ "*\\*]?\r\n⟨ß.c",
    /* 6 */ "⟨m.c 🐦⟩\n\n*<m.c §",
    /* 7 */ "????",
    /* 8 */ "[*.? *]",
    /* 9 */ "🐦[??? x]*",
    /* 10 */ "漢, [*.b あ.?]",
    /* 11 */ "§§§§",
];
/// The tokens that are coloured are the brackets and names, where editors see them.
pub fn s03() {
    let d = template(TEXTS[sym::param(0) as usize]);
    if lone_cr(&d) { return } // editors take it for the end of a line
    std::fs::create_dir("docs").unwrap();
    std::fs::write("docs/a.[]", &d.bytes).unwrap();
    let m = message("5", Some("textDocument/semanticTokens/full"), Some(format!("{{\"textDocument\":{{\"uri\":\"{}\"}}}}", uri("docs/a.[]"))));
    let init = message("4", Some("initialize"), params(4));
    let got = turns(&[init, m]);
    let Some(r) = got[0].iter().find(|j| response(j)) else { sym::fail("no answer to initialize") };
    let legend = r["result"]["capabilities"]["semanticTokensProvider"]["legend"]["tokenTypes"].as_array().unwrap_or_else(|| sym::fail("no legend"));
    sym::check(got[1].len() == 1, "more than an answer");
    let Some(data) = got[1][0]["result"]["data"].as_array() else { sym::fail("no tokens for a document that is there") };
    sym::check(data.len() % 5 == 0, "tokens are five numbers each");
    // what they should be: names by the tokenizer, brackets by the characters
    let us = units(&d);
    let toks = brack_tokenizer::tokenize::tokenize_str(d.str()).unwrap_or_else(|_| sym::fail("tokenize"));
    let (mut want, mut i, mut escaped) = (vec![], 0, false);
    for t in &toks {
        use brack_tokenizer::tokens::Token::*;
        let n = match t { Text(s, _) | Module(s, _) | Ident(s, _) => { let (mut j, mut n) = (i, 0); while n < s.len() { n += d.at(j).len(); j += 1 } j - i } EOF(_) => 0, _ => 1 };
        let kind = if escaped { None } else { match t {
            Module(..) => Some("namespace"), Ident(..) => Some("variable"),
            AngleBracketOpen(_) | AngleBracketClose(_) => Some("macro"), CurlyBracketOpen(_) | CurlyBracketClose(_) => Some("method"), SquareBracketOpen(_) | SquareBracketClose(_) => Some("function"), _ => None } };
        escaped = !escaped && matches!(t, BackSlash(_)) && i + 1 < d.len() && special(crate::gen::kind(d.at(i + 1)));
        if let Some(k) = kind { want.push((us[i].0, us[i].1, us[i + n].1 - us[i].1, k)) }
        i += n;
    }
    let (mut l, mut c) = (0, 0);
    let mut have = vec![];
    for t in data.chunks(5) {
        let n: Vec<u64> = t.iter().map(|x| x.as_u64().unwrap_or_else(|| sym::fail("a token is no number"))).collect();
        if n[0] > 0 { l += n[0]; c = n[1] } else { c += n[1] }
        let Some(k) = legend.get(n[3] as usize).and_then(|k| k.as_str()) else { sym::fail("a token of no kind") };
        sym::check(n[4] == 0, "a token with modifiers");
        have.push((l, c, n[2], k));
    }
    if !have.is_empty() { sym::cover("tokens") }
    sym::check(have == want, "the tokens are not the brackets and names of the document");
}
/// Saving shows what is wrong with the document, where editors see it, and clears it when it is fine.
pub fn s04() {
    let d = template(TEXTS[sym::param(0) as usize]);
    if lone_cr(&d) { return }
    std::fs::create_dir("docs").unwrap();
    std::fs::write("docs/a.[]", &d.bytes).unwrap();
    let able = sym::param(1) == 0 || sym::choice(2) == 1;
    let caps = if able { "{\"textDocument\":{\"publishDiagnostics\":{}}}" } else { ["{}", "{\"textDocument\":{}}"][sym::choice(2) as usize] };
    let init = message("1", Some("initialize"), Some(format!("{{\"capabilities\":{caps}}}")));
    let got = turns(&[init, save("docs/a.[]")]);
    let said: Vec<&J> = got[1].iter().filter(|j| j["method"] == "textDocument/publishDiagnostics").collect();
    if !able { sym::cover("not able"); sym::check(said.is_empty(), "diagnostics for a client that does not know them"); return }
    sym::check(said.len() == 1, "a document that is saved gets no diagnostics, or twice");
    let p = &said[0]["params"];
    sym::check(p["uri"] == J::String(uri("docs/a.[]")), "diagnostics for another document");
    let Some(list) = p["diagnostics"].as_array() else { sym::fail("diagnostics are no list") };
    let toks = brack_tokenizer::tokenize::tokenize_str(d.str()).unwrap_or_else(|_| sym::fail("tokenize"));
    let cst = brack_parser::parse::parse(&toks).unwrap_or_else(|_| sym::fail("parse"));
    let (_, errors) = brack_transformer::transform::transform(&cst);
    sym::cover(if errors.is_empty() { "fine" } else { "diagnostics" });
    let us = units(&d);
    let lines = d.lines();
    let place = |l: &brack_tokenizer::tokens::LocationData| us.get(lines[l.line] + l.character).map(|u| if u.0 == l.line as u64 { *u } else { let before = us[lines[l.line] + l.character - 1]; (before.0, before.1 + 1) });
    let mut want = vec![];
    for e in &errors { let l = e.get_location(); want.push((e.get_message(), place(&l.start), place(&l.end))) }
    let get = |j: &J| Some((j["line"].as_u64()?, j["character"].as_u64()?));
    let have: Vec<_> = list.iter().map(|j| (j["message"].as_str().unwrap_or("").to_string(), get(&j["range"]["start"]), get(&j["range"]["end"]))).collect();
    sym::check(have == want, "the diagnostics are not those of the document, or not where they are");
}
/// What a snippet inserts before and after the cursor, if it asks for nothing else.
fn snippet(s: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
    let (mut parts, mut i) = (vec![vec![]], 0);
    while i < s.len() {
        match s[i] {
            b'\\' if i + 1 < s.len() && matches!(s[i + 1], b'$' | b'}' | b'\\') => { parts.last_mut().unwrap().push(s[i + 1]); i += 1 }
            b'$' if s.get(i + 1) == Some(&b'0') => { parts.push(vec![]); i += 1 }
            b'$' if s.get(i + 1).is_some_and(|c| c.is_ascii_alphanumeric() || *c == b'{' || *c == b'_') => return None,
            c => parts.last_mut().unwrap().push(c),
        }
        i += 1;
    }
    let after = parts.pop()?;
    let before = parts.pop()?;
    parts.is_empty().then_some((before, after))
}
fn offered(items: &J, plugs: &[Plug], trigger: &[u8]) {
    let Some(items) = items.as_array() else { sym::fail("no completions in a project") };
    let ret = match trigger { b"[" => INLINE, b"{" => BLOCK, b"<" => TAST, _ => usize::MAX };
    let close: &[u8] = match trigger { b"[" => b"]", b"{" => b"}", _ => b">" };
    let mut want: Vec<Vec<u8>> = vec![];
    for p in plugs { for c in p.cmds.iter().filter(|c| c.ret == ret) { want.push([&p.name[..], b".", &c.name].concat()) } }
    let mut have = vec![];
    for i in items {
        let l = i["label"].as_str().unwrap_or_else(|| sym::fail("a completion without a label")).as_bytes().to_vec();
        let t = i["insertText"].as_str().unwrap_or_else(|| sym::fail("a completion that inserts nothing"));
        sym::check(i["insertTextFormat"] == 2, "a completion that is no snippet");
        let Some((b, a)) = snippet(t.as_bytes()) else { sym::fail("a completion asks for something else") };
        sym::check(b == [&l[..], b" "].concat() && a == close, "a completion does not write the command");
        have.push(l);
    }
    have.sort(); want.sort();
    if !want.is_empty() { sym::cover("offered") }
    sym::check(have == want, "the completions are not the commands of the bracket");
}
fn project_of(plugs: &[Plug]) {
    std::fs::create_dir("docs").unwrap();
    std::fs::write("docs/a.[]", "x").unwrap();
    let mut t = String::from("[document]\nname = \"n\"\nversion = \"0\"\nbackend = \"html\"\nauthors = []\n[plugins]\n");
    for p in plugs { t.push_str(&format!("[plugins.\"{}\"]\nschema = \"github\"\nowner = \"o\"\nrepo = \"r\"\nversion = \"{}\"\n", sym::as_str(&p.name), plugs.iter().position(|q| q.name == p.name).unwrap())) }
    std::fs::write("Brack.toml", t).unwrap();
    install(plugs, None, |_| None);
}
fn serve() { reqwest::network(|u| { let i = u.split('/').rev().nth(1).and_then(|v| v.as_bytes().first().copied()).unwrap(); Ok((200, Some(vec![b'A' + (i - b'0'), b'w']))) }) }
fn open(file: &str) -> Vec<u8> { message("", Some("textDocument/didOpen"), Some(format!("{{\"textDocument\":{{\"uri\":\"{}\",\"languageId\":\"brack\",\"version\":1,\"text\":\"\"}}}}", uri(file)))) }
fn complete(id: &str, context: &str) -> Vec<u8> { message(id, Some("textDocument/completion"), Some(format!("{{\"textDocument\":{{\"uri\":\"{}\"}},\"position\":{{\"line\":0,\"character\":0}}{context}}}", uri("docs/a.[]")))) }
/// After a bracket, the commands it may begin are offered.
pub fn s05() {
    let name = || vec![match sym::param(1) { 1 => b'$', _ => sym::byte(b'a', b'd') }, sym::byte(b'0', b'1')];
    let mut plugs: Vec<Plug> = vec![];
    for p in 0..sym::param(0) {
        let mut cmds: Vec<Cmd> = vec![];
        for c in 0..2 {
            let k = Cmd { name: name(), call: format!("f{c}"), args: [vec![], vec![INLINE, OPTION, ARRAY]][c].clone(), ret: [INLINE, BLOCK, TAST][sym::choice(3) as usize] };
            for o in &cmds { sym::assume(o.ret != k.ret || o.name != k.name) }
            cmds.push(k);
        }
        plugs.push(Plug { name: if p == 0 { name() } else { vec![b'm' + p as u8] }, cmds, flags: [false; 4] });
    }
    project_of(&plugs);
    serve();
    let (context, trigger) = match sym::choice(8) {
        0 => (String::new(), None),
        1 => (",\"context\":{\"triggerKind\":1}".into(), None),
        n => { let c = b"[{<. x"[n as usize - 2]; (format!(",\"context\":{{\"triggerKind\":2,\"triggerCharacter\":\"{}\"}}", c as char), Some([c])) }
    };
    let got = turns(&[complete("1", &context), open("docs/a.[]"), complete("2", &context)]);
    sym::check(got[0].len() == 1 && got[0][0].get("error").is_none() && got[0][0]["result"].is_null(), "completions without a project");
    sym::check(got[2].len() == 1, "more than an answer");
    let r = &got[2][0];
    match trigger {
        Some(t) => offered(&r["result"], &plugs, &t),
        None => { sym::cover("not asked"); sym::check(r["result"].as_array().map_or(true, |a| a.is_empty()), "completions that nobody asked for") }
    }
}
/// Whatever was said before, each message has its effect and no other.
pub fn s06() {
    use std::{cell::RefCell, rc::Rc};
    let plugs = [plug("m", vec![cmd("c", "f", &[ARRAY], INLINE)], [false; 4])];
    project_of(&plugs);
    let docs = ["[m.c x]", "[m.c", "{あ.c", "]\n>"];
    struct St { left: u64, last: Option<u32>, doc: usize, able: bool, there: bool, down: bool, project: bool, damaged: bool }
    let st = Rc::new(RefCell::new(St { left: sym::param(0), last: None, doc: 0, able: false, there: false, down: false, project: false, damaged: false }));
    std::fs::write("docs/a.[]", docs[0]).unwrap();
    let few = sym::param(1) == 1;
    let s = st.clone();
    tokio::io::source(move || {
        let mut s = s.borrow_mut();
        judge(s.last, tokio::io::output(), docs[s.doc], s.able, s.project, s.damaged, &plugs);
        s.left = s.left.checked_sub(1)?;
        let op = if few { [0, 1, 2, 3, 5, 8][sym::choice(6) as usize] } else { sym::choice(9) };
        s.last = Some(op);
        Some(frame(&match op {
            // ask for diagnostics, or say they are not known
            0 => { s.able = sym::choice(2) == 1; message("1", Some("initialize"), Some(format!("{{\"capabilities\":{}}}", if s.able { "{\"textDocument\":{\"publishDiagnostics\":{}}}" } else { "{}" }))) }
            // the network may be down
            1 => { s.down = sym::choice(2) == 1; if s.down { reqwest::network(|_| Err(())) } else { serve() }; if s.there || !s.down { s.there = true; s.project = true }; open("docs/a.[]") }
            2 => { s.doc = sym::choice(docs.len() as u32) as usize; std::fs::write("docs/a.[]", docs[s.doc]).unwrap(); save("docs/a.[]") }
            3 => complete("3", ",\"context\":{\"triggerKind\":2,\"triggerCharacter\":\"[\"}"),
            4 => message("4", Some("textDocument/semanticTokens/full"), Some(format!("{{\"textDocument\":{{\"uri\":\"{}\"}}}}", uri("docs/a.[]")))),
            5 => match sym::choice(3) { 0 => open("none"), 1 => save("docs/none.[]"), _ => message("", Some("textDocument/didSave"), Some("3".into())) },
            6 => b"{".to_vec(),
            // something happens to the plugins
            8 => { if let Ok(d) = std::fs::read_dir("plugins") { for f in d { std::fs::write(f.unwrap().path(), "!").unwrap() } } s.damaged |= s.there; complete("8", ",\"context\":{\"triggerKind\":2,\"triggerCharacter\":\"[\"}") }
            _ => message("7", Some("other"), None),
        }))
    });
    let mut server = Server::default();
    sym::check(tokio::block_on(server.run()).is_ok(), "the language server gives up");
    let s = st.borrow();
    sym::check(s.left == 0, "the language server stops listening");
    sym::cover("all");
}
fn diagnoses(doc: &str) -> usize {
    let toks = brack_tokenizer::tokenize::tokenize_str(doc).unwrap_or_else(|_| sym::fail("tokenize"));
    let cst = brack_parser::parse::parse(&toks).unwrap_or_else(|_| sym::fail("parse"));
    brack_transformer::transform::transform(&cst).1.len()
}
fn judge(op: Option<u32>, out: Vec<u8>, doc: &str, able: bool, project: bool, damaged: bool, plugs: &[Plug]) {
    let got = messages(out);
    let Some(op) = op else { sym::check(got.is_empty(), "the server speaks before it is asked"); return };
    let answers: Vec<&J> = got.iter().filter(|j| response(j)).collect();
    let shown: Vec<&J> = got.iter().filter(|j| j["method"] == "textDocument/publishDiagnostics").collect();
    let requests = [1, 0, 0, 1, 1, 0, 1, 1, 1];
    sym::check(answers.len() == requests[op as usize], "a request is not answered, or something else is");
    if op != 2 { sym::check(shown.is_empty(), "diagnostics without saving") }
    match op {
        0 => sym::check(answers[0]["id"] == 1 && answers[0].get("result").is_some(), "initialize fails"),
        2 => {
            sym::check(shown.len() == able as usize, "diagnostics for a client that does not know them, or none for one that does");
            if able { sym::cover("shown"); sym::check(shown[0]["params"]["diagnostics"].as_array().map(|a| a.len()) == Some(diagnoses(doc)), "the diagnostics are those of another text") }
        }
        3 | 8 if damaged => { sym::cover("damaged"); sym::check(answers[0]["id"] == op, "an answer to another message") }
        3 | 8 => if project { sym::cover("in a project"); offered(&answers[0]["result"], plugs, b"[") } else { sym::check(answers[0]["result"].is_null() && answers[0].get("error").is_none(), "completions without a project") },
        4 => sym::check(answers[0]["id"] == 4 && answers[0]["result"]["data"].as_array().map(|a| a.len() / 5) == Some(match doc { "[m.c x]" => 4, "[m.c" | "{あ.c" => 2, _ => 2 }), "the tokens are those of another text"),
        6 => sym::check(answers[0]["id"].is_null() && answers[0]["error"]["code"] == -32700, "what is no JSON is not refused"),
        7 => sym::check(answers[0]["id"] == 7 && answers[0]["error"]["code"] == -32601, "a method that there is none of is answered"),
        _ => (),
    }
}
/// The project is the one that was opened last.
pub fn s07() {
    let plugs = [plug("m", vec![cmd("c", "f", &[ARRAY], INLINE)], [false; 4]), plug("n", vec![cmd("d", "g", &[], INLINE), cmd("e", "h", &[], BLOCK)], [false; 4])];
    for (i, dir) in ["p", "q"].iter().enumerate() {
        std::fs::create_dir_all(format!("{dir}/docs")).unwrap();
        std::fs::write(format!("{dir}/docs/a.[]"), "x").unwrap();
        std::fs::write(format!("{dir}/Brack.toml"), format!("[document]\nname = \"{dir}\"\nversion = \"0\"\nbackend = \"html\"\nauthors = []\n[plugins.{}]\nschema = \"github\"\nowner = \"o\"\nrepo = \"r\"\nversion = \"{i}\"\n", sym::as_str(&plugs[i].name))).unwrap();
    }
    install(&plugs, None, |_| None);
    serve();
    let (mut msgs, mut now) = (vec![], vec![]);
    for k in 0..sym::param(0) {
        let i = sym::choice(2) as usize;
        msgs.push(open(["p/docs/a.[]", "q/docs/a.[]"][i]));
        if k + 1 < sym::param(0) && sym::choice(2) == 0 { now.push(None); continue }
        now.push(Some(i));
        msgs.push(message("3", Some("textDocument/completion"), Some(format!("{{\"textDocument\":{{\"uri\":\"{}\"}},\"position\":{{\"line\":0,\"character\":0}},\"context\":{{\"triggerKind\":2,\"triggerCharacter\":\"[\"}}}}", uri(["p/docs/a.[]", "q/docs/a.[]"][i])))));
    }
    let got = turns(&msgs);
    let mut at = 0;
    for n in now {
        sym::check(got[at].is_empty(), "opening a document is answered");
        at += 1;
        let Some(i) = n else { continue };
        sym::check(got[at].len() == 1 && got[at][0]["id"] == 3, "a completion is not answered once");
        offered(&got[at][0]["result"], &plugs[i..i + 1], b"[");
        sym::cover("projects");
        at += 1;
    }
}
