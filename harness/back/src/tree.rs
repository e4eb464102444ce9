//! Trees, written down independently of the implementation, and their JSON form.
use brack_tokenizer::tokens::{Location, LocationData};
use brack_transformer::ast::{InnerNode, LeafNode, AST};
use serde_json::Value as J;

pub const DOC: usize = 0;
pub const STMT: usize = 1;
pub const EXPR: usize = 2;
pub const ANGLE: usize = 3;
pub const CURLY: usize = 4;
pub const SQUARE: usize = 5;
pub const IDENT: usize = 6;
pub const MODULE: usize = 7;
pub const TEXT: usize = 8;
pub const INVALID: usize = 9;
pub const IGNORED: usize = 10;
/// The names of the kinds in the JSON form that macros get and return.
pub const KINDS: &[&str] = &["Document", "Stmt", "Expr", "Angle", "Curly", "Square", "Ident", "Module", "Text", "Invalid", "Ignored"];

#[derive(Clone, Debug)]
pub struct T { pub kind: usize, pub id: String, pub at: [usize; 4], pub kids: Vec<T>, pub value: Option<Vec<u8>> }
impl T {
    pub fn inner(kind: usize, id: String, kids: Vec<T>) -> T { T { kind, id, at: [0; 4], kids, value: None } }
    pub fn leaf(kind: usize, id: String, value: Option<Vec<u8>>) -> T { T { kind, id, at: [0; 4], kids: vec![], value } }
    pub fn ast(&self) -> AST {
        let p = |l: usize, c: usize| LocationData { line: l, character: c };
        let location = Location { start: p(self.at[0], self.at[1]), end: p(self.at[2], self.at[3]) };
        let id = self.id.clone();
        if self.kind <= SQUARE {
            let n = InnerNode { id, children: self.kids.iter().map(|k| k.ast()).collect(), location };
            match self.kind { DOC => AST::Document(n), STMT => AST::Stmt(n), EXPR => AST::Expr(n), ANGLE => AST::Angle(n), CURLY => AST::Curly(n), _ => AST::Square(n) }
        } else {
            let n = LeafNode { id, value: self.value.as_ref().map(|v| sym::as_str(v).to_string()), location };
            match self.kind { IDENT => AST::Ident(n), MODULE => AST::Module(n), TEXT => AST::Text(n), INVALID => AST::Invalid(n), _ => AST::Ignored(n) }
        }
    }
    pub fn of(a: &AST) -> T {
        let at = |l: &Location| [l.start.line, l.start.character, l.end.line, l.end.character];
        let inner = |kind, n: &InnerNode| T { kind, id: n.id.clone(), at: at(&n.location), kids: n.children.iter().map(T::of).collect(), value: None };
        let leaf = |kind, n: &LeafNode| T { kind, id: n.id.clone(), at: at(&n.location), kids: vec![], value: n.value.as_ref().map(|v| v.as_bytes().to_vec()) };
        match a {
            AST::Document(n) => inner(DOC, n), AST::Stmt(n) => inner(STMT, n), AST::Expr(n) => inner(EXPR, n), AST::Angle(n) => inner(ANGLE, n),
            AST::Curly(n) => inner(CURLY, n), AST::Square(n) => inner(SQUARE, n), AST::Ident(n) => leaf(IDENT, n), AST::Module(n) => leaf(MODULE, n),
            AST::Text(n) => leaf(TEXT, n), AST::Invalid(n) => leaf(INVALID, n), AST::Ignored(n) => leaf(IGNORED, n),
        }
    }
    pub fn json(&self) -> J {
        let p = |l: usize, c: usize| serde_json::json!({"line": l, "character": c});
        let location = serde_json::json!({"start": p(self.at[0], self.at[1]), "end": p(self.at[2], self.at[3])});
        let body = if self.kind <= SQUARE {
            serde_json::json!({"id": self.id, "children": self.kids.iter().map(|k| k.json()).collect::<Vec<_>>(), "location": location})
        } else {
            serde_json::json!({"id": self.id, "value": self.value.as_ref().map(|v| sym::as_str(v).to_string()), "location": location})
        };
        let mut m = serde_json::Map::new();
        m.insert(KINDS[self.kind].to_string(), body);
        J::Object(m)
    }
    pub fn from_json(j: &J) -> Option<T> {
        let o = j.as_object()?;
        if o.len() != 1 { return None }
        let (name, b) = o.iter().next()?;
        let kind = (0..=IGNORED).find(|k| KINDS[*k] == name)?;
        let l = &b["location"];
        let n = |a: &str, c: &str| l[a][c].as_u64().map(|x| x as usize);
        let at = [n("start", "line")?, n("start", "character")?, n("end", "line")?, n("end", "character")?];
        let id = b["id"].as_str()?.to_string();
        let mut kids = vec![];
        let mut value = None;
        if kind <= SQUARE { for k in b["children"].as_array()? { kids.push(T::from_json(k)?) } }
        else { value = match b.get("value")? { J::Null => None, v => Some(v.as_str()?.as_bytes().to_vec()) } }
        Some(T { kind, id, at, kids, value })
    }
}
pub fn same(a: &T, b: &T) -> bool {
    a.kind == b.kind && a.id == b.id && a.at == b.at && a.value == b.value && a.kids.len() == b.kids.len() && a.kids.iter().zip(&b.kids).all(|(x, y)| same(x, y))
}
