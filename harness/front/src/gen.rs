//! Documents with symbolic parts, and the character clusters they are made of.

/// `?` is one symbolic ASCII character, `*` one of CLUSTERS, `⟨` and `⟩` any opening and closing
/// bracket, `⟫` the bracket that closes the last `⟨` or literal one, `§` one of MARKS, `¿` any character of BLOCKS, `¡` any of Unicode beyond ASCII, `«n:t»` is t n times, everything else is literal.
pub const TEMPLATES: &[&str] = &[
    /* 0 */ "???",
    /* 1 */ "????",
    /* 2 */ "?????",
    /* 3 */ "*?*",
    /* 4 */ "?*?*",
    /* 5 */ "[m.c ???]",
    /* 6 */ "{m.c a,???}",
    /* 7 */ "<m.c ???>b",
    /* 8 */ "[??? x]",
    /* 9 */ "a\n???\nb",
    /* 10 */ "[m.c {n.d ??}?]",
    /* 11 */ "{l.i [m.c <o.e ?> ?], ?}",
    /* 12 */ "x ? y\n\n[m.c ?, ?]\n\nz",
    /* 13 */ "[m.c ?]?[n.d ?]",
    /* 14 */ "{m.??? y}",
    /* 15 */ "[<a.b>?? x]",
    /* 16 */ "[m.<a.b>?? x]",
    /* 17 */ "{m.c\n ?? \n?,\n  z\n}",
    /* 18 */ "{a.b [c.d ?<e.f ?",
    /* 19 */ "\\?\\??",
    /* 20 */ "[m.c \\? \\?,?]",
    /* 21 */ "[m.c *?, *]*",
    /* 22 */ "[m.c ????]",
    /* 23 */ "{m.c ?,? \n??}",
    /* 24 */ "[????x]",
    /* 25 */ "a\r\n??\r\n?b",
    /* 26 */ "first\n\n{m.c [n.d x?], \\?}\nlast ?\n",
    /* 27 */ "[m.c [n.d [o.e {p.f ??}?]]]",
    /* 28 */ "??[m.c x]??",
    /* 29 */ "?[?.?]?",
    /* 30 */ "[m.c a ? b ? c]",
    /* 31 */ "one two, three. four ?\nfive ? six\n",
    /* 32 */ "[m.c ?????]",
    /* 33 */ "???\n\n???",
    /* 34 */ "{l.i [m.c <o.e ??> ??], ??}",
    /* 35 */ "x?[m.c ??, <a.b ?>]?\n?",
    /* 36 */ "**?**",
    /* 37 */ "[m?c.d *?* , ?]",
    /* 38 */ "??????",
    /* 39 */ "[m.c??x]y]?",
    /* 40 */ "a] ?[m.c ?]",
    /* 41 */ "[m.c a> ?[n.d ?]",
    /* 42 */ "[m.c <a.b>?<c.d ?>]",
    /* 43 */ "\n?\n?\n\n?",
    /* 44 */ "{m.c ?\n}\n?\n{n.d ?}",
    /* 45 */ "[m.c {n.d ?} [o.e ?] <p.f ?>, ?]",
    /* 46 */ "⟨m.c ⟨n.d ⟨o.e x⟩⟩⟩§ y",
    /* 47 */ "⟨m.c ⟨n.d x§⟩ y⟩§, z.",
    /* 48 */ "⟨m.c ⟨n.d x, y⟩ z⟩ a, b.§",
    /* 49 */ "[⟨a.b⟩§<c.d>§ x]",
    /* 50 */ "{m.⟨n.d x⟩§ y, ⟨o.e⟩}",
    /* 51 */ "x\n⟨m.c a\n\n§⟩\n§\ny",
    /* 52 */ "⟨m.⟨n.⟨o.e⟩§⟩§ y⟩",
    /* 53 */ "⟨m.c§§§⟩",
    /* 54 */ "§§§§",
    /* 55 */ "⟨§§§⟩",
    /* 56 */ "⟨m.c a,§b,§§ c§⟩",
    /* 57 */ "⟨m.c ⟨n.d ⟨o.e ⟨p.f x⟩⟩⟩⟩ , y. z",
    /* 58 */ "§§⟨m.c x§⟩§§",
    /* 59 */ "§§§§§",
    /* 60 */ "⟨m.c x⟩§⟨n.d y⟩§\n\n§z, w.",
    /* 61 */ "⟨m.c ⟨n.d ⟨o.e x⟫§ ⟫§⟫§ y",
    /* 62 */ "⟨m.⟨n.⟨o.e⟫§⟫§ y⟫",
    /* 63 */ "⟨⟨a.b§⟫.⟨c.d⟫§ x, ⟨e.f y⟫⟫",
    /* 64 */ "§\n⟨m.c§\n§⟫\n§z",
    /* 65 */ "⟨m.c ⟨n.d ⟨o.e ⟨p.f ?⟫?⟫⟫⟫ , y. z",
    /* 66 */ "«300:x»?[«70:m».«70:c» «300:y»?]",
    /* 67 */ "«260:x\n»?[m.c ?]",
    /* 68 */ "«40:a\n\n»?[m.c ?]",
    /* 69 */ "[m.c «40:a, »?]?",
    /* 70 */ "«12:[m.c »?«12:]»?",
    /* 71 */ "«40:[m.c x]»?{n.d ?}",
    /* 72 */ "«10:{m.c a, »?«10:}», ?",
    /* 73 */ "«40:\\[»?\\?",
    /* 74 */ "«300:あ»[m.c *]?",
    /* 75 */ "⟨m.c «20:a, [n.d b], »§⟩",
    /* 76 */ "«8:[m.c {n.d »?«8:]}»?",
    /* 77 */ "«16:<m.c »x «10:>»?",
    /* 78 */ "«16:a]»[m.c ?]?",
    /* 79 */ "«24:<a.b> x {m.c y}\n»?\n[m.c ?]",
    /* 80 */ "[m.c «300: »?«300:\n»?]",
    /* 81 */ "x¿y",
    /* 82 */ "[m.c ¿]",
    /* 83 */ "[m¿.c x]",
    /* 84 */ "{¿m.c a,¿}",
    /* 85 */ "¿\n[m.c¿x]",
    /* 86 */ "¿¿",
    /* 87 */ "\\¿ ?",
    /* 88 */ "x¡[m.c y]",
    /* 89 */ "[m¡.c y]",
    /* 90 */ "{m.c ¡, y}",
];
pub const MARKS: &[&str] = &["<", "{", "[", ">", "}", "]", ".", ",", " ", "\n", "\\", "x"];

/// U+0080 to 00FF, 0300 to 033F, 2000 to 207F, 3000 to 303F, FE00 to FE3F, FEC0 to FF3F, 1F1C0 to 1F1FF: accents, joiners, spaces, line ends, marks of order and width, flags.
pub const BLOCKS: &[&[u8]] = &[&[0xC2], &[0xC3], &[0xCC], &[0xE2, 0x80], &[0xE2, 0x81], &[0xE3, 0x80], &[0xEF, 0xB8], &[0xEF, 0xBB], &[0xEF, 0xBC], &[0xF0, 0x9F, 0x87]];

/// The first bytes of any character of two to four bytes.
fn block() -> Vec<u8> {
    let c = |n: u32| sym::choice(n) as u8;
    match sym::choice(4) {
        0 => vec![0xC2 + c(30)],
        1 => { let a = c(16); let b = if a == 0 { 0xA0 + c(32) } else if a == 13 { 0x80 + c(32) } else { 0x80 + c(64) }; vec![0xE0 + a, b] }
        2 => vec![0xF0, 0x90 + c(48), 0x80 + c(64)],
        _ => { let a = 1 + c(4); vec![0xF0 + a, 0x80 + c(if a == 4 { 16 } else { 64 }), 0x80 + c(64)] }
    }
}
pub const CLUSTERS: &[&str] = &["あ", "e\u{301}", "👨\u{200d}👩\u{200d}👧", "ß", "\r\n", " ", "[", "\0", "🐦", "漢"];

pub struct Doc {
    pub bytes: Vec<u8>,
    /// Start of every cluster, and the end of the last.
    pub cl: Vec<usize>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K { Open(u8), Close(u8), Dot, Comma, Sp, Nl, Back, Other }

pub fn kind(c: &[u8]) -> K {
    if c.len() == 2 && c[0] == b'\r' { return if c[1] == b'\n' { K::Nl } else { K::Other } }
    if c.len() != 1 { return K::Other }
    match c[0] {
        b'<' => K::Open(0), b'>' => K::Close(0),
        b'{' => K::Open(1), b'}' => K::Close(1),
        b'[' => K::Open(2), b']' => K::Close(2),
        b'.' => K::Dot, b',' => K::Comma, b' ' => K::Sp, b'\n' => K::Nl, b'\\' => K::Back,
        _ => K::Other,
    }
}
pub fn special(k: K) -> bool { matches!(k, K::Open(_) | K::Close(_) | K::Dot | K::Comma | K::Back) }

impl Doc {
    pub fn new(parts: &[Vec<u8>]) -> Doc {
        let mut d = Doc { bytes: vec![], cl: vec![] };
        for p in parts {
            // the only clusters that neighbouring parts can form together
            let join = p.len() == 1 && p[0] == b'\n' && d.cl.last().is_some_and(|&s| d.bytes.len() == s + 1 && d.bytes[s] == b'\r');
            if !join { d.cl.push(d.bytes.len()) }
            d.bytes.extend_from_slice(p);
        }
        d.cl.push(d.bytes.len());
        d
    }
    /// Any text, cut into clusters by the library that knows them.
    pub fn any(bytes: Vec<u8>) -> Doc {
        use unicode_segmentation::UnicodeSegmentation;
        let mut cl: Vec<usize> = sym::as_str(&bytes).grapheme_indices(true).map(|(i, _)| i).collect();
        cl.push(bytes.len());
        Doc { bytes, cl }
    }
    pub fn str(&self) -> &str { sym::as_str(&self.bytes) }
    pub fn len(&self) -> usize { self.cl.len() - 1 }
    pub fn at(&self, i: usize) -> &[u8] { &self.bytes[self.cl[i]..self.cl[i + 1]] }
    pub fn kind(&self, i: usize) -> K { if i < self.len() { kind(self.at(i)) } else { K::Nl } }
    pub fn kinds(&self) -> Vec<K> { (0..self.len()).map(|i| kind(self.at(i))).collect() }
    /// Index of the first cluster of every line.
    pub fn lines(&self) -> Vec<usize> {
        let mut v = vec![0];
        for i in 0..self.len() { if kind(self.at(i)) == K::Nl { v.push(i + 1) } }
        v
    }
    pub fn slice(&self, i: usize, j: usize) -> &[u8] { &self.bytes[self.cl[i]..self.cl[j]] }
}

/// Splits literal text into its clusters (literals only use what is handled here).
pub fn literal(s: &str, parts: &mut Vec<Vec<u8>>) { for c in s.chars() { let mut b = [0; 4]; parts.push(c.encode_utf8(&mut b).as_bytes().to_vec()) } }

pub fn template(t: &str) -> Doc { let p = parts(t); if t.contains(['¿', '¡']) { Doc::any(p.concat()) } else { Doc::new(&p) } }
pub fn expand(t: &str) -> String {
    let mut long = String::new();
    for (i, p) in t.split(['«', '»']).enumerate() {
        if i % 2 == 0 { long.push_str(p) } else { let (n, p) = p.split_once(':').unwrap(); long.push_str(&p.repeat(n.parse().unwrap())) }
    }
    long
}
pub fn parts(t: &str) -> Vec<Vec<u8>> {
    let t = &expand(t);
    let (mut parts, mut open) = (vec![], vec![]);
    for c in t.chars() {
        match c {
            '?' => parts.push(vec![sym::byte(0, 127)]),
            '*' => parts.push(CLUSTERS[sym::choice(CLUSTERS.len() as u32) as usize].as_bytes().to_vec()),
            '¿' => { let mut c = BLOCKS[sym::choice(BLOCKS.len() as u32) as usize].to_vec(); c.push(sym::byte(0x80, 0xBF)); parts.push(c) }
            '¡' => { let mut c = block(); c.push(sym::byte(0x80, 0xBF)); parts.push(c) }
            '⟨' => { let i = sym::choice(3) as usize; open.push(b">}]"[i]); parts.push(vec![b"<{["[i]]) }
            '⟫' => parts.push(vec![open.pop().unwrap()]),
            '⟩' => parts.push(vec![b">}]"[sym::choice(3) as usize]]),
            '§' => parts.push(MARKS[sym::choice(MARKS.len() as u32) as usize].as_bytes().to_vec()),
            c => { let mut b = [0; 4]; parts.push(c.encode_utf8(&mut b).as_bytes().to_vec()) }
        }
    }
    parts
}
pub fn doc() -> Doc { template(TEMPLATES[sym::param(0) as usize]) }
/// Any character of Unicode.
pub fn any_char(o: &mut Vec<u8>) {
    let b = sym::byte;
    let c = |o: &mut Vec<u8>, n| for _ in 0..n { o.push(b(0x80, 0xBF)) };
    match sym::choice(9) {
        0 => o.push(b(0, 0x7F)),
        1 => { o.push(b(0xC2, 0xDF)); c(o, 1) }
        2 => { o.push(0xE0); o.push(b(0xA0, 0xBF)); c(o, 1) }
        3 => { o.push(b(0xE1, 0xEC)); c(o, 2) }
        4 => { o.push(0xED); o.push(b(0x80, 0x9F)); c(o, 1) }
        5 => { o.push(b(0xEE, 0xEF)); c(o, 2) }
        6 => { o.push(0xF0); o.push(b(0x90, 0xBF)); c(o, 2) }
        7 => { o.push(b(0xF1, 0xF3)); c(o, 3) }
        _ => { o.push(0xF4); o.push(b(0x80, 0x8F)); c(o, 2) }
    }
}
