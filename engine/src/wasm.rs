//! WebAssembly (memory64) binary decoder and translation to register code.
use std::collections::HashMap;

pub const K: u32 = 1 << 31; // operand is an index in the constant pool

#[derive(Clone, Copy, Debug)]
pub struct I { pub op: u16, pub d: u32, pub a: u32, pub b: u32, pub x: u64 }

pub mod op {
    pub const MOV: u16 = 0x200;
    pub const BR: u16 = 0x201;      // x = target
    pub const BRIF: u16 = 0x202;    // a = cond, x = target
    pub const BRIFN: u16 = 0x203;
    pub const BRTABLE: u16 = 0x204; // a = index, x = table id
    pub const CALL: u16 = 0x205;    // x = function, d = slot of first argument
    pub const CALLI: u16 = 0x206;   // a = table index, x = type, d = slot
    pub const RET: u16 = 0x207;     // d = slot of first result, x = count
    pub const TRAP: u16 = 0x208;
    pub const SELECT: u16 = 0x209;  // d = x(cond operand) ? a : b
    pub const GGET: u16 = 0x20A;
    pub const GSET: u16 = 0x20B;
    pub const MSIZE: u16 = 0x20C;
    pub const MGROW: u16 = 0x20D;
    pub const MCOPY: u16 = 0x20E;   // d = dst operand, a = src operand, b = len operand
    pub const MFILL: u16 = 0x20F;
    pub const HOST: u16 = 0x210;    // x = import index, d = slot
    pub const BUILTIN: u16 = 0x211; // x = builtin id, d = slot
    pub const SAT: u16 = 0x300;     // + sub opcode, float to int saturating
}

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct FT { pub p: Vec<u8>, pub r: Vec<u8> }

pub struct Func {
    pub ty: usize,
    pub np: u32,
    pub nr: u32,
    pub nlocals: u32,
    pub nregs: u32,
    pub code: Vec<I>,
    pub consts: Vec<u64>,
    pub tables: Vec<Vec<u32>>,
    pub name: String,
}

#[derive(Default)]
pub struct Module {
    pub types: Vec<FT>,
    pub imports: Vec<(String, String, usize)>,
    pub funcs: Vec<Func>,           // index = function index, imports included (empty code)
    pub table: Vec<Option<u32>>,
    pub mem_min: u64,
    pub globals: Vec<u64>,
    pub exports: HashMap<String, (u8, u32)>,
    pub data: Vec<(u64, Vec<u8>)>,
    pub start: Option<u32>,
}

struct R<'a> { b: &'a [u8], p: usize }
impl<'a> R<'a> {
    fn u8(&mut self) -> u8 { let v = self.b[self.p]; self.p += 1; v }
    fn u(&mut self) -> u64 {
        let (mut r, mut s) = (0u64, 0);
        loop { let b = self.u8(); r |= ((b & 0x7f) as u64) << s; s += 7; if b & 0x80 == 0 { return r; } }
    }
    fn i(&mut self) -> i64 {
        let (mut r, mut s) = (0i64, 0);
        loop {
            let b = self.u8();
            if s < 64 { r |= ((b & 0x7f) as i64) << s; }
            s += 7;
            if b & 0x80 == 0 { if s < 64 && b & 0x40 != 0 { r |= -1i64 << s; } return r; }
        }
    }
    fn bytes(&mut self, n: usize) -> &'a [u8] { let v = &self.b[self.p..self.p + n]; self.p += n; v }
    fn name(&mut self) -> String { let n = self.u() as usize; String::from_utf8_lossy(self.bytes(n)).into_owned() }
    fn limits(&mut self) -> u64 { let f = self.u8(); let min = self.u(); if f & 1 == 1 { self.u(); } min }
    fn cexpr(&mut self, globals: &[u64]) -> u64 {
        let mut v = 0;
        loop {
            match self.u8() {
                0x41 => v = self.i() as u32 as u64,
                0x42 => v = self.i() as u64,
                0x43 => { v = u32::from_le_bytes(self.bytes(4).try_into().unwrap()) as u64 }
                0x44 => { v = u64::from_le_bytes(self.bytes(8).try_into().unwrap()) }
                0x23 => v = globals[self.u() as usize],
                0xD2 => v = self.u(),
                0xD0 => { self.u8(); v = u64::MAX }
                0x0B => return v,
                o => panic!("const expr opcode {o:#x}"),
            }
        }
    }
}

pub fn load(bytes: &[u8]) -> Module {
    assert_eq!(&bytes[0..8], b"\0asm\x01\0\0\0", "not a wasm module");
    let mut m = Module::default();
    let mut r = R { b: bytes, p: 8 };
    let mut ftypes: Vec<usize> = vec![];
    let mut bodies: Vec<&[u8]> = vec![];
    let mut names: HashMap<u32, String> = HashMap::new();
    while r.p < bytes.len() {
        let id = r.u8();
        let n = r.u() as usize;
        let end = r.p + n;
        match id {
            0 => {
                let nm = r.name();
                if nm == "name" {
                    while r.p < end {
                        let sid = r.u8();
                        let sn = r.u() as usize;
                        let send = r.p + sn;
                        if sid == 1 {
                            for _ in 0..r.u() { let i = r.u() as u32; let s = r.name(); names.insert(i, s); }
                        }
                        r.p = send;
                    }
                }
            }
            1 => for _ in 0..r.u() {
                assert_eq!(r.u8(), 0x60);
                let np = r.u() as usize; let p = r.bytes(np).to_vec();
                let nr = r.u() as usize; let q = r.bytes(nr).to_vec();
                m.types.push(FT { p, r: q });
            },
            2 => for _ in 0..r.u() {
                let a = r.name(); let b = r.name();
                match r.u8() {
                    0 => { let t = r.u() as usize; m.imports.push((a, b, t)); ftypes.push(t); }
                    k => panic!("import kind {k} {a}.{b}"),
                }
            },
            3 => for _ in 0..r.u() { ftypes.push(r.u() as usize); },
            4 => for _ in 0..r.u() { r.u8(); let n = r.limits(); m.table.resize(n as usize, None); },
            5 => for _ in 0..r.u() { m.mem_min = r.limits(); },
            6 => for _ in 0..r.u() { r.u8(); r.u8(); let v = r.cexpr(&m.globals); m.globals.push(v); },
            7 => for _ in 0..r.u() { let s = r.name(); let k = r.u8(); let i = r.u() as u32; m.exports.insert(s, (k, i)); },
            8 => m.start = Some(r.u() as u32),
            9 => for _ in 0..r.u() {
                let f = r.u();
                assert_eq!(f, 0, "element segment kind");
                let off = r.cexpr(&m.globals) as usize;
                for k in 0..r.u() as usize { let i = r.u() as u32; m.table[off + k] = Some(i); }
            },
            10 => for _ in 0..r.u() { let n = r.u() as usize; bodies.push(r.bytes(n)); },
            11 => for _ in 0..r.u() {
                let f = r.u();
                assert_eq!(f, 0, "data segment kind");
                let off = r.cexpr(&m.globals);
                let n = r.u() as usize;
                m.data.push((off, r.bytes(n).to_vec()));
            },
            12 => {}
            _ => panic!("section {id}"),
        }
        r.p = end;
    }
    let ni = m.imports.len();
    for (i, t) in ftypes.iter().enumerate() {
        let ft = m.types[*t].clone();
        let name = names.get(&(i as u32)).cloned().unwrap_or_else(|| if i < ni { format!("{}.{}", m.imports[i].0, m.imports[i].1) } else { format!("f{i}") });
        let mut f = Func { ty: *t, np: ft.p.len() as u32, nr: ft.r.len() as u32, nlocals: 0, nregs: 0, code: vec![], consts: vec![], tables: vec![], name };
        if i >= ni { compile(&m, &ftypes, bodies[i - ni], &mut f); }
        m.funcs.push(f);
    }
    m
}

#[derive(Clone, Copy, PartialEq)]
enum D { L(u32), C(u64), S }

struct Ctl { kind: u8, height: usize, np: usize, nr: usize, start: u32, fix: Vec<usize>, fixt: Vec<(usize, usize)>, els: Option<usize>, dead_in: bool }

struct Cx<'a> {
    f: &'a mut Func,
    st: Vec<D>,
    cmap: HashMap<u64, u32>,
    last_label: usize,
    maxh: usize,
}
impl<'a> Cx<'a> {
    fn slot(&self, i: usize) -> u32 { self.f.nlocals + i as u32 }
    fn emit(&mut self, op: u16, d: u32, a: u32, b: u32, x: u64) -> usize { self.f.code.push(I { op, d, a, b, x }); self.f.code.len() - 1 }
    fn k(&mut self, v: u64) -> u32 {
        let f = &mut *self.f;
        *self.cmap.entry(v).or_insert_with(|| { f.consts.push(v); (f.consts.len() - 1) as u32 | K })
    }
    fn opnd(&mut self, i: usize) -> u32 {
        match self.st[i] { D::L(l) => l, D::C(c) => self.k(c), D::S => self.slot(i) }
    }
    fn push(&mut self, d: D) { self.st.push(d); if self.st.len() > self.maxh { self.maxh = self.st.len(); } }
    fn popo(&mut self) -> u32 { let i = self.st.len() - 1; let o = self.opnd(i); self.st.pop(); o }
    /// destination slot for a new result
    fn pushs(&mut self) -> u32 { self.push(D::S); self.slot(self.st.len() - 1) }
    fn mat(&mut self, i: usize) {
        if self.st[i] != D::S { let o = self.opnd(i); let s = self.slot(i); self.emit(op::MOV, s, o, 0, 0); self.st[i] = D::S; }
    }
    fn flush(&mut self, from: usize) { for i in from..self.st.len() { self.mat(i); } }
    fn flush_local(&mut self, l: u32) -> bool {
        let mut any = false;
        for i in 0..self.st.len() { if self.st[i] == D::L(l) { self.mat(i); any = true; } }
        any
    }
    fn here(&self) -> u32 { self.f.code.len() as u32 }
}

fn compile(m: &Module, ftypes: &[usize], body: &[u8], f: &mut Func) {
    let mut r = R { b: body, p: 0 };
    let ft = &m.types[f.ty];
    let mut nl = ft.p.len() as u64;
    for _ in 0..r.u() { nl += r.u(); r.u8(); }
    f.nlocals = nl as u32;
    let nres = ft.r.len();
    let mut c = Cx { f, st: vec![], cmap: HashMap::new(), last_label: 0, maxh: 0 };
    let mut ctl: Vec<Ctl> = vec![Ctl { kind: 0, height: 0, np: 0, nr: nres, start: 0, fix: vec![], fixt: vec![], els: None, dead_in: false }];
    let mut dead = false;

    // moves the top `n` values to the slots from `h`; returns whether code was emitted
    fn moves(c: &mut Cx, h: usize, n: usize) -> bool {
        let base = c.st.len() - n;
        let before = c.f.code.len();
        for i in 0..n {
            let o = c.opnd(base + i);
            let s = c.slot(h + i);
            if o != s { c.emit(op::MOV, s, o, 0, 0); }
        }
        c.f.code.len() != before
    }
    loop {
        if r.p >= r.b.len() { break; }
        let o = r.u8();
        if dead {
            // skip unreachable code, tracking nesting
            match o {
                0x02 | 0x03 | 0x04 => { r.i(); ctl.push(Ctl { kind: o, height: c.st.len(), np: 0, nr: 0, start: 0, fix: vec![], fixt: vec![], els: None, dead_in: true }); continue; }
                0x05 => {
                    if ctl.last().unwrap().dead_in { continue; }
                }
                0x0B => {
                    if ctl.last().unwrap().dead_in { ctl.pop(); continue; }
                }
                _ => { skip_imm(&mut r, o); continue; }
            }
        }
        match o {
            0x00 => { c.emit(op::TRAP, 0, 0, 0, 0); dead = true; }
            0x01 => {}
            0x02 | 0x03 | 0x04 => {
                let bt = r.i();
                let (np, nr) = if bt >= 0 { (m.types[bt as usize].p.len(), m.types[bt as usize].r.len()) } else if bt == -64 { (0, 0) } else { (0, 1) };
                let cond = if o == 4 { Some(c.popo()) } else { None };
                // the condition may live in the slot just above; flushing writes only below it
                c.flush(0);
                let height = c.st.len() - np;
                let els = cond.map(|k| c.emit(op::BRIFN, 0, k, 0, 0));
                c.last_label = c.f.code.len();
                ctl.push(Ctl { kind: o, height, np, nr, start: c.here(), fix: vec![], fixt: vec![], els, dead_in: false });
            }
            0x05 => {
                let i = ctl.len() - 1;
                if !dead {
                    let (h, n) = (ctl[i].height, ctl[i].nr);
                    moves(&mut c, h, n);
                    let p = c.emit(op::BR, 0, 0, 0, 0);
                    ctl[i].fix.push(p);
                }
                let e = ctl[i].els.take().unwrap();
                c.f.code[e].x = c.here() as u64;
                c.last_label = c.f.code.len();
                c.st.truncate(ctl[i].height);
                for _ in 0..ctl[i].np { c.push(D::S); }
                dead = false;
            }
            0x0B => {
                let k = ctl.pop().unwrap();
                if !dead { moves(&mut c, k.height, k.nr); }
                let here = c.here();
                if let Some(e) = k.els { c.f.code[e].x = here as u64; }
                for p in &k.fix { c.f.code[*p].x = here as u64; }
                for (t, j) in &k.fixt { c.f.tables[*t][*j] = here; }
                c.st.truncate(k.height);
                for _ in 0..k.nr { c.push(D::S); }
                c.last_label = c.f.code.len();
                dead = false;
                if ctl.is_empty() {
                    let s = c.slot(0);
                    c.emit(op::RET, s, 0, 0, nres as u64);
                    break;
                }
            }
            0x0C => {
                let l = r.u() as usize;
                let i = ctl.len() - 1 - l;
                let n = if ctl[i].kind == 3 { ctl[i].np } else { ctl[i].nr };
                moves(&mut c, ctl[i].height, n);
                if ctl[i].kind == 3 { let s = ctl[i].start; c.emit(op::BR, 0, 0, 0, s as u64); }
                else { let p = c.emit(op::BR, 0, 0, 0, 0); ctl[i].fix.push(p); }
                dead = true;
            }
            0x0D => {
                let l = r.u() as usize;
                let cond = c.popo();
                let i = ctl.len() - 1 - l;
                let n = if ctl[i].kind == 3 { ctl[i].np } else { ctl[i].nr };
                let h = ctl[i].height;
                let need = (0..n).any(|j| { let b = c.st.len() - n + j; c.st[b] != D::S || b != h + j });
                if !need {
                    let lp = ctl[i].kind == 3;
                    let x = ctl[i].start as u64;
                    let p = c.emit(op::BRIF, 0, cond, 0, x);
                    if !lp { ctl[i].fix.push(p); }
                } else {
                    let sk = c.emit(op::BRIFN, 0, cond, 0, 0);
                    moves(&mut c, h, n);
                    let lp = ctl[i].kind == 3;
                    let x = ctl[i].start as u64;
                    let p = c.emit(op::BR, 0, 0, 0, x);
                    if !lp { ctl[i].fix.push(p); }
                    c.f.code[sk].x = c.here() as u64;
                }
                c.last_label = c.f.code.len();
            }
            0x0E => {
                let n = r.u() as usize;
                let mut ls = vec![];
                for _ in 0..=n { ls.push(r.u() as usize); }
                let idx = c.popo();
                let tid = c.f.tables.len();
                c.f.tables.push(vec![0; n + 1]);
                c.emit(op::BRTABLE, 0, idx, 0, tid as u64);
                for (j, l) in ls.iter().enumerate() {
                    let i = ctl.len() - 1 - l;
                    let ar = if ctl[i].kind == 3 { ctl[i].np } else { ctl[i].nr };
                    let h = ctl[i].height;
                    let need = (0..ar).any(|q| { let b = c.st.len() - ar + q; c.st[b] != D::S || b != h + q });
                    if need {
                        c.f.tables[tid][j] = c.here();
                        moves(&mut c, h, ar);
                        let x = ctl[i].start as u64;
                        let lp = ctl[i].kind == 3;
                        let p = c.emit(op::BR, 0, 0, 0, x);
                        if !lp { ctl[i].fix.push(p); }
                    } else if ctl[i].kind == 3 { c.f.tables[tid][j] = ctl[i].start; }
                    else { ctl[i].fixt.push((tid, j)); }
                }
                dead = true;
            }
            0x0F => {
                moves(&mut c, 0, nres);
                let s = c.slot(0);
                c.emit(op::RET, s, 0, 0, nres as u64);
                dead = true;
            }
            0x10 | 0x11 => {
                let (t, callee, idx);
                if o == 0x10 { callee = r.u(); t = ftypes[callee as usize]; idx = 0; }
                else { t = r.u() as usize; r.u(); callee = t as u64; idx = c.popo(); }
                let sig = &m.types[t];
                let n = sig.p.len();
                let base = c.st.len() - n;
                // idx may sit in the slot after the arguments; argument moves stay below it
                c.flush(base);
                let s = c.slot(base);
                if o == 0x10 {
                    let opc = if (callee as usize) < m.imports.len() { op::HOST } else { op::CALL };
                    c.emit(opc, s, 0, 0, callee);
                } else { c.emit(op::CALLI, s, idx, 0, callee); }
                c.st.truncate(base);
                for _ in 0..sig.r.len() { c.push(D::S); }
                c.last_label = c.f.code.len();
            }
            0x1A => { c.st.pop(); }
            0x1B | 0x1C => {
                if o == 0x1C { let n = r.u(); for _ in 0..n { r.u8(); } }
                let k = c.popo(); let y = c.popo(); let x = c.popo();
                let d = c.pushs();
                c.emit(op::SELECT, d, x, y, k as u64);
            }
            0x20 => { let l = r.u() as u32; c.push(D::L(l)); }
            0x21 | 0x22 => {
                let l = r.u() as u32;
                let top = c.st.len() - 1;
                let td = c.st[top];
                let n = c.f.code.len();
                let s = c.slot(top);
                let patch = td == D::S && n > c.last_label && {
                    let i = c.f.code[n - 1];
                    i.d == s && writes_d(i.op) && !c.st[..top].iter().any(|d| *d == D::L(l))
                };
                if patch {
                    c.f.code[n - 1].d = l;
                } else {
                    let oo = c.opnd(top);
                    c.st.pop();
                    c.flush_local(l);
                    if oo != l { c.emit(op::MOV, l, oo, 0, 0); }
                    c.st.push(td);
                }
                c.st.pop();
                if o == 0x22 { c.push(if let D::C(k) = td { D::C(k) } else { D::L(l) }); }
            }
            0x23 => { let g = r.u(); let d = c.pushs(); c.emit(op::GGET, d, 0, 0, g); }
            0x24 => { let g = r.u(); let a = c.popo(); c.emit(op::GSET, 0, a, 0, g); }
            0x28..=0x35 => { r.u(); let off = r.u(); let a = c.popo(); let d = c.pushs(); c.emit(o as u16, d, a, 0, off); }
            0x36..=0x3E => { r.u(); let off = r.u(); let b = c.popo(); let a = c.popo(); c.emit(o as u16, 0, a, b, off); }
            0x3F => { r.u8(); let d = c.pushs(); c.emit(op::MSIZE, d, 0, 0, 0); }
            0x40 => { r.u8(); let a = c.popo(); let d = c.pushs(); c.emit(op::MGROW, d, a, 0, 0); }
            0x41 => { let v = r.i() as u32 as u64; c.push(D::C(v)); }
            0x42 => { let v = r.i() as u64; c.push(D::C(v)); }
            0x43 => { let v = u32::from_le_bytes(r.bytes(4).try_into().unwrap()) as u64; c.push(D::C(v)); }
            0x44 => { let v = u64::from_le_bytes(r.bytes(8).try_into().unwrap()); c.push(D::C(v)); }
            0xFC => {
                let s = r.u();
                match s {
                    0..=7 => { let a = c.popo(); let d = c.pushs(); c.emit(op::SAT + s as u16, d, a, 0, 0); }
                    10 => { r.u8(); r.u8(); let n = c.popo(); let a = c.popo(); let d = c.popo(); c.emit(op::MCOPY, d, a, n, 0); }
                    11 => { r.u8(); let n = c.popo(); let a = c.popo(); let d = c.popo(); c.emit(op::MFILL, d, a, n, 0); }
                    _ => panic!("0xFC {s}"),
                }
            }
            _ if is_unary(o) => { let a = c.popo(); let d = c.pushs(); c.emit(o as u16, d, a, 0, 0); }
            0x45..=0xC4 => { let b = c.popo(); let a = c.popo(); let d = c.pushs(); c.emit(o as u16, d, a, b, 0); }
            _ => panic!("opcode {o:#x}"),
        }
    }
    let n = c.f.nlocals + c.maxh as u32 + 1;
    f.nregs = n.max(f.nlocals + f.nr + 1);
}

pub fn writes_d(o: u16) -> bool {
    matches!(o, 0x28..=0x35 | 0x45..=0xC4 | op::MOV | op::SELECT | op::GGET | op::MSIZE | op::MGROW | op::SAT..=0x307)
}
pub fn is_unary(o: u8) -> bool {
    matches!(o, 0x45 | 0x50 | 0x67..=0x69 | 0x79..=0x7B | 0x8B..=0x91 | 0x99..=0x9F | 0xA7..=0xC4)
}
fn skip_imm(r: &mut R, o: u8) {
    match o {
        0x0C | 0x0D | 0x10 | 0x20..=0x24 => { r.u(); }
        0x0E => { let n = r.u(); for _ in 0..=n { r.u(); } }
        0x11 => { r.u(); r.u(); }
        0x1C => { let n = r.u(); for _ in 0..n { r.u8(); } }
        0x28..=0x3E => { r.u(); r.u(); }
        0x3F | 0x40 => { r.u8(); }
        0x41 | 0x42 => { r.i(); }
        0x43 => { r.bytes(4); }
        0x44 => { r.bytes(8); }
        0xFC => match r.u() { 0..=7 => {} 10 => { r.u8(); r.u8(); } 11 => { r.u8(); } s => panic!("0xFC {s}") },
        _ => {}
    }
}
