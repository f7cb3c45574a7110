//! Parser for the textual LLVM IR that rustc emits (LLVM 23 dialect).  Function bodies are
//! parsed lazily, on their first execution.
use std::cell::RefCell;
use std::collections::HashMap;

pub type TyId = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Vec(u32, TyId),
    Arr(u64, TyId),
    Struct(Vec<TyId>, bool),
    Func,
    Meta,
    Opaque,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum CastOp {
    Trunc,
    Zext,
    Sext,
    Bitcast,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpExt,
    FpTrunc,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RmwOp {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    UMax,
    UMin,
    Max,
    Min,
    Nand,
}

/// compile-time constant values
#[derive(Clone, Debug)]
pub enum K {
    I(u64),
    Wide(u128),
    Agg(Vec<K>),
}

#[derive(Clone, Copy, Debug)]
pub enum Op {
    R(u32),
    C(u64),
    K(u32),
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32),
    Indirect(Op),
}

#[derive(Debug)]
pub struct CallI {
    pub d: u32, // u32::MAX: none
    pub rty: TyId,
    pub callee: Callee,
    pub args: Vec<(TyId, Op)>,
    pub normal: u32, // invoke: normal destination, else u32::MAX
}

#[derive(Debug)]
pub enum I {
    Bin(BinOp, TyId, u32, Op, Op),
    Icmp(Pred, TyId, u32, Op, Op),
    Fcmp(String, TyId, u32, Op, Op),
    FNeg(TyId, u32, Op),
    Cast(CastOp, TyId, TyId, u32, Op),
    Select(u32, TyId, Op, Op, Op, TyId),
    Gep(u32, Op, u64, Box<[(Op, u64, u32)]>),
    Load(u32, Op, TyId, bool),
    Store(Op, Op, TyId, bool),
    Alloca(u32, u64),
    Call(Box<CallI>),
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(Op, u32, u32, Box<[(u64, u32)]>),
    Ret(Option<Op>),
    Unreachable,
    Rmw(RmwOp, u32, Op, Op, TyId, bool),
    CmpXchg(u32, Op, Op, Op, TyId),
    ExtractValue(u32, Op, Box<[u32]>),
    InsertValue(u32, Op, Op, Box<[u32]>),
    ExtractElement(u32, Op, Op),
    InsertElement(u32, Op, Op, Op),
    Shuffle(u32, Op, Op, Vec<u32>),
    Copy(u32, Op),
    Nop,
    Unsupported(String),
}

#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Op)>, TyId)>,
    pub code: Vec<I>,
    pub name: String,
}

pub struct Func {
    pub id: u32,
    pub name: String,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
    pub frame_size: u64,
    pub rty: TyId,
    /// immediate post-dominator per block (u32::MAX: none, u32::MAX-1: function exit)
    pub ipdom: Vec<u32>,
    /// registers live on entry (after the phis) of each block
    pub live_in: Vec<Vec<u64>>,
}

pub struct FuncDecl {
    pub name: String,
    pub body: Option<(usize, usize)>, // byte range
    pub func: RefCell<Option<&'static Func>>,
    pub pretty: String,
}

pub struct Global {
    pub name: String,
    pub size: u64,
    pub ty: TyId,
    pub init: Vec<u8>,
    pub constant: bool,
    pub tls: bool,
    pub external: bool,
    init_src: (usize, usize),
}

pub struct Module {
    pub text: &'static str,
    pub tys: RefCell<Vec<Ty>>,
    tymap: RefCell<HashMap<Ty, TyId>>,
    pub funcs: Vec<FuncDecl>,
    pub fmap: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<String, u32>,
    pub aliases: HashMap<String, String>,
    pub consts: RefCell<Vec<K>>,
    pub named_tys: RefCell<HashMap<String, TyId>>,
    /// constants that were truncated
    cut: RefCell<Vec<u64>>,
    /// tables of relative addresses, entry by entry: addresses do not fit in 32 bits here
    pub relative: HashMap<u64, u64>,
}

pub const GLOBAL_OBJ0: u64 = 0x1000;
pub const FUNC_OBJ0: u64 = 0x40_0000;
pub const HEAP_OBJ0: u64 = 0x80_0000;

pub fn global_addr(i: u32) -> u64 {
    (GLOBAL_OBJ0 + i as u64) << 24
}
pub fn func_addr(i: u32) -> u64 {
    (FUNC_OBJ0 + i as u64) << 24
}

struct Cur<'a> {
    s: &'a [u8],
    p: usize,
}

fn is_word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Cur<'a> {
    fn new(s: &'a str) -> Self {
        Cur { s: s.as_bytes(), p: 0 }
    }
    fn ws(&mut self) {
        while self.p < self.s.len() && (self.s[self.p] == b' ' || self.s[self.p] == b'\t') {
            self.p += 1
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.p < self.s.len() {
            self.s[self.p]
        } else {
            0
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.p += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            panic!("parse: expected '{}' at: {}", c as char, self.rest());
        }
    }
    fn rest(&self) -> String {
        let e = (self.p + 120).min(self.s.len());
        String::from_utf8_lossy(&self.s[self.p..e]).to_string()
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.p;
        while self.p < self.s.len() && is_word(self.s[self.p]) {
            self.p += 1
        }
        std::str::from_utf8(&self.s[st..self.p]).unwrap()
    }
    fn peek_word(&mut self) -> &'a str {
        let p = self.p;
        let w = self.word();
        self.p = p;
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        let p = self.p;
        if self.word() == w {
            true
        } else {
            self.p = p;
            false
        }
    }
    /// skip a balanced parenthesised group
    fn skip_parens(&mut self) {
        self.expect(b'(');
        let mut d = 1;
        while d > 0 {
            let c = self.s[self.p];
            self.p += 1;
            match c {
                b'(' => d += 1,
                b')' => d -= 1,
                b'"' => {
                    while self.s[self.p] != b'"' {
                        self.p += 1
                    }
                    self.p += 1
                },
                _ => {},
            }
        }
    }
    /// name after % or @ or in a label position
    fn name(&mut self) -> String {
        if self.p < self.s.len() && self.s[self.p] == b'"' {
            self.p += 1;
            let st = self.p;
            while self.s[self.p] != b'"' {
                self.p += 1
            }
            let r = std::str::from_utf8(&self.s[st..self.p]).unwrap().to_string();
            self.p += 1;
            r
        } else {
            let st = self.p;
            while self.p < self.s.len() && is_word(self.s[self.p]) {
                self.p += 1
            }
            std::str::from_utf8(&self.s[st..self.p]).unwrap().to_string()
        }
    }
    fn int(&mut self) -> u64 {
        let w = self.word();
        parse_int(w)
    }
}

fn parse_int(w: &str) -> u64 {
    if let Some(r) = w.strip_prefix('-') {
        (r.parse::<u64>().unwrap_or_else(|_| panic!("bad int {w}")) as i64).wrapping_neg() as u64
    } else {
        w.parse::<u64>().unwrap_or_else(|_| panic!("bad int {w}"))
    }
}

pub fn mask(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}

impl Module {
    pub fn ty(&self, t: Ty) -> TyId {
        if let Some(i) = self.tymap.borrow().get(&t) {
            return *i;
        }
        let mut v = self.tys.borrow_mut();
        let id = v.len() as u32;
        v.push(t.clone());
        self.tymap.borrow_mut().insert(t, id);
        id
    }
    pub fn get(&self, t: TyId) -> Ty {
        self.tys.borrow()[t as usize].clone()
    }
    pub fn align(&self, t: TyId) -> u64 {
        match self.get(t) {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Vec(n, e) => (n as u64 * self.bits(e) as u64 / 8).next_power_of_two().max(1),
            Ty::Arr(_, e) => self.align(e),
            Ty::Struct(f, p) => {
                if p {
                    1
                } else {
                    f.iter().map(|x| self.align(*x)).max().unwrap_or(1)
                }
            },
            _ => 1,
        }
    }
    pub fn bits(&self, t: TyId) -> u32 {
        match self.get(t) {
            Ty::Int(w) => w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::Vec(n, e) => n * self.bits(e),
            _ => (self.size(t) * 8) as u32,
        }
    }
    pub fn size(&self, t: TyId) -> u64 {
        match self.get(t) {
            Ty::Int(w) => {
                let b = ((w + 7) / 8) as u64;
                let a = self.align(t);
                b.div_ceil(a) * a
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Vec(n, e) => {
                (n as u64 * self.bits(e) as u64).div_ceil(8).next_power_of_two()
            },
            Ty::Arr(n, e) => n * self.size(e),
            Ty::Struct(f, p) => {
                let mut o = 0u64;
                for x in &f {
                    if !p {
                        let a = self.align(*x);
                        o = o.div_ceil(a) * a;
                    }
                    o += self.size(*x);
                }
                if !p {
                    let a = self.align(t);
                    o = o.div_ceil(a) * a;
                }
                o
            },
            _ => 0,
        }
    }
    pub fn field_off(&self, f: &[TyId], packed: bool, i: usize) -> u64 {
        let mut o = 0u64;
        for (k, x) in f.iter().enumerate() {
            if !packed {
                let a = self.align(*x);
                o = o.div_ceil(a) * a;
            }
            if k == i {
                return o;
            }
            o += self.size(*x);
        }
        panic!("field index")
    }

    fn parse_ty(&self, c: &mut Cur) -> TyId {
        let base = match c.peek() {
            b'{' => {
                c.expect(b'{');
                let mut f = vec![];
                if c.peek() != b'}' {
                    loop {
                        f.push(self.parse_ty(c));
                        if !c.eat(b',') {
                            break;
                        }
                    }
                }
                c.expect(b'}');
                self.ty(Ty::Struct(f, false))
            },
            b'<' => {
                c.expect(b'<');
                if c.peek() == b'{' {
                    c.expect(b'{');
                    let mut f = vec![];
                    if c.peek() != b'}' {
                        loop {
                            f.push(self.parse_ty(c));
                            if !c.eat(b',') {
                                break;
                            }
                        }
                    }
                    c.expect(b'}');
                    c.expect(b'>');
                    self.ty(Ty::Struct(f, true))
                } else {
                    let n = c.int();
                    assert!(c.eat_word("x"));
                    let e = self.parse_ty(c);
                    c.expect(b'>');
                    self.ty(Ty::Vec(n as u32, e))
                }
            },
            b'[' => {
                c.expect(b'[');
                let n = c.int();
                assert!(c.eat_word("x"));
                let e = self.parse_ty(c);
                c.expect(b']');
                self.ty(Ty::Arr(n, e))
            },
            b'%' => {
                c.expect(b'%');
                let n = c.name();
                *self
                    .named_tys
                    .borrow()
                    .get(&n)
                    .unwrap_or_else(|| panic!("unknown type %{n}"))
            },
            _ => {
                let w = c.word();
                match w {
                    "void" => self.ty(Ty::Void),
                    "ptr" => {
                        if c.peek_word() == "addrspace" {
                            c.word();
                            c.skip_parens();
                        }
                        self.ty(Ty::Ptr)
                    },
                    "float" => self.ty(Ty::F32),
                    "double" => self.ty(Ty::F64),
                    "metadata" => self.ty(Ty::Meta),
                    "label" | "token" => self.ty(Ty::Void),
                    "opaque" => self.ty(Ty::Opaque),
                    _ if w.starts_with('i')
                        && w.len() > 1
                        && w[1..].bytes().all(|b| b.is_ascii_digit()) =>
                        self.ty(Ty::Int(w[1..].parse().unwrap())),
                    _ => panic!("bad type {w} at {}", c.rest()),
                }
            },
        };
        // function type?
        if c.peek() == b'(' {
            // "i64 (i64, ...)" only ever appears in call position
            let save = c.p;
            c.skip_parens();
            let _ = save;
        }
        base
    }

    /// like parse_ty, but never swallows a following parenthesis
    fn parse_ty_nofn(&self, c: &mut Cur) -> TyId {
        self.parse_ty(c)
    }

    fn skip_attrs(&self, c: &mut Cur) {
        loop {
            let ch = c.peek();
            if ch == b'"' {
                // string attribute "x" or "x"="y"
                c.p += 1;
                while c.s[c.p] != b'"' {
                    c.p += 1
                }
                c.p += 1;
                if c.peek() == b'=' {
                    c.p += 1;
                    c.expect(b'"');
                    while c.s[c.p] != b'"' {
                        c.p += 1
                    }
                    c.p += 1;
                }
                continue;
            }
            if !(ch.is_ascii_lowercase()) {
                return;
            }
            let p = c.p;
            let w = c.word();
            match w {
                "align" => {
                    if c.peek() == b'(' {
                        c.skip_parens()
                    } else {
                        c.int();
                    }
                },
                "noundef" | "nonnull" | "noalias" | "nofree" | "readonly" | "writeonly" | "readnone"
                | "zeroext" | "signext" | "inreg" | "nest" | "returned" | "immarg" | "allocalign"
                | "allocptr" | "nocapture" | "swiftself" | "dead_on_unwind" | "writable"
                | "dead_on_return" | "noext" => {
                    if c.p < c.s.len() && c.s[c.p] == b'(' {
                        c.skip_parens()
                    }
                },
                "captures" | "dereferenceable" | "dereferenceable_or_null" | "range" | "sret"
                | "byval" | "initializes" | "nofpclass" | "elementtype" | "byref" | "preallocated" =>
                    c.skip_parens(),
                _ => {
                    c.p = p;
                    return;
                },
            }
        }
    }

    fn global_ref(&self, n: &str) -> u64 {
        if let Some(a) = self.aliases.get(n) {
            let a = a.clone();
            return self.global_ref(&a);
        }
        if let Some(i) = self.gmap.get(n) {
            return global_addr(*i);
        }
        if let Some(i) = self.fmap.get(n) {
            return func_addr(*i);
        }
        panic!("unknown global @{n}")
    }

    fn zero(&self, t: TyId) -> K {
        match self.get(t) {
            Ty::Int(w) if w > 64 => K::Wide(0),
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => K::I(0),
            Ty::Vec(n, e) => K::Agg((0..n).map(|_| self.zero(e)).collect()),
            Ty::Arr(n, e) => K::Agg((0..n).map(|_| self.zero(e)).collect()),
            Ty::Struct(f, _) => K::Agg(f.iter().map(|x| self.zero(*x)).collect()),
            _ => K::I(0),
        }
    }

    fn parse_const(&self, c: &mut Cur, t: TyId) -> K {
        match c.peek() {
            b'@' => {
                c.p += 1;
                let n = c.name();
                return K::I(self.global_ref(&n));
            },
            b'{' => {
                c.expect(b'{');
                let r = self.parse_const_list(c, b'}');
                return K::Agg(r);
            },
            b'[' => {
                c.expect(b'[');
                let r = self.parse_const_list(c, b']');
                return K::Agg(r);
            },
            b'<' => {
                c.expect(b'<');
                if c.peek() == b'{' {
                    c.expect(b'{');
                    let r = self.parse_const_list(c, b'}');
                    c.expect(b'>');
                    return K::Agg(r);
                }
                let r = self.parse_const_list(c, b'>');
                return K::Agg(r);
            },
            _ => {},
        }
        let w = c.word();
        let tt = self.get(t);
        match w {
            "true" => return K::I(1),
            "false" => return K::I(0),
            "null" | "none" => return K::I(0),
            "undef" | "poison" | "zeroinitializer" => return self.zero(t),
            "splat" => {
                c.expect(b'(');
                let et = self.parse_ty_nofn(c);
                let v = self.parse_const(c, et);
                c.expect(b')');
                if let Ty::Vec(n, _) = tt {
                    return K::Agg((0..n).map(|_| v.clone()).collect());
                }
                panic!("splat of non-vector")
            },
            "c" => {
                c.expect(b'"');
                let mut v = vec![];
                while c.s[c.p] != b'"' {
                    if c.s[c.p] == b'\\' {
                        if c.s[c.p + 1] == b'\\' {
                            v.push(K::I(b'\\' as u64));
                            c.p += 2;
                        } else {
                            let h = std::str::from_utf8(&c.s[c.p + 1..c.p + 3]).unwrap();
                            v.push(K::I(u64::from_str_radix(h, 16).unwrap()));
                            c.p += 3;
                        }
                    } else {
                        v.push(K::I(c.s[c.p] as u64));
                        c.p += 1;
                    }
                }
                c.p += 1;
                return K::Agg(v);
            },
            w @ ("ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" | "ptrtoaddr") => {
                let cut = w == "trunc";
                while c.peek() != b'(' {
                    c.word();
                }
                c.expect(b'(');
                let ft = self.parse_ty_nofn(c);
                let v = self.parse_const(c, ft);
                assert!(c.eat_word("to"));
                let dt = self.parse_ty_nofn(c);
                c.expect(b')');
                if let K::I(x) = v {
                    if cut {
                        self.cut.borrow_mut().push(x);
                    }
                    return K::I(x & mask(self.bits(dt)));
                }
                return v;
            },
            "getelementptr" => {
                while c.peek() != b'(' {
                    c.word();
                    if c.peek() == b'(' && c.s[..c.p].ends_with(b"inrange") {
                        c.skip_parens();
                    }
                }
                c.expect(b'(');
                let et = self.parse_ty_nofn(c);
                c.expect(b',');
                let bt = self.parse_ty_nofn(c);
                let b = match self.parse_const(c, bt) {
                    K::I(x) => x,
                    _ => panic!("gep base"),
                };
                let mut off = 0u64;
                let mut cur = et;
                let mut first = true;
                while c.eat(b',') {
                    let it = self.parse_ty_nofn(c);
                    let i = match self.parse_const(c, it) {
                        K::I(x) => sext64(x, self.bits(it)),
                        _ => panic!("gep idx"),
                    };
                    if first {
                        off = off.wrapping_add(i.wrapping_mul(self.size(cur)));
                        first = false;
                    } else {
                        match self.get(cur) {
                            Ty::Struct(f, p) => {
                                off += self.field_off(&f, p, i as usize);
                                cur = f[i as usize];
                            },
                            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                off = off.wrapping_add(i.wrapping_mul(self.size(e)));
                                cur = e;
                            },
                            _ => panic!("gep into scalar"),
                        }
                    }
                }
                c.expect(b')');
                return K::I(b.wrapping_add(off));
            },
            "add" | "sub" | "mul" | "and" | "or" | "xor" | "shl" | "lshr" => {
                while c.peek() != b'(' {
                    c.word();
                }
                c.expect(b'(');
                let at = self.parse_ty_nofn(c);
                let a = self.parse_const(c, at);
                c.expect(b',');
                let bt = self.parse_ty_nofn(c);
                let b = self.parse_const(c, bt);
                c.expect(b')');
                if let (K::I(a), K::I(b)) = (a, b) {
                    let r = match w {
                        "add" => a.wrapping_add(b),
                        "sub" => a.wrapping_sub(b),
                        "mul" => a.wrapping_mul(b),
                        "and" => a & b,
                        "or" => a | b,
                        "xor" => a ^ b,
                        "shl" => a << b,
                        _ => a >> b,
                    };
                    return K::I(r & mask(self.bits(at)));
                }
                panic!("const expr")
            },
            _ => {},
        }
        match tt {
            Ty::Int(n) if n <= 64 => {
                if let Some(h) = w.strip_prefix("u0x").or(w.strip_prefix("s0x")) {
                    return K::I(u64::from_str_radix(h, 16).unwrap() & mask(n));
                }
                K::I(parse_int(w) & mask(n))
            },
            Ty::Int(n) => {
                let v = if let Some(r) = w.strip_prefix('-') {
                    (r.parse::<u128>().unwrap() as i128).wrapping_neg() as u128
                } else {
                    w.parse::<u128>().unwrap_or_else(|_| panic!("bad i128 {w}"))
                };
                K::Wide(if n >= 128 { v } else { v & ((1u128 << n) - 1) })
            },
            Ty::F64 | Ty::F32 => {
                let is32 = tt == Ty::F32;
                let mut w = w.to_string();
                if c.p < c.s.len() && c.s[c.p] == b'+' {
                    // 1.000000e+00
                    c.p += 1;
                    w.push('+');
                    w.push_str(c.word());
                }
                let bits = if let Some(h) = w.strip_prefix("f0x") {
                    let b = u64::from_str_radix(h, 16).unwrap();
                    return K::I(b);
                } else if let Some(h) = w.strip_prefix("0x") {
                    f64::from_bits(u64::from_str_radix(h, 16).unwrap())
                } else {
                    match w.as_str() {
                        "inf" | "+inf" => f64::INFINITY,
                        "-inf" => f64::NEG_INFINITY,
                        "qnan" | "nan" | "+qnan" => f64::NAN,
                        _ => w.parse::<f64>().unwrap_or_else(|_| panic!("bad float {w}")),
                    }
                };
                if is32 {
                    K::I((bits as f32).to_bits() as u64)
                } else {
                    K::I(bits.to_bits())
                }
            },
            _ => panic!("bad constant {w} for {tt:?} at {}", c.rest()),
        }
    }
    fn parse_const_list(&self, c: &mut Cur, end: u8) -> Vec<K> {
        let mut r = vec![];
        if c.peek() != end {
            loop {
                let t = self.parse_ty_nofn(c);
                r.push(self.parse_const(c, t));
                if !c.eat(b',') {
                    break;
                }
            }
        }
        c.expect(end);
        r
    }

    pub fn write_const(&self, k: &K, t: TyId, out: &mut [u8]) {
        match (self.get(t), k) {
            (Ty::Arr(_, e), K::Agg(v)) => {
                let s = self.size(e) as usize;
                for (i, x) in v.iter().enumerate() {
                    self.write_const(x, e, &mut out[i * s..]);
                }
            },
            (Ty::Vec(_, e), K::Agg(v)) => {
                let s = (self.bits(e) / 8) as usize;
                assert!(s > 0);
                for (i, x) in v.iter().enumerate() {
                    self.write_const(x, e, &mut out[i * s..]);
                }
            },
            (Ty::Struct(f, p), K::Agg(v)) =>
                for (i, x) in v.iter().enumerate() {
                    let o = self.field_off(&f, p, i) as usize;
                    self.write_const(x, f[i], &mut out[o..]);
                },
            (_, K::I(x)) => {
                let s = (self.size(t) as usize).min(8);
                out[..s].copy_from_slice(&x.to_le_bytes()[..s]);
            },
            (_, K::Wide(x)) => {
                let s = (self.size(t) as usize).min(16);
                out[..s].copy_from_slice(&x.to_le_bytes()[..s]);
            },
            _ => panic!("write_const mismatch"),
        }
    }

    pub fn load(text: String) -> Module {
        let text: &'static str = Box::leak(text.into_boxed_str());
        let mut m = Module {
            text,
            tys: RefCell::new(vec![]),
            tymap: RefCell::new(HashMap::new()),
            funcs: vec![],
            fmap: HashMap::new(),
            globals: vec![],
            gmap: HashMap::new(),
            aliases: HashMap::new(),
            consts: RefCell::new(vec![]),
            named_tys: RefCell::new(HashMap::new()),
            cut: RefCell::new(vec![]),
            relative: HashMap::new(),
        };
        let bytes = text.as_bytes();
        let mut pos = 0;
        let mut pend_pretty = String::new();
        while pos < bytes.len() {
            let eol = memchr(bytes, pos, b'\n');
            let line = &text[pos..eol];
            let next = eol + 1;
            if line.starts_with("define ") {
                // body up to a line "}"
                let end = find_body_end(bytes, next);
                let at = line.find('@').unwrap();
                let mut c = Cur { s: line.as_bytes(), p: at + 1 };
                let name = c.name();
                let id = m.funcs.len() as u32;
                m.fmap.insert(name.clone(), id);
                m.funcs.push(FuncDecl {
                    name,
                    body: Some((pos, end)),
                    func: RefCell::new(None),
                    pretty: std::mem::take(&mut pend_pretty),
                });
                pos = end;
                continue;
            } else if line.starts_with("declare ") {
                let at = line.find('@').unwrap();
                let mut c = Cur { s: line.as_bytes(), p: at + 1 };
                let name = c.name();
                let id = m.funcs.len() as u32;
                m.fmap.insert(name.clone(), id);
                m.funcs.push(FuncDecl {
                    name: name.clone(),
                    body: None,
                    func: RefCell::new(None),
                    pretty: name,
                });
            } else if line.starts_with("; ") {
                if !line.starts_with("; Function Attrs") {
                    pend_pretty = line[2..].to_string();
                }
            } else if line.starts_with('@') {
                let mut c = Cur::new(line);
                c.p += 1;
                let name = c.name();
                c.expect(b'=');
                let mut tls = false;
                let mut external = false;
                let mut constant = false;
                let mut alias = false;
                loop {
                    let w = c.word();
                    match w {
                        "thread_local" => {
                            tls = true;
                            if c.peek() == b'(' {
                                c.skip_parens()
                            }
                        },
                        "external" | "extern_weak" => external = true,
                        "constant" => {
                            constant = true;
                            break;
                        },
                        "global" => break,
                        "alias" => {
                            alias = true;
                            break;
                        },
                        "" => panic!("bad global {line}"),
                        "comdat" | "addrspace" =>
                            if c.peek() == b'(' {
                                c.skip_parens()
                            },
                        _ => {},
                    }
                }
                if alias {
                    m.parse_ty(&mut c);
                    c.expect(b',');
                    m.parse_ty(&mut c);
                    c.expect(b'@');
                    let t = c.name();
                    m.aliases.insert(name, t);
                } else {
                    let ty = m.parse_ty(&mut c);
                    let id = m.globals.len() as u32;
                    m.gmap.insert(name.clone(), id);
                    let st = pos + c.p;
                    m.globals.push(Global {
                        name,
                        size: m.size(ty),
                        ty,
                        init: vec![],
                        constant,
                        tls,
                        external,
                        init_src: (st, eol),
                    });
                }
            } else if line.starts_with('%') {
                let mut c = Cur::new(line);
                c.p += 1;
                let name = c.name();
                c.expect(b'=');
                assert!(c.eat_word("type"));
                let t = m.parse_ty(&mut c);
                m.named_tys.borrow_mut().insert(name, t);
            }
            pos = next;
        }
        for i in 0..m.globals.len() {
            if m.globals[i].external {
                m.globals[i].init = vec![0; m.globals[i].size.max(8) as usize];
                continue;
            }
            let (a, b) = m.globals[i].init_src;
            let src = &text[a..b];
            let mut c = Cur::new(src);
            let ty = m.globals[i].ty;
            m.cut.borrow_mut().clear();
            let k = m.parse_const(&mut c, ty);
            let mut buf = vec![0u8; m.size(ty) as usize];
            if m.cut.borrow().len() * 4 == buf.len() {
                let cut = m.cut.take();
                for (j, x) in cut.into_iter().enumerate() {
                    m.relative.insert(global_addr(i as u32) + 4 * j as u64, x);
                }
            }
            m.write_const(&k, ty, &mut buf);
            m.globals[i].init = buf;
        }
        m
    }

    pub fn func(&self, id: u32) -> Option<&'static Func> {
        if let Some(f) = *self.funcs[id as usize].func.borrow() {
            return Some(f);
        }
        let (a, b) = self.funcs[id as usize].body?;
        let f = self.parse_func(id, &self.text[a..b]);
        let f: &'static Func = Box::leak(Box::new(f));
        *self.funcs[id as usize].func.borrow_mut() = Some(f);
        Some(f)
    }

    fn add_const(&self, k: K) -> Op {
        match k {
            K::I(x) => Op::C(x),
            k => {
                let mut v = self.consts.borrow_mut();
                v.push(k);
                Op::K(v.len() as u32 - 1)
            },
        }
    }

    fn parse_func(&self, id: u32, src: &'static str) -> Func {
        let mut fp = FP {
            m: self,
            regs: HashMap::new(),
            labels: HashMap::new(),
            nregs: 0,
        };
        let mut lines = src.lines();
        let head = lines.next().unwrap();
        // return type and params
        let at = head.find('@').unwrap();
        let mut c = Cur { s: head.as_bytes(), p: at + 1 };
        let name = c.name();
        // return type: last type before '@': reparse from after "define" skipping keywords
        let mut hc = Cur { s: &head.as_bytes()[..at], p: 6 };
        let rty;
        loop {
            self.skip_attrs(&mut hc);
            let p = hc.p;
            if hc.peek().is_ascii_lowercase() {
                let w = hc.word();
                let is_ty = matches!(w, "void" | "ptr" | "float" | "double")
                    || (w.starts_with('i')
                        && w.len() > 1
                        && w[1..].bytes().all(|b| b.is_ascii_digit()));
                if !is_ty {
                    if hc.peek() == b'(' {
                        hc.skip_parens();
                    }
                    continue;
                }
                hc.p = p;
            }
            rty = self.parse_ty(&mut hc);
            break;
        }
        c.expect(b'(');
        let mut params = vec![];
        let mut next_unnamed = 0u64;
        if c.peek() != b')' {
            loop {
                if c.peek() == b'.' {
                    while c.eat(b'.') {}
                    break;
                }
                self.parse_ty(&mut c);
                self.skip_attrs(&mut c);
                c.expect(b'%');
                let n = c.name();
                if let Ok(k) = n.parse::<u64>() {
                    next_unnamed = k + 1;
                }
                params.push(fp.reg(&n));
                if !c.eat(b',') {
                    break;
                }
            }
        }
        let mut blocks: Vec<Block> = vec![];
        let mut frame_size = 0u64;
        let body: Vec<&str> = lines.collect();
        // entry label
        let mut i = 0;
        let first = body.iter().position(|l| !l.trim().is_empty() && !l.trim_start().starts_with(';')
            && !l.trim_start().starts_with("#dbg")).unwrap();
        if body[first].starts_with(' ') {
            let b = fp.label(&next_unnamed.to_string());
            assert_eq!(b, 0);
        }
        // pre-scan labels so that block ids follow the source order
        for l in &body {
            if !l.is_empty() && !l.starts_with(' ') && !l.starts_with('}') && !l.starts_with(';') {
                let n = label_name(l);
                fp.label(&n);
            }
        }
        let nlab = fp.labels.len();
        for _ in 0..nlab {
            blocks.push(Block::default());
        }
        for (n, b) in &fp.labels {
            blocks[*b as usize].name = n.clone();
        }
        let mut cur = 0usize;
        while i < body.len() {
            let l = body[i];
            i += 1;
            if l.is_empty() || l.starts_with('}') || l.starts_with(';') {
                continue;
            }
            if !l.starts_with(' ') {
                cur = fp.label(&label_name(l)) as usize;
                continue;
            }
            let t = l.trim_start();
            if t.starts_with(';') || t.starts_with("#dbg") {
                continue;
            }
            let mut joined;
            let mut s: &str = t;
            if t.starts_with("switch ") && t.ends_with('[') {
                joined = t.to_string();
                while !body[i].trim_start().starts_with(']') {
                    joined.push(' ');
                    joined.push_str(body[i].trim());
                    i += 1;
                }
                joined.push_str(" ]");
                i += 1;
                s = &joined;
            } else if t.contains(" invoke ") || t.starts_with("invoke ") {
                joined = t.to_string();
                joined.push(' ');
                joined.push_str(body[i].trim());
                i += 1;
                s = &joined;
            } else if t.contains("landingpad") {
                while body[i].starts_with("          ") {
                    i += 1;
                }
            }
            fp.inst(s, &mut blocks[cur], &mut frame_size);
        }
        assert_eq!(fp.labels.len(), nlab, "unknown label in {name}");
        let nregs = fp.nregs;
        let mut f = Func {
            id,
            name,
            nregs,
            params,
            blocks,
            frame_size,
            rty,
            ipdom: vec![],
            live_in: vec![],
        };
        f.ipdom = postdom(&f);
        f.live_in = liveness(&f);
        f
    }
}

fn label_name(l: &str) -> String {
    let mut c = Cur::new(l);
    c.name()
}

fn memchr(b: &[u8], from: usize, ch: u8) -> usize {
    b[from..].iter().position(|x| *x == ch).map(|p| p + from).unwrap_or(b.len())
}

fn find_body_end(b: &[u8], from: usize) -> usize {
    let mut p = from;
    loop {
        if b[p] == b'}' {
            return memchr(b, p, b'\n') + 1;
        }
        p = memchr(b, p, b'\n') + 1;
    }
}

pub fn sext64(x: u64, w: u32) -> u64 {
    if w >= 64 {
        x
    } else {
        let s = 64 - w;
        (((x << s) as i64) >> s) as u64
    }
}

struct FP<'m> {
    m: &'m Module,
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
    nregs: u32,
}

impl<'m> FP<'m> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn label(&mut self, n: &str) -> u32 {
        let k = self.labels.len() as u32;
        *self.labels.entry(n.to_string()).or_insert(k)
    }
    fn operand(&mut self, c: &mut Cur, t: TyId) -> Op {
        if c.peek() == b'%' {
            c.p += 1;
            let n = c.name();
            return Op::R(self.reg(&n));
        }
        let k = self.m.parse_const(c, t);
        self.m.add_const(k)
    }
    fn ty_op(&mut self, c: &mut Cur) -> (TyId, Op) {
        let t = self.m.parse_ty(c);
        self.m.skip_attrs(c);
        let o = self.operand(c, t);
        (t, o)
    }
    fn lab(&mut self, c: &mut Cur) -> u32 {
        assert!(c.eat_word("label"));
        c.expect(b'%');
        let n = c.name();
        self.label(&n)
    }
    fn inst(&mut self, s: &str, blk: &mut Block, frame: &mut u64) {
        let s_text = s;
        let mut c = Cur::new(s);
        let mut d = u32::MAX;
        if c.peek() == b'%' {
            c.p += 1;
            let n = c.name();
            d = self.reg(&n);
            c.expect(b'=');
        }
        let w = c.word();
        let m = self.m;
        let ins = match w {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr"
            | "and" | "or" | "xor" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                let op = match w {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    "mul" => BinOp::Mul,
                    "udiv" => BinOp::UDiv,
                    "sdiv" => BinOp::SDiv,
                    "urem" => BinOp::URem,
                    "srem" => BinOp::SRem,
                    "shl" => BinOp::Shl,
                    "lshr" => BinOp::LShr,
                    "ashr" => BinOp::AShr,
                    "and" => BinOp::And,
                    "or" => BinOp::Or,
                    "xor" => BinOp::Xor,
                    "fadd" => BinOp::FAdd,
                    "fsub" => BinOp::FSub,
                    "fmul" => BinOp::FMul,
                    "fdiv" => BinOp::FDiv,
                    _ => BinOp::FRem,
                };
                self.flags(&mut c);
                let (t, a) = self.ty_op(&mut c);
                c.expect(b',');
                let b = self.operand(&mut c, t);
                I::Bin(op, t, d, a, b)
            },
            "fneg" => {
                self.flags(&mut c);
                let (t, a) = self.ty_op(&mut c);
                I::FNeg(t, d, a)
            },
            "icmp" => {
                while c.peek_word() == "samesign" {
                    c.word();
                }
                let p = match c.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    x => panic!("icmp {x}"),
                };
                let (t, a) = self.ty_op(&mut c);
                c.expect(b',');
                let b = self.operand(&mut c, t);
                I::Icmp(p, t, d, a, b)
            },
            "fcmp" => {
                self.flags(&mut c);
                let p = c.word().to_string();
                let (t, a) = self.ty_op(&mut c);
                c.expect(b',');
                let b = self.operand(&mut c, t);
                I::Fcmp(p, t, d, a, b)
            },
            "trunc" | "zext" | "sext" | "bitcast" | "fptoui" | "fptosi" | "uitofp" | "sitofp"
            | "fpext" | "fptrunc" | "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                self.flags(&mut c);
                let (ft, a) = self.ty_op(&mut c);
                assert!(c.eat_word("to"));
                let tt = m.parse_ty(&mut c);
                let (fb, tb) = (m.bits(ft), m.bits(tt));
                let op = match w {
                    "trunc" => CastOp::Trunc,
                    "zext" => CastOp::Zext,
                    "sext" => CastOp::Sext,
                    "bitcast" => CastOp::Bitcast,
                    "fptoui" => CastOp::FpToUi,
                    "fptosi" => CastOp::FpToSi,
                    "uitofp" => CastOp::UiToFp,
                    "sitofp" => CastOp::SiToFp,
                    "fpext" => CastOp::FpExt,
                    "fptrunc" => CastOp::FpTrunc,
                    _ =>
                        if fb == tb {
                            CastOp::Bitcast
                        } else if fb > tb {
                            CastOp::Trunc
                        } else {
                            CastOp::Zext
                        },
                };
                I::Cast(op, ft, tt, d, a)
            },
            "select" => {
                self.flags(&mut c);
                let (ct, cc) = self.ty_op(&mut c);
                c.expect(b',');
                let (t, a) = self.ty_op(&mut c);
                c.expect(b',');
                let (_, b) = self.ty_op(&mut c);
                I::Select(d, t, cc, a, b, ct)
            },
            "getelementptr" => {
                while matches!(c.peek_word(), "inbounds" | "nuw" | "nusw" | "inrange") {
                    c.word();
                }
                let et = m.parse_ty(&mut c);
                c.expect(b',');
                let (_, base) = self.ty_op(&mut c);
                let mut off = 0u64;
                let mut idx = vec![];
                let mut cur = et;
                let mut first = true;
                while c.peek() == b',' {
                    c.p += 1;
                    if c.peek() == b'!' {
                        break;
                    }
                    let (it, o) = self.ty_op(&mut c);
                    let ib = m.bits(it);
                    let scale;
                    if first {
                        scale = m.size(cur);
                        first = false;
                    } else {
                        match m.get(cur) {
                            Ty::Struct(f, p) => {
                                let Op::C(i) = o else { panic!("struct idx") };
                                off = off.wrapping_add(m.field_off(&f, p, i as usize));
                                cur = f[i as usize];
                                continue;
                            },
                            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                scale = m.size(e);
                                cur = e;
                            },
                            _ => panic!("gep into scalar"),
                        }
                    }
                    match o {
                        Op::C(i) => off = off.wrapping_add(sext64(i, ib).wrapping_mul(scale)),
                        o => idx.push((o, scale, ib)),
                    }
                }
                I::Gep(d, base, off, idx.into_boxed_slice())
            },
            "load" => {
                let mut atomic = false;
                loop {
                    match c.peek_word() {
                        "atomic" => {
                            atomic = true;
                            c.word();
                        },
                        "volatile" => {
                            c.word();
                        },
                        _ => break,
                    }
                }
                let t = m.parse_ty(&mut c);
                c.expect(b',');
                let (_, p) = self.ty_op(&mut c);
                I::Load(d, p, t, atomic && is_point(s_text))
            },
            "store" => {
                let mut atomic = false;
                loop {
                    match c.peek_word() {
                        "atomic" => {
                            atomic = true;
                            c.word();
                        },
                        "volatile" => {
                            c.word();
                        },
                        _ => break,
                    }
                }
                let (t, v) = self.ty_op(&mut c);
                c.expect(b',');
                let (_, p) = self.ty_op(&mut c);
                I::Store(v, p, t, atomic && is_point(s_text))
            },
            "alloca" => {
                let t = m.parse_ty(&mut c);
                let mut n = 1;
                let mut al = 16;
                while c.eat(b',') {
                    if c.peek() == b'!' {
                        break;
                    }
                    if c.eat_word("align") {
                        al = c.int();
                    } else {
                        let (_, o) = self.ty_op(&mut c);
                        let Op::C(k) = o else { panic!("dynamic alloca") };
                        n = k;
                    }
                }
                let al = al.max(16);
                *frame = frame.div_ceil(al) * al;
                let o = *frame;
                // 16 bytes of padding keep adjacent allocas apart
                *frame += m.size(t) * n + 16;
                I::Alloca(d, o)
            },
            "tail" | "musttail" | "notail" => {
                assert!(c.eat_word("call"));
                self.call(&mut c, d, false)
            },
            "call" => self.call(&mut c, d, false),
            "invoke" => self.call(&mut c, d, true),
            "br" => {
                if c.peek_word() == "label" {
                    I::Br(self.lab(&mut c))
                } else {
                    let (_, o) = self.ty_op(&mut c);
                    c.expect(b',');
                    let a = self.lab(&mut c);
                    c.expect(b',');
                    let b = self.lab(&mut c);
                    I::CondBr(o, a, b)
                }
            },
            "switch" => {
                let (t, o) = self.ty_op(&mut c);
                c.expect(b',');
                let def = self.lab(&mut c);
                c.expect(b'[');
                let mut cases = vec![];
                while c.peek() != b']' {
                    let (_, k) = self.ty_op(&mut c);
                    let Op::C(k) = k else { panic!("switch case") };
                    c.expect(b',');
                    let l = self.lab(&mut c);
                    cases.push((k, l));
                }
                I::Switch(o, m.bits(t), def, cases.into_boxed_slice())
            },
            "ret" =>
                if c.peek_word() == "void" {
                    I::Ret(None)
                } else {
                    let (_, o) = self.ty_op(&mut c);
                    I::Ret(Some(o))
                },
            "unreachable" => I::Unreachable,
            "resume" => I::Unreachable,
            "landingpad" => I::Nop,
            "fence" => I::Nop,
            "atomicrmw" => {
                if c.peek_word() == "volatile" {
                    c.word();
                }
                let op = match c.word() {
                    "xchg" => RmwOp::Xchg,
                    "add" => RmwOp::Add,
                    "sub" => RmwOp::Sub,
                    "and" => RmwOp::And,
                    "or" => RmwOp::Or,
                    "xor" => RmwOp::Xor,
                    "umax" => RmwOp::UMax,
                    "umin" => RmwOp::UMin,
                    "max" => RmwOp::Max,
                    "min" => RmwOp::Min,
                    "nand" => RmwOp::Nand,
                    x => panic!("atomicrmw {x}"),
                };
                let (_, p) = self.ty_op(&mut c);
                c.expect(b',');
                let (t, v) = self.ty_op(&mut c);
                I::Rmw(op, d, p, v, t, is_point(s_text))
            },
            "cmpxchg" => {
                while matches!(c.peek_word(), "weak" | "volatile") {
                    c.word();
                }
                let (_, p) = self.ty_op(&mut c);
                c.expect(b',');
                let (t, a) = self.ty_op(&mut c);
                c.expect(b',');
                let (_, b) = self.ty_op(&mut c);
                I::CmpXchg(d, p, a, b, t)
            },
            "extractvalue" => {
                let (_, a) = self.ty_op(&mut c);
                let mut ix = vec![];
                while c.eat(b',') {
                    if c.peek() == b'!' {
                        break;
                    }
                    ix.push(c.int() as u32);
                }
                I::ExtractValue(d, a, ix.into_boxed_slice())
            },
            "insertvalue" => {
                let (_, a) = self.ty_op(&mut c);
                c.expect(b',');
                let (_, b) = self.ty_op(&mut c);
                let mut ix = vec![];
                while c.eat(b',') {
                    if c.peek() == b'!' {
                        break;
                    }
                    ix.push(c.int() as u32);
                }
                I::InsertValue(d, a, b, ix.into_boxed_slice())
            },
            "extractelement" => {
                let (_, a) = self.ty_op(&mut c);
                c.expect(b',');
                let (_, i) = self.ty_op(&mut c);
                I::ExtractElement(d, a, i)
            },
            "insertelement" => {
                let (_, a) = self.ty_op(&mut c);
                c.expect(b',');
                let (_, v) = self.ty_op(&mut c);
                c.expect(b',');
                let (_, i) = self.ty_op(&mut c);
                I::InsertElement(d, a, v, i)
            },
            "shufflevector" => {
                let (_, a) = self.ty_op(&mut c);
                c.expect(b',');
                let (_, b) = self.ty_op(&mut c);
                c.expect(b',');
                let mt = m.parse_ty(&mut c);
                let k = m.parse_const(&mut c, mt);
                let K::Agg(v) = k else { panic!("shuffle mask") };
                let ix = v
                    .iter()
                    .map(|x| if let K::I(i) = x { *i as u32 } else { panic!() })
                    .collect();
                I::Shuffle(d, a, b, ix)
            },
            "freeze" => {
                let (_, a) = self.ty_op(&mut c);
                I::Copy(d, a)
            },
            "phi" => {
                self.flags(&mut c);
                let t = m.parse_ty(&mut c);
                let mut v = vec![];
                loop {
                    c.expect(b'[');
                    let o = self.operand(&mut c, t);
                    c.expect(b',');
                    c.expect(b'%');
                    let n = c.name();
                    let l = self.label(&n);
                    c.expect(b']');
                    v.push((l, o));
                    if c.peek() == b',' {
                        c.p += 1;
                        if c.peek() == b'!' {
                            break;
                        }
                        continue;
                    }
                    break;
                }
                blk.phis.push((d, v, t));
                return;
            },
            _ => I::Unsupported(s.to_string()),
        };
        blk.code.push(ins);
    }
    fn flags(&mut self, c: &mut Cur) {
        while matches!(
            c.peek_word(),
            "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "fast" | "nnan" | "ninf" | "nsz"
                | "arcp" | "contract" | "afn" | "reassoc" | "samesign"
        ) {
            c.word();
        }
    }
    fn call(&mut self, c: &mut Cur, d: u32, invoke: bool) -> I {
        let m = self.m;
        // calling convention, return attributes
        loop {
            m.skip_attrs(c);
            match c.peek_word() {
                "fastcc" | "ccc" | "coldcc" | "preserve_mostcc" | "preserve_allcc" | "preserve_nonecc"
                | "nnan" | "ninf" | "nsz" | "fast" | "contract" | "afn" | "arcp" | "reassoc" => {
                    c.word();
                },
                _ => break,
            }
        }
        let rty = m.parse_ty(c);
        m.skip_attrs(c);
        let callee = match c.peek() {
            b'@' => {
                c.p += 1;
                let n = c.name();
                let n = m.aliases.get(&n).cloned().unwrap_or(n);
                Callee::Direct(*m.fmap.get(&n).unwrap_or_else(|| panic!("unknown fn {n}")))
            },
            b'%' => {
                c.p += 1;
                let n = c.name();
                Callee::Indirect(Op::R(self.reg(&n)))
            },
            _ => {
                if c.peek_word() == "asm" {
                    let r = c.rest();
                    if r.starts_with("asm sideeffect \"\", \"") && r.contains("\"()") {
                        return I::Nop; // a compiler barrier
                    }
                    // only a comment: its operand
                    let q: Vec<&str> = r.splitn(5, '"').collect();
                    if !invoke
                        && q.len() == 5
                        && q[1].starts_with("/*")
                        && q[1].find("*/") == Some(q[1].len() - 2)
                        && q[3].starts_with("=&r,0")
                        && q[3][5..].split(',').all(|x| x.is_empty() || x.starts_with("~{"))
                    {
                        c.p += r.len() - q[4].len();
                        c.expect(b'(');
                        let a = self.ty_op(c);
                        return I::Copy(d, a.1);
                    }
                    return I::Unsupported(format!("asm {r}"));
                }
                let t = m.ty(Ty::Ptr);
                let o = self.operand(c, t);
                Callee::Indirect(o)
            },
        };
        c.expect(b'(');
        let mut args = vec![];
        if c.peek() != b')' {
            loop {
                if c.peek_word() == "metadata" {
                    // metadata argument: skip to the matching comma/paren
                    let mut depth = 0;
                    while c.p < c.s.len() {
                        match c.s[c.p] {
                            b'(' => depth += 1,
                            b')' if depth == 0 => break,
                            b')' => depth -= 1,
                            b',' if depth == 0 => break,
                            _ => {},
                        }
                        c.p += 1;
                    }
                    let t = m.ty(Ty::Meta);
                    args.push((t, Op::C(0)));
                } else {
                    let a = self.ty_op(c);
                    args.push(a);
                }
                if !c.eat(b',') {
                    break;
                }
            }
        }
        c.expect(b')');
        let mut normal = u32::MAX;
        if invoke {
            let s = std::str::from_utf8(&c.s[c.p..]).unwrap();
            let k = s.find(" to label ").unwrap();
            c.p += k + 3;
            c.ws();
            normal = self.lab(c);
        }
        I::Call(Box::new(CallI { d, rty, callee, args, normal }))
    }
}

pub fn succs(b: &Block) -> Vec<u32> {
    match b.code.last() {
        Some(I::Br(a)) => vec![*a],
        Some(I::CondBr(_, a, b)) => vec![*a, *b],
        Some(I::Switch(_, _, d, cs)) => {
            let mut v = vec![*d];
            v.extend(cs.iter().map(|x| x.1));
            v.sort();
            v.dedup();
            v
        },
        Some(I::Call(c)) if c.normal != u32::MAX => vec![c.normal],
        _ => vec![],
    }
}

pub const NO_PD: u32 = u32::MAX;
pub const EXIT_PD: u32 = u32::MAX - 1;

/// Post-dominators of the sub-graph of blocks that can reach a `ret`.
fn postdom(f: &Func) -> Vec<u32> {
    let n = f.blocks.len();
    let exit = n;
    let mut preds: Vec<Vec<usize>> = vec![vec![]; n + 1];
    let mut sc: Vec<Vec<usize>> = vec![vec![]; n + 1];
    for (i, b) in f.blocks.iter().enumerate() {
        if let Some(I::Ret(_)) = b.code.last() {
            preds[exit].push(i);
            sc[i].push(exit);
        }
        for s in succs(b) {
            preds[s as usize].push(i);
            sc[i].push(s as usize);
        }
    }
    // reverse post-order from the exit over reversed edges
    let mut order = vec![];
    let mut seen = vec![false; n + 1];
    let mut st = vec![(exit, 0usize)];
    seen[exit] = true;
    while let Some((v, k)) = st.pop() {
        if k < preds[v].len() {
            st.push((v, k + 1));
            let u = preds[v][k];
            if !seen[u] {
                seen[u] = true;
                st.push((u, 0));
            }
        } else {
            order.push(v);
        }
    }
    let mut num = vec![usize::MAX; n + 1];
    for (i, v) in order.iter().enumerate() {
        num[*v] = i;
    }
    let mut idom = vec![usize::MAX; n + 1];
    idom[exit] = exit;
    let mut changed = true;
    while changed {
        changed = false;
        for v in order.iter().rev() {
            let v = *v;
            if v == exit {
                continue;
            }
            let mut new = usize::MAX;
            for s in &sc[v] {
                if idom[*s] == usize::MAX {
                    continue;
                }
                if new == usize::MAX {
                    new = *s;
                } else {
                    let (mut a, mut b) = (new, *s);
                    while a != b {
                        while num[a] < num[b] {
                            a = idom[a];
                        }
                        while num[b] < num[a] {
                            b = idom[b];
                        }
                    }
                    new = a;
                }
            }
            if new != usize::MAX && idom[v] != new {
                idom[v] = new;
                changed = true;
            }
        }
    }
    (0..n)
        .map(|i| {
            if idom[i] == usize::MAX {
                NO_PD
            } else if idom[i] == exit {
                EXIT_PD
            } else {
                idom[i] as u32
            }
        })
        .collect()
}

pub fn uses(i: &I, out: &mut dyn FnMut(Op)) {
    match i {
        I::Bin(_, _, _, a, b) | I::Icmp(_, _, _, a, b) | I::Fcmp(_, _, _, a, b) => {
            out(*a);
            out(*b)
        },
        I::FNeg(_, _, a) | I::Cast(_, _, _, _, a) | I::Copy(_, a) | I::ExtractValue(_, a, _) =>
            out(*a),
        I::Select(_, _, a, b, c, _) | I::InsertElement(_, a, b, c) => {
            out(*a);
            out(*b);
            out(*c)
        },
        I::Gep(_, b, _, ix) => {
            out(*b);
            for x in ix.iter() {
                out(x.0)
            }
        },
        I::Load(_, p, _, _) => out(*p),
        I::Store(v, p, _, _) => {
            out(*v);
            out(*p)
        },
        I::Call(c) => {
            for a in &c.args {
                out(a.1)
            }
            if let Callee::Indirect(o) = c.callee {
                out(o)
            }
        },
        I::CondBr(o, _, _) | I::Switch(o, _, _, _) => out(*o),
        I::Ret(Some(o)) => out(*o),
        I::Rmw(_, _, p, v, ..) => {
            out(*p);
            out(*v)
        },
        I::CmpXchg(_, p, a, b, _) => {
            out(*p);
            out(*a);
            out(*b)
        },
        I::InsertValue(_, a, b, _)
        | I::ExtractElement(_, a, b)
        | I::Shuffle(_, a, b, _) => {
            out(*a);
            out(*b)
        },
        _ => {},
    }
}

pub fn def(i: &I) -> Option<u32> {
    let d = match i {
        I::Bin(_, _, d, _, _)
        | I::Icmp(_, _, d, _, _)
        | I::Fcmp(_, _, d, _, _)
        | I::FNeg(_, d, _)
        | I::Cast(_, _, _, d, _)
        | I::Select(d, ..)
        | I::Gep(d, ..)
        | I::Load(d, ..)
        | I::Alloca(d, _)
        | I::Rmw(_, d, ..)
        | I::CmpXchg(d, ..)
        | I::ExtractValue(d, ..)
        | I::InsertValue(d, ..)
        | I::ExtractElement(d, ..)
        | I::InsertElement(d, ..)
        | I::Shuffle(d, ..)
        | I::Copy(d, _) => *d,
        I::Call(c) => c.d,
        _ => return None,
    };
    (d != u32::MAX).then_some(d)
}

fn liveness(f: &Func) -> Vec<Vec<u64>> {
    let nw = (f.nregs as usize).div_ceil(64);
    let n = f.blocks.len();
    let mut live_in = vec![vec![0u64; nw]; n];
    // live_in[b]: live after the phis of b.  live-out of b: for each succ s,
    // (live_in[s] minus phi defs of s) plus the phi operands coming from b.
    let mut changed = true;
    while changed {
        changed = false;
        for bi in (0..n).rev() {
            let b = &f.blocks[bi];
            let mut l = vec![0u64; nw];
            for s in succs(b) {
                let sb = &f.blocks[s as usize];
                let mut t = live_in[s as usize].clone();
                for p in &sb.phis {
                    t[p.0 as usize / 64] &= !(1 << (p.0 % 64));
                }
                for p in &sb.phis {
                    for (pb, o) in &p.1 {
                        if *pb == bi as u32 {
                            if let Op::R(r) = o {
                                t[*r as usize / 64] |= 1 << (r % 64);
                            }
                        }
                    }
                }
                for k in 0..nw {
                    l[k] |= t[k];
                }
            }
            for ins in b.code.iter().rev() {
                if let Some(d) = def(ins) {
                    l[d as usize / 64] &= !(1 << (d % 64));
                }
                uses(ins, &mut |o| {
                    if let Op::R(r) = o {
                        l[r as usize / 64] |= 1 << (r % 64);
                    }
                });
            }
            if l != live_in[bi] {
                live_in[bi] = l;
                changed = true;
            }
        }
    }
    live_in
}

/// Is this atomic operation a place where the scheduler may switch?  (The native replay
/// uses the same rule, on the same text.)  Flags, locks, and words other than reference
/// counts and the standard library's counters are.
pub fn is_point(s: &str) -> bool {
    if ["3std", "7harness", "getrandom", "scoped_threadpool"].iter().any(|x| s.contains(x)) {
        return false;
    }
    let has = |x: &str| s.contains(x);
    if has("atomicrmw") {
        !(has("atomicrmw add") || has("atomicrmw sub")) && (has(", i64 ") || has(", i8 "))
    } else {
        has("load atomic i8,") || has("load atomic i64,") || has("store atomic i8 ") || has("store atomic i64 ")
    }
}
