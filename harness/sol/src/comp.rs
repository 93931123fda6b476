//! Types, and compilation of functions to a small typed-away intermediate form.
use crate::ast::{self, Args, Contract, Ex, Fun, St, TyN, Var, Y, YE};
use crate::w::W;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::sync::Arc;

pub type R<X> = Result<X, String>;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Uint(u32),
    Int(u32),
    Bool,
    Addr,
    BytesN(u32),
    Bytes,
    Str,
    Arr(Rc<Ty>, Option<u64>),
    Struct(Rc<SDef>),
    Contract(String),
    Enum(String, u64),
    /// integer literal: negative, magnitude
    Lit(bool, W),
    StrLit(Rc<Vec<u8>>),
    Tuple(Vec<Ty>),
}

#[derive(Debug)]
pub struct SDef {
    pub q:      String,
    pub fields: Vec<(String, Ty)>,
}

impl PartialEq for SDef {
    fn eq(&self, o: &SDef) -> bool {
        self.q == o.q
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cl {
    None,
    Low(u32),
    Sext(u32),
    High(u32),
    Bool,
}

impl Cl {
    pub fn apply(self, w: W) -> W {
        match self {
            Cl::None => w,
            Cl::Low(b) => w.low(b),
            Cl::Sext(b) => w.sext(b),
            Cl::High(b) => w.high(b),
            Cl::Bool => (!w.is_zero()).into(),
        }
    }
}

impl Ty {
    pub fn reference(&self) -> bool {
        matches!(self, Ty::Bytes | Ty::Str | Ty::Arr(..) | Ty::Struct(_))
    }

    pub fn clean(&self) -> Cl {
        match self {
            Ty::Uint(b) if *b < 256 => Cl::Low(*b),
            Ty::Int(b) if *b < 256 => Cl::Sext(*b),
            Ty::BytesN(b) if *b < 32 => Cl::High(8 * *b),
            Ty::Addr | Ty::Contract(_) => Cl::Low(160),
            Ty::Enum(..) => Cl::Low(8),
            Ty::Bool => Cl::Bool,
            _ => Cl::None,
        }
    }

    pub fn name(&self) -> String {
        match self {
            Ty::Uint(b) => format!("uint{}", b),
            Ty::Int(b) => format!("int{}", b),
            Ty::Bool => "bool".into(),
            Ty::Addr => "address".into(),
            Ty::BytesN(b) => format!("bytes{}", b),
            Ty::Bytes => "bytes".into(),
            Ty::Str => "string".into(),
            Ty::Arr(t, None) => format!("{}[]", t.name()),
            Ty::Arr(t, Some(n)) => format!("{}[{}]", t.name(), n),
            Ty::Struct(s) => s.q.clone(),
            Ty::Contract(c) => c.clone(),
            Ty::Enum(c, _) => c.clone(),
            Ty::Lit(n, w) => format!("literal {}{:?}", if *n { "-" } else { "" }, w),
            Ty::StrLit(_) => "string literal".into(),
            Ty::Tuple(v) => format!("({})", v.iter().map(Ty::name).collect::<Vec<_>>().join(",")),
        }
    }

    fn mobile(&self) -> Ty {
        match self {
            Ty::Lit(false, w) => Ty::Uint(((w.bits().max(1) + 7) / 8) * 8),
            Ty::Lit(true, w) => {
                let b = w.sub(W::ONE).bits() + 1;
                Ty::Int(((b + 7) / 8) * 8)
            }
            t => t.clone(),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Add,
    Sub,
    Mul,
    Div,
    Mod,
    SDiv,
    SMod,
    Exp,
    And,
    Or,
    Xor,
    Shl,
    Shr,
    Sar,
    Lt,
    Gt,
    Le,
    Ge,
    SLt,
    SGt,
    SLe,
    SGe,
    Eq,
    Ne,
}

#[derive(Clone, Debug)]
pub enum I {
    Const(W),
    Local(u32),
    SetLocal(u32, Box<I>),
    MLoad(Box<I>, Cl),
    MStore(Box<I>, Box<I>),
    MStore8(Box<I>, Box<I>),
    SLoad(u32),
    SStore(u32, Box<I>),
    /// checked address of an element: array, index, fixed length
    Index(Box<I>, Box<I>, Option<u64>),
    /// checked address of a byte
    ByteAddr(Box<I>, Box<I>),
    LoadByte(Box<I>),
    Bin(Op, Box<I>, Box<I>),
    Clean(Cl, Box<I>),
    Not(Box<I>),
    BitNot(Box<I>),
    Cond(Box<I>, Box<I>, Box<I>),
    AndAnd(Box<I>, Box<I>),
    OrOr(Box<I>, Box<I>),
    Seq(Vec<I>),
    Tuple(Vec<I>),
    /// several values into consecutive locals
    ToLocals(Box<I>, u32, u32),
    Call(usize, Vec<I>),
    CallX {
        addr: Box<I>,
        name: String,
        args: Vec<(I, Ty)>,
        rets: Vec<Ty>,
    },
    NewArr(Box<I>, Ty),
    Zero(Ty),
    /// words in a row: struct or fixed array
    Words(Vec<I>),
    BytesLit(Rc<Vec<u8>>),
    Packed(Vec<(I, Ty)>),
    Encode(Vec<(I, Ty)>),
    Decode(Box<I>, Vec<Ty>),
    Keccak(Box<I>),
    AddMod(Box<I>, Box<I>, Box<I>),
    MulMod(Box<I>, Box<I>, Box<I>),
    Gas,
    This,
    Sender,
    Require(Box<I>, String),
    Assert(Box<I>),
    EnumCheck(Box<I>, u64),
    Revert(String),
}

#[derive(Clone, Debug)]
pub enum S {
    Block(Vec<S>),
    Ex(I),
    If(I, Box<S>, Option<Box<S>>),
    While(I, Box<S>),
    DoWhile(Box<S>, I),
    For(Option<Box<S>>, Option<I>, Option<I>, Box<S>),
    Return,
    Break,
    Continue,
    /// a body whose return only ends the body
    Inner(Vec<S>),
    Asm(Vec<YS>),
}

#[derive(Clone, Debug)]
pub enum YS {
    Block(Vec<YS>),
    Set(Vec<u32>, YI),
    Zero(Vec<u32>),
    If(YI, Vec<YS>),
    Switch(YI, Vec<(W, Vec<YS>)>, Option<Vec<YS>>),
    For(Vec<YS>, YI, Vec<YS>, Vec<YS>),
    Break,
    Continue,
    Leave,
    Ex(YI),
}

#[derive(Clone, Debug)]
pub enum YI {
    Const(W),
    Local(u32),
    Op(YOp, Vec<YI>),
    Call(Rc<RefCell<YFn>>, Vec<YI>),
}

#[derive(Debug, Default)]
pub struct YFn {
    pub params: u32,
    pub rets:   u32,
    pub slots:  u32,
    pub body:   Vec<YS>,
}

macro_rules! yops {
    ($($n:ident $s:literal $a:literal),*) => {
        #[derive(Clone, Copy, Debug, PartialEq)]
        pub enum YOp { $($n),* }
        fn yop(s: &str) -> Option<(YOp, usize)> {
            match s { $($s => Some((YOp::$n, $a)),)* _ => None }
        }
    };
}

yops!(
    Add "add" 2, Sub "sub" 2, Mul "mul" 2, Div "div" 2, SDiv "sdiv" 2, Mod "mod" 2, SMod "smod" 2, Exp "exp" 2,
    Not "not" 1, Lt "lt" 2, Gt "gt" 2, SLt "slt" 2, SGt "sgt" 2, Eq "eq" 2, IsZero "iszero" 1, And "and" 2,
    Or "or" 2, Xor "xor" 2, Byte "byte" 2, Shl "shl" 2, Shr "shr" 2, Sar "sar" 2, AddMod "addmod" 3,
    MulMod "mulmod" 3, SignExtend "signextend" 2, Keccak "keccak256" 2, Pop "pop" 1, MLoad "mload" 1,
    MStore "mstore" 2, MStore8 "mstore8" 2, MSize "msize" 0, Gas "gas" 0, Address "address" 0, Caller "caller" 0,
    CallValue "callvalue" 0, CallDataLoad "calldataload" 1, CallDataSize "calldatasize" 0,
    CallDataCopy "calldatacopy" 3, CodeSize "codesize" 0, ReturnDataSize "returndatasize" 0,
    ReturnDataCopy "returndatacopy" 3, Call "call" 7, StaticCall "staticcall" 6, DelegateCall "delegatecall" 6,
    Return "return" 2,
    Revert "revert" 2, Invalid "invalid" 0, Stop "stop" 0
);

#[derive(Debug)]
pub struct FnIR {
    pub params: Vec<Ty>,
    pub rets:   Vec<Ty>,
    pub ret0:   u32,
    pub slots:  u32,
    pub body:   Vec<S>,
}

#[derive(Clone)]
pub struct FnRef {
    pub derived: String,
    pub fun:     Arc<Fun>,
}

pub struct World {
    pub contracts: BTreeMap<String, Arc<Contract>>,
    pub fns:       RefCell<Vec<(FnRef, Option<Rc<FnIR>>)>>,
    fn_index:      RefCell<HashMap<(String, usize), usize>>,
    pub state:     RefCell<Vec<String>>,
    lin:           RefCell<HashMap<String, Rc<Vec<String>>>>,
    structs:       RefCell<HashMap<String, Rc<SDef>>>,
}

impl World {
    pub fn new(contracts: impl IntoIterator<Item = Arc<Contract>>) -> World {
        World {
            contracts: contracts.into_iter().map(|c| (c.name.clone(), c)).collect(),
            fns:       RefCell::new(vec![]),
            fn_index:  RefCell::new(HashMap::new()),
            state:     RefCell::new(vec![]),
            lin:       RefCell::new(HashMap::new()),
            structs:   RefCell::new(HashMap::new()),
        }
    }

    pub fn contract(&self, n: &str) -> R<Arc<Contract>> {
        self.contracts.get(n).cloned().ok_or_else(|| format!("no contract {}", n))
    }

    /// Linearization, most derived first
    pub fn linear(&self, n: &str) -> R<Rc<Vec<String>>> {
        if let Some(l) = self.lin.borrow().get(n) {
            return Ok(l.clone());
        }
        let c = self.contract(n)?;
        let mut seqs: Vec<Vec<String>> = vec![];
        for (b, _) in c.bases.iter().rev() {
            seqs.push(self.linear(b)?.to_vec());
        }
        seqs.push(c.bases.iter().rev().map(|b| b.0.clone()).collect());
        let mut r = vec![n.to_string()];
        loop {
            seqs.retain(|s| !s.is_empty());
            if seqs.is_empty() {
                break;
            }
            let head = seqs
                .iter()
                .map(|s| s[0].clone())
                .find(|h| !seqs.iter().any(|s| s[1..].contains(h)))
                .ok_or_else(|| format!("bases of {} cannot be linearized", n))?;
            for s in &mut seqs {
                if s[0] == head {
                    s.remove(0);
                }
            }
            r.push(head);
        }
        let r = Rc::new(r);
        self.lin.borrow_mut().insert(n.into(), r.clone());
        Ok(r)
    }

    pub fn state_index(&self, q: &str) -> u32 {
        let mut s = self.state.borrow_mut();
        if let Some(i) = s.iter().position(|x| x == q) {
            return i as u32;
        }
        s.push(q.into());
        s.len() as u32 - 1
    }

    pub fn fn_id(&self, derived: &str, fun: &Arc<Fun>) -> usize {
        let key = (derived.to_string(), Arc::as_ptr(fun) as *const u8 as usize);
        if let Some(i) = self.fn_index.borrow().get(&key) {
            return *i;
        }
        let mut f = self.fns.borrow_mut();
        f.push((
            FnRef {
                derived: derived.into(),
                fun:     fun.clone(),
            },
            None,
        ));
        self.fn_index.borrow_mut().insert(key, f.len() - 1);
        f.len() - 1
    }

    pub fn func(&self, id: usize) -> R<Rc<FnIR>> {
        let r = {
            let f = self.fns.borrow();
            if let Some(ir) = &f[id].1 {
                return Ok(ir.clone());
            }
            f[id].0.clone()
        };
        let ir = Comp::new(self, &r.derived, &r.fun.contract)
            .function(&r.fun)
            .map_err(|e| format!("{}.{}: {}", r.fun.contract, r.fun.name, e))?;
        let ir = Rc::new(ir);
        self.fns.borrow_mut()[id].1 = Some(ir.clone());
        Ok(ir)
    }

    /// Type named in a contract
    pub fn ty(&self, scope: &str, t: &TyN) -> R<Ty> {
        match t {
            TyN::Elem(s) => Ok(match s.as_str() {
                "bool" => Ty::Bool,
                "address" => Ty::Addr,
                "bytes" => Ty::Bytes,
                "string" => Ty::Str,
                "uint" => Ty::Uint(256),
                "int" => Ty::Int(256),
                "byte" => Ty::BytesN(1),
                _ if s.starts_with("uint") => Ty::Uint(s[4..].parse().unwrap()),
                _ if s.starts_with("int") => Ty::Int(s[3..].parse().unwrap()),
                _ if s.starts_with("bytes") => Ty::BytesN(s[5..].parse().unwrap()),
                _ => return Err(format!("type {} not supported", s)),
            }),
            TyN::Arr(t, n) => {
                let e = self.ty(scope, t)?;
                let n = match n {
                    None => None,
                    Some(x) => match Comp::new(self, scope, scope).ex(x)?.1 {
                        Ty::Lit(false, w) => w.small(),
                        _ => match Comp::new(self, scope, scope).constant(x)? {
                            Some(w) => w.small(),
                            None => return Err("array length is not constant".into()),
                        },
                    },
                };
                Ok(Ty::Arr(Rc::new(e), n))
            }
            TyN::Map(..) => Err("mapping not supported".into()),
            TyN::Name(p) => self.named(scope, p)?.ok_or_else(|| format!("no type {}", p.join("."))),
        }
    }

    pub fn named(&self, scope: &str, p: &[String]) -> R<Option<Ty>> {
        if p.len() == 1 {
            if !scope.is_empty() {
                for c in self.linear(scope)?.iter() {
                    if let Some(t) = self.in_contract(c, &p[0])? {
                        return Ok(Some(t));
                    }
                }
            }
            if self.contracts.contains_key("") {
                if let Some(t) = self.in_contract("", &p[0])? {
                    return Ok(Some(t));
                }
            }
            if self.contracts.contains_key(&p[0]) {
                return Ok(Some(Ty::Contract(p[0].clone())));
            }
        } else if p.len() == 2 && self.contracts.contains_key(&p[0]) {
            for c in self.linear(&p[0])?.iter() {
                if let Some(t) = self.in_contract(c, &p[1])? {
                    return Ok(Some(t));
                }
            }
        }
        Ok(None)
    }

    fn in_contract(&self, c: &str, n: &str) -> R<Option<Ty>> {
        let q = format!("{}.{}", c, n);
        if let Some(s) = self.structs.borrow().get(&q) {
            return Ok(Some(Ty::Struct(s.clone())));
        }
        let con = self.contract(c)?;
        if let Some((_, f)) = con.structs.iter().find(|s| s.0 == n) {
            let mut fields = vec![];
            for v in f {
                fields.push((v.name.clone(), self.ty(c, &v.ty)?));
            }
            let d = Rc::new(SDef { q: q.clone(), fields });
            self.structs.borrow_mut().insert(q, d.clone());
            return Ok(Some(Ty::Struct(d)));
        }
        if let Some((_, v)) = con.enums.iter().find(|s| s.0 == n) {
            return Ok(Some(Ty::Enum(q, v.len() as u64)));
        }
        Ok(None)
    }

    pub fn sig(&self, f: &Fun) -> R<Vec<Ty>> {
        f.params.iter().map(|v| self.ty(&f.contract, &v.ty)).collect()
    }

    /// Functions of that name seen from a contract: most derived first, without the overridden ones
    pub fn functions(&self, derived: &str, name: &str, skip: usize) -> R<Vec<(Arc<Fun>, Vec<Ty>)>> {
        let mut r: Vec<(Arc<Fun>, Vec<Ty>)> = vec![];
        for c in self.linear(derived)?.iter().skip(skip) {
            for f in &self.contract(c)?.funs {
                if f.name == name && name != "constructor" {
                    let s = self.sig(f)?;
                    if !r.iter().any(|x| x.1 == s) {
                        r.push((f.clone(), s));
                    }
                }
            }
        }
        Ok(r)
    }
}

enum Lv {
    Local(u32, Ty),
    Mem(I, Ty),
    State(u32, Ty),
    Byte(I),
    None,
}

pub struct Comp<'a> {
    w:           &'a World,
    derived:     String,
    definer:     String,
    scopes:      Vec<HashMap<String, (u32, Ty)>>,
    slots:       u32,
    rets:        Vec<(u32, Ty)>,
    placeholder: Option<Vec<S>>,
    yfns:        Vec<HashMap<String, Rc<RefCell<YFn>>>>,
}

fn bx(i: I) -> Box<I> {
    Box::new(i)
}

fn cleaned(t: &Ty, i: I) -> I {
    match t.clean() {
        Cl::None => i,
        c => I::Clean(c, bx(i)),
    }
}

fn lit(n: bool, w: W) -> W {
    if n {
        w.neg()
    } else {
        w
    }
}

fn fold(op: &str, a: (bool, W), b: (bool, W)) -> R<Option<(bool, W)>> {
    let norm = |n: bool, w: W| Some((n && !w.is_zero(), w));
    let over = || Err("constant too large".to_string());
    Ok(match op {
        "+" | "-" => {
            let bn = if op == "-" { !b.0 } else { b.0 };
            if a.0 == bn {
                let (s, c) = a.1.oadd(b.1);
                if c {
                    return over();
                }
                norm(a.0, s)
            } else if a.1 >= b.1 {
                norm(a.0, a.1.sub(b.1))
            } else {
                norm(bn, b.1.sub(a.1))
            }
        }
        "*" => {
            let p = a.1.wide(b.1);
            if p[4..] != [0; 4] {
                return over();
            }
            norm(a.0 != b.0, W([p[0], p[1], p[2], p[3]]))
        }
        "/" => {
            let (q, r) = a.1.divmod(b.1);
            if b.1.is_zero() || !r.is_zero() {
                return Err("fractional constant".into());
            }
            norm(a.0 != b.0, q)
        }
        "%" => {
            if b.1.is_zero() {
                return Err("division by zero".into());
            }
            norm(a.0, a.1.divmod(b.1).1)
        }
        "**" => {
            let e = b.1.small().ok_or("exponent too large")?;
            let mut r = W::ONE;
            for _ in 0..e {
                let p = r.wide(a.1);
                if p[4..] != [0; 4] {
                    return over();
                }
                r = W([p[0], p[1], p[2], p[3]]);
            }
            norm(a.0 && e % 2 == 1, r)
        }
        "<<" => {
            if a.1.bits() as u64 + b.1.small().unwrap_or(1000) > 256 {
                return over();
            }
            norm(a.0, a.1.shl(b.1))
        }
        ">>" if !a.0 => norm(false, a.1.shr(b.1)),
        "&" if !a.0 && !b.0 => norm(false, a.1.and(b.1)),
        "|" if !a.0 && !b.0 => norm(false, a.1.or(b.1)),
        "^" if !a.0 && !b.0 => norm(false, a.1.xor(b.1)),
        _ => None,
    })
}

impl<'a> Comp<'a> {
    pub fn new(w: &'a World, derived: &str, definer: &str) -> Comp<'a> {
        Comp {
            w,
            derived: derived.into(),
            definer: definer.into(),
            scopes: vec![HashMap::new()],
            slots: 0,
            rets: vec![],
            placeholder: None,
            yfns: vec![],
        }
    }

    fn slot(&mut self) -> u32 {
        self.slots += 1;
        self.slots - 1
    }

    fn declare(&mut self, n: &str, t: Ty) -> u32 {
        let s = self.slot();
        if !n.is_empty() {
            self.scopes.last_mut().unwrap().insert(n.into(), (s, t));
        }
        s
    }

    fn local(&self, n: &str) -> Option<(u32, Ty)> {
        self.scopes.iter().rev().find_map(|s| s.get(n).cloned())
    }

    pub fn function(mut self, f: &Arc<Fun>) -> R<FnIR> {
        let mut params = vec![];
        for v in &f.params {
            let t = self.w.ty(&f.contract, &v.ty)?;
            params.push(t.clone());
            self.declare(&v.name, t);
        }
        let mut rets = vec![];
        let ret0 = self.slots;
        let mut body = vec![];
        for v in &f.rets {
            let t = self.w.ty(&f.contract, &v.ty)?;
            rets.push(t.clone());
            let s = self.declare(&v.name, t.clone());
            self.rets.push((s, t.clone()));
            if t.reference() {
                body.push(S::Ex(I::SetLocal(s, bx(I::Zero(t)))));
            }
        }
        let b = f.body.as_ref().ok_or("function without a body")?;
        let mut inner = self.block(b)?;
        for (n, a) in f.mods.iter().rev() {
            let name = n.last().unwrap();
            // names of bases are arguments of their constructors
            if f.name == "constructor" && self.w.contracts.contains_key(name) {
                continue;
            }
            inner = self.modifier(name, a.as_ref().map_or(&[], |v| v), inner)?;
        }
        body.push(S::Inner(inner));
        Ok(FnIR {
            params,
            rets,
            ret0,
            slots: self.slots,
            body,
        })
    }

    fn modifier(&mut self, name: &str, args: &[Ex], inner: Vec<S>) -> R<Vec<S>> {
        let mut found = None;
        for c in self.w.linear(&self.derived)?.iter() {
            if let Some(m) = self.w.contract(c)?.mods.iter().find(|m| m.name == name) {
                found = Some(m.clone());
                break;
            }
        }
        let m = found.ok_or_else(|| format!("no modifier {}", name))?;
        let mut r = vec![];
        let mut scope = HashMap::new();
        if args.len() != m.params.len() {
            return Err(format!("arguments of modifier {}", name));
        }
        for (v, a) in m.params.iter().zip(args) {
            let t = self.w.ty(&m.contract, &v.ty)?;
            let x = self.to(a, &t)?;
            let s = self.slot();
            r.push(S::Ex(I::SetLocal(s, bx(x))));
            scope.insert(v.name.clone(), (s, t));
        }
        let scopes = std::mem::replace(&mut self.scopes, vec![scope]);
        let definer = std::mem::replace(&mut self.definer, m.contract.clone());
        let ph = self.placeholder.replace(inner);
        let b = self.block(m.body.as_ref().ok_or("modifier without a body")?);
        self.placeholder = ph;
        self.scopes = scopes;
        self.definer = definer;
        r.push(S::Inner(b?));
        Ok(r)
    }

    fn block(&mut self, b: &[St]) -> R<Vec<S>> {
        self.scopes.push(HashMap::new());
        let r = b.iter().map(|s| self.st(s)).collect();
        self.scopes.pop();
        r
    }

    fn st(&mut self, s: &St) -> R<S> {
        Ok(match s {
            St::Block(b) => S::Block(self.block(b)?),
            St::Ex(e) => S::Ex(self.ex(e)?.0),
            St::If(c, a, b) => {
                let c = self.to(c, &Ty::Bool)?;
                let a = self.scoped(a)?;
                let b = match b {
                    Some(b) => Some(Box::new(self.scoped(b)?)),
                    None => None,
                };
                S::If(c, Box::new(a), b)
            }
            St::While(c, b) => S::While(self.to(c, &Ty::Bool)?, Box::new(self.scoped(b)?)),
            St::DoWhile(b, c) => S::DoWhile(Box::new(self.scoped(b)?), self.to(c, &Ty::Bool)?),
            St::For(a, c, d, b) => {
                self.scopes.push(HashMap::new());
                let a = match a {
                    Some(a) => Some(Box::new(self.st(a)?)),
                    None => None,
                };
                let c = match c {
                    Some(c) => Some(self.to(c, &Ty::Bool)?),
                    None => None,
                };
                let d = match d {
                    Some(d) => Some(self.ex(d)?.0),
                    None => None,
                };
                let b = self.scoped(b)?;
                self.scopes.pop();
                S::For(a, c, d, Box::new(b))
            }
            St::Return(None) => S::Return,
            St::Return(Some(e)) => {
                let rets = self.rets.clone();
                let mut v = if rets.len() == 1 {
                    vec![S::Ex(I::SetLocal(rets[0].0, bx(self.to(e, &rets[0].1)?)))]
                } else if rets.is_empty() {
                    vec![S::Ex(self.ex(e)?.0)]
                } else {
                    let tys: Vec<Ty> = rets.iter().map(|r| r.1.clone()).collect();
                    let (x, base) = self.multi(e, &tys)?;
                    let mut v = vec![S::Ex(x)];
                    for (i, r) in rets.iter().enumerate() {
                        v.push(S::Ex(I::SetLocal(r.0, bx(I::Local(base + i as u32)))));
                    }
                    v
                };
                v.push(S::Return);
                S::Block(v)
            }
            St::Break => S::Break,
            St::Continue => S::Continue,
            St::Emit(e) => {
                let mut v = vec![];
                if let Ex::Call(_, Args::Pos(a)) = e {
                    for x in a {
                        let (i, t) = self.ex(x)?;
                        if !matches!(t, Ty::Lit(..) | Ty::StrLit(_)) {
                            v.push(S::Ex(i));
                        }
                    }
                }
                S::Block(v)
            }
            St::Placeholder => S::Inner(self.placeholder.clone().ok_or("_ outside of a modifier")?),
            St::Decl(vars, e) => {
                let mut out = vec![];
                if vars.len() == 1 {
                    let v = vars[0].as_ref().unwrap();
                    let t = self.w.ty(&self.definer.clone(), &v.ty)?;
                    let x = match e {
                        Some(e) => self.to(e, &t)?,
                        None => I::Zero(t.clone()),
                    };
                    let s = self.declare(&v.name, t);
                    return Ok(S::Ex(I::SetLocal(s, bx(x))));
                }
                let e = e.as_ref().ok_or("tuple without a value")?;
                let mut want = vec![];
                for v in vars {
                    want.push(match v {
                        Some(v) => Some(self.w.ty(&self.definer.clone(), &v.ty)?),
                        None => None,
                    });
                }
                let (x, base) = self.multi_opt(e, &want)?;
                out.push(S::Ex(x));
                // declared in the enclosing scope
                for (i, v) in vars.iter().enumerate() {
                    if let Some(v) = v {
                        let s = self.declare(&v.name, want[i].clone().unwrap());
                        out.push(S::Ex(I::SetLocal(s, bx(I::Local(base + i as u32)))));
                    }
                }
                S::Block(out)
            }
            St::Asm(b) => {
                self.yfns.clear();
                S::Asm(self.yblock(b, false)?)
            }
        })
    }

    fn scoped(&mut self, s: &St) -> R<S> {
        self.scopes.push(HashMap::new());
        let r = self.st(s);
        self.scopes.pop();
        r
    }

    /// Several values, converted, in consecutive locals
    fn multi(&mut self, e: &Ex, tys: &[Ty]) -> R<(I, u32)> {
        let w: Vec<Option<Ty>> = tys.iter().cloned().map(Some).collect();
        self.multi_opt(e, &w)
    }

    fn multi_opt(&mut self, e: &Ex, tys: &[Option<Ty>]) -> R<(I, u32)> {
        let n = tys.len() as u32;
        if let Ex::Tuple(v) = e {
            if v.len() != tys.len() {
                return Err("tuple sizes differ".into());
            }
            let mut xs = vec![];
            for (x, t) in v.iter().zip(tys) {
                let x = x.as_ref().ok_or("gap in a tuple value")?;
                xs.push(match t {
                    Some(t) => self.to(x, t)?,
                    None => self.ex(x)?.0,
                });
            }
            let base = self.slots;
            self.slots += n;
            return Ok((I::ToLocals(bx(I::Tuple(xs)), base, n), base));
        }
        if let Ex::Cond(c, a, b) = e {
            let c = self.to(c, &Ty::Bool)?;
            let (a, ba) = self.multi_opt(a, tys)?;
            let (b, bb) = self.multi_opt(b, tys)?;
            let base = self.slots;
            self.slots += n;
            let mv = |f: u32| I::ToLocals(bx(I::Tuple((0..n).map(|i| I::Local(f + i)).collect())), base, n);
            return Ok((
                I::Cond(bx(c), bx(I::Seq(vec![a, mv(ba), I::Const(W::ZERO)])), bx(I::Seq(vec![b, mv(bb), I::Const(W::ZERO)]))),
                base,
            ));
        }
        let (x, t) = self.ex(e)?;
        let ts = match t {
            Ty::Tuple(ts) => ts,
            t => vec![t],
        };
        if ts.len() != tys.len() {
            return Err("wrong number of values".into());
        }
        let base = self.slots;
        self.slots += n;
        let mut seq = vec![I::ToLocals(bx(x), base, n)];
        for (i, (f, t)) in ts.iter().zip(tys).enumerate() {
            if let Some(t) = t {
                if f != t {
                    let s = base + i as u32;
                    let c = self.convert(I::Local(s), f, t)?;
                    seq.push(I::SetLocal(s, bx(c)));
                }
            }
        }
        seq.push(I::Const(W::ZERO));
        Ok((I::Seq(seq), base))
    }

    /// Expression converted to a type
    pub fn to(&mut self, e: &Ex, t: &Ty) -> R<I> {
        // array literals take the type that is wanted
        if let (Ex::List(v), Ty::Arr(et, Some(n))) = (e, t) {
            if v.len() as u64 == *n {
                let xs: R<Vec<I>> = v.iter().map(|x| self.to(x, et)).collect();
                if let Ok(xs) = xs {
                    return Ok(I::Words(xs));
                }
            }
        }
        let (i, f) = self.ex(e)?;
        self.convert(i, &f, t)
    }

    fn castable(&self, f: &Ty, t: &Ty) -> bool {
        if f == t {
            return true;
        }
        match (f, t) {
            (Ty::Lit(false, w), Ty::Uint(b)) => w.bits() <= *b,
            (Ty::Lit(n, w), Ty::Int(b)) => {
                if *n {
                    w.is_zero() || w.sub(W::ONE).bits() < *b
                } else {
                    w.bits() < *b
                }
            }
            (Ty::Lit(false, w), Ty::BytesN(b)) => w.bits() <= 8 * *b,
            (Ty::Lit(false, w), Ty::Addr) => w.bits() <= 160,
            (Ty::StrLit(s), Ty::BytesN(b)) => s.len() as u32 <= *b,
            (Ty::StrLit(_), Ty::Bytes) | (Ty::StrLit(_), Ty::Str) => true,
            (Ty::Uint(a), Ty::Uint(b)) | (Ty::Int(a), Ty::Int(b)) => a <= b,
            (Ty::Uint(a), Ty::Int(b)) => a < b,
            (Ty::BytesN(a), Ty::BytesN(b)) => a <= b,
            (Ty::Contract(a), Ty::Contract(b)) => self.w.linear(a).map_or(false, |l| l.contains(b)),
            _ => false,
        }
    }

    pub fn convert(&mut self, i: I, f: &Ty, t: &Ty) -> R<I> {
        if !self.castable(f, t) {
            let m = format!("no conversion from {} to {}", f.name(), t.name());
            // a number that the type does not have
            return Err(match (f, t) {
                (Ty::Lit(..), Ty::Uint(_)) => format!("{}{}", DEFINITE, m),
                _ => m,
            });
        }
        self.cast(i, f, t)
    }

    fn cast(&mut self, i: I, f: &Ty, t: &Ty) -> R<I> {
        if f == t {
            return Ok(i);
        }
        Ok(match (f, t) {
            (Ty::Lit(n, w), Ty::Uint(_)) | (Ty::Lit(n, w), Ty::Int(_)) => I::Const(t.clean().apply(lit(*n, *w))),
            (Ty::Lit(false, w), Ty::BytesN(b)) => I::Const(w.shl(((256 - 8 * b) as u64).into())),
            (Ty::Lit(false, w), Ty::Addr) | (Ty::Lit(false, w), Ty::Contract(_)) => I::Const(*w),
            (Ty::Lit(false, w), Ty::Enum(_, n)) if w.small().map_or(false, |x| x < *n) => I::Const(*w),
            (Ty::StrLit(s), Ty::BytesN(b)) => I::Const(W::left(&s[..s.len().min(*b as usize)])),
            (Ty::StrLit(s), Ty::Bytes) | (Ty::StrLit(s), Ty::Str) => I::BytesLit(s.clone()),
            (Ty::Uint(a), Ty::Uint(b)) if a <= b => i,
            (Ty::Uint(_), Ty::Uint(_))
            | (Ty::Uint(_), Ty::Int(_))
            | (Ty::Int(_), Ty::Uint(_))
            | (Ty::Int(_), Ty::Int(_)) => cleaned(t, i),
            (Ty::BytesN(_), Ty::BytesN(_)) => cleaned(t, i),
            (Ty::Uint(a), Ty::BytesN(b)) if *a == 8 * b => I::Bin(Op::Shl, bx(i), bx(I::Const(((256 - a) as u64).into()))),
            (Ty::BytesN(b), Ty::Uint(a)) if *a == 8 * b => I::Bin(Op::Shr, bx(i), bx(I::Const(((256 - a) as u64).into()))),
            (Ty::Addr, Ty::BytesN(20)) => I::Bin(Op::Shl, bx(i), bx(I::Const(96u64.into()))),
            (Ty::BytesN(20), Ty::Addr) => I::Bin(Op::Shr, bx(i), bx(I::Const(96u64.into()))),
            (Ty::Uint(_), Ty::Addr)
            | (Ty::Addr, Ty::Uint(_))
            | (Ty::Contract(_), Ty::Addr)
            | (Ty::Addr, Ty::Contract(_))
            | (Ty::Contract(_), Ty::Contract(_)) => cleaned(t, i),
            (Ty::Enum(..), Ty::Uint(_)) | (Ty::Enum(..), Ty::Int(_)) => i,
            (Ty::Uint(_), Ty::Enum(_, n)) => I::EnumCheck(bx(i), *n),
            (Ty::Bytes, Ty::Str) | (Ty::Str, Ty::Bytes) => i,
            _ => return Err(format!("no cast from {} to {}", f.name(), t.name())),
        })
    }

    /// The value of a constant expression
    pub fn constant(&mut self, e: &Ex) -> R<Option<W>> {
        let (i, _) = self.ex(e)?;
        Ok(const_eval(&i))
    }

    fn common(&self, a: &Ty, b: &Ty) -> R<Ty> {
        let (a, b) = match (a, b) {
            (Ty::Lit(..), Ty::BytesN(_)) | (Ty::StrLit(_), Ty::BytesN(_)) => return Ok(b.clone()),
            (Ty::BytesN(_), Ty::Lit(..)) | (Ty::BytesN(_), Ty::StrLit(_)) => return Ok(a.clone()),
            (Ty::Lit(false, w), Ty::Int(n)) if w.bits() < *n => return Ok(b.clone()),
            (Ty::Int(n), Ty::Lit(false, w)) if w.bits() < *n => return Ok(a.clone()),
            _ => (a.mobile(), b.mobile()),
        };
        if self.castable(&a, &b) {
            Ok(b)
        } else if self.castable(&b, &a) {
            Ok(a)
        } else if let (Ty::Contract(_), Ty::Addr) | (Ty::Addr, Ty::Contract(_)) = (&a, &b) {
            Ok(Ty::Addr)
        } else {
            Err(format!("operands {} and {}", a.name(), b.name()))
        }
    }

    fn binary(&mut self, op: &str, a: (I, Ty), b: (I, Ty)) -> R<(I, Ty)> {
        if let (Ty::Lit(an, aw), Ty::Lit(bn, bw)) = (&a.1, &b.1) {
            if let Some((n, w)) = fold(op, (*an, *aw), (*bn, *bw))? {
                return Ok((I::Const(lit(n, w)), Ty::Lit(n, w)));
            }
        }
        if op == "&&" || op == "||" {
            if a.1 != Ty::Bool || b.1 != Ty::Bool {
                return Err("logical operands".into());
            }
            return Ok((
                if op == "&&" { I::AndAnd(bx(a.0), bx(b.0)) } else { I::OrOr(bx(a.0), bx(b.0)) },
                Ty::Bool,
            ));
        }
        if op == "<<" || op == ">>" {
            let t = a.1.mobile();
            let x = self.convert(a.0, &a.1, &t)?;
            let bt = b.1.mobile();
            let y = self.convert(b.0, &b.1, &bt)?;
            let o = match (op, &t) {
                ("<<", _) => Op::Shl,
                (_, Ty::Int(_)) => Op::Sar,
                _ => Op::Shr,
            };
            return Ok((cleaned(&t, I::Bin(o, bx(x), bx(y))), t));
        }
        let t = self.common(&a.1, &b.1)?;
        let signed = matches!(t, Ty::Int(_));
        let x = self.cast(a.0, &a.1, &t)?;
        let y = self.cast(b.0, &b.1, &t)?;
        let num = matches!(t, Ty::Int(_) | Ty::Uint(_));
        let bits = num || matches!(t, Ty::BytesN(_));
        let (o, ok, cmp) = match op {
            "+" => (Op::Add, num, false),
            "-" => (Op::Sub, num, false),
            "*" => (Op::Mul, num, false),
            "/" => (if signed { Op::SDiv } else { Op::Div }, num, false),
            "%" => (if signed { Op::SMod } else { Op::Mod }, num, false),
            "**" => (Op::Exp, num && !signed, false),
            "&" => (Op::And, bits, false),
            "|" => (Op::Or, bits, false),
            "^" => (Op::Xor, bits, false),
            "<" => (if signed { Op::SLt } else { Op::Lt }, bits || t == Ty::Addr, true),
            ">" => (if signed { Op::SGt } else { Op::Gt }, bits || t == Ty::Addr, true),
            "<=" => (if signed { Op::SLe } else { Op::Le }, bits || t == Ty::Addr, true),
            ">=" => (if signed { Op::SGe } else { Op::Ge }, bits || t == Ty::Addr, true),
            "==" => (Op::Eq, !t.reference(), true),
            "!=" => (Op::Ne, !t.reference(), true),
            _ => return Err(format!("operator {}", op)),
        };
        if !ok {
            return Err(format!("operator {} on {}", op, t.name()));
        }
        let i = I::Bin(o, bx(x), bx(y));
        if cmp {
            return Ok((i, Ty::Bool));
        }
        Ok((cleaned(&t, i), t))
    }

    fn lvalue(&mut self, e: &Ex) -> R<Lv> {
        match e {
            Ex::Id(n) => {
                if let Some((s, t)) = self.local(n) {
                    return Ok(Lv::Local(s, t));
                }
                if let Some((q, st, scope)) = self.state_var(n)? {
                    if st.words.iter().any(|w| w == "constant") {
                        return Err(format!("assignment to constant {}", n));
                    }
                    let t = self.w.ty(&scope, &st.ty)?;
                    return Ok(Lv::State(self.w.state_index(&q), t));
                }
                Err(no_variable(n))
            }
            Ex::Index(a, Some(i)) => {
                let (x, t) = self.ex(a)?;
                let j = self.to(i, &Ty::Uint(256))?;
                match t {
                    Ty::Arr(e, n) => Ok(Lv::Mem(I::Index(bx(x), bx(j), n), (*e).clone())),
                    Ty::Bytes => Ok(Lv::Byte(I::ByteAddr(bx(x), bx(j)))),
                    t => Err(format!("index into {}", t.name())),
                }
            }
            Ex::Member(b, n) => {
                let (x, t) = self.ex(b)?;
                match &t {
                    Ty::Struct(s) => {
                        let k = s.fields.iter().position(|f| f.0 == *n).ok_or_else(|| format!("no field {}", n))?;
                        Ok(Lv::Mem(offset(x, k), s.fields[k].1.clone()))
                    }
                    t => Err(format!("assignment to member {} of {}", n, t.name())),
                }
            }
            _ => Err("cannot be assigned to".into()),
        }
    }

    fn load(&self, l: &Lv) -> (I, Ty) {
        match l {
            Lv::Local(s, t) => (I::Local(*s), t.clone()),
            Lv::Mem(a, t) => (I::MLoad(bx(a.clone()), t.clean()), t.clone()),
            Lv::State(k, t) => (I::SLoad(*k), t.clone()),
            Lv::Byte(a) => (I::LoadByte(bx(a.clone())), Ty::BytesN(1)),
            Lv::None => unreachable!(),
        }
    }

    fn store(&self, l: &Lv, v: I) -> I {
        match l {
            Lv::Local(s, _) => I::SetLocal(*s, bx(v)),
            Lv::Mem(a, _) => I::MStore(bx(a.clone()), bx(v)),
            Lv::State(k, _) => I::SStore(*k, bx(v)),
            Lv::Byte(a) => I::MStore8(bx(a.clone()), bx(v)),
            Lv::None => v,
        }
    }

    /// Evaluates the address of a place once
    fn pin(&mut self, l: Lv) -> (Vec<I>, Lv) {
        match l {
            Lv::Mem(a, t) => {
                let s = self.slot();
                (vec![I::SetLocal(s, bx(a))], Lv::Mem(I::Local(s), t))
            }
            Lv::Byte(a) => {
                let s = self.slot();
                (vec![I::SetLocal(s, bx(a))], Lv::Byte(I::Local(s)))
            }
            l => (vec![], l),
        }
    }

    fn state_var(&self, n: &str) -> R<Option<(String, ast::State, String)>> {
        for c in self.w.linear(&self.derived)?.iter() {
            if let Some(s) = self.w.contract(c)?.state.iter().find(|s| s.name == n) {
                return Ok(Some((format!("{}.{}", c, n), s.clone(), c.clone())));
            }
        }
        Ok(None)
    }

    fn state_value(&mut self, q: &str, s: &ast::State, scope: &str) -> R<(I, Ty)> {
        let t = self.w.ty(scope, &s.ty)?;
        if s.words.iter().any(|w| w == "constant") {
            let mut c = Comp::new(self.w, scope, scope);
            let i = c.to(s.init.as_ref().ok_or("constant without a value")?, &t)?;
            if c.slots > 0 {
                return Err("constant with a complicated value".into());
            }
            return Ok((i, t));
        }
        if t.reference() {
            return Err(format!("state variable {} of type {}", q, t.name()));
        }
        Ok((I::SLoad(self.w.state_index(q)), t))
    }

    pub fn ex(&mut self, e: &Ex) -> R<(I, Ty)> {
        match e {
            Ex::Num(w) => Ok((I::Const(*w), Ty::Lit(false, *w))),
            Ex::Bool(b) => Ok((I::Const((*b).into()), Ty::Bool)),
            Ex::Str(s) => {
                let r = Rc::new(s.clone());
                Ok((I::BytesLit(r.clone()), Ty::StrLit(r)))
            }
            Ex::Id(n) => {
                if let Some((s, t)) = self.local(n) {
                    return Ok((I::Local(s), t));
                }
                if n == "this" {
                    return Ok((I::This, Ty::Contract(self.derived.clone())));
                }
                if n == "now" {
                    return Ok((I::Const(W::ZERO), Ty::Uint(256)));
                }
                if let Some((q, s, scope)) = self.state_var(n)? {
                    return self.state_value(&q, &s, &scope);
                }
                Err(no_variable(n))
            }
            Ex::Ty(_) => Err("type in place of a value".into()),
            Ex::Un(op, a) => match *op {
                "!" => Ok((I::Not(bx(self.to(a, &Ty::Bool)?)), Ty::Bool)),
                "-" | "~" => {
                    let (x, t) = self.ex(a)?;
                    match (&t, *op) {
                        (Ty::Lit(n, w), "-") => {
                            let n = !n && !w.is_zero();
                            Ok((I::Const(lit(n, *w)), Ty::Lit(n, *w)))
                        }
                        (Ty::Lit(n, w), _) => {
                            // ~x = -x-1
                            let r = fold("-", fold("*", (*n, *w), (true, W::ONE))?.unwrap(), (false, W::ONE))?.unwrap();
                            Ok((I::Const(lit(r.0, r.1)), Ty::Lit(r.0, r.1)))
                        }
                        (Ty::Uint(_), "-") | (Ty::Int(_), "-") => {
                            Ok((cleaned(&t, I::Bin(Op::Sub, bx(I::Const(W::ZERO)), bx(x))), t))
                        }
                        (Ty::Uint(_), _) | (Ty::Int(_), _) | (Ty::BytesN(_), "~") => Ok((cleaned(&t, I::BitNot(bx(x))), t)),
                        _ => Err(format!("{} on {}", op, t.name())),
                    }
                }
                "+" => self.ex(a),
                "++" | "--" => {
                    let l = self.lvalue(a)?;
                    let (mut seq, l) = self.pin(l);
                    let (v, t) = self.load(&l);
                    let r = self.binary(if *op == "++" { "+" } else { "-" }, (v, t.clone()), (I::Const(W::ONE), Ty::Lit(false, W::ONE)))?;
                    seq.push(self.store(&l, r.0));
                    Ok((I::Seq(seq), t))
                }
                "delete" => {
                    let l = self.lvalue(a)?;
                    let (_, t) = self.load(&l);
                    let x = self.store(&l, I::Zero(t));
                    Ok((x, Ty::Tuple(vec![])))
                }
                _ => Err(format!("operator {}", op)),
            },
            Ex::Post(op, a) => {
                let l = self.lvalue(a)?;
                let (mut seq, l) = self.pin(l);
                let (v, t) = self.load(&l);
                let old = self.slot();
                seq.push(I::SetLocal(old, bx(v)));
                let r = self.binary(
                    if *op == "++" { "+" } else { "-" },
                    (I::Local(old), t.clone()),
                    (I::Const(W::ONE), Ty::Lit(false, W::ONE)),
                )?;
                seq.push(self.store(&l, r.0));
                seq.push(I::Local(old));
                Ok((I::Seq(seq), t))
            }
            Ex::Bin(op, a, b) => {
                let x = self.ex(a)?;
                let y = self.ex(b)?;
                self.binary(op, x, y)
            }
            Ex::Assign(op, a, b) => self.assign(op, a, b),
            Ex::Cond(c, a, b) => {
                let c = self.to(c, &Ty::Bool)?;
                let x = self.ex(a)?;
                let y = self.ex(b)?;
                let t = if x.1 == y.1 && !matches!(x.1, Ty::Lit(..)) { x.1.clone() } else { self.common(&x.1, &y.1)? };
                let p = self.convert(x.0, &x.1, &t)?;
                let q = self.convert(y.0, &y.1, &t)?;
                Ok((I::Cond(bx(c), bx(p), bx(q)), t))
            }
            Ex::Tuple(v) => {
                let mut xs = vec![];
                let mut ts = vec![];
                for x in v {
                    let (i, t) = self.ex(x.as_ref().ok_or("gap in a tuple value")?)?;
                    xs.push(i);
                    ts.push(t);
                }
                Ok((I::Tuple(xs), Ty::Tuple(ts)))
            }
            Ex::List(v) => {
                let mut xs = vec![];
                for x in v {
                    xs.push(self.ex(x)?);
                }
                let mut t = xs.first().ok_or("empty array literal")?.1.mobile();
                for x in &xs {
                    t = self.common(&t, &x.1)?;
                }
                let n = xs.len() as u64;
                let mut ys = vec![];
                for x in xs {
                    ys.push(self.convert(x.0, &x.1, &t)?);
                }
                Ok((I::Words(ys), Ty::Arr(Rc::new(t), Some(n))))
            }
            Ex::Index(a, Some(i)) => {
                let (x, t) = self.ex(a)?;
                let j = self.to(i, &Ty::Uint(256))?;
                match t {
                    Ty::Arr(e, n) => Ok((I::MLoad(bx(I::Index(bx(x), bx(j), n)), e.clean()), (*e).clone())),
                    Ty::Bytes => Ok((I::LoadByte(bx(I::ByteAddr(bx(x), bx(j)))), Ty::BytesN(1))),
                    Ty::BytesN(n) => {
                        let s = self.slot();
                        let chk = I::Assert(bx(I::Bin(Op::Lt, bx(I::Local(s)), bx(I::Const((n as u64).into())))));
                        let sh = I::Bin(Op::Mul, bx(I::Local(s)), bx(I::Const(8u64.into())));
                        Ok((
                            I::Seq(vec![
                                I::SetLocal(s, bx(j)),
                                chk,
                                I::Clean(Cl::High(8), bx(I::Bin(Op::Shl, bx(x), bx(sh)))),
                            ]),
                            Ty::BytesN(1),
                        ))
                    }
                    t => Err(format!("index into {}", t.name())),
                }
            }
            Ex::Index(_, None) => Err("type in place of a value".into()),
            Ex::New(_) => Err("new without arguments".into()),
            Ex::Member(b, n) => self.member(b, n),
            Ex::Call(f, a) => self.call(f, a),
        }
    }

    fn member(&mut self, b: &Ex, n: &str) -> R<(I, Ty)> {
        if let Ex::Id(m) = b {
            if self.local(m).is_none() {
                match (m.as_str(), n) {
                    ("msg", "sender") | ("tx", "origin") => return Ok((I::Sender, Ty::Addr)),
                    ("msg", "value") | ("block", "timestamp") | ("block", "number") | ("tx", "gasprice") => {
                        return Ok((I::Const(W::ZERO), Ty::Uint(256)))
                    }
                    _ => {}
                }
                if self.w.contracts.contains_key(m) {
                    for c in self.w.linear(m)?.iter() {
                        if let Some(s) = self.w.contract(c)?.state.iter().find(|s| s.name == n) {
                            return self.state_value(&format!("{}.{}", c, n), &s.clone(), c);
                        }
                    }
                }
                if let Some(Ty::Enum(q, k)) = self.w.named(&self.definer, &[m.clone()])? {
                    return self.enum_member(&q, k, n);
                }
            }
        }
        if let Ex::Member(c, m) = b {
            if let Ex::Id(c) = &**c {
                if self.local(c).is_none() {
                    if let Some(Ty::Enum(q, k)) = self.w.named(&self.definer, &[c.clone(), m.clone()])? {
                        return self.enum_member(&q, k, n);
                    }
                }
            }
        }
        // type(T).max
        if let Ex::Call(f, Args::Pos(a)) = b {
            if let (Ex::Id(t), [x]) = (&**f, &a[..]) {
                if t == "type" {
                    let t = self.as_type(x)?.ok_or("type")?;
                    let v = match (&t, n) {
                        (Ty::Uint(b), "max") => W::MAX.low(*b),
                        (Ty::Uint(_), "min") => W::ZERO,
                        (Ty::Int(b), "max") => W::MAX.low(*b - 1),
                        (Ty::Int(b), "min") => W::ONE.shl(((*b - 1) as u64).into()).neg(),
                        _ => return Err(format!("type().{}", n)),
                    };
                    return Ok((I::Const(v), t));
                }
            }
        }
        let (x, t) = self.ex(b)?;
        match (&t, n) {
            (Ty::Arr(_, None), "length") | (Ty::Bytes, "length") => Ok((I::MLoad(bx(x), Cl::None), Ty::Uint(256))),
            (Ty::Arr(_, Some(k)), "length") => Ok((I::Const((*k).into()), Ty::Uint(256))),
            (Ty::BytesN(k), "length") => Ok((I::Const((*k as u64).into()), Ty::Uint(8))),
            (Ty::Struct(s), _) => {
                let k = s.fields.iter().position(|f| f.0 == n).ok_or_else(|| format!("no field {}", n))?;
                let ft = s.fields[k].1.clone();
                Ok((I::MLoad(bx(offset(x, k)), ft.clean()), ft))
            }
            _ => Err(format!("member {} of {}", n, t.name())),
        }
    }

    fn enum_member(&self, q: &str, k: u64, n: &str) -> R<(I, Ty)> {
        let mut p = q.splitn(2, '.');
        let c = self.w.contract(p.next().unwrap())?;
        let e = p.next().unwrap();
        let v = &c.enums.iter().find(|x| x.0 == e).unwrap().1;
        let i = v.iter().position(|x| x == n).ok_or("no such enum member")?;
        Ok((I::Const(i.into()), Ty::Enum(q.into(), k)))
    }

    fn assign(&mut self, op: &str, a: &Ex, b: &Ex) -> R<(I, Ty)> {
        if let Ex::Tuple(v) = a {
            if op != "=" {
                return Err("compound assignment to a tuple".into());
            }
            let mut seq = vec![];
            let mut lvs = vec![];
            let mut tys = vec![];
            for x in v {
                match x {
                    None => {
                        lvs.push(Lv::None);
                        tys.push(None);
                    }
                    Some(x) => {
                        let l = self.lvalue(x)?;
                        tys.push(Some(self.load(&l).1));
                        lvs.push(l);
                    }
                }
            }
            let (x, base) = self.multi_opt(b, &tys)?;
            seq.push(x);
            let mut pinned = vec![];
            for l in lvs {
                let (s, l) = self.pin(l);
                seq.extend(s);
                pinned.push(l);
            }
            for (i, l) in pinned.iter().enumerate().rev() {
                if let Lv::None = l {
                    continue;
                }
                seq.push(self.store(l, I::Local(base + i as u32)));
            }
            seq.push(I::Const(W::ZERO));
            return Ok((I::Seq(seq), Ty::Tuple(vec![])));
        }
        let l = self.lvalue(a)?;
        if op == "=" {
            let t = self.load(&l).1;
            let v = self.to(b, &t)?;
            if let Lv::Local(..) | Lv::State(..) = l {
                return Ok((self.store(&l, v), t));
            }
            // the value first, then the place
            let s = self.slot();
            let st = self.store(&l, I::Local(s));
            return Ok((I::Seq(vec![I::SetLocal(s, bx(v)), st, I::Local(s)]), t));
        }
        let y = self.ex(b)?;
        let (mut seq, l) = self.pin(l);
        let (v, t) = self.load(&l);
        let r = self.binary(&op[..op.len() - 1], (v, t.clone()), y)?;
        let r = self.convert(r.0, &r.1, &t)?;
        seq.push(self.store(&l, r));
        Ok((I::Seq(seq), t))
    }

    /// The type an expression names, if it does
    fn as_type(&mut self, e: &Ex) -> R<Option<Ty>> {
        Ok(match e {
            Ex::Ty(t) => Some(self.w.ty(&self.definer.clone(), t)?),
            Ex::Id(n) if self.local(n).is_none() => self.w.named(&self.definer, &[n.clone()])?,
            Ex::Member(b, n) => match &**b {
                Ex::Id(m) if self.local(m).is_none() => self.w.named(&self.definer, &[m.clone(), n.clone()])?,
                _ => None,
            },
            Ex::Index(b, None) => self.as_type(b)?.map(|t| Ty::Arr(Rc::new(t), None)),
            Ex::Index(b, Some(k)) => match self.as_type(b)? {
                Some(t) => match &**k {
                    Ex::Num(w) => Some(Ty::Arr(Rc::new(t), w.small())),
                    _ => return Err("array type".into()),
                },
                None => None,
            },
            _ => None,
        })
    }

    fn args(&mut self, a: &Args) -> R<Vec<(I, Ty)>> {
        match a {
            Args::Pos(v) => v.iter().map(|x| self.ex(x)).collect(),
            Args::Named(_) => Err("named arguments".into()),
        }
    }

    fn pick(
        &mut self,
        what: &str,
        cands: Vec<(Arc<Fun>, Vec<Ty>)>,
        args: &[(I, Ty)],
    ) -> R<(Arc<Fun>, Vec<Ty>)> {
        let fits: Vec<_> = cands
            .into_iter()
            .filter(|c| c.1.len() == args.len() && args.iter().zip(&c.1).all(|(a, t)| self.castable(&a.1, t)))
            .collect();
        if fits.is_empty() {
            return Err(format!(
                "no function {}({})",
                what,
                args.iter().map(|a| a.1.name()).collect::<Vec<_>>().join(", ")
            ));
        }
        let exact = fits.iter().position(|c| args.iter().zip(&c.1).all(|(a, t)| a.1 == *t));
        Ok(fits[exact.unwrap_or(0)].clone())
    }

    /// Named arguments in the order of the parameters
    fn positional(&self, cands: &[(Arc<Fun>, Vec<Ty>)], a: &Args) -> R<Args> {
        match a {
            Args::Pos(_) => Ok(a.clone()),
            Args::Named(v) => {
                let f = cands
                    .iter()
                    .find(|c| c.0.params.len() == v.len() && c.0.params.iter().all(|p| v.iter().any(|x| x.0 == p.name)))
                    .ok_or("named arguments")?;
                Ok(Args::Pos(
                    f.0.params.iter().map(|p| v.iter().find(|x| x.0 == p.name).unwrap().1.clone()).collect(),
                ))
            }
        }
    }

    fn ret_ty(&self, f: &Fun) -> R<Ty> {
        let mut v = vec![];
        for r in &f.rets {
            v.push(self.w.ty(&f.contract, &r.ty)?);
        }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { Ty::Tuple(v) })
    }

    fn call_fn(&mut self, derived: &str, f: &Arc<Fun>, ps: &[Ty], args: Vec<(I, Ty)>) -> R<(I, Ty)> {
        let mut xs = vec![];
        for (a, t) in args.into_iter().zip(ps) {
            xs.push(self.convert(a.0, &a.1, t)?);
        }
        let id = self.w.fn_id(derived, f);
        Ok((I::Call(id, xs), self.ret_ty(f)?))
    }

    fn one(&mut self, a: &Args, t: &Ty) -> R<I> {
        match a {
            Args::Pos(v) if v.len() == 1 => self.to(&v[0], t),
            _ => Err("one argument".into()),
        }
    }

    fn call(&mut self, f: &Ex, a: &Args) -> R<(I, Ty)> {
        // new T[](n)
        if let Ex::New(t) = f {
            let t = self.w.ty(&self.definer.clone(), t)?;
            let n = self.one(a, &Ty::Uint(256))?;
            return match &t {
                Ty::Arr(e, None) => Ok((I::NewArr(bx(n), (**e).clone()), t)),
                Ty::Bytes | Ty::Str => Ok((I::NewArr(bx(n), Ty::BytesN(1)), t)),
                _ => Err(format!("new {}", t.name())),
            };
        }
        let local = |c: &Self, n: &str| c.local(n).is_some();
        // casts and struct values
        if let Some(t) = self.as_type(f)? {
            if let Ty::Struct(s) = &t {
                let mut xs = vec![];
                match a {
                    Args::Pos(v) => {
                        if v.len() != s.fields.len() {
                            return Err(format!("fields of {}", s.q));
                        }
                        for (x, ft) in v.iter().zip(&s.fields) {
                            xs.push(self.to(x, &ft.1)?);
                        }
                    }
                    Args::Named(v) => {
                        if v.len() != s.fields.len() {
                            return Err(format!("fields of {}", s.q));
                        }
                        // evaluated in the order written
                        let mut seq = vec![];
                        let base = self.slots;
                        self.slots += s.fields.len() as u32;
                        for (n, x) in v {
                            let k = s.fields.iter().position(|f| f.0 == *n).ok_or_else(|| format!("no field {}", n))?;
                            let i = self.to(x, &s.fields[k].1)?;
                            seq.push(I::SetLocal(base + k as u32, bx(i)));
                        }
                        seq.push(I::Words((0..s.fields.len() as u32).map(|k| I::Local(base + k)).collect()));
                        return Ok((I::Seq(seq), t));
                    }
                }
                return Ok((I::Words(xs), t));
            }
            let x = match a {
                Args::Pos(v) if v.len() == 1 => self.ex(&v[0])?,
                _ => return Err("cast of several values".into()),
            };
            let i = match (&x.1, &t) {
                // integers pass through the mobile type of literals
                (Ty::Lit(..), _) | (Ty::StrLit(_), _) => self.cast(x.0, &x.1, &t)?,
                _ => self.cast(x.0, &x.1, &t)?,
            };
            return Ok((i, t));
        }
        match f {
            Ex::Id(n) if !local(self, n) => {
                let cands = self.w.functions(&self.derived, n, 0)?;
                if !cands.is_empty() {
                    let a = self.positional(&cands, a)?;
                    let args = self.args(&a)?;
                    let (f, ps) = self.pick(n, cands, &args)?;
                    let d = self.derived.clone();
                    return self.call_fn(&d, &f, &ps, args);
                }
                self.builtin(n, a)
            }
            Ex::Member(b, n) => {
                if let Ex::Id(m) = &**b {
                    if !local(self, m) {
                        match m.as_str() {
                            "abi" => return self.abi(n, a),
                            "super" => {
                                let lin = self.w.linear(&self.derived)?;
                                let at = lin.iter().position(|c| *c == self.definer).ok_or("super")?;
                                let cands = self.w.functions(&self.derived, n, at + 1)?;
                                let a = self.positional(&cands, a)?;
                                let args = self.args(&a)?;
                                let (f, ps) = self.pick(n, cands, &args)?;
                                let d = self.derived.clone();
                                return self.call_fn(&d, &f, &ps, args);
                            }
                            _ => {}
                        }
                        if let Some(c) = self.w.contracts.get(m).cloned() {
                            if self.state_var(m)?.is_none() {
                                let lib = c.kind == "library";
                                let cands = self.w.functions(m, n, 0)?;
                                let a = self.positional(&cands, a)?;
                                let args = self.args(&a)?;
                                let (f, ps) = self.pick(n, cands, &args)?;
                                let d = if lib { m.clone() } else { self.derived.clone() };
                                return self.call_fn(&d, &f, &ps, args);
                            }
                        }
                    }
                }
                // x.gas(n)(..) and the like
                let (x, t) = self.ex(b)?;
                if let Ty::Contract(c) = &t {
                    let cands = self.w.functions(c, n, 0)?;
                    if !cands.is_empty() {
                        let a = self.positional(&cands, a)?;
                        let args = self.args(&a)?;
                        let (f, ps) = self.pick(n, cands, &args)?;
                        let mut xs = vec![];
                        for (a, t) in args.into_iter().zip(&ps) {
                            xs.push((self.convert(a.0, &a.1, t)?, t.clone()));
                        }
                        let rt = self.ret_ty(&f)?;
                        let rets = match &rt {
                            Ty::Tuple(v) => v.clone(),
                            t => vec![t.clone()],
                        };
                        return Ok((
                            I::CallX {
                                addr: bx(x),
                                name: n.clone(),
                                args: xs,
                                rets,
                            },
                            rt,
                        ));
                    }
                }
                // attached library functions
                let mut cands = vec![];
                for c in self.w.linear(&self.definer)?.iter() {
                    for (l, ut) in &self.w.contract(c)?.usings {
                        let applies = match ut {
                            None => true,
                            Some(u) => {
                                let u = self.w.ty(c, u)?;
                                self.castable(&t, &u)
                            }
                        };
                        if applies {
                            for (f, s) in self.w.functions(l, n, 0)? {
                                if !cands.iter().any(|(g, _): &(Arc<Fun>, Vec<Ty>)| Arc::ptr_eq(g, &f)) {
                                    cands.push((f, s));
                                }
                            }
                        }
                    }
                }
                if cands.is_empty() {
                    return Err(format!("no function {} on {}", n, t.name()));
                }
                let mut args = vec![(x, t)];
                args.extend(self.args(a)?);
                let (f, ps) = self.pick(n, cands, &args)?;
                let lib = f.contract.clone();
                self.call_fn(&lib, &f, &ps, args)
            }
            // f.gas(n)(args), f.value(n)(args)
            Ex::Call(g, _) => match &**g {
                Ex::Member(h, o) if o == "gas" || o == "value" => self.call(h, a),
                _ => Err("call of a value".into()),
            },
            _ => Err("call of a value".into()),
        }
    }

    fn message(a: &[Ex]) -> String {
        match a {
            [Ex::Str(s), ..] => String::from_utf8_lossy(s).to_string(),
            _ => String::new(),
        }
    }

    fn builtin(&mut self, n: &str, a: &Args) -> R<(I, Ty)> {
        let v = match a {
            Args::Pos(v) => v,
            _ => return Err(format!("no function {}", n)),
        };
        let unit = Ty::Tuple(vec![]);
        match (n, v.len()) {
            ("require", 1) | ("require", 2) => {
                Ok((I::Require(bx(self.to(&v[0], &Ty::Bool)?), Self::message(&v[1..])), unit))
            }
            ("assert", 1) => Ok((I::Assert(bx(self.to(&v[0], &Ty::Bool)?)), unit)),
            ("revert", 0) | ("revert", 1) => Ok((I::Revert(Self::message(v)), unit)),
            ("gasleft", 0) => Ok((I::Gas, Ty::Uint(256))),
            ("keccak256", 1) => Ok((I::Keccak(bx(self.to(&v[0], &Ty::Bytes)?)), Ty::BytesN(32))),
            ("addmod", 3) | ("mulmod", 3) => {
                let u = Ty::Uint(256);
                let x = bx(self.to(&v[0], &u)?);
                let y = bx(self.to(&v[1], &u)?);
                let z = bx(self.to(&v[2], &u)?);
                Ok((if n == "addmod" { I::AddMod(x, y, z) } else { I::MulMod(x, y, z) }, u))
            }
            _ => Err(format!("no function {}", n)),
        }
    }

    fn abi(&mut self, n: &str, a: &Args) -> R<(I, Ty)> {
        let v = match a {
            Args::Pos(v) => v,
            _ => return Err("arguments of abi".into()),
        };
        match n {
            "encodePacked" | "encode" => {
                let mut xs = vec![];
                for x in v {
                    let (i, t) = self.ex(x)?;
                    let m = match &t {
                        Ty::StrLit(_) => Ty::Bytes,
                        t => t.mobile(),
                    };
                    xs.push((self.convert(i, &t, &m)?, m));
                }
                Ok((if n == "encode" { I::Encode(xs) } else { I::Packed(xs) }, Ty::Bytes))
            }
            "decode" if v.len() == 2 => {
                let b = self.to(&v[0], &Ty::Bytes)?;
                let mut ts = vec![];
                match &v[1] {
                    Ex::Tuple(p) => {
                        for x in p {
                            ts.push(self.as_type(x.as_ref().ok_or("type")?)?.ok_or("type")?);
                        }
                    }
                    x => ts.push(self.as_type(x)?.ok_or("type")?),
                }
                let t = if ts.len() == 1 { ts[0].clone() } else { Ty::Tuple(ts.clone()) };
                Ok((I::Decode(bx(b), ts), t))
            }
            _ => Err(format!("abi.{}", n)),
        }
    }

    // Assembly

    fn yblock(&mut self, b: &[Y], infn: bool) -> R<Vec<YS>> {
        self.scopes.push(HashMap::new());
        let mut fs = HashMap::new();
        for s in b {
            if let Y::Fun(f) = s {
                fs.insert(f.name.clone(), Rc::new(RefCell::new(YFn {
                    params: f.params.len() as u32,
                    rets: f.rets.len() as u32,
                    ..YFn::default()
                })));
            }
        }
        self.yfns.push(fs);
        let r = self.yblock2(b, infn);
        self.yfns.pop();
        self.scopes.pop();
        r
    }

    fn yblock2(&mut self, b: &[Y], infn: bool) -> R<Vec<YS>> {
        for s in b {
            if let Y::Fun(f) = s {
                let cell = self.yfns.last().unwrap()[&f.name].clone();
                let scopes = std::mem::replace(&mut self.scopes, vec![HashMap::new()]);
                let slots = std::mem::replace(&mut self.slots, 0);
                let t = Ty::Uint(256);
                for p in f.params.iter().chain(&f.rets) {
                    self.declare(p, t.clone());
                }
                let body = self.yblock(&f.body, true);
                let mut c = cell.borrow_mut();
                c.slots = self.slots;
                self.slots = slots;
                self.scopes = scopes;
                c.body = body?;
            }
        }
        b.iter().filter(|s| !matches!(s, Y::Fun(_))).map(|s| self.yst(s, infn)).collect()
    }

    fn yplaces(&mut self, v: &[String]) -> R<Vec<u32>> {
        v.iter()
            .map(|n| self.local(n).map(|l| l.0).ok_or_else(|| format!("no assembly variable {}", n)))
            .collect()
    }

    fn yst(&mut self, s: &Y, infn: bool) -> R<YS> {
        Ok(match s {
            Y::Block(b) => YS::Block(self.yblock(b, infn)?),
            Y::Let(v, e) => {
                let x = match e {
                    Some(e) => Some(self.yex(e, v.len() as u32)?),
                    None => None,
                };
                let mut p = vec![];
                for n in v {
                    p.push(self.declare(n, Ty::Uint(256)));
                }
                match x {
                    Some(x) => YS::Set(p, x),
                    None => YS::Zero(p),
                }
            }
            Y::Set(v, e) => YS::Set(self.yplaces(v)?, self.yex(e, v.len() as u32)?),
            Y::If(c, b) => YS::If(self.yex(c, 1)?, self.yblock(b, infn)?),
            Y::Switch(e, cs, d) => {
                let e = self.yex(e, 1)?;
                let mut v = vec![];
                for (w, b) in cs {
                    v.push((*w, self.yblock(b, infn)?));
                }
                let d = match d {
                    Some(d) => Some(self.yblock(d, infn)?),
                    None => None,
                };
                YS::Switch(e, v, d)
            }
            Y::For(a, c, p, b) => {
                // the first block's variables are seen by the others
                self.scopes.push(HashMap::new());
                self.yfns.push(HashMap::new());
                let mut go = || -> R<YS> {
                    let a = self.yblock2(a, infn)?;
                    let c = self.yex(c, 1)?;
                    let p = self.yblock(p, infn)?;
                    let b = self.yblock(b, infn)?;
                    Ok(YS::For(a, c, p, b))
                };
                let r = go();
                self.yfns.pop();
                self.scopes.pop();
                r?
            }
            Y::Break => YS::Break,
            Y::Continue => YS::Continue,
            Y::Leave => {
                if !infn {
                    return Err("leave outside of a function".into());
                }
                YS::Leave
            }
            Y::Fun(_) => unreachable!(),
            Y::Ex(e) => YS::Ex(self.yex(e, 0)?),
        })
    }

    fn yex(&mut self, e: &YE, rets: u32) -> R<YI> {
        match e {
            YE::Lit(w) => Ok(YI::Const(*w)),
            YE::Id(n) => {
                if let Some((s, _)) = self.local(n) {
                    return Ok(YI::Local(s));
                }
                if let Some((q, st, scope)) = self.state_var(n)? {
                    if st.words.iter().any(|w| w == "constant") {
                        let (i, _) = self.state_value(&q, &st, &scope)?;
                        if let Some(w) = const_eval(&i) {
                            return Ok(YI::Const(w));
                        }
                    }
                }
                Err(format!("no assembly variable {}", n))
            }
            YE::Call(n, a) => {
                let f = self.yfns.iter().rev().find_map(|m| m.get(n).cloned());
                let args: R<Vec<YI>> = a.iter().map(|x| self.yex(x, 1)).collect();
                let args = args?;
                if let Some(f) = f {
                    if f.borrow().params as usize != args.len() || f.borrow().rets != rets {
                        return Err(format!("values of assembly function {}", n));
                    }
                    return Ok(YI::Call(f, args));
                }
                let (op, k) = yop(n).ok_or_else(|| format!("no assembly function {}", n))?;
                if k != args.len() {
                    return Err(format!("arguments of {}", n));
                }
                Ok(YI::Op(op, args))
            }
        }
    }
}

fn offset(x: I, k: usize) -> I {
    if k == 0 {
        return x;
    }
    I::Bin(Op::Add, bx(x), bx(I::Const((32 * k).into())))
}

pub fn apply(op: Op, a: W, b: W) -> Option<W> {
    Some(match op {
        Op::Add => a.add(b),
        Op::Sub => a.sub(b),
        Op::Mul => a.mul(b),
        Op::Div if b.is_zero() => return None,
        Op::Div => a.divmod(b).0,
        Op::Mod if b.is_zero() => return None,
        Op::Mod => a.divmod(b).1,
        Op::SDiv if b.is_zero() => return None,
        Op::SDiv => a.sdivmod(b).0,
        Op::SMod if b.is_zero() => return None,
        Op::SMod => a.sdivmod(b).1,
        Op::Exp => a.pow(b),
        Op::And => a.and(b),
        Op::Or => a.or(b),
        Op::Xor => a.xor(b),
        Op::Shl => a.shl(b),
        Op::Shr => a.shr(b),
        Op::Sar => a.sar(b),
        Op::Lt => (a < b).into(),
        Op::Gt => (a > b).into(),
        Op::Le => (a <= b).into(),
        Op::Ge => (a >= b).into(),
        Op::SLt => a.slt(b).into(),
        Op::SGt => b.slt(a).into(),
        Op::SLe => (!b.slt(a)).into(),
        Op::SGe => (!a.slt(b)).into(),
        Op::Eq => (a == b).into(),
        Op::Ne => (a != b).into(),
    })
}

fn const_eval(i: &I) -> Option<W> {
    match i {
        I::Const(w) => Some(*w),
        I::Bin(o, a, b) => apply(*o, const_eval(a)?, const_eval(b)?),
        I::Clean(c, a) => Some(c.apply(const_eval(a)?)),
        I::BitNot(a) => Some(const_eval(a)?.not()),
        _ => None,
    }
}

/// Parameters of a declaration, for constructors
pub fn var_types(w: &World, scope: &str, v: &[Var]) -> R<Vec<Ty>> {
    v.iter().map(|x| w.ty(scope, &x.ty)).collect()
}

/// Start of messages about contracts that no compiler would accept, unlike
/// those that only this interpreter does not support.
pub const DEFINITE: &str = "does not compile: ";

fn no_variable(n: &str) -> String {
    const GLOBAL: &[&str] = &["msg", "block", "tx", "abi", "super", "this", "now", "type", "bytes", "string"];
    if GLOBAL.contains(&n) {
        format!("no variable {}", n)
    } else {
        format!("{}no variable {}", DEFINITE, n)
    }
}
