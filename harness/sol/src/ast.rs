//! Syntax trees and parser of Solidity 0.6 (with inline assembly).
use crate::lex::{lex, T};
use crate::w::W;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub enum TyN {
    Elem(String),
    Name(Vec<String>),
    Arr(Box<TyN>, Option<Box<Ex>>),
    Map(Box<TyN>, Box<TyN>),
}

#[derive(Clone, Debug)]
pub enum Ex {
    Num(W),
    Bool(bool),
    Str(Vec<u8>),
    Id(String),
    Ty(TyN),
    Un(&'static str, Box<Ex>),
    /// postfix ++ or --
    Post(&'static str, Box<Ex>),
    Bin(&'static str, Box<Ex>, Box<Ex>),
    Assign(&'static str, Box<Ex>, Box<Ex>),
    Cond(Box<Ex>, Box<Ex>, Box<Ex>),
    Tuple(Vec<Option<Ex>>),
    List(Vec<Ex>),
    Index(Box<Ex>, Option<Box<Ex>>),
    Member(Box<Ex>, String),
    Call(Box<Ex>, Args),
    New(TyN),
}

#[derive(Clone, Debug)]
pub enum Args {
    Pos(Vec<Ex>),
    Named(Vec<(String, Ex)>),
}

#[derive(Clone, Debug)]
pub struct Var {
    pub ty:   TyN,
    pub loc:  Option<String>,
    pub name: String,
}

#[derive(Clone, Debug)]
pub enum St {
    Block(Vec<St>),
    /// declarations, with gaps for tuples
    Decl(Vec<Option<Var>>, Option<Ex>),
    Ex(Ex),
    If(Ex, Box<St>, Option<Box<St>>),
    While(Ex, Box<St>),
    DoWhile(Box<St>, Ex),
    For(Option<Box<St>>, Option<Ex>, Option<Ex>, Box<St>),
    Return(Option<Ex>),
    Break,
    Continue,
    Emit(Ex),
    Placeholder,
    Asm(Vec<Y>),
}

#[derive(Clone, Debug)]
pub enum Y {
    Block(Vec<Y>),
    Let(Vec<String>, Option<YE>),
    Set(Vec<String>, YE),
    If(YE, Vec<Y>),
    Switch(YE, Vec<(W, Vec<Y>)>, Option<Vec<Y>>),
    For(Vec<Y>, YE, Vec<Y>, Vec<Y>),
    Break,
    Continue,
    Leave,
    Fun(Arc<YFun>),
    Ex(YE),
}

#[derive(Clone, Debug)]
pub struct YFun {
    pub name:   String,
    pub params: Vec<String>,
    pub rets:   Vec<String>,
    pub body:   Vec<Y>,
}

#[derive(Clone, Debug)]
pub enum YE {
    Lit(W),
    Id(String),
    Call(String, Vec<YE>),
}

#[derive(Clone, Debug)]
pub struct Fun {
    pub name:    String,
    pub params:  Vec<Var>,
    pub rets:    Vec<Var>,
    pub mods:    Vec<(Vec<String>, Option<Vec<Ex>>)>,
    pub body:    Option<Vec<St>>,
    pub words:   Vec<String>,
    pub contract: String,
}

#[derive(Clone, Debug)]
pub struct State {
    pub ty:    TyN,
    pub name:  String,
    pub words: Vec<String>,
    pub init:  Option<Ex>,
}

#[derive(Clone, Debug)]
pub struct Contract {
    pub name:    String,
    pub kind:    String,
    pub bases:   Vec<(String, Vec<Ex>)>,
    pub usings:  Vec<(String, Option<TyN>)>,
    pub structs: Vec<(String, Vec<Var>)>,
    pub enums:   Vec<(String, Vec<String>)>,
    pub events:  Vec<String>,
    pub mods:    Vec<Arc<Fun>>,
    pub funs:    Vec<Arc<Fun>>,
    pub state:   Vec<State>,
}

pub struct Parser {
    t: Vec<(T, usize)>,
    i: usize,
}

type R<X> = Result<X, String>;

pub fn elementary(s: &str) -> bool {
    if ["bool", "address", "bytes", "string", "uint", "int", "byte", "var"].contains(&s) {
        return true;
    }
    let num = |p: &str, max: u32, step: u32| {
        s.starts_with(p) && s[p.len()..].parse::<u32>().map_or(false, |n| n > 0 && n <= max && n % step == 0)
    };
    num("uint", 256, 8) || num("int", 256, 8) || num("bytes", 32, 1)
}

pub fn number(s: &str) -> R<W> {
    if s.starts_with("0x") {
        let d = &s[2..];
        let mut v = W::ZERO;
        if d.len() > 64 {
            return Err(format!("number too long: {}", s));
        }
        for c in d.chars() {
            v = v.shl(4u64.into()).or((c.to_digit(16).unwrap() as u64).into());
        }
        return Ok(v);
    }
    let (m, e) = match s.find(|c| c == 'e' || c == 'E') {
        Some(i) => (&s[..i], s[i + 1..].parse::<u32>().map_err(|e| e.to_string())?),
        None => (s, 0),
    };
    let mut v = W::ZERO;
    let ten = W::from(10u64);
    for c in m.chars().chain((0..e).map(|_| '0')) {
        let n = v.mul(ten).add((c.to_digit(10).unwrap() as u64).into());
        if v.bits() > 252 {
            return Err(format!("number too large: {}", s));
        }
        v = n;
    }
    Ok(v)
}

impl Parser {
    fn peek(&self) -> &T {
        &self.t[self.i].0
    }

    fn peek2(&self) -> &T {
        &self.t[(self.i + 1).min(self.t.len() - 1)].0
    }

    fn err<X>(&self, what: &str) -> R<X> {
        Err(format!("line {}: {} expected, found {:?}", self.t[self.i].1, what, self.peek()))
    }

    fn next(&mut self) -> T {
        let r = self.t[self.i].0.clone();
        if self.i + 1 < self.t.len() {
            self.i += 1;
        }
        r
    }

    fn is(&self, p: &str) -> bool {
        matches!(self.peek(), T::P(x) if *x == p)
    }

    fn is_id(&self, s: &str) -> bool {
        matches!(self.peek(), T::Id(x) if x == s)
    }

    fn eat(&mut self, p: &str) -> bool {
        if self.is(p) {
            self.next();
            return true;
        }
        false
    }

    fn eat_id(&mut self, s: &str) -> bool {
        if self.is_id(s) {
            self.next();
            return true;
        }
        false
    }

    fn need(&mut self, p: &str) -> R<()> {
        if self.eat(p) {
            return Ok(());
        }
        self.err(p)
    }

    fn id(&mut self) -> R<String> {
        match self.peek().clone() {
            T::Id(s) => {
                self.next();
                Ok(s)
            }
            _ => self.err("identifier"),
        }
    }

    fn path(&mut self) -> R<Vec<String>> {
        let mut v = vec![self.id()?];
        while self.eat(".") {
            v.push(self.id()?);
        }
        Ok(v)
    }

    fn ty(&mut self) -> R<TyN> {
        let mut t = if self.eat_id("mapping") {
            self.need("(")?;
            let a = self.ty()?;
            self.need("=>")?;
            let b = self.ty()?;
            self.need(")")?;
            TyN::Map(Box::new(a), Box::new(b))
        } else {
            match self.peek().clone() {
                T::Id(s) if elementary(&s) => {
                    self.next();
                    if s == "address" {
                        self.eat_id("payable");
                    }
                    TyN::Elem(s)
                }
                T::Id(_) => TyN::Name(self.path()?),
                _ => return self.err("type"),
            }
        };
        while self.is("[") {
            self.next();
            if self.eat("]") {
                t = TyN::Arr(Box::new(t), None);
            } else {
                let e = self.ex()?;
                self.need("]")?;
                t = TyN::Arr(Box::new(t), Some(Box::new(e)));
            }
        }
        Ok(t)
    }

    fn loc(&mut self) -> Option<String> {
        for l in &["memory", "storage", "calldata"] {
            if self.is_id(l) {
                self.next();
                return Some(l.to_string());
            }
        }
        None
    }

    fn params(&mut self) -> R<Vec<Var>> {
        self.need("(")?;
        let mut v = vec![];
        while !self.is(")") {
            let ty = self.ty()?;
            let mut loc = None;
            loop {
                if let Some(l) = self.loc() {
                    loc = Some(l);
                } else if self.is_id("indexed") || self.is_id("payable") {
                    self.next();
                } else {
                    break;
                }
            }
            let name = if let T::Id(_) = self.peek() { self.id()? } else { String::new() };
            v.push(Var { ty, loc, name });
            if !self.eat(",") {
                break;
            }
        }
        self.need(")")?;
        Ok(v)
    }

    pub fn file(src: &str) -> R<Vec<Contract>> {
        let mut p = Parser { t: lex(src)?, i: 0 };
        let mut r = vec![];
        let mut free = Contract {
            name:    String::new(),
            kind:    "file".into(),
            bases:   vec![],
            usings:  vec![],
            structs: vec![],
            enums:   vec![],
            events:  vec![],
            mods:    vec![],
            funs:    vec![],
            state:   vec![],
        };
        loop {
            match p.peek().clone() {
                T::End => break,
                T::Id(s) => match s.as_str() {
                    "pragma" | "import" => {
                        while !p.is(";") && *p.peek() != T::End {
                            p.next();
                        }
                        p.need(";")?;
                    }
                    "struct" => {
                        let x = p.strukt()?;
                        free.structs.push(x);
                    }
                    _ => r.push(p.contract()?),
                },
                _ => return p.err("contract"),
            }
        }
        if !free.structs.is_empty() {
            r.push(free);
        }
        Ok(r)
    }

    fn strukt(&mut self) -> R<(String, Vec<Var>)> {
        self.next();
        let name = self.id()?;
        self.need("{")?;
        let mut f = vec![];
        while !self.eat("}") {
            let ty = self.ty()?;
            let name = self.id()?;
            self.need(";")?;
            f.push(Var { ty, loc: None, name });
        }
        Ok((name, f))
    }

    fn contract(&mut self) -> R<Contract> {
        self.eat_id("abstract");
        let kind = self.id()?;
        if !["contract", "library", "interface"].contains(&kind.as_str()) {
            return Err(format!("line {}: {} not supported", self.t[self.i].1, kind));
        }
        let name = self.id()?;
        let mut c = Contract {
            name: name.clone(),
            kind,
            bases: vec![],
            usings: vec![],
            structs: vec![],
            enums: vec![],
            events: vec![],
            mods: vec![],
            funs: vec![],
            state: vec![],
        };
        if self.eat_id("is") {
            loop {
                let n = self.path()?;
                let mut a = vec![];
                if self.eat("(") {
                    while !self.is(")") {
                        a.push(self.ex()?);
                        if !self.eat(",") {
                            break;
                        }
                    }
                    self.need(")")?;
                }
                c.bases.push((n.last().unwrap().clone(), a));
                if !self.eat(",") {
                    break;
                }
            }
        }
        self.need("{")?;
        while !self.eat("}") {
            let w = match self.peek().clone() {
                T::Id(s) => s,
                _ => return self.err("declaration"),
            };
            match w.as_str() {
                "using" => {
                    self.next();
                    let l = self.path()?;
                    if !self.eat_id("for") {
                        return self.err("for");
                    }
                    let t = if self.eat("*") { None } else { Some(self.ty()?) };
                    self.need(";")?;
                    c.usings.push((l.last().unwrap().clone(), t));
                }
                "struct" => {
                    let x = self.strukt()?;
                    c.structs.push(x);
                }
                "enum" => {
                    self.next();
                    let n = self.id()?;
                    self.need("{")?;
                    let mut v = vec![];
                    while !self.is("}") {
                        v.push(self.id()?);
                        if !self.eat(",") {
                            break;
                        }
                    }
                    self.need("}")?;
                    c.enums.push((n, v));
                }
                "event" => {
                    self.next();
                    let n = self.id()?;
                    self.params()?;
                    self.eat_id("anonymous");
                    self.need(";")?;
                    c.events.push(n);
                }
                "modifier" => {
                    self.next();
                    let n = self.id()?;
                    let params = if self.is("(") { self.params()? } else { vec![] };
                    let f = self.fun_tail(n, params, &name)?;
                    c.mods.push(Arc::new(f));
                }
                "function" => {
                    self.next();
                    let n = self.id()?;
                    let params = self.params()?;
                    let f = self.fun_tail(n, params, &name)?;
                    c.funs.push(Arc::new(f));
                }
                "constructor" => {
                    self.next();
                    let params = self.params()?;
                    let f = self.fun_tail("constructor".into(), params, &name)?;
                    c.funs.push(Arc::new(f));
                }
                "fallback" | "receive" if *self.peek2() == T::P("(") => {
                    self.next();
                    let params = self.params()?;
                    let f = self.fun_tail(w, params, &name)?;
                    c.funs.push(Arc::new(f));
                }
                _ => {
                    let ty = self.ty()?;
                    let mut words = vec![];
                    loop {
                        match self.peek().clone() {
                            T::Id(s)
                                if [
                                    "public", "private", "internal", "constant", "immutable", "override", "external",
                                ]
                                .contains(&s.as_str()) =>
                            {
                                self.next();
                                if s == "override" && self.is("(") {
                                    self.skip_parens()?;
                                }
                                words.push(s);
                            }
                            _ => break,
                        }
                    }
                    let n = self.id()?;
                    let init = if self.eat("=") { Some(self.ex()?) } else { None };
                    self.need(";")?;
                    c.state.push(State {
                        ty,
                        name: n,
                        words,
                        init,
                    });
                }
            }
        }
        Ok(c)
    }

    fn skip_parens(&mut self) -> R<()> {
        self.need("(")?;
        let mut d = 1;
        while d > 0 {
            if self.is("(") {
                d += 1;
            }
            if self.is(")") {
                d -= 1;
            }
            if *self.peek() == T::End {
                return self.err(")");
            }
            self.next();
        }
        Ok(())
    }

    fn fun_tail(&mut self, name: String, params: Vec<Var>, contract: &str) -> R<Fun> {
        let mut f = Fun {
            name,
            params,
            rets: vec![],
            mods: vec![],
            body: None,
            words: vec![],
            contract: contract.into(),
        };
        loop {
            match self.peek().clone() {
                T::Id(s) => match s.as_str() {
                    "public" | "private" | "internal" | "external" | "pure" | "view" | "payable" | "virtual"
                    | "constant" => {
                        self.next();
                        f.words.push(s);
                    }
                    "override" => {
                        self.next();
                        if self.is("(") {
                            self.skip_parens()?;
                        }
                    }
                    "returns" => {
                        self.next();
                        f.rets = self.params()?;
                    }
                    _ => {
                        let n = self.path()?;
                        let a = if self.eat("(") {
                            let mut v = vec![];
                            while !self.is(")") {
                                v.push(self.ex()?);
                                if !self.eat(",") {
                                    break;
                                }
                            }
                            self.need(")")?;
                            Some(v)
                        } else {
                            None
                        };
                        f.mods.push((n, a));
                    }
                },
                T::P("{") => {
                    f.body = Some(self.block()?);
                    return Ok(f);
                }
                T::P(";") => {
                    self.next();
                    return Ok(f);
                }
                _ => return self.err("function body"),
            }
        }
    }

    fn block(&mut self) -> R<Vec<St>> {
        self.need("{")?;
        let mut v = vec![];
        while !self.eat("}") {
            v.push(self.st()?);
        }
        Ok(v)
    }

    /// A declared variable, if that is what comes
    fn var(&mut self) -> Option<Var> {
        let at = self.i;
        if let T::Id(s) = self.peek() {
            if ["return", "delete", "new", "if", "for", "while", "emit", "assembly", "true", "false"].contains(&s.as_str())
            {
                return None;
            }
        } else {
            return None;
        }
        if let Ok(ty) = self.ty() {
            let loc = self.loc();
            if let T::Id(_) = self.peek() {
                let name = self.id().ok()?;
                if let T::P("=") | T::P(";") | T::P(",") | T::P(")") = self.peek() {
                    return Some(Var { ty, loc, name });
                }
            }
        }
        self.i = at;
        None
    }

    fn simple(&mut self) -> R<St> {
        if self.is("(") {
            let at = self.i;
            self.next();
            let mut v = vec![];
            let mut any = false;
            let ok = loop {
                if self.is(",") {
                    self.next();
                    v.push(None);
                    continue;
                }
                if self.is(")") {
                    self.next();
                    v.push(None);
                    break true;
                }
                match self.var() {
                    Some(x) => {
                        any = true;
                        v.push(Some(x));
                    }
                    None => break false,
                }
                if self.eat(")") {
                    break true;
                }
                if !self.eat(",") {
                    break false;
                }
            };
            if ok && any && self.eat("=") {
                let e = self.ex()?;
                return Ok(St::Decl(v, Some(e)));
            }
            self.i = at;
        } else if let Some(v) = self.var() {
            let e = if self.eat("=") { Some(self.ex()?) } else { None };
            return Ok(St::Decl(vec![Some(v)], e));
        }
        Ok(St::Ex(self.ex()?))
    }

    fn st(&mut self) -> R<St> {
        match self.peek().clone() {
            T::P("{") => Ok(St::Block(self.block()?)),
            T::Id(s) => match s.as_str() {
                "if" => {
                    self.next();
                    self.need("(")?;
                    let c = self.ex()?;
                    self.need(")")?;
                    let a = self.st()?;
                    let b = if self.eat_id("else") { Some(Box::new(self.st()?)) } else { None };
                    Ok(St::If(c, Box::new(a), b))
                }
                "while" => {
                    self.next();
                    self.need("(")?;
                    let c = self.ex()?;
                    self.need(")")?;
                    Ok(St::While(c, Box::new(self.st()?)))
                }
                "do" => {
                    self.next();
                    let b = self.st()?;
                    if !self.eat_id("while") {
                        return self.err("while");
                    }
                    self.need("(")?;
                    let c = self.ex()?;
                    self.need(")")?;
                    self.need(";")?;
                    Ok(St::DoWhile(Box::new(b), c))
                }
                "for" => {
                    self.next();
                    self.need("(")?;
                    let a = if self.is(";") { None } else { Some(Box::new(self.simple()?)) };
                    self.need(";")?;
                    let c = if self.is(";") { None } else { Some(self.ex()?) };
                    self.need(";")?;
                    let d = if self.is(")") { None } else { Some(self.ex()?) };
                    self.need(")")?;
                    Ok(St::For(a, c, d, Box::new(self.st()?)))
                }
                "return" => {
                    self.next();
                    let e = if self.is(";") { None } else { Some(self.ex()?) };
                    self.need(";")?;
                    Ok(St::Return(e))
                }
                "break" | "continue" => {
                    self.next();
                    self.need(";")?;
                    Ok(if s == "break" { St::Break } else { St::Continue })
                }
                "emit" => {
                    self.next();
                    let e = self.ex()?;
                    self.need(";")?;
                    Ok(St::Emit(e))
                }
                "assembly" => {
                    self.next();
                    if let T::Str(_) = self.peek() {
                        self.next();
                    }
                    Ok(St::Asm(self.yblock()?))
                }
                "_" => {
                    self.next();
                    self.need(";")?;
                    Ok(St::Placeholder)
                }
                _ => {
                    let r = self.simple()?;
                    self.need(";")?;
                    Ok(r)
                }
            },
            _ => {
                let r = self.simple()?;
                self.need(";")?;
                Ok(r)
            }
        }
    }

    fn ex(&mut self) -> R<Ex> {
        let a = self.cond()?;
        for op in &["=", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "<<=", ">>="] {
            if self.is(op) {
                self.next();
                let b = self.ex()?;
                return Ok(Ex::Assign(op, Box::new(a), Box::new(b)));
            }
        }
        Ok(a)
    }

    fn cond(&mut self) -> R<Ex> {
        let c = self.bin(0)?;
        if self.eat("?") {
            let a = self.ex()?;
            self.need(":")?;
            let b = self.ex()?;
            return Ok(Ex::Cond(Box::new(c), Box::new(a), Box::new(b)));
        }
        Ok(c)
    }

    fn bin(&mut self, level: usize) -> R<Ex> {
        const L: &[&[&str]] = &[
            &["||"],
            &["&&"],
            &["==", "!="],
            &["<", ">", "<=", ">="],
            &["|"],
            &["^"],
            &["&"],
            &["<<", ">>"],
            &["+", "-"],
            &["*", "/", "%"],
            &["**"],
        ];
        if level == L.len() {
            return self.unary();
        }
        let mut a = self.bin(level + 1)?;
        loop {
            let op = match self.peek() {
                T::P(p) => match L[level].iter().find(|x| *x == p) {
                    Some(x) => *x,
                    None => return Ok(a),
                },
                _ => return Ok(a),
            };
            self.next();
            let b = self.bin(level + 1)?;
            a = Ex::Bin(op, Box::new(a), Box::new(b));
        }
    }

    fn unary(&mut self) -> R<Ex> {
        for op in &["!", "~", "-", "++", "--", "+"] {
            if self.is(op) {
                self.next();
                return Ok(Ex::Un(op, Box::new(self.unary()?)));
            }
        }
        if self.eat_id("delete") {
            return Ok(Ex::Un("delete", Box::new(self.unary()?)));
        }
        self.postfix()
    }

    fn call_args(&mut self) -> R<Args> {
        self.need("(")?;
        if self.is("{") {
            self.next();
            let mut v = vec![];
            while !self.is("}") {
                let n = self.id()?;
                self.need(":")?;
                v.push((n, self.ex()?));
                if !self.eat(",") {
                    break;
                }
            }
            self.need("}")?;
            self.need(")")?;
            return Ok(Args::Named(v));
        }
        let mut v = vec![];
        while !self.is(")") {
            v.push(self.ex()?);
            if !self.eat(",") {
                break;
            }
        }
        self.need(")")?;
        Ok(Args::Pos(v))
    }

    fn postfix(&mut self) -> R<Ex> {
        let mut e = self.primary()?;
        loop {
            if self.is("[") {
                self.next();
                if self.eat("]") {
                    e = Ex::Index(Box::new(e), None);
                } else {
                    let i = self.ex()?;
                    self.need("]")?;
                    e = Ex::Index(Box::new(e), Some(Box::new(i)));
                }
            } else if self.is(".") {
                self.next();
                e = Ex::Member(Box::new(e), self.id()?);
            } else if self.is("(") {
                let a = self.call_args()?;
                e = Ex::Call(Box::new(e), a);
            } else if self.is("{") && matches!(self.peek2(), T::Id(s) if s == "gas" || s == "value" || s == "salt") {
                // call options, which have no effect here
                self.next();
                while !self.is("}") {
                    self.id()?;
                    self.need(":")?;
                    self.ex()?;
                    if !self.eat(",") {
                        break;
                    }
                }
                self.need("}")?;
            } else if self.is("++") || self.is("--") {
                let op = if self.is("++") { "++" } else { "--" };
                self.next();
                e = Ex::Post(op, Box::new(e));
            } else {
                return Ok(e);
            }
        }
    }

    fn primary(&mut self) -> R<Ex> {
        match self.peek().clone() {
            T::Num(s) => {
                self.next();
                let v = number(&s)?;
                let unit = |n: u64| v.mul(n.into());
                for (u, m) in &[
                    ("wei", 1u64),
                    ("seconds", 1),
                    ("minutes", 60),
                    ("hours", 3600),
                    ("days", 86400),
                    ("weeks", 604800),
                ] {
                    if self.eat_id(u) {
                        return Ok(Ex::Num(unit(*m)));
                    }
                }
                Ok(Ex::Num(v))
            }
            T::Str(_) | T::HexStr(_) => {
                let mut v = vec![];
                while let T::Str(s) | T::HexStr(s) = self.peek().clone() {
                    v.extend(s);
                    self.next();
                }
                Ok(Ex::Str(v))
            }
            T::P("(") => {
                self.next();
                let mut v = vec![];
                loop {
                    if self.is(",") {
                        self.next();
                        v.push(None);
                        continue;
                    }
                    if self.is(")") {
                        self.next();
                        v.push(None);
                        break;
                    }
                    v.push(Some(self.ex()?));
                    if self.eat(")") {
                        break;
                    }
                    self.need(",")?;
                }
                if v.len() == 1 {
                    if let Some(Some(e)) = v.pop() {
                        return Ok(e);
                    }
                    return Ok(Ex::Tuple(vec![]));
                }
                Ok(Ex::Tuple(v))
            }
            T::P("[") => {
                self.next();
                let mut v = vec![];
                while !self.is("]") {
                    v.push(self.ex()?);
                    if !self.eat(",") {
                        break;
                    }
                }
                self.need("]")?;
                Ok(Ex::List(v))
            }
            T::Id(s) => match s.as_str() {
                "true" | "false" => {
                    self.next();
                    Ok(Ex::Bool(s == "true"))
                }
                "new" => {
                    self.next();
                    Ok(Ex::New(self.ty()?))
                }
                "payable" => {
                    self.next();
                    Ok(Ex::Ty(TyN::Elem("address".into())))
                }
                _ if elementary(&s) => {
                    self.next();
                    Ok(Ex::Ty(TyN::Elem(s)))
                }
                _ => {
                    self.next();
                    Ok(Ex::Id(s))
                }
            },
            _ => self.err("expression"),
        }
    }

    // Yul

    fn yblock(&mut self) -> R<Vec<Y>> {
        self.need("{")?;
        let mut v = vec![];
        while !self.eat("}") {
            v.push(self.yst()?);
        }
        Ok(v)
    }

    fn yid(&mut self) -> R<String> {
        let mut s = self.id()?;
        while self.is(".") {
            self.next();
            s.push('.');
            s += &self.id()?;
        }
        Ok(s)
    }

    fn ytyped(&mut self) -> R<String> {
        let s = self.id()?;
        if self.is(":") {
            self.next();
            self.id()?;
        }
        Ok(s)
    }

    fn yst(&mut self) -> R<Y> {
        match self.peek().clone() {
            T::P("{") => Ok(Y::Block(self.yblock()?)),
            T::Id(s) => match s.as_str() {
                "let" => {
                    self.next();
                    let mut v = vec![self.ytyped()?];
                    while self.eat(",") {
                        v.push(self.ytyped()?);
                    }
                    let e = if self.eat(":=") { Some(self.yex()?) } else { None };
                    Ok(Y::Let(v, e))
                }
                "if" => {
                    self.next();
                    let c = self.yex()?;
                    Ok(Y::If(c, self.yblock()?))
                }
                "switch" => {
                    self.next();
                    let e = self.yex()?;
                    let mut cases = vec![];
                    let mut def = None;
                    loop {
                        if self.eat_id("case") {
                            let v = match self.yex()? {
                                YE::Lit(w) => w,
                                _ => return self.err("literal"),
                            };
                            cases.push((v, self.yblock()?));
                        } else if self.eat_id("default") {
                            def = Some(self.yblock()?);
                        } else {
                            break;
                        }
                    }
                    Ok(Y::Switch(e, cases, def))
                }
                "for" => {
                    self.next();
                    let a = self.yblock()?;
                    let c = self.yex()?;
                    let p = self.yblock()?;
                    let b = self.yblock()?;
                    Ok(Y::For(a, c, p, b))
                }
                "break" => {
                    self.next();
                    Ok(Y::Break)
                }
                "continue" => {
                    self.next();
                    Ok(Y::Continue)
                }
                "leave" => {
                    self.next();
                    Ok(Y::Leave)
                }
                "function" => {
                    self.next();
                    let name = self.id()?;
                    self.need("(")?;
                    let mut params = vec![];
                    while !self.is(")") {
                        params.push(self.ytyped()?);
                        if !self.eat(",") {
                            break;
                        }
                    }
                    self.need(")")?;
                    let mut rets = vec![];
                    if self.eat("->") {
                        rets.push(self.ytyped()?);
                        while self.eat(",") {
                            rets.push(self.ytyped()?);
                        }
                    }
                    let body = self.yblock()?;
                    Ok(Y::Fun(Arc::new(YFun {
                        name,
                        params,
                        rets,
                        body,
                    })))
                }
                _ => {
                    let at = self.i;
                    let mut v = vec![self.yid()?];
                    while self.eat(",") {
                        v.push(self.yid()?);
                    }
                    if self.eat(":=") {
                        return Ok(Y::Set(v, self.yex()?));
                    }
                    self.i = at;
                    Ok(Y::Ex(self.yex()?))
                }
            },
            _ => self.err("assembly statement"),
        }
    }

    fn yex(&mut self) -> R<YE> {
        match self.peek().clone() {
            T::Num(s) => {
                self.next();
                Ok(YE::Lit(number(&s)?))
            }
            T::Str(s) | T::HexStr(s) => {
                self.next();
                if s.len() > 32 {
                    return self.err("short string");
                }
                Ok(YE::Lit(W::left(&s)))
            }
            T::Id(s) => {
                if s == "true" || s == "false" {
                    self.next();
                    return Ok(YE::Lit((s == "true").into()));
                }
                let n = self.yid()?;
                if self.eat("(") {
                    let mut v = vec![];
                    while !self.is(")") {
                        v.push(self.yex()?);
                        if !self.eat(",") {
                            break;
                        }
                    }
                    self.need(")")?;
                    return Ok(YE::Call(n, v));
                }
                Ok(YE::Id(n))
            }
            _ => self.err("assembly expression"),
        }
    }
}
