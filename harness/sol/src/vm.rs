//! Execution: memory, calls, encoding.
use crate::ast::{Contract, Ex, Fun};
use crate::comp::*;
use crate::w::W;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::Arc;
use tiny_keccak::{Hasher, Keccak};

#[derive(Clone, Debug, PartialEq)]
pub enum Halt {
    /// reverted, with the message
    Revert(String),
    /// failed assertion, index out of bounds, division by zero
    Invalid(String),
    OutOfGas,
    /// data returned by assembly
    Return(Vec<u8>),
    /// not a behaviour of the code: this interpreter cannot run it
    Unsupported(String),
}

pub type X<T> = Result<T, Halt>;

fn un<T>(r: R<T>) -> X<T> {
    r.map_err(Halt::Unsupported)
}

pub fn keccak(b: &[u8]) -> [u8; 32] {
    let mut k = Keccak::v256();
    k.update(b);
    let mut r = [0; 32];
    k.finalize(&mut r);
    r
}

/// Values at the boundary
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    W(W),
    B(Vec<u8>),
    /// array or struct
    L(Vec<V>),
}

struct Instance {
    contract: String,
    state:    Vec<W>,
}

pub struct Machine {
    pub world: World,
    inst:      RefCell<Vec<Instance>>,
    /// evaluation steps left
    pub steps: RefCell<u64>,
}

const BASE: u64 = 0x1000;
const LIMIT: u64 = 1 << 23;

enum Flow {
    Next,
    Break,
    Continue,
    Return,
}

/// One call: its own memory
struct Vm<'a> {
    m:    &'a Machine,
    mem:  Vec<u8>,
    data: Vec<u8>,
    ret:  Vec<u8>,
    this: u64,
    from: u64,
    depth: u32,
    internal: u32,
}

impl Machine {
    pub fn new(contracts: impl IntoIterator<Item = Arc<Contract>>) -> Machine {
        Machine {
            world: World::new(contracts),
            inst:  RefCell::new(vec![]),
            steps: RefCell::new(u64::max_value()),
        }
    }

    pub fn limit(&self, steps: u64) {
        *self.steps.borrow_mut() = steps;
    }

    fn vm(&self, this: u64, from: u64, data: Vec<u8>, depth: u32) -> Vm<'_> {
        let mut v = Vm {
            m: self,
            mem: vec![0; 0x80],
            data,
            ret: vec![],
            this,
            from,
            depth,
            internal: 0,
        };
        v.mem[0x5f] = 0x80;
        v
    }

    fn arg_types(&self, f: &Fun) -> R<Vec<Ty>> {
        self.world.sig(f)
    }

    /// A new instance of a contract; gives its address
    pub fn deploy(&self, name: &str, args: &[V]) -> X<W> {
        let addr = BASE + self.inst.borrow().len() as u64;
        self.inst.borrow_mut().push(Instance {
            contract: name.into(),
            state:    vec![],
        });
        let mut vm = self.vm(addr, 1, vec![], 0);
        let lin = un(self.world.linear(name))?;
        // values of the arguments of base constructors
        let mut given: Vec<(String, String, Vec<Ex>)> = vec![];
        for c in lin.iter() {
            let con = un(self.world.contract(c))?;
            for (b, a) in &con.bases {
                if !a.is_empty() {
                    given.push((b.clone(), c.clone(), a.clone()));
                }
            }
            for f in con.funs.iter().filter(|f| f.name == "constructor") {
                for (n, a) in &f.mods {
                    if let Some(a) = a {
                        if self.world.contracts.contains_key(n.last().unwrap()) {
                            given.push((n.last().unwrap().clone(), c.clone(), a.clone()));
                        }
                    }
                }
            }
        }
        // most derived first for the arguments, base first for the bodies
        let mut values: Vec<(String, Vec<W>)> = vec![];
        for c in lin.iter() {
            let con = un(self.world.contract(c))?;
            let ctor = con.funs.iter().find(|f| f.name == "constructor").cloned();
            let ctor = match ctor {
                Some(f) => f,
                None => {
                    values.push((c.clone(), vec![]));
                    continue;
                }
            };
            let tys = un(self.arg_types(&ctor))?;
            let mut ws = vec![];
            if c == name {
                if args.len() != tys.len() {
                    return Err(Halt::Unsupported("constructor arguments".into()));
                }
                for (v, t) in args.iter().zip(&tys) {
                    ws.push(vm.put(v, t)?);
                }
            } else if !tys.is_empty() {
                let (_, by, ex) = given
                    .iter()
                    .find(|g| g.0 == *c)
                    .cloned()
                    .ok_or_else(|| Halt::Unsupported(format!("no constructor arguments for {}", c)))?;
                if ex.len() != tys.len() {
                    return Err(Halt::Unsupported("constructor arguments".into()));
                }
                // evaluated as a function of the constructor that gives them
                let bycon = un(self.world.contract(&by))?;
                let byctor = bycon.funs.iter().find(|f| f.name == "constructor");
                let con_vars = un(self.world.contract(c))?;
                let target = con_vars.funs.iter().find(|f| f.name == "constructor").unwrap();
                let f = Fun {
                    name:     "".into(),
                    params:   byctor.map_or(vec![], |f| f.params.clone()),
                    rets:     target
                        .params
                        .iter()
                        .map(|v| crate::ast::Var {
                            name: String::new(),
                            ..v.clone()
                        })
                        .collect(),
                    mods:     vec![],
                    body:     Some(vec![crate::ast::St::Return(Some(if ex.len() == 1 {
                        ex[0].clone()
                    } else {
                        Ex::Tuple(ex.iter().cloned().map(Some).collect())
                    }))]),
                    words:    vec![],
                    contract: by.clone(),
                };
                let ir = un(Comp::new(&self.world, name, &by).function(&Arc::new(f)))?;
                let pv = values.iter().find(|v| v.0 == by).map_or(vec![], |v| v.1.clone());
                ws = vm.run(&ir, pv)?;
            }
            values.push((c.clone(), ws));
        }
        for c in lin.iter().rev() {
            let con = un(self.world.contract(c))?;
            for s in &con.state {
                if s.words.iter().any(|w| w == "constant") {
                    continue;
                }
                if let Some(e) = &s.init {
                    let t = un(self.world.ty(c, &s.ty))?;
                    let k = self.world.state_index(&format!("{}.{}", c, s.name));
                    let i = un(Comp::new(&self.world, name, c).to(e, &t))?;
                    let w = vm.eval(&mut vec![W::ZERO; 64], &i)?;
                    self.set(addr, k, w);
                }
            }
            if let Some(f) = con.funs.iter().find(|f| f.name == "constructor") {
                let id = self.world.fn_id(name, f);
                let ir = un(self.world.func(id))?;
                let ws = values.iter().find(|v| v.0 == *c).unwrap().1.clone();
                vm.run(&ir, ws)?;
            }
        }
        Ok(addr.into())
    }

    fn set(&self, addr: u64, k: u32, w: W) {
        let mut i = self.inst.borrow_mut();
        let s = &mut i[(addr - BASE) as usize].state;
        if s.len() <= k as usize {
            s.resize(k as usize + 1, W::ZERO);
        }
        s[k as usize] = w;
    }

    fn get(&self, addr: u64, k: u32) -> W {
        self.inst.borrow()[(addr - BASE) as usize].state.get(k as usize).cloned().unwrap_or(W::ZERO)
    }

    fn contract_at(&self, addr: W) -> Option<String> {
        let a = addr.small()?;
        let i = self.inst.borrow();
        if a < BASE || a >= BASE + i.len() as u64 {
            return None;
        }
        Some(i[(a - BASE) as usize].contract.clone())
    }

    /// Calls a public function of a contract, arguments through the encoding
    pub fn call(&self, addr: W, name: &str, args: &[V]) -> X<Vec<V>> {
        let c = self.contract_at(addr).ok_or_else(|| Halt::Unsupported("no contract there".into()))?;
        let fs = un(self.world.functions(&c, name, 0))?;
        let (f, tys) = fs
            .into_iter()
            .find(|f| f.1.len() == args.len())
            .ok_or_else(|| Halt::Unsupported(format!("no function {}.{}/{}", c, name, args.len())))?;
        let mut tmp = self.vm(1, 1, vec![], 0);
        let mut ws = vec![];
        for (v, t) in args.iter().zip(&tys) {
            ws.push(tmp.put(v, t)?);
        }
        let mut enc = vec![];
        tmp.encode(&ws, &tys, &mut enc)?;
        let out = self.run_fn(addr.small().unwrap(), 1, &c, &f, &tys, &enc, 0)?;
        let rets = un(f.rets.iter().map(|v| self.world.ty(&f.contract, &v.ty)).collect::<R<Vec<_>>>())?;
        let ws = tmp.decode(&out, &rets)?;
        let mut r = vec![];
        for (w, t) in ws.iter().zip(&rets) {
            r.push(tmp.take(*w, t)?);
        }
        Ok(r)
    }

    /// Calls a contract with plain data
    pub fn raw(&self, addr: W, data: Vec<u8>) -> X<Vec<u8>> {
        self.raw_from(addr, data, 1, 0)
    }

    fn raw_from(&self, addr: W, data: Vec<u8>, from: u64, depth: u32) -> X<Vec<u8>> {
        let c = match self.contract_at(addr) {
            Some(c) => c,
            None => return Ok(vec![]),
        };
        let fs = un(self.world.functions(&c, "fallback", 0))?;
        let f = match fs.first() {
            Some(f) => f.0.clone(),
            None => return Err(Halt::Unsupported("plain call of a contract without a fallback function".into())),
        };
        let id = self.world.fn_id(&c, &f);
        let ir = un(self.world.func(id))?;
        let mut vm = self.vm(addr.small().unwrap(), from, data, depth + 1);
        match vm.run(&ir, vec![]) {
            Ok(_) => Ok(vec![]),
            Err(Halt::Return(b)) => Ok(b),
            Err(e) => Err(e),
        }
    }

    fn run_fn(&self, addr: u64, from: u64, derived: &str, f: &Arc<Fun>, tys: &[Ty], enc: &[u8], depth: u32) -> X<Vec<u8>> {
        if depth > 64 {
            return Err(Halt::OutOfGas);
        }
        if !f.words.iter().any(|w| w == "public" || w == "external") {
            return Err(Halt::Unsupported(format!("{} is not public", f.name)));
        }
        let id = self.world.fn_id(derived, f);
        let ir = un(self.world.func(id))?;
        let mut data = vec![0; 4];
        data.extend(enc);
        let mut vm = self.vm(addr, from, data, depth + 1);
        let args = vm.decode(enc, tys)?;
        match vm.run(&ir, args) {
            Ok(ws) => {
                let mut out = vec![];
                vm.encode(&ws, &ir.rets, &mut out)?;
                Ok(out)
            }
            Err(Halt::Return(b)) => Ok(b),
            Err(e) => Err(e),
        }
    }
}

impl<'a> Vm<'a> {
    fn tick(&self) -> X<()> {
        let mut s = self.m.steps.borrow_mut();
        if *s == 0 {
            return Err(Halt::OutOfGas);
        }
        *s -= 1;
        Ok(())
    }

    fn room(&mut self, at: W, len: W) -> X<usize> {
        if len.is_zero() {
            return Ok(0);
        }
        match (at.small(), len.small()) {
            (Some(a), Some(l)) if a < LIMIT && l < LIMIT => {
                let end = ((a + l) as usize + 31) / 32 * 32;
                if self.mem.len() < end {
                    self.mem.resize(end, 0);
                }
                Ok(a as usize)
            }
            _ => Err(Halt::OutOfGas),
        }
    }

    fn mload(&mut self, at: W) -> X<W> {
        let a = self.room(at, 32u64.into())?;
        Ok(W::from_be(&self.mem[a..a + 32]))
    }

    fn mstore(&mut self, at: W, v: W) -> X<()> {
        let a = self.room(at, 32u64.into())?;
        self.mem[a..a + 32].copy_from_slice(&v.to_be());
        Ok(())
    }

    fn bytes(&mut self, at: W, len: W) -> X<Vec<u8>> {
        let a = self.room(at, len)?;
        let l = len.small().unwrap() as usize;
        Ok(self.mem[a..a + l].to_vec())
    }

    fn write(&mut self, at: W, b: &[u8]) -> X<()> {
        let a = self.room(at, b.len().into())?;
        self.mem[a..a + b.len()].copy_from_slice(b);
        Ok(())
    }

    /// Memory from the free pointer
    fn alloc(&mut self, words: u64) -> X<W> {
        let p = self.mload(0x40u64.into())?;
        if words > LIMIT / 32 {
            return Err(Halt::OutOfGas);
        }
        let e = p.add((32 * words).into());
        if e.small().map_or(true, |x| x > LIMIT) {
            return Err(Halt::OutOfGas);
        }
        self.mstore(0x40u64.into(), e)?;
        Ok(p)
    }

    fn alloc_bytes(&mut self, b: &[u8]) -> X<W> {
        let p = self.alloc(1 + (b.len() as u64 + 31) / 32)?;
        self.mstore(p, b.len().into())?;
        let mut v = b.to_vec();
        v.resize((b.len() + 31) / 32 * 32, 0);
        self.write(p.add(32u64.into()), &v)?;
        Ok(p)
    }

    fn get_bytes(&mut self, p: W) -> X<Vec<u8>> {
        let l = self.mload(p)?;
        self.bytes(p.add(32u64.into()), l)
    }

    fn zero(&mut self, t: &Ty) -> X<W> {
        Ok(match t {
            Ty::Bytes | Ty::Str | Ty::Arr(_, None) => 0x60u64.into(),
            Ty::Arr(e, Some(n)) => {
                let p = self.alloc(*n)?;
                for i in 0..*n {
                    let z = self.zero(e)?;
                    self.mstore(p.add((32 * i).into()), z)?;
                }
                p
            }
            Ty::Struct(s) => {
                let p = self.alloc(s.fields.len() as u64)?;
                for (i, f) in s.fields.iter().enumerate() {
                    let z = self.zero(&f.1)?;
                    self.mstore(p.add((32 * i).into()), z)?;
                }
                p
            }
            _ => W::ZERO,
        })
    }

    fn new_array(&mut self, n: W, e: &Ty) -> X<W> {
        let k = n.small().filter(|k| *k < LIMIT / 32).ok_or(Halt::OutOfGas)?;
        if *e == Ty::BytesN(1) {
            return self.alloc_bytes(&vec![0; k as usize]);
        }
        let p = self.alloc(k + 1)?;
        self.mstore(p, n)?;
        for i in 0..k {
            let z = self.zero(e)?;
            self.mstore(p.add((32 * (i + 1)).into()), z)?;
        }
        Ok(p)
    }

    // Values from and to the outside

    fn put(&mut self, v: &V, t: &Ty) -> X<W> {
        let bad = || Halt::Unsupported(format!("value for {}", t.name()));
        Ok(match (t, v) {
            (Ty::Bytes, V::B(b)) | (Ty::Str, V::B(b)) => self.alloc_bytes(b)?,
            (Ty::Arr(e, None), V::L(l)) => {
                let p = self.alloc(l.len() as u64 + 1)?;
                self.mstore(p, l.len().into())?;
                for (i, x) in l.iter().enumerate() {
                    let w = self.put(x, e)?;
                    self.mstore(p.add((32 * (i + 1)).into()), w)?;
                }
                p
            }
            (Ty::Arr(e, Some(n)), V::L(l)) if l.len() as u64 == *n => {
                let p = self.alloc(*n)?;
                for (i, x) in l.iter().enumerate() {
                    let w = self.put(x, e)?;
                    self.mstore(p.add((32 * i).into()), w)?;
                }
                p
            }
            (Ty::Struct(s), V::L(l)) if l.len() == s.fields.len() => {
                let p = self.alloc(l.len() as u64)?;
                for (i, x) in l.iter().enumerate() {
                    let w = self.put(x, &s.fields[i].1)?;
                    self.mstore(p.add((32 * i).into()), w)?;
                }
                p
            }
            (t, V::W(w)) if !t.reference() => *w,
            (Ty::BytesN(n), V::B(b)) if b.len() == *n as usize => W::left(b),
            _ => return Err(bad()),
        })
    }

    fn take(&mut self, w: W, t: &Ty) -> X<V> {
        Ok(match t {
            Ty::Bytes | Ty::Str => V::B(self.get_bytes(w)?),
            Ty::Arr(e, n) => {
                let (k, off) = match n {
                    None => (self.mload(w)?.small().filter(|k| *k < LIMIT / 32).ok_or(Halt::OutOfGas)?, 1),
                    Some(n) => (*n, 0),
                };
                let mut v = vec![];
                for i in 0..k {
                    let x = self.mload(w.add((32 * (i + off)).into()))?;
                    v.push(self.take(x, e)?);
                }
                V::L(v)
            }
            Ty::Struct(s) => {
                let mut v = vec![];
                for (i, f) in s.fields.iter().enumerate() {
                    let x = self.mload(w.add((32 * i).into()))?;
                    v.push(self.take(x, &f.1)?);
                }
                V::L(v)
            }
            t => V::W(t.clean().apply(w)),
        })
    }

    // Encoding of arguments

    fn dynamic(t: &Ty) -> bool {
        match t {
            Ty::Bytes | Ty::Str | Ty::Arr(_, None) => true,
            Ty::Arr(e, Some(_)) => Self::dynamic(e),
            Ty::Struct(s) => s.fields.iter().any(|f| Self::dynamic(&f.1)),
            _ => false,
        }
    }

    fn head(t: &Ty) -> usize {
        if Self::dynamic(t) {
            return 32;
        }
        match t {
            Ty::Arr(e, Some(n)) => Self::head(e) * *n as usize,
            Ty::Struct(s) => s.fields.iter().map(|f| Self::head(&f.1)).sum(),
            _ => 32,
        }
    }

    fn encode(&mut self, ws: &[W], ts: &[Ty], out: &mut Vec<u8>) -> X<()> {
        let mut head = vec![];
        let mut tail = vec![];
        let hl: usize = ts.iter().map(Self::head).sum();
        for (w, t) in ws.iter().zip(ts) {
            if Self::dynamic(t) {
                head.extend(&W::from(hl + tail.len()).to_be());
                self.encode1(*w, t, &mut tail)?;
            } else {
                self.encode1(*w, t, &mut head)?;
            }
        }
        out.extend(head);
        out.extend(tail);
        Ok(())
    }

    fn encode1(&mut self, w: W, t: &Ty, out: &mut Vec<u8>) -> X<()> {
        match t {
            Ty::Bytes | Ty::Str => {
                let b = self.get_bytes(w)?;
                out.extend(&W::from(b.len()).to_be());
                out.extend(&b);
                let pad = (32 - b.len() % 32) % 32;
                out.extend(vec![0; pad]);
                Ok(())
            }
            Ty::Arr(e, n) => {
                let (k, off) = match n {
                    None => {
                        let k = self.mload(w)?.small().filter(|k| *k < LIMIT / 32).ok_or(Halt::OutOfGas)?;
                        out.extend(&W::from(k).to_be());
                        (k, 1)
                    }
                    Some(n) => (*n, 0),
                };
                let mut ws = vec![];
                for i in 0..k {
                    ws.push(self.mload(w.add((32 * (i + off)).into()))?);
                }
                let ts = vec![(**e).clone(); k as usize];
                self.encode(&ws, &ts, out)
            }
            Ty::Struct(s) => {
                let mut ws = vec![];
                let mut ts = vec![];
                for (i, f) in s.fields.iter().enumerate() {
                    ws.push(self.mload(w.add((32 * i).into()))?);
                    ts.push(f.1.clone());
                }
                self.encode(&ws, &ts, out)
            }
            t => {
                out.extend(&t.clean().apply(w).to_be());
                Ok(())
            }
        }
    }

    fn word_at(b: &[u8], at: usize) -> X<W> {
        if at.checked_add(32).map_or(true, |e| e > b.len()) {
            return Err(Halt::Revert("encoding too short".into()));
        }
        Ok(W::from_be(&b[at..at + 32]))
    }

    fn decode(&mut self, b: &[u8], ts: &[Ty]) -> X<Vec<W>> {
        self.decode_at(b, 0, ts)
    }

    fn decode_at(&mut self, b: &[u8], base: usize, ts: &[Ty]) -> X<Vec<W>> {
        let mut at = base;
        let mut r = vec![];
        for t in ts {
            if Self::dynamic(t) {
                let o = Self::word_at(b, at)?;
                let o = o.small().filter(|o| *o < LIMIT).ok_or_else(|| Halt::Revert("offset".into()))? as usize;
                r.push(self.decode1(b, base + o, t)?);
            } else {
                r.push(self.decode1(b, at, t)?);
            }
            at += Self::head(t);
        }
        Ok(r)
    }

    fn decode1(&mut self, b: &[u8], at: usize, t: &Ty) -> X<W> {
        match t {
            Ty::Bytes | Ty::Str => {
                let l = Self::word_at(b, at)?;
                let l = l.small().filter(|l| *l < LIMIT).ok_or_else(|| Halt::Revert("length".into()))? as usize;
                if at + 32 + l > b.len() {
                    return Err(Halt::Revert("encoding too short".into()));
                }
                self.alloc_bytes(&b[at + 32..at + 32 + l])
            }
            Ty::Arr(e, n) => {
                let (k, start) = match n {
                    None => {
                        let l = Self::word_at(b, at)?;
                        let l = l.small().filter(|l| *l < LIMIT / 32).ok_or_else(|| Halt::Revert("length".into()))?;
                        if 32 * l as usize > b.len() {
                            return Err(Halt::Revert("encoding too short".into()));
                        }
                        (l, at + 32)
                    }
                    Some(n) => (*n, at),
                };
                let off = if n.is_none() { 1 } else { 0 };
                let p = self.alloc(k + off)?;
                if off == 1 {
                    self.mstore(p, k.into())?;
                }
                let ts = vec![(**e).clone(); k as usize];
                let ws = self.decode_at(b, start, &ts)?;
                for (i, w) in ws.iter().enumerate() {
                    self.mstore(p.add((32 * (i as u64 + off)).into()), *w)?;
                }
                Ok(p)
            }
            Ty::Struct(s) => {
                let p = self.alloc(s.fields.len() as u64)?;
                let ts: Vec<Ty> = s.fields.iter().map(|f| f.1.clone()).collect();
                let ws = self.decode_at(b, at, &ts)?;
                for (i, w) in ws.iter().enumerate() {
                    self.mstore(p.add((32 * i).into()), *w)?;
                }
                Ok(p)
            }
            t => {
                let w = Self::word_at(b, at)?;
                if t.clean().apply(w) != w {
                    return Err(Halt::Revert("value out of range".into()));
                }
                Ok(w)
            }
        }
    }

    fn packed(&mut self, w: W, t: &Ty, out: &mut Vec<u8>) -> X<()> {
        match t {
            Ty::Uint(b) | Ty::Int(b) => out.extend(&w.to_be()[32 - *b as usize / 8..]),
            Ty::BytesN(n) => out.extend(&w.to_be()[..*n as usize]),
            Ty::Bool | Ty::Enum(..) => out.push(w.to_be()[31]),
            Ty::Addr | Ty::Contract(_) => out.extend(&w.to_be()[12..]),
            Ty::Bytes | Ty::Str => out.extend(self.get_bytes(w)?),
            Ty::Arr(e, _) if !e.reference() => {
                let mut b = vec![];
                self.encode1(w, t, &mut b)?;
                if let Ty::Arr(_, None) = t {
                    b.drain(..32);
                }
                out.extend(b);
            }
            t => return Err(Halt::Unsupported(format!("packed encoding of {}", t.name()))),
        }
        Ok(())
    }

    // Code

    fn run(&mut self, f: &FnIR, args: Vec<W>) -> X<Vec<W>> {
        if self.internal > 200 {
            return Err(Halt::OutOfGas);
        }
        self.internal += 1;
        let mut fr = args;
        fr.resize(f.slots as usize, W::ZERO);
        for s in &f.body {
            if let Flow::Return = self.exec(&mut fr, s)? {
                break;
            }
        }
        self.internal -= 1;
        let r0 = f.ret0 as usize;
        Ok(fr[r0..r0 + f.rets.len()].to_vec())
    }

    fn block(&mut self, fr: &mut Vec<W>, b: &[S]) -> X<Flow> {
        for s in b {
            match self.exec(fr, s)? {
                Flow::Next => {}
                f => return Ok(f),
            }
        }
        Ok(Flow::Next)
    }

    fn exec(&mut self, fr: &mut Vec<W>, s: &S) -> X<Flow> {
        self.tick()?;
        match s {
            S::Block(b) => self.block(fr, b),
            S::Ex(e) => {
                self.many(fr, e)?;
                Ok(Flow::Next)
            }
            S::If(c, a, b) => {
                if !self.eval(fr, c)?.is_zero() {
                    self.exec(fr, a)
                } else if let Some(b) = b {
                    self.exec(fr, b)
                } else {
                    Ok(Flow::Next)
                }
            }
            S::While(c, b) => {
                while !self.eval(fr, c)?.is_zero() {
                    self.tick()?;
                    match self.exec(fr, b)? {
                        Flow::Break => break,
                        Flow::Return => return Ok(Flow::Return),
                        _ => {}
                    }
                }
                Ok(Flow::Next)
            }
            S::DoWhile(b, c) => {
                loop {
                    self.tick()?;
                    match self.exec(fr, b)? {
                        Flow::Break => break,
                        Flow::Return => return Ok(Flow::Return),
                        _ => {}
                    }
                    if self.eval(fr, c)?.is_zero() {
                        break;
                    }
                }
                Ok(Flow::Next)
            }
            S::For(a, c, d, b) => {
                if let Some(a) = a {
                    self.exec(fr, a)?;
                }
                loop {
                    self.tick()?;
                    if let Some(c) = c {
                        if self.eval(fr, c)?.is_zero() {
                            break;
                        }
                    }
                    match self.exec(fr, b)? {
                        Flow::Break => break,
                        Flow::Return => return Ok(Flow::Return),
                        _ => {}
                    }
                    if let Some(d) = d {
                        self.many(fr, d)?;
                    }
                }
                Ok(Flow::Next)
            }
            S::Return => Ok(Flow::Return),
            S::Break => Ok(Flow::Break),
            S::Continue => Ok(Flow::Continue),
            S::Inner(b) => {
                self.block(fr, b)?;
                Ok(Flow::Next)
            }
            S::Asm(b) => {
                self.yblock(fr, b)?;
                Ok(Flow::Next)
            }
        }
    }

    /// Evaluates an expression of any number of values
    fn many(&mut self, fr: &mut Vec<W>, e: &I) -> X<Vec<W>> {
        match e {
            I::Tuple(v) => v.iter().map(|x| self.eval(fr, x)).collect(),
            I::Call(id, args) => {
                let mut a = Vec::with_capacity(args.len());
                for x in args {
                    a.push(self.eval(fr, x)?);
                }
                let ir = un(self.m.world.func(*id))?;
                self.run(&ir, a)
            }
            I::CallX { addr, name, args, rets } => {
                let to = self.eval(fr, addr)?;
                let mut ws = vec![];
                let mut ts = vec![];
                for (x, t) in args {
                    ws.push(self.eval(fr, x)?);
                    ts.push(t.clone());
                }
                let mut enc = vec![];
                self.encode(&ws, &ts, &mut enc)?;
                let c = match self.m.contract_at(to) {
                    Some(c) => c,
                    None => return Err(Halt::Revert("call of an address without code".into())),
                };
                let fs = un(self.m.world.functions(&c, name, 0))?;
                let same = |a: &[Ty], b: &[Ty]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.name() == y.name());
                let (f, tys) = match fs.into_iter().find(|f| same(&f.1, &ts)) {
                    Some(f) => f,
                    None => return Err(Halt::Revert(format!("no function {} in {}", name, c))),
                };
                let out = self.m.run_fn(to.small().unwrap(), self.this, &c, &f, &tys, &enc, self.depth)?;
                let r = self.decode(&out, rets)?;
                self.ret = out;
                Ok(r)
            }
            I::Decode(b, ts) => {
                let p = self.eval(fr, b)?;
                let b = self.get_bytes(p)?;
                self.decode(&b, ts)
            }
            I::Require(..) | I::Assert(_) | I::ToLocals(..) => {
                self.eval(fr, e)?;
                Ok(vec![])
            }
            I::Seq(v) => {
                let (last, init) = v.split_last().unwrap();
                for x in init {
                    self.many(fr, x)?;
                }
                self.many(fr, last)
            }
            e => Ok(vec![self.eval(fr, e)?]),
        }
    }

    fn eval(&mut self, fr: &mut Vec<W>, e: &I) -> X<W> {
        self.tick()?;
        Ok(match e {
            I::Const(w) => *w,
            I::Local(s) => fr[*s as usize],
            I::SetLocal(s, x) => {
                let v = self.eval(fr, x)?;
                fr[*s as usize] = v;
                v
            }
            I::MLoad(a, c) => {
                let a = self.eval(fr, a)?;
                c.apply(self.mload(a)?)
            }
            I::MStore(a, v) => {
                let a = self.eval(fr, a)?;
                let v = self.eval(fr, v)?;
                self.mstore(a, v)?;
                v
            }
            I::MStore8(a, v) => {
                let a = self.eval(fr, a)?;
                let v = self.eval(fr, v)?;
                // bytes1 is left aligned
                let b = [v.to_be()[0]];
                self.write(a, &b)?;
                v
            }
            I::SLoad(k) => self.m.get(self.this, *k),
            I::SStore(k, v) => {
                let v = self.eval(fr, v)?;
                self.m.set(self.this, *k, v);
                v
            }
            I::Index(a, i, n) => {
                let a = self.eval(fr, a)?;
                let i = self.eval(fr, i)?;
                let (len, off) = match n {
                    Some(n) => ((*n).into(), 0u64),
                    None => (self.mload(a)?, 32),
                };
                if i >= len {
                    return Err(Halt::Invalid("index out of bounds".into()));
                }
                a.add(off.into()).add(i.shl(5u64.into()))
            }
            I::ByteAddr(a, i) => {
                let a = self.eval(fr, a)?;
                let i = self.eval(fr, i)?;
                if i >= self.mload(a)? {
                    return Err(Halt::Invalid("index out of bounds".into()));
                }
                a.add(32u64.into()).add(i)
            }
            I::LoadByte(a) => {
                let a = self.eval(fr, a)?;
                let b = self.bytes(a, 1u64.into())?;
                W::left(&b)
            }
            I::Bin(op, a, b) => {
                let x = self.eval(fr, a)?;
                let y = self.eval(fr, b)?;
                match apply(*op, x, y) {
                    Some(r) => r,
                    None => return Err(Halt::Invalid("division by zero".into())),
                }
            }
            I::Clean(c, a) => c.apply(self.eval(fr, a)?),
            I::Not(a) => self.eval(fr, a)?.is_zero().into(),
            I::BitNot(a) => self.eval(fr, a)?.not(),
            I::Cond(c, a, b) => {
                if !self.eval(fr, c)?.is_zero() {
                    self.eval(fr, a)?
                } else {
                    self.eval(fr, b)?
                }
            }
            I::AndAnd(a, b) => {
                if self.eval(fr, a)?.is_zero() {
                    W::ZERO
                } else {
                    self.eval(fr, b)?
                }
            }
            I::OrOr(a, b) => {
                if self.eval(fr, a)?.is_zero() {
                    self.eval(fr, b)?
                } else {
                    W::ONE
                }
            }
            I::ToLocals(x, base, n) => {
                let v = self.many(fr, x)?;
                if v.len() != *n as usize {
                    return Err(Halt::Unsupported("number of values".into()));
                }
                fr[*base as usize..(*base + *n) as usize].copy_from_slice(&v);
                W::ZERO
            }
            I::NewArr(n, t) => {
                let n = self.eval(fr, n)?;
                self.new_array(n, t)?
            }
            I::Zero(t) => self.zero(t)?,
            I::Words(v) => {
                let mut ws = vec![];
                for x in v {
                    ws.push(self.eval(fr, x)?);
                }
                let p = self.alloc(ws.len() as u64)?;
                for (i, w) in ws.iter().enumerate() {
                    self.mstore(p.add((32 * i).into()), *w)?;
                }
                p
            }
            I::BytesLit(b) => self.alloc_bytes(b)?,
            I::Packed(v) => {
                let mut out = vec![];
                for (x, t) in v {
                    let w = self.eval(fr, x)?;
                    self.packed(w, t, &mut out)?;
                }
                self.alloc_bytes(&out)?
            }
            I::Encode(v) => {
                let mut ws = vec![];
                let mut ts = vec![];
                for (x, t) in v {
                    ws.push(self.eval(fr, x)?);
                    ts.push(t.clone());
                }
                let mut out = vec![];
                self.encode(&ws, &ts, &mut out)?;
                self.alloc_bytes(&out)?
            }
            I::Keccak(x) => {
                let p = self.eval(fr, x)?;
                let b = self.get_bytes(p)?;
                W::from_be(&keccak(&b))
            }
            I::AddMod(a, b, c) | I::MulMod(a, b, c) => {
                let x = self.eval(fr, a)?;
                let y = self.eval(fr, b)?;
                let z = self.eval(fr, c)?;
                if z.is_zero() {
                    return Err(Halt::Invalid("division by zero".into()));
                }
                if let I::AddMod(..) = e {
                    x.addmod(y, z)
                } else {
                    x.mulmod(y, z)
                }
            }
            I::Gas => 100_000_000u64.into(),
            I::This => self.this.into(),
            I::Sender => self.from.into(),
            I::Require(c, m) => {
                if self.eval(fr, c)?.is_zero() {
                    return Err(Halt::Revert(m.clone()));
                }
                W::ZERO
            }
            I::Assert(c) => {
                if self.eval(fr, c)?.is_zero() {
                    return Err(Halt::Invalid("assertion".into()));
                }
                W::ZERO
            }
            I::EnumCheck(x, n) => {
                let w = self.eval(fr, x)?;
                if w >= (*n).into() {
                    return Err(Halt::Invalid("enum".into()));
                }
                w
            }
            I::Revert(m) => return Err(Halt::Revert(m.clone())),
            I::Seq(v) => {
                let (last, init) = v.split_last().unwrap();
                for x in init {
                    self.many(fr, x)?;
                }
                self.eval(fr, last)?
            }
            I::Call(..) | I::CallX { .. } | I::Decode(..) | I::Tuple(_) => {
                let v = self.many(fr, e)?;
                match v.len() {
                    1 => v[0],
                    n => return Err(Halt::Unsupported(format!("{} values in place of one", n))),
                }
            }
        })
    }

    // Assembly

    fn yblock(&mut self, fr: &mut Vec<W>, b: &[YS]) -> X<Flow> {
        for s in b {
            match self.yexec(fr, s)? {
                Flow::Next => {}
                f => return Ok(f),
            }
        }
        Ok(Flow::Next)
    }

    fn yexec(&mut self, fr: &mut Vec<W>, s: &YS) -> X<Flow> {
        self.tick()?;
        match s {
            YS::Block(b) => self.yblock(fr, b),
            YS::Set(p, e) => {
                if p.len() == 1 {
                    let v = self.yeval(fr, e)?;
                    fr[p[0] as usize] = v;
                } else {
                    let v = self.ymany(fr, e)?;
                    for (s, x) in p.iter().zip(v) {
                        fr[*s as usize] = x;
                    }
                }
                Ok(Flow::Next)
            }
            YS::Zero(p) => {
                for s in p {
                    fr[*s as usize] = W::ZERO;
                }
                Ok(Flow::Next)
            }
            YS::If(c, b) => {
                if !self.yeval(fr, c)?.is_zero() {
                    return self.yblock(fr, b);
                }
                Ok(Flow::Next)
            }
            YS::Switch(e, cs, d) => {
                let v = self.yeval(fr, e)?;
                for (w, b) in cs {
                    if *w == v {
                        return self.yblock(fr, b);
                    }
                }
                match d {
                    Some(d) => self.yblock(fr, d),
                    None => Ok(Flow::Next),
                }
            }
            YS::For(a, c, p, b) => {
                self.yblock(fr, a)?;
                while !self.yeval(fr, c)?.is_zero() {
                    self.tick()?;
                    match self.yblock(fr, b)? {
                        Flow::Break => break,
                        Flow::Return => return Ok(Flow::Return),
                        _ => {}
                    }
                    self.yblock(fr, p)?;
                }
                Ok(Flow::Next)
            }
            YS::Break => Ok(Flow::Break),
            YS::Continue => Ok(Flow::Continue),
            YS::Leave => Ok(Flow::Return),
            YS::Ex(e) => {
                self.ymany(fr, e)?;
                Ok(Flow::Next)
            }
        }
    }

    fn ymany(&mut self, fr: &mut Vec<W>, e: &YI) -> X<Vec<W>> {
        match e {
            YI::Call(f, args) => {
                // arguments are evaluated from the last to the first
                let mut a = vec![W::ZERO; args.len()];
                for (i, x) in args.iter().enumerate().rev() {
                    a[i] = self.yeval(fr, x)?;
                }
                self.ycall(f, a)
            }
            e => Ok(vec![self.yeval(fr, e)?]),
        }
    }

    fn ycall(&mut self, f: &Rc<RefCell<YFn>>, args: Vec<W>) -> X<Vec<W>> {
        if self.internal > 200 {
            return Err(Halt::OutOfGas);
        }
        self.internal += 1;
        let f = f.borrow();
        let mut fr = args;
        fr.resize(f.slots as usize, W::ZERO);
        self.yblock(&mut fr, &f.body)?;
        self.internal -= 1;
        let p = f.params as usize;
        Ok(fr[p..p + f.rets as usize].to_vec())
    }

    fn yeval(&mut self, fr: &mut Vec<W>, e: &YI) -> X<W> {
        self.tick()?;
        match e {
            YI::Const(w) => Ok(*w),
            YI::Local(s) => Ok(fr[*s as usize]),
            YI::Call(..) => {
                let v = self.ymany(fr, e)?;
                Ok(v.first().cloned().unwrap_or(W::ZERO))
            }
            YI::Op(op, args) => {
                let mut a = [W::ZERO; 7];
                for (i, x) in args.iter().enumerate().rev() {
                    a[i] = self.yeval(fr, x)?;
                }
                self.yop(*op, &a)
            }
        }
    }

    fn yop(&mut self, op: YOp, a: &[W; 7]) -> X<W> {
        let (x, y, z) = (a[0], a[1], a[2]);
        Ok(match op {
            YOp::Add => x.add(y),
            YOp::Sub => x.sub(y),
            YOp::Mul => x.mul(y),
            YOp::Div => x.divmod(y).0,
            YOp::SDiv => x.sdivmod(y).0,
            YOp::Mod => x.divmod(y).1,
            YOp::SMod => x.sdivmod(y).1,
            YOp::Exp => x.pow(y),
            YOp::Not => x.not(),
            YOp::Lt => (x < y).into(),
            YOp::Gt => (x > y).into(),
            YOp::SLt => x.slt(y).into(),
            YOp::SGt => y.slt(x).into(),
            YOp::Eq => (x == y).into(),
            YOp::IsZero => x.is_zero().into(),
            YOp::And => x.and(y),
            YOp::Or => x.or(y),
            YOp::Xor => x.xor(y),
            YOp::Byte => match x.small() {
                Some(i) if i < 32 => (y.to_be()[i as usize] as u64).into(),
                _ => W::ZERO,
            },
            YOp::Shl => y.shl(x),
            YOp::Shr => y.shr(x),
            YOp::Sar => y.sar(x),
            YOp::AddMod => x.addmod(y, z),
            YOp::MulMod => x.mulmod(y, z),
            YOp::SignExtend => match x.small() {
                Some(k) if k < 31 => y.sext(8 * (k as u32 + 1)),
                _ => y,
            },
            YOp::Keccak => W::from_be(&keccak(&self.bytes(x, y)?)),
            YOp::Pop => W::ZERO,
            YOp::MLoad => self.mload(x)?,
            YOp::MStore => {
                self.mstore(x, y)?;
                W::ZERO
            }
            YOp::MStore8 => {
                let b = [y.to_be()[31]];
                self.write(x, &b)?;
                W::ZERO
            }
            YOp::MSize => self.mem.len().into(),
            YOp::Gas => 100_000_000u64.into(),
            YOp::Address => self.this.into(),
            YOp::Caller => self.from.into(),
            YOp::CallValue => W::ZERO,
            YOp::CallDataLoad => {
                let mut b = [0; 32];
                if let Some(o) = x.small() {
                    for i in 0..32 {
                        b[i] = o.checked_add(i as u64).and_then(|j| self.data.get(j as usize).cloned()).unwrap_or(0);
                    }
                }
                W::from_be(&b)
            }
            YOp::CallDataSize => self.data.len().into(),
            YOp::CallDataCopy | YOp::ReturnDataCopy => {
                let src = if op == YOp::CallDataCopy { &self.data } else { &self.ret };
                let l = z.small().filter(|l| *l < LIMIT).ok_or(Halt::OutOfGas)? as usize;
                let o = y.small().unwrap_or(u64::max_value());
                if op == YOp::ReturnDataCopy && o.checked_add(l as u64).map_or(true, |e| e > src.len() as u64) {
                    return Err(Halt::Invalid("return data".into()));
                }
                let b: Vec<u8> = (0..l as u64)
                    .map(|i| o.checked_add(i).and_then(|j| src.get(j as usize).cloned()).unwrap_or(0))
                    .collect();
                self.write(x, &b)?;
                W::ZERO
            }
            YOp::CodeSize => 1u64.into(),
            YOp::ReturnDataSize => self.ret.len().into(),
            YOp::Call => self.outside(a[1], a[3], a[4], a[5], a[6])?,
            YOp::StaticCall | YOp::DelegateCall => self.outside(a[1], a[2], a[3], a[4], a[5])?,
            YOp::Return => {
                let b = self.bytes(x, y)?;
                return Err(Halt::Return(b));
            }
            YOp::Revert => {
                let b = self.bytes(x, y)?;
                return Err(Halt::Revert(String::from_utf8_lossy(&b).to_string()));
            }
            YOp::Invalid => return Err(Halt::Invalid("invalid".into())),
            YOp::Stop => return Err(Halt::Return(vec![])),
        })
    }

    fn outside(&mut self, to: W, at: W, len: W, out: W, outlen: W) -> X<W> {
        let data = self.bytes(at, len)?;
        self.room(out, outlen)?;
        let r = match to.small() {
            Some(5) => modexp(&data).ok_or_else(|| Halt::Unsupported("size of a modular power".into())),
            Some(n) if n < 10 => return Err(Halt::Unsupported(format!("precompiled contract {}", n))),
            _ => self.m.raw_from(to, data, self.this, self.depth),
        };
        match r {
            Ok(b) => {
                let k = b.len().min(outlen.small().unwrap_or(0) as usize);
                self.write(out, &b[..k])?;
                self.ret = b;
                Ok(W::ONE)
            }
            Err(Halt::Unsupported(e)) => Err(Halt::Unsupported(e)),
            Err(_) => {
                self.ret = vec![];
                Ok(W::ZERO)
            }
        }
    }
}

fn modexp(d: &[u8]) -> Option<Vec<u8>> {
    let word = |i: usize| {
        let mut b = [0; 32];
        for k in 0..32 {
            b[k] = d.get(i + k).cloned().unwrap_or(0);
        }
        W::from_be(&b)
    };
    let l = W::from(32u64);
    if word(0) != l || word(32) != l || word(64) != l {
        return None;
    }
    let (b, e, m) = (word(96), word(128), word(160));
    let r = if m.is_zero() { W::ZERO } else { b.powmod(e, m) };
    Some(r.to_be().to_vec())
}

