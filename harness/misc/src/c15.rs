//! C15: file-backed vectors against ordinary vectors, with element accounting.
use std::{cell::RefCell, collections::HashMap, fmt::Debug};
use vpbt::{ensure, ensure_eq, fail, no_panic, CaseResult, Facet, Gen, Property};
use zkp_mmap_vec::MmapVec;

#[derive(Default)]
struct Registry {
    next:        u64,
    /// id -> number of drops
    drops:       HashMap<u64, u32>,
    bogus:       u64,
    /// clone panics when this reaches zero
    fuse:        Option<u64>,
    /// drop panics when this reaches zero
    drop_fuse:   Option<u64>,
    zst_created: i64,
    zst_dropped: i64,
}
thread_local! {
    static REG: RefCell<Registry> = RefCell::new(Registry::default());
}

/// Element with drop glue. A zeroed one has id 0, which is never issued.
#[derive(Debug)]
struct Tracked {
    id:    u64,
    value: u64,
}

impl Tracked {
    fn new(value: u64) -> Self {
        REG.with(|r| {
            let mut r = r.borrow_mut();
            r.next += 1;
            let id = r.next;
            let _ = r.drops.insert(id, 0);
            Tracked { id, value }
        })
    }
}

impl Clone for Tracked {
    fn clone(&self) -> Self {
        let burn = REG.with(|r| {
            let mut r = r.borrow_mut();
            match r.fuse.as_mut() {
                Some(0) => {
                    r.fuse = None;
                    true
                }
                Some(n) => {
                    *n -= 1;
                    false
                }
                None => false,
            }
        });
        if burn {
            panic!("injected: clone fails");
        }
        Tracked::new(self.value)
    }
}

impl Drop for Tracked {
    fn drop(&mut self) {
        let burn = REG.with(|r| {
            let mut r = r.borrow_mut();
            let known = match r.drops.get_mut(&self.id) {
                Some(n) => {
                    *n += 1;
                    true
                }
                None => false,
            };
            if !known {
                r.bogus += 1;
            }
            match r.drop_fuse.as_mut() {
                Some(0) => {
                    r.drop_fuse = None;
                    true
                }
                Some(n) => {
                    *n -= 1;
                    false
                }
                None => false,
            }
        });
        if burn {
            panic!("injected: drop fails");
        }
    }
}

#[derive(Debug)]
struct Zst;
impl Zst {
    fn make() -> Self {
        REG.with(|r| r.borrow_mut().zst_created += 1);
        Zst
    }
}
impl Clone for Zst {
    fn clone(&self) -> Self {
        Zst::make()
    }
}
impl Drop for Zst {
    fn drop(&mut self) {
        REG.with(|r| r.borrow_mut().zst_dropped += 1);
    }
}

trait Elem: Clone + Debug {
    const TRACKED: bool = false;
    const ZST: bool = false;
    fn make(v: u64) -> Self;
    fn value(&self) -> u64;
    fn set(&mut self, v: u64);
    fn id(&self) -> u64 {
        0
    }
}
impl Elem for u64 {
    fn make(v: u64) -> Self {
        v
    }
    fn value(&self) -> u64 {
        *self
    }
    fn set(&mut self, v: u64) {
        *self = v
    }
}
impl Elem for u8 {
    fn make(v: u64) -> Self {
        v as u8
    }
    fn value(&self) -> u64 {
        u64::from(*self)
    }
    fn set(&mut self, v: u64) {
        *self = v as u8
    }
}
impl Elem for [u64; 5] {
    fn make(v: u64) -> Self {
        [v, !v, v ^ 5, v << 1, v]
    }
    fn value(&self) -> u64 {
        assert_eq!(*self, Self::make(self[0]), "torn element");
        self[0]
    }
    fn set(&mut self, v: u64) {
        *self = Self::make(v)
    }
}
impl Elem for [u64; 40] {
    fn make(v: u64) -> Self {
        let mut a = [v; 40];
        a[39] = !v;
        a
    }
    fn value(&self) -> u64 {
        assert_eq!(self[..], Self::make(self[0])[..], "torn element");
        self[0]
    }
    fn set(&mut self, v: u64) {
        *self = Self::make(v)
    }
}
impl Elem for Tracked {
    const TRACKED: bool = true;
    fn make(v: u64) -> Self {
        Tracked::new(v)
    }
    fn value(&self) -> u64 {
        self.value
    }
    fn set(&mut self, v: u64) {
        self.value = v
    }
    fn id(&self) -> u64 {
        self.id
    }
}
impl Elem for Zst {
    const ZST: bool = true;
    fn make(_: u64) -> Self {
        Zst::make()
    }
    fn value(&self) -> u64 {
        0
    }
    fn set(&mut self, _: u64) {}
}

struct Pair<T: Elem> {
    real:  MmapVec<T>,
    model: Vec<u64>,
    cap:   usize,
}

fn compare<T: Elem>(p: &Pair<T>, what: &str, log: &[String]) -> CaseResult {
    let got: Vec<u64> = p.real.iter().map(Elem::value).collect();
    ensure_eq!(p.real.len(), p.model.len(), "length after {} in {:?}", what, log);
    ensure_eq!(got, p.model, "elements after {} in {:?}", what, log);
    ensure_eq!(p.real.is_empty(), p.model.is_empty(), "is_empty");
    if T::TRACKED {
        let ids: Vec<u64> = p.real.iter().map(Elem::id).collect();
        let mut u = ids.clone();
        u.sort_unstable();
        u.dedup();
        ensure_eq!(u.len(), ids.len(), "the same element is contained twice after {} in {:?}", what, log);
        REG.with(|r| {
            let r = r.borrow();
            for id in &ids {
                match r.drops.get(id) {
                    Some(0) => {}
                    Some(_) => return fail(format!("a contained element was dropped, after {} in {:?}", what, log)),
                    None => return fail(format!("a slot that never held an element is contained, after {} in {:?}", what, log)),
                }
            }
            Ok(())
        })?;
    }
    Ok(())
}

fn accounting<T: Elem>(at_end: bool, log: &[String]) -> CaseResult {
    REG.with(|r| {
        let r = r.borrow();
        ensure_eq!(r.bogus, 0, "drops of slots that never held an element in {:?}", log);
        if let Some((id, n)) = r.drops.iter().find(|(_, n)| **n > 1) {
            return fail(format!("element {} was dropped {} times in {:?}", id, n, log));
        }
        ensure!(r.zst_dropped <= r.zst_created, "{} zero-sized elements made, {} dropped in {:?}", r.zst_created, r.zst_dropped, log);
        if at_end {
            let left = r.drops.values().filter(|n| **n == 0).count();
            ensure_eq!(left, 0, "elements never dropped in {:?}", log);
            ensure_eq!(r.zst_dropped, r.zst_created, "zero-sized elements dropped in {:?}", log);
        }
        Ok(())
    })
}

fn history<T: Elem>(g: &mut Gen) -> CaseResult {
    REG.with(|r| *r.borrow_mut() = Registry::default());
    let mut log: Vec<String> = vec![];
    let cap = match g.below(6) {
        0 => 0,
        1 => 1,
        2 | 3 => g.usize_in(2, 12),
        4 => g.usize_in(8, 64),
        _ if g.one_in(10) => *g.pick(&[20_000_usize, 65_536, 65_537, 100_000]),
        _ => *g.pick(&[511_usize, 512, 513, 700, 4096, 5000]),
    };
    let mut pairs: Vec<Pair<T>> = vec![Pair {
        real: MmapVec::with_capacity(cap),
        model: vec![],
        cap,
    }];
    log.push(format!("with_capacity({})", cap));
    let steps = g.usize_in(1, 24);
    let mut counter = 100_u64;
    let mut shrunk = false;
    for _ in 0..steps {
        counter += 1;
        let v = T::make(counter).value();
        let n = pairs.len();
        let which = g.below(n as u64) as usize;
        let fuse = T::TRACKED && g.one_in(10);
        if fuse {
            let k = g.below(4);
            REG.with(|r| r.borrow_mut().fuse = Some(k));
        }
        let drop_fuse = T::TRACKED && !fuse && g.one_in(8);
        let drop_at = g.below(5);
        let what: String;
        let op = g.below(17);
        let drop_fuse = drop_fuse && [7, 8, 9, 10, 11].contains(&op);
        {
            let p = &mut pairs[which];
            let room = p.cap - p.model.len();
            match op {
                0 | 1 | 2 => {
                    what = format!("v{}.push", which);
                    let r = no_panic(|| p.real.push(T::make(counter)));
                    if room > 0 {
                        ensure!(r.is_ok(), "push within capacity fails: {:?} in {:?}", r, log);
                        p.model.push(v);
                        if shrunk {
                            g.nontrivial();
                        }
                    } else {
                        ensure!(r.is_err(), "push beyond the capacity of {} succeeds in {:?}", p.cap, log);
                    }
                }
                3 | 4 => {
                    let k = if room > 0 && !g.one_in(12) { g.usize_in(0, room) } else { room + 1 };
                    what = format!("v{}.extend_from_slice({})", which, k);
                    let add: Vec<T> = (0..k as u64).map(|i| T::make(counter + i)).collect();
                    let vals: Vec<u64> = add.iter().map(Elem::value).collect();
                    let before = p.model.len();
                    let r = no_panic(|| p.real.extend_from_slice(&add));
                    if k > room {
                        ensure!(r.is_err(), "extending beyond the capacity succeeds in {:?}", log);
                    }
                    // refused as a whole
                    settle(p, r, fuse || k > room, before, if k > room { &[] } else { &vals }, &what, &log)?;
                    if shrunk && k > 0 {
                        g.nontrivial();
                    }
                }
                5 | 6 => {
                    let k = if g.one_in(12) { room + g.usize_in(1, 3) } else { g.usize_in(0, room) };
                    let by_ref = g.bool();
                    what = format!("v{}.extend({})", which, k);
                    let add: Vec<T> = (0..k as u64).map(|i| T::make(counter + i)).collect();
                    let vals: Vec<u64> = add.iter().map(Elem::value).collect();
                    let before = p.model.len();
                    let r = if by_ref {
                        no_panic(|| p.real.extend(add.iter()))
                    } else {
                        no_panic(|| p.real.extend(add))
                    };
                    if k > room {
                        ensure!(r.is_err(), "extending beyond the capacity succeeds in {:?}", log);
                    }
                    settle(p, r, fuse || k > room, before, &vals[..k.min(room)], &what, &log)?;
                }
                7 | 8 => {
                    let k = match g.below(4) {
                        0 => p.model.len() + g.usize_in(0, 2),
                        _ => g.usize_in(0, p.model.len()),
                    };
                    what = format!("v{}.truncate({})", which, k);
                    shrunk |= k < p.model.len();
                    shrink(p, k, if drop_fuse { Some(drop_at) } else { None }, &what, &log, |v| v.truncate(k))?;
                }
                9 => {
                    what = format!("v{}.clear()", which);
                    shrunk |= !p.model.is_empty();
                    shrink(p, 0, if drop_fuse { Some(drop_at) } else { None }, &what, &log, |v| v.clear())?;
                }
                10 | 11 => {
                    let k = match g.below(4) {
                        0 => g.usize_in(0, p.cap),
                        1 => p.cap,
                        2 => p.cap + 1,
                        _ => g.usize_in(0, p.model.len()),
                    };
                    what = format!("v{}.resize({})", which, k);
                    let before = p.model.len();
                    if k < before {
                        shrunk = true;
                        shrink(p, k, if drop_fuse { Some(drop_at) } else { None }, &what, &log, |v| v.resize(k, T::make(counter)))?;
                        disarm();
                        log.push(what.clone());
                        for p in &pairs {
                            compare(p, &what, &log)?;
                        }
                        accounting::<T>(false, &log)?;
                        continue;
                    }
                    let r = no_panic(|| p.real.resize(k, T::make(counter)));
                    if k > p.cap {
                        ensure!(r.is_err(), "resize beyond the capacity succeeds in {:?}", log);
                        settle(p, r, true, before, &[], &what, &log)?;
                    } else {
                        settle(p, r, fuse, before, &vec![v; k - before], &what, &log)?;
                    }
                }
                12 => {
                    what = format!("v{}[i] = x", which);
                    if !p.model.is_empty() {
                        let i = g.below(p.model.len() as u64) as usize;
                        p.model[i] = v;
                        match g.below(3) {
                            0 => p.real[i] = T::make(counter),
                            1 => p.real.as_mut_slice()[i].set(counter),
                            _ => p.real.iter_mut().skip(i).take(1).for_each(|x| x.set(counter)),
                        }
                    }
                }
                13 => {
                    what = format!("v{}.reverse/swap/rotate", which);
                    if p.model.len() > 1 {
                        let i = g.below(p.model.len() as u64) as usize;
                        match g.below(3) {
                            0 => {
                                p.real.reverse();
                                p.model.reverse();
                            }
                            1 => {
                                p.real.swap(0, i);
                                p.model.swap(0, i);
                            }
                            _ => {
                                p.real.as_mut_slice().rotate_left(i);
                                p.model.rotate_left(i);
                            }
                        }
                    }
                }
                14 => {
                    what = format!("read v{}", which);
                    let i = g.usize_in(0, p.model.len() + 1);
                    ensure_eq!(p.real.get(i).map(Elem::value), p.model.get(i).copied(), "get({}) in {:?}", i, log);
                    ensure_eq!(p.real.as_slice().len(), p.model.len(), "as_slice");
                    if i >= p.model.len() {
                        ensure!(no_panic(|| p.real[i].value()).is_err(), "index {} of {} is readable", i, p.model.len());
                    }
                    ensure_eq!(p.real.first().map(Elem::value), p.model.first().copied(), "first");
                    ensure_eq!(p.real.last().map(Elem::value), p.model.last().copied(), "last");
                }
                15 => {
                    what = format!("clone v{}", which);
                    let r = no_panic(|| p.real.clone());
                    match r {
                        Ok(real) => {
                            let q = Pair {
                                real,
                                model: p.model.clone(),
                                cap: p.cap,
                            };
                            if pairs.len() < 4 {
                                pairs.push(q);
                            } else {
                                drop(q);
                            }
                            g.label("clone");
                        }
                        Err(e) => ensure!(fuse, "clone fails: {} in {:?}", e, log),
                    }
                }
                _ => {
                    what = format!("drop v{}", which);
                    if pairs.len() > 1 {
                        let _ = pairs.remove(which);
                    }
                }
            }
        }
        disarm();
        g.label_if(drop_fuse, "drop fails");
        g.label_if(fuse, "clone fails");
        log.push(what.clone());
        for p in &pairs {
            compare(p, &what, &log)?;
        }
        accounting::<T>(false, &log)?;
    }
    g.label_if(shrunk, "shrunk");
    g.describe(|| format!("{:?}", log));
    if pairs.len() > 1 && !T::ZST {
        // equality
        let want = pairs[0].model == pairs[1].model;
        let same = pairs[0].real.len() == pairs[1].real.len()
            && pairs[0].real.iter().zip(pairs[1].real.iter()).all(|(a, b)| a.value() == b.value());
        ensure_eq!(same, want, "equality");
    }
    drop(pairs);
    log.push("drop all".into());
    accounting::<T>(true, &log)
}

fn disarm() {
    REG.with(|r| {
        let mut r = r.borrow_mut();
        r.fuse = None;
        r.drop_fuse = None;
    });
}

/// An operation that leaves the first `k` elements. When the drop of an element
/// panics, some of the others may still be contained.
fn shrink<T: Elem>(
    p: &mut Pair<T>,
    k: usize,
    drop_fuse: Option<u64>,
    what: &str,
    log: &[String],
    op: impl FnOnce(&mut MmapVec<T>),
) -> CaseResult {
    let before = p.model.len();
    REG.with(|r| r.borrow_mut().drop_fuse = drop_fuse);
    let r = no_panic(|| op(&mut p.real));
    disarm();
    match r {
        Ok(()) => p.model.truncate(k),
        Err(e) => {
            ensure!(drop_fuse.is_some(), "{} fails: {} in {:?}", what, e, log);
            let now = p.real.len();
            ensure!(now >= k.min(before) && now <= before, "length {} after a failed {} of {} in {:?}", now, what, before, log);
            p.model.truncate(now);
        }
    }
    Ok(())
}

/// After an operation that appends `vals`: all of them, or, if it may fail, a prefix.
fn settle<T: Elem>(p: &mut Pair<T>, r: Result<(), String>, may_fail: bool, before: usize, vals: &[u64], what: &str, log: &[String]) -> CaseResult {
    match r {
        Ok(()) => p.model.extend_from_slice(vals),
        Err(e) => {
            ensure!(may_fail, "{} within capacity fails: {} in {:?}", what, e, log);
            let now = p.real.len();
            ensure!(now >= before && now <= before + vals.len(), "length {} after a failed {} of {} in {:?}", now, what, before, log);
            p.model.extend_from_slice(&vals[..now - before]);
        }
    }
    Ok(())
}

fn partial_eq(g: &mut Gen) -> CaseResult {
    let n = g.usize_in(0, 6);
    let a: Vec<u64> = (0..n).map(|_| g.below(3)).collect();
    let mut b = a.clone();
    match g.below(4) {
        0 => {}
        1 if n > 0 => b[g.below(n as u64) as usize] ^= 1,
        2 => b.push(0),
        _ => {
            let _ = b.pop();
        }
    }
    g.describe(|| format!("{:?} {:?}", a, b));
    g.nontrivial();
    let mk = |v: &[u64], cap: usize| {
        let mut m: MmapVec<u64> = MmapVec::with_capacity(cap);
        m.extend(v);
        m
    };
    let (x, y) = (mk(&a, n + g.usize_in(0, 3)), mk(&b, n + 1));
    ensure_eq!(x == y, a == b, "equality of {:?} and {:?}", a, b);
    ensure_eq!(x.as_slice(), &a[..], "contents");
    let z = g.usize_in(0, 2000);
    // all-zero is a valid u64
    #[allow(unsafe_code)]
    let zero: MmapVec<u64> = unsafe { MmapVec::zero_initialized(z) };
    ensure_eq!(zero.as_slice(), &vec![0; z][..], "zero_initialized");
    let mut zc = zero.clone();
    if z > 0 {
        zc[z - 1] = 1;
        ensure!(zero != zc, "clone is not independent");
        zc.truncate(z - 1);
        zc.push(0);
        ensure!(zero == zc, "shrink and grow");
    }
    Ok(())
}

/// Capacities of several gigabytes, of which only a few pages are touched.
fn sparse(g: &mut Gen) -> CaseResult {
    let cap = match g.below(4) {
        0 => (1_usize << 29) + g.usize_in(0, 40),
        1 => (1_usize << 28) + g.usize_in(0, 40),
        2 => (3_usize << 28) + g.usize_in(0, 40),
        _ => (1_usize << g.usize_in(20, 29)) + g.usize_in(0, 4000),
    };
    let n = g.usize_in(500, 3000);
    let zeroed = g.bool();
    g.describe(|| format!("capacity {} of u64, {} used, zeroed {}", cap, n, zeroed));
    // it may be refused where memory is short
    let mut v: MmapVec<u64> = match no_panic(|| if zeroed { unsafe { MmapVec::zero_initialized(cap) } } else { MmapVec::with_capacity(cap) }) {
        Ok(v) => v,
        Err(_) => return Ok(()),
    };
    g.nontrivial();
    if zeroed {
        ensure_eq!(v.len(), cap, "zeroed length");
        let at: Vec<usize> = (0..20).map(|i| if i == 0 { cap - 1 } else { g.below(cap as u64) as usize }).collect();
        let mut model = HashMap::new();
        for (i, a) in at.iter().enumerate() {
            ensure_eq!(v[*a], *model.get(a).unwrap_or(&0), "element {} of {}", a, cap);
            v[*a] = i as u64 + 1;
            let _ = model.insert(*a, i as u64 + 1);
        }
        for (a, x) in &model {
            ensure_eq!(v[*a], *x, "element {} of {}", a, cap);
        }
        ensure!(no_panic(|| v.push(1)).is_err(), "push beyond the capacity of {}", cap);
    } else {
        ensure!(v.is_empty(), "new vector");
        for i in 0..n as u64 {
            v.push(i * i);
        }
        ensure_eq!(v.len(), n, "length");
        ensure!((0..n).all(|i| v[i] == (i * i) as u64), "elements of a vector with capacity {}", cap);
    }
    Ok(())
}

/// A capacity that cannot be provided is refused, never silently smaller.
fn overflow(g: &mut Gen) -> CaseResult {
    let k = 1 + g.below(40) as usize;
    let words = match g.below(3) {
        0 => (usize::max_value() / 8) + k,
        1 => (1 << 61) * (1 + g.below(7) as usize) + g.usize_in(0, 40),
        _ => usize::max_value() - k,
    };
    g.describe(|| format!("with_capacity::<u64>({})", words));
    g.nontrivial();
    ensure!(no_panic(|| MmapVec::<u64>::with_capacity(words).len()).is_err(), "capacity {} of 8 byte elements is granted", words);
    let big = (usize::max_value() / 40) + k;
    ensure!(no_panic(|| MmapVec::<[u64; 5]>::with_capacity(big).len()).is_err(), "capacity {} of 40 byte elements is granted", big);
    Ok(())
}

/// Pages mapped by this process, and open files
fn mapped() -> (u64, usize) {
    let statm = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    let pages = statm.split(' ').next().and_then(|x| x.parse().ok()).unwrap_or(0);
    (pages, std::fs::read_dir("/proc/self/fd").map_or(0, |d| d.count()))
}

/// A vector's memory is returned when it is dropped, whatever was done with it.
fn released(g: &mut Gen) -> CaseResult {
    let cap = (1_usize << 26) << g.below(4); // half a gigabyte and more
    let ops: Vec<u64> = (0..g.usize_in(0, 6)).map(|_| g.below(7)).collect();
    g.describe(|| format!("capacity {} of u64, operations {:?}", cap, ops));
    drop(MmapVec::<u64>::with_capacity(1)); // what is set up once is not counted
    let before = mapped();
    if before.0 == 0 {
        return Ok(());
    }
    g.nontrivial();
    // memory may be short: then there is nothing to release
    let _ = no_panic(|| {
        let mut v: Vec<MmapVec<u64>> = vec![MmapVec::with_capacity(cap)];
        for o in &ops {
            match o {
                0 => v[0].extend_from_slice(&[1, 2, 3]),
                1 => v[0].truncate(1),
                2 => v[0].clear(),
                3 => v[0].resize(5, 7),
                4 => {
                    let c = v[0].clone();
                    v.push(c);
                }
                5 => {
                    let c = v[0].clone();
                    v[0] = c;
                }
                _ => {
                    let n = v[0].len();
                    let _ = no_panic(|| v[0].resize(cap + n + 1, 0));
                }
            }
        }
        if ops.len() == 3 {
            panic!("dropped while unwinding");
        }
    });
    let after = mapped();
    ensure!(after.0 < before.0 + (cap as u64 * 8 / 4096) / 2, "{} pages are mapped before and {} after", before.0, after.0);
    ensure!(after.1 <= before.1, "{} files are open before and {} after", before.1, after.1);
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C15",
        rule: "histories that grow again after shrinking (for sequences); every other case",
        assumptions: &["histories of up to 24 operations on up to four vectors", "anonymous mappings; the file system is not involved"],
        facets: vec![
            Facet::new("tracked", 100_000, 3_000_000, history::<Tracked>),
            Facet::new("words", 120_000, 1_500_000, history::<u64>),
            Facet::new("bytes", 60_000, 500_000, history::<u8>),
            Facet::new("wide", 60_000, 1_000_000, history::<[u64; 5]>),
            Facet::new("wider-than-a-line", 20_000, 200_000, history::<[u64; 40]>),
            Facet::new("zero-sized", 60_000, 500_000, history::<Zst>),
            Facet::new("equality", 60_000, 500_000, partial_eq),
            Facet::new("sparse", 300, 5_000, sparse),
            Facet::new("overflow", 500, 5_000, overflow),
            Facet::new("released", 1000, 20_000, released).serial(),
        ],
    }
}
