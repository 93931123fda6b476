//! C21: composition of components.
use crate::{expr::*, proto, proto::bitrev, sys::*};
use std::fmt;
use vpbt::{ensure, ensure_eq, no_panic, CaseResult, Facet, Fp, Gen, Property};
use zkp_primefield::FieldElement;
use zkp_stark::{
    check_constraints,
    component::{Component, Empty, Fold, Horizontal, PolynomialWriter, Test, Vertical},
    Constraints, RationalExpression, TraceTable,
};

/// A tree of components. The leaves are generated constraint systems, the
/// crate's recurrence component and empty components.
#[derive(Clone)]
pub enum Comp {
    Own(Box<Sys>),
    Rec(usize, usize, Fp),
    Blank(usize, usize),
    Folded(Box<Comp>, usize),
    Beside(Box<Comp>, Box<Comp>),
    Stacked(Box<Comp>, usize),
}
use Comp::*;

/// Witness of a component
#[derive(Clone)]
pub enum W {
    Table(Vec<Fp>),
    Rec(Fp, Fp),
    Unit,
    Pair(Box<W>, Box<W>),
    Many(Vec<W>),
}

/// Claim of a component
#[derive(Clone, Debug, PartialEq)]
pub enum Cl {
    Unit,
    Rec(Fp),
    Pair(Box<Cl>, Box<Cl>),
    Many(Vec<Cl>),
}

impl fmt::Debug for Comp {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Own(s) => write!(f, "Own({}x{}, {:?})", s.rows, s.cols, s.cons.iter().map(|c| &c.e).collect::<Vec<_>>()),
            Comp::Rec(r, c, _) => write!(f, "Test({}x{})", r, c),
            Blank(c, r) => write!(f, "Empty({}x{})", r, c),
            Folded(e, k) => write!(f, "Fold({:?}, {})", e, k),
            Beside(a, b) => write!(f, "Horizontal({:?}, {:?})", a, b),
            Stacked(e, k) => write!(f, "Vertical({:?}, {})", e, k),
        }
    }
}

/// Stops the growth of writer types through recursion
struct Dyn<'a>(&'a mut dyn PolynomialWriter);

impl PolynomialWriter for Dyn<'_> {
    fn num_polynomials(&self) -> usize {
        self.0.num_polynomials()
    }

    fn polynomial_size(&self) -> usize {
        self.0.polynomial_size()
    }

    fn write(&mut self, polynomial: usize, location: usize, value: FieldElement) {
        self.0.write(polynomial, location, value)
    }
}

fn many(w: &W) -> &Vec<W> {
    match w {
        W::Many(v) => v,
        _ => unreachable!(),
    }
}

fn many_claims(c: &Cl) -> &Vec<Cl> {
    match c {
        Cl::Many(v) => v,
        _ => unreachable!(),
    }
}

impl Component for Comp {
    type Claim = Cl;
    type Witness = W;

    fn claim(&self, w: &W) -> Cl {
        match (self, w) {
            (Own(_), _) => Cl::Unit,
            (Blank(c, r), W::Unit) => {
                Empty::new(*c, *r).claim(&());
                Cl::Unit
            }
            (Comp::Rec(r, c, s), W::Rec(a, b)) => Cl::Rec(fp(&Test::new(*r, *c, &fe(*s)).claim(&(fe(*a), fe(*b))))),
            (Folded(e, k), _) => Fold::new((**e).clone(), *k).claim(w),
            (Beside(a, b), W::Pair(x, y)) => {
                let (p, q) = Horizontal::new((**a).clone(), (**b).clone()).claim(&((**x).clone(), (**y).clone()));
                Cl::Pair(Box::new(p), Box::new(q))
            }
            (Stacked(e, k), _) => Cl::Many(Vertical::new((**e).clone(), *k).claim(many(w))),
            _ => unreachable!(),
        }
    }

    fn num_polynomials(&self) -> usize {
        match self {
            Own(s) => s.cols,
            Comp::Rec(r, c, s) => Test::new(*r, *c, &fe(*s)).num_polynomials(),
            Blank(c, r) => Empty::new(*c, *r).num_polynomials(),
            Folded(e, k) => Fold::new((**e).clone(), *k).num_polynomials(),
            Beside(a, b) => Horizontal::new((**a).clone(), (**b).clone()).num_polynomials(),
            Stacked(e, k) => Vertical::new((**e).clone(), *k).num_polynomials(),
        }
    }

    fn polynomial_size(&self) -> usize {
        match self {
            Own(s) => s.rows,
            Comp::Rec(r, c, s) => Test::new(*r, *c, &fe(*s)).polynomial_size(),
            Blank(c, r) => Empty::new(*c, *r).polynomial_size(),
            Folded(e, k) => Fold::new((**e).clone(), *k).polynomial_size(),
            Beside(a, b) => Horizontal::new((**a).clone(), (**b).clone()).polynomial_size(),
            Stacked(e, k) => Vertical::new((**e).clone(), *k).polynomial_size(),
        }
    }

    fn constraints(&self, claim: &Cl) -> Vec<RationalExpression> {
        match (self, claim) {
            (Own(s), _) => s.cons.iter().map(|c| c.e.re()).collect(),
            (Comp::Rec(r, c, s), Cl::Rec(a)) => Test::new(*r, *c, &fe(*s)).constraints(&fe(*a)),
            (Blank(c, r), _) => Empty::new(*c, *r).constraints(&()),
            (Folded(e, k), _) => Fold::new((**e).clone(), *k).constraints(claim),
            (Beside(a, b), Cl::Pair(x, y)) => {
                Horizontal::new((**a).clone(), (**b).clone()).constraints(&((**x).clone(), (**y).clone()))
            }
            (Stacked(e, k), _) => Vertical::new((**e).clone(), *k).constraints(many_claims(claim)),
            _ => unreachable!(),
        }
    }

    fn trace<P: PolynomialWriter>(&self, trace: &mut P, w: &W) {
        let (rows, cols) = self.dims();
        if trace.num_polynomials() != cols || trace.polynomial_size() != rows {
            panic!(
                "part of {} rows x {} columns is given a writer of {} x {}",
                rows,
                cols,
                trace.polynomial_size(),
                trace.num_polynomials()
            );
        }
        match (self, w) {
            (Own(s), W::Table(t)) => {
                for r in 0..s.rows {
                    for c in 0..s.cols {
                        trace.write(c, r, fe(t[r * s.cols + c]));
                    }
                }
            }
            (Comp::Rec(r, c, s), W::Rec(a, b)) => Test::new(*r, *c, &fe(*s)).trace(trace, &(fe(*a), fe(*b))),
            (Blank(c, r), _) => Empty::new(*c, *r).trace(trace, &()),
            (Folded(e, k), _) => Fold::new((**e).clone(), *k).trace(&mut Dyn(trace), w),
            (Beside(a, b), W::Pair(x, y)) => {
                Horizontal::new((**a).clone(), (**b).clone()).trace(&mut Dyn(trace), &((**x).clone(), (**y).clone()))
            }
            (Stacked(e, k), _) => Vertical::new((**e).clone(), *k).trace(&mut Dyn(trace), many(w)),
            _ => unreachable!(),
        }
    }
}

/// Table as rows
type Table = Vec<Vec<Fp>>;

impl Comp {
    /// Rows and columns, by definition
    fn dims(&self) -> (usize, usize) {
        match self {
            Own(s) => (s.rows, s.cols),
            Comp::Rec(r, c, _) => (*r, *c),
            Blank(c, r) => (*r, *c),
            Folded(e, k) => {
                let (r, c) = e.dims();
                let red = 1 << k;
                (r * red, (c + red - 1) / red)
            }
            Beside(a, b) => (a.dims().0, a.dims().1 + b.dims().1),
            Stacked(e, k) => (e.dims().0 * k, e.dims().1),
        }
    }

    fn model_claim(&self, w: &W) -> Cl {
        match (self, w) {
            (Comp::Rec(..), W::Rec(a, _)) => Cl::Rec(*a),
            (Folded(e, _), _) => e.model_claim(w),
            (Beside(a, b), W::Pair(x, y)) => Cl::Pair(Box::new(a.model_claim(x)), Box::new(b.model_claim(y))),
            (Stacked(e, _), W::Many(v)) => Cl::Many(v.iter().map(|w| e.model_claim(w)).collect()),
            _ => Cl::Unit,
        }
    }

    /// The cells, by definition
    fn table(&self, w: &W) -> Table {
        let (rows, cols) = self.dims();
        let mut t = vec![vec![Fp::zero(); cols]; rows];
        match (self, w) {
            (Own(_), W::Table(v)) => {
                for r in 0..rows {
                    t[r].copy_from_slice(&v[r * cols..(r + 1) * cols]);
                }
            }
            (Comp::Rec(_, _, seed), W::Rec(claim, second)) => {
                let mut x = vec![*seed, *second];
                while x.len() < rows * cols {
                    let n = x.len();
                    x.push(x[n - 2] * x[n - 1] + *claim);
                }
                for i in 0..rows * cols {
                    t[i / cols][i % cols] = x[i];
                }
            }
            (Folded(e, k), _) => {
                for (r, row) in e.table(w).iter().enumerate() {
                    for (c, v) in row.iter().enumerate() {
                        let (rr, cc) = fold_cell(*k, r, c);
                        t[rr][cc] = *v;
                    }
                }
            }
            (Beside(a, b), W::Pair(x, y)) => {
                let (l, r) = (a.table(x), b.table(y));
                for i in 0..rows {
                    t[i] = l[i].iter().chain(r[i].iter()).cloned().collect();
                }
            }
            (Stacked(e, _), W::Many(v)) => t = v.iter().flat_map(|w| e.table(w)).collect(),
            _ => {}
        }
        t
    }

    /// Do the parts' constraints hold on their parts of a table?
    fn satisfied(&self, t: &Table, claim: &Cl) -> bool {
        let (rows, cols) = self.dims();
        assert_eq!((t.len(), t.first().map_or(0, |r| r.len())), (rows, cols));
        match (self, claim) {
            (Own(s), _) => s.violations(&t.concat()).is_empty(),
            (Comp::Rec(_, _, seed), Cl::Rec(a)) => {
                let x = t.concat();
                (x.is_empty() || x[0] == *seed) && (2..x.len()).all(|i| x[i] == x[i - 2] * x[i - 1] + *a)
            }
            (Folded(e, k), _) => {
                let (er, ec) = e.dims();
                let part: Table = (0..er)
                    .map(|r| {
                        (0..ec)
                            .map(|c| {
                                let (rr, cc) = fold_cell(*k, r, c);
                                t[rr][cc]
                            })
                            .collect()
                    })
                    .collect();
                e.satisfied(&part, claim)
            }
            (Beside(a, b), Cl::Pair(x, y)) => {
                let k = a.dims().1;
                a.satisfied(&t.iter().map(|r| r[..k].to_vec()).collect(), x)
                    && b.satisfied(&t.iter().map(|r| r[k..].to_vec()).collect(), y)
            }
            (Stacked(e, _), Cl::Many(v)) => {
                let n = e.dims().0;
                t.chunks(n).zip(v).all(|(b, c)| e.satisfied(&b.to_vec(), c))
            }
            _ => true,
        }
    }

    fn count(&self) -> (usize, usize) {
        // (leaves with constraints, combinators)
        match self {
            Own(_) | Comp::Rec(..) => (1, 0),
            Blank(..) => (0, 0),
            Folded(e, _) | Stacked(e, _) => (e.count().0, e.count().1 + 1),
            Beside(a, b) => (a.count().0 + b.count().0, a.count().1 + b.count().1 + 1),
        }
    }

    fn labels(&self, g: &mut Gen) {
        match self {
            Own(_) => g.label("generated leaf"),
            Comp::Rec(..) => g.label("recurrence leaf"),
            Blank(..) => g.label("empty leaf"),
            Folded(e, k) => {
                g.label("fold");
                g.label_if(e.dims().1 % (1 << k) != 0, "fold with a remainder");
                e.labels(g);
            }
            Beside(a, b) => {
                g.label("horizontal");
                a.labels(g);
                b.labels(g);
            }
            Stacked(e, k) => {
                g.label(if *k > 1 { "vertical" } else { "vertical of one" });
                e.labels(g);
            }
        }
    }
}

/// Place of an element's cell after folding
fn fold_cell(k: usize, r: usize, c: usize) -> (usize, usize) {
    let red = 1_usize << k;
    (r * red + bitrev(red, c % red), c / red)
}

fn tree(g: &mut Gen, log_rows: usize, depth: usize, stacked: bool) -> Comp {
    let kind = if depth == 0 { g.below(4) } else { g.below(10) };
    match kind {
        0 | 1 if log_rows >= 1 => own(g, log_rows, stacked),
        0 | 1 | 2 => Comp::Rec(1 << log_rows, g.usize_in(1, 4), felt(g)),
        3 => {
            if g.one_in(3) {
                Blank(g.usize_in(0, 3), 1 << log_rows)
            } else {
                Comp::Rec(1 << log_rows, g.usize_in(0, 6), felt(g))
            }
        }
        4 | 5 => {
            let k = g.usize_in(0, log_rows.min(6));
            Folded(Box::new(tree(g, log_rows - k, depth - 1, stacked)), k)
        }
        6 | 7 => {
            let a = tree(g, log_rows, depth - 1, stacked);
            let b = tree(g, log_rows, depth - 1, stacked);
            Beside(Box::new(a), Box::new(b))
        }
        _ => {
            let k = g.usize_in(0, log_rows.min(6));
            Stacked(Box::new(tree(g, log_rows - k, depth - 1, stacked || k > 0)), 1 << k)
        }
    }
}

fn own(g: &mut Gen, log_rows: usize, stacked: bool) -> Comp {
    for _ in 0..4 {
        let s = system(g, &Limits {
            log_rows: Some(log_rows),
            max_cols: 4,
            max_degree: 3,
            claims: false,
            no_wrap: stacked,
            wide: false,
            ..Limits::default()
        });
        let n = s.rows as isize;
        if s.args().iter().all(|&(_, o)| -n < o && o < n) && !(stacked && wraps(&s)) {
            return Own(Box::new(s));
        }
    }
    Comp::Rec(1 << log_rows, g.usize_in(1, 4), felt(g))
}

/// Does some constraint reach over the table's edge on an enforced row?
fn wraps(s: &Sys) -> bool {
    s.cons.iter().any(|c| {
        let mut a = Default::default();
        c.e.args(&mut a);
        c.rows.iter().any(|&r| a.iter().any(|&(_, o)| r as isize + o < 0 || r as isize + o >= s.rows as isize))
    })
}

/// Witness for a claim that is a function of `claim_seed` (the parts of a
/// stack must share their claim)
fn witness(g: &mut Gen, c: &Comp, path: u64, claims: &dyn Fn(u64) -> Fp) -> W {
    match c {
        Own(s) => {
            let mut t = s.trace.clone();
            if g.one_in(12) {
                t = corrupt(g, s);
            }
            W::Table(t)
        }
        Comp::Rec(..) => W::Rec(claims(path), felt(g)),
        Blank(..) => W::Unit,
        Folded(e, _) => witness(g, e, path * 3, claims),
        Beside(a, b) => {
            let x = witness(g, a, path * 3 + 1, claims);
            let y = witness(g, b, path * 3 + 2, claims);
            W::Pair(Box::new(x), Box::new(y))
        }
        Stacked(e, k) => W::Many((0..*k).map(|_| witness(g, e, path * 3, claims)).collect()),
    }
}

/// Is the constraint a polynomial (of the degree its shape allows) when the
/// columns are replaced by the polynomials through their cells? Exact.
fn is_polynomial(e: &E, t: &Table) -> bool {
    let n = t.len();
    let cols = t[0].len();
    let (nd, dd) = e.degree(1, n - 1);
    let bound = nd.saturating_sub(dd);
    // N = D * Q is decided by more points than the degree of either side
    let size = (nd.max(bound + dd) + 1).next_power_of_two().max(2 * n);
    let shift = Fp::from_u64(3);
    let cols: Vec<Vec<Fp>> = (0..cols)
        .map(|c| proto::coset(&proto::intt(&t.iter().map(|r| r[c]).collect::<Vec<_>>()), size, shift))
        .collect();
    let w = root(size);
    let step = (size / n) as isize;
    let mut x = shift;
    let mut v = Vec::with_capacity(size);
    for i in 0..size {
        let cell = |c: usize, o: isize| cols[c][wrap(i, o * step, size)];
        match e.eval(x, &cell, &[]) {
            Some(y) => v.push(y),
            None => return false,
        }
        x = x * w;
    }
    proto::intt(&v).iter().skip(bound + 1).all(|c| c.is_zero())
}

fn to_table(t: &Table, cols: usize) -> TraceTable {
    let mut r = TraceTable::new(t.len(), cols);
    for i in 0..t.len() {
        for c in 0..cols {
            r[(i, c)] = fe(t[i][c]);
        }
    }
    r
}

/// One combinator with many repetitions or folds around a small part
fn large(g: &mut Gen) -> Comp {
    let part = |g: &mut Gen| match g.below(3) {
        0 => Comp::Rec(1, g.usize_in(1, 3), felt(g)),
        1 => Comp::Rec(2, 1, felt(g)),
        _ => own(g, 1, true),
    };
    if g.bool() {
        let e = part(g);
        Stacked(Box::new(e), 1 << g.usize_in(4, 9))
    } else {
        let k = g.usize_in(3, 7);
        let e = match g.below(3) {
            0 => part(g),
            // as many columns as fit, or nearly
            1 => Comp::Rec(1, (1 << k) + g.usize_in(0, 2), felt(g)),
            _ => Comp::Rec(1 << g.usize_in(0, 1), g.usize_in(1, 40), felt(g)),
        };
        Folded(Box::new(e), k)
    }
}

fn compose(g: &mut Gen) -> CaseResult {
    let comp = if g.one_in(40) {
        g.label("many repetitions or folds");
        large(g)
    } else {
        let log_rows = g.usize_in(0, 6);
        let depth = g.usize_in(1, 4);
        tree(g, log_rows, depth, false)
    };
    let salt = g.u64();
    let mode = g.below(3);
    let claims = move |path: u64| match mode {
        0 => Fp::zero(),
        1 => Fp::from_u64(path % 5),
        _ => Fp::from_u64(path.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ salt),
    };
    let w = witness(g, &comp, 1, &claims);
    g.describe(|| format!("{:?}", comp));
    comp.labels(g);
    let (leaves, combinators) = comp.count();
    if combinators >= 1 && leaves >= 1 {
        g.nontrivial();
    }
    // Dimensions, claim and trace
    let (rows, cols) = comp.dims();
    ensure_eq!((comp.polynomial_size(), comp.num_polynomials()), (rows, cols), "dimensions of {:?}", comp);
    ensure!(
        comp.trace_generator() == RationalExpression::Constant(fe(root(rows))),
        "trace generator of {:?}",
        comp
    );
    let claim = comp.model_claim(&w);
    ensure_eq!(comp.claim(&w), claim, "claim of {:?}", comp);
    let t = comp.table(&w);
    let got = match no_panic(|| comp.trace_table(&w)) {
        Ok(t) => t,
        Err(m) => return vpbt::fail(format!("writing the trace panics with {}: {:?}", m, comp)),
    };
    ensure_eq!((got.num_rows(), got.num_columns()), (rows, cols), "dimensions of the trace of {:?}", comp);
    for r in 0..rows {
        for c in 0..cols {
            ensure!(
                fp(&got[(r, c)]) == t[r][c],
                "cell at row {}, column {} is {:?}, not {:?}, in {:?}",
                r,
                c,
                fp(&got[(r, c)]),
                t[r][c],
                comp
            );
        }
    }
    if let Folded(e, k) = &comp {
        let f = Fold::new((**e).clone(), *k);
        let (er, ec) = e.dims();
        for r in 0..er {
            for c in 0..ec {
                ensure_eq!(f.map_up(r, c), fold_cell(*k, r, c), "place of ({}, {}) in {:?}", r, c, comp);
            }
        }
    }
    if cols == 0 {
        return Ok(());
    }
    // Constraints
    let exprs = comp.constraints(&claim);
    let es: Vec<E> = exprs.iter().map(E::from_re).collect();
    let constraints = Constraints::from_expressions((rows, cols), vec![], exprs).expect("length is a power of two");
    let mut tables = vec![t.clone()];
    for _ in 0..3 {
        let mut u = t.clone();
        for _ in 0..g.usize_in(1, 2) {
            let r = g.below(rows as u64) as usize;
            let c = g.below(cols as u64) as usize;
            u[r][c] = if g.bool() { u[r][c] + Fp::one() } else { felt(g) };
        }
        tables.push(u);
    }
    for (i, u) in tables.iter().enumerate() {
        let want = comp.satisfied(u, &claim);
        g.label(match (i == 0, want) {
            (true, true) => "own trace satisfied",
            (true, false) => "own trace violated",
            (false, true) => "altered trace satisfied",
            (false, false) => "altered trace violated",
        });
        let bad: Vec<usize> = (0..es.len()).filter(|&k| !is_polynomial(&es[k], u)).collect();
        ensure!(
            bad.is_empty() == want,
            "the parts' constraints {} on their parts, the constraints of the composition {} ({:?} of {:?}): {:?}, \
             table {:?}",
            if want { "hold" } else { "do not hold" },
            if bad.is_empty() { "hold".to_string() } else { format!("{:?} do not", bad) },
            bad,
            es,
            comp,
            u
        );
        let table = to_table(u, cols);
        let checked = no_panic(|| check_constraints(&constraints, &table));
        ensure!(
            checked.as_ref().map(|r| r.is_ok()) == Ok(want),
            "the parts' constraints {} on their parts, checking the composition gives {:?}: {:?}",
            if want { "hold" } else { "do not hold" },
            checked,
            comp
        );
        if i == 0 {
            ensure_eq!(comp.check(&w).is_ok(), want, "check of {:?}", comp);
        }
    }
    Ok(())
}

fn proofs(g: &mut Gen) -> CaseResult {
    let log_rows = g.usize_in(1, 6);
    let comp = tree(g, log_rows, 3, false);
    let salt = g.u64();
    let claims = move |path: u64| Fp::from_u64(path.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ salt);
    let w = witness(g, &comp, 1, &claims);
    g.describe(|| format!("{:?}", comp));
    let (rows, cols) = comp.dims();
    let claim = comp.model_claim(&w);
    let es: Vec<E> = match no_panic(|| comp.constraints(&claim)) {
        Ok(v) => v.iter().map(E::from_re).collect(),
        Err(m) => return vpbt::fail(format!("constraints panic with {}: {:?}", m, comp)),
    };
    if cols == 0 || es.is_empty() {
        return Ok(());
    }
    let s = Sys {
        rows,
        cols,
        seed: vec![],
        cons: es
            .iter()
            .map(|e| Con {
                num:  e.clone(),
                rows: vec![],
                e:    e.clone(),
            })
            .collect(),
        claims: vec![],
        blowup: 0,
        pow: 0,
        queries: 0,
        layout: vec![],
        trace: vec![],
    };
    let degrees_ok = es.iter().all(|e| {
        let (n, d) = e.degree(0, 1);
        n >= d
    });
    if !degrees_ok || s.degree() == 0 || s.eval_degree() > 8 || s.adjustments().iter().any(|a| a.is_none()) {
        return Ok(());
    }
    comp.labels(g);
    let want = comp.satisfied(&comp.table(&w), &claim);
    if comp.count().1 >= 1 {
        g.nontrivial();
    }
    g.label(if want { "true statement" } else { "false statement" });
    let proof = match no_panic(|| comp.prove(&w)) {
        Ok(Ok(p)) => {
            ensure!(want, "a proof is returned for a witness that violates a part's constraints: {:?}", comp);
            p
        }
        Ok(Err(_)) => {
            ensure!(!want, "a witness that satisfies all parts is not proven: {:?}", comp);
            return Ok(());
        }
        Err(m) => return vpbt::fail(format!("proving panics with {}: {:?}", m, comp)),
    };
    let r = no_panic(|| comp.verify(&claim, &proof));
    ensure!(r == Ok(Ok(())), "verifying gives {:?}: {:?}", r, comp);
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C21",
        rule: "a case counts as non-trivial when a part with constraints is inside at least one combinator",
        assumptions: &[
            "component trees of depth up to 4 and up to 64 rows, and single combinators with up to 512 repetitions or 128 \
             folded columns; leaves are generated constraint systems, the \
             crate's recurrence component and empty components",
            "the parts of a stack share their claim and their constraints do not reach over the edge of their table, \
             as stacking requires",
            "a constraint holds on a table when it is a polynomial after substituting the interpolated columns \
             (decided exactly by interpolation)",
        ],
        facets: vec![
            Facet::new("compose", 12000, 150000, compose),
            Facet::new("proofs", 2000, 8000, proofs),
        ],
    }
}
