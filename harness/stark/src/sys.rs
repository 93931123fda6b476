//! Generated constraint systems together with satisfying traces.
use super::expr::*;
use std::collections::BTreeSet;
use vpbt::{gen::Rng, Fp, Gen};
use zkp_stark::Constraints;
#[cfg(not(feature = "nostd"))]
use zkp_stark::TraceTable;

#[derive(Clone, Debug)]
pub struct Con {
    /// The relation between cells, zero where satisfied
    pub num:  E,
    /// Rows on which it is enforced
    pub rows: Vec<usize>,
    /// The constraint: relation times exceptions over the vanishing polynomial
    pub e:    E,
}

#[derive(Clone)]
pub struct Sys {
    pub rows:    usize,
    pub cols:    usize,
    pub seed:    Vec<u8>,
    pub cons:    Vec<Con>,
    pub claims:  Vec<Vec<Fp>>,
    pub blowup:  usize,
    pub pow:     usize,
    pub queries: usize,
    pub layout:  Vec<usize>,
    /// Row-major
    pub trace:   Vec<Fp>,
}

impl std::fmt::Debug for Sys {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(
            f,
            "{} rows x {} columns, blowup {}, pow {}, queries {}, layout {:?}, seed {} bytes, {} claim polynomials, \
             constraints {:?}",
            self.rows,
            self.cols,
            self.blowup,
            self.pow,
            self.queries,
            self.layout,
            self.seed.len(),
            self.claims.len(),
            self.cons.iter().map(|c| &c.e).collect::<Vec<_>>()
        )
    }
}

pub fn wrap(r: usize, o: isize, n: usize) -> usize {
    (r as isize + o).rem_euclid(n as isize) as usize
}

impl Sys {
    pub fn degree(&self) -> usize {
        self.cons
            .iter()
            .map(|c| {
                let (n, d) = c.e.degree(0, 1);
                n - d
            })
            .max()
            .unwrap()
    }

    pub fn eval_degree(&self) -> usize {
        self.degree().next_power_of_two()
    }

    /// x^adjustment of every constraint; None: not admissible
    pub fn adjustments(&self) -> Vec<Option<usize>> {
        let target = self.degree() * self.rows - 1;
        self.cons
            .iter()
            .map(|c| {
                let (n, d) = c.e.degree(1, self.rows - 1);
                (target + d).checked_sub(n)
            })
            .collect()
    }

    pub fn args(&self) -> Vec<(usize, isize)> {
        let mut s = BTreeSet::new();
        for c in &self.cons {
            c.e.args(&mut s);
        }
        s.into_iter().collect()
    }

    pub fn constraints(&self) -> Constraints {
        let mut c = Constraints::from_expressions(
            (self.rows, self.cols),
            self.seed.clone(),
            self.cons.iter().map(|c| c.e.re()).collect(),
        )
        .expect("valid trace length");
        c.blowup = self.blowup;
        c.pow_bits = self.pow;
        c.num_queries = self.queries;
        c.fri_layout = self.layout.clone();
        if !self.claims.is_empty() {
            c.add_claim_polynomials(self.claims.iter().map(|p| dense(p)).collect());
        }
        c
    }

    #[cfg(not(feature = "nostd"))]
    pub fn table_of(&self, trace: &[Fp]) -> TraceTable {
        let mut t = TraceTable::new(self.rows, self.cols);
        for r in 0..self.rows {
            for c in 0..self.cols {
                t[(r, c)] = fe(trace[r * self.cols + c]);
            }
        }
        t
    }

    #[cfg(not(feature = "nostd"))]
    pub fn table(&self) -> TraceTable {
        self.table_of(&self.trace)
    }

    /// (row, constraint) pairs violated by a trace
    pub fn violations(&self, trace: &[Fp]) -> BTreeSet<(usize, usize)> {
        let g = root(self.rows);
        let mut v = BTreeSet::new();
        for (k, c) in self.cons.iter().enumerate() {
            for &r in &c.rows {
                let t = |col: usize, o: isize| trace[wrap(r, o, self.rows) * self.cols + col];
                let x = g.pow(r as u64);
                if c.num.eval(x, &t, &self.claims).map_or(true, |v| !v.is_zero()) {
                    let _ = v.insert((r, k));
                }
            }
        }
        v
    }

    pub fn describe(&self, g: &mut Gen) {
        g.describe(|| format!("{:?}", self));
    }
}

/// Row pattern: enforced rows, exceptions (numerator), vanishing polynomial
struct Pattern {
    rows: Vec<usize>,
    exc:  Vec<usize>,
    den:  E,
}

fn x_pow(g: &mut Gen, n: usize) -> E {
    match g.below(6) {
        0 if n >= 4 => pow(pow(E::X, n / 2), 2),
        1 if n >= 4 => pow(pow(E::X, 2), n / 2),
        2 if n >= 4 => mul(pow(E::X, n / 2), pow(E::X, n / 2)),
        3 if n == 2 => mul(E::X, E::X),
        4 if n == 1 => E::X,
        _ => pow(E::X, n),
    }
}

fn row_const(g: &mut Gen, w: Fp, r: usize, n: usize) -> E {
    match g.below(4) {
        0 => pow(E::C(w), r),
        1 => inv(E::C(w.pow((n - r) as u64))),
        _ => E::C(w.pow(r as u64)),
    }
}

fn on_row(g: &mut Gen, w: Fp, r: usize, n: usize) -> E {
    sub(E::X, row_const(g, w, r, n))
}

fn full(g: &mut Gen, n: usize) -> E {
    let p = x_pow(g, n);
    match g.below(3) {
        0 => add(p, neg(E::C(Fp::one()))),
        1 => add(p, E::C(Fp::one().neg())),
        _ => sub(p, E::C(Fp::one())),
    }
}

fn pattern(g: &mut Gen, n: usize) -> Pattern {
    let w = root(n);
    match g.below(6) {
        0 => Pattern {
            rows: (0..n).collect(),
            exc:  vec![],
            den:  full(g, n),
        },
        1 => {
            let k = g.usize_in(1, 3.min(n));
            let mut exc: Vec<usize> = (0..k)
                .map(|_| match g.below(3) {
                    0 => n - 1,
                    1 => 0,
                    _ => g.below(n as u64) as usize,
                })
                .collect();
            exc.sort_unstable();
            exc.dedup();
            Pattern {
                rows: (0..n).filter(|r| !exc.contains(r)).collect(),
                den: full(g, n),
                exc,
            }
        }
        2 => {
            let r = match g.below(3) {
                0 => 0,
                1 => n - 1,
                _ => g.below(n as u64) as usize,
            };
            Pattern {
                rows: vec![r],
                exc:  vec![],
                den:  on_row(g, w, r, n),
            }
        }
        3 => {
            let a = g.below(n as u64) as usize;
            let b = g.below(n as u64) as usize;
            let mut rows = vec![a, b];
            rows.sort_unstable();
            rows.dedup();
            let mut den = on_row(g, w, rows[0], n);
            for &r in &rows[1..] {
                den = mul(den, on_row(g, w, r, n));
            }
            Pattern {
                rows,
                exc: vec![],
                den,
            }
        }
        _ => {
            let lg = n.trailing_zeros() as usize;
            let k = 1_usize << g.usize_in(0, lg);
            let j = g.below(k as u64) as usize;
            let mut exc = Vec::new();
            if g.one_in(3) && n / k > 1 {
                exc.push(j + k * g.below((n / k) as u64) as usize);
            }
            let p = x_pow(g, n / k);
            Pattern {
                rows: (0..n).filter(|r| r % k == j && !exc.contains(r)).collect(),
                den: sub(p, E::C(w.pow((j * (n / k)) as u64))),
                exc,
            }
        }
    }
}

fn assemble(g: &mut Gen, num: &E, p: &Pattern, n: usize, wide: bool) -> E {
    let w = root(n);
    let mut e = num.clone();
    let exc: Vec<E> = p.exc.iter().map(|&r| on_row(g, w, r, n)).collect();
    match g.below(3) {
        0 => {
            for x in exc {
                e = mul(e, x);
            }
            e = div(e, p.den.clone());
        }
        1 => {
            let mut v = inv(p.den.clone());
            for x in exc {
                v = mul(x, v);
            }
            e = mul(e, v);
        }
        _ => {
            e = mul(inv(p.den.clone()), e);
            for x in exc {
                e = mul(x, e);
            }
        }
    }
    // Harmless disguises
    match g.below(18) {
        0 => neg(e),
        1 => mul(e, E::C(Fp::from_u64(7))),
        2 => mul(inv(E::C(Fp::from_u64(11))), e),
        3 => pow(e, 1),
        4 => mul(e, pow(E::T(0, 0), 0)),
        5 => neg(neg(e)),
        // a factor without zeros on the trace, with powers beyond every domain
        6 | 7 | 8 if wide => {
            let base = match g.below(4) {
                0 => add(E::X, E::C(constant(g))),
                1 => add(pow(E::X, g.usize_in(1, 2 * n)), E::C(constant(g))),
                _ => E::X,
            };
            let k = match g.below(3) {
                0 => g.usize_in(0, 7),
                1 => g.usize_in(0, 300),
                _ => n << g.usize_in(0, 8),
            };
            let j = match g.below(4) {
                0 => 0,
                1 => 1,
                _ => g.usize_in(0, n),
            };
            if g.bool() {
                mul(div(pow(base.clone(), k + j), pow(base, k)), e)
            } else {
                mul(mul(pow(base.clone(), k + j), e), inv(pow(base, k)))
            }
        }
        _ => e,
    }
}

/// A constraint that mentions no cell: true or false whatever the trace
pub fn cell_free(g: &mut Gen, n: usize) -> Con {
    let w = root(n);
    let p = pattern(g, n);
    let num = match g.below(6) {
        0 => E::C(Fp::zero()),
        1 => E::C(constant(g)),
        2 => full(g, n),
        3 => {
            let k = 1 << g.usize_in(0, n.trailing_zeros() as usize);
            let v = (0..k).map(|_| felt(g)).collect();
            E::P(v, Box::new(pow(E::X, n / k)))
        }
        _ => {
            // zero on one of the enforced rows at least
            let r = if p.rows.is_empty() { 0 } else { *g.pick(&p.rows) };
            on_row(g, w, r, n)
        }
    };
    let e = assemble(g, &num, &p, n, false);
    Con { num, rows: p.rows, e }
}

/// Nowhere near minus a power of a root of unity
fn constant(g: &mut Gen) -> Fp {
    let mut rng = Rng::new(g.u64());
    rand_felt(&mut rng)
}

/// A polynomial relation over the allowed cells.
fn relation(g: &mut Gen, s: &Sys, cells: &[(usize, isize)], depth: usize, deg: usize) -> E {
    let n = s.rows;
    if depth == 0 || g.one_in(4) {
        return leaf(g, s, cells, deg);
    }
    match g.below(10) {
        0 | 1 => add(relation(g, s, cells, depth - 1, deg), relation(g, s, cells, depth - 1, deg)),
        2 => sub(relation(g, s, cells, depth - 1, deg), relation(g, s, cells, depth - 1, deg)),
        3 | 4 | 8 | 9 if deg >= 2 => {
            let d = g.usize_in(1, deg - 1);
            mul(relation(g, s, cells, depth - 1, d), relation(g, s, cells, depth - 1, deg - d))
        }
        5 => {
            let e = g.usize_in(0, deg);
            if e == 0 {
                pow(relation(g, s, cells, depth - 1, 1), 0)
            } else {
                pow(relation(g, s, cells, depth - 1, deg / e), e)
            }
        }
        6 => neg(relation(g, s, cells, depth - 1, deg)),
        7 => {
            // periodic column times something
            let lg = n.trailing_zeros() as usize;
            let longest = if g.one_in(6) { lg } else { lg.min(3) };
            let l = 1_usize << g.usize_in(0, longest);
            let mut rng = Rng::new(g.u64());
            let mut p: Vec<Fp> = (0..l).map(|_| rand_felt(&mut rng)).collect();
            if g.one_in(4) {
                p[l - 1] = Fp::zero();
            }
            let arg = x_pow(g, n / l);
            mul(E::P(p, Box::new(arg)), relation(g, s, cells, depth - 1, deg))
        }
        _ => mul(E::C(felt(g)), relation(g, s, cells, depth - 1, deg)),
    }
}

fn leaf(g: &mut Gen, s: &Sys, cells: &[(usize, isize)], deg: usize) -> E {
    match g.below(13) {
        0 => E::C(felt(g)),
        1 => E::X,
        2 | 4 | 5 if !s.claims.is_empty() => {
            let i = g.below(s.claims.len() as u64) as usize;
            let d = poly_degree(&s.claims[i]);
            let bound = d + g.usize_in(0, 2);
            let arg = if g.bool() { E::X } else { pow(E::X, g.usize_in(1, 2)) };
            E::Q(i, bound, Box::new(arg))
        }
        3 => {
            let mut rng = Rng::new(g.u64());
            E::P((0..2).map(|_| rand_felt(&mut rng)).collect(), Box::new(E::X))
        }
        _ if deg >= 1 && !cells.is_empty() => {
            let (c, o) = *g.pick(cells);
            E::T(c, o)
        }
        _ => E::C(felt(g)),
    }
}

pub struct Limits {
    pub max_log_rows: usize,
    /// This many rows, whatever the maximum
    pub log_rows:     Option<usize>,
    pub max_cols:     usize,
    pub max_degree:   usize,
    pub claims:       bool,
    /// Enforce only relations that do not reach over the table's edge
    pub no_wrap:      bool,
    /// Now and then many columns, constraints, queries, ..
    pub wide:         bool,
    /// Many more constraints than a byte counts coefficients for
    pub many:         bool,
    /// with `many`: now and then more than 255 columns
    pub widest:       bool,
    /// Cells that lie powers of two apart
    pub far:          bool,
}

impl Default for Limits {
    fn default() -> Self {
        Limits {
            max_log_rows: 7,
            log_rows:     None,
            max_cols:     4,
            max_degree:   5,
            claims:       true,
            no_wrap:      false,
            wide:         true,
            many:         false,
            widest:       false,
            far:          false,
        }
    }
}

fn fill(g: &mut Gen, n: usize) -> Vec<Fp> {
    let mut rng = Rng::new(g.u64());
    match g.below(8) {
        0 => vec![Fp::zero(); n],
        1 => vec![felt(g); n],
        2 => (0..n).map(|i| Fp::from_u64(i as u64)).collect(),
        3 => (0..n).map(|_| Fp::from_u64(rng.next() & 3)).collect(),
        _ => (0..n).map(|_| rand_felt(&mut rng)).collect(),
    }
}

pub fn system(g: &mut Gen, lim: &Limits) -> Sys {
    let lg = match g.below(5) {
        0 => 1,
        1 => 2,
        2 => 3.min(lim.max_log_rows),
        _ => g.usize_in(2.min(lim.max_log_rows), lim.max_log_rows),
    };
    let n = 1_usize << lim.log_rows.unwrap_or(lg);
    let cols = if lim.many {
        if lim.widest && n <= 64 && g.one_in(8) {
            g.usize_in(250, 300)
        } else if g.one_in(6) {
            g.usize_in(30, 100)
        } else {
            g.usize_in(1, 20)
        }
    } else if lim.wide && n <= 64 && g.one_in(16) {
        g.usize_in(1, 24)
    } else {
        g.usize_in(1, lim.max_cols)
    };
    let deg = g.usize_in(1, lim.max_degree);
    let w = root(n);
    let k = if g.one_in(8) { g.below(400) } else { g.below(12) } as usize;
    let seed = if g.bool() { g.bytes(k) } else { vec![] };
    let mut s = Sys {
        rows: n,
        cols,
        seed,
        cons: vec![],
        claims: vec![],
        blowup: 0,
        pow: 0,
        queries: 0,
        layout: vec![],
        trace: vec![Fp::zero(); n * cols],
    };
    if lim.claims && g.one_in(3) {
        let most = if g.one_in(6) { 5 } else { 2 };
        for _ in 0..g.usize_in(1, most) {
            // lengths are powers of two; the degree stays well below the trace length
            let longest = if g.one_in(4) { (n.trailing_zeros() as usize).saturating_sub(2).max(1).min(6) } else { 1 };
            let l = 1_usize << g.usize_in(0, longest);
            s.claims.push((0..l).map(|_| felt(g)).collect());
        }
    }
    for c in 0..cols {
        let col = fill(g, n);
        for r in 0..n {
            s.trace[r * cols + c] = col[r];
        }
        let off = |g: &mut Gen| -> isize {
            if lim.far && !g.one_in(6) {
                let k = 1_isize << g.usize_in(n.trailing_zeros() as usize / 2, n.trailing_zeros() as usize - 1);
                return *g.pick(&[0, k, k, -k, k - 1, k + 1]);
            }
            match g.below(6) {
                0 | 1 => 0,
                2 => 1,
                3 => -1,
                4 => g.usize_in(0, n) as isize - (n / 2) as isize,
                _ => {
                    // once or several times around
                    let k = if g.one_in(3) { g.usize_in(1, 4) * n + g.usize_in(0, 2) } else { n } as isize;
                    if g.bool() {
                        k
                    } else {
                        -k
                    }
                }
            }
        };
        match g.below(8) {
            // unconstrained
            7 => {}
            // defined by earlier columns
            0 | 1 | 2 => {
                let mut cells = Vec::new();
                if c > 0 {
                    for _ in 0..g.usize_in(1, 3) {
                        let cc = g.below(c as u64) as usize;
                        let o = off(g);
                        cells.push((cc, o));
                    }
                }
                let f = relation(g, &s, &cells, 3, deg);
                let o = off(g);
                let p = pattern(g, n);
                let reach = |r: usize, o: isize| {
                    let t = r as isize + o;
                    t >= 0 && t < n as isize
                };
                if lim.no_wrap && p.rows.iter().any(|&r| !reach(r, o) || cells.iter().any(|&(_, o)| !reach(r, o))) {
                    continue;
                }
                for &r in &p.rows {
                    let v = {
                        let t = |cc: usize, oo: isize| s.trace[wrap(r, oo, n) * cols + cc];
                        f.eval(w.pow(r as u64), &t, &s.claims).unwrap()
                    };
                    s.trace[wrap(r, o, n) * cols + c] = v;
                }
                let num = if g.bool() { sub(E::T(c, o), f) } else { sub(f, E::T(c, o)) };
                let e = assemble(g, &num, &p, n, lim.wide);
                s.cons.push(Con {
                    num,
                    rows: p.rows,
                    e,
                });
            }
            // recurrence
            _ => {
                let k = g.usize_in(1, 3.min(n - 1));
                let base = if g.bool() { 0 } else { -(k as isize) };
                let mut cells: Vec<(usize, isize)> = Vec::new();
                for _ in 0..g.usize_in(1, 3) {
                    if c > 0 && g.one_in(3) {
                        let cc = g.below(c as u64) as usize;
                        let o = if lim.no_wrap { base } else { off(g) };
                        cells.push((cc, o));
                    } else {
                        cells.push((c, base + g.below(k as u64) as isize));
                    }
                }
                let f = relation(g, &s, &cells, 3, deg);
                let target = base + k as isize;
                // enforced where the window does not wrap
                let lo = if base < 0 { k } else { 0 };
                let rows: Vec<usize> = (lo..lo + n - k).collect();
                let exc: Vec<usize> = (0..n).filter(|r| !rows.contains(r)).collect();
                for &r in &rows {
                    let v = {
                        let t = |cc: usize, oo: isize| s.trace[wrap(r, oo, n) * cols + cc];
                        f.eval(w.pow(r as u64), &t, &s.claims).unwrap()
                    };
                    s.trace[wrap(r, target, n) * cols + c] = v;
                }
                let p = Pattern {
                    rows,
                    exc,
                    den: full(g, n),
                };
                let num = sub(E::T(c, target), f);
                let e = assemble(g, &num, &p, n, lim.wide);
                s.cons.push(Con {
                    num,
                    rows: p.rows,
                    e,
                });
            }
        }
    }
    // boundary constraints
    let most = if lim.wide && g.one_in(16) { 40 } else { 4 };
    let count = if lim.many { g.usize_in(60, 300) } else { g.usize_in(0, most) };
    for _ in 0..count {
        let c = g.below(cols as u64) as usize;
        let r = g.below(n as u64) as usize;
        let o = match g.below(4) {
            0 => 1,
            1 => -1,
            _ => 0,
        };
        if lim.no_wrap && (r as isize + o < 0 || r as isize + o >= n as isize) {
            continue;
        }
        let num = sub(E::T(c, o), E::C(s.trace[wrap(r, o, n) * cols + c]));
        let den = on_row(g, w, r, n);
        let p = Pattern {
            rows: vec![r],
            exc: vec![],
            den,
        };
        let e = assemble(g, &num, &p, n, lim.wide);
        s.cons.push(Con {
            num,
            rows: vec![r],
            e,
        });
    }
    // drop what does not fit the degree bound
    loop {
        s.cons.retain(|c| {
            let (a, b) = c.e.degree(0, 1);
            a >= b && a - b <= lim.max_degree.max(2)
        });
        if s.cons.is_empty() || s.degree() == 0 {
            let v = s.trace[0];
            let num = sub(E::T(0, 0), E::C(v));
            let e = div(num.clone(), sub(E::X, E::C(Fp::one())));
            s.cons.push(Con {
                num,
                rows: vec![0],
                e,
            });
        }
        let adj = s.adjustments();
        if adj.iter().all(|a| a.is_some()) {
            break;
        }
        let mut it = adj.iter();
        s.cons.retain(|_| it.next().unwrap().is_some());
    }
    if g.one_in(4) && s.cons.len() > 1 {
        let k = g.below(s.cons.len() as u64) as usize;
        s.cons.rotate_left(k);
    }
    params(g, &mut s);
    if lim.many {
        s.blowup = s.eval_degree().max(2);
        s.queries = s.queries.min(20);
    }
    s
}

/// Admissible protocol parameters.
pub fn params(g: &mut Gen, s: &mut Sys) {
    let ed = s.eval_degree();
    s.blowup = (ed << g.usize_in(0, 3)).max(2).min(ed.max(32));
    if s.rows <= 32 && g.one_in(10) {
        s.blowup <<= g.usize_in(0, 4);
    }
    s.pow = match g.below(20) {
        0..=9 => 0,
        10 => g.usize_in(9, 13),
        _ => g.usize_in(0, 8),
    };
    s.queries = match g.below(16) {
        0 => g.usize_in(1, 300),
        1 | 2 | 3 | 4 => 1,
        5 | 6 | 7 | 8 => g.usize_in(1, 4),
        _ => g.usize_in(1, 30),
    };
    let lg = s.rows.trailing_zeros() as usize;
    let mut left = match g.below(3) {
        0 => lg,
        _ => g.usize_in(1, lg),
    };
    s.layout.clear();
    // now and then as many layers as possible
    let most = if g.one_in(8) {
        left = lg;
        1
    } else {
        // the prover has no larger folds
        4
    };
    while left > 0 {
        let k = g.usize_in(1, left.min(most));
        s.layout.push(k);
        left -= k;
    }
}

/// Labels that describe what a system exercises
pub fn labels(g: &mut Gen, s: &Sys) {
    let d = s.degree();
    g.label_if(!d.is_power_of_two(), "degree not a power of two");
    g.label_if(d >= 2, "degree 2 or more");
    g.label_if(s.args().iter().any(|a| a.1 < 0), "negative offset");
    let used: BTreeSet<usize> = s.args().iter().map(|a| a.0).collect();
    g.label_if(used.len() < s.cols, "unused column");
    g.label_if(!s.claims.is_empty(), "claim polynomials");
    g.label_if(s.cons.len() > 2, "three or more constraints");
    g.label_if(s.layout.len() > 1, "several folding layers");
    g.label_if(s.pow > 0, "proof of work");
    g.label_if(s.blowup == s.eval_degree(), "minimal blowup");
    g.label_if(s.layout.iter().sum::<usize>() == s.rows.trailing_zeros() as usize, "folded to a constant");
}

/// Alter a few cells
pub fn corrupt(g: &mut Gen, s: &Sys) -> Vec<Fp> {
    let mut t = s.trace.clone();
    for _ in 0..g.usize_in(1, 3) {
        let r = match g.below(4) {
            0 => 0,
            1 => s.rows - 1,
            _ => g.below(s.rows as u64) as usize,
        };
        let c = g.below(s.cols as u64) as usize;
        let v = match g.below(4) {
            0 => Fp::zero(),
            1 => t[r * s.cols + c] + Fp::one(),
            2 => {
                let r2 = g.below(s.rows as u64) as usize;
                t[r2 * s.cols + c]
            }
            _ => felt(g),
        };
        t[r * s.cols + c] = v;
    }
    t
}
