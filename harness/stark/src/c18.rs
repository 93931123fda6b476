//! C18: dense polynomials and trace tables.
use crate::{expr::*, proto::{bitrev, intt}};
use vpbt::{ensure, ensure_eq, gen::Rng, no_panic, CaseResult, Facet, Fp, Gen, Property};
use zkp_mmap_vec::MmapVec;
use zkp_primefield::FieldElement;
use zkp_stark::{component::PolynomialWriter, DensePolynomial, TraceTable};

fn coefs(g: &mut Gen, max_log: usize) -> Vec<Fp> {
    let n = 1_usize << g.usize_in(0, max_log);
    let mut rng = Rng::new(g.u64());
    let mut v: Vec<Fp> = match g.below(5) {
        0 => vec![Fp::zero(); n],
        1 => {
            let mut v = vec![Fp::zero(); n];
            let i = g.below(n as u64) as usize;
            v[i] = felt(g);
            v
        }
        2 => (0..n).map(|_| Fp::from_u64(rng.next() & 3)).collect(),
        _ => (0..n).map(|_| rand_felt(&mut rng)).collect(),
    };
    if g.one_in(3) {
        // leading zeros: true degree below the length
        let k = g.usize_in(0, n);
        for c in &mut v[k..] {
            *c = Fp::zero();
        }
        g.label("trailing zero coefficients");
    }
    v
}

fn point(g: &mut Gen, n: usize) -> Fp {
    match g.below(4) {
        0 => root(n).pow(g.below(n as u64)),
        1 => Fp::from_u64(3) * root(4 * n).pow(g.below(4 * n as u64)),
        _ => felt(g),
    }
}

fn polynomial(g: &mut Gen) -> CaseResult {
    let max = if g.one_in(200) { 16 } else { 8 };
    let v = coefs(g, max);
    let n = v.len();
    let x = point(g, n);
    g.describe(|| format!("{} coefficients, degree {}, at {:?}", n, poly_degree(&v), x));
    if v.iter().any(|c| !c.is_zero()) {
        g.nontrivial();
    }
    let fv: Vec<FieldElement> = v.iter().map(|c| fe(*c)).collect();
    let p = match g.below(2) {
        0 => DensePolynomial::new(&fv),
        _ => {
            let mut m = MmapVec::with_capacity(n);
            m.extend_from_slice(&fv);
            DensePolynomial::from_mmap_vec(m)
        }
    };
    ensure_eq!(p.len(), n, "length");
    ensure!(!p.is_empty(), "empty");
    ensure!(p.coefficients() == &fv[..], "coefficients");
    ensure_eq!(p.degree(), poly_degree(&v), "degree of {} coefficients", n);
    ensure_eq!(fp(&p.evaluate(&fe(x))), horner(&v, x), "value at {:?}", x);
    // zero polynomial
    let z = DensePolynomial::zeros(n);
    ensure_eq!(z.len(), n, "zeros");
    ensure_eq!(z.degree(), 0, "degree of zero");
    ensure!(z.coefficients().iter().all(|c| fp(c).is_zero()), "zeros");
    // equality
    let mut w = v.clone();
    match g.below(5) {
        0 => {}
        1 => w.resize(2 * n, Fp::zero()),
        2 => {
            let i = g.below(n as u64) as usize;
            w[i] = w[i] + Fp::one();
        }
        3 => {
            let i = g.below(n as u64) as usize;
            let j = g.below(n as u64) as usize;
            w.swap(i, j);
        }
        _ => {
            // same value at the point (and 0, if possible), but different
            if n >= 2 {
                let a = g.below(n as u64 - 1) as usize;
                w[a + 1] = w[a + 1] + Fp::one();
                w[a] = w[a] - x;
                g.label("agree at a point");
            }
        }
    }
    let trim = |v: &[Fp]| v[..=poly_degree(v)].to_vec();
    ensure_eq!(p == dense(&w), trim(&v) == trim(&w), "equality of polynomials");
    Ok(())
}

/// Polynomials that agree at the points a fingerprint might use.
fn equality(g: &mut Gen) -> CaseResult {
    // The constants are public in the source; any fixed point can be attacked
    let fixed = [
        [0x2078a9e1f7e36072_u64, 0x0, 0x0, 0x0],
        [0xebff1bf4e193d11b, 0x2078a9e1f7e36072, 0xb552bb254c089004, 0x754ed488ec9208d1],
        [0xebff1bf4e193d11b, 0x2078a9e1f7e36072, 0xc552bb254c089004, 0x754ed488ec9208d1],
    ];
    let l = *g.pick(&fixed);
    // reduce modulo p
    let x = Fp::from_nat(&vpbt::Nat::from_limbs(&l));
    let v = coefs(g, 4);
    let mut w = v.clone();
    w.resize(w.len().max(2), Fp::zero());
    let c = felt(g);
    w[1] = w[1] + c;
    w[0] = w[0] - c * x;
    g.describe(|| format!("{:?} and itself plus {:?} (X - {:?})", v, c, x));
    if !c.is_zero() {
        g.nontrivial();
    }
    ensure_eq!(dense(&v) == dense(&w), c.is_zero(), "equality of polynomials that agree at {:?}", x);
    Ok(())
}

fn extension(g: &mut Gen) -> CaseResult {
    let big = g.one_in(200);
    let v = coefs(g, if big { 13 } else { 6 });
    let n = v.len();
    let blowup = 1_usize << g.usize_in(0, if big { 4 } else { 6 });
    g.label_if(big, "large");
    let m = n * blowup;
    g.describe(|| format!("{} coefficients, degree {}, blowup {}", n, poly_degree(&v), blowup));
    if n > 1 && blowup > 1 {
        g.nontrivial();
    }
    let e = dense(&v).low_degree_extension(blowup);
    ensure_eq!(e.len(), m, "size of the extension");
    let w = root(m);
    for _ in 0..12 {
        let j = g.below(m as u64) as usize;
        let x = Fp::from_u64(3) * w.pow(bitrev(m, j) as u64);
        ensure_eq!(fp(&e[j]), horner(&v, x), "extension of {} coefficients, blowup {}, at position {}", n, blowup, j);
    }
    let all = crate::proto::coset(&v, m, Fp::from_u64(3));
    for j in 0..m {
        ensure_eq!(fp(&e[j]), all[bitrev(m, j)], "extension, position {}", j);
    }
    Ok(())
}

fn divide(g: &mut Gen) -> CaseResult {
    let max = if g.one_in(200) { 16 } else { 7 };
    let v = coefs(g, max);
    let n = v.len();
    let z = point(g, n);
    let mut v = v;
    if g.one_in(3) {
        // make z a root
        v[0] = v[0] - horner(&v, z);
        g.label("root of the polynomial");
    }
    let k = felt(g);
    let mut rng = Rng::new(g.u64());
    let t: Vec<Fp> = if g.bool() { vec![Fp::zero(); n] } else { (0..n).map(|_| rand_felt(&mut rng)).collect() };
    g.describe(|| format!("{} coefficients, z {:?}, weight {:?}", n, z, k));
    if n > 1 && !k.is_zero() {
        g.nontrivial();
    }
    let mut target = dense(&t);
    dense(&v).divide_out_point_into(&fe(z), &fe(k), &mut target);
    ensure_eq!(target.len(), n, "length");
    // difference times (X - z) is weight times (P - P(z))
    let q: Vec<Fp> = target.coefficients().iter().zip(&t).map(|(a, b)| fp(a) - *b).collect();
    ensure!(q[n - 1].is_zero() , "leading coefficient of the quotient");
    let value = horner(&v, z);
    for i in 0..n {
        let lo = if i == 0 { Fp::zero() } else { q[i - 1] };
        let want = if i == 0 { v[0] - value } else { v[i] };
        ensure_eq!(lo - z * q[i], k * want, "coefficient {} of quotient times divisor", i);
    }
    Ok(())
}

fn table(g: &mut Gen) -> CaseResult {
    let big = g.one_in(600);
    let rows = 1_usize << if big { g.usize_in(7, 14) } else { g.usize_in(0, 6) };
    let wide = !big && rows <= 16 && g.one_in(40);
    let cols = g.usize_in(1, if big { 3 } else if wide { 300 } else { 6 });
    g.label_if(cols > 6, "many columns");
    g.label_if(big, "large table");
    let mut t = TraceTable::new(rows, cols);
    let mut model = vec![vec![Fp::zero(); cols]; rows];
    let ops = g.usize_in(0, 60);
    g.describe(|| format!("{} x {}, {} writes", rows, cols, ops));
    if ops > 0 && rows > 1 {
        g.nontrivial();
    }
    ensure_eq!(t.num_rows(), rows, "rows");
    ensure_eq!(t.num_columns(), cols, "columns");
    for r in 0..rows {
        for c in 0..cols {
            ensure!(fp(&t[(r, c)]).is_zero(), "not zero initialized");
        }
    }
    for _ in 0..ops {
        let r = g.below(rows as u64) as usize;
        let c = g.below(cols as u64) as usize;
        let v = felt(g);
        match g.below(4) {
            0 => t[(r, c)] = fe(v),
            1 => t[r][c] = fe(v),
            2 => t.write(c, r, fe(v)),
            _ => {
                t[(r, c)] = fe(v);
                let copy = t.clone();
                ensure!(copy == t, "clone differs");
                t = copy;
            }
        }
        model[r][c] = v;
    }
    for r in 0..rows {
        ensure_eq!(t[r].len(), cols, "row length");
        let it: Vec<Fp> = t.iter_row(r).map(fp).collect();
        ensure!(it == model[r], "row {} iterates as {:?}, expected {:?}", r, it, model[r]);
        for c in 0..cols {
            ensure_eq!(fp(&t[(r, c)]), model[r][c], "cell ({}, {})", r, c);
            ensure_eq!(fp(&t[r][c]), model[r][c], "cell [{}][{}]", r, c);
        }
    }
    let polys = t.interpolate();
    ensure_eq!(polys.len(), cols, "number of interpolated columns");
    for c in 0..cols {
        let want: Vec<Fp> = (0..rows).map(|r| model[r][c]).collect();
        let it: Vec<Fp> = t.iter_column(c).map(fp).collect();
        ensure!(it == want, "column {} iterates as {:?}, expected {:?}", c, it, want);
        let it: Vec<Fp> = t.column_to_mmapvec(c).iter().map(fp).collect();
        ensure!(it == want, "column {} extracts as {:?}, expected {:?}", c, it, want);
        let p: Vec<Fp> = polys[c].coefficients().iter().map(fp).collect();
        ensure!(p == intt(&want), "column {} interpolates to {:?}", c, p);
    }
    ensure_eq!(fp(&t.generator()), root(rows), "generator");
    // another table: equal exactly when all cells are
    let mut u = t.clone();
    let r = g.below(rows as u64) as usize;
    let c = g.below(cols as u64) as usize;
    let v = felt(g);
    u[(r, c)] = fe(v);
    ensure_eq!(u == t, v == model[r][c], "equality of tables");
    ensure_eq!(fp(&t[(r, c)]), model[r][c], "clone is independent");
    // outside
    let far = rows + g.below(3) as usize;
    let wide = cols + g.below(3) as usize;
    for &(r, c) in &[(far, 0), (0, wide), (rows - 1, wide), (far, cols - 1)] {
        let mut u = t.clone();
        let changed = no_panic(|| u[(r, c)] = fe(v)).is_ok();
        ensure!(!changed, "cell ({}, {}) outside the table of {} x {} is writable", r, c, rows, cols);
        let mut u = t.clone();
        let changed = no_panic(|| u.write(c, r, fe(v))).is_ok();
        ensure!(!changed, "cell ({}, {}) outside the table of {} x {} is writable by write", r, c, rows, cols);
    }
    let t = &t;
    ensure!(no_panic(|| fp(&t[(rows, 0)])).is_err(), "row outside the table is readable");
    ensure!(no_panic(|| fp(&t[(0, cols)])).is_err(), "column outside the table is readable");
    ensure!(no_panic(|| t[rows].len()).is_err(), "row slice outside the table is readable");
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C18",
        rule: "a case counts as non-trivial when the polynomial is not zero (or has more than one coefficient and a \
               blowup or weight that matters), or the table has several rows and at least one write",
        assumptions: &[
            "field elements are exchanged through the Montgomery accessors, whose meaning is property C04",
            "divide_out_point_into is called with a target of the polynomial's own length, as the prover does",
        ],
        facets: vec![
            Facet::new("polynomial", 80000, 600000, polynomial),
            Facet::new("equality", 10000, 150000, equality),
            Facet::new("extension", 20000, 180000, extension),
            Facet::new("divide", 80000, 600000, divide),
            Facet::new("table", 25000, 225000, table),
        ],
    }
}
