//! C17: compile-time literals.
use proc_macro2::TokenStream;
use std::{fmt::Write as _, str::FromStr};
use vpbt::{ensure, ensure_eq, fail, CaseResult, Facet, Failure, Fp, Gen, Nat, Property};

#[derive(Debug, PartialEq, Clone)]
enum Expansion {
    Bytes(Vec<u8>),
    Int([u64; 4]),
    Field([u64; 4]),
    Refused,
    /// Not a shape this evaluator understands; left to the compiled facet.
    Unknown(String),
}

fn limbs_of(e: &syn::Expr) -> Option<[u64; 4]> {
    match e {
        syn::Expr::Array(a) if a.elems.len() == 4 => {
            let mut r = [0; 4];
            for (i, x) in a.elems.iter().enumerate() {
                match x {
                    syn::Expr::Lit(syn::ExprLit {
                        lit: syn::Lit::Int(n), ..
                    }) => r[i] = n.base10_parse().ok()?,
                    _ => return None,
                }
            }
            Some(r)
        }
        _ => None,
    }
}

fn call(e: &syn::Expr) -> Option<(String, &syn::Expr)> {
    match e {
        syn::Expr::Call(c) if c.args.len() == 1 => match &*c.func {
            syn::Expr::Path(p) => Some((p.path.segments.last()?.ident.to_string(), &c.args[0])),
            _ => None,
        },
        _ => None,
    }
}

fn evaluate(t: TokenStream) -> Expansion {
    let text = t.to_string();
    if text.contains("compile_error") {
        return Expansion::Refused;
    }
    let e: syn::Expr = match syn::parse2(t) {
        Ok(e) => e,
        Err(_) => return Expansion::Unknown(text),
    };
    let r = match &e {
        syn::Expr::Unary(u) => match &*u.expr {
            syn::Expr::Lit(syn::ExprLit {
                lit: syn::Lit::ByteStr(b),
                ..
            }) => Some(Expansion::Bytes(b.value())),
            _ => None,
        },
        _ => call(&e).and_then(|(f, arg)| match f.as_str() {
            "from_limbs" => limbs_of(arg).map(Expansion::Int),
            "from_montgomery_const" => call(arg).and_then(|(f, a)| if f == "from_limbs" { limbs_of(a) } else { None }).map(Expansion::Field),
            _ => None,
        }),
    };
    r.unwrap_or(Expansion::Unknown(text))
}

/// The value of a digit string, or None if the macros must refuse it.
fn digits(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 || !s.bytes().all(|b| b.is_ascii_hexdigit()) {
        return None;
    }
    Some((0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect())
}

fn value(bytes: &[u8]) -> Option<[u64; 4]> {
    if bytes.len() > 32 {
        return None;
    }
    let mut b = [0_u8; 32];
    b[32 - bytes.len()..].copy_from_slice(bytes);
    let mut r = [0; 4];
    for i in 0..4 {
        let mut x = [0; 8];
        x.copy_from_slice(&b[8 * i..8 * i + 8]);
        r[3 - i] = u64::from_be_bytes(x);
    }
    Some(r)
}

fn text(g: &mut Gen) -> String {
    let l = if g.one_in(4) {
        // near the modulus
        let p = Fp::modulus();
        let d = Nat::from_limbs(&[g.below(4), 0, 0, 0]);
        let m = p.mul(&Nat::from_limbs(&[1 + g.below(31), 0, 0, 0]));
        let v = if g.bool() { m.add(&d) } else { m.sub(&d) };
        let w = v.limbs(4);
        [w[0], w[1], w[2], w[3]]
    } else {
        g.limbs4()
    };
    let mut s = format!("{:016x}{:016x}{:016x}{:016x}", l[3], l[2], l[1], l[0]);
    match g.below(6) {
        0 => {
            // without leading zeros
            s = s.trim_start_matches('0').to_string();
            if s.len() % 2 == 1 && g.below(4) != 0 {
                s.insert(0, '0');
            }
        }
        1 => {
            let n = 2 * g.usize_in(0, 32);
            s = s[64 - n..].to_string();
        }
        2 => {
            // too long, or leading zero bytes beyond 32
            let k = if g.one_in(4) { g.usize_in(9, 1500) } else { g.usize_in(1, 8) };
            s = format!("{}{}", if g.bool() { "0".repeat(2 * k) } else { "5a".repeat(k) }, s);
        }
        _ => {}
    }
    match g.below(4) {
        0 => s = s.to_uppercase(),
        1 => {
            let mask = g.u64();
            s = s.chars().enumerate().map(|(i, c)| if mask >> (i % 64) & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect();
        }
        _ => {}
    }
    if g.one_in(5) {
        // malformed
        let at = g.below(s.len() as u64 + 1) as usize;
        match g.below(7) {
            0 => s.insert(at, *g.pick(&['g', 'G', 'z', ' ', '_', '-', '+', '.', '/', ':', '@', '`'])),
            1 => s.insert_str(at, g.pick(&["é", "𝟘", "\u{0}", "\\n"]).replace("\\n", "\n").as_str()),
            2 => s.insert_str(0, "0x"),
            3 => {
                if !s.is_empty() {
                    let _ = s.pop();
                }
            }
            4 => s.insert(at, '0'),
            5 => {
                if at < s.len() {
                    s.replace_range(at..at + 1, g.pick(&["g", "x", " ", "O"]));
                }
            }
            _ => s.insert_str(0, "0X"),
        }
    }
    s
}

fn literal(g: &mut Gen, s: &str) -> String {
    match g.below(3) {
        0 if !s.contains('"') && !s.contains('\0') => format!("r\"{}\"", s),
        1 if !s.contains('"') && !s.contains('\0') => format!("r#\"{}\"#", s),
        _ => format!("{:?}", s),
    }
}

fn tokens(g: &mut Gen) -> CaseResult {
    let s = text(g);
    let lit = literal(g, &s);
    g.describe(|| lit.clone());
    g.nontrivial();
    let t = || TokenStream::from_str(&lit).expect("token stream");
    let bytes = digits(&s);
    g.label_if(bytes.is_none(), "malformed");
    let want = match &bytes {
        None => Expansion::Refused,
        Some(b) => Expansion::Bytes(b.clone()),
    };
    let got = evaluate(zkp_macros_lib::hex(t()));
    if let Expansion::Unknown(_) = got {
        g.label("unknown shape");
    } else {
        ensure_eq!(got, want, "hex!({})", lit);
    }
    let val = bytes.as_ref().and_then(|b| value(b));
    g.label_if(bytes.is_some() && val.is_none(), "too long");
    let want = val.map_or(Expansion::Refused, Expansion::Int);
    let got = evaluate(zkp_macros_lib::u256h(t()));
    if let Expansion::Unknown(_) = got {
        g.label("unknown shape");
    } else {
        ensure_eq!(got, want, "u256h!({})", lit);
    }
    let want = val.map_or(Expansion::Refused, |v| {
        let n = Fp::from_nat(&Nat::from_limbs(&v));
        Expansion::Field(n.mont())
    });
    let got = evaluate(zkp_macros_lib::field_element(t()));
    if let Expansion::Unknown(_) = got {
        g.label("unknown shape");
    } else {
        ensure_eq!(got, want, "field_element!({})", lit);
    }
    Ok(())
}

/// Tokens that are no string literal are refused.
fn other_tokens(g: &mut Gen) -> CaseResult {
    let n = g.below(1000);
    let s = match g.below(10) {
        0 => String::new(),
        1 => format!("{}", n),
        2 => format!("0x{:x}", n),
        3 => format!("b\"{:04x}\"", n),
        4 => format!("\"{:04x}\" \"{:04x}\"", n, n),
        5 => format!("\"{:04x}\", \"00\"", n),
        6 => format!("f(\"{:04x}\")", n),
        7 => format!("'{}'", n % 10),
        8 => format!("x{}", n),
        _ => format!("\"{:04x}\" + \"00\"", n),
    };
    g.describe(|| s.clone());
    g.nontrivial();
    let t = || TokenStream::from_str(&s).expect("token stream");
    for (name, out) in vec![("hex", zkp_macros_lib::hex(t())), ("u256h", zkp_macros_lib::u256h(t())), ("field_element", zkp_macros_lib::field_element(t()))] {
        ensure!(out.to_string().contains("compile_error"), "{}!({}) expands to {}", name, s, out);
    }
    Ok(())
}

fn e(s: impl std::fmt::Display) -> Failure {
    Failure {
        msg: s.to_string(),
        sig: None,
    }
}

/// Generated literals, compiled with the real macros by the real compiler and
/// compared with the oracle's value at run time.
fn compiled(g: &mut Gen) -> CaseResult {
    let count = 400;
    let mut src = String::from("use zkp_macros_decl::{field_element, hex, u256h};\nuse zkp_primefield::FieldElement;\nuse zkp_u256::U256;\nfn main() {\n    let mut bad = 0;\n");
    let mut n = 0;
    while n < count {
        let s = text(g);
        let b = match digits(&s) {
            Some(b) => b,
            None => continue,
        };
        let lit = format!("{:?}", s);
        let _ = writeln!(src, "    if hex!({})[..] != {:?}[..] as [u8] {{ bad += 1; println!(\"hex!({{}})\", {}); }}", lit, b, lit);
        if b.is_empty() {
            src = src.replace("!= [][..] as [u8]", "!= <[u8; 0]>::default()[..]");
        } else {
            src = src.replace(&format!("!= {:?}[..] as [u8]", b), &format!("!= ({:?} as [u8; {}])[..]", b, b.len()));
        }
        if let Some(v) = value(&b) {
            let _ = writeln!(src, "    if u256h!({}) != U256::from_limbs({:?}) {{ bad += 1; println!(\"u256h!({{}})\", {}); }}", lit, v, lit);
            let m = Fp::from_nat(&Nat::from_limbs(&v)).mont();
            let _ = writeln!(src, "    if field_element!({}).as_montgomery() != &U256::from_limbs({:?}) {{ bad += 1; println!(\"field_element!({{}})\", {}); }}", lit, m, lit);
        }
        n += 1;
    }
    src.push_str("    println!(\"bad {}\", bad);\n}\n");
    g.describe(|| format!("{} literals compiled", count));
    g.evals = count;
    g.nontrivial();
    let (ok, out) = build_and_run("ok", &src)?;
    if !ok {
        // the harness's own file is valid Rust: a literal was refused
        return fail(format!("valid literals do not compile: {}", out));
    }
    if !out.contains("bad 0\n") {
        return fail(format!("literals with a wrong value: {}", out.lines().take(5).collect::<Vec<_>>().join("; ")));
    }
    Ok(())
}

fn build_and_run(name: &str, src: &str) -> Result<(bool, String), Failure> {
    let root = std::env::var("VERIF_ROOT").map_err(e)?;
    let dir = format!("{}/target/literals-{}", root, name);
    std::fs::create_dir_all(format!("{}/src", dir)).map_err(e)?;
    std::fs::write(
        format!("{}/Cargo.toml", dir),
        "[package]\nname = \"literals\"\nversion = \"0.1.0\"\nedition = \"2018\"\n[dependencies]\nzkp-u256 = { path = \"/repo/algebra/u256\" }\nzkp-primefield = { path = \"/repo/algebra/primefield\" }\nzkp-macros-decl = { path = \"/repo/utils/macros-decl\" }\n[workspace]\n[profile.dev]\nopt-level = 0\ndebug = false\n",
    )
    .map_err(e)?;
    std::fs::write(format!("{}/src/main.rs", dir), src).map_err(e)?;
    let lock = format!("{}/harness/misc/literals.lock", root);
    std::fs::copy(&lock, format!("{}/Cargo.lock", dir)).map_err(e)?;
    let out = std::process::Command::new("cargo")
        .args(&["run", "--release", "--offline", "--quiet"])
        .current_dir(&dir)
        .output()
        .map_err(e)?;
    let text = format!("{}{}", String::from_utf8_lossy(&out.stdout), if out.status.success() { String::new() } else { String::from_utf8_lossy(&out.stderr).chars().take(1500).collect() });
    Ok((out.status.success(), text))
}

pub fn property() -> Property {
    Property {
        id: "C17",
        rule: "every literal",
        assumptions: &["expansions of an unknown token shape are judged by the compiled facet only (counted under 'unknown shape')"],
        facets: vec![
            Facet::new("tokens", 60_000, 3_000_000, tokens),
            Facet::new("other-tokens", 5_000, 50_000, other_tokens),
            Facet::new("compiled", 2, 30, compiled).serial(),
        ],
    }
}
