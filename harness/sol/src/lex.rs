//! Tokens of Solidity and Yul.
#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Id(String),
    Num(String),
    Str(Vec<u8>),
    HexStr(Vec<u8>),
    P(&'static str),
    End,
}

const PUNCT: &[&str] = &[
    ">>>=", "<<=", ">>=", ">>>", "**", "++", "--", "&&", "||", "==", "!=", "<=", ">=", "+=", "-=", "*=", "/=", "%=",
    "|=", "&=", "^=", "<<", ">>", "=>", "->", ":=", "{", "}", "(", ")", "[", "]", ";", ",", ".", "?", ":", "=", "<",
    ">", "+", "-", "*", "/", "%", "&", "|", "^", "~", "!", "_",
];

pub fn lex(src: &str) -> Result<Vec<(T, usize)>, String> {
    let b = src.as_bytes();
    let mut i = 0;
    let mut line = 1;
    let mut r = vec![];
    let idstart = |c: u8| c.is_ascii_alphabetic() || c == b'_' || c == b'$';
    while i < b.len() {
        let c = b[i];
        if c == b'\n' {
            line += 1;
        }
        if c.is_ascii_whitespace() {
            i += 1;
        } else if b[i..].starts_with(b"//") {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
        } else if b[i..].starts_with(b"/*") {
            i += 2;
            while i < b.len() && !b[i..].starts_with(b"*/") {
                if b[i] == b'\n' {
                    line += 1;
                }
                i += 1;
            }
            i += 2;
        } else if idstart(c) {
            let s = i;
            while i < b.len() && (idstart(b[i]) || b[i].is_ascii_digit()) {
                i += 1;
            }
            let w = &src[s..i];
            if w == "hex" && i < b.len() && (b[i] == b'\'' || b[i] == b'"') {
                let q = b[i];
                i += 1;
                let s = i;
                while i < b.len() && b[i] != q {
                    i += 1;
                }
                let h: Vec<u8> = b[s..i.min(b.len())].iter().cloned().filter(|c| *c != b'_').collect();
                if h.len() % 2 != 0 {
                    return Err(format!("line {}: odd hex string", line));
                }
                let mut v = vec![];
                for p in h.chunks(2) {
                    let t = std::str::from_utf8(p).map_err(|e| e.to_string())?;
                    v.push(u8::from_str_radix(t, 16).map_err(|e| e.to_string())?);
                }
                i += 1;
                r.push((T::HexStr(v), line));
            } else {
                r.push((T::Id(w.to_string()), line));
            }
        } else if c.is_ascii_digit() {
            let s = i;
            if b[i..].starts_with(b"0x") {
                i += 2;
                while i < b.len() && (b[i].is_ascii_hexdigit() || b[i] == b'_') {
                    i += 1;
                }
            } else {
                while i < b.len() && (b[i].is_ascii_digit() || b[i] == b'_') {
                    i += 1;
                }
                if i + 1 < b.len() && (b[i] == b'e' || b[i] == b'E') && b[i + 1].is_ascii_digit() {
                    i += 1;
                    while i < b.len() && b[i].is_ascii_digit() {
                        i += 1;
                    }
                }
            }
            r.push((T::Num(src[s..i].chars().filter(|c| *c != '_').collect()), line));
        } else if c == b'\'' || c == b'"' {
            let mut v = vec![];
            i += 1;
            while i < b.len() && b[i] != c {
                if b[i] == b'\\' {
                    i += 1;
                    match b.get(i) {
                        Some(b'n') => v.push(b'\n'),
                        Some(b't') => v.push(b'\t'),
                        Some(b'r') => v.push(b'\r'),
                        Some(b'x') => {
                            v.push(u8::from_str_radix(&src[i + 1..i + 3], 16).map_err(|e| e.to_string())?);
                            i += 2;
                        }
                        Some(x) => v.push(*x),
                        None => return Err("unterminated string".into()),
                    }
                    i += 1;
                } else {
                    v.push(b[i]);
                    i += 1;
                }
            }
            i += 1;
            r.push((T::Str(v), line));
        } else if let Some(p) = PUNCT.iter().find(|p| b[i..].starts_with(p.as_bytes())) {
            r.push((T::P(p), line));
            i += p.len();
        } else {
            return Err(format!("line {}: unexpected character {:?}", line, src[i..].chars().next()));
        }
    }
    r.push((T::End, line));
    Ok(r)
}
