//! Independent reference for the wire format and the identifier grammars, written from the protocol description.

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Parsed {
    /// could become a message with more input
    Incomplete,
    /// cannot become a message whatever follows
    Error,
    /// items (type first) as ranges, and the total length
    Msg(Vec<(usize, usize)>, usize),
}

fn number(b: &[u8], i: &mut usize) -> Result<u64, Parsed> {
    let start = *i;
    while *i < b.len() && b[*i].is_ascii_digit() {
        *i += 1;
    }
    let digits = &b[start..*i];
    if digits.is_empty() {
        return Err(if start == b.len() { Parsed::Incomplete } else { Parsed::Error });
    }
    if digits.len() > 1 && digits[0] == b'0' {
        return Err(Parsed::Error);
    }
    let mut v: u128 = 0;
    for d in digits {
        v = v * 10 + (d - b'0') as u128;
        if v > u64::MAX as u128 {
            return Err(Parsed::Error);
        }
    }
    Ok(v as u64)
}

fn lit(b: &[u8], i: &mut usize, c: u8) -> Result<(), Parsed> {
    match b.get(*i) {
        None => Err(Parsed::Incomplete),
        Some(&x) if x == c => {
            *i += 1;
            Ok(())
        }
        Some(_) => Err(Parsed::Error),
    }
}

/// Classifies the beginning of `b`.
pub fn parse(b: &[u8]) -> Parsed {
    fn go(b: &[u8]) -> Result<Parsed, Parsed> {
        let mut i = 0;
        lit(b, &mut i, b'{')?;
        let n = number(b, &mut i)?;
        lit(b, &mut i, b'|')?;
        if n == 0 {
            return Err(Parsed::Error);
        }
        let mut items = Vec::new();
        let mut k = 0;
        while k < n {
            let len = number(b, &mut i)?;
            lit(b, &mut i, b':')?;
            if len > (b.len() - i) as u64 {
                return Err(Parsed::Incomplete);
            }
            let s = (i, i + len as usize);
            i = s.1;
            lit(b, &mut i, b',')?;
            if k == 0 && !valid_type(&b[s.0..s.1]) {
                return Err(Parsed::Error);
            }
            items.push(s);
            k += 1;
        }
        lit(b, &mut i, b'}')?;
        Ok(Parsed::Msg(items, i))
    }
    match go(b) {
        Ok(p) => p,
        Err(p) => p,
    }
}

pub fn encode<T: AsRef<[u8]>>(items: &[T]) -> Vec<u8> {
    let mut v = format!("{{{}|", items.len()).into_bytes();
    for it in items {
        let it = it.as_ref();
        v.extend_from_slice(format!("{}:", it.len()).as_bytes());
        v.extend_from_slice(it);
        v.push(b',');
    }
    v.push(b'}');
    v
}

fn ident_len(b: &[u8]) -> usize {
    // length of the longest prefix that is an identifier
    let lead = |c: u8| c.is_ascii_alphabetic() || c == b'_';
    if b.is_empty() || !lead(b[0]) {
        return 0;
    }
    1 + b[1..].iter().take_while(|&&c| lead(c) || c == b'-').count()
}
pub fn is_ident(b: &[u8]) -> bool {
    !b.is_empty() && ident_len(b) == b.len()
}
/// identifier plus major version 1..65535 without leading zero
pub fn is_module(b: &[u8]) -> bool {
    let n = ident_len(b);
    if n == 0 || n == b.len() {
        return false;
    }
    let d = &b[n..];
    d[0] != b'0'
        && d.len() <= 5
        && d.iter().all(|c| c.is_ascii_digit())
        && std::str::from_utf8(d).unwrap().parse::<u32>().is_ok_and(|v| (1..=65535).contains(&v))
}
/// module and member of a scoped identifier
pub fn scoped(b: &[u8]) -> Option<(&[u8], &[u8])> {
    let i = b.iter().position(|&c| c == b'.')?;
    let (m, r) = (&b[..i], &b[i + 1..]);
    if is_module(m) && is_ident(r) {
        Some((m, r))
    } else {
        None
    }
}
pub fn valid_type(b: &[u8]) -> bool {
    matches!(b, b"want" | b"have" | b"nope") || scoped(b).is_some()
}
pub fn is_client_id(b: &[u8]) -> bool {
    !b.is_empty() && b.iter().all(|c| c.is_ascii_alphanumeric())
}
pub fn is_utf8(b: &[u8]) -> bool {
    std::str::from_utf8(b).is_ok()
}

/// `a` is at or below `base`
pub fn at_or_below(a: &str, base: &str) -> bool {
    a.as_bytes().starts_with(base.as_bytes())
}
pub fn strictly_below(a: &str, base: &str) -> bool {
    a != base && at_or_below(a, base)
}

pub const MAX_MSG: usize = 1024;
