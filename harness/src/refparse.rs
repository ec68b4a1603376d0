//! Independent readers: the packet grammar, and JSON (validation, splitting,
//! and an order-preserving tree), written without the code under test.

/// End of the JSON value starting at `p`, iteratively (any depth). Numbers and
/// escapes are checked by syntax only.
pub fn value_end(b: &[u8], p: usize) -> Option<usize> {
    let mut stack: Vec<u8> = vec![];
    let mut p = skip_ws(b, p);
    loop {
        // expect a value at p
        match *b.get(p)? {
            b'[' => {
                p = skip_ws(b, p + 1);
                if *b.get(p)? == b']' {
                    p += 1;
                } else {
                    stack.push(b'[');
                    continue;
                }
            }
            b'{' => {
                p = skip_ws(b, p + 1);
                if *b.get(p)? == b'}' {
                    p += 1;
                } else {
                    stack.push(b'{');
                    p = member_key(b, p)?;
                    continue;
                }
            }
            b'"' => p = string_end(b, p)?,
            b't' => p = lit(b, p, b"true")?,
            b'f' => p = lit(b, p, b"false")?,
            b'n' => p = lit(b, p, b"null")?,
            _ => p = number_end(b, p)?,
        }
        // after a value
        loop {
            let Some(top) = stack.last().copied() else { return Some(p) };
            p = skip_ws(b, p);
            match (*b.get(p)?, top) {
                (b',', b'[') => {
                    p = skip_ws(b, p + 1);
                    break;
                }
                (b',', _) => {
                    p = skip_ws(b, p + 1);
                    p = member_key(b, p)?;
                    break;
                }
                (b']', b'[') | (b'}', b'{') => {
                    stack.pop();
                    p += 1;
                }
                _ => return None,
            }
        }
    }
}

fn member_key(b: &[u8], p: usize) -> Option<usize> {
    if *b.get(p)? != b'"' {
        return None;
    }
    let p = skip_ws(b, string_end(b, p)?);
    if *b.get(p)? != b':' {
        return None;
    }
    Some(skip_ws(b, p + 1))
}

fn lit(b: &[u8], p: usize, l: &[u8]) -> Option<usize> {
    if b.get(p..p + l.len())? == l {
        Some(p + l.len())
    } else {
        None
    }
}

pub fn skip_ws(b: &[u8], mut p: usize) -> usize {
    while p < b.len() && matches!(b[p], b' ' | b'\t' | b'\n' | b'\r') {
        p += 1;
    }
    p
}

fn string_end(b: &[u8], p: usize) -> Option<usize> {
    let mut p = p + 1;
    loop {
        match *b.get(p)? {
            b'"' => return Some(p + 1),
            b'\\' => match *b.get(p + 1)? {
                b'"' | b'\\' | b'/' | b'b' | b'f' | b'n' | b'r' | b't' => p += 2,
                b'u' => {
                    if !b.get(p + 2..p + 6)?.iter().all(|c| c.is_ascii_hexdigit()) {
                        return None;
                    }
                    p += 6;
                }
                _ => return None,
            },
            c if c < 0x20 => return None,
            _ => p += 1,
        }
    }
}

fn digits(b: &[u8], p: usize) -> Option<usize> {
    let mut q = p;
    while q < b.len() && b[q].is_ascii_digit() {
        q += 1;
    }
    if q > p {
        Some(q)
    } else {
        None
    }
}

fn number_end(b: &[u8], p: usize) -> Option<usize> {
    let mut p = p;
    if *b.get(p)? == b'-' {
        p += 1;
    }
    p = if *b.get(p)? == b'0' { p + 1 } else { digits(b, p)? };
    if b.get(p) == Some(&b'.') {
        p = digits(b, p + 1)?;
    }
    if matches!(b.get(p), Some(b'e' | b'E')) {
        p += 1;
        if matches!(b.get(p), Some(b'+' | b'-')) {
            p += 1;
        }
        p = digits(b, p)?;
    }
    Some(p)
}

#[derive(Clone, Debug, PartialEq)]
pub struct RefPacket {
    pub kind: u8,
    pub count: Option<u64>,
    pub ns: Option<String>,
    pub id: Option<u64>,
    /// None: no array present.
    pub args: Option<Vec<String>>,
}

impl RefPacket {
    pub fn namespace(&self) -> &str {
        self.ns.as_deref().unwrap_or("/")
    }
    pub fn args(&self) -> &[String] {
        self.args.as_deref().unwrap_or(&[])
    }
    pub fn is_event(&self) -> bool {
        self.kind == b'2' || self.kind == b'5'
    }
    pub fn is_ack(&self) -> bool {
        self.kind == b'3' || self.kind == b'6'
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Accept(RefPacket),
    Reject,
    /// Points the property leaves open.
    Open,
}

/// A decimal number without leading zeros at `p`: its end.
fn plain_number(b: &[u8], p: usize) -> Option<usize> {
    match b.get(p) {
        Some(b'0') => Some(p + 1),
        Some(c) if c.is_ascii_digit() => digits(b, p),
        _ => None,
    }
}

/// The grammar of a socket.io text packet (without the engine header).
pub fn packet(text: &str) -> Verdict {
    let b = text.as_bytes();
    let Some(kind) = b.first().copied().filter(|k| b"012356".contains(k)) else { return Verdict::Reject };
    let mut p = 1;
    let mut overflow = false;
    let mut num = |s: &str| match s.parse::<u64>() {
        Ok(n) => Some(n),
        Err(_) => {
            overflow = true;
            None
        }
    };
    let mut count = None;
    if let Some(e) = plain_number(b, p) {
        if b.get(e) == Some(&b'-') {
            count = num(&text[p..e]);
            if count.is_none() {
                return Verdict::Reject;
            }
            p = e + 1;
        }
    }
    let mut ns = None;
    if b.get(p) == Some(&b'/') {
        match text[p..].find(',') {
            Some(c) if c > 1 => {
                ns = Some(text[p..p + c].to_string());
                p += c + 1;
            }
            // "/," : the root namespace spelled out; no encoder does that.
            Some(_) => return Verdict::Open,
            None => return Verdict::Reject,
        }
    }
    let mut id = None;
    if let Some(e) = plain_number(b, p) {
        id = num(&text[p..e]);
        if id.is_none() {
            return Verdict::Reject;
        }
        p = e;
    }
    let mut args = None;
    if p < b.len() {
        if b[p] != b'[' {
            return Verdict::Reject;
        }
        let trimmed = text.trim_end_matches([' ', '\t', '\n', '\r']);
        match split_array(&trimmed[p..]) {
            Some(v) => args = Some(v),
            None => return Verdict::Reject,
        }
        if trimmed.len() != text.len() {
            // whitespace after the array: nobody writes it
            return Verdict::Open;
        }
    }
    let pk = RefPacket { kind, count, ns, id, args };
    let n = pk.args().len();
    match kind {
        b'0' | b'1' => {
            if pk.count.is_some() || pk.id.is_some() || n > 0 {
                Verdict::Reject
            } else if pk.args.is_some() {
                Verdict::Open // an empty array: no data, but written out
            } else {
                Verdict::Accept(pk)
            }
        }
        b'2' | b'3' => {
            if pk.count.is_some() {
                // A text packet has no attachments; a count of 0 is harmless.
                if pk.count == Some(0) && complete(&pk) {
                    Verdict::Open
                } else {
                    Verdict::Reject
                }
            } else if !complete(&pk) {
                Verdict::Reject
            } else if pk.args.is_none() {
                Verdict::Open // acknowledgement without any array
            } else {
                Verdict::Accept(pk)
            }
        }
        _ => {
            if pk.count.is_none() {
                Verdict::Reject
            } else if !complete(&pk) {
                if pk.count == Some(0) {
                    Verdict::Reject
                } else {
                    Verdict::Open // may be rejected now or once complete
                }
            } else if pk.args.is_none() {
                Verdict::Open
            } else {
                Verdict::Accept(pk)
            }
        }
    }
}

/// The parts an event or acknowledgement needs are there.
pub fn complete(p: &RefPacket) -> bool {
    if p.is_event() {
        !p.args().is_empty()
    } else {
        p.id.is_some()
    }
}

/// Element texts of a JSON array spanning exactly `s`.
pub fn split_array(s: &str) -> Option<Vec<String>> {
    let b = s.as_bytes();
    if *b.first()? != b'[' {
        return None;
    }
    let mut v = vec![];
    let mut p = skip_ws(b, 1);
    if *b.get(p)? == b']' {
        return if p + 1 == b.len() { Some(v) } else { None };
    }
    loop {
        let e = value_end(b, p)?;
        v.push(s[p..e].to_string());
        p = skip_ws(b, e);
        match *b.get(p)? {
            b',' => p = skip_ws(b, p + 1),
            b']' => return if p + 1 == b.len() { Some(v) } else { None },
            _ => return None,
        }
    }
}

/// JSON as a tree that keeps member order, number spelling and duplicates.
#[derive(Clone, Debug, PartialEq)]
pub enum Tree {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<Tree>),
    Obj(Vec<(String, Tree)>),
}

pub fn tree(s: &str) -> Option<Tree> {
    let b = s.as_bytes();
    let p = skip_ws(b, 0);
    let e = value_end(b, p)?;
    if skip_ws(b, e) != b.len() {
        return None;
    }
    let mut p = p;
    Some(build(s, &mut p))
}

// `s` is valid JSON here.
fn build(s: &str, p: &mut usize) -> Tree {
    let b = s.as_bytes();
    *p = skip_ws(b, *p);
    match b[*p] {
        b'[' => {
            *p = skip_ws(b, *p + 1);
            let mut v = vec![];
            while b[*p] != b']' {
                v.push(build(s, p));
                *p = skip_ws(b, *p);
                if b[*p] == b',' {
                    *p = skip_ws(b, *p + 1);
                }
            }
            *p += 1;
            Tree::Arr(v)
        }
        b'{' => {
            *p = skip_ws(b, *p + 1);
            let mut v = vec![];
            while b[*p] != b'}' {
                let Tree::Str(k) = build(s, p) else { unreachable!() };
                *p = skip_ws(b, *p) + 1; // ':'
                let x = build(s, p);
                v.push((k, x));
                *p = skip_ws(b, *p);
                if b[*p] == b',' {
                    *p = skip_ws(b, *p + 1);
                }
            }
            *p += 1;
            Tree::Obj(v)
        }
        b'"' => {
            let e = string_end(b, *p).unwrap();
            let t = unescape(&s[*p + 1..e - 1]);
            *p = e;
            Tree::Str(t)
        }
        b't' => {
            *p += 4;
            Tree::Bool(true)
        }
        b'f' => {
            *p += 5;
            Tree::Bool(false)
        }
        b'n' => {
            *p += 4;
            Tree::Null
        }
        _ => {
            let e = number_end(b, *p).unwrap();
            let t = s[*p..e].to_string();
            *p = e;
            Tree::Num(t)
        }
    }
}

fn unescape(s: &str) -> String {
    let mut u: Vec<u16> = vec![];
    let mut it = s.chars();
    let mut buf = [0u16; 2];
    while let Some(c) = it.next() {
        if c != '\\' {
            u.extend_from_slice(c.encode_utf16(&mut buf));
            continue;
        }
        match it.next().unwrap() {
            'b' => u.push(8),
            'f' => u.push(12),
            'n' => u.push(10),
            'r' => u.push(13),
            't' => u.push(9),
            'u' => {
                let h: String = it.by_ref().take(4).collect();
                u.push(u16::from_str_radix(&h, 16).unwrap());
            }
            c => u.extend_from_slice(c.encode_utf16(&mut buf)),
        }
    }
    String::from_utf16_lossy(&u)
}
