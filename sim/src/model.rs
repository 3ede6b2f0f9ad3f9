//! The reference model: what patterns mean, written as directly as possible and sharing no code
//! with the library.

use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Tok {
    /// literal text
    L(String),
    /// SET
    S {
        set: String,
        min: Option<usize>,
        max: Option<usize>,
        name: Option<String>,
    },
    /// INT
    I {
        min: Option<usize>,
        max: Option<usize>,
        name: Option<String>,
    },
    /// GREEDY, with its end string
    G {
        name: Option<String>,
        end: Option<String>,
    },
    /// a user-supplied parser (implemented by the harness): a run of 1.. characters of `set`
    C {
        id: u32,
        set: String,
        name: Option<String>,
    },
}

impl Tok {
    pub fn name(&self) -> Option<&str> {
        match self {
            Tok::L(_) => None,
            Tok::S { name, .. } | Tok::I { name, .. } | Tok::G { name, .. } | Tok::C { name, .. } => {
                name.as_deref()
            }
        }
    }
    pub fn is_lit(&self) -> bool {
        matches!(self, Tok::L(_))
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct TestMsg {
    pub message: String,
    pub values: BTreeMap<String, String>,
    pub tags: Option<Vec<String>>,
}

/// How a pattern reaches the matcher
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Via {
    Builder,
    Grammar,
    Json,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Pat {
    pub uid: u32,
    pub toks: Vec<Tok>,
    pub name: Option<String>,
    pub tags: Option<Vec<String>>,
    pub values: Option<BTreeMap<String, String>>,
    pub tests: Option<Vec<TestMsg>>,
    pub via: Via,
}

/// The 16 bytes of the pattern's id in a given run. Some ids differ only in their first or only
/// in their last bytes, two are all zeros and all ones.
pub fn uuid_bytes(uid: u32) -> [u8; 16] {
    match (uid, uid % 5) {
        (13, _) => [0; 16],
        (14, _) => [0xff; 16],
        (_, 2) | (_, 3) => {
            let mut b = [0x11u8; 16];
            b[12..].copy_from_slice(&uid.to_be_bytes());
            b
        }
        (_, 4) => {
            let mut b = [0xccu8; 16];
            b[..4].copy_from_slice(&uid.to_be_bytes());
            b
        }
        _ => {
            let a = crate::rng::mix(uid as u64 + 77);
            let mut b = [0u8; 16];
            b[..8].copy_from_slice(&a.to_be_bytes());
            b[8..].copy_from_slice(&crate::rng::mix(a).to_be_bytes());
            b[12..].copy_from_slice(&uid.to_be_bytes());
            b
        }
    }
}
pub fn uid_of(id: &[u8; 16]) -> u32 {
    let n = if id[4..] == [0xcc; 12] { &id[..4] } else { &id[12..] };
    match id {
        [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0] => 13,
        [255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255] => 14,
        _ => u32::from_be_bytes([n[0], n[1], n[2], n[3]]),
    }
}
pub fn uuid_str(uid: u32) -> String {
    let h: String = uuid_bytes(uid).iter().map(|b| format!("{:02x}", b)).collect();
    format!(
        "{}-{}-{}-{}-{}",
        &h[0..8],
        &h[8..12],
        &h[12..16],
        &h[16..20],
        &h[20..32]
    )
}

/// the ways a document may write an id
pub fn uuid_text(uid: u32, k: u64) -> String {
    let s = uuid_str(uid);
    match crate::rng::mix(k ^ uid as u64) % 16 {
        0 => s.to_uppercase(),
        1 => s.replace('-', ""),
        2 => s.replace('-', "").to_uppercase(),
        3 => format!("urn:uuid:{}", s),
        _ => s,
    }
}

fn run(set: &str, min: Option<usize>, max: Option<usize>, text: &str) -> Option<usize> {
    let mut bytes = 0;
    let mut n = 0;
    for c in text.chars() {
        if !set.contains(c) {
            break;
        }
        bytes += c.len_utf8();
        n += 1;
    }
    if n == 0 || n < min.unwrap_or(0) || n > max.unwrap_or(usize::MAX) {
        None
    } else {
        Some(bytes)
    }
}

/// How many bytes of `text` the token takes, if it matches there
pub fn consume(t: &Tok, text: &str) -> Option<usize> {
    match t {
        Tok::L(l) => {
            if text.starts_with(l.as_str()) {
                Some(l.len())
            } else {
                None
            }
        }
        Tok::S { set, min, max, .. } => run(set, *min, *max, text),
        Tok::I { min, max, .. } => run("0123456789", *min, *max, text),
        Tok::G { end, .. } => match end {
            None => Some(text.len()),
            Some(e) => text.find(e.as_str()),
        },
        Tok::C { set, .. } => run(set, None, None, text),
    }
}

pub type Caps = BTreeMap<String, String>;

/// Does this pattern, on its own, match the whole message? Returns the named captures; when a name
/// occurs more than once its leftmost occurrence is the one reported.
pub fn match_one(toks: &[Tok], text: &str) -> Option<Caps> {
    let mut caps = Caps::new();
    let mut rest = text;
    for t in toks {
        let n = consume(t, rest)?;
        if let Some(name) = t.name() {
            caps.entry(name.to_string()).or_insert_with(|| rest[..n].to_string());
        }
        rest = &rest[n..];
    }
    if rest.is_empty() {
        Some(caps)
    } else {
        None
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum El {
    Ch(char),
    P(Tok),
}

/// a character set as a set: order and repetitions do not matter
pub fn canon(set: &str) -> String {
    let s: std::collections::BTreeSet<char> = set.chars().collect();
    s.into_iter().collect()
}

/// literals as characters, parsers as units; equal units are the same parser
pub fn flatten(toks: &[Tok]) -> Vec<El> {
    let mut v = Vec::new();
    for t in toks {
        match t {
            Tok::L(l) => v.extend(l.chars().map(El::Ch)),
            p => {
                let mut p = p.clone();
                if let Tok::S { set, .. } | Tok::C { set, .. } = &mut p {
                    *set = canon(set);
                }
                v.push(El::P(p))
            }
        }
    }
    v
}

/// Which of the patterns (in the order they were added) wins on `text`.
pub fn resolve(list: &[&[El]], text: &str) -> Option<usize> {
    let all: Vec<usize> = (0..list.len()).collect();
    go(list, &all, 0, text)
}

fn go(list: &[&[El]], cands: &[usize], pos: usize, text: &str) -> Option<usize> {
    if text.is_empty() {
        // a pattern that ends here wins; of identical patterns the one added last
        if let Some(&i) = cands.iter().rev().find(|&&i| list[i].len() == pos) {
            return Some(i);
        }
    }
    if let Some(c) = text.chars().next() {
        let sub: Vec<usize> = cands
            .iter()
            .cloned()
            .filter(|&i| list[i].get(pos) == Some(&El::Ch(c)))
            .collect();
        if !sub.is_empty() {
            if let Some(r) = go(list, &sub, pos + 1, &text[c.len_utf8()..]) {
                return Some(r);
            }
        }
    }
    // the parsers at this place in the order they were first added, each with its patterns
    let mut groups: Vec<(&Tok, Vec<usize>)> = Vec::new();
    let mut known: BTreeMap<&Tok, usize> = BTreeMap::new();
    for &i in cands {
        if let Some(El::P(t)) = list[i].get(pos) {
            let at = match groups.last() {
                Some((l, _)) if *l == t => groups.len() - 1,
                _ if cands.len() <= 6 => groups.iter().position(|g| g.0 == t).unwrap_or(groups.len()),
                _ => *known.entry(t).or_insert(groups.len()),
            };
            if at == groups.len() {
                groups.push((t, vec![]));
            }
            groups[at].1.push(i);
        }
    }
    for (t, sub) in groups {
        if let Some(n) = consume(t, text) {
            if let Some(r) = go(list, &sub, pos + 1, &text[n..]) {
                return Some(r);
            }
        }
    }
    None
}

// ---------------------------------------------------------------- pattern text

pub fn lit_text(l: &str) -> String {
    l.replace("%{", "\\%\\{")
}

/// The pattern in the textual grammar. `style` varies the insignificant choices.
pub fn render(toks: &[Tok], style: u64) -> String {
    let mut s = String::new();
    let mut k = style;
    for t in toks {
        k = crate::rng::mix(k);
        let nm = |n: &Option<String>| n.as_ref().map(|n| format!(":{}", n)).unwrap_or_default();
        match t {
            Tok::L(l) => s.push_str(&lit_text(l)),
            Tok::S { set, min, max, name } => {
                s.push_str(&format!("%{{SET(\"{}\"", set));
                let ps = params(*min, *max, k);
                for p in ps {
                    s.push(',');
                    for _ in 0..(k >> 7) % 3 {
                        s.push(' ');
                    }
                    s.push_str(&p);
                }
                s.push(')');
                s.push_str(&nm(name));
                s.push('}');
            }
            Tok::I { min, max, name } => {
                s.push_str("%{INT");
                let ps = params(*min, *max, k);
                if !ps.is_empty() {
                    let sep = if k & 256 == 0 { "," } else { ", " };
                    s.push_str(&format!("({})", ps.join(sep)));
                }
                s.push_str(&nm(name));
                s.push('}');
            }
            Tok::G { name, .. } => s.push_str(&format!("%{{GREEDY{}}}", nm(name))),
            Tok::C { .. } => unreachable!("custom parsers have no textual form"),
        }
    }
    s
}

fn params(min: Option<usize>, max: Option<usize>, k: u64) -> Vec<String> {
    let mut v = Vec::new();
    if let Some(m) = min {
        v.push(format!("min_len={}", m));
    }
    if let Some(m) = max {
        v.push(format!("max_len={}", m));
    }
    if k & 8 == 0 {
        v.reverse();
    }
    v
}

/// Bring a token list into the shape the textual grammar can express: no adjacent or empty
/// literals, GREEDY ends at the following literal (or takes the rest).
pub fn normalise(toks: &[Tok]) -> Vec<Tok> {
    let mut v: Vec<Tok> = Vec::new();
    for t in toks {
        match t {
            Tok::L(l) => {
                if l.is_empty() {
                    continue;
                }
                if let Some(Tok::L(p)) = v.last_mut() {
                    p.push_str(l);
                } else {
                    v.push(t.clone());
                }
            }
            _ => v.push(t.clone()),
        }
    }
    for i in 0..v.len() {
        let end = match v.get(i + 1) {
            Some(Tok::L(l)) => Some(l.clone()),
            _ => None,
        };
        if let Tok::G { end: e, .. } = &mut v[i] {
            *e = end;
        }
    }
    v
}

/// Replace user-supplied parsers by the built-in one that behaves the same.
pub fn textual(toks: &[Tok]) -> Vec<Tok> {
    let v: Vec<Tok> = toks
        .iter()
        .map(|t| match t {
            Tok::C { set, name, .. } => Tok::S { set: set.clone(), min: None, max: None, name: name.clone() },
            t => t.clone(),
        })
        .collect();
    normalise(&v)
}

// ---------------------------------------------------------------- files

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct Doc {
    pub pats: Vec<Pat>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Fmt {
    Json,
    Yaml,
}

fn jstr(s: &str, k: u64) -> String {
    let mut o = String::from("\"");
    let mut k = k;
    for c in s.chars() {
        k = crate::rng::mix(k);
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c if k % 41 == 0 => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct W {
    out: String,
    k: u64,
}
impl W {
    fn r(&mut self, n: u64) -> u64 {
        self.k = crate::rng::mix(self.k);
        self.k % n
    }
    fn ws(&mut self) {
        match self.r(6) {
            0 => self.out.push(' '),
            1 => self.out.push_str("\n  "),
            _ => {}
        }
    }
    fn s(&mut self, s: &str) {
        let k = self.k;
        self.out.push_str(&jstr(s, k));
        self.r(2);
    }
    fn obj(&mut self, fields: Vec<(&str, Box<dyn FnOnce(&mut W)>)>) {
        // fields in a style-dependent order
        let mut fields = fields;
        for i in (1..fields.len()).rev() {
            let j = self.r(i as u64 + 1) as usize;
            fields.swap(i, j);
        }
        self.out.push('{');
        let mut first = true;
        for (n, f) in fields {
            if !first {
                self.out.push(',');
            }
            first = false;
            self.ws();
            self.out.push_str(&format!("\"{}\"", n));
            self.ws();
            self.out.push(':');
            self.ws();
            f(self);
        }
        self.ws();
        self.out.push('}');
    }
    fn list<T>(&mut self, v: Vec<T>, f: impl Fn(&mut W, T)) {
        self.out.push('[');
        for (i, x) in v.into_iter().enumerate() {
            if i > 0 {
                self.out.push(',');
            }
            self.ws();
            f(self, x);
        }
        self.ws();
        self.out.push(']');
    }
    fn map(&mut self, m: &BTreeMap<String, String>) {
        self.out.push('{');
        for (i, (a, b)) in m.iter().enumerate() {
            if i > 0 {
                self.out.push(',');
            }
            self.s(a);
            self.out.push(':');
            self.s(b);
        }
        self.out.push('}');
    }
}

fn jpat(w: &mut W, p: &Pat) {
    let p = p.clone();
    let mut f: Vec<(&str, Box<dyn FnOnce(&mut W)>)> = Vec::new();
    let uid = p.uid;
    f.push(("uuid", Box::new(move |w| {
            let t = uuid_text(uid, w.k);
            w.s(&t)
        })));
    let toks = p.toks.clone();
    f.push((
        "pattern",
        Box::new(move |w| {
            let t = render(&toks, w.k);
            w.s(&t)
        }),
    ));
    if let Some(n) = p.name.clone() {
        f.push(("name", Box::new(move |w| w.s(&n))));
    }
    if let Some(v) = p.values.clone() {
        f.push(("values", Box::new(move |w| w.map(&v))));
    }
    if let Some(v) = p.tags.clone() {
        f.push(("tags", Box::new(move |w| w.list(v, |w, x| w.s(&x)))));
    }
    if let Some(v) = p.tests.clone() {
        f.push((
            "test_messages",
            Box::new(move |w| {
                w.list(v, |w, t: TestMsg| {
                    let mut g: Vec<(&str, Box<dyn FnOnce(&mut W)>)> = Vec::new();
                    let m = t.message.clone();
                    g.push(("message", Box::new(move |w| w.s(&m))));
                    if !t.values.is_empty() || w.r(3) == 0 {
                        let vs = t.values.clone();
                        g.push(("values", Box::new(move |w| w.map(&vs))));
                    }
                    if let Some(tg) = t.tags.clone() {
                        g.push(("tags", Box::new(move |w| w.list(tg, |w, x| w.s(&x)))));
                    }
                    w.obj(g);
                })
            }),
        ));
    }
    w.obj(f);
}

pub fn pat_json(p: &Pat, style: u64) -> String {
    let mut w = W {
        out: String::new(),
        k: style,
    };
    jpat(&mut w, p);
    w.out
}

/// the document behind `pad` bytes of nothing
pub fn padded(d: &Doc, fmt: Fmt, style: u64, pad: usize) -> Vec<u8> {
    let mut b = match fmt {
        Fmt::Json => vec![b' '; pad],
        Fmt::Yaml => {
            let mut v = vec![b'#'; pad];
            for i in (79..pad).step_by(80) {
                v[i] = b'\n';
            }
            if let Some(l) = v.last_mut() {
                *l = b'\n';
            }
            v
        }
    };
    b.extend(doc_bytes(d, fmt, style));
    b
}

pub fn doc_bytes(d: &Doc, fmt: Fmt, style: u64) -> Vec<u8> {
    match fmt {
        Fmt::Json => {
            let mut w = W {
                out: String::new(),
                k: style,
            };
            let pats = d.pats.clone();
            w.ws();
            w.obj(vec![(
                "patterns",
                Box::new(move |w: &mut W| w.list(pats, |w, p| jpat(w, &p))),
            )]);
            w.ws();
            w.out.into_bytes()
        }
        Fmt::Yaml => yaml(d, style).into_bytes(),
    }
}

/// Random layout of a YAML document. `k` is the stream all choices come from.
struct Y {
    out: String,
    k: u64,
    /// how adventurous this document is: 0 only double quoted scalars in block style
    wild: u64,
    crlf: bool,
    /// indentation of continuation lines; 0: scalars stay on one line
    fold: usize,
}

/// words and shapes a plain scalar must not have
fn plain_ok(s: &str) -> bool {
    const WORDS: [&str; 13] = ["y", "n", "yes", "no", "true", "false", "on", "off", "null", "nan", "inf", "infinity", "e"];
    let c0 = match s.chars().next() {
        Some(c) => c,
        None => return false,
    };
    if !(c0.is_ascii_alphabetic() || (c0 as u32) >= 0xc0) || s.ends_with(' ') {
        return false;
    }
    if s.chars().any(|c| matches!(c, '\u{2028}' | '\u{2029}' | '\u{feff}')) {
        return false;
    }
    if s.chars().any(|c| !(c.is_ascii_alphanumeric() || c == ' ' || c == '_' || c == '.' || (c as u32) >= 0xc0)) {
        return false;
    }
    !WORDS.contains(&s.to_lowercase().as_str()) && s.parse::<f64>().is_err()
}

/// shapes that a literal block keeps exactly
fn block_ok(s: &str) -> bool {
    !s.is_empty()
        && s.split('\n').all(|l| !l.is_empty() && !l.starts_with(' ') && !l.starts_with('\t') && !l.ends_with(' ') && !l.ends_with('\t') && !l.starts_with('#'))
        && s.chars().all(|c| c == '\n' || c == '\t' || !(c.is_control() || c == '\u{feff}' || c == '\u{2028}' || c == '\u{2029}' || c == '\u{85}'))
        && !s.starts_with("---")
        && !s.starts_with("...")
}

fn single_ok(s: &str) -> bool {
    s.chars().all(|c| (c == '\t' || !c.is_control()) && c != '\u{feff}' && c != '\u{2028}' && c != '\u{2029}')
}

impl Y {
    fn r(&mut self, n: u64) -> u64 {
        self.k = crate::rng::mix(self.k);
        self.k % n
    }
    fn dq(&mut self, s: &str) -> String {
        let mut o = String::from("\"");
        for c in s.chars() {
            let k = self.r(43);
            // a line may be broken anywhere inside double quotes
            if self.wild > 1 && self.fold > 0 && self.r(9) == 0 && c != ' ' && c != '\t' {
                o.push_str("\\\n");
                o.push_str(&" ".repeat(self.fold));
            }
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                '\n' => o.push_str("\\n"),
                '\r' => o.push_str("\\r"),
                '\t' if self.wild > 0 && k < 20 => o.push('\t'),
                '\t' => o.push_str("\\t"),
                c if (c as u32) < 0x20 => o.push_str(&format!("\\x{:02x}", c as u32)),
                c if k == 0 && self.wild > 0 && (c as u32) < 0x10000 => o.push_str(&format!("\\u{:04x}", c as u32)),
                c if k == 1 && self.wild > 0 => o.push_str(&format!("\\U{:08x}", c as u32)),
                c => o.push(c),
            }
        }
        o.push('"');
        o
    }
    /// a scalar inside a flow collection or as a key
    fn inline(&mut self, s: &str) -> String {
        match self.r(6) {
            0 | 1 if self.wild > 0 && single_ok(s) => format!("'{}'", s.replace('\'', "''")),
            2 if self.wild > 0 && plain_ok(s) => s.to_owned(),
            _ => self.dq(s),
        }
    }
    /// a scalar that ends its line; `ind` is the indentation of its parent
    fn scalar(&mut self, s: &str, ind: usize) -> String {
        if self.wild > 1 && self.r(4) == 0 && block_ok(s) && !self.crlf {
            let mut o = String::from("|-\n");
            for l in s.split('\n') {
                o.push_str(&" ".repeat(ind + 2));
                o.push_str(l);
                o.push('\n');
            }
            return o;
        }
        if self.r(6) == 0 {
            self.fold = ind + 3;
        }
        let mut o = self.inline(s);
        self.fold = 0;
        match self.r(12) {
            0 if self.wild > 0 => o.push_str(" # trailing: comment"),
            1 if self.wild > 0 => o.push_str("  "),
            _ => {}
        }
        o.push('\n');
        o
    }
    fn noise(&mut self, ind: usize) {
        match self.r(10) {
            0 if self.wild > 0 => self.out.push('\n'),
            1 => {
                let t = format!("{}# a comment\n", " ".repeat(ind));
                self.out.push_str(&t);
            }
            _ => {}
        }
    }
    fn field(&mut self, ind: usize, key: &str, v: &V) -> String {
        let sp = " ".repeat(ind);
        let key = if self.wild > 0 && self.r(8) == 0 { self.inline(key) } else { key.to_owned() };
        match v {
            V::S(s) => {
                let x = self.scalar(s, ind);
                format!("{}{}: {}", sp, key, x)
            }
            V::M(m) if m.is_empty() => format!("{}{}: {{}}\n", sp, key),
            V::L(l) if l.is_empty() => format!("{}{}: []\n", sp, key),
            V::T(l) if l.is_empty() => format!("{}{}: []\n", sp, key),
            V::M(m) => {
                if self.wild > 0 && self.r(4) == 0 {
                    let mut o = format!("{}{}: {{", sp, key);
                    for (i, (a, b)) in m.iter().enumerate() {
                        if i > 0 {
                            o.push_str(", ");
                        }
                        let a = self.dq(a);
                        let b = self.inline(b);
                        o.push_str(&format!("{}: {}", a, b));
                    }
                    return o + "}\n";
                }
                let mut o = format!("{}{}:\n", sp, key);
                for (a, b) in m.iter() {
                    let a = self.inline(a);
                    let b = self.scalar(b, ind + 2);
                    o.push_str(&format!("{}  {}: {}", sp, a, b));
                }
                o
            }
            V::L(l) => {
                if self.wild > 0 && self.r(4) == 0 {
                    let mut o = format!("{}{}: [", sp, key);
                    for (i, x) in l.iter().enumerate() {
                        if i > 0 {
                            o.push_str(", ");
                        }
                        o.push_str(&self.inline(x));
                    }
                    return o + "]\n";
                }
                let mut o = format!("{}{}:\n", sp, key);
                for x in l.iter() {
                    let x = self.scalar(x, ind + 2);
                    o.push_str(&format!("{}  - {}", sp, x));
                }
                o
            }
            V::T(ts) => {
                let mut o = format!("{}{}:\n", sp, key);
                for t in ts.iter() {
                    let mut f: Vec<(&str, V)> = vec![("message", V::S(&t.message))];
                    if !t.values.is_empty() || self.r(4) == 0 {
                        f.push(("values", V::M(&t.values)));
                    }
                    if let Some(tg) = &t.tags {
                        f.push(("tags", V::L(tg)));
                    }
                    o.push_str(&self.record(ind + 2, f));
                }
                o
            }
        }
    }
    /// a list item that is a map
    fn record(&mut self, ind: usize, mut f: Vec<(&str, V)>) -> String {
        for i in (1..f.len()).rev() {
            let j = self.r(i as u64 + 1) as usize;
            f.swap(i, j);
        }
        let mut b = String::new();
        for (n, v) in &f {
            b.push_str(&self.field(ind + 2, n, v));
        }
        let sp = " ".repeat(ind);
        if self.wild > 0 && self.r(2) == 0 {
            format!("{}- {}", sp, &b[ind + 2..])
        } else {
            format!("{}-\n{}", sp, b)
        }
    }
}

enum V<'a> {
    S(&'a str),
    M(&'a BTreeMap<String, String>),
    L(&'a [String]),
    T(&'a [TestMsg]),
}

fn yaml(d: &Doc, style: u64) -> String {
    let mut y = Y { out: String::new(), k: style, wild: 0, crlf: false, fold: 0 };
    y.wild = y.r(3);
    y.crlf = y.wild > 0 && y.r(8) == 0;
    if y.wild > 0 && y.r(4) == 0 {
        y.out.push_str("---\n");
    }
    if d.pats.is_empty() {
        return y.out + "patterns: []\n";
    }
    y.out.push_str("patterns:\n");
    // a sequence may stand in the same column as its key
    let ind = if y.wild > 0 && y.r(4) == 0 { 0 } else { 2 };
    for p in &d.pats {
        let k = y.k;
        let id = uuid_text(p.uid, k);
        let text = render(&p.toks, k);
        let mut f: Vec<(&str, V)> = vec![("uuid", V::S(&id)), ("pattern", V::S(&text))];
        if let Some(n) = &p.name {
            f.push(("name", V::S(n)));
        }
        if let Some(v) = &p.values {
            f.push(("values", V::M(v)));
        }
        if let Some(t) = &p.tags {
            f.push(("tags", V::L(t)));
        }
        if let Some(t) = &p.tests {
            f.push(("test_messages", V::T(t)));
        }
        y.noise(ind);
        let r = y.record(ind, f);
        y.out.push_str(&r);
    }
    if y.crlf {
        return y.out.replace('\n', "\r\n");
    }
    y.out
}

// ---------------------------------------------------------------- loading

/// One way a test message can be rejected, as the library reports it
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Reject {
    NoMatch { uid: u32, message: String },
    Other { uid: u32, got: u32, message: String },
    Tags { uid: u32 },
    Value { uid: u32, key: String, want: String, got: String },
    Key { uid: u32, key: String },
}

/// All the complaints the test messages of `list.last()` justify, given that `list` is what has
/// been added so far. Empty: every test message is fine.
pub fn verdict(list: &[std::rc::Rc<PatC>], tests: &[TestMsg]) -> Vec<Reject> {
    let me = list.last().unwrap();
    let els: Vec<&[El]> = list.iter().map(|p| &p.els[..]).collect();
    let mut out = Vec::new();
    for t in tests {
        match resolve(&els, &t.message) {
            None => out.push(Reject::NoMatch {
                uid: me.pat.uid,
                message: t.message.clone(),
            }),
            Some(i) if list[i].pat.uid != me.pat.uid => out.push(Reject::Other {
                uid: me.pat.uid,
                got: list[i].pat.uid,
                message: t.message.clone(),
            }),
            Some(i) => {
                // (the winner may be another pattern that was given the same id)
                let me = &list[i];
                let caps = match_one(&me.pat.toks, &t.message).expect("model: winner matches");
                if let Some(want) = &t.tags {
                    let have = me.pat.tags.clone().unwrap_or_default();
                    if want.iter().any(|x| !have.contains(x)) {
                        out.push(Reject::Tags { uid: me.pat.uid });
                    }
                }
                let mut merged = me.pat.values.clone().unwrap_or_default();
                merged.extend(caps);
                for (k, v) in &t.values {
                    match merged.get(k) {
                        None => out.push(Reject::Key {
                            uid: me.pat.uid,
                            key: k.clone(),
                        }),
                        Some(g) if g != v => out.push(Reject::Value {
                            uid: me.pat.uid,
                            key: k.clone(),
                            want: v.clone(),
                            got: g.clone(),
                        }),
                        _ => {}
                    }
                }
            }
        }
    }
    out
}

/// A pattern as held by a model matcher
#[derive(Debug)]
pub struct PatC {
    pub pat: Pat,
    pub els: Vec<El>,
}
impl PatC {
    pub fn new(p: &Pat) -> std::rc::Rc<PatC> {
        std::rc::Rc::new(PatC {
            els: flatten(&p.toks),
            pat: p.clone(),
        })
    }
}
