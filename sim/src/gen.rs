//! Expands (property, seed) into a plan. Everything here is a pure function of the seed.

use crate::model::*;
use crate::plan::*;
use crate::rng::{mix, Rng};
use crate::seams::Io;
use std::collections::BTreeMap;

struct G {
    r: Rng,
    alpha: Vec<char>,
    words: Vec<String>,
    sets: Vec<String>,
    names: Vec<&'static str>,
    uid: u32,
    /// token lists made so far: new patterns share prefixes with them
    pool: Vec<Vec<Tok>>,
    custom: bool,
    /// adjacent or empty literals, free GREEDY ends (only reachable through the builder)
    raw: bool,
    meta: usize,
    maxtok: usize,
    /// how far beyond ordinary sizes this run goes: 0 ordinary, 1 large, 2 very large
    scale: usize,
}

const ALPHAS: [&str; 24] = [
    "ab",
    "a1",
    "ab1 ",
    "aé",
    "éèêë",
    "a€₭",
    "😀😁a",
    "ab%{}\\",
    "abcdefgh0123456789 ",
    "foobar",
    "é1a\u{301}",
    "a:\"',\n",
    "a\0b",
    "a\tb ",
    "aAbB",
    "1\u{ff12}\u{663}a",
    "a\u{a0} \u{2003}\n",
    "\u{feff}ab",
    "a\u{e000}\u{10ffff}",
    "a\u{80}\u{ff}\u{100}",
    "a\u{161}\u{10061}0\u{130}",
    "\u{df}\u{131}\u{1e9e}si",
    "a\u{2028}\u{85} \u{b}",
    "e\u{301}\u{e9}\u{200d}",
];

/// enough for patterns with very many captures; one is very long
const NAMES: [&str; 62] = [
    "n00", "n01", "n02", "n03", "n04", "n05", "n06", "n07", "n08", "n09", "n10", "n11", "n12", "n13", "n14", "n15", "n16", "n17", "n18", "n19", "n20", "n21", "n22", "n23", "n24", "n25", "n26", "n27", "n28", "n29", "n30", "n31", "n32", "n33", "n34", "n35", "n36", "n37", "n38", "n39", "n40", "n41", "n42", "n43", "n44", "n45", "n46", "n47", "n48", "n49", "n50", "n51", "n52", "n53", "n54", "n55", "n56", "n57", "n58", "n59", "longlonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglong", "longlonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglong_2",
];

const METAS: [&str; 62] = [
    "", "a", "tag", "ssh", "é€", "two words", "a\nb", "%{INT:a}", "yes", "null", "1.0", "12", "\"q\"", "it's", "back\\slash", "# not a comment",
    "a: b", "- x", "{}", "true", "~", "tab\there", "a # b", "x\ny # z", "l1\n  l2", "trailing ", " leading", "a\r\nb", "\u{0}nul", "0x1f", "-12", "é\nè", "[a, b]", "Tag",
    "line\u{2028}sep\u{2029}arated", "next\u{85}line", "\u{feff}bom", "no\u{a0}break", "two  spaces", "e\u{301}", "\u{e9}", "TAG", "\u{1b}[0m", "\u{7f}", "<a>&amp;", "${HOME}",
    "%41", "@at", "`tick", "!tag", "&anchor", "*alias", "|", ">", "?", "1e3", "No", "2001-01-01", ".nan", "<<", "=", "\n",
];

impl G {
    fn new(seed: u64) -> G {
        let mut r = Rng::new(seed);
        let alpha: Vec<char> = r.pick(&ALPHAS).chars().collect();
        let mut g = G {
            alpha,
            words: vec![],
            sets: vec![],
            names: vec!["a", "b", "c", "usr.id", "x_1"],
            uid: 0,
            pool: vec![],
            custom: r.pct(40),
            raw: false,
            meta: *r.pick(&[0, 20, 60]),
            maxtok: *r.pick(&[2, 3, 5]),
            scale: match r.below(1000) {
                0..=29 => 1,
                30..=33 => 2,
                _ => 0,
            },
            r,
        };
        let nn = g.r.range(1, 5);
        g.names.truncate(nn);
        if g.r.pct(4) {
            g.names = NAMES.to_vec();
            g.maxtok = *g.r.pick(&[9, 20, 40, 70]);
        }
        let wide = g.r.pct(4);
        if wide {
            // hundreds of different first characters
            let (a, n) = *g.r.pick(&[(0x21u32, 90u32), (0x100, 150), (0x3b1, 40), (0x4e00, 300), (0x1f600, 70), (0x21, 600)]);
            g.alpha = (a..a + n).filter_map(char::from_u32).filter(|c| *c != '"' && *c != '\\' && !c.is_control()).collect();
        }
        if g.r.pct(3) {
            g.maxtok = *g.r.pick(&[9, 17, 40, 130]);
        }
        let n = if wide { g.r.range(6, 40) } else { g.r.range(1, 6) };
        for _ in 0..n {
            let w = if !g.words.is_empty() && g.r.pct(50) {
                let b = g.r.pick(&g.words).clone();
                if g.r.pct(50) {
                    b + &g.text(1, 2)
                } else {
                    let k = b.chars().count();
                    let keep = g.r.range(1, k);
                    b.chars().take(keep).collect::<String>() + &g.text(0, 2)
                }
            } else {
                g.text(1, 4)
            };
            g.words.push(w);
        }
        let n = g.r.range(1, 4);
        for _ in 0..n {
            let mut s = g.text(1, 4).replace('"', "");
            if g.r.pct(30) {
                s.push_str("0123456789");
            }
            if g.r.pct(12) {
                // the long sets people write: all letters, everything printable, whole alphabets
                s.push_str("abcdefghijklmnopqrstuvwxyz");
                if g.r.pct(50) {
                    s.push_str("ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789");
                }
                if g.r.pct(20) {
                    let (a, n) = *g.r.pick(&[(0x100u32, 150u32), (0x3b1, 40), (0x4e00, 300), (0x20, 1), (0x1f600, 70)]);
                    s.extend((a..a + n).filter_map(char::from_u32));
                }
            }
            if s.is_empty() {
                s.push('z');
            }
            g.sets.push(s);
        }
        g
    }

    fn text(&mut self, lo: usize, hi: usize) -> String {
        let n = self.r.range(lo, hi);
        (0..n).map(|_| *self.r.pick(&self.alpha)).collect()
    }
    fn lit(&mut self) -> String {
        let mut s = if self.r.pct(75) { self.r.pick(&self.words).clone() } else { self.text(1, 5) };
        if self.r.pct(10) {
            s.push_str(&self.r.pick(&self.words).clone());
        }
        if self.r.pct(4) {
            s.push_str("%{");
        }
        if self.scale > 0 && self.r.pct(15) {
            let k = match self.scale {
                1 => *self.r.pick(&[31, 63, 127, 200, 253, 254, 255, 256, 300, 520]),
                _ => *self.r.pick(&[1023, 1025, 4095, 4097, 6000]),
            };
            let w = if s.is_empty() { "x".to_string() } else { s.clone() };
            while s.chars().count() < k {
                s.push_str(&w);
            }
        }
        // not expressible in the textual form
        s.replace("\\%\\{", "\\%")
    }
    fn name(&mut self) -> Option<String> {
        if self.r.pct(75) {
            Some(self.r.pick(&self.names).to_string())
        } else {
            None
        }
    }
    fn bounds(&mut self) -> (Option<usize>, Option<usize>) {
        let mut lo = None;
        let mut hi = None;
        if self.r.pct(25) {
            lo = Some(self.r.range(0, 3));
        }
        if self.r.pct(25) {
            hi = Some(self.r.range(1, 4));
        }
        if self.scale > 0 && self.r.pct(30) {
            let v: &[usize] = if self.scale == 1 { &[9, 10, 15, 16, 31, 32, 64, 100, 127, 128, 254, 255, 256, 257, 300] } else { &[255, 256, 999, 1000, 4095, 4096, 65535, 65536] };
            let x = *self.r.pick(v);
            match self.r.below(4) {
                0 => lo = Some(x),
                1 => hi = Some(x),
                2 => {
                    lo = Some(x);
                    hi = Some(x);
                }
                _ => {
                    lo = Some(self.r.range(0, 3));
                    hi = Some(x);
                }
            }
        }
        (lo, hi)
    }
    fn tok(&mut self) -> Tok {
        let w = [45, 20, 15, 12, if self.custom { 8 } else { 0 }];
        match self.r.weighted(&w) {
            0 => Tok::L(self.lit()),
            1 => {
                let (min, max) = self.bounds();
                let mut set = self.r.pick(&self.sets).clone();
                if self.r.pct(10) {
                    set = set.chars().rev().collect();
                }
                Tok::S { set, min, max, name: self.name() }
            }
            2 => {
                let (min, max) = self.bounds();
                Tok::I { min, max, name: self.name() }
            }
            3 => {
                let end = if self.raw && self.r.pct(30) { Some(self.text(1, 2)) } else { None };
                Tok::G { name: self.name(), end }
            }
            _ => Tok::C { id: self.r.below(2) as u32, set: self.r.pick(&self.sets).clone(), name: self.name() },
        }
    }
    fn toks(&mut self) -> Vec<Tok> {
        let mut v: Vec<Tok> = Vec::new();
        if !self.pool.is_empty() && self.r.pct(65) {
            let base = self.r.pick(&self.pool).clone();
            let k = self.r.below(base.len() + 1);
            v.extend_from_slice(&base[..k]);
            if let Some(Tok::L(l)) = base.get(k) {
                if self.r.pct(60) {
                    let n = l.chars().count();
                    let keep = self.r.range(0, n);
                    let part: String = l.chars().take(keep).collect();
                    v.push(Tok::L(part));
                }
            }
            // sometimes exactly the same pattern again
            let more = if self.r.pct(25) { 0 } else { self.r.range(0, self.maxtok) };
            for _ in 0..more {
                v.push(self.tok());
            }
        } else {
            let n = self.r.range(1, self.maxtok);
            for _ in 0..n {
                v.push(self.tok());
            }
        }
        if self.raw && self.r.pct(40) {
            if self.r.pct(30) {
                v.insert(self.r.below(v.len() + 1), Tok::L(String::new()));
            }
            if v.is_empty() {
                v.push(self.tok());
            }
        } else {
            let free: Vec<Tok> = v.clone();
            v = normalise(&v);
            if self.raw && free.len() == v.len() {
                for (a, b) in v.iter_mut().zip(free) {
                    if let Tok::G { end: Some(_), .. } = &b {
                        *a = b;
                    }
                }
            }
            if v.is_empty() {
                let t = self.tok();
                v = normalise(&[t]);
                if v.is_empty() {
                    v = vec![Tok::L("q".into())];
                }
            }
        }
        if v.iter().any(|t| matches!(t, Tok::L(l) if l.contains("\\%\\{"))) {
            v = vec![Tok::L("w".into())];
        }
        self.pool.push(v.clone());
        v
    }
    fn metas(&mut self) -> String {
        let s = self.r.pick(&METAS).to_string();
        if self.scale > 0 && self.r.pct(10) && !s.is_empty() {
            let k = *self.r.pick(&[31, 64, 127, 128, 255, 256, 300, 1025, 5000, 70_000]);
            return s.repeat(1 + k / s.len());
        }
        s
    }
    fn pat_of(&mut self, toks: Vec<Tok>) -> Pat {
        self.uid += 1;
        let m = self.meta;
        let opt = |g: &mut G| g.r.pct(m);
        let name = if opt(self) { Some(self.metas()) } else { None };
        let tags = if opt(self) {
            let n = if self.scale > 0 && self.r.pct(20) { *self.r.pick(&[8, 17, 33, 70, 260]) } else { self.r.below(4) };
            Some((0..n).map(|i| if i > 4 && self.r.pct(70) { format!("t{}", i) } else { self.metas() }).collect())
        } else {
            None
        };
        let values = if opt(self) {
            let n = if self.scale > 0 && self.r.pct(20) { *self.r.pick(&[8, 17, 33, 70, 260]) } else { self.r.below(4) };
            let mut b = BTreeMap::new();
            for i in 0..n {
                let k = if i > 4 && self.r.pct(70) { format!("k{}", i) } else if self.r.pct(40) { self.r.pick(&self.names).to_string() } else { self.r.pick(&METAS).to_string() };
                b.insert(k, self.metas());
            }
            Some(b)
        } else {
            None
        };
        let textual_ok = toks == textual(&toks);
        let via = if textual_ok { *self.r.pick(&[Via::Builder, Via::Grammar, Via::Json]) } else { Via::Builder };
        Pat { uid: self.uid, toks, name, tags, values, tests: None, via }
    }
    fn pat(&mut self) -> Pat {
        let t = self.toks();
        self.pat_of(t)
    }
    /// a pattern that has a textual form
    fn tpat(&mut self) -> Pat {
        let raw = std::mem::replace(&mut self.raw, false);
        let t = self.toks();
        self.raw = raw;
        let t = textual(&t);
        self.pat_of(t)
    }

    /// text that should match the token list
    fn instance(&mut self, toks: &[Tok]) -> String {
        let mut s = String::new();
        for t in toks {
            match t {
                Tok::L(l) => s.push_str(l),
                Tok::S { set, min, max, .. } => self.run_of(&mut s, set, *min, *max),
                Tok::I { min, max, .. } => self.run_of(&mut s, "0123456789", *min, *max),
                Tok::C { set, .. } => self.run_of(&mut s, set, None, None),
                Tok::G { end, .. } => {
                    let mut t = if self.scale > 0 && self.r.pct(20) {
                        let n = *self.r.pick(&[30, 100, 254, 255, 256, 300]);
                        self.text(n, n)
                    } else {
                        self.text(0, 4)
                    };
                    if let Some(e) = end {
                        if !e.is_empty() {
                            t = t.replace(e.as_str(), "");
                        }
                    }
                    if self.r.pct(30) {
                        t = t + &self.r.range(0, 99).to_string();
                    }
                    s.push_str(&t);
                }
            }
        }
        s
    }
    fn run_of(&mut self, s: &mut String, set: &str, min: Option<usize>, max: Option<usize>) {
        let cs: Vec<char> = set.chars().collect();
        // a requirement beyond this is generated as unfulfilled
        let top = if self.scale > 0 { 66_000 } else { 40 };
        let lo = min.unwrap_or(1).max(1).min(top);
        let far = if self.scale > 0 && self.r.pct(20) { *self.r.pick(&[60, 254, 255, 256, 300]) } else { 3 };
        let hi = max.unwrap_or(lo + far).max(lo).min(top + 20);
        // on and just beside the limits
        let n = match self.r.below(10) {
            0 => lo.saturating_sub(1).max(1),
            1 => hi + 1,
            2 => lo,
            3 => hi,
            _ => self.r.range(lo, hi),
        };
        for _ in 0..n {
            s.push(*self.r.pick(&cs));
        }
    }
    fn mutate(&mut self, m: &str) -> String {
        let mut v: Vec<char> = m.chars().collect();
        match self.r.below(8) {
            7 => {
                // what is easily taken for nothing
                let t = *self.r.pick(&[" ", "\n", "\r\n", "\t", "\0", "\u{feff}", "\u{200b}", "\u{301}"]);
                if self.r.pct(60) {
                    v.extend(t.chars());
                } else {
                    let at = if self.r.pct(60) { 0 } else { self.r.below(v.len() + 1) };
                    for c in t.chars() {
                        v.insert(at, c);
                    }
                }
            }
            0 if !v.is_empty() => {
                let i = self.r.below(v.len());
                v.remove(i);
            }
            1 => {
                let i = self.r.below(v.len() + 1);
                let c = *self.r.pick(&self.alpha);
                v.insert(i, c);
            }
            2 if !v.is_empty() => {
                let i = self.r.below(v.len());
                v[i] = *self.r.pick(&self.alpha);
            }
            3 => {
                let k = self.r.below(v.len() + 1);
                v.truncate(k);
            }
            4 => {
                let t = self.text(1, 3);
                v.extend(t.chars());
            }
            5 if !v.is_empty() => {
                // another character with the same leading byte
                let i = self.r.below(v.len());
                // or the same lower bits, or the other case
                let bit = *self.r.pick(&[1, 1, 1, 0x20, 0x80, 0x100, 0x1000, 0x10000]);
                let c = char::from_u32((v[i] as u32) ^ bit).unwrap_or('a');
                v[i] = c;
            }
            _ => {
                v.extend("0".chars());
            }
        }
        v.into_iter().collect()
    }
    fn msg(&mut self, pats: &[Pat]) -> String {
        if pats.is_empty() || self.r.pct(8) {
            return self.text(0, 6);
        }
        let i = self.r.below(pats.len());
        let mut m = self.instance(&pats[i].toks);
        if self.r.pct(12) && pats.len() > 1 {
            // the beginning of one pattern, the end of another
            let j = self.r.below(pats.len());
            let o = self.instance(&pats[j].toks);
            let a = m.chars().count();
            let k = self.r.below(a + 1);
            let b = o.chars().count();
            let l = self.r.below(b + 1);
            m = m.chars().take(k).chain(o.chars().skip(l)).collect();
        }
        while self.r.pct(22) {
            m = self.mutate(&m);
        }
        m
    }

    /// test messages for a pattern in the context of the ones before it
    fn tests(&mut self, p: &Pat, before: &[Pat], badness: usize) -> Vec<TestMsg> {
        let n = if self.r.pct(3) { *self.r.pick(&[4, 8, 9, 10, 16, 17, 33, 40]) } else { self.r.range(1, 3) };
        // with many of them, only one late one is bad
        let late = if n > 3 && badness > 0 { Some(n - 1 - self.r.below(2)) } else { None };
        let mut v = Vec::new();
        for i in 0..n {
            let badness = match late {
                Some(l) => {
                    if i == l {
                        60
                    } else {
                        0
                    }
                }
                None => badness,
            };
            let mut m = self.instance(&p.toks);
            for _ in 0..20 {
                if match_one(&p.toks, &m).is_some() {
                    break;
                }
                m = self.instance(&p.toks);
            }
            let caps = match_one(&p.toks, &m).unwrap_or_default();
            let mut want: BTreeMap<String, String> = p.values.clone().unwrap_or_default();
            want.extend(caps);
            // only some are asked for
            let keep = self.r.range(0, 100);
            let mut vals = BTreeMap::new();
            for (k, x) in want {
                if self.r.below(100) < keep {
                    vals.insert(k, x);
                }
            }
            let tags = match &p.tags {
                Some(t) if self.r.pct(50) => {
                    let k = self.r.below(t.len() + 1);
                    Some(t[t.len() - k..].to_vec())
                }
                _ => None,
            };
            let tags = tags.map(|mut t: Vec<String>| {
                if !t.is_empty() && self.r.pct(25) {
                    for _ in 0..self.r.range(1, 3) {
                        let x = self.r.pick(&t).clone();
                        let at = self.r.below(t.len() + 1);
                        t.insert(at, x);
                    }
                }
                if self.r.pct(30) {
                    t.reverse();
                }
                t
            });
            let mut t = TestMsg { message: m, values: vals, tags };
            if self.r.pct(badness) {
                match self.r.below(9) {
                    0 => t.message = self.mutate(&t.message.clone()),
                    1 => {
                        let k: Vec<String> = t.values.keys().cloned().collect();
                        if let Some(k) = k.last() {
                            let x = t.values[k].clone();
                            let y = self.mutate(&x);
                            t.values.insert(k.clone(), y);
                        }
                    }
                    2 => {
                        t.values.insert(format!("no{}", self.r.below(3)), "x".into());
                    }
                    3 => {
                        let mut g = t.tags.clone().unwrap_or_default();
                        let at = self.r.below(g.len() + 1);
                        g.insert(at, "absent".into());
                        t.tags = Some(g);
                    }
                    6 => {
                        // a value that is nearly right
                        let k: Vec<String> = t.values.keys().cloned().collect();
                        if !k.is_empty() {
                            let k = self.r.pick(&k).clone();
                            let x = t.values[&k].clone();
                            let y = self.near(&x);
                            t.values.insert(k, y);
                        }
                    }
                    7 => {
                        // a key that is nearly right
                        let k: Vec<String> = t.values.keys().cloned().collect();
                        if !k.is_empty() {
                            let k = self.r.pick(&k).clone();
                            let x = t.values.remove(&k).unwrap();
                            let k = self.near(&k);
                            t.values.insert(k, x);
                        }
                    }
                    8 => {
                        // a tag that is nearly right
                        if let Some(g) = &p.tags {
                            if !g.is_empty() {
                                let mut g = g.clone();
                                let i = self.r.below(g.len());
                                g[i] = self.near(&g[i].clone());
                                t.tags = Some(g);
                            }
                        }
                    }
                    4 if !before.is_empty() => {
                        let i = self.r.below(before.len());
                        t.message = self.instance(&before[i].toks.clone());
                    }
                    _ => {
                        let m = self.text(0, 4);
                        t.message = m;
                    }
                }
            }
            if badness > 0 && late.is_none() && self.r.pct(8) {
                // several discrepancies at once
                for i in 0..self.r.range(2, 5) {
                    t.values.insert(format!("{}{}", *self.r.pick(&["no", "k", "Z"]), i), "x".into());
                }
            }
            v.push(t);
        }
        v
    }

    /// what a careless comparison would take for the same
    fn near(&mut self, x: &str) -> String {
        match self.r.below(10) {
            0 => format!("{} ", x),
            1 => format!(" {}", x),
            2 => format!("0{}", x),
            3 => x.chars().take(x.chars().count().saturating_sub(1)).collect(),
            4 => {
                let y = x.to_uppercase();
                if y == x {
                    x.to_lowercase()
                } else {
                    y
                }
            }
            5 => format!("{}\u{0}", x),
            6 => format!("+{}", x),
            7 => String::new(),
            8 => format!("{}\n", x),
            _ => x.chars().rev().collect(),
        }
    }

    /// `p` gets the id of `old`, half of the time its content as well
    fn twin(&mut self, p: &mut Pat, old: &Pat) {
        p.uid = old.uid;
        if self.r.pct(50) {
            p.toks = old.toks.clone();
            p.via = old.via;
        }
    }

    fn doc(&mut self, n: usize, badness: usize) -> Doc {
        let mut pats: Vec<Pat> = Vec::new();
        let with_tests = *self.r.pick(&[0, 50, 100]);
        for _ in 0..n {
            let mut p = self.tpat();
            if self.r.pct(2) && !pats.is_empty() {
                let old = self.r.pick(&pats).clone();
                self.twin(&mut p, &old);
                p.tags = old.tags;
            }
            pats.push(p);
        }
        // files are added last to first: test messages see the ones after them
        for i in (0..pats.len()).rev() {
            if self.r.pct(with_tests) {
                let before: Vec<Pat> = pats[i + 1..].to_vec();
                let p = pats[i].clone();
                let t = self.tests(&p, &before, badness);
                pats[i].tests = Some(t);
            }
        }
        Doc { pats }
    }
    fn items(&mut self, n: usize, badness: usize, faults: usize) -> Vec<Item> {
        let mut v = Vec::new();
        let mut before: Vec<Pat> = Vec::new();
        let with_tests = *self.r.pick(&[30, 70, 100]);
        for i in 0..n {
            if self.r.pct(faults) {
                v.push(match self.r.below(10) {
                    0..=3 => Item::Fail(i as u32),
                    4..=6 => Item::Err { kind: self.r.below(11) as u8, n: i as u32 },
                    _ => Item::BadJson(i as u32),
                });
                continue;
            }
            let mut p = self.pat();
            if self.r.pct(3) && !before.is_empty() {
                let old = self.r.pick(&before).clone();
                self.twin(&mut p, &old);
                // (whether no tags are expected or none are asked for must not depend on which of the two answers)
                p.tags = old.tags;
            }
            if self.r.pct(with_tests) {
                let t = self.tests(&p, &before, badness);
                p.tests = Some(t);
            }
            before.push(p.clone());
            v.push(Item::P(p));
        }
        v
    }

    fn benign(&mut self, len: usize) -> Vec<Io> {
        let mut v = Vec::new();
        if self.r.pct(30) {
            return v;
        }
        let n = match self.r.below(4) {
            0 => 1,
            1 => self.r.range(1, 8),
            2 => self.r.range(1, 40),
            _ => (len / 2).min(400),
        };
        let style = self.r.below(4);
        for _ in 0..n {
            v.push(match style {
                0 => Io::Short(1),
                1 => Io::Short(self.r.range(1, 9)),
                2 => Io::Short(self.r.range(1, 300)),
                _ => {
                    if self.r.pct(40) {
                        Io::Eintr
                    } else {
                        Io::Short(self.r.range(1, 64))
                    }
                }
            });
            if self.r.pct(5) {
                v.push(Io::Eintr);
            }
        }
        v
    }
    /// faults that must not go unnoticed, placed inside the transfer
    fn hard(&mut self, bytes: &[u8]) -> Vec<Io> {
        let mut v = Vec::new();
        let at = match self.r.below(5) {
            0 => 0,
            1 if !bytes.is_empty() => self.r.below(bytes.len()),
            2 => bytes.len(),
            3 if !bytes.is_empty() => {
                // just where a line ends: the prefix may look like a whole document
                let nl: Vec<usize> = (0..bytes.len()).filter(|i| bytes[*i] == b'\n').collect();
                if nl.is_empty() {
                    bytes.len() - 1
                } else {
                    nl[self.r.below(nl.len())] + 1
                }
            }
            _ => {
                let b = b"\n  -\n";
                let cut: Vec<usize> = bytes.windows(b.len()).enumerate().filter(|(_, w)| *w == b).map(|(i, _)| i + 1).collect();
                if cut.is_empty() {
                    bytes.len()
                } else {
                    cut[self.r.below(cut.len())]
                }
            }
        };
        if at > 0 {
            if self.r.pct(50) {
                v.push(Io::Short(at));
            } else {
                let a = self.r.range(1, at);
                v.push(Io::Short(a));
                if at > a {
                    v.push(Io::Short(at - a));
                }
                if self.r.pct(30) {
                    v.insert(0, Io::Eintr);
                }
            }
        }
        let e = match self.r.below(10) {
            0 => Io::Eof,
            _ => Io::Err(*self.r.pick(&[5, 5, 5, 11, 12, 21, 13, 116, 6, 110, 9])),
        };
        v.push(e);
        v
    }
    fn open_faults(&mut self) -> Vec<i32> {
        match self.r.below(12) {
            0 => vec![4],
            1 => vec![4, 4, 4],
            2 => vec![*self.r.pick(&[13, 24, 23, 2, 40, 12])],
            _ => vec![],
        }
    }
    fn damage(&mut self, len: usize) -> Vec<Damage> {
        let n = if self.r.pct(70) { 1 } else { self.r.range(1, 4) };
        (0..n)
            .map(|_| {
                let k = self.r.below(len.max(1));
                match self.r.below(8) {
                    0 | 1 => Damage::Trunc(k),
                    2 => Damage::Flip(k, self.r.below(8) as u8),
                    3 => Damage::Zero(k, *self.r.pick(&[1, 4, 16, 512])),
                    4 => Damage::Cut(k, *self.r.pick(&[1, 2, 8, 64, 512])),
                    5 => Damage::Dup(k, *self.r.pick(&[1, 2, 8, 64, 512])),
                    6 => Damage::Set(k, self.r.below(256) as u8),
                    _ => Damage::Set(k, *self.r.pick(b"{}[]:,\"'\\#&*!|>%@`-?\n\t \x00\xff\xc3\xe2\xf0")),
                }
            })
            .collect()
    }
    fn probs(&mut self) -> [usize; 6] {
        match self.r.below(6) {
            0 => [0, 0, 0, 0, 500, 0],
            1 => [5, 50, 200, 200, 300, 0],
            2 => [30, 100, 300, 300, 300, 0],
            3 => [1, 5, 500, 100, 500, 0],
            4 => [200, 200, 200, 200, 200, 0],
            _ => [2, 20, 50, 50, 50, 0],
        }
    }
    fn fine(&mut self) -> u64 {
        *self.r.pick(&[0, 0, 0, 30, 200, 1000, 5000, 20000, 100000])
    }
    fn size(&mut self) -> usize {
        match self.r.below(100) {
            0..=59 => self.r.range(1, 5),
            60..=89 => self.r.range(4, 10),
            90..=97 => self.r.range(10, 30),
            98 => self.r.range(30, 90),
            _ if self.r.pct(80) => self.r.range(30, 90),
            _ => self.r.range(90, 280),
        }
    }
    fn imp(&mut self) -> Imp {
        match self.r.below(10) {
            0..=4 => Imp::Trie,
            5..=7 => Imp::Array,
            _ => Imp::Both,
        }
    }
    fn fname(&mut self, f: Fmt, k: usize) -> String {
        match f {
            Fmt::Json => format!("f{}{}.json", k, self.r.pick(&["", "", "", "", "", ".yaml", ".x", " é", ".."])),
            Fmt::Yaml => format!("f{}{}.{}", k, self.r.pick(&["", "", "", "", "", ".json", ".x", " é", ".."]), self.r.pick(&["yaml", "yml", "YAML", "YML"])),
        }
    }
    fn fmt(&mut self) -> Fmt {
        if self.r.pct(50) {
            Fmt::Json
        } else {
            Fmt::Yaml
        }
    }
    fn cancel(&mut self, p: usize) -> Option<u32> {
        if self.r.pct(p) {
            Some(match self.r.below(3) {
                0 => self.r.range(1, 3),
                1 => self.r.range(1, 12),
                _ => self.r.range(1, 60),
            } as u32)
        } else {
            None
        }
    }
}

fn base(prop: &str, seed: u64, g: &mut G) -> Plan {
    let log = *g.r.pick(&[0, 1, 1, 4, 5]);
    Plan {
        prop: prop.into(),
        seed,
        log,
        fmt: g.r.pct(30),
        entropy: mix(seed) | 1,
        efaults: 0,
        clock: (1_700_000_000_000_000_000 + g.r.range(0, 1 << 30) as u64, *g.r.pick(&[0, 0, 1, 1000, 1_000_000])),
        nested: *g.r.pick(&[0, 0, 0, 0, 0, 3, 20, 100, 1000]),
        moves: *g.r.pick(&[0, 0, 0, 0, 1, 3, 4, 5, 6, 7]),
        init: vec![],
        threads: vec![],
        sched: SchedPlan::Gen { seed: mix(seed ^ 0x5555), probs: g.probs(), fine: g.fine() },
    }
}

pub fn gen(prop: &str, seed: u64) -> Plan {
    let mut g = G::new(seed ^ prop.bytes().fold(7u64, |a, b| mix(a ^ b as u64)));
    if prop == "C17" || prop == "C18" {
        // any of the other workloads
        let of: &[&str] = &["C01", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C11", "C13", "C14", "C15"];
        let mut p = gen(*g.r.pick(of), mix(seed ^ 0x17) >> 1);
        p.prop = prop.into();
        p.seed = seed;
        if prop == "C18" && p.threads.len() > 1 {
            // where another thread changes the log level it is the schedule that decides at which
            // record a panicking sink strikes, and other random numbers are another schedule
            for o in p.init.iter_mut().chain(p.threads.iter_mut().flatten()) {
                match o {
                    Op::Parse { cancel, .. } | Op::Load { cancel, .. } | Op::Source { cancel, .. } => *cancel = None,
                    _ => {}
                }
            }
        }
        if prop == "C17" && g.r.pct(40) {
            // what is refused, each time something else
            for _ in 0..g.r.range(1, 4) {
                let x = g.r.below(1_000_000_000);
                let text = match g.r.below(7) {
                    0 => format!("{{\"uuid\":\"67e55044-10b1-426f-9247-bb680e5fe0c8\",\"pattern\":\"x{}%{{FOO:a}}\"}}", x),
                    1 => format!("{{\"uuid\":\"67e55044-10b1-426f-9247-bb680e5fe0c8\",\"name\":\"n{}\"}}", x),
                    2 => format!("{{\"uuid\":\"no uuid {}\",\"pattern\":\"x\"}}", x),
                    3 => format!("{{\"uuid\":\"67e55044-10b1-426f-9247-bb680e5fe0c8\",\"pattern\":\"x\",\"f{}\":1}}", x),
                    4 => format!("{{\"pattern\":\"%{{INT:a{}}}\"}}", x),
                    5 => format!("{{\"uuid\":\"67e55044-10b1-426f-9247-bb680e5fe0c8\",\"pattern\":\"x\",\"test_messages\":[{{\"massage\":\"{}\"}}]}}", x),
                    _ => format!("broken {}", x),
                };
                p.threads[0].push(if g.r.pct(15) { Op::Grammar { text: format!("{}%{{", x) } } else { Op::Json { text } });
            }
        }
        if prop == "C17" && g.r.pct(15) {
            p.threads[0].push(Op::Uuid { n: g.r.range(1, 30) });
        }
        return p;
    }
    let mut p = base(prop, seed, &mut g);
    match prop {
        "C01" | "C02" | "C03" | "C12" | "C14" => {
            let n = if g.r.pct(15) { 2 } else { 1 };
            g.raw = (prop == "C01" || prop == "C02") && g.r.pct(25);
            if prop == "C14" {
                g.meta = *g.r.pick(&[30, 60, 90]);
            }
            for t in 0..n {
                let prog = matching(&mut g, prop, t);
                p.threads.push(prog);
            }
        }
        "C04" => {
            let t = cloning(&mut g);
            p.threads.push(t);
        }
        "C05" => {
            g.custom = g.custom || g.r.pct(40);
            if g.r.pct(50) {
                p.log = 5;
            }
            let n = if g.r.pct(20) { 2 } else { 1 };
            for _ in 0..n {
                let t = repeating(&mut g);
                p.threads.push(t);
            }
            if p.threads.iter().flatten().any(|o| matches!(o, Op::Hammer { n, .. } if *n > 1000)) {
                p.nested = 0;
            }
        }
        "C06" => loading(&mut g, &mut p),
        "C07" | "C08" | "C09" => {
            if prop == "C08" && p.log == 0 {
                p.log = 1;
            }
            let n = if g.r.pct(10) { 2 } else { 1 };
            for t in 0..n {
                let x = building(&mut g, prop, t);
                p.threads.push(x);
            }
        }
        "C10" => {
            let t = hostile(&mut g);
            p.threads.push(t);
        }
        "C11" => recovery(&mut g, &mut p),
        "C13" => {
            g.meta = *g.r.pick(&[20, 60, 90]);
            let mut v = vec![];
            for _ in 0..g.r.range(1, 2) {
                let n = g.size().min(12);
                let bad = *g.r.pick(&[0, 20, 60]);
                let doc = g.doc(n, bad);
                let jl = doc_bytes(&doc, Fmt::Json, 1).len();
                let jio = g.benign(jl);
                let yio = g.benign(jl);
                let mut msgs = vec![];
                for _ in 0..(2 * n + 2).min(16) {
                    msgs.push(g.msg(&doc.pats));
                }
                v.push(Op::FmtPair { doc, js: g.r.next(), ys: g.r.next(), jio, yio, msgs });
            }
            p.threads.push(v);
        }
        "C15" => {
            let n = g.r.range(2, 4);
            p.log = *g.r.pick(&[0, 1, 4, 5]);
            if g.r.pct(60) {
                for k in 0..g.r.range(1, 2) {
                    let f = g.fmt();
                    let n = g.size().min(8);
                    let doc = g.doc(n, 20);
                    let name = g.fname(f, 90 + k);
                    p.init.push(Op::Write { file: name, doc, fmt: f, style: g.r.next(), damage: vec![], mode: WriteMode::Atomic, pieces: 1, pad: 0 });
                }
            }
            for t in 0..n {
                let shared: Vec<Op> = p.init.clone();
                let x = busy(&mut g, t, &shared);
                p.threads.push(x);
            }
        }
        "C16" => {
            p.efaults = *g.r.pick(&[0, 1, 3, 10]);
            let n = g.r.range(1, 4);
            for _ in 0..n {
                let mut v = vec![];
                for _ in 0..g.r.range(1, 3) {
                    let k = match g.r.below(20) {
                        0 => g.r.range(200, 2500),
                        1..=4 => g.r.range(20, 200),
                        _ => g.r.range(1, 20),
                    };
                    v.push(Op::Uuid { n: k });
                    if g.r.pct(20) {
                        v.push(Op::Restart);
                    }
                    if g.r.pct(20) {
                        let ns = *g.r.pick(&[-1, 1, -1000, -1_000_000_000, 1_000_000_000, -3_600_000_000_000, 86_400_000_000_000]);
                        v.push(Op::Clock(ns));
                    }
                    if g.r.pct(20) {
                        v.push(Op::Grammar { text: "%{BAD".into() });
                    }
                }
                p.threads.push(v);
            }
        }
        _ => panic!("no such property: {}", prop),
    }
    // what the file system says about the size of a file need not be true
    let Plan { init, threads, .. } = &mut p;
    for op in init.iter_mut().chain(threads.iter_mut().flatten()) {
        if let Op::Load { open, .. } = op {
            if g.r.pct(15) {
                open.push(-(g.r.range(1, 4) as i32));
            }
        }
    }
    p
}

/// A document of exactly the same length with other content
fn twin(g: &mut G, doc: &Doc) -> Doc {
    let mut d = doc.clone();
    let n = d.pats.len();
    for k in 0..n {
        let k = (k + g.r.below(n)) % n;
        let toks = &mut d.pats[k].toks;
        for t in 0..toks.len() {
            let mut lit = None;
            if let Tok::L(l) = &mut toks[t] {
                if let Some(i) = l.bytes().position(|b| b.is_ascii_lowercase()) {
                    let c = if &l[i..i + 1] == "q" { "k" } else { "q" };
                    l.replace_range(i..i + 1, c);
                    lit = Some(l.clone());
                }
            }
            if lit.is_some() {
                // in a document a greedy parser always ends where the text after it begins
                if t > 0 {
                    if let Tok::G { end: Some(e), .. } = &mut toks[t - 1] {
                        *e = lit.unwrap();
                    }
                }
                return d;
            }
        }
    }
    d.pats.reverse();
    d
}

/// a stored document, loaded with only harmless faults; returns the patterns it brings
fn harmless_load(g: &mut G, v: &mut Vec<Op>, slot: usize, imp: Imp, k: usize, mode: Mode, bad: usize) -> Vec<Pat> {
    let f = g.fmt();
    let n = g.size().min(8);
    let doc = g.doc(n, bad);
    let style = g.r.next();
    let file = g.fname(f, k);
    let len = doc_bytes(&doc, f, style).len();
    v.push(Op::Write { file: file.clone(), doc: doc.clone(), fmt: f, style, damage: vec![], mode: WriteMode::Atomic, pieces: 1, pad: 0 });
    let io = g.benign(len);
    let open = if g.r.pct(15) { vec![4] } else { vec![] };
    v.push(Op::Load { slot, file, imp, mode, open, io, cancel: None });
    doc.pats
}

/// Very many different parsers at one place: each pattern is told apart by its parser, by what
/// follows it, or by both
fn crowd(g: &mut G, prop: &str) -> Vec<Op> {
    let mut v = Vec::new();
    g.scale = 0;
    let imp = if prop == "C12" { Imp::Both } else { g.imp() };
    v.push(Op::New { slot: 0, imp });
    let n = *g.r.pick(&[17, 33, 65, 66, 66, 70, 100, 130, 140, 140, 200, 260, 300, 300, 520]);
    let head = if g.r.pct(50) { vec![Tok::L(g.lit())] } else { vec![] };
    let kind = g.r.below(6);
    let set = g.r.pick(&g.sets).clone();
    let tail = kind > 1 || g.r.pct(50);
    // what tells them apart comes only after another parser
    let far = tail && g.r.pct(40);
    let salt = g.r.below(10_000);
    let mut all: Vec<Pat> = vec![];
    let order = g.r.below(3);
    for i in 0..n {
        let i = match order {
            0 => i,
            1 => n - 1 - i,
            _ => (i * 7919 + salt) % n,
        };
        let name = Some(format!("n{}", salt + i));
        let end = if tail { format!(" e{}", i) } else { String::new() };
        let t = match kind {
            0 => Tok::I { min: Some(i + 1), max: Some(i + 1), name: Some("a".into()) },
            1 => Tok::S { set: set.clone(), min: Some(i + 1), max: Some(i + 1), name: None },
            2 => Tok::G { name, end: None },
            3 => Tok::I { min: None, max: None, name },
            4 => Tok::S { set: set.clone(), min: None, max: None, name },
            _ => match i % 4 {
                0 => Tok::G { name, end: None },
                1 => Tok::I { min: None, max: Some(i + 1), name },
                2 => Tok::S { set: set.clone(), min: None, max: None, name },
                _ => Tok::I { min: None, max: None, name },
            },
        };
        let mut toks = head.clone();
        toks.push(t);
        if far {
            toks.push(Tok::L(" ".into()));
            toks.push(Tok::I { min: None, max: None, name: None });
        }
        toks.push(Tok::L(end));
        let p = g.pat_of(normalise(&toks));
        v.push(Op::Add { slot: 0, pat: p.clone() });
        all.push(p);
    }
    let step = 1 + n / 120;
    let from = g.r.below(step);
    for p in all.iter().skip(from).step_by(step) {
        let m = g.instance(&p.toks);
        v.push(Op::Parse { slot: 0, msg: m, cancel: None });
    }
    for _ in 0..20 {
        let m = g.msg(&all);
        v.push(Op::Parse { slot: 0, msg: m, cancel: None });
    }
    v
}

fn matching(g: &mut G, prop: &str, t: usize) -> Vec<Op> {
    if g.r.below(400) == 0 {
        return crowd(g, prop);
    }
    let mut v = Vec::new();
    let mut have: BTreeMap<usize, Vec<Pat>> = BTreeMap::new();
    let imp = if prop == "C12" { Imp::Both } else { g.imp() };
    v.push(Op::New { slot: 0, imp });
    have.insert(0, vec![]);
    let n = g.size();
    let big = n > 30;
    let mut added = 0;
    while added < n {
        let slot = *g.r.pick(&have.keys().cloned().collect::<Vec<_>>());
        match g.r.below(100) {
            0..=54 => {
                let mut p = g.pat();
                if g.r.pct(4) && !have[&slot].is_empty() {
                    // another pattern with the id of one that is there, or the same one described differently
                    let old = g.r.pick(&have[&slot]).clone();
                    g.twin(&mut p, &old);
                }
                have.get_mut(&slot).unwrap().push(p.clone());
                v.push(Op::Add { slot, pat: p });
                added += 1;
            }
            55..=79 => {
                let m = g.msg(&have[&slot]);
                let cancel = g.cancel(8);
                v.push(Op::Parse { slot, msg: m, cancel });
            }
            80..=84 if !big => {
                let to = g.r.below(3);
                if to != slot {
                    have.insert(to, have[&slot].clone());
                    v.push(Op::Clone { from: slot, to, boxed: g.r.pct(50) });
                }
            }
            85..=91 => {
                let to = g.r.below(3);
                let ps = harmless_load(g, &mut v, to, imp, t * 10 + to, Mode::Lenient, 10);
                added += 1;
                have.insert(to, ps);
            }
            92..=94 => {
                let to = g.r.below(3);
                let k = g.r.range(1, 5);
                let items = g.items(k, 20, 10);
                let ps = items.iter().filter_map(|i| if let Item::P(p) = i { Some(p.clone()) } else { None }).collect();
                v.push(Op::Source { slot: to, imp, strict: false, items, cancel: None });
                added += 1;
                have.insert(to, ps);
            }
            95..=96 => v.push(Op::Log(*g.r.pick(&[0, 1, 5]))),
            97 => {
                let to = g.r.below(3);
                v.push(Op::New { slot: to, imp });
                have.insert(to, vec![]);
            }
            _ => v.push(Op::Sweep { slot }),
        }
    }
    // every pattern must still be reachable, at the end as well
    for (slot, ps) in have {
        let per = if ps.len() > 30 { 1 } else { 3 };
        for p in &ps {
            for _ in 0..per {
                let m = g.instance(&p.toks);
                v.push(Op::Parse { slot, msg: m, cancel: None });
            }
        }
        for _ in 0..(ps.len() * 2).min(30) + 2 {
            let m = g.msg(&ps);
            v.push(Op::Parse { slot, msg: m, cancel: None });
        }
    }
    v
}

fn cloning(g: &mut G) -> Vec<Op> {
    let mut v = Vec::new();
    let imp = g.imp();
    let mut have: BTreeMap<usize, Vec<Pat>> = BTreeMap::new();
    if g.r.pct(25) {
        let ps = harmless_load(g, &mut v, 0, imp, 0, Mode::Lenient, 0);
        have.insert(0, ps);
    } else {
        v.push(Op::New { slot: 0, imp });
        have.insert(0, vec![]);
        for _ in 0..g.r.range(0, 5) {
            let p = g.pat();
            have.get_mut(&0).unwrap().push(p.clone());
            v.push(Op::Add { slot: 0, pat: p });
        }
    }
    let n = g.r.range(4, 22);
    for _ in 0..n {
        let slot = *g.r.pick(&have.keys().cloned().collect::<Vec<_>>());
        match g.r.below(10) {
            0..=2 => {
                let to = g.r.below(5);
                if to != slot {
                    // so that there is something to compare
                    for _ in 0..g.r.range(0, 4) {
                        let m = g.msg(&have[&slot]);
                        v.push(Op::Parse { slot, msg: m, cancel: None });
                    }
                    have.insert(to, have[&slot].clone());
                    v.push(Op::Clone { from: slot, to, boxed: g.r.pct(50) });
                }
            }
            3..=6 => {
                let p = g.pat();
                // what the newcomer would answer, asked of everybody before and after
                let m = g.instance(&p.toks);
                if g.r.pct(60) {
                    for s in have.keys() {
                        v.push(Op::Parse { slot: *s, msg: m.clone(), cancel: None });
                    }
                }
                have.get_mut(&slot).unwrap().push(p.clone());
                v.push(Op::Add { slot, pat: p });
                v.push(Op::Parse { slot, msg: m, cancel: None });
            }
            7 | 8 => {
                let m = g.msg(&have[&slot]);
                let c = g.cancel(10);
                v.push(Op::Parse { slot, msg: m, cancel: c });
            }
            _ => {
                if have.len() > 1 {
                    have.remove(&slot);
                    v.push(Op::Drop { slot });
                }
            }
        }
    }
    for (slot, ps) in have {
        for p in ps.iter() {
            let m = g.instance(&p.toks);
            v.push(Op::Parse { slot, msg: m, cancel: None });
        }
        for _ in 0..4 {
            let m = g.msg(&ps);
            v.push(Op::Parse { slot, msg: m, cancel: None });
        }
    }
    v
}

fn repeating(g: &mut G) -> Vec<Op> {
    let mut v = Vec::new();
    let imp = g.imp();
    v.push(Op::New { slot: 0, imp });
    let mut ps = vec![];
    for _ in 0..g.r.range(1, 8) {
        let p = g.pat();
        ps.push(p.clone());
        v.push(Op::Add { slot: 0, pat: p });
    }
    let mut msgs: Vec<String> = vec![];
    for _ in 0..g.r.range(2, 8) {
        msgs.push(g.msg(&ps));
    }
    let n = g.r.range(4, 40);
    for _ in 0..n {
        match g.r.below(20) {
            0..=11 => {
                let msg = if g.r.pct(80) { g.r.pick(&msgs).clone() } else { g.msg(&ps) };
                let cancel = g.cancel(20);
                v.push(Op::Parse { slot: 0, msg, cancel });
            }
            12 => v.push(Op::Log(*g.r.pick(&[0, 1, 3, 4, 5]))),
            13 => {
                let ns = *g.r.pick(&[1, 1_000_000, 1_000_000_000, 60_000_000_000, 3_600_000_000_000, 86_400_000_000_000, -1_000_000_000, -3_600_000_000_000]);
                v.push(Op::Clock(ns));
            }
            14 => {
                let k = g.r.range(1, 3);
                let items = g.items(k, 40, 30);
                let strict = g.r.pct(50);
                let cancel = g.cancel(30);
                v.push(Op::Source { slot: 1, imp, strict, items, cancel });
            }
            15 => {
                harmless_load(g, &mut v, 2, imp, 5, Mode::Strict, 50);
            }
            16 => v.push(Op::Uuid { n: 2 }),
            17 if g.r.pct(50) => v.push(Op::Sweep { slot: 0 }),
            17 => {
                let p = g.pat();
                ps.push(p.clone());
                v.push(Op::Add { slot: 0, pat: p });
            }
            18 => {
                let p = g.pat();
                v.push(Op::New { slot: 3, imp });
                v.push(Op::Add { slot: 3, pat: p.clone() });
                let m = g.instance(&p.toks);
                v.push(Op::Parse { slot: 3, msg: m, cancel: None });
            }
            _ => {
                let msg = g.r.pick(&msgs).clone();
                let n = match g.r.below(100) {
                    0 => *g.r.pick(&[1100, 4200, 10_100, 70_000]),
                    1..=4 => g.r.range(100, 600),
                    _ => g.r.range(1, 40),
                };
                v.push(Op::Hammer { slot: 0, msg, n });
            }
        }
    }
    v
}

fn loading(g: &mut G, p: &mut Plan) {
    let mut v = Vec::new();
    let nfiles = g.r.range(1, 3);
    let mut files: Vec<(String, Doc, Fmt, Vec<u8>)> = vec![];
    for k in 0..nfiles {
        let f = g.fmt();
        let n = match g.r.below(20) {
            0 | 1 => 0,
            18 => g.size(),
            // beyond any buffer size
            19 if g.r.pct(10) => *g.r.pick(&[100, 130, 260, 600]),
            _ => g.r.range(1, 4),
        };
        let bad = *g.r.pick(&[0, 0, 20]);
        let doc = g.doc(n, bad);
        let style = g.r.next();
        // blank space in front, up to beyond every plausible buffer or limit
        let pad = match g.r.below(2000) {
            0 => *g.r.pick(&[1 << 20, (1 << 20) + 1, 5_000_000, 17_000_000]),
            1..=9 => *g.r.pick(&[4096, 8192, 16_384, 65_536, 65_537, 300_000]),
            _ => 0,
        };
        let b = if pad > 0 { padded(&doc, f, style, pad) } else { doc_bytes(&doc, f, style) };
        let file = g.fname(f, k);
        v.push(Op::Write { file: file.clone(), doc: doc.clone(), fmt: f, style, damage: vec![], mode: WriteMode::Atomic, pieces: 1, pad });
        files.push((file, doc, f, b));
    }
    let racing = g.r.pct(30);
    let n = g.r.range(2, 9);
    for _ in 0..n {
        let (file, doc, f, b) = g.r.pick(&files).clone();
        let mode = *g.r.pick(&[Mode::File, Mode::Strict, Mode::Lenient]);
        let imp = if mode == Mode::File { Imp::Trie } else { *g.r.pick(&[Imp::Trie, Imp::Array]) };
        let slot = g.r.below(2);
        match g.r.below(20) {
            0..=6 => {
                let io = g.hard(&b);
                v.push(Op::Load { slot, file, imp, mode, open: vec![], io, cancel: None });
            }
            7..=11 => {
                let io = g.benign(b.len());
                let open = g.open_faults();
                v.push(Op::Load { slot, file, imp, mode, open, io, cancel: None });
            }
            12 | 13 => {
                // torn or damaged on disk (structure of YAML kept plausible: only cut at the end)
                let d = if f == Fmt::Yaml { vec![Damage::Trunc(g.r.below(b.len() + 1))] } else { g.damage(b.len()) };
                let style = g.r.next();
                v.push(Op::Write { file: file.clone(), doc, fmt: f, style, damage: d, mode: WriteMode::Truncate, pieces: 1, pad: 0 });
                let io = if g.r.pct(50) { g.benign(b.len()) } else { vec![] };
                v.push(Op::Load { slot, file, imp, mode, open: vec![], io, cancel: None });
            }
            14 => {
                let bad = ["d.json", "d.yaml", "missing.json", "missing.yml", "plain.txt", "noext", "x.jsonx"];
                let file = g.r.pick(&bad).to_string();
                if file.starts_with("d.") {
                    v.push(Op::Dir { file: file.clone() });
                }
                let open = g.open_faults();
                v.push(Op::Load { slot, file, imp, mode, open, io: vec![], cancel: None });
            }
            15 => {
                v.push(Op::Unlink { file: file.clone() });
                v.push(Op::Load { slot, file, imp, mode, open: vec![], io: vec![], cancel: None });
            }
            16 => {
                let style = g.r.next();
                let n = g.r.range(0, 4);
                let nd = if g.r.pct(50) {
                    // replaced by something of the same length right after it was read
                    let mode2 = *g.r.pick(&[WriteMode::Atomic, WriteMode::InPlace, WriteMode::Truncate]);
                    v.push(Op::Write { file: file.clone(), doc: doc.clone(), fmt: f, style, damage: vec![], mode: mode2, pieces: 1, pad: 0 });
                    v.push(Op::Load { slot, file: file.clone(), imp, mode, open: vec![], io: vec![], cancel: None });
                    twin(g, &doc)
                } else {
                    g.doc(n, 0)
                };
                let mode2 = *g.r.pick(&[WriteMode::Atomic, WriteMode::Truncate]);
                v.push(Op::Write { file: file.clone(), doc: nd, fmt: f, style, damage: vec![], mode: mode2, pieces: 1, pad: 0 });
                v.push(Op::Load { slot, file, imp, mode, open: vec![], io: vec![], cancel: None });
            }
            _ => v.push(Op::Load { slot, file, imp, mode, open: vec![], io: vec![], cancel: None }),
        }
        if g.r.pct(30) {
            let m = g.text(0, 4);
            v.push(Op::Parse { slot, msg: m, cancel: None });
        }
    }
    if racing {
        // the administrator edits the files while they are being read
        let setup: Vec<Op> = v.drain(..nfiles).collect();
        p.init = setup;
        let mut w = vec![];
        for _ in 0..g.r.range(1, 6) {
            let (file, doc, f, _) = g.r.pick(&files).clone();
            let nd = if g.r.pct(40) {
                doc
            } else {
                let n = g.r.range(0, 5);
                g.doc(n, 0)
            };
            let mode = *g.r.pick(&[WriteMode::Truncate, WriteMode::InPlace, WriteMode::Atomic]);
            let pieces = g.r.range(1, 5);
            if f == Fmt::Yaml && mode == WriteMode::InPlace {
                continue;
            }
            w.push(Op::Write { file, doc: nd, fmt: f, style: g.r.next(), damage: vec![], mode, pieces, pad: 0 });
        }
        // many small reads, so that the edits fall inside
        for op in v.iter_mut() {
            if let Op::Load { io, .. } = op {
                if io.is_empty() {
                    *io = g.benign(200);
                }
            }
        }
        p.threads.push(v);
        p.threads.push(w);
        p.sched = SchedPlan::Gen { seed: g.r.next(), probs: [0, 20, 400, 50, 300, 0], fine: 0 };
    } else {
        p.threads.push(v);
    }
}

fn building(g: &mut G, prop: &str, t: usize) -> Vec<Op> {
    let mut v = Vec::new();
    let n = g.r.range(1, 5);
    for _ in 0..n {
        let imp = g.imp();
        let slot = g.r.below(2);
        let bad = match prop {
            "C09" => *g.r.pick(&[0, 20, 40]),
            _ => *g.r.pick(&[0, 0, 10, 30]),
        };
        let faults = match prop {
            "C09" => *g.r.pick(&[0, 0, 5]),
            _ => *g.r.pick(&[0, 5, 15, 40]),
        };
        let strict = match prop {
            "C07" => true,
            "C08" => false,
            _ => g.r.pct(75),
        };
        let mut ps: Vec<Pat> = vec![];
        if g.r.pct(65) {
            let k = if g.r.pct(1) { *g.r.pick(&[64, 65, 100, 101, 130, 257, 300]) } else { g.size().min(20) };
            let faults = if k > 60 && g.r.pct(50) { 80 } else { faults };
            let items = g.items(k, bad, faults);
            let cancel = if g.r.pct(6) { g.cancel(100) } else { None };
            for i in &items {
                if let Item::P(p) = i {
                    ps.push(p.clone());
                }
            }
            v.push(Op::Source { slot, imp, strict, items, cancel });
        } else {
            let m = if strict { Mode::Strict } else { Mode::Lenient };
            let x = harmless_load(g, &mut v, slot, imp, t * 10 + slot, m, bad);
            ps.extend(x);
        }
        if g.r.pct(10) {
            let l = *g.r.pick(&[1, 1, 4, 5]);
            v.push(Op::Log(l));
        }
        // what was accepted must be there
        for p in ps.iter().take(12) {
            let m = g.instance(&p.toks);
            v.push(Op::Parse { slot, msg: m, cancel: None });
        }
    }
    v
}

fn hostile(g: &mut G) -> Vec<Op> {
    let mut v = Vec::new();
    g.raw = g.r.pct(50);
    let imp = g.imp();
    let n = g.r.range(1, 6);
    let mut ps: Vec<Pat> = vec![];
    v.push(Op::New { slot: 0, imp });
    for _ in 0..n {
        match g.r.below(12) {
            0..=4 => {
                let mut p = g.pat();
                if g.r.pct(10) {
                    for t in p.toks.iter_mut() {
                        if let Tok::S { min, max, .. } | Tok::I { min, max, .. } = t {
                            *min = *g.r.pick(&[Some(0), Some(usize::MAX), None]);
                            *max = *g.r.pick(&[Some(0), Some(usize::MAX), None]);
                        }
                    }
                }
                if g.r.pct(3) {
                    p.toks.clear();
                    p.via = Via::Builder;
                }
                ps.push(p.clone());
                v.push(Op::Add { slot: 0, pat: p });
            }
            5 | 6 => {
                let t = strange_pattern(g);
                v.push(Op::Grammar { text: t.clone() });
                if g.r.pct(40) {
                    let id = if g.r.pct(50) { strange_uuid(g) } else { uuid_str(900) };
                    let j = format!("{{\"uuid\":{},\"pattern\":{}}}", serde_json::to_string(&id).unwrap(), serde_json::to_string(&t).unwrap());
                    v.push(Op::Json { text: j });
                }
            }
            7 => {
                let p = g.tpat();
                let mut b = pat_json(&p, g.r.next()).into_bytes();
                for d in g.damage(b.len()) {
                    crate::exec::hurt(&mut b, &d);
                }
                v.push(Op::Json { text: String::from_utf8_lossy(&b).to_string() });
            }
            8 | 9 => {
                let f = g.fmt();
                let k = g.r.range(0, 4);
                let doc = g.doc(k, 30);
                let style = g.r.next();
                let len = doc_bytes(&doc, f, style).len();
                let damage = g.damage(len);
                let file = g.fname(f, 0);
                v.push(Op::Write { file: file.clone(), doc, fmt: f, style, damage, mode: WriteMode::Truncate, pieces: 1, pad: 0 });
                let mode = *g.r.pick(&[Mode::File, Mode::Strict, Mode::Lenient]);
                let io = if g.r.pct(30) { g.benign(len) } else { vec![] };
                let imp = *g.r.pick(&[Imp::Trie, Imp::Array]);
                v.push(Op::Load { slot: 1, file, imp, mode, open: vec![], io, cancel: None });
                let m = g.text(0, 6);
                v.push(Op::Parse { slot: 1, msg: m, cancel: None });
            }
            10 if g.r.pct(15) => {
                let file = g.r.pick(&["", ".", "..", ".json", "noext", "x.", "x.é", "x.JSON", "json", "a.json.", "a\0b.json", "é.json/x", "x.json.txt", " ", "x.yaml ", ".yml"]).to_string();
                let mode = *g.r.pick(&[Mode::File, Mode::Strict, Mode::Lenient]);
                v.push(Op::Load { slot: 1, file, imp: Imp::Trie, mode, open: vec![], io: vec![], cancel: None });
            }
            10 if g.r.pct(50) => {
                let text = strange_yaml(g);
                v.push(Op::Raw { file: "r.yml".into(), text });
                v.push(Op::Load { slot: 1, file: "r.yml".into(), imp: Imp::Trie, mode: Mode::Lenient, open: vec![], io: vec![], cancel: None });
            }
            10 => {
                let p = g.tpat();
                let mut b = doc_bytes(&Doc { pats: vec![p] }, Fmt::Json, g.r.next());
                let s = String::from_utf8_lossy(&b).to_string();
                let s = if g.r.pct(50) {
                    swap_words(g, &s)
                } else {
                    let id = serde_json::to_string(&strange_uuid(g)).unwrap();
                    let mut s = s;
                    if let Some(at) = s.find("\"uuid\"") {
                        let rest = &s[at + 6..];
                        if let Some(q) = rest.find('"') {
                            if let Some(e) = rest[q + 1..].find('"') {
                                s = format!("{}{}{}", &s[..at + 6 + q], id, &rest[q + 1 + e + 1..]);
                            }
                        }
                    }
                    s
                };
                b = s.into_bytes();
                v.push(Op::Raw { file: "r.json".into(), text: String::from_utf8_lossy(&b).to_string() });
                v.push(Op::Load { slot: 1, file: "r.json".into(), imp: Imp::Trie, mode: Mode::Lenient, open: vec![], io: vec![], cancel: None });
            }
            _ => {
                let k = g.r.range(1, 4);
                let items = g.items(k, 50, 20);
                v.push(Op::Source { slot: 0, imp, strict: false, items: items.clone(), cancel: None });
                ps = items.into_iter().filter_map(|i| if let Item::P(p) = i { Some(p) } else { None }).collect();
            }
        }
        for _ in 0..g.r.range(0, 4) {
            let m = strange_msg(g, &ps);
            v.push(Op::Parse { slot: 0, msg: m, cancel: None });
        }
    }
    v
}

/// an id which is almost one: hyphens and digits lost, doubled, replaced or exchanged
fn strange_uuid(g: &mut G) -> String {
    let n = g.r.below(100_000) as u32;
    let mut c: Vec<char> = uuid_str(n).chars().collect();
    if g.r.pct(20) {
        c.retain(|x| *x != '-');
    }
    for _ in 0..g.r.range(1, 4) {
        if c.is_empty() {
            break;
        }
        let hy: Vec<usize> = (0..c.len()).filter(|i| c[*i] == '-').collect();
        let at = if !hy.is_empty() && g.r.pct(60) { *g.r.pick(&hy) } else { g.r.below(c.len()) };
        match g.r.below(7) {
            0 => {
                c.remove(at);
            }
            1 => c.insert(at, '-'),
            2 | 3 => c[at] = *g.r.pick(&['0', 'a', 'F']),
            4 => c[at] = *g.r.pick(&['-', 'é', 'g', ' ', '\0', '語']),
            5 => {
                let to = g.r.below(c.len());
                c.swap(at, to);
            }
            _ => {
                let x = c.remove(at);
                let to = g.r.below(c.len() + 1);
                c.insert(to, x);
            }
        }
    }
    let s: String = c.into_iter().collect();
    match g.r.below(10) {
        0 => format!("urn:uuid:{}", s),
        1 => s.to_uppercase(),
        2 => {
            // the right number of bytes whatever was done to it
            let mut t: String = s;
            while t.len() < 36 {
                t.push('0');
            }
            while t.len() > 36 {
                t.pop();
            }
            t
        }
        _ => s,
    }
}

fn swap_words(g: &mut G, s: &str) -> String {
    let a = ["\"patterns\"", "\"uuid\"", "\"pattern\"", "\"name\"", "\"values\"", "\"tags\"", "\"message\"", "[", "{", "}", "]", "null", "12", "-1e999", "\"\\ud800\"", "\"x\"", ":"];
    let from = *g.r.pick(&a[..11]);
    let to = *g.r.pick(&a);
    s.replacen(from, to, g.r.range(1, 2))
}

/// a soup of what YAML is made of, around or inside a document
fn strange_yaml(g: &mut G) -> String {
    let bits = [
        "- ", ": ", "? ", "&a ", "*a", "*b ", "!t ", "!!str ", "!<x> ", "! ", "|", ">", "|2-", ">+", "|9", "\"", "'", "''", "{", "}", "[", "]", ",", "\n", "\n  ", "\n    ", "  ", "%YAML 1.2\n",
        "%TAG ! x:\n", "%FOO\n", "---\n", "...\n", " #c", "#", "\\", "\\x4", "\\x41", "\\u12", "\\uD800", "\\U00110000", "\\U0010ffff", "\\\n", "\\\r\n", "\\\r", "\t", "\r", "\r\n", "key", "patterns", "patterns:\n", "uuid: ", "pattern: ",
        "values: ", "test_messages:", "<<: *a", "~", "null", "1e3", "0o7", ".inf", "\u{feff}", "\u{85}", "\u{2028}", "\0", "\u{7f}", "é", "@", "`", "=", "\u{1}",
    ];
    let n = g.r.range(1, 14);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(g.r.pick(&bits));
    }
    if g.r.pct(60) {
        let k = g.r.range(1, 2);
        let d = g.doc(k, 0);
        let t = String::from_utf8(doc_bytes(&d, Fmt::Yaml, g.r.next())).unwrap();
        let cs: Vec<char> = t.chars().collect();
        let at = g.r.below(cs.len() + 1);
        let skip = *g.r.pick(&[0, 0, 1, 5, 1000]);
        s = cs[..at].iter().collect::<String>() + &s + &cs[(at + skip).min(cs.len())..].iter().collect::<String>();
    }
    s
}

fn strange_pattern(g: &mut G) -> String {
    let bits = [
        "%{", "}", "INT", "SET", "GREEDY", "(", ")", "\"", ":", "a", "min_len=", "max_len=", "1", "99999999999999999999999", "18446744073709551615",
        "18446744073709551616", ",", " ", "\\%\\{", "\\", "%", "{", "é", "😀", "\u{0}", "\n", "%{INT:a}", "%{GREEDY}", "%{GREEDY:b}", "%{SET(\"ab\"):c}",
        "%{SET(\"é\",min_len=2)}", "%{INT(min_len=0,max_len=0)}", "-", "_", ".", "%{INT(", "%{SET(\"\")}",
    ];
    let n = g.r.range(0, 9);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(g.r.pick(&bits));
    }
    if g.r.pct(30) {
        let p = g.tpat();
        let t = render(&p.toks, g.r.next());
        s = g.mutate(&t) + &s;
    }
    s
}

fn strange_msg(g: &mut G, ps: &[Pat]) -> String {
    let mut m = g.msg(ps);
    match g.r.below(12) {
        0 => m = String::new(),
        1 => m.push('\u{0}'),
        2 => m = m.repeat(g.r.range(2, 40)),
        3 => m.insert(0, '\u{feff}'),
        4 => m.push('\u{10ffff}'),
        5 => {
            // same leading byte, different character
            m = m.chars().map(|c| char::from_u32(c as u32 ^ 2).unwrap_or(c)).collect();
        }
        6 => m = m.chars().rev().collect(),
        7 => {
            let n = g.r.range(100, 3000);
            let c = *g.r.pick(&g.alpha);
            m.extend(std::iter::repeat(c).take(n));
        }
        _ => {}
    }
    m
}

fn recovery(g: &mut G, p: &mut Plan) {
    let mut v = Vec::new();
    if g.r.pct(60) {
        p.log = *g.r.pick(&[4, 5]);
    }
    let imp = g.imp();
    // in service
    let n = g.r.range(1, 5);
    let mut live: Vec<Pat> = vec![];
    if g.r.pct(50) {
        live = harmless_load(g, &mut v, 0, imp, 0, Mode::Lenient, 0);
    } else {
        v.push(Op::New { slot: 0, imp });
        for _ in 0..n {
            let q = g.pat();
            live.push(q.clone());
            v.push(Op::Add { slot: 0, pat: q });
        }
    }
    for _ in 0..g.r.range(2, 6) {
        let m = g.msg(&live);
        v.push(Op::Parse { slot: 0, msg: m, cancel: None });
    }
    let rounds = g.r.range(1, 3);
    for _ in 0..rounds {
        let f = g.fmt();
        let k = g.r.range(1, 5);
        let doc = g.doc(k, 0);
        let style = g.r.next();
        let b = doc_bytes(&doc, f, style);
        let file = g.fname(f, 1);
        let w = |damage: Vec<Damage>| Op::Write { file: file.clone(), doc: doc.clone(), fmt: f, style, damage, mode: WriteMode::Truncate, pieces: 1, pad: 0 };
        let k = g.r.range(1, 5);
        let mut written = false;
        for _ in 0..k {
            let mode = *g.r.pick(&[Mode::Strict, Mode::Lenient, Mode::File]);
            match g.r.below(6) {
                0 => {
                    v.push(w(vec![Damage::Trunc(g.r.below(b.len() + 1))]));
                    written = false;
                    // keep the answer if it happens to load: into a side slot
                    v.push(Op::Load { slot: 1, file: file.clone(), imp, mode, open: vec![], io: vec![], cancel: None });
                }
                1 => {
                    v.push(Op::Load { slot: 1, file: "missing.json".into(), imp, mode, open: vec![], io: vec![], cancel: None });
                }
                2 => {
                    if !written {
                        v.push(w(vec![]));
                        written = true;
                    }
                    let cancel = g.cancel(100);
                    v.push(Op::Load { slot: 1, file: file.clone(), imp, mode, open: vec![], io: vec![], cancel });
                }
                3 => {
                    let n = g.r.range(1, 5);
                    let items = g.items(n, 40, 40);
                    let cancel = g.cancel(50);
                    v.push(Op::Source { slot: 1, imp, strict: true, items, cancel });
                }
                _ => {
                    if !written {
                        v.push(w(vec![]));
                        written = true;
                    }
                    let io = g.hard(&b);
                    let open = g.open_faults();
                    v.push(Op::Load { slot: 1, file: file.clone(), imp, mode, open, io, cancel: None });
                }
            }
            if g.r.pct(60) {
                v.push(Op::Sweep { slot: 0 });
            }
            if g.r.pct(15) {
                // the service is asked while the reload is failing
                let m = g.msg(&live);
                v.push(Op::Parse { slot: 0, msg: m, cancel: None });
            }
        }
        // faults stop here
        if g.r.pct(20) {
            // an earlier version of the same length was the last one that could be read
            let old = twin(g, &doc);
            v.push(Op::Write { file: file.clone(), doc: old, fmt: f, style, damage: vec![], mode: WriteMode::Truncate, pieces: 1, pad: 0 });
            v.push(Op::Load { slot: 1, file: file.clone(), imp, mode: Mode::Lenient, open: vec![], io: vec![], cancel: None });
            written = false;
        }
        if !written {
            v.push(w(vec![]));
        }
        if g.r.pct(15) {
            v.push(Op::Restart);
        }
        let mode = *g.r.pick(&[Mode::Strict, Mode::Lenient]);
        v.push(Op::Load { slot: 0, file: file.clone(), imp, mode, open: vec![], io: vec![], cancel: None });
        live = doc.pats.clone();
        for q in &live {
            let m = g.instance(&q.toks);
            v.push(Op::Parse { slot: 0, msg: m, cancel: None });
        }
    }
    p.threads.push(v);
}

fn busy(g: &mut G, t: usize, shared: &[Op]) -> Vec<Op> {
    let mut v = Vec::new();
    let imp = g.imp();
    let mut have: BTreeMap<usize, Vec<Pat>> = BTreeMap::new();
    v.push(Op::New { slot: 0, imp });
    have.insert(0, vec![]);
    let n = g.r.range(4, 16);
    for _ in 0..n {
        let slot = *g.r.pick(&have.keys().cloned().collect::<Vec<_>>());
        match g.r.below(20) {
            0..=6 => {
                let p = g.pat();
                have.get_mut(&slot).unwrap().push(p.clone());
                v.push(Op::Add { slot, pat: p });
            }
            7..=12 => {
                let m = g.msg(&have[&slot]);
                v.push(Op::Parse { slot, msg: m, cancel: None });
            }
            13 | 14 => {
                let md = *g.r.pick(&[Mode::Lenient, Mode::Strict]);
                let ps = harmless_load(g, &mut v, 1, imp, 20 + t, md, 10);
                have.insert(1, ps);
            }
            15 | 16 => {
                if let Some(Op::Write { file, doc, .. }) = shared.first() {
                    let io = g.benign(100);
                    v.push(Op::Load { slot: 2, file: file.clone(), imp, mode: Mode::Lenient, open: vec![], io, cancel: None });
                    have.insert(2, doc.pats.clone());
                }
            }
            17 => {
                let k = g.r.range(1, 5);
                let items = g.items(k, 20, 20);
                v.push(Op::Source { slot: 3, imp, strict: g.r.pct(50), items, cancel: None });
            }
            18 => {
                have.insert(4, have[&slot].clone());
                v.push(Op::Clone { from: slot, to: 4, boxed: g.r.pct(50) });
            }
            _ => v.push(Op::Grammar { text: "%{INT:a} x".into() }),
        }
    }
    for (slot, ps) in have {
        for p in ps.iter().take(5) {
            let m = g.instance(&p.toks);
            v.push(Op::Parse { slot, msg: m, cancel: None });
        }
    }
    v
}
