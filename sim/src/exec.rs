//! Executes one plan against the real library and judges every observation.

use crate::model::*;
use crate::plan::*;
use crate::rng::{fnv, FNV0};
use crate::seams::{self, lib, Caught, Io};
use actiondb::grammar;
use actiondb::matcher::compiled_pattern::{CompiledPattern, CompiledPatternBuilder, TokenType};
use actiondb::matcher::pattern::file::PatternFile;
use actiondb::matcher::pattern::testmessage::{Error as TmError, TestMessage};
use actiondb::matcher::suffix_array::SuffixArrayMatcherFactory;
use actiondb::matcher::trie::factory::TrieMatcherFactory;
use actiondb::matcher::{BuildError, FromPatternSource, Matcher, MatcherFactory, Pattern, PatternLoader};
use actiondb::parsers::{GreedyParser, HasLengthConstraint, IntParser, ObjectSafeHash, ParseResult, Parser, SetParser};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use uuid::Uuid;

type Trie = <TrieMatcherFactory as MatcherFactory>::Matcher;
type Array = <SuffixArrayMatcherFactory as MatcherFactory>::Matcher;

#[derive(Clone, Debug)]
pub struct Vio {
    pub class: &'static str,
    pub detail: String,
    pub thread: usize,
    pub op: usize,
}

pub type Stats = BTreeMap<&'static str, u64>;

#[derive(Default, Debug)]
pub struct RunOut {
    pub vios: Vec<Vio>,
    pub stats: Stats,
    /// hash of the complete event log
    pub hash: u64,
    /// per thread, the hash of each operation's observable outcome
    pub outs: Vec<Vec<u64>>,
    pub switches: Vec<(u64, u8)>,
    pub steps: u64,
    pub sched_hash: u64,
    pub uuids: Vec<[u8; 16]>,
    /// bytes that were still held after everything of the first execution was gone
    pub kept: i64,
}

// ------------------------------------------------------------------ user-supplied parser

/// A parser written by a user of the library: its calls are scheduling and cancellation points.
#[derive(Debug, Clone)]
struct UserParser {
    id: u32,
    set: String,
    name: Option<String>,
}
impl ObjectSafeHash for UserParser {
    fn hash_os(&self) -> u64 {
        seams::callback_point();
        let h = fnv(FNV0, format!("{}|{:?}", self.id, self.name).as_bytes());
        fnv(h, canon(&self.set).as_bytes())
    }
}
impl Parser for UserParser {
    fn parse<'a, 'b>(&'a self, value: &'b str) -> Option<ParseResult<'a, 'b>> {
        seams::callback_point();
        let t = Tok::C { id: self.id, set: self.set.clone(), name: None };
        consume(&t, value).map(|n| ParseResult::new(self, &value[..n]))
    }
    fn name(&self) -> Option<&str> {
        self.name.as_deref()
    }
    fn set_name(&mut self, n: Option<String>) {
        self.name = n;
    }
    fn boxed_clone(&self) -> Box<dyn Parser> {
        seams::callback_point();
        Box::new(self.clone())
    }
}

// ------------------------------------------------------------------ building library objects

/// The documented ways to make the same parser: constructors, setters in any order and repeatedly,
/// copies. (The pattern language uses the parser factories.)
fn build_parser(t: &Tok, way: u64) -> Box<dyn Parser> {
    let made: Box<dyn Parser> = match t {
        Tok::L(_) => unreachable!(),
        Tok::S { set, min, max, name } => match way % 8 {
            3 => {
                // made for something else first
                let mut p = SetParser::from_str("other", "xyz");
                p.set_min_length(Some(3));
                p.set_max_length(Some(4));
                p.set_max_length(*max);
                p.set_min_length(*min);
                p.set_character_set(set);
                p.set_name(None);
                p.set_name(name.clone());
                Box::new(p)
            }
            4 => {
                let mut p = match name {
                    Some(n) => SetParser::from_str(n, set),
                    None => SetParser::new(set),
                };
                p.set_max_length(*max);
                p.set_min_length(*min);
                Box::new(p)
            }
            _ => {
                let mut p = match name {
                    Some(n) => SetParser::with_name(n.clone(), set),
                    None => SetParser::new(set),
                };
                p.set_min_length(*min);
                p.set_max_length(*max);
                Box::new(p)
            }
        },
        Tok::I { min, max, name } => match way % 8 {
            3 => {
                let mut p = IntParser::with_name("other");
                p.set_max_length(Some(1));
                p.set_min_length(Some(1));
                p.set_min_length(*min);
                p.set_max_length(*max);
                p.set_name(name.clone());
                Box::new(p)
            }
            _ => {
                let mut p = match name {
                    Some(n) => IntParser::with_name(n.clone()),
                    None => IntParser::new(),
                };
                p.set_min_length(*min);
                p.set_max_length(*max);
                Box::new(p)
            }
        },
        Tok::G { name, end } => match (way % 8, name, end) {
            (3, _, _) => {
                let mut p = GreedyParser::from_str("other", "xyz");
                p.set_end_string(end.clone());
                p.set_name(name.clone());
                Box::new(p)
            }
            (4, Some(n), Some(e)) => Box::new(GreedyParser::from_str(n, e)),
            _ => {
                let mut p = match name {
                    Some(n) => GreedyParser::with_name(n.clone()),
                    None => GreedyParser::new(),
                };
                p.set_end_string(end.clone());
                Box::new(p)
            }
        },
        Tok::C { id, set, name } => Box::new(UserParser { id: *id, set: set.clone(), name: name.clone() }),
    };
    if way & 0x300 == 0 {
        let copy = made.boxed_clone();
        drop(made);
        copy
    } else {
        made
    }
}

pub fn build_tokens(toks: &[Tok], salt: u64) -> CompiledPattern {
    let mut b = CompiledPatternBuilder::new();
    let mut way = salt;
    for t in toks {
        way = crate::rng::mix(way);
        match t {
            Tok::L(l) => {
                b.literal(l.clone());
            }
            t => {
                b.parser(build_parser(t, way));
            }
        }
        if way & 0x7000 == 0 {
            // a builder can be asked in between
            drop(b.build());
        }
    }
    b.build()
}

pub fn build_pattern(p: &Pat) -> Result<Pattern, String> {
    match p.via {
        Via::Json => {
            let text = pat_json(p, p.uid as u64);
            Pattern::from_json(&text).map_err(|e| format!("{:?} for {}", e, text))
        }
        _ => {
            let toks = if p.via == Via::Grammar {
                let text = render(&p.toks, p.uid as u64);
                grammar::parser::pattern(&text).map_err(|e| format!("{} for {:?}", e, text))?
            } else {
                build_tokens(&p.toks, p.uid as u64)
            };
            let tests = p.tests.as_ref().map(|v| {
                v.iter()
                    .map(|t| TestMessage::new(t.message.clone(), t.values.clone(), t.tags.clone()))
                    .collect()
            });
            let uuid = Uuid::from_bytes(&uuid_bytes(p.uid)).unwrap();
            Ok(Pattern::new(p.name.clone(), uuid, toks, tests, p.values.clone(), p.tags.clone()))
        }
    }
}

/// the same pattern, without its test messages and not through a document
fn build_plainly(p: &Pat) -> Option<Pattern> {
    let toks = if p.via == Via::Builder { build_tokens(&p.toks, !(p.uid as u64)) } else { grammar::parser::pattern(&render(&p.toks, p.uid as u64)).ok()? };
    let uuid = Uuid::from_bytes(&uuid_bytes(p.uid)).unwrap();
    Some(Pattern::new(p.name.clone(), uuid, toks, None, p.values.clone(), p.tags.clone()))
}

thread_local!(static PLACE: std::cell::Cell<Option<String>> = const { std::cell::Cell::new(None) });
static SAME_PLACE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// goes back to its thread also when the call is cancelled
struct Place(String);
impl Drop for Place {
    fn drop(&mut self) {
        let b = std::mem::take(&mut self.0);
        PLACE.with(|p| p.set(Some(b)));
    }
}

enum M {
    T(Trie),
    A(Array),
    B(Box<dyn Matcher>, u8),
}
impl M {
    fn new(k: u8) -> M {
        if k == 0 {
            M::T(TrieMatcherFactory::new_matcher())
        } else {
            M::A(SuffixArrayMatcherFactory::new_matcher())
        }
    }
    fn kind(&self) -> u8 {
        match self {
            M::T(_) => 0,
            M::A(_) => 1,
            M::B(_, k) => *k,
        }
    }
    fn add(&mut self, p: Pattern) {
        match self {
            M::T(m) => m.add_pattern(p),
            M::A(m) => m.add_pattern(p),
            M::B(m, _) => m.add_pattern(p),
        }
    }
    fn dup(&self, boxed: bool) -> M {
        match self {
            M::B(m, k) => M::B(m.boxed_clone(), *k),
            M::T(m) if boxed => M::B(m.boxed_clone(), 0),
            M::A(m) if boxed => M::B(m.boxed_clone(), 1),
            M::T(m) => M::T(m.clone()),
            M::A(m) => M::A(m.clone()),
        }
    }
    /// A client that reads into one buffer: every message is at the same address
    fn parse(&self, msg: &str) -> Outcome {
        let mut buf = match PLACE.with(|b| b.take()) {
            Some(b) if b.capacity() >= msg.len() && SAME_PLACE.load(std::sync::atomic::Ordering::Relaxed) => b,
            b => {
                PLACE.with(|p| p.set(b));
                return self.parse_at(msg);
            }
        };
        buf.clear();
        buf.push_str(msg);
        let buf = Place(buf);
        self.parse_at(&buf.0)
    }
    fn parse_at(&self, msg: &str) -> Outcome {
        let r = match self {
            M::T(m) => Matcher::parse(m, msg),
            M::A(m) => Matcher::parse(m, msg),
            M::B(m, _) => m.parse(msg),
        };
        r.map(|r| {
            let p = r.pattern();
            let mut id = [0u8; 16];
            id.copy_from_slice(p.uuid().as_bytes());
            Hit {
                id,
                caps: r.values().iter().map(|(k, v)| (k.to_string(), v.to_string())).collect(),
                name: p.name().map(|s| s.to_string()),
                tags: p.tags().map(|t| t.to_vec()),
                values: p.values().cloned(),
            }
        })
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Hit {
    id: [u8; 16],
    caps: Caps,
    name: Option<String>,
    tags: Option<Vec<String>>,
    values: Option<BTreeMap<String, String>>,
}
type Outcome = Option<Hit>;

impl Slot {
    fn relocate(&mut self) {
        if self.spare.capacity() < self.ms.len() {
            self.spare = Vec::with_capacity(self.ms.len());
        }
        self.spare.append(&mut self.ms);
        std::mem::swap(&mut self.ms, &mut self.spare);
    }
}

struct Slot {
    ms: Vec<M>,
    /// another place for them
    spare: Vec<M>,
    /// the patterns it holds, in the order added; None: contents not known to the model
    list: Option<Vec<Rc<PatC>>>,
    memo: BTreeMap<String, Vec<Outcome>>,
    family: u32,
}

fn kinds(i: Imp) -> Vec<u8> {
    match i {
        Imp::Trie => vec![0],
        Imp::Array => vec![1],
        Imp::Both => vec![0, 1],
    }
}

// ------------------------------------------------------------------ one simulated thread

struct Th<'p> {
    plan: &'p Plan,
    tid: usize,
    op: usize,
    slots: BTreeMap<usize, Slot>,
    vios: Vec<Vio>,
    stats: Stats,
    outs: Vec<u64>,
    cur: u64,
    log: u64,
    next_family: u32,
    families: BTreeMap<u32, usize>,
    /// set on every known document: bytes on disk -> document
    docs: BTreeMap<Vec<u8>, (Doc, Fmt)>,
    uuids: Vec<[u8; 16]>,
    faulted_load_before: bool,
}

fn hit_str(h: &Outcome) -> String {
    match h {
        None => "no match".into(),
        Some(h) => format!("{} {:?} {:?} {:?} {:?}", hex(&h.id), h.caps, h.name, h.tags, h.values),
    }
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

/// What one call of a loader produced
enum Got {
    File(PatternFile),
    Ms(Vec<M>),
}

impl<'p> Th<'p> {
    fn bump(&mut self, k: &'static str) {
        *self.stats.entry(k).or_insert(0) += 1;
    }
    fn bumpn(&mut self, k: &'static str, n: u64) {
        if n > 0 {
            *self.stats.entry(k).or_insert(0) += n;
        }
    }
    fn vio(&mut self, class: &'static str, detail: String) {
        self.note(&format!("VIO {}", class));
        if self.vios.len() < 64 {
            self.vios.push(Vio { class, detail, thread: self.tid, op: self.op });
        }
    }
    fn note(&mut self, s: &str) {
        self.cur = fnv(self.cur, s.as_bytes());
        self.cur = fnv(self.cur, &[0]);
    }
    fn prop(&self) -> &str {
        &self.plan.prop
    }
    fn caught(&mut self, c: Caught, what: &str) -> bool {
        match c {
            Caught::Cancelled => {
                self.bump("fault.cancel");
                self.note("cancelled");
                true
            }
            Caught::Panic(m) => {
                self.vio("panic", format!("{}: {}", what, m));
                false
            }
        }
    }

    fn run(&mut self, ops: &[Op], base: usize) {
        for (i, op) in ops.iter().enumerate() {
            self.op = base + i;
            self.cur = FNV0;
            seams::yield_point(seams::K_OP);
            seams::clock_advance(1_000_000);
            self.bump("sim.ms");
            self.step(op);
            if let Some(d) = NEST_VIO.with(|v| v.borrow_mut().take()) {
                self.vio("nested", d);
            }
            let _ = seams::take_error_log();
            let n = seams::take_logged();
            self.bumpn("log.records", n);
            self.outs.push(self.cur);
            self.log = fnv(self.log, &self.cur.to_le_bytes());
        }
    }

    fn step(&mut self, op: &Op) {
        match op {
            Op::New { slot, imp } => {
                let ks = kinds(*imp);
                let ms = lib(None, || ks.iter().map(|k| M::new(*k)).collect::<Vec<_>>());
                match ms {
                    Ok(ms) => {
                        let fam = self.fresh_family();
                        self.put(*slot, Slot { ms, spare: vec![], list: Some(vec![]), memo: BTreeMap::new(), family: fam });
                    }
                    Err(c) => {
                        self.caught(c, "new matcher");
                    }
                }
            }
            Op::Add { slot, pat } => self.add(*slot, pat),
            Op::Parse { slot, msg, cancel } => self.parse(*slot, msg, *cancel),
            Op::Hammer { slot, msg, n } => {
                // judged in full the first and the last time, compared in between
                self.parse(*slot, msg, None);
                self.hammer(*slot, msg, *n);
                self.parse(*slot, msg, None);
            }
            Op::Clone { from, to, boxed } => self.clone_slot(*from, *to, *boxed),
            Op::Drop { slot } => {
                self.take(*slot);
            }
            Op::Sweep { slot } => self.sweep(*slot),
            Op::Log(l) => {
                seams::set_level(*l);
                self.bump("fault.loglevel");
            }
            Op::Write { .. } => self.write(op),
            Op::Raw { file, text } => {
                std::fs::write(file, text).unwrap();
            }
            Op::Dir { file } => {
                let _ = std::fs::remove_file(file);
                let _ = std::fs::create_dir(file);
                self.bump("fault.is_directory");
            }
            Op::Unlink { file } => {
                let _ = std::fs::remove_file(file);
            }
            Op::Load { .. } => self.load(op),
            Op::Source { slot, imp, strict, items, cancel } => self.source(*slot, *imp, *strict, items, *cancel),
            Op::Grammar { text } => {
                let r = lib(None, || grammar::parser::pattern(text).map(|p| p.len()).map_err(|_| ()));
                match r {
                    Ok(x) => self.note(&format!("{:?}", x)),
                    Err(c) => {
                        self.caught(c, &format!("compiling pattern text {:?}", text));
                    }
                }
            }
            Op::Json { text } => {
                let r = lib(None, || Pattern::from_json(text).map(|p| hex(p.uuid().as_bytes())).map_err(|_| ()));
                match r {
                    Ok(x) => self.note(&format!("{:?}", x)),
                    Err(c) => {
                        self.caught(c, &format!("decoding pattern document {:?}", text));
                    }
                }
            }
            Op::FmtPair { doc, js, ys, jio, yio, msgs } => self.fmt_pair(doc, *js, *ys, jio, yio, msgs),
            Op::Uuid { n } => {
                for _ in 0..*n {
                    let r = lib(None, || {
                        let p = Pattern::with_random_uuid();
                        let mut b = [0u8; 16];
                        b.copy_from_slice(p.uuid().as_bytes());
                        (b, p.uuid().get_version_num())
                    });
                    match r {
                        Ok((b, v)) => {
                            self.bump("uuid.made");
                            if v != 4 || b[8] & 0xC0 != 0x80 {
                                self.vio("uuid_form", format!("random id {} is not a version 4 uuid", hex(&b)));
                            }
                            self.uuids.push(b);
                        }
                        Err(c) => {
                            self.caught(c, "with_random_uuid");
                        }
                    }
                }
            }
            Op::Restart => {
                self.bump("fault.restart");
                let ks: Vec<usize> = self.slots.keys().cloned().collect();
                for k in ks {
                    self.take(k);
                }
            }
            Op::Clock(ns) => {
                self.bump(if *ns < 0 { "fault.clock_back" } else { "fault.clock_forward" });
                seams::clock_advance(*ns);
                self.bumpn("sim.ms", (*ns).max(0) as u64 / 1_000_000);
            }
            Op::Yield => {}
        }
    }

    fn fresh_family(&mut self) -> u32 {
        self.next_family += 1;
        self.next_family
    }
    fn put(&mut self, slot: usize, mut s: Slot) {
        if self.plan.moves & 4 != 0 {
            // assigned over the old one, at the same place in memory
            if let Some(mut old) = self.slots.remove(&slot) {
                if old.ms.len() == s.ms.len() {
                    std::mem::swap(&mut old.ms, &mut s.ms);
                    let (mut home, mut new) = (s.ms, old.ms);
                    for (h, n) in home.iter_mut().zip(new.iter_mut()) {
                        std::mem::swap(h, n);
                    }
                    s.ms = home;
                    s.spare = old.spare;
                    old.ms = new;
                    old.spare = vec![];
                }
                let ms = old.ms;
                if let Err(c) = lib(None, move || drop(ms)) {
                    self.caught(c, "drop");
                }
            }
        }
        self.take(slot);
        *self.families.entry(s.family).or_insert(0) += 1;
        self.slots.insert(slot, s);
    }
    fn take(&mut self, slot: usize) {
        if let Some(s) = self.slots.remove(&slot) {
            // members that ever existed keep counting: a dropped sibling may still have leaked
            let ms = s.ms;
            if let Err(c) = lib(None, move || drop(ms)) {
                self.caught(c, "drop");
            }
        }
    }
    fn cloned_family(&self, s: &Slot) -> bool {
        self.families.get(&s.family).copied().unwrap_or(0) > 1
    }

    // -------------------------------------------------------------- adding

    fn add(&mut self, slot: usize, pat: &Pat) {
        let mut s = match self.slots.remove(&slot) {
            Some(s) => s,
            None => return,
        };
        if self.plan.moves & 1 != 0 {
            s.relocate();
        }
        let mut ok = true;
        for m in s.ms.iter_mut() {
            let built = lib(None, || build_pattern(pat));
            match built {
                Ok(Ok(p)) => {
                    if let Err(c) = lib(None, || m.add(p)) {
                        self.caught(c, &format!("adding {:?}", pat));
                        ok = false;
                    }
                }
                Ok(Err(e)) => {
                    self.vio("rejected", format!("valid pattern refused: {}", e));
                    ok = false;
                }
                Err(c) => {
                    self.caught(c, &format!("building {:?}", pat));
                    ok = false;
                }
            }
        }
        if ok {
            self.bump("add");
            if self.plan.moves & 1 != 0 {
                s.relocate();
                self.bump("fault.moved_in_memory");
            }
            let old = std::mem::take(&mut s.memo);
            if let Some(l) = s.list.as_mut() {
                if !pat.toks.is_empty() {
                    l.push(PatC::new(pat));
                }
            }
            if self.prop() == "C05" && s.list.is_some() {
                // an answer may change only in favour of the new pattern
                for (m, prev) in old.iter().take(12) {
                    let now = match self.parse_on(&s, m, None) {
                        Some(Some(o)) => o,
                        _ => return,
                    };
                    self.bump("check.only_new_wins");
                    for (a, b) in prev.iter().zip(&now) {
                        if a != b && b.as_ref().map_or(true, |h| uid_of(&h.id) != pat.uid) {
                            let d = format!("adding {} changed the answer to {:?} from [{}] to [{}]", show_pat(pat), m, hit_str(a), hit_str(b));
                            self.vio("unrepeatable", d);
                        }
                    }
                    s.memo.insert(m.clone(), now);
                }
            }
            self.slots.insert(slot, s);
            if self.prop() == "C04" {
                self.check_family_of(slot);
            }
        }
    }

    /// after a mutation, every relative must answer as before
    fn check_family_of(&mut self, slot: usize) {
        let fam = self.slots[&slot].family;
        let rel: Vec<usize> =
            self.slots.iter().filter(|(k, s)| **k != slot && s.family == fam).map(|(k, _)| *k).collect();
        for r in rel {
            self.sweep(r);
        }
    }

    // -------------------------------------------------------------- parsing

    fn parse(&mut self, slot: usize, msg: &str, cancel: Option<u32>) {
        let mut s = match self.slots.remove(&slot) {
            Some(s) => s,
            None => return,
        };
        if self.plan.moves & 2 != 0 {
            s.relocate();
            self.bump("fault.moved_in_memory");
        }
        self.parse_on(&s, msg, cancel).map(|o| {
            let mut s = s;
            if let Some(o) = o {
                s.memo.insert(msg.to_string(), o);
            }
            self.slots.insert(slot, s);
        });
    }

    fn hammer(&mut self, slot: usize, msg: &str, n: usize) {
        let s = match self.slots.remove(&slot) {
            Some(s) => s,
            None => return,
        };
        let prev = match s.memo.get(msg) {
            Some(p) => p.clone(),
            None => return,
        };
        for (m, want) in s.ms.iter().zip(&prev) {
            for k in 0..n {
                match lib(None, || m.parse(msg)) {
                    Ok(o) => {
                        if o != *want {
                            let class = if self.cloned_family(&s) { "clone_leak" } else { "unrepeatable" };
                            let d = format!("message {:?} was answered [{}] and, {} questions later, [{}]", msg, hit_str(want), k + 1, hit_str(&o));
                            self.vio(class, d);
                            self.slots.insert(slot, s);
                            return;
                        }
                    }
                    Err(c) => {
                        self.caught(c, &format!("parsing {:?} for the {}th time with {}", msg, k, self.show(&s)));
                        return;
                    }
                }
            }
            self.bumpn("check.repeat", n as u64);
        }
        self.slots.insert(slot, s);
    }

    /// Some(None): cancelled; None: the matcher panicked and is not used again
    fn parse_on(&mut self, s: &Slot, msg: &str, cancel: Option<u32>) -> Option<Option<Vec<Outcome>>> {
        let mut outs = Vec::new();
        for m in &s.ms {
            match lib(cancel, || m.parse(msg)) {
                Ok(o) => outs.push(o),
                Err(c) => {
                    if self.caught(c, &format!("parsing {:?} with {}", msg, self.show(s))) {
                        return Some(None);
                    }
                    return None;
                }
            }
        }
        for o in &outs {
            self.note(&hit_str(o));
            self.bump(if o.is_some() { "parse.match" } else { "parse.nomatch" });
        }
        if let Some(prev) = s.memo.get(msg) {
            if *prev != outs {
                let class = if self.cloned_family(s) { "clone_leak" } else { "unrepeatable" };
                let d = format!(
                    "message {:?} was answered [{}] and is now answered [{}]",
                    msg,
                    prev.iter().map(hit_str).collect::<Vec<_>>().join(" | "),
                    outs.iter().map(hit_str).collect::<Vec<_>>().join(" | ")
                );
                self.vio(class, d);
            }
        }
        if outs.len() == 2 && outs[0] != outs[1] {
            let d = format!(
                "message {:?} with {}: trie says [{}], suffix array says [{}]",
                msg,
                self.show(s),
                hit_str(&outs[0]),
                hit_str(&outs[1])
            );
            self.vio("impl_diff", d);
        }
        if let Some(list) = &s.list {
            for (m, o) in s.ms.iter().zip(&outs) {
                self.judge(list, msg, o, m.kind());
            }
        }
        if self.prop() == "C04" && s.list.is_some() && self.cloned_family(s) {
            for (m, o) in s.ms.iter().zip(&outs) {
                if let Some(f) = self.fresh(s.list.as_ref().unwrap(), m.kind(), msg) {
                    if f != *o {
                        let d = format!(
                            "message {:?}: the clone-family member answers [{}], a matcher built from the same patterns {} answers [{}]",
                            msg, hit_str(o), self.show(s), hit_str(&f));
                        self.vio("clone_diff", d);
                    }
                }
            }
        }
        Some(Some(outs))
    }

    fn show(&self, s: &Slot) -> String {
        match &s.list {
            None => "<loaded>".into(),
            Some(l) => show_list(l),
        }
    }

    /// the answer of a matcher freshly built from the same patterns, asked nothing else before
    fn fresh(&mut self, list: &[Rc<PatC>], kind: u8, msg: &str) -> Option<Outcome> {
        let r = lib(None, || {
            let mut m = M::new(kind);
            for p in list {
                m.add(build_plainly(&p.pat)?);
            }
            Some(m.parse(msg))
        });
        match r {
            Ok(x) => x,
            Err(c) => {
                self.caught(c, "fresh matcher");
                None
            }
        }
    }

    fn judge(&mut self, list: &[Rc<PatC>], msg: &str, o: &Outcome, kind: u8) {
        let im = if kind == 0 { "trie" } else { "suffix array" };
        match o {
            Some(h) => {
                let known = list.iter().rev().find(|p| uuid_bytes(p.pat.uid) == h.id);
                match known {
                    None => {
                        self.vio("alien", format!("{}: {:?} matched {} which was never added to {}", im, msg, hex(&h.id), show_list(list)));
                    }
                    Some(p) => {
                        // the same id may have been added with different content: any copy will do
                        // that has not been replaced by an identical pattern since
                        let mut same: Vec<&Rc<PatC>> = Vec::new();
                        for (i, q) in list.iter().enumerate() {
                            if q.pat.uid == p.pat.uid && !list[i + 1..].iter().any(|r| r.pat.toks == q.pat.toks) {
                                same.push(q);
                            }
                        }
                        if !same.iter().any(|q| match_one(&q.pat.toks, msg).map_or(false, |c| c == h.caps)) {
                            let d = format!(
                                "{}: {:?} answered by {} with {:?}, but the pattern itself gives {:?}",
                                im, msg, show_pat(&p.pat), h.caps, match_one(&p.pat.toks, msg)
                            );
                            self.vio("unsound", d);
                        }
                        if !same.iter().any(|q| h.name == q.pat.name && h.tags == q.pat.tags && h.values == q.pat.values) {
                            let d = format!(
                                "{}: {:?} answered with name={:?} tags={:?} values={:?}, the pattern was given name={:?} tags={:?} values={:?}",
                                im, msg, h.name, h.tags, h.values, p.pat.name, p.pat.tags, p.pat.values
                            );
                            self.vio("meta", d);
                        } else if h.name.is_some() || h.tags.is_some() || h.values.is_some() {
                            self.bump("check.meta");
                        }
                        self.bump("check.sound");
                    }
                }
            }
            None => {
                if let Some(p) = list.iter().find(|p| match_one(&p.pat.toks, msg).is_some()) {
                    let d = format!("{}: {:?} is matched by {} but the matcher holding {} says no match", im, msg, show_pat(&p.pat), show_list(list));
                    self.vio("lost", d);
                }
            }
        }
        let els: Vec<&[El]> = list.iter().map(|p| &p.els[..]).collect();
        let want = resolve(&els, msg);
        if let (Some(h), Some(w)) = (o, want) {
            self.bump("check.precedence");
            let n = list.iter().filter(|p| match_one(&p.pat.toks, msg).is_some()).count();
            if n > 1 {
                self.bump("probe.several_match");
            }
            if list[w].pat.uid != uid_of(&h.id) {
                let d = format!(
                    "{}: {:?} with {}: expected {}, got {}",
                    im, msg, show_list(list), show_pat(&list[w].pat), hex(&h.id)
                );
                self.vio("precedence", d);
            }
        }
    }

    fn sweep(&mut self, slot: usize) {
        let s = match self.slots.remove(&slot) {
            Some(s) => s,
            None => return,
        };
        let msgs: Vec<String> = s.memo.keys().cloned().collect();
        for m in &msgs {
            self.bump("check.repeat");
            if self.parse_on(&s, m, None).is_none() {
                return;
            }
            if self.prop() == "C05" {
                if let Some(l) = &s.list {
                    for (i, k) in s.ms.iter().map(|m| m.kind()).enumerate() {
                        if let Some(f) = self.fresh(l, k, m) {
                            if f != s.memo[m][i] {
                                let d = format!(
                                    "message {:?} is answered [{}] here, but [{}] by a matcher with the same patterns {} that was asked nothing before",
                                    m, hit_str(&s.memo[m][i]), hit_str(&f), show_list(l));
                                self.vio("unrepeatable", d);
                            }
                        }
                    }
                }
            }
        }
        self.slots.insert(slot, s);
    }

    // -------------------------------------------------------------- cloning

    fn clone_slot(&mut self, from: usize, to: usize, boxed: bool) {
        if from == to {
            return;
        }
        let s = match self.slots.get(&from) {
            Some(s) => s,
            None => return,
        };
        let r = lib(None, || s.ms.iter().map(|m| m.dup(boxed)).collect::<Vec<_>>());
        match r {
            Ok(ms) => {
                self.bump("clone");
                let s = &self.slots[&from];
                let n = Slot { ms, spare: vec![], list: s.list.clone(), memo: s.memo.clone(), family: s.family };
                self.put(to, n);
                if self.prop() == "C04" {
                    self.sweep(to);
                }
            }
            Err(c) => {
                self.caught(c, "clone");
            }
        }
    }

    // -------------------------------------------------------------- files

    fn write(&mut self, op: &Op) {
        if let Op::Write { file, doc, fmt, style, damage, mode, pieces, pad } = op {
            let good = if *pad > 0 { padded(doc, *fmt, *style, *pad) } else { doc_bytes(doc, *fmt, *style) };
            let mut b = good.clone();
            for d in damage {
                hurt(&mut b, d);
            }
            if damage.iter().any(|d| matches!(d, Damage::Trunc(_))) {
                self.bump("fault.torn_write");
            }
            if damage.iter().any(|d| !matches!(d, Damage::Trunc(_))) {
                self.bump("fault.corrupt_bytes");
            }
            self.docs.insert(good, (doc.clone(), *fmt));
            use std::io::{Seek, SeekFrom, Write};
            match mode {
                WriteMode::Atomic => {
                    let t = format!("{}.{}.tmp", file, self.tid);
                    std::fs::write(&t, &b).unwrap();
                    if std::fs::rename(&t, file).is_err() {
                        let _ = std::fs::remove_file(&t);
                    }
                }
                WriteMode::Truncate | WriteMode::InPlace => {
                    let mut o = std::fs::OpenOptions::new();
                    o.write(true).create(true);
                    if *mode == WriteMode::Truncate {
                        o.truncate(true);
                    }
                    if let Ok(mut f) = o.open(file) {
                        let n = (*pieces).max(1);
                        let step = b.len() / n + 1;
                        for (i, c) in b.chunks(step).enumerate() {
                            if i > 0 {
                                self.bump("fault.concurrent_write_piece");
                                seams::yield_point(seams::K_IO);
                            }
                            let _ = f.seek(SeekFrom::Start((i * step) as u64));
                            f.write_all(c).unwrap();
                        }
                        let _ = f.set_len(b.len() as u64);
                    }
                }
            }
        }
    }

    fn decode(&mut self, file: &str, bytes: &[u8]) -> Option<Result<PatternFile, String>> {
        let text = match std::str::from_utf8(bytes) {
            Ok(t) => t,
            Err(_) => return Some(Err("not utf-8".into())),
        };
        let json = file.ends_with(".json");
        let r = lib(None, || {
            if json {
                serde_json07::from_str::<PatternFile>(text).map_err(|e| format!("{:?}", e))
            } else {
                // to YAML every line break is the same
                let text = text.replace("\r\n", "\n").replace('\r', "\n");
                serde_yaml02::from_str::<PatternFile>(&text).map_err(|e| format!("{:?}", e))
            }
        });
        let _ = seams::take_error_log();
        match r {
            Ok(x) => Some(x),
            // the decoder itself fell over: nothing is known about this content
            Err(_) => None,
        }
    }

    fn load(&mut self, op: &Op) {
        /// what the working directory holds
        fn names() -> BTreeSet<std::ffi::OsString> {
            std::fs::read_dir(".").map(|d| d.filter_map(|e| e.ok()).map(|e| e.file_name()).collect()).unwrap_or_default()
        }
        let (slot, file, imp, mode, open, io, cancel) = match op {
            Op::Load { slot, file, imp, mode, open, io, cancel } => (*slot, file, *imp, *mode, open, io, *cancel),
            _ => return,
        };
        let ks = if mode == Mode::File { vec![0] } else { kinds(imp) };
        let mut built: Vec<M> = Vec::new();
        let mut list: Option<Option<Vec<Rc<PatC>>>> = None;
        for (ki, k) in ks.iter().enumerate() {
            let _ = seams::take_error_log();
            // a second implementation loads the same file again, without the faults
            let (ev, op_ev) = if ki == 0 { (io.clone(), open.clone()) } else { (vec![], vec![]) };
            let quiet = ev.iter().all(|e| matches!(e, Io::Short(_) | Io::Eintr)) && op_ev.iter().all(|e| *e == seams::EINTR || *e < 0);
            seams::io_begin(file, ev, op_ev);
            let alone = self.plan.threads.len() == 1;
            let before = if alone { Some((seams::lowest_free_fd(), names(), std::env::current_dir().ok())) } else { None };
            let level = seams::level_state();
            let k = *k;
            let r = lib(cancel, || match mode {
                Mode::File => PatternLoader::load_file(file).map(Got::File),
                Mode::Strict if k == 0 => adbcalls::trie_from_file(file).map(|m| Got::Ms(vec![M::T(m)])),
                Mode::Strict => adbcalls::array_from_file(file).map(|m| Got::Ms(vec![M::A(m)])),
                Mode::Lenient if k == 0 => adbcalls::trie_from_file_ignore_errors(file).map(|m| Got::Ms(vec![M::T(m)])),
                Mode::Lenient => {
                    adbcalls::array_from_file_ignore_errors(file).map(|m| Got::Ms(vec![M::A(m)]))
                }
            });
            let cx = seams::io_end();
            if let Some((fd, files, cwd)) = before {
                let now = std::env::current_dir().ok();
                if now != cwd {
                    self.vio("leftover", format!("after loading {} the current directory is {:?} instead of {:?}", file, now, cwd));
                    if let Some(d) = cwd {
                        let _ = std::env::set_current_dir(d);
                    }
                }
                let n = names();
                if n != files {
                    self.vio("leftover", format!("loading {} changed the directory from {:?} to {:?}", file, files, n));
                }
                let free = seams::lowest_free_fd();
                if free > fd {
                    self.vio("fdleak", format!("loading {} left the descriptor {} open", file, fd));
                }
            }
            let errlog = seams::take_error_log();
            // records are judged only when the level stood still at or above Error during the call
            let logging = level.1 && seams::level_state() == level;
            self.bump("load");
            self.bumpn("fault.short_read", cx.n_short);
            self.bumpn("fault.read_eintr", cx.n_eintr);
            self.bumpn("fault.read_error", cx.n_err);
            self.bumpn("fault.premature_eof", cx.n_eof);
            self.bumpn("fault.open_error", cx.n_open_err);
            self.bumpn("fault.open_eintr", cx.n_open_eintr);
            self.bumpn("fault.wrong_size_from_stat", cx.n_stat);
            self.bumpn("io.reads", cx.reads);
            if cx.fuse {
                self.vio("hang", format!("loading {} issued more than {} reads", file, cx.reads));
            }
            if cx.fd >= 0 && !cx.closed && seams::fd_is_open(cx.fd) {
                self.vio("fdleak", format!("descriptor {} of {} is still open after the load", cx.fd, file));
            }
            let hard = cx.n_err + cx.n_open_err + cx.n_eof > 0;
            let r = match r {
                Ok(r) => r,
                Err(c) => {
                    self.faulted_load_before = true;
                    self.caught(c, &format!("loading {} ({:?})", file, show_bytes(&cx.delivered)));
                    return;
                }
            };
            self.note(&match &r {
                Ok(_) => "ok".to_string(),
                Err(e) => err_str(e),
            });
            self.bump(if r.is_ok() { "load.ok" } else { "load.err" });

            let ext = std::path::Path::new(file).extension().and_then(|e| e.to_str()).unwrap_or("");
            let ext_ok = ["json", "yaml", "yml", "YAML", "YML"].contains(&ext);
            if !ext_ok {
                match &r {
                    Err(BuildError::UnsupportedFileExtension) => {}
                    Err(e) => self.vio("io_kind", format!("{}: unsupported extension reported as {}", file, err_str(e))),
                    Ok(_) => self.vio("io_content", format!("{}: loaded although its format is not supported", file)),
                }
                return;
            }
            // --- what the simulated kernel told the library
            let size = std::fs::metadata(file).map(|m| m.len()).unwrap_or(0);
            let complete = cx.saw_eof
                || (cx.opened > 0 && cx.read_err.is_none() && cx.open_err.is_none() && cx.delivered.len() as u64 >= size);
            if let (Err(BuildError::Io(e)), true, Some(code)) = (&r, complete, cx.read_err) {
                // asked again after the end of the file, it was told about a failure
                if e.raw_os_error() == Some(code) {
                    self.faulted_load_before = true;
                    return;
                }
            }
            if !complete {
                let code = cx.read_err.or(cx.open_err);
                match &r {
                    Ok(_) => {
                        self.vio(
                            "io_lost",
                            format!(
                                "{} was accepted although reading it failed (errno {:?}) after {} bytes: {:?}",
                                file, code, cx.delivered.len(), show_bytes(&cx.delivered)
                            ),
                        );
                    }
                    Err(BuildError::Io(e)) => {
                        if code.is_some() && e.raw_os_error() != code {
                            self.vio("io_kind", format!("{}: errno {:?} reported as {:?}", file, code, e));
                        }
                        if code.is_none() {
                            // gave up without any failure and without reaching the end
                            // (a file that is not there may be noticed without opening it)
                            let absent = cx.opened == 0
                                && (self.plan.threads.len() > 1 || std::fs::File::open(file).err().map_or(false, |x| x.raw_os_error() == e.raw_os_error()));
                            if std::str::from_utf8(&cx.delivered).is_ok() && !absent {
                                self.vio("io_spurious", format!("{}: {:?} although no call failed", file, e));
                            }
                        }
                    }
                    Err(e) => {
                        if code.is_some() {
                            self.vio(
                                "io_kind",
                                format!("{}: I/O failure (errno {:?}) after {} bytes reported as {}", file, code, cx.delivered.len(), err_str(e)),
                            );
                        } else if cx.opened == 0 {
                            self.vio("io_spurious", format!("{}: {} without looking at the file", file, err_str(e)));
                        } else if self.plan.threads.len() == 1 {
                            // stopping early is fine for a file that is broken, not for a good one
                            let whole = std::fs::read(file).unwrap_or_default();
                            if self.docs.contains_key(&whole) && whole.starts_with(&cx.delivered) {
                                self.vio("io_spurious", format!("{}: {} after {} of {} bytes, although no call failed", file, err_str(e), cx.delivered.len(), whole.len()));
                            }
                        }
                    }
                }
                self.faulted_load_before = true;
                if code == Some(2) {
                    self.bump("fault.missing_file");
                }
                return;
            }
            // --- the library saw all bytes up to end of file
            let dec = match self.decode(file, &cx.delivered) {
                Some(d) => d,
                None => return,
            };
            let pf = match dec {
                Err(why) => {
                    if self.docs.contains_key(&cx.delivered) {
                        self.vio("io_spurious", format!("{} holds a valid document, but: {} ({:?})", file, why, show_bytes(&cx.delivered)));
                        return;
                    }
                    self.faulted_load_before = true;
                    self.bump("load.undecodable");
                    match &r {
                        Ok(_) => self.vio(
                            "io_content",
                            format!("{} was accepted although its content is not a pattern file ({}): {:?}", file, why, show_bytes(&cx.delivered)),
                        ),
                        Err(BuildError::Io(e)) if e.raw_os_error().is_some() => {
                            self.vio("io_kind", format!("{}: bad content reported as {:?}", file, e))
                        }
                        Err(BuildError::TestMessage(_)) => {
                            self.vio("io_kind", format!("{}: bad content reported as a test message failure", file))
                        }
                        _ => {}
                    }
                    return;
                }
                Ok(p) => p,
            };
            let known = self.docs.get(&cx.delivered).cloned();
            let ids: BTreeSet<Vec<u8>> = pf.patterns().iter().map(|p| p.uuid().as_bytes().to_vec()).collect();
            if let Some((doc, _)) = &known {
                let want: BTreeSet<Vec<u8>> = doc.pats.iter().map(|p| uuid_bytes(p.uid).to_vec()).collect();
                if ids != want || pf.patterns().len() != doc.pats.len() {
                    self.vio("io_content", format!("{}: decoding the stored document gives a different set of patterns", file));
                    return;
                }
            }
            if let Err(BuildError::Io(e)) = &r {
                self.vio("io_spurious", format!("{}: complete and readable, but the load failed with {:?}", file, e));
                return;
            }
            match (&r, mode) {
                (Err(BuildError::TestMessage(_)), Mode::Strict) => {}
                (Err(e), _) => {
                    self.vio("io_spurious", format!("{}: complete and valid, but the load failed with {}", file, err_str(e)));
                    return;
                }
                _ => {}
            }
            if let Ok(Got::File(f)) = &r {
                let a: Vec<String> = f.patterns().iter().map(canon_pat).collect();
                let b: Vec<String> = pf.patterns().iter().map(canon_pat).collect();
                if a != b {
                    self.vio("io_content", format!("{}: loaded {:?} but the file holds {:?}", file, a, b));
                } else if let Some((doc, _)) = &known {
                    self.content_of(doc, f, file);
                }
                self.bump("check.content");
            }
            if mode == Mode::File {
                if self.faulted_load_before && quiet {
                    self.bump("probe.recovered");
                }
                let budget = 64 + cx.delivered.len() as u64 / 8;
                if quiet && cx.n_short == 0 && cx.n_eintr == 0 && cx.reads > budget {
                    self.vio("recover_slow", format!("{}: {} reads for {} bytes", file, cx.reads, cx.delivered.len()));
                }
                return;
            }
            // --- what must the loader have done with these patterns
            match known {
                Some((doc, _)) => {
                    // the order in which a file's patterns are added is the library's choice
                    let mut pool: Vec<(String, Pat)> = doc.pats.iter().map(|p| (canon_doc(p), p.clone())).collect();
                    let mut items = Vec::new();
                    for p in pf.into_iter().filter_map(|p| p.ok()) {
                        let c = canon_pat(&p);
                        let at = pool.iter().position(|q| q.0 == c).or_else(|| pool.iter().position(|q| &uuid_bytes(q.1.uid)[..] == p.uuid().as_bytes()));
                        if let Some(i) = at {
                            items.push(Item::P(pool.remove(i).1));
                        }
                    }
                    let (m, err) = match r {
                        Ok(Got::Ms(mut v)) => (v.pop(), None),
                        Err(e) => (None, Some(e)),
                        _ => (None, None),
                    };
                    let l = self.judge_build(&items, mode == Mode::Strict, m.is_some(), &err, None, &errlog, logging);
                    if let (Some(m), Some(l)) = (m, l) {
                        built.push(m);
                        list = Some(Some(l));
                    } else {
                        return;
                    }
                }
                None => {
                    // content the model does not know (damaged but decodable, or raw): the reference is
                    // the same library fed from memory
                    let asks = probes(&pf);
                    let r2 = lib(None, || {
                        if k == 0 {
                            if mode == Mode::Strict {
                                adbcalls::trie_from_source(&mut pf.into_iter()).map(M::T)
                            } else {
                                Ok(M::T(adbcalls::trie_from_source_ignore_errors(&mut pf.into_iter())))
                            }
                        } else if mode == Mode::Strict {
                            adbcalls::array_from_source(&mut pf.into_iter()).map(M::A)
                        } else {
                            Ok(M::A(adbcalls::array_from_source_ignore_errors(&mut pf.into_iter())))
                        }
                    });
                    let r2 = match r2 {
                        Ok(x) => x,
                        Err(c) => {
                            self.caught(c, "building from memory");
                            return;
                        }
                    };
                    match (r, r2) {
                        (Ok(Got::Ms(mut a)), Ok(b)) => {
                            let a = a.pop().unwrap();
                            for q in &asks {
                                match lib(None, || (a.parse(q), b.parse(q))) {
                                    Ok((x, y)) if x == y => {}
                                    Ok((x, y)) => {
                                        self.vio("io_content", format!("{}: the loaded matcher answers {:?} with [{}], one built from the same bytes in memory with [{}]", file, q, hit_str(&x), hit_str(&y)));
                                        break;
                                    }
                                    Err(c) => {
                                        self.caught(c, &format!("parsing {:?} with a matcher loaded from {}", q, file));
                                        return;
                                    }
                                }
                            }
                            self.bump("check.content");
                            built.push(a);
                            list = Some(None);
                        }
                        (Err(_), Err(_)) => return,
                        (Ok(_), Err(e)) => {
                            self.vio("io_content", format!("{}: loaded, but building from the same bytes in memory fails with {}", file, err_str(&e)));
                            return;
                        }
                        (Err(e), Ok(_)) => {
                            self.vio("io_content", format!("{}: load fails with {}, but building from the same bytes in memory succeeds", file, err_str(&e)));
                            return;
                        }
                        _ => return,
                    }
                }
            }
            if self.faulted_load_before && !hard {
                self.bump("probe.recovered");
                let budget = 64 + cx.delivered.len() as u64 / 8;
                if cx.n_short == 0 && cx.n_eintr == 0 && cx.reads > budget {
                    self.vio("recover_slow", format!("{}: {} reads for {} bytes", file, cx.reads, cx.delivered.len()));
                }
            }
        }
        if built.len() == ks.len() {
            if let Some(l) = list {
                let fam = self.fresh_family();
                self.put(slot, Slot { ms: built, spare: vec![], list: l, memo: BTreeMap::new(), family: fam });
            }
        }
    }

    // -------------------------------------------------------------- sources

    fn source(&mut self, slot: usize, imp: Imp, strict: bool, items: &[Item], cancel: Option<u32>) {
        let mut built = Vec::new();
        let mut list = None;
        for k in kinds(imp) {
            let _ = seams::take_error_log();
            // build the items up front, outside the measured call
            let mut ready: Vec<Option<Result<Pattern, BuildError>>> = Vec::new();
            for it in items {
                let r = lib(None, || match it {
                    Item::P(p) => build_pattern(p).map(Ok),
                    Item::Fail(n) => Ok(Err(BuildError::Io(std::io::Error::new(std::io::ErrorKind::Other, format!("source-fault-{}-", n))))),
                    Item::BadJson(n) => {
                        let e = Pattern::from_json(&format!("{{\"uuid\": \"broken-{}\"", n)).err().unwrap();
                        Ok(Err(BuildError::DeserJson(e)))
                    }
                    Item::Err { kind, n } => Ok(Err(source_error(*kind, *n))),
                });
                match r {
                    Ok(Ok(x)) => ready.push(Some(x)),
                    Ok(Err(e)) => {
                        self.vio("rejected", format!("valid pattern refused: {}", e));
                        return;
                    }
                    Err(c) => {
                        self.caught(c, "building a source item");
                        return;
                    }
                }
            }
            let _ = seams::take_error_log();
            let pulled = std::rc::Rc::new(std::cell::Cell::new(0usize));
            let pulled2 = pulled.clone();
            let level = seams::level_state();
            let hint = (self.plan.seed as usize / 3 + self.op) % 4;
            let r = lib(cancel, || {
                let mut src = Src { items: ready, next: 0, pulled: pulled2, hint };
                if k == 0 {
                    if strict {
                        adbcalls::trie_from_source(&mut src).map(M::T)
                    } else {
                        Ok(M::T(adbcalls::trie_from_source_ignore_errors(&mut src)))
                    }
                } else if strict {
                    adbcalls::array_from_source(&mut src).map(M::A)
                } else {
                    Ok(M::A(adbcalls::array_from_source_ignore_errors(&mut src)))
                }
            });
            let errlog = seams::take_error_log();
            // records are judged only when the level stood still at or above Error during the call
            let logging = level.1 && seams::level_state() == level;
            self.bump("source");
            let r = match r {
                Ok(r) => r,
                Err(c) => {
                    self.caught(c, &format!("building from source {:?}", items));
                    return;
                }
            };
            self.note(&match &r {
                Ok(_) => format!("ok {}", pulled.get()),
                Err(e) => format!("{} {}", err_str(e), pulled.get()),
            });
            let (m, err) = match r {
                Ok(m) => (Some(m), None),
                Err(e) => (None, Some(e)),
            };
            let l = self.judge_build(items, strict, m.is_some(), &err, Some(pulled.get()), &errlog, logging);
            if let (Some(m), Some(l)) = (m, l) {
                built.push(m);
                list = Some(l);
            } else {
                return;
            }
        }
        if let Some(l) = list {
            let fam = self.fresh_family();
            self.put(slot, Slot { ms: built, spare: vec![], list: Some(l), memo: BTreeMap::new(), family: fam });
        }
    }

    /// Judge a strict or lenient build over `items`; returns the model list when a matcher resulted.
    fn judge_build(
        &mut self,
        items: &[Item],
        strict: bool,
        ok: bool,
        err: &Option<BuildError>,
        pulled: Option<usize>,
        errlog: &[String],
        logging: bool,
    ) -> Option<Vec<Rc<PatC>>> {
        let mut list: Vec<Rc<PatC>> = Vec::new();
        let mut problems: Vec<(usize, String, Vec<Reject>)> = Vec::new();
        for (i, it) in items.iter().enumerate() {
            match it {
                Item::P(p) => {
                    if p.toks.is_empty() {
                        continue;
                    }
                    list.push(PatC::new(p));
                    if let Some(t) = &p.tests {
                        let v = verdict(&list, t);
                        self.bumpn("check.test_message", t.len() as u64);
                        if !v.is_empty() {
                            problems.push((i, uuid_str(p.uid), v));
                        }
                    }
                }
                Item::Fail(n) => {
                    problems.push((i, format!("source-fault-{}-", n), vec![]));
                    self.bump("fault.source_error");
                }
                Item::Err { kind, n } => {
                    problems.push((i, if source_marked(*kind) { format!("source-fault-{}-", n) } else { String::new() }, vec![]));
                    self.bump("fault.source_error");
                }
                Item::BadJson(_) => {
                    problems.push((i, String::new(), vec![]));
                    self.bump("fault.source_bad_pattern");
                }
            }
            if strict && !problems.is_empty() {
                break;
            }
        }
        if strict {
            self.bump("check.strict");
            match (problems.first(), ok) {
                (None, true) => {
                    if let Some(n) = pulled {
                        if n != items.len() {
                            self.vio("strict_short", format!("strict build succeeded after taking {} of {} patterns", n, items.len()));
                            return None;
                        }
                    }
                    Some(list)
                }
                (None, false) => {
                    let e = err_str(err.as_ref().unwrap());
                    let c = if matches!(err, Some(BuildError::TestMessage(_))) { "verdict_false" } else { "strict_err" };
                    self.vio(c, format!("strict build of good patterns {} failed with {}", show_list(&list), e));
                    None
                }
                (Some((i, mark, rej)), true) => {
                    let c = if rej.is_empty() { "strict_ok" } else { "verdict_miss" };
                    self.vio(
                        c,
                        format!("strict build succeeded although item {} ({}) is bad: {:?} after {}", i, mark, rej, show_list(&list)),
                    );
                    None
                }
                (Some((i, mark, rej)), false) => {
                    let e = err.as_ref().unwrap();
                    if let Some(n) = pulled {
                        if n != i + 1 {
                            self.vio("strict_over", format!("item {} of {} is the first bad one, but {} were taken from the source", i, items.len(), n));
                        }
                    }
                    if rej.is_empty() {
                        let same = match &items[*i] {
                            Item::Err { kind, n } => same_error(e, &source_error(*kind, *n)),
                            Item::Fail(_) => matches!(e, BuildError::Io(x) if x.to_string().contains(mark.as_str())),
                            _ => matches!(e, BuildError::DeserJson(_)),
                        };
                        if !same {
                            self.vio("strict_wrong", format!("item {} failed as {} but the build reports {}", i, mark, err_str(e)));
                        }
                    } else if let BuildError::TestMessage(t) = e {
                        if !rej.iter().any(|r| same_reject(r, t, &items[*i])) {
                            self.vio("verdict_wrong", format!("reported {:?}, justified would be {:?}", t, rej));
                        } else {
                            self.bump("check.verdict");
                        }
                    } else {
                        self.vio("strict_wrong", format!("item {} has failing test messages {:?} but the build reports {}", i, rej, err_str(e)));
                    }
                    None
                }
            }
        } else {
            self.bump("check.lenient");
            if !ok {
                self.vio("lenient_err", format!("lenient build failed with {}", err_str(err.as_ref().unwrap())));
                return None;
            }
            if let Some(n) = pulled {
                if n != items.len() {
                    self.vio("lenient_consume", format!("lenient build took {} of {} items", n, items.len()));
                    return None;
                }
            }
            if logging {
                if errlog.len() != problems.len() {
                    self.vio(
                        "lenient_log",
                        format!("{} problems ({:?}) but {} error records: {:?}", problems.len(), problems, errlog.len(), errlog),
                    );
                } else {
                    for ((i, mark, rej), rec) in problems.iter().zip(errlog) {
                        if !rec.contains(mark.as_str()) {
                            self.vio("lenient_log", format!("problem {} ({:?}) of item {} is not in its record {:?}", mark, rej, i, rec));
                        }
                    }
                }
            }
            if !problems.is_empty() {
                self.bump("probe.lenient_with_problems");
            }
            Some(list)
        }
    }

    // -------------------------------------------------------------- formats

    fn fmt_pair(&mut self, doc: &Doc, js: u64, ys: u64, jio: &[Io], yio: &[Io], msgs: &[String]) {
        let jf = format!("p{}.json", self.tid);
        let yf = format!("p{}.yaml", self.tid);
        std::fs::write(&jf, doc_bytes(doc, Fmt::Json, js)).unwrap();
        std::fs::write(&yf, doc_bytes(doc, Fmt::Yaml, ys)).unwrap();
        let mut shown: Vec<Vec<String>> = Vec::new();
        let mut ms: Vec<M> = Vec::new();
        for (f, io) in [(&jf, jio), (&yf, yio)] {
            seams::io_begin(f, io.to_vec(), vec![]);
            let r = lib(None, || PatternLoader::load_file(f));
            let cx = seams::io_end();
            self.bumpn("fault.short_read", cx.n_short);
            self.bumpn("fault.read_eintr", cx.n_eintr);
            match r {
                Ok(Ok(pf)) => {
                    shown.push(pf.patterns().iter().map(canon_pat).collect());
                    self.meta_of(doc, &pf, f);
                }
                Ok(Err(e)) => {
                    self.vio("fmt_diff", format!("{} refuses a document the other format expresses: {} ({})", f, err_str(&e), String::from_utf8_lossy(&std::fs::read(f).unwrap())));
                    return;
                }
                Err(c) => {
                    self.caught(c, "load_file");
                    return;
                }
            }
            seams::io_begin(f, io.to_vec(), vec![]);
            let r = lib(None, || adbcalls::trie_from_file_ignore_errors(f));
            seams::io_end();
            match r {
                Ok(Ok(m)) => ms.push(M::T(m)),
                Ok(Err(e)) => {
                    self.vio("fmt_diff", format!("{}: {}", f, err_str(&e)));
                    return;
                }
                Err(c) => {
                    self.caught(c, "from_file_ignore_errors");
                    return;
                }
            }
        }
        self.bump("check.fmt");
        if shown[0] != shown[1] {
            self.vio("fmt_diff", format!("json gives {:?}, yaml gives {:?}", shown[0], shown[1]));
        }
        // and strictly: the same verdict
        let mut verdicts = Vec::new();
        for f in [&jf, &yf] {
            match lib(None, || adbcalls::trie_from_file(f).map(|_| ()).map_err(|e| err_str(&e))) {
                Ok(v) => verdicts.push(v),
                Err(c) => {
                    self.caught(c, "from_file");
                    return;
                }
            }
        }
        if verdicts[0] != verdicts[1] {
            self.vio("fmt_diff", format!("strict load: json {:?}, yaml {:?}", verdicts[0], verdicts[1]));
        }
        for m in msgs {
            let mut o = Vec::new();
            for x in &ms {
                match lib(None, || x.parse(m)) {
                    Ok(r) => o.push(r),
                    Err(c) => {
                        self.caught(c, "parse");
                        return;
                    }
                }
            }
            self.note(&hit_str(&o[0]));
            if o[0] != o[1] {
                self.vio("fmt_diff", format!("message {:?}: json-loaded [{}], yaml-loaded [{}]", m, hit_str(&o[0]), hit_str(&o[1])));
            }
        }
    }

    /// a loaded file holds the document's patterns in the document's order, token by token
    fn content_of(&mut self, doc: &Doc, pf: &PatternFile, f: &str) {
        let want: Vec<String> = doc
            .pats
            .iter()
            .map(canon_doc)
            .collect();
        let got: Vec<String> = pf.patterns().iter().map(canon_pat).collect();
        self.bump("check.document");
        if want != got {
            let i = want.iter().zip(&got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
            self.vio("io_content", format!("{}: pattern {} is stored as {:?} and loaded as {:?}", f, i, want.get(i), got.get(i)));
        }
    }

    /// every pattern of a loaded file carries what the document says
    fn meta_of(&mut self, doc: &Doc, pf: &PatternFile, f: &str) {
        let mut pool = doc.pats.clone();
        for p in pf.patterns() {
            let pos = pool.iter().position(|q| {
                &uuid_bytes(q.uid)[..] == p.uuid().as_bytes()
                    && p.name() == q.name.as_deref()
                    && p.tags().map(|t| t.to_vec()) == q.tags
                    && p.values().cloned() == q.values
            });
            match pos {
                Some(i) => {
                    let want = pool.remove(i);
                    let mut c = p.clone();
                    let mut tests: Vec<TestMsg> = Vec::new();
                    while let Some(t) = c.pop_test_message() {
                        tests.push(TestMsg { message: t.message().to_string(), values: t.values().clone(), tags: t.tags().map(|x| x.to_vec()) });
                    }
                    let mut w = want.tests.clone().unwrap_or_default();
                    // as a multiset
                    let key = |t: &TestMsg| format!("{:?}", t);
                    tests.sort_by_key(key);
                    w.sort_by_key(key);
                    if w != tests {
                        self.vio("meta", format!("{}: test messages {:?} stored, {:?} loaded", f, w, tests));
                    }
                    self.bump("check.meta");
                }
                None => {
                    self.vio("meta", format!("{}: loaded pattern {:?} does not carry what the document {:?} says", f, p, doc));
                    return;
                }
            }
        }
        if !pool.is_empty() {
            self.vio("meta", format!("{}: patterns {:?} of the document were not loaded", f, pool));
        }
    }
}

/// the errors a pattern source may report besides the plain ones
fn source_error(kind: u8, n: u32) -> BuildError {
    use std::io::{Error, ErrorKind::*};
    let text = format!("source-fault-{}-", n);
    match kind {
        0 => BuildError::Io(Error::new(Interrupted, text)),
        1 => BuildError::Io(Error::new(UnexpectedEof, text)),
        2 => BuildError::Io(Error::new(WouldBlock, text)),
        3 => BuildError::Io(Error::new(NotFound, text)),
        4 => BuildError::Io(Error::new(InvalidData, text)),
        5 => BuildError::Io(Error::from_raw_os_error(5)),
        6 => BuildError::UnsupportedFileExtension,
        7 => BuildError::NotUtf8FileName,
        8 => BuildError::DeserYaml(serde_yaml02::from_str::<PatternFile>("patterns: [").err().unwrap()),
        9 => BuildError::TestMessage(TmError::KeyNotFound { pattern_uuid: text.clone(), key: text }),
        _ => BuildError::Io(Error::new(PermissionDenied, text)),
    }
}
fn source_marked(kind: u8) -> bool {
    !matches!(kind, 5..=8)
}
fn same_error(a: &BuildError, b: &BuildError) -> bool {
    match (a, b) {
        (BuildError::Io(x), BuildError::Io(y)) => x.kind() == y.kind() && x.to_string() == y.to_string(),
        _ => err_str(a) == err_str(b),
    }
}

struct Src {
    items: Vec<Option<Result<Pattern, BuildError>>>,
    next: usize,
    pulled: std::rc::Rc<std::cell::Cell<usize>>,
    /// how much the source tells about its length beforehand
    hint: usize,
}
impl Iterator for Src {
    type Item = Result<Pattern, BuildError>;
    fn next(&mut self) -> Option<Self::Item> {
        seams::callback_point();
        let r = self.items.get_mut(self.next).and_then(|x| x.take());
        if r.is_some() {
            self.next += 1;
            self.pulled.set(self.next);
        }
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let left = self.items.len() - self.next;
        match self.hint {
            0 => (0, None),
            1 => (left, Some(left)),
            2 => (0, Some(left + 7)),
            _ => (left / 2, None),
        }
    }
}

// ------------------------------------------------------------------ the library used by its own callbacks

thread_local! {
    static NEST: std::cell::RefCell<Option<Nest>> = const { std::cell::RefCell::new(None) };
    static NEST_VIO: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

struct Nest {
    ms: Vec<M>,
    turns: u32,
}

const NEST_PATS: [(u32, &str); 5] = [
    (4_000_001, "nest %{INT:n} end"),
    (4_000_002, "nest %{GREEDY:rest} stop"),
    (4_000_003, "nest"),
    (4_000_004, "n%{SET(\"est\"):x}!"),
    (4_000_005, "%{INT(max_len=3):a}%{GREEDY:b}"),
];
const NEST_ASKS: [(&str, u32, &[(&str, &str)]); 7] = [
    ("nest 42 end", 4_000_001, &[("n", "42")]),
    ("nest 42 endx stop", 4_000_002, &[("rest", "42 endx")]),
    ("nest", 4_000_003, &[]),
    ("nest!", 4_000_004, &[("x", "est")]),
    ("12 monkeys", 4_000_005, &[("a", "12"), ("b", " monkeys")]),
    ("nes", 0, &[]),
    ("", 0, &[]),
];

fn nest_new() -> Nest {
    let mut ms = vec![M::new(0), M::new(1)];
    for m in ms.iter_mut() {
        for (u, t) in NEST_PATS.iter() {
            let mut p = Pattern::with_uuid(Uuid::from_bytes(&uuid_bytes(*u)).unwrap());
            match grammar::parser::pattern(t) {
                Ok(c) => p.set_pattern(c),
                Err(e) => nest_fail(format!("pattern text {:?} was refused: {}", t, e)),
            }
            m.add(p);
        }
    }
    Nest { ms, turns: 0 }
}

fn nest_fail(s: String) {
    NEST_VIO.with(|v| {
        let mut v = v.borrow_mut();
        if v.is_none() {
            *v = Some(s);
        }
    });
}

/// A callback uses the library for purposes of its own.
fn nest_run() {
    let mut n = NEST.with(|n| n.borrow_mut().take()).unwrap_or_else(nest_new);
    n.turns += 1;
    if n.turns % 13 == 0 {
        n = Nest { turns: n.turns, ..nest_new() };
    }
    for m in &n.ms {
        for (msg, uid, caps) in NEST_ASKS.iter() {
            let got = m.parse(msg).map(|o| (o.id, o.caps));
            let want = if *uid == 0 {
                None
            } else {
                Some((uuid_bytes(*uid), caps.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect()))
            };
            if got != want {
                nest_fail(format!("used inside a callback, message {:?} gives {:?} instead of {:?}", msg, got.map(|g| g.1), want.map(|w| w.1)));
            }
        }
    }
    NEST.with(|c| *c.borrow_mut() = Some(n));
}

/// What a pattern is, through its public face only
fn canon_pat(p: &Pattern) -> String {
    let toks: Vec<String> = p
        .pattern()
        .iter()
        .map(|t| match t {
            TokenType::Literal(l) => format!("L{:?}", l),
            TokenType::Parser(p) => format!("P{:?}/{:x}", p.name(), p.hash_os()),
        })
        .collect();
    let mut c = p.clone();
    let mut tests = Vec::new();
    while let Some(t) = c.pop_test_message() {
        tests.push(format!("{:?} {:?} {:?}", t.message(), t.values(), t.tags()));
    }
    format!("{} name={:?} pattern={:?} values={:?} tags={:?} tests={:?}", hex(p.uuid().as_bytes()), p.name(), toks, p.values(), p.tags(), tests)
}

/// what a document's pattern must look like once it is loaded
fn canon_doc(p: &Pat) -> String {
    let mut q = p.clone();
    q.via = Via::Builder;
    q.toks = textual(&q.toks);
    canon_pat(&build_pattern(&q).unwrap())
}

/// messages that are likely to tell two matchers holding (about) these patterns apart
fn probes(pf: &PatternFile) -> Vec<String> {
    let mut v = vec![String::new()];
    for p in pf.patterns() {
        for fill in ["1", "a", "", "12", "\u{e9}"] {
            let mut m = String::new();
            for t in p.pattern() {
                match t {
                    TokenType::Literal(l) => m.push_str(l),
                    TokenType::Parser(_) => m.push_str(fill),
                }
            }
            v.push(m);
        }
        let mut c = p.clone();
        while let Some(t) = c.pop_test_message() {
            v.push(t.message().to_string());
        }
    }
    v.sort();
    v.dedup();
    v
}

fn same_reject(r: &Reject, t: &TmError, item: &Item) -> bool {
    let (ptags, ptests) = match item {
        Item::P(p) => (p.tags.clone(), p.tests.clone().unwrap_or_default()),
        _ => return false,
    };
    match (r, t) {
        (Reject::NoMatch { uid, message }, TmError::TestMessageDoesntMatch { pattern_uuid, message: m }) => {
            *pattern_uuid == uuid_str(*uid) && m == message
        }
        (Reject::Other { uid, got, message }, TmError::MatchedToOtherPattern { expected_uuid, got_uuid, message: m }) => {
            *expected_uuid == uuid_str(*uid) && *got_uuid == uuid_str(*got) && m == message
        }
        (Reject::Tags { uid }, TmError::UnexpectedTags { pattern_uuid, expected, got }) => {
            *pattern_uuid == uuid_str(*uid) && *got == ptags && ptests.iter().any(|x| x.tags == *expected)
        }
        (Reject::Value { uid, key, want, got }, TmError::ValueNotMatch { pattern_uuid, key: k, expected_value, got_value }) => {
            *pattern_uuid == uuid_str(*uid) && k == key && expected_value == want && got_value == got
        }
        (Reject::Key { uid, key }, TmError::KeyNotFound { pattern_uuid, key: k }) => *pattern_uuid == uuid_str(*uid) && k == key,
        _ => false,
    }
}

pub fn hurt(b: &mut Vec<u8>, d: &Damage) {
    let n = b.len();
    if n == 0 {
        return;
    }
    match d {
        Damage::Trunc(k) => b.truncate(k % (n + 1)),
        Damage::Flip(k, bit) => b[k % n] ^= 1 << (bit & 7),
        Damage::Set(k, v) => b[k % n] = *v,
        Damage::Zero(k, l) => {
            let s = k % n;
            let e = s.saturating_add(*l).min(n);
            for x in &mut b[s..e] {
                *x = 0;
            }
        }
        Damage::Cut(k, l) => {
            let s = k % n;
            let e = s.saturating_add(*l).min(n);
            b.drain(s..e);
        }
        Damage::Dup(k, l) => {
            let s = k % n;
            let e = s.saturating_add(*l).min(n);
            let c: Vec<u8> = b[s..e].to_vec();
            let t = b.split_off(e);
            b.extend(c);
            b.extend(t);
        }
    }
}

pub fn err_str(e: &BuildError) -> String {
    match e {
        BuildError::TestMessage(t) => format!("TestMessage({:?})", t),
        BuildError::Io(i) => format!("Io({:?})", i),
        BuildError::DeserJson(_) => "DeserJson".into(),
        BuildError::DeserYaml(_) => "DeserYaml".into(),
        BuildError::UnsupportedFileExtension => "UnsupportedFileExtension".into(),
        BuildError::NotUtf8FileName => "NotUtf8FileName".into(),
    }
}
fn show_bytes(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b).to_string();
    if s.chars().count() > 1500 {
        s.chars().take(1500).collect::<String>() + "..."
    } else {
        s
    }
}
pub fn show_pat(p: &Pat) -> String {
    format!("#{}{:?}", p.uid, p.toks)
}
fn show_list(l: &[Rc<PatC>]) -> String {
    let v: Vec<String> = l.iter().take(40).map(|p| show_pat(&p.pat)).collect();
    format!("[{}]", v.join(", "))
}

// ------------------------------------------------------------------ a whole run

/// Run a plan. `solo`: only that thread's program (and the common start), alone.
pub fn run_plan(plan: &Plan, solo: Option<usize>) -> RunOut {
    // a fresh disk
    if let Ok(rd) = std::fs::read_dir(".") {
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() {
                let _ = std::fs::remove_dir(&p);
            } else {
                let _ = std::fs::remove_file(&p);
            }
        }
    }
    let e0 = seams::entropy_counts();
    let t0 = seams::CLOCK_READS.load(std::sync::atomic::Ordering::SeqCst);
    seams::clock_set(plan.clock.0, plan.clock.1);
    let other = seams::SHAPE.load(std::sync::atomic::Ordering::SeqCst) & 2 != 0;
    SAME_PLACE.store((plan.seed & 1 == 0) != other, std::sync::atomic::Ordering::SeqCst);
    seams::set_level(plan.log);
    seams::LOG_FORMAT_ALL.store(plan.fmt, std::sync::atomic::Ordering::Relaxed);
    let progs: Vec<(usize, &Vec<Op>)> = plan
        .threads
        .iter()
        .enumerate()
        .filter(|(i, _)| solo.map_or(true, |s| s == *i))
        .collect();
    // common start: files and settings every thread sees
    let mut out = RunOut::default();
    let init_docs: BTreeMap<Vec<u8>, (Doc, Fmt)> = {
        let h = std::thread::Builder::new().stack_size(8 << 20);
        std::thread::scope(|sc| {
            h.spawn_scoped(sc, || {
                seams::sched_start(1, None, 0, [0; 6], 0);
                seams::thread_begin(0, plan.entropy | 1, 0);
                let mut th = new_th(plan, 99);
                th.run(&plan.init, 0);
                seams::thread_end();
                seams::sched_stop();
                th.docs
            })
            .unwrap()
            .join()
            .unwrap()
        })
    };
    let n = progs.len();
    let (ex, sseed, probs, fine) = match &plan.sched {
        SchedPlan::Gen { seed, probs, fine } => (None, *seed, *probs, *fine),
        SchedPlan::Explicit(v) => (Some(v.as_slice()), 0, [0; 6], 0),
    };
    seams::sched_start(n, if n > 1 { ex } else { None }, sseed, probs, fine);
    let lasting = plan.prop == "C17" && plan.seed & 6 != 0;
    let work = |pos: usize, tid: usize, ops: &Vec<Op>, docs: BTreeMap<Vec<u8>, (Doc, Fmt)>| {
        let e = crate::rng::mix(plan.entropy ^ (tid as u64 * 77 + 5)) | 1;
        seams::thread_begin(pos, e, plan.efaults);
        let mut th = new_th(plan, tid);
        th.docs = docs;
        NEST.with(|n| *n.borrow_mut() = None);
        NEST_VIO.with(|n| *n.borrow_mut() = None);
        PLACE.with(|p| p.set(Some(String::with_capacity(4096))));
        seams::nested_set(plan.nested, nest_run);
        th.run(ops, 0);
        PLACE.with(|p| p.set(None));
        let n = seams::nested_count();
        if n > 0 {
            th.bumpn("fault.callback_reenters_library", n);
        }
        seams::nested_set(0, nest_run);
        th.op = ops.len();
        th.cur = FNV0;
        let ks: Vec<usize> = th.slots.keys().cloned().collect();
        for k in &ks {
            th.sweep(*k);
        }
        for k in ks {
            th.take(k);
        }
        let c = th.cur;
        th.outs.push(c);
        th.log = fnv(th.log, &c.to_le_bytes());
        NEST.with(|n| *n.borrow_mut() = None);
        NEST_VIO.with(|n| *n.borrow_mut() = None);
        let r = (th.vios, th.stats, th.outs, th.log, th.uuids);
        seams::thread_end();
        r
    };
    let results: Vec<_> = if lasting {
        // threads that live as long as the process, as those of a service do
        let mut res: Vec<Option<_>> = progs.iter().map(|_| None).collect();
        let jobs: Vec<Box<dyn FnOnce() + Send>> = progs
            .iter()
            .zip(res.iter_mut())
            .enumerate()
            .map(|(pos, ((tid, ops), res))| {
                let (docs, tid, work) = (init_docs.clone(), *tid, &work);
                Box::new(move || *res = Some(work(pos, tid, ops, docs))) as Box<dyn FnOnce() + Send + '_>
            })
            // (`all` returns when every job has been dropped)
            .map(|j| unsafe { std::mem::transmute::<Box<dyn FnOnce() + Send + '_>, Box<dyn FnOnce() + Send + 'static>>(j) })
            .collect();
        crate::pool::all(jobs);
        res.into_iter().map(|r| r.expect("worker")).collect()
    } else {
        std::thread::scope(|sc| {
            let hs: Vec<_> = progs
                .iter()
                .enumerate()
                .map(|(pos, (tid, ops))| {
                    let (docs, tid, work) = (init_docs.clone(), *tid, &work);
                    std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, move || work(pos, tid, ops, docs)).unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        })
    };
    let s = seams::sched_stop();
    out.steps = s.step;
    out.sched_hash = s.hash;
    out.switches = s.switches;
    for (i, k) in seams::KINDS.iter().enumerate() {
        if s.yields[i] > 0 {
            let key: &'static str = match *k {
                "alloc" => "yield.alloc",
                "log" => "yield.log",
                "io" => "yield.io",
                "callback" => "yield.callback",
                "op" => "yield.op",
                "lockwait" => "yield.lockwait",
                "instruction" => "yield.instruction",
                _ => "yield.exit",
            };
            *out.stats.entry(key).or_insert(0) += s.yields[i];
        }
    }
    let e1 = seams::entropy_counts();
    let t1 = seams::CLOCK_READS.load(std::sync::atomic::Ordering::SeqCst);
    if t1 > t0 {
        *out.stats.entry("clock.reads_by_library").or_insert(0) += t1 - t0;
    }
    if e1.0 > e0.0 {
        *out.stats.entry("entropy.reads").or_insert(0) += e1.0 - e0.0;
    }
    if e1.1 > e0.1 {
        *out.stats.entry("fault.entropy_interrupted_or_short").or_insert(0) += e1.1 - e0.1;
    }
    *out.stats.entry("preemptions").or_insert(0) += out.switches.len() as u64;
    let mut h = FNV0;
    for (v, st, o, l, u) in results {
        out.vios.extend(v);
        for (k, n) in st {
            *out.stats.entry(k).or_insert(0) += n;
        }
        out.outs.push(o);
        out.uuids.extend(u);
        h = fnv(h, &l.to_le_bytes());
    }
    h = fnv(h, &s.hash.to_le_bytes());
    out.hash = h;
    let mut seen = BTreeSet::new();
    for u in &out.uuids {
        if !seen.insert(*u) {
            out.vios.push(Vio { class: "uuid_dup", detail: format!("random id {} was handed out twice", hex(u)), thread: 0, op: 0 });
        }
    }
    out
}

fn new_th(plan: &Plan, tid: usize) -> Th<'_> {
    Th {
        plan,
        tid,
        op: 0,
        slots: BTreeMap::new(),
        vios: vec![],
        stats: Stats::new(),
        outs: vec![],
        cur: FNV0,
        log: FNV0,
        next_family: 0,
        families: BTreeMap::new(),
        docs: BTreeMap::new(),
        uuids: vec![],
        faulted_load_before: false,
    }
}

/// Runs the plan; the bytes the process holds more afterwards
pub fn kept(plan: &Plan) -> i64 {
    let before = seams::live();
    drop(run_plan(plan, None));
    seams::live() - before
}

/// Run the plan and everything its property compares it with.
pub fn run_full(plan: &Plan) -> RunOut {
    let kept = if plan.prop == "C17" { kept(plan) } else { 0 };
    let mut out = match plan.prop.as_str() {
        "C17" => crate::pool::fresh(|| {
            drop(run_plan(plan, None));
            let mut out = run_plan(plan, None);
            retained(plan, &mut out);
            out
        }),
        _ => run_plan(plan, None),
    };
    out.kept = kept;
    if plan.prop == "C18" {
        elsewhere(plan, &mut out);
    }
    if plan.prop == "C15" && plan.threads.len() > 1 {
        for t in 0..plan.threads.len() {
            let solo = run_plan(plan, Some(t));
            *out.stats.entry("check.solo").or_insert(0) += 1;
            if solo.outs[0] != out.outs[t] {
                let op = solo.outs[0].iter().zip(&out.outs[t]).position(|(a, b)| a != b).unwrap_or(0);
                out.vios.push(Vio {
                    class: "interference",
                    detail: format!(
                        "thread {}: operation {} ({}) has a different outcome when the other threads run",
                        t,
                        op,
                        plan.threads[t].get(op).map(|o| format!("{:?}", o)).unwrap_or("final sweep".into())
                    ),
                    thread: t,
                    op,
                });
            }
        }
    }
    out
}

/// How often the same work is done, and after which of these the memory held is compared.
const CYCLES: [usize; 5] = [6, 12, 24, 48, 96];

/// The same work over and over: what the process holds has to settle.
fn retained(plan: &Plan, out: &mut RunOut) {
    let mut held: Vec<i64> = Vec::with_capacity(CYCLES.len());
    let long = out.steps > 60_000 || out.stats.get("log.records").map_or(false, |n| *n > 20_000);
    for n in 3..=CYCLES[CYCLES.len() - 1] {
        drop(run_plan(plan, None));
        *out.stats.entry("check.cycles").or_insert(0) += 1;
        if CYCLES.contains(&n) {
            held.push(seams::live());
            let k = held.len();
            if n == 24 && k == 3 && held[2] > held[1] && long {
                break;
            }
            if k > 1 && held[k - 1] <= held[k - 2] {
                return;
            }
        }
    }
    let growth: Vec<String> = held.iter().zip(CYCLES).map(|(h, n)| format!("{} after {}", h - held[0], n)).collect();
    out.vios.push(Vio {
        class: "retained",
        detail: format!("doing the same work again and again, with everything dropped in between, the process holds more each time (bytes): {}", growth.join(", ")),
        thread: 0,
        op: 0,
    });
}

/// The same work at another time, at other addresses, with other random numbers.
fn elsewhere(plan: &Plan, out: &mut RunOut) {
    use std::sync::atomic::Ordering::SeqCst;
    for k in 0..2u64 {
        let mut p = plan.clone();
        let r = crate::rng::mix(plan.seed ^ (k + 1));
        p.entropy = crate::rng::mix(plan.entropy ^ r) | 1;
        p.clock = (r % 4_000_000_000_000_000_000, [0, 1, 1_000_000, 3_600_000_000_000][(r >> 60) as usize % 4]);
        if p.threads.len() == 1 {
            // (moving is work of its own, the schedule would be another one)
            p.moves = (r >> 16) as u8;
        }
        seams::SHAPE.store(if k == 0 { r | 3 } else { r | 1 }, SeqCst);
        seams::PID.store(1 + r % 30_000, SeqCst);
        let o = run_plan(&p, None);
        seams::SHAPE.store(0, SeqCst);
        seams::PID.store(7, SeqCst);
        *out.stats.entry("fault.other_time_place_and_entropy").or_insert(0) += 1;
        for t in 0..out.outs.len() {
            if o.outs[t] != out.outs[t] {
                let op = o.outs[t].iter().zip(&out.outs[t]).position(|(a, b)| a != b).unwrap_or(0);
                let what = plan.threads[t].get(op).map(|o| format!("{:?}", o)).unwrap_or("final sweep".into());
                out.vios.push(Vio {
                    class: "environment",
                    detail: format!("thread {}: operation {} ({}) has a different outcome at another time, at other addresses, with another process id and other random numbers", t, op, what),
                    thread: t,
                    op,
                });
                return;
            }
        }
    }
}
