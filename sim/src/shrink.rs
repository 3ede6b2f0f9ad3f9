//! Minimises a failing plan while the same class of violation persists.

use crate::model::*;
use crate::plan::*;
use serde_json::Value;
use std::time::{Duration, Instant};

fn pat_ok(p: &mut Pat, textual_only: bool) -> bool {
    if textual_only || p.via != Via::Builder {
        p.toks = textual(&p.toks);
        if p.toks.is_empty() {
            return false;
        }
    }
    for t in &p.toks {
        match t {
            Tok::L(l) => {
                if l.contains("\\%\\{") {
                    return false;
                }
            }
            Tok::S { set, .. } | Tok::C { set, .. } => {
                if set.is_empty() || set.contains('"') {
                    return false;
                }
            }
            _ => {}
        }
        if let Some(n) = t.name() {
            if n.is_empty() || !n.chars().next().unwrap().is_ascii_alphabetic() || n.ends_with('.') && n.len() == 1 {
                return false;
            }
        }
        if let Tok::G { end: Some(e), .. } = t {
            if e.is_empty() {
                return false;
            }
        }
    }
    if let Some(ts) = &p.tests {
        for t in ts {
            if p.tags.is_none() && t.tags.as_ref().map_or(false, |x| x.is_empty()) {
                return false;
            }
        }
    }
    true
}

/// Keep a mutated plan inside what the generator could have produced.
pub fn valid(plan: &mut Plan) -> bool {
    if plan.threads.is_empty() {
        return false;
    }
    let mut ok = true;
    let hostile = plan.prop == "C10";
    for ops in plan.threads.iter_mut().chain(std::iter::once(&mut plan.init)) {
        for op in ops.iter_mut() {
            match op {
                Op::Add { pat, .. } => ok &= pat_ok(pat, false),
                Op::Write { doc, .. } | Op::FmtPair { doc, .. } => {
                    for p in doc.pats.iter_mut() {
                        ok &= pat_ok(p, true);
                    }
                }
                Op::Source { items, .. } => {
                    for i in items.iter_mut() {
                        if let Item::P(p) = i {
                            ok &= pat_ok(p, false);
                        }
                    }
                }
                _ => {}
            }
            if let Op::Write { file, .. } | Op::Raw { file, .. } | Op::Dir { file } | Op::Unlink { file } | Op::Load { file, .. } = op {
                ok &= !file.is_empty() && !file.contains('/');
                if hostile {
                    continue;
                }
                let p = std::path::Path::new(file.as_str());
                ok &= matches!(p.extension().and_then(|e| e.to_str()), Some("json" | "yaml" | "yml" | "YAML" | "YML"));
            }
        }
    }
    ok
}

pub struct Budget {
    pub runs: usize,
    pub until: Instant,
}

impl Budget {
    fn over(&self, max_runs: usize) -> bool {
        self.runs >= max_runs || Instant::now() > self.until
    }
}

/// `fails(plan)`: does this plan still show the violation?
pub fn shrink(plan: &Plan, fails: &mut dyn FnMut(&Plan) -> bool, max_runs: usize, secs: u64) -> (Plan, usize) {
    let mut best = plan.clone();
    let mut b = Budget { runs: 0, until: Instant::now() + Duration::from_secs(secs) };
    let mut try_one = |cand: Plan, best: &mut Plan, b: &mut Budget| -> bool {
        if b.over(max_runs) {
            return false;
        }
        let mut cand = cand;
        if !valid(&mut cand) || cand == *best {
            return false;
        }
        b.runs += 1;
        if fails(&cand) {
            *best = cand;
            true
        } else {
            false
        }
    };
    // settings
    for f in [
        |p: &mut Plan| p.log = 0,
        |p: &mut Plan| p.log = 1,
        |p: &mut Plan| p.fmt = false,
        |p: &mut Plan| p.efaults = 0,
        |p: &mut Plan| p.sched = SchedPlan::Explicit(vec![]),
    ] {
        let mut c = best.clone();
        f(&mut c);
        try_one(c, &mut best, &mut b);
    }
    loop {
        let before = size(&best);
        // whole threads
        let mut t = 0;
        while best.threads.len() > 1 && t < best.threads.len() {
            let mut c = best.clone();
            c.threads.remove(t);
            if let SchedPlan::Explicit(_) = c.sched {
                c.sched = SchedPlan::Explicit(vec![]);
            }
            if !try_one(c, &mut best, &mut b) {
                t += 1;
            }
        }
        // everything list-shaped, big pieces first, then everything else, by path
        let mut paths = Vec::new();
        let v = serde_json::to_value(&best).unwrap();
        collect(&v, &mut vec![], &mut paths);
        for path in paths {
            if b.over(max_runs) {
                break;
            }
            let v = serde_json::to_value(&best).unwrap();
            let node = match get(&v, &path) {
                Some(n) => n.clone(),
                None => continue,
            };
            match node {
                Value::Array(a) => {
                    let mut arr = a;
                    let mut chunk = (arr.len() / 2).max(1);
                    loop {
                        let mut i = 0;
                        while i < arr.len() && !b.over(max_runs) {
                            let mut c = arr.clone();
                            let e = (i + chunk).min(c.len());
                            c.drain(i..e);
                            if let Some(p) = with(&best, &path, Value::Array(c.clone())) {
                                if try_one(p, &mut best, &mut b) {
                                    // the accepted plan may have been normalised: read it back
                                    let nv = serde_json::to_value(&best).unwrap();
                                    match get(&nv, &path) {
                                        Some(Value::Array(x)) => arr = x.clone(),
                                        _ => break,
                                    }
                                    continue;
                                }
                            }
                            i += chunk;
                        }
                        if chunk == 1 {
                            break;
                        }
                        chunk /= 2;
                    }
                }
                Value::String(s) if !s.is_empty() => {
                    let mut s: Vec<char> = s.chars().collect();
                    let mut chunk = (s.len() / 2).max(1);
                    loop {
                        let mut i = 0;
                        while i < s.len() && !b.over(max_runs) {
                            let mut c = s.clone();
                            let e = (i + chunk).min(c.len());
                            c.drain(i..e);
                            let cand: String = c.iter().collect();
                            if let Some(p) = with(&best, &path, Value::String(cand)) {
                                if try_one(p, &mut best, &mut b) {
                                    s = c;
                                    continue;
                                }
                            }
                            i += chunk;
                        }
                        if chunk == 1 {
                            break;
                        }
                        chunk /= 2;
                    }
                }
                Value::Object(o) => {
                    // optional fields
                    for (k, x) in o {
                        if !x.is_null() {
                            let mut p2 = path.clone();
                            p2.push(Step::Key(k));
                            if let Some(p) = with(&best, &p2, Value::Null) {
                                try_one(p, &mut best, &mut b);
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        if size(&best) >= before || b.over(max_runs) {
            break;
        }
    }
    (best, b.runs)
}

fn size(p: &Plan) -> usize {
    serde_json::to_string(p).unwrap().len()
}

#[derive(Clone, Debug)]
enum Step {
    Key(String),
    Idx(usize),
}

fn collect(v: &Value, at: &mut Vec<Step>, out: &mut Vec<Vec<Step>>) {
    match v {
        Value::Array(a) => {
            out.push(at.clone());
            for (i, x) in a.iter().enumerate() {
                at.push(Step::Idx(i));
                collect(x, at, out);
                at.pop();
            }
        }
        Value::Object(o) => {
            out.push(at.clone());
            for (k, x) in o {
                if k == "prop" {
                    continue;
                }
                at.push(Step::Key(k.clone()));
                collect(x, at, out);
                at.pop();
            }
        }
        Value::String(_) => out.push(at.clone()),
        _ => {}
    }
}

fn get<'a>(v: &'a Value, path: &[Step]) -> Option<&'a Value> {
    let mut v = v;
    for s in path {
        v = match s {
            Step::Key(k) => v.get(k)?,
            Step::Idx(i) => v.get(*i)?,
        };
    }
    Some(v)
}

fn with(p: &Plan, path: &[Step], x: Value) -> Option<Plan> {
    let mut root = serde_json::to_value(p).unwrap();
    {
        let mut v = &mut root;
        for s in path {
            v = match s {
                Step::Key(k) => v.get_mut(k)?,
                Step::Idx(i) => v.get_mut(*i)?,
            };
        }
        *v = x;
    }
    serde_json::from_value(root).ok()
}
