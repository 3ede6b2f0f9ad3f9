//! Inputs of extreme size and shape, each given to the library in a process of its own (an
//! overflowing stack or an exhausted memory ends the process). Every case has a limit up to which
//! the library has to cope, and some have known points at which it does not.

use crate::rng::Rng;
use actiondb::grammar;
use actiondb::matcher::suffix_array::SuffixArrayMatcherFactory;
use actiondb::matcher::trie::factory::TrieMatcherFactory;
use actiondb::matcher::{Matcher, MatcherFactory, Pattern, PatternLoader};
use uuid::Uuid;

/// (case, largest size that must work, smallest size drawn)
pub const CASES: &[(&str, usize, usize)] = &[
    ("trie_tokens", 1200, 100),
    ("array_tokens", 300, 50),
    ("trie_prefix_chain", 2500, 100),
    ("array_prefix_chain", 2500, 50),
    ("trie_alternatives", 2000, 300),
    ("array_alternatives", 2000, 300),
    ("trie_many_patterns", 8000, 1000),
    ("array_many_patterns", 4000, 500),
    ("trie_long_literal", 2_000_000, 100_000),
    ("array_long_literal", 2_000_000, 100_000),
    ("trie_long_message", 8_000_000, 100_000),
    ("array_long_message", 8_000_000, 100_000),
    ("trie_chain_long_rest", 1_000_000, 20_000),
    ("array_chain_long_rest", 1_000_000, 20_000),
    ("trie_late_failures", 400, 50),
    ("array_late_failures", 400, 50),
    ("grammar_long_text", 2_000_000, 100_000),
    ("grammar_unclosed", 20_000, 1_000),
    ("json_nesting", 200_000, 1_000),
    ("json_object_nesting", 200_000, 1_000),
    ("json_long_string", 4_000_000, 100_000),
    ("json_many_patterns", 6000, 500),
    ("json_many_tests", 3000, 300),
    ("json_blank", 20_000_000, 1_000_000),
    ("yaml_flow_nesting", 1500, 100),
    ("yaml_block_nesting", 1500, 100),
    ("yaml_alias_fanout", 4, 1),
    ("yaml_long_string", 1_000_000, 100_000),
    ("yaml_many_patterns", 1500, 100),
    ("yaml_comment", 4_000_000, 100_000),
];

/// sizes at which the current tree is known to fail (see known_findings.txt)
pub const BEYOND: &[(&str, usize)] = &[
    ("trie_tokens", 20_000),
    ("array_tokens", 20_000),
    ("yaml_flow_nesting", 100_000),
    ("yaml_block_nesting", 100_000),
    ("yaml_alias_fanout", 8),
];

/// what the process is asked to do; returns a short description of the outcome
pub fn run_case(case: &str, n: usize) -> Result<String, String> {
    let array = case.starts_with("array_");
    let mk = || -> Box<dyn Matcher> {
        if array {
            Box::new(SuffixArrayMatcherFactory::new_matcher())
        } else {
            Box::new(TrieMatcherFactory::new_matcher())
        }
    };
    let pat = |text: &str, id: u32| -> Result<Pattern, String> {
        let c = grammar::parser::pattern(text).map_err(|e| format!("refused: {}", e))?;
        let mut p = Pattern::with_uuid(Uuid::from_bytes(&crate::model::uuid_bytes(id)).unwrap());
        p.set_pattern(c);
        Ok(p)
    };
    let expect = |m: &dyn Matcher, msg: &str, id: u32| -> Result<(), String> {
        match m.parse(msg) {
            Some(r) if r.pattern().uuid().as_bytes() == &crate::model::uuid_bytes(id)[..] => Ok(()),
            Some(_) => Err("the wrong pattern matched".into()),
            None => Err("the message did not match".into()),
        }
    };
    let tail = case.split_once('_').map(|x| x.1).unwrap_or("");
    match (case, tail) {
        (_, "tokens") => {
            let mut m = mk();
            m.add_pattern(pat(&"%{INT}a".repeat(n), 1)?);
            expect(&*m, &"1a".repeat(n), 1)?;
            if m.parse(&("1a".repeat(n) + "x")).is_some() {
                return Err("matched with something left over".into());
            }
            let c = m.boxed_clone();
            expect(&*c, &"1a".repeat(n), 1)?;
        }
        (_, "prefix_chain") => {
            let mut m = mk();
            for i in 1..=n {
                m.add_pattern(pat(&"a".repeat(i), i as u32)?);
            }
            expect(&*m, &"a".repeat(n), n as u32)?;
            expect(&*m, "a", 1)?;
            let c = m.boxed_clone();
            expect(&*c, &"a".repeat(n / 2), (n / 2) as u32)?;
        }
        (_, "alternatives") => {
            let mut m = mk();
            for i in 1..=n {
                m.add_pattern(pat(&format!("%{{SET(\"a\", min_len={})}}", i + 1), i as u32)?);
            }
            if m.parse("a").is_some() {
                return Err("matched".into());
            }
            expect(&*m, &"a".repeat(n + 1), 1)?;
        }
        (_, "many_patterns") if case.starts_with("trie") || array => {
            let mut m = mk();
            for i in 1..=n {
                m.add_pattern(pat(&format!("{} %{{INT:x}} {}", i * 7, i), i as u32)?);
            }
            expect(&*m, &format!("{} 5 {}", n * 7, n), n as u32)?;
            expect(&*m, "7 5 1", 1)?;
        }
        (_, "long_literal") => {
            let t = "ab".repeat(n / 2);
            let mut m = mk();
            m.add_pattern(pat(&t, 1)?);
            expect(&*m, &t, 1)?;
            m.add_pattern(pat(&(t[..n / 3 * 2].to_string() + "c"), 2)?);
            expect(&*m, &t, 1)?;
            expect(&*m, &(t[..n / 3 * 2].to_string() + "c"), 2)?;
        }
        (_, "long_message") => {
            let mut m = mk();
            m.add_pattern(pat("%{INT:a} %{SET(\"xy\"):b} %{GREEDY:c} end", 1)?);
            let t = format!("{} {} {} end", "7".repeat(n / 3), "xy".repeat(n / 6), "z".repeat(n / 3));
            expect(&*m, &t, 1)?;
            if m.parse(&t[..t.len() - 1]).is_some() {
                return Err("matched a shortened message".into());
            }
        }
        (_, "chain_long_rest") => {
            // a chain of parsers of every kind that all still see the long rest of the message
            let unit = "%{INT} %{SET(\"xy\")}-%{GREEDY}/";
            let mut m = mk();
            m.add_pattern(pat(&(unit.repeat(12) + "%{GREEDY:rest}!"), 1)?);
            m.add_pattern(pat(&(unit.repeat(12) + "%{GREEDY:rest}?"), 2)?);
            let t = "7 xy-w/".repeat(12) + &"z".repeat(n);
            expect(&*m, &(t.clone() + "!"), 1)?;
            expect(&*m, &(t.clone() + "?"), 2)?;
            if m.parse(&t).is_some() {
                return Err("matched an unfinished message".into());
            }
        }
        (_, "late_failures") => {
            // many patterns with a common beginning which fail only at the very end
            let mut m = mk();
            let head = "%{INT:a} %{SET(\"xy\"):b} ".repeat(8);
            for i in 1..=n {
                m.add_pattern(pat(&format!("{}{} %{{GREEDY:c}} end", head, i), i as u32)?);
            }
            let t = "7 xy ".repeat(8);
            expect(&*m, &format!("{}{} {} end", t, n, "z".repeat(5000)), n as u32)?;
            expect(&*m, &format!("{}1 {} end", t, "z".repeat(5000)), 1)?;
            if m.parse(&format!("{}{} {} en", t, n, "z".repeat(5000))).is_some() {
                return Err("matched an unfinished message".into());
            }
        }
        ("grammar_long_text", _) => {
            let t = "%{INT:a} literal ".repeat(n / 17);
            pat(&t, 1)?;
        }
        ("grammar_unclosed", _) => {
            let _ = grammar::parser::pattern(&"%{".repeat(n));
            let _ = grammar::parser::pattern(&"%{INT".repeat(n));
            let _ = grammar::parser::pattern(&"\\%".repeat(n));
            let _ = grammar::parser::pattern(&("%{SET(\"".to_string() + &"é".repeat(n)));
        }
        _ => {
            let yaml = case.starts_with("yaml_");
            let f = if yaml { "deep.yaml" } else { "deep.json" };
            let one = |i: usize, extra: &str| format!("{{\"uuid\":\"{}\",\"pattern\":\"p{} %{{INT:x}}\"{}}}", crate::model::uuid_str(i as u32), i, extra);
            let (text, good) = match case {
                "json_nesting" => (format!("{{\"patterns\":{}", "[".repeat(n)), None),
                "json_object_nesting" => (format!("{{\"patterns\":[{{\"values\":{}", "{\"a\":".repeat(n)), None),
                "json_long_string" => (format!("{{\"patterns\":[{}]}}", one(1, &format!(",\"name\":\"{}\"", "é".repeat(n / 2)))), Some(1)),
                "json_many_patterns" => {
                    let v: Vec<String> = (1..=n).map(|i| one(i, "")).collect();
                    (format!("{{\"patterns\":[{}]}}", v.join(",")), Some(n))
                }
                "json_many_tests" => {
                    let v: Vec<String> = (1..=n).map(|i| format!("{{\"message\":\"p1 {}\",\"values\":{{\"x\":\"{}\"}}}}", i, i)).collect();
                    (format!("{{\"patterns\":[{}]}}", one(1, &format!(",\"test_messages\":[{}]", v.join(",")))), Some(1))
                }
                "json_blank" => (format!("{}{{\"patterns\":[{}]}}", "\n".repeat(n), one(1, "")), Some(1)),
                "yaml_flow_nesting" => (format!("patterns: {}{}", "[".repeat(n), "]".repeat(n)), None),
                "yaml_block_nesting" => ("- ".repeat(n), None),
                "yaml_alias_fanout" => {
                    // each list refers ten times to the one before
                    let mut s = String::from("a0: &a0 [x,x,x,x,x,x,x,x,x,x]\n");
                    for i in 1..n {
                        s += &format!("a{}: &a{} [{}]\n", i, i, vec![format!("*a{}", i - 1); 10].join(","));
                    }
                    s += &format!("patterns: *a{}\n", n.max(1) - 1);
                    (s, None)
                }
                "yaml_long_string" => (format!("patterns:\n  - uuid: {}\n    pattern: \"p1 %{{INT:x}}\"\n    name: \"{}\"\n", crate::model::uuid_str(1), "é".repeat(n / 2)), Some(1)),
                "yaml_many_patterns" => {
                    let v: Vec<String> = (1..=n).map(|i| format!("  - uuid: {}\n    pattern: \"p{} %{{INT:x}}\"\n", crate::model::uuid_str(i as u32), i)).collect();
                    (format!("patterns:\n{}", v.concat()), Some(n))
                }
                "yaml_comment" => (format!("{}patterns:\n  - uuid: {}\n    pattern: \"p1 %{{INT:x}}\"\n", "# comment\n".repeat(n / 10), crate::model::uuid_str(1)), Some(1)),
                _ => return Err(format!("unknown case {}", case)),
            };
            std::fs::write(f, &text).map_err(|e| e.to_string())?;
            let r = PatternLoader::load_file(f);
            match (good, r) {
                (Some(k), Ok(pf)) => {
                    if pf.patterns().len() != k {
                        return Err(format!("{} of {} patterns loaded", pf.patterns().len(), k));
                    }
                    let m = PatternLoader::from_file::<TrieMatcherFactory>(f).map_err(|e| format!("{}", e))?;
                    expect(&m, "p1 17", 1)?;
                    expect(&m, &format!("p{} 17", k), k as u32)?;
                }
                (Some(_), Err(e)) => return Err(format!("refused: {}", e)),
                (None, Ok(_)) => return Err("nonsense was accepted".into()),
                (None, Err(_)) => {}
            }
        }
    }
    Ok(format!("{} {} ok", case, n))
}

/// Entry point of the child process: exit 0 fine, 3 wrong outcome; anything else is a crash.
pub fn child(case: &str, n: usize) -> i32 {
    // exactly 8 MB of stack and 1.5 GB of memory, whatever the environment's limits are
    let case = case.to_string();
    let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
        let r = run_case(&case, n);
        match r {
            Ok(s) => {
                println!("{}", s);
                0
            }
            Err(e) => {
                println!("{} {}: {}", case, n, e);
                3
            }
        }
    });
    match h.unwrap().join() {
        Ok(c) => c,
        Err(_) => 4,
    }
}

/// the sizes tried in one check: the limit of every case and seeded ones below it
pub fn sizes(seed: u64, rounds: usize) -> Vec<(&'static str, usize)> {
    let mut r = Rng::new(seed ^ 0xdee9);
    let mut v = Vec::new();
    for (c, hi, lo) in CASES {
        v.push((*c, *hi));
        for _ in 0..rounds {
            v.push((*c, r.range(*lo, *hi)));
        }
    }
    v
}

