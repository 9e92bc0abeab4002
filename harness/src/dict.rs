//! A fuzzing dictionary: the literals written in the code under test. They only feed the generators;
//! what is judged is always behaviour. A replay file stores values, so it does not depend on this.
use proptest::prelude::*;
use std::collections::BTreeSet;
use std::path::Path;
use std::sync::OnceLock;

#[derive(Default)]
struct Dict {
    nums: Vec<u128>,
    words: Vec<String>,
}

fn scan(text: &str, nums: &mut BTreeSet<u128>, words: &mut BTreeSet<String>) {
    let b: Vec<char> = text.chars().collect();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c == '/' && b.get(i + 1) == Some(&'/') {
            while i < b.len() && b[i] != '\n' {
                i += 1;
            }
        } else if c == '"' {
            let mut s = String::new();
            i += 1;
            while i < b.len() && b[i] != '"' {
                if b[i] == '\\' {
                    i += 1;
                }
                if i < b.len() {
                    s.push(b[i]);
                }
                i += 1;
            }
            i += 1;
            if (1..=60).contains(&s.len()) {
                words.insert(s);
            }
        } else if c.is_ascii_digit() && (i == 0 || !(b[i - 1].is_alphanumeric() || b[i - 1] == '_')) {
            let mut s = String::new();
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == '_') {
                if b[i] != '_' {
                    s.push(b[i]);
                }
                i += 1;
            }
            for suf in ["u128", "u64", "u32", "u16", "u8", "usize", "i128", "i64", "i32", "i8"] {
                if let Some(t) = s.strip_suffix(suf) {
                    s = t.to_string();
                    break;
                }
            }
            let v = if let Some(h) = s.strip_prefix("0x") { u128::from_str_radix(h, 16).ok() } else { s.parse().ok() };
            if let Some(v) = v {
                nums.insert(v);
                let back: String = b[i.saturating_sub(s.len() + 12)..i].iter().collect();
                if v <= 38 && back.contains("pow") {
                    nums.insert(10u128.pow(v as u32));
                }
                if v < 128 && back.contains("<<") {
                    nums.insert(1u128 << v);
                }
            }
        } else {
            i += 1;
        }
    }
}

fn walk(p: &Path, nums: &mut BTreeSet<u128>, words: &mut BTreeSet<String>) {
    let Ok(rd) = std::fs::read_dir(p) else { return };
    for e in rd.flatten() {
        let path = e.path();
        let name = e.file_name().to_string_lossy().to_string();
        if path.is_dir() {
            if !["target", "tests", "examples", "schema", "artifacts", ".git"].contains(&name.as_str()) {
                walk(&path, nums, words);
            }
        } else if name.ends_with(".rs") && !name.contains("test") && !name.contains("mock") {
            if let Ok(t) = std::fs::read_to_string(&path) {
                scan(&t, nums, words);
            }
        }
    }
}

fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let (mut n, mut w) = (BTreeSet::new(), BTreeSet::new());
        for d in ["contracts", "packages"] {
            walk(&Path::new("/repo").join(d), &mut n, &mut w);
        }
        n.insert(1);
        w.insert("uusd".into());
        Dict { nums: n.into_iter().collect(), words: w.into_iter().collect() }
    })
}

/// a literal, its neighbours, or a small multiple, below 2^hi
pub fn num(hi: u32) -> BoxedStrategy<u128> {
    let l: Vec<u128> = dict().nums.iter().copied().filter(|v| 128 - v.leading_zeros() <= hi).collect();
    let l = if l.is_empty() { vec![1] } else { l };
    (prop::sample::select(l), -1i8..=1, prop_oneof![4 => Just(1u128), 1 => 2u128..10, 1 => Just(1_000_000u128)])
        .prop_map(move |(v, d, k)| {
            let v = v.checked_mul(k).filter(|w| 128 - w.leading_zeros() <= hi).unwrap_or(v);
            if d < 0 {
                v.saturating_sub(1)
            } else if hi < 128 && v + d as u128 >= 1u128 << hi {
                v
            } else {
                v.saturating_add(d as u128)
            }
        })
        .boxed()
}

/// literals usable as the denomination of a native coin
pub fn denom() -> BoxedStrategy<String> {
    let l: Vec<String> = dict()
        .words
        .iter()
        .filter(|w| {
            (3..=40).contains(&w.len())
                && w.chars().next().is_some_and(|c| c.is_ascii_alphabetic())
                && w.chars().all(|c| c.is_ascii_alphanumeric() || "/:._-".contains(c))
        })
        .cloned()
        .collect();
    let l = if l.is_empty() { vec!["uusd".to_string()] } else { l };
    prop_oneof![
        4 => prop::sample::select(l.clone()),
        1 => prop::sample::select(l.clone()).prop_map(|w| format!("{}x", w)),
        1 => prop::sample::select(l).prop_map(|w| format!("u{}", w)),
    ]
    .boxed()
}

/// any literal text
pub fn word() -> BoxedStrategy<String> {
    prop::sample::select(dict().words.clone()).boxed()
}

/// a literal that looks like a field name
pub fn ident() -> BoxedStrategy<String> {
    let l: Vec<String> = dict()
        .words
        .iter()
        .filter(|w| w.len() <= 32 && w.chars().all(|c| c.is_ascii_alphanumeric() || c == '_'))
        .cloned()
        .collect();
    prop::sample::select(if l.is_empty() { vec!["uusd".to_string()] } else { l }).boxed()
}
