//! Text workloads shared by the parsing properties.
use crate::ctx::{Ctx, Outcome};
use crate::gen::*;
use crate::model;
use crate::refparse::{self, Verdict};
use crate::rng::mix;

pub type Oracle = fn(&mut Ctx, &str) -> Outcome;

pub fn corpus(ctx: &Ctx) -> Vec<(String, String)> {
    let mut v = vec![];
    let mut dirs = vec![std::path::PathBuf::from(format!("{}/corpus", ctx.verif))];
    while let Some(d) = dirs.pop() {
        for e in std::fs::read_dir(&d).expect("corpus dir") {
            let p = e.unwrap().path();
            if p.is_dir() {
                dirs.push(p);
            } else if let Ok(b) = std::fs::read(&p) {
                if let Ok(s) = String::from_utf8(b) {
                    if s.len() <= 40_000 {
                        v.push((p.file_name().unwrap().to_string_lossy().to_string(), s));
                    }
                }
            }
        }
    }
    v.sort();
    assert!(v.len() > 100, "harness: corpus missing");
    v
}

/// A constructed document; checks the reference parser against the
/// construction (a disagreement is a harness fault, never a violation).
pub fn constructed(seed: u64) -> (String, model::MDoc) {
    let mut r = crate::rng::Rng::new(seed);
    let st = Style::random(&mut r);
    let (t, d) = Gen::document(&mut r, st);
    match refparse::parse_document(&t) {
        Verdict::Accept(rd, info) => {
            if let Some(x) = model::diff(&model::from_ref(&rd), &d, model::EXACT) {
                panic!("HARNESS: reference disagrees with construction (seed {seed}): {x}\n{t:?}");
            }
            let _ = info;
        }
        Verdict::Reject(p, why, _) => panic!("HARNESS: reference rejects constructed document (seed {seed}) at {p}: {why}\n{t:?}"),
    }
    (t, d)
}

#[derive(Clone, Copy)]
pub struct Mix {
    pub corpus: bool,
    pub generated: (u64, u64),
    /// one construct of unusual size
    pub large: (u64, u64),
    pub mutated: (u64, u64),
    pub tokens: (u64, u64),
    pub strings: (u64, u64),
    pub numbers: (u64, u64),
    /// exhaustive token sequences up to this length (quick, thorough)
    pub exhaustive: (usize, usize),
    /// every code point in each of the positions (quick uses a sampled set)
    pub codepoints: bool,
}

pub const MIX: Mix = Mix {
    corpus: true,
    generated: (60_000, 1_500_000),
    large: (800, 12_000),
    mutated: (60_000, 2_000_000),
    tokens: (60_000, 1_500_000),
    strings: (60_000, 1_500_000),
    numbers: (40_000, 800_000),
    exhaustive: (3, 4),
    codepoints: true,
};

/// Positions for the code-point sweep; `@` is replaced by the character.
pub const CP_POS: [&str; 22] = [
    "@", "a@", "@a", "a@b c", "a @", "a \"@\"", "a #\"@\"#", "a \"\"\"\n@\n\"\"\"", "a \"\"\"\n@x\n@\"\"\"", "a \\@b",
    "a\\@b", "a \"\\@\"", "a @b", "a 1@", "/*@*/a", "a//@", "(@)a", "a (t)@1", "a {@}", "a @=@ 1", "a #\"\"\"\n@\n\"\"\"#", "a#@",
];

pub fn cp_set(ctx: &mut Ctx) -> Vec<char> {
    let mut v: Vec<char> = vec![];
    if ctx.thorough {
        for u in 0..0x110000u32 {
            if let Some(c) = char::from_u32(u) {
                v.push(c);
            }
        }
    } else {
        for u in 0..0x3100u32 {
            if let Some(c) = char::from_u32(u) {
                v.push(c);
            }
        }
        for u in [0xD7FF, 0xE000, 0xF8FF, 0xFDD0, 0xFE00, 0xFE0F, 0xFEFE, 0xFEFF, 0xFF00, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1F600, 0xE0001, 0x10FFFE, 0x10FFFF] {
            if let Some(c) = char::from_u32(u) {
                v.push(c);
            }
        }
        let mut r = crate::rng::Rng::new(ctx.seed);
        for _ in 0..1500 {
            if let Some(c) = char::from_u32(0x3100 + r.below(0x110000 - 0x3100) as u32) {
                v.push(c);
            }
        }
    }
    v
}

pub fn drive(ctx: &mut Ctx, m: Mix, f: Oracle) {
    let corp = corpus(ctx);
    if m.corpus {
        for (i, (_, t)) in corp.iter().enumerate() {
            if ctx.mine(i) {
                ctx.text("corpus", t, f);
            }
        }
    }
    // exhaustive short token sequences, in two contexts
    let k = if ctx.thorough { m.exhaustive.1 } else { m.exhaustive.0 };
    if k > 0 {
        let ncore = CORE_TOKENS;
        let mut idx = 0usize;
        for len in 1..=k {
            let alpha = if len <= 2 { TOKENS.len() } else { ncore };
            let total = (alpha as u64).pow(len as u32);
            for code in 0..total {
                idx += 1;
                if !ctx.mine(idx) {
                    continue;
                }
                if ctx.stop() {
                    return;
                }
                let mut c = code;
                let mut s = String::new();
                for _ in 0..len {
                    s.push_str(TOKENS[(c % alpha as u64) as usize]);
                    c /= alpha as u64;
                }
                ctx.text("exhaustive-tokens", &s, f);
                let s2 = format!("n {s}");
                ctx.text("exhaustive-tokens-in-node", &s2, f);
            }
        }
    }
    if m.codepoints {
        let cps = cp_set(ctx);
        let mut idx = 0usize;
        for c in cps {
            for p in CP_POS {
                idx += 1;
                if !ctx.mine(idx / 64) {
                    continue;
                }
                if ctx.stop() {
                    return;
                }
                let s = p.replace('@', c.encode_utf8(&mut [0; 4]));
                ctx.text("codepoint-sweep", &s, f);
            }
        }
    }
    let mut r = ctx.rng("generated");
    for _ in 0..ctx.n(m.generated.0, m.generated.1) {
        if ctx.stop() {
            return;
        }
        let (t, _) = constructed(r.next());
        ctx.text("generated", &t, f);
    }
    let mut r = ctx.rng("large");
    for _ in 0..ctx.n(m.large.0, m.large.1) {
        if ctx.stop() {
            return;
        }
        let t = crate::gen::large(&mut r);
        ctx.text("large", &t, f);
    }
    let mut r = ctx.rng("mutated");
    for _ in 0..ctx.n(m.mutated.0, m.mutated.1) {
        if ctx.stop() {
            return;
        }
        let base = if r.p(1, 2) {
            let b = &corp[r.below(corp.len())].1;
            if b.len() > 3000 { constructed(mix(r.next(), 1)).0 } else { b.clone() }
        } else {
            constructed(mix(r.next(), 2)).0
        };
        let other = &corp[r.below(corp.len())].1;
        let other: String = other.chars().take(400).collect();
        let t = mutate(&mut r, &base, &other);
        ctx.text("mutated", &t, f);
    }
    let mut r = ctx.rng("tokens");
    for _ in 0..ctx.n(m.tokens.0, m.tokens.1) {
        if ctx.stop() {
            return;
        }
        let n = r.range(3, 12);
        let mut t = token_soup(&mut r, n);
        if r.p(1, 2) {
            t.insert_str(0, "n ");
        }
        ctx.text("token-soup", &t, f);
    }
    let mut r = ctx.rng("strings");
    for _ in 0..ctx.n(m.strings.0, m.strings.1) {
        if ctx.stop() {
            return;
        }
        let t = string_soup(&mut r);
        ctx.text("string-soup", &t, f);
    }
    let mut r = ctx.rng("numbers");
    for _ in 0..ctx.n(m.numbers.0, m.numbers.1) {
        if ctx.stop() {
            return;
        }
        let t = number_soup(&mut r);
        ctx.text("number-soup", &t, f);
    }
}
