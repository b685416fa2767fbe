//! C15 auto-formatting, C16 clearing formats, C17 equality, hashing, ordering, cloning.
use super::edit::{build_doc, build_entry, says, seed_replay, seeds};
use super::text::clip;
use super::{text_replay, Prop};
use crate::ctx::{Ctx, Outcome};
use crate::gen::*;
use crate::model::{self, EXACT};
use crate::refparse::{self, Info, RDoc, Verdict};
use crate::rng::{hash_bytes, mix, Rng};
use crate::work::{drive, Mix, MIX};
use crate::{bail, tri};
use kdl::{FormatConfig, KdlDocument, KdlEntry, KdlIdentifier, KdlNode, KdlValue};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

// ---------------------------------------------------------------- C15

#[derive(Debug, PartialEq, Clone)]
enum Tok {
    Node(String),
    Open,
    Close,
    Comment(String),
}

/// Is the comment at `at` on the line of a line continuation, after its backslash?
fn continued(t: &str, at: usize, info: &Info) -> bool {
    let mut i = at;
    loop {
        if let Some(c) = info.comments.iter().find(|c| c.1 == i && t[c.0..].starts_with("/*")) {
            i = c.0;
            continue;
        }
        match t[..i].chars().next_back() {
            Some(c) if refparse::is_space(c) => i -= c.len_utf8(),
            Some('\\') => return true,
            _ => return false,
        }
    }
}

fn places(d: &RDoc, out: &mut Vec<(usize, Tok)>, header: &mut Vec<(usize, usize)>) {
    for n in &d.nodes {
        out.push((n.core.0, Tok::Node(n.name.value.clone())));
        match (&n.children, n.block) {
            (Some(c), Some(b)) => {
                header.push((n.core.0, b.0));
                out.push((b.0, Tok::Open));
                places(c, out, header);
                out.push((b.1 - 1, Tok::Close));
            }
            _ => header.push(n.core),
        }
    }
}

/// Nodes, block ends and the comments that belong between or behind nodes, in
/// order; comments inside a node's own line (before its end) are left out.
fn sequence(t: &str, d: &RDoc, info: &Info) -> (Vec<Tok>, u64) {
    let mut v = vec![];
    let mut header = vec![];
    places(d, &mut v, &mut header);
    let mut n = 0;
    let outer = |p: usize| !info.slashed.iter().any(|s| s.0 < p && p < s.1);
    let mut add = |a: usize, b: usize| {
        if outer(a) && !header.iter().any(|h| h.0 <= a && a < h.1) && !continued(t, a, info) {
            let x = &t[a..b];
            // how a line comment ends doesn't matter
            let x = if x.starts_with("//") { x.trim_end() } else { x };
            v.push((a, Tok::Comment(x.to_string())));
            n += 1;
        }
    };
    for c in &info.comments {
        if !info.slashed.iter().any(|s| s.0 == c.0) {
            add(c.0, c.1);
        }
    }
    for s in &info.slashed {
        add(s.0, s.1);
    }
    v.sort_by_key(|x| x.0);
    (v.into_iter().map(|x| x.1).collect(), n)
}

fn blank_free(t: &str) -> String {
    t.split('\n').filter(|l| !l.trim_matches(|c| c == ' ' || c == '\t').is_empty()).collect::<Vec<_>>().join("\n")
}

/// The layout of a document without comments.
fn canon(d: &KdlDocument, level: usize, indent: &str, out: &mut String) {
    for n in d.nodes() {
        let pre = indent.repeat(level);
        out.push_str(&pre);
        if let Some(t) = n.ty() {
            out.push_str(&format!("({})", KdlIdentifier::from(t.value())));
        }
        out.push_str(&KdlIdentifier::from(n.name().value()).to_string());
        for e in n.entries() {
            out.push(' ');
            if let Some(k) = e.name() {
                out.push_str(&format!("{}=", KdlIdentifier::from(k.value())));
            }
            if let Some(t) = e.ty() {
                out.push_str(&format!("({t})"));
            }
            out.push_str(&e.value().to_string());
        }
        if let Some(c) = n.children() {
            out.push_str(" {\n");
            canon(c, level + 1, indent, out);
            out.push_str(&pre);
            out.push('}');
        }
        out.push('\n');
    }
}

fn line_start(t: &str, at: usize) -> usize {
    t[..at].char_indices().rev().find(|(_, c)| refparse::is_newline_char(*c)).map_or(0, |(i, c)| i + c.len_utf8())
}

fn indents(t: &str, d: &RDoc, level: usize, indent: &str) -> Option<String> {
    let pre = indent.repeat(level);
    for n in &d.nodes {
        let start = line_start(t, n.core.0);
        if t[start..n.core.0] != pre {
            return Some(format!("node {:?} is indented by {:?} instead of {pre:?}", n.name.value, &t[start..n.core.0]));
        }
        if let (Some(c), Some(b)) = (&n.children, n.block) {
            let e = b.1 - 1;
            let start = line_start(t, e);
            if t[start..e] != pre {
                return Some(format!("the block of {:?} closes after {:?} instead of {pre:?}", n.name.value, &t[start..e]));
            }
            if let Some(x) = indents(t, c, level + 1, indent) {
                return Some(x);
            }
        }
    }
    None
}

const CONFIGS: [(&str, usize, bool); 5] = [("    ", 0, false), ("\t", 2, false), ("", 0, true), (" ", 1, true), ("  ", 0, false)];

pub fn autoformat(ctx: &mut Ctx, t: &str) -> Outcome {
    let Verdict::Accept(rd, info) = refparse::parse_document(t) else { return Outcome::Skip("not accepted") };
    if !info.gray.is_empty() {
        return Outcome::Skip("grammar leaves it open");
    }
    let Ok(d0) = tri!(KdlDocument::parse_v2(t), "parse") else { return Outcome::Skip("not accepted by both") };
    let want = model::doc(&d0);
    if model::diff(&want, &model::from_ref(&rd), EXACT).is_some() {
        return Outcome::Skip("parsed differently");
    }
    let (seq0, ncomments) = sequence(t, &rd, &info);
    let comment_free = info.comments.is_empty() && info.slashed.is_empty();
    let h = hash_bytes(t.as_bytes()) as usize;
    for k in 0..2 {
        let (indent, level, bare) = CONFIGS[(h + k * 2) % CONFIGS.len()];
        let config = FormatConfig::builder().indent(indent).indent_level(level).no_comments(bare).build();
        let how = format!("indent={indent:?} level={level} no_comments={bare}");
        let mut d = d0.clone();
        match (indent, level, bare) {
            ("    ", 0, false) => tri!(d.autoformat(), "autoformat"),
            ("    ", 0, true) => tri!(d.autoformat_no_comments(), "autoformat_no_comments"),
            _ => tri!(d.autoformat_config(&config), "autoformat_config"),
        }
        if let Some(x) = model::diff(&model::doc(&d), &want, EXACT) {
            bail!("content-in-memory", "autoformat ({how}) changed the content: {x}");
        }
        let s = tri!(d.to_string(), "printing");
        if let Err((k, e)) = says(&s, &want) {
            bail!(k, "after autoformat ({how}): {e}");
        }
        // again, in memory and from text
        tri!(d.autoformat_config(&config), "autoformat");
        let s2 = tri!(d.to_string(), "printing");
        if s2 != s {
            bail!("not-idempotent", "autoformat ({how}) twice gives {:?}, once {:?}", clip(&s2), clip(&s));
        }
        if let Ok(mut d) = tri!(KdlDocument::parse_v2(&s), "parse") {
            tri!(d.autoformat_config(&config), "autoformat");
            let s2 = tri!(d.to_string(), "printing");
            if s2 != s {
                bail!("not-stable", "autoformat ({how}) of its own result gives {:?} for {:?}", clip(&s2), clip(&s));
            }
        }
        let Verdict::Accept(rd2, info2) = refparse::parse_document(&s) else { return Outcome::Skip("not judged by the reference") };
        if let Some(x) = indents(&s, &rd2, level, indent) {
            bail!("layout", "after autoformat ({how}) {x}: {:?}", clip(&s));
        }
        let all = info2.comments.len() + info2.slashed.len();
        if bare && all > 0 {
            bail!("comments-left", "autoformat ({how}) left comments in {:?}", clip(&s));
        }
        if !bare {
            let (seq, _) = sequence(&s, &rd2, &info2);
            if seq != seq0 {
                bail!("comments", "autoformat ({how}) of {:?}: nodes and comments were {seq0:?} and are {seq:?} in {:?}", clip(t), clip(&s));
            }
            ctx.add("comments_followed", ncomments);
        }
        if bare || comment_free {
            let mut c = String::new();
            canon(&d, level, indent, &mut c);
            if blank_free(&c) != blank_free(&s) {
                bail!("layout", "autoformat ({how}) gives {:?} instead of {:?}", clip(&s), clip(&c));
            }
            ctx.count("layouts_compared");
        }
        ctx.count("formatted");
    }
    // a document of which some parts never had formatting of their own
    {
        let mut r = Rng::new(h as u64);
        let (indent, level, _) = CONFIGS[h % CONFIGS.len()];
        let config = FormatConfig::builder().indent(indent).indent_level(level).no_comments(true).build();
        let how = format!("partly formatted document, indent={indent:?} level={level} no_comments");
        let mut d = half_formatted(&mut r, &d0);
        tri!(d.autoformat_config(&config), "autoformat_config");
        let mut whole = d0.clone();
        tri!(whole.autoformat_config(&config), "autoformat_config");
        let (s, w) = (tri!(d.to_string(), "printing"), tri!(whole.to_string(), "printing"));
        if let Err((k, e)) = says(&s, &want) {
            bail!(k, "after autoformat ({how}): {e}");
        }
        if blank_free(&s) != blank_free(&w) {
            bail!("layout", "autoformat ({how}) gives {:?} instead of {:?}", clip(&s), clip(&w));
        }
        tri!(d.autoformat_config(&config), "autoformat_config");
        let s2 = tri!(d.to_string(), "printing");
        if s2 != s {
            bail!("not-idempotent", "autoformat ({how}) twice gives {:?}, once {:?}", clip(&s2), clip(&s));
        }
        ctx.count("partly_formatted");
    }
    // kept entries keep their spelling, however often
    let mut d = d0.clone();
    if let Some(n) = d.nodes_mut().first_mut() {
        if let Some(e) = n.entries_mut().first_mut() {
            e.keep_format();
            if let Some(repr) = e.format().map(|f| f.value_repr.clone()) {
                for round in 0..2 {
                    tri!(d.autoformat(), "autoformat");
                    let e = &d.nodes()[0].entries()[0];
                    if e.format().map(|f| f.value_repr.as_str()) != Some(&repr) {
                        bail!("kept-entry", "an entry marked to be kept as {repr:?} was reformatted to {:?} (round {round})", e.to_string());
                    }
                }
                let s = tri!(d.to_string(), "printing");
                if let Err((k, e)) = says(&s, &want) {
                    bail!(k, "after autoformat keeping an entry: {e}");
                }
                ctx.count("kept_entries");
            }
        }
    }
    // every entry kept
    {
        let (indent, level, bare) = CONFIGS[h % CONFIGS.len()];
        let mut config = FormatConfig::builder().maybe_indent(Some(indent)).maybe_indent_level(Some(level)).maybe_no_comments(Some(bare)).maybe_indent(None).maybe_indent_level(None).maybe_no_comments(None).build();
        config.entry_autoformate_keep = true;
        let how = format!("indent={indent:?} level={level} no_comments={bare} keeping entries");
        let mut d = d0.clone();
        let before = reprs(&d);
        tri!(d.autoformat_config(&config), "autoformat_config");
        if let Some(x) = model::diff(&model::doc(&d), &want, EXACT) {
            bail!("content-in-memory", "autoformat ({how}) changed the content: {x}");
        }
        if reprs(&d) != before {
            bail!("kept-entry", "autoformat ({how}) respells entries: {before:?} became {:?}", reprs(&d));
        }
        let s = tri!(d.to_string(), "printing");
        if let Err((k, e)) = says(&s, &want) {
            bail!(k, "after autoformat ({how}): {e}");
        }
        tri!(d.autoformat_config(&config), "autoformat_config");
        let s2 = tri!(d.to_string(), "printing");
        if s2 != s {
            bail!("not-idempotent", "autoformat ({how}) twice gives {:?}, once {:?}", clip(&s2), clip(&s));
        }
        ctx.add("kept_entries", before.len() as u64);
    }
    // a node on its own
    for (i, (indent, level, bare)) in [("    ", 0, false), ("    ", 0, true), CONFIGS[h % CONFIGS.len()]].into_iter().enumerate() {
        let Some(n) = d0.nodes().first() else { break };
        let how = format!("indent={indent:?} level={level} no_comments={bare}");
        let config = FormatConfig::builder().indent(indent).indent_level(level).no_comments(bare).build();
        let mut n = n.clone();
        let w = model::node(&n);
        match i {
            0 => tri!(n.autoformat(), "KdlNode::autoformat"),
            1 => tri!(n.autoformat_no_comments(), "KdlNode::autoformat_no_comments"),
            _ => tri!(n.autoformat_config(&config), "KdlNode::autoformat_config"),
        }
        if let Some(x) = model::diff_node(&model::node(&n), &w, EXACT, "node") {
            bail!("content-in-memory", "KdlNode::autoformat ({how}) changed the content: {x}");
        }
        let s = tri!(n.to_string(), "printing");
        if let Err((k, e)) = says(&s, &vec![w]) {
            bail!(k, "after KdlNode::autoformat ({how}): {e}");
        }
        if bare || comment_free {
            let mut alone = KdlDocument::new();
            alone.nodes_mut().push(n.clone());
            let mut c = String::new();
            canon(&alone, level, indent, &mut c);
            if blank_free(&c) != blank_free(&s) {
                bail!("layout", "KdlNode::autoformat ({how}) gives {:?} instead of {:?}", clip(&s), clip(&c));
            }
            ctx.count("node_layouts_compared");
        }
    }
    Outcome::Held(!want.is_empty())
}

/// How the entries' values are spelled, in order.
fn reprs(d: &KdlDocument) -> Vec<String> {
    let mut v = vec![];
    for n in d.nodes() {
        v.extend(n.entries().iter().map(|e| e.format().map_or(String::new(), |f| f.value_repr.clone())));
        v.extend(n.children().map(reprs).unwrap_or_default());
    }
    v
}

// ---------------------------------------------------------------- C16

/// The same content, with the formatting of some of its parts never set (as in
/// a document that was parsed and then edited) while names and types keep the
/// spelling they were parsed with.
fn half_formatted(r: &mut Rng, d: &KdlDocument) -> KdlDocument {
    let mut out = d.clone();
    if r.p(1, 2) {
        out = KdlDocument::new();
        *out.nodes_mut() = d.nodes().to_vec();
    }
    for n in out.nodes_mut() {
        for e in n.entries_mut() {
            if r.p(1, 3) {
                let mut new = KdlEntry::new(e.value().clone());
                if let Some(k) = e.name() {
                    new = KdlEntry::new_prop(k.clone(), e.value().clone());
                }
                if let Some(t) = e.ty() {
                    new.set_ty(t.clone());
                }
                *e = new;
            } else if r.p(1, 4) && e.name().is_none() {
                // without layout of its own, the names spelled as they were
                let t = e.ty().cloned();
                e.clear_format();
                if let Some(t) = t {
                    e.set_ty(t);
                }
            }
        }
        let kids = n.children().map(|c| half_formatted(r, c));
        if r.p(1, 3) {
            let mut new = KdlNode::new(n.name().clone());
            if let Some(t) = n.ty() {
                new.set_ty(t.clone());
            }
            *new.entries_mut() = n.entries().to_vec();
            *n = new;
        }
        if r.p(1, 4) {
            let (name, t) = (n.name().clone(), n.ty().cloned());
            n.clear_format();
            n.set_name(name);
            if let Some(t) = t {
                n.set_ty(t);
            }
        }
        if let Some(k) = kids {
            n.set_children(k);
        }
    }
    out
}

pub fn clearing(ctx: &mut Ctx, t: &str) -> Outcome {
    let Ok(d0) = tri!(KdlDocument::parse_v2(t), "parse") else { return Outcome::Skip("not accepted") };
    let want = model::doc(&d0);
    let mut r = Rng::new(hash_bytes(t.as_bytes()));
    let mut fresh = build_doc(&mut r, &want);
    tri!(fresh.clear_format_recursive(), "clear_format_recursive");
    let mut d = d0.clone();
    tri!(d.clear_format_recursive(), "clear_format_recursive");
    let (s, f) = (tri!(d.to_string(), "printing"), tri!(fresh.to_string(), "printing"));
    if let Err((k, e)) = says(&s, &want) {
        bail!(k, "after clear_format_recursive: {e}");
    }
    if s != f {
        bail!("residue", "cleared document prints {:?}, a built one {:?}", clip(&s), clip(&f));
    }
    if d != fresh {
        bail!("residue", "a cleared document differs from one built with the same content (both print {:?})", clip(&s));
    }
    let mut c = String::new();
    canon(&d, 0, "    ", &mut c);
    if c.trim_end_matches('\n') != s.trim_end_matches('\n') {
        bail!("layout", "a cleared document prints {:?} instead of {:?}", clip(&s), clip(&c));
    }
    ctx.count("layouts_compared");
    // a document of which some parts never had formatting of their own
    let mut d = half_formatted(&mut r, &d0);
    tri!(d.clear_format_recursive(), "clear_format_recursive");
    if d != fresh {
        bail!("residue", "clearing a partly formatted document leaves {:?}, a built one prints {:?}", clip(&d.to_string()), clip(&f));
    }
    ctx.count("partly_formatted_cleared");
    // one level only
    let mut d = d0.clone();
    tri!(d.clear_format(), "KdlDocument::clear_format");
    if d.nodes() != d0.nodes() {
        bail!("too-deep", "KdlDocument::clear_format changed the nodes");
    }
    if d.format().is_some() {
        bail!("residue", "KdlDocument::clear_format left formatting");
    }
    let s = tri!(d.to_string(), "printing");
    if let Err((k, e)) = says(&s, &want) {
        bail!(k, "after KdlDocument::clear_format: {e}");
    }
    let mut d = d0.clone();
    for (i, n) in d.nodes_mut().iter_mut().enumerate().take(8) {
        let before = n.clone();
        tri!(n.clear_format(), "KdlNode::clear_format");
        if n.entries() != before.entries() || n.children() != before.children() || n.name() != before.name() || n.ty() != before.ty() {
            bail!("too-deep", "KdlNode::clear_format changed an entry, child or name");
        }
        let s = tri!(n.to_string(), "printing");
        if let Err((k, e)) = says(&s, &vec![want[i].clone()]) {
            bail!(k, "after KdlNode::clear_format: {e}");
        }
        ctx.count("nodes_cleared");
        for (e, me) in n.entries_mut().iter_mut().zip(&want[i].entries).take(8) {
            tri!(e.clear_format(), "KdlEntry::clear_format");
            let b = build_entry(&mut r, me);
            if *e != b || e.to_string() != b.to_string() {
                bail!("residue", "a cleared entry prints {:?}, a built one {:?}", e.to_string(), b.to_string());
            }
            ctx.count("entries_cleared");
        }
        match i % 2 {
            0 => tri!(n.name_mut().clear_format(), "KdlIdentifier::clear_format"),
            _ => tri!(n.name_mut().autoformat(), "KdlIdentifier::autoformat"),
        }
        if *n.name() != KdlIdentifier::from(want[i].name.as_str()) {
            bail!("residue", "a cleared name is {:?}", n.name().to_string());
        }
        let s = tri!(n.to_string(), "printing");
        if let Err((k, e)) = says(&s, &vec![want[i].clone()]) {
            bail!(k, "after clearing entries and name: {e}");
        }
    }
    let s = tri!(d.to_string(), "printing");
    if let Err((k, e)) = says(&s, &want) {
        bail!(k, "after clearing piece by piece: {e}");
    }
    Outcome::Held(!want.is_empty() && t.len() > 3)
}

// ---------------------------------------------------------------- C17

fn hash_of<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn pool_value(r: &mut Rng) -> KdlValue {
    const F: [f64; 16] = [
        0.0, -0.0, 1.0, -1.0, 0.5, f64::MAX, -f64::MAX, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MIN_POSITIVE, 5e-324, 1e16, 1.0000000000000002, 9007199254740993.0, -0.5,
    ];
    match r.below(6) {
        0 => KdlValue::Null,
        1 => KdlValue::Bool(r.p(1, 2)),
        2 => KdlValue::Integer(*r.pick(&[0, 1, -1, i128::MAX, i128::MIN, 42, 1 << 64])),
        3 => KdlValue::String(r.pick(&["", "a", "b", "true", "1", "é", "aa"]).to_string()),
        4 => {
            let f = *r.pick(&F);
            KdlValue::Float(if f.is_nan() && r.p(1, 2) { f64::from_bits(f.to_bits() ^ (1 << 63) ^ 5) } else { f })
        }
        _ => model::to_kdl(&rand_val(r, 20)),
    }
}

macro_rules! laws {
    ($ctx:expr, $what:expr, $xs:expr) => {
        for a in $xs.iter() {
            if a != a {
                bail!("reflexive", "{} {a:?} differs from itself", $what);
            }
            let c = a.clone();
            if &c != a || hash_of(&c) != hash_of(a) {
                bail!("clone", "a clone of {} {a:?} differs from it", $what);
            }
            for b in $xs.iter() {
                $ctx.count("pairs");
                let e = a == b;
                if e != (b == a) {
                    bail!("symmetric", "{} {a:?} and {b:?}", $what);
                }
                if e {
                    $ctx.count("equal_pairs");
                    if hash_of(a) != hash_of(b) {
                        bail!("hash", "{} {a:?} equals {b:?} but hashes differently", $what);
                    }
                }
                if (a != b) == e {
                    bail!("symmetric", "{} {a:?}: == and != agree on {b:?}", $what);
                }
                for c in $xs.iter() {
                    if e && b == c && a != c {
                        bail!("transitive", "{} {a:?} {b:?} {c:?}", $what);
                    }
                }
            }
        }
    };
}

pub fn contracts(ctx: &mut Ctx, seed: u64) -> Outcome {
    let mut r = Rng::new(mix(seed, 17));
    let n = r.range(3, 6);
    let vals: Vec<KdlValue> = (0..n).map(|_| pool_value(&mut r)).collect();
    laws!(ctx, "value", vals);
    for a in &vals {
        for b in &vals {
            let (o, p) = (a.partial_cmp(b), b.partial_cmp(a));
            if o.map(|x| x.reverse()) != p {
                bail!("order", "{a:?} against {b:?} is {o:?}, the other way {p:?}");
            }
            if (o == Some(std::cmp::Ordering::Equal)) != (a == b) {
                bail!("order", "{a:?} == {b:?} is {} but they compare as {o:?}", a == b);
            }
            let natural = match (a, b) {
                (KdlValue::Integer(x), KdlValue::Integer(y)) => Some(x.cmp(y)),
                (KdlValue::Float(x), KdlValue::Float(y)) => x.partial_cmp(y),
                (KdlValue::String(x), KdlValue::String(y)) => Some(x.cmp(y)),
                (KdlValue::Bool(x), KdlValue::Bool(y)) => Some(x.cmp(y)),
                _ => None,
            };
            // (infinities may count as the largest finite numbers)
            if natural.is_some() && natural != o && o != Some(std::cmp::Ordering::Equal) {
                bail!("order", "{a:?} against {b:?} is {o:?}");
            }
            for c in &vals {
                if a < b && b < c && !(a < c) {
                    bail!("order", "{a:?} < {b:?} < {c:?}, but not the first before the last");
                }
            }
        }
    }
    // entries, nodes and documents of few shapes, parsed at different offsets
    let shapes = ["a 1", "a 1.0", "a  1", "a #nan", "a #inf", "(t)a 1", "a \"1\"", "a x=1", "a x=1.0", "\"a\" 1", "a {b 1}", "a { b 1}", "a 0.0", "a -0.0", "a 0x1", "b"];
    let mut text = String::new();
    for _ in 0..r.range(2, 6) {
        let sh = if r.p(1, 6) { super::edit::small_doc(&mut r, 1).replace(['\n', '\r'], ";") } else { r.pick(&shapes).to_string() };
        text.push_str(&sh);
        text.push('\n');
    }
    let Ok(d) = tri!(KdlDocument::parse_v2(&text), "parse") else { return Outcome::Skip("not accepted") };
    let mut nodes: Vec<KdlNode> = d.nodes().to_vec();
    nodes.truncate(8);
    laws!(ctx, "node", nodes);
    let mut entries: Vec<KdlEntry> = d.nodes().iter().flat_map(|n| n.entries().to_vec()).collect();
    entries.truncate(8);
    laws!(ctx, "entry", entries);
    let idents: Vec<KdlIdentifier> = d.nodes().iter().take(6).map(|n| n.name().clone()).collect();
    laws!(ctx, "identifier", idents);
    // what is equal prints the same; what was printed the same is equal
    for a in &nodes {
        for b in &nodes {
            let same = a.to_string() == b.to_string();
            if (a == b) != same {
                bail!("equal-means-same-text", "parsed nodes {:?} and {:?}: == is {}", a.to_string(), b.to_string(), a == b);
            }
        }
    }
    // spans don't take part
    let Ok(again) = tri!(KdlDocument::parse_v2(&text), "parse") else { bail!("again", "second parse fails") };
    if again != d || hash_of(&again) != hash_of(&d) {
        bail!("again", "parsing {text:?} twice gives different documents");
    }
    let mut moved = d.clone();
    moved.set_span((7, 3));
    for x in moved.nodes_mut() {
        x.set_span((1, 2));
        x.name_mut().set_span((9, 9));
        for e in x.entries_mut() {
            e.set_span((4, 4));
        }
    }
    if moved != d || hash_of(&moved) != hash_of(&d) {
        bail!("spans", "spans take part in comparing {text:?}");
    }
    // a clone is independent
    let before = d.to_string();
    let mut c = d.clone();
    for x in c.nodes_mut() {
        x.set_name("changed");
        x.entries_mut().clear();
        if let Some(k) = x.children_mut() {
            k.nodes_mut().clear();
        }
        if let Some(f) = x.format_mut() {
            f.leading = "   ".into();
        }
    }
    c.nodes_mut().push(KdlNode::new("more"));
    if d.to_string() != before || c == d {
        bail!("clone", "changing a clone of {before:?} shows in the original");
    }
    Outcome::Held(true)
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C15",
            rule: "non-trivial: accepted document with at least one node, auto-formatted under two configurations and judged for content, comments, layout and stability",
            run: |c| drive(c, Mix { large: (160, 3_000), generated: (60_000, 1_500_000), mutated: (40_000, 1_000_000), tokens: (30_000, 500_000), strings: (10_000, 200_000), numbers: (5_000, 100_000), codepoints: false, ..MIX }, autoformat),
            replay: |c, _, d| text_replay(c, d, autoformat),
        },
        Prop {
            id: "C16",
            rule: "non-trivial: accepted document with at least one node whose cleared form was compared with one built from the same content",
            run: |c| drive(c, Mix { generated: (80_000, 2_000_000), mutated: (40_000, 1_000_000), tokens: (30_000, 500_000), strings: (20_000, 400_000), numbers: (20_000, 200_000), codepoints: false, ..MIX }, clearing),
            replay: |c, _, d| text_replay(c, d, clearing),
        },
        Prop {
            id: "C17",
            rule: "every case compares all pairs and triples of a pool of values, and of entries, nodes and documents parsed at different offsets",
            run: |c| seeds(c, "contracts", (100_000, 3_000_000), contracts),
            replay: |c, _, d| seed_replay(c, d, contracts),
        },
    ]
}
