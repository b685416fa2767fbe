//! C18 KDL v1 to v2, C19 KDL v2 to v1, C20 the v1 fallback.
use super::edit::says;
use super::text::clip;
use super::{text_replay, Prop};
use crate::ctx::{sut, Ctx, Data, Outcome};
use crate::rng::Rng;
use crate::gen::*;
use crate::model::{self, MDoc, MEntry, MNode, EXACT};
use crate::refparse::{self, Val, Verdict};
use crate::work::{drive, Mix, MIX};
use crate::{bail, genv1, tri};
use kdl::{KdlDocument, KdlEntry, KdlIdentifier, KdlNode};

fn v1val(v: &kdlv1::KdlValue) -> Val {
    use kdlv1::KdlValue::*;
    match v {
        RawString(s) | String(s) => Val::Str(s.clone()),
        Base2(i) | Base8(i) | Base10(i) | Base16(i) => Val::Int(*i as i128),
        Base10Float(f) => Val::Float(*f),
        Bool(b) => Val::Bool(*b),
        Null => Val::Null,
    }
}
fn v1entry(e: &kdlv1::KdlEntry) -> MEntry {
    MEntry { ty: e.ty().map(|t| t.value().into()), name: e.name().map(|t| t.value().into()), value: v1val(e.value()) }
}
fn v1node(n: &kdlv1::KdlNode) -> MNode {
    MNode {
        ty: n.ty().map(|t| t.value().into()),
        name: n.name().value().into(),
        entries: n.entries().iter().map(v1entry).collect(),
        children: n.children().map(v1doc),
    }
}
fn v1doc(d: &kdlv1::KdlDocument) -> MDoc {
    d.nodes().iter().map(v1node).collect()
}

/// What the v1 parser itself says about a text; None when it panics on it.
pub fn v1_reads(t: &str) -> Option<Option<MDoc>> {
    sut(|| t.parse::<kdlv1::KdlDocument>().ok()).ok().map(|d| d.map(|d| v1doc(&d)))
}

/// The text as v1 must mean exactly this.
fn says_v1(s: &str, want: &MDoc) -> Result<(), (String, String)> {
    match v1_reads(s) {
        None => Ok(()),
        Some(None) => Err(("unparseable-v1".into(), format!("text {:?} is not KDL v1", clip(s)))),
        Some(Some(d)) => match model::diff(&d, want, EXACT) {
            Some(x) => Err(("content-v1".into(), format!("as v1, text {:?} means something else: {x}", clip(s)))),
            None => Ok(()),
        },
    }
}

/// The comments of a KDL v1 text, in order.
fn comments_v1(t: &str) -> Vec<String> {
    let c: Vec<char> = t.chars().collect();
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let mut out = vec![];
    let (mut i, mut in_word) = (0, false);
    while i < c.len() {
        let start = i;
        match c[i] {
            '/' if at(i + 1) == '/' => {
                while i < c.len() && !matches!(c[i], '\r' | '\n' | '\u{85}' | '\u{c}' | '\u{2028}' | '\u{2029}') {
                    i += 1;
                }
                out.push(plain_comment(c[start..i].iter().collect()));
                in_word = false;
            }
            '/' if at(i + 1) == '*' => {
                let mut depth = 0;
                loop {
                    match (at(i), at(i + 1)) {
                        ('/', '*') => (depth, i) = (depth + 1, i + 2),
                        ('*', '/') => (depth, i) = (depth - 1, i + 2),
                        _ => i += 1,
                    }
                    if depth == 0 || i >= c.len() {
                        break;
                    }
                }
                out.push(plain_comment(c[start..i.min(c.len())].iter().collect()));
                in_word = false;
            }
            '"' => {
                i += 1;
                while i < c.len() && c[i] != '"' {
                    i += if c[i] == '\\' { 2 } else { 1 };
                }
                i += 1;
                in_word = false;
            }
            'r' if !in_word && matches!(at(i + 1), '"' | '#') => {
                let hashes = c[i + 1..].iter().take_while(|x| **x == '#').count();
                if at(i + 1 + hashes) != '"' {
                    i += 1;
                    in_word = true;
                    continue;
                }
                i += hashes + 2;
                while i < c.len() && !(c[i] == '"' && c[i + 1..].iter().take_while(|x| **x == '#').count() >= hashes) {
                    i += 1;
                }
                i += hashes + 1;
                in_word = false;
            }
            x => {
                in_word = !(x.is_whitespace() || matches!(x, '(' | ')' | '{' | '}' | '=' | ';' | '\\' | '/' | '\u{feff}'));
                i += 1;
            }
        }
    }
    out
}
/// The comments of a KDL v2 text, in order; None when it isn't one.
fn comments_v2(t: &str) -> Option<Vec<String>> {
    match refparse::parse_document(t) {
        Verdict::Accept(_, info) => Some(info.comments.iter().map(|c| plain_comment(t[c.0..c.1].to_string())).collect()),
        _ => None,
    }
}
/// A comment without what the versions disagree about.
fn plain_comment(c: String) -> String {
    let c: String = c
        .chars()
        .map(|c| match c {
            '\u{b}' | '\u{c}' => ' ',
            '\0'..='\u{8}' | '\u{e}'..='\u{1f}' | '\u{7f}' | '\u{200e}' | '\u{200f}' | '\u{202a}'..='\u{202e}' | '\u{2066}'..='\u{2069}' | '\u{feff}' => ' ',
            _ => c,
        })
        .collect();
    if c.starts_with("//") { c.trim_end().to_string() } else { c }
}
fn same_comments(ctx: &mut Ctx, was: &[String], is: &[String], s: &str) -> Result<(), (String, String)> {
    ctx.add("comments_followed", was.len() as u64);
    if was == is {
        return Ok(());
    }
    Err(("comments".into(), format!("the comments were {was:?} and are {is:?} in {:?}", clip(s))))
}

// ---------------------------------------------------------------- C18

fn to_v2(ctx: &mut Ctx, t: &str) -> Outcome {
    let Some(reads) = v1_reads(t) else { return Outcome::Skip("the v1 parser itself panics") };
    // the other forms
    macro_rules! form {
        ($lib:ty, $v1:ty, $conv:expr, $mconv:expr, $diff:expr, $what:literal) => {
            if let Ok(want) = sut(|| t.parse::<$v1>().ok()) {
                let got = tri!(<$lib>::parse_v1(t), concat!($what, "::parse_v1"));
                match (&want, &got) {
                    (None, Ok(_)) => bail!("v1-accepts", "{}::parse_v1 accepts a text that is not KDL v1", $what),
                    (Some(_), Err(e)) => bail!("v1-rejects", "{}::parse_v1 rejects KDL v1: {:?}", $what, super::text::msgs(e)),
                    (Some(w), Ok(g)) => {
                        if let Some(x) = $diff(&$mconv(g), &$conv(w)) {
                            bail!("v1-content", "{}::parse_v1 reads something else: {x}", $what);
                        }
                        ctx.count(concat!("parsed_", $what));
                    }
                    _ => {}
                }
            }
        };
    }
    form!(KdlNode, kdlv1::KdlNode, v1node, model::node, |a: &MNode, b: &MNode| model::diff_node(a, b, EXACT, "node"), "KdlNode");
    form!(KdlEntry, kdlv1::KdlEntry, v1entry, model::entry, |a: &MEntry, b: &MEntry| model::diff_entry(a, b, EXACT, "entry"), "KdlEntry");
    form!(KdlIdentifier, kdlv1::KdlIdentifier, |w: &kdlv1::KdlIdentifier| w.value().to_string(), |g: &KdlIdentifier| g.value().to_string(), |a: &String, b: &String| (a != b).then(|| format!("{a:?} vs {b:?}")), "KdlIdentifier");
    let parsed = tri!(KdlDocument::parse_v1(t), "parse_v1");
    let want = match (reads, parsed) {
        (None, Err(e)) => {
            if e.diagnostics.is_empty() {
                bail!("no-diagnostics", "parse_v1 rejects without a diagnostic");
            }
            for d in &e.diagnostics {
                let (a, b) = (d.span.offset(), d.span.offset() + d.span.len());
                if t.get(a..b).is_none() {
                    bail!("diagnostic-span", "parse_v1 reports {a}..{b} in {} bytes", t.len());
                }
                if *d.input != t || *e.input != t {
                    bail!("diagnostic-input", "parse_v1's error carries {:?}", clip(&d.input));
                }
            }
            // what the v1 parser itself has to say
            if let Ok(Err(w)) = crate::ctx::sut(|| t.parse::<kdlv1::KdlDocument>()) {
                let d = &e.diagnostics[0];
                if (d.span.offset(), d.span.len()) != (w.span.offset(), w.span.len()) || d.to_string() != w.kind.to_string() || d.label.as_deref() != w.label || d.help.as_deref() != w.help {
                    bail!("diagnostic", "parse_v1 reports {d:?}, the v1 parser {w:?}");
                }
                ctx.count("v1_errors_compared");
            }
            if let Ok(s) = tri!(KdlDocument::v1_to_v2(t), "v1_to_v2") {
                bail!("v1-accepts", "v1_to_v2 accepts a text that is not KDL v1, giving {:?}", clip(&s));
            }
            ctx.count("rejected");
            return Outcome::Held(false);
        }
        (None, Ok(_)) => bail!("v1-accepts", "parse_v1 accepts a text that is not KDL v1"),
        (Some(_), Err(e)) => bail!("v1-rejects", "parse_v1 rejects KDL v1: {:?}", super::text::msgs(&e)),
        (Some(want), Ok(mut d)) => {
            if let Some(x) = model::diff(&model::doc(&d), &want, EXACT) {
                bail!("v1-content", "parse_v1 reads something else: {x}");
            }
            // What is slashdashed is kept the way it is written in v1, see
            // `slashdashed`.
            if t.contains("/-") {
                tri!(d.ensure_v2(), "ensure_v2");
                if let Some(x) = model::diff(&model::doc(&d), &want, EXACT) {
                    bail!("content-in-memory", "ensure_v2 changes the content: {x}");
                }
                ctx.count("with_slashdash_not_printed");
                return Outcome::Held(!want.is_empty());
            }
            tri!(d.ensure_v2(), "ensure_v2");
            if let Some(x) = model::diff(&model::doc(&d), &want, EXACT) {
                bail!("content-in-memory", "ensure_v2 changes the content: {x}");
            }
            let s = tri!(d.to_string(), "printing");
            if let Err((k, e)) = says(&s, &want) {
                bail!(k, "after parse_v1 and ensure_v2: {e}");
            }
            match tri!(KdlDocument::v1_to_v2(t), "v1_to_v2") {
                Err(e) => bail!("v1-rejects", "v1_to_v2 rejects KDL v1: {:?}", super::text::msgs(&e)),
                Ok(s2) => {
                    if let Err((k, e)) = says(&s2, &want) {
                        bail!(k, "after v1_to_v2: {e}");
                    }
                    if let Some(is) = comments_v2(&s2) {
                        if let Err((k, e)) = same_comments(ctx, &comments_v1(t), &is, &s2) {
                            bail!(k, "after v1_to_v2: {e}");
                        }
                    }
                }
            }
            tri!(d.ensure_v2(), "ensure_v2");
            let s3 = tri!(d.to_string(), "printing");
            if let Err((k, e)) = says(&s3, &want) {
                bail!(k, "after ensure_v2 twice: {e}");
            }
            ctx.add("entries_converted", model::count_entries(&want) as u64);
            want
        }
    };
    Outcome::Held(!want.is_empty())
}

/// One sample of the known limitation that what is slashdashed is not
/// converted, so that its repair is noticed.
fn slashdashed(_: &mut Ctx, t: &str) -> Outcome {
    if t != SLASHDASHED {
        return Outcome::Held(false); // the sample is not to be shrunk
    }
    let want = v1_reads(t).flatten().expect("harness: the sample is v1");
    match tri!(KdlDocument::v1_to_v2(t), "v1_to_v2") {
        Err(e) => bail!("v1-rejects", "v1_to_v2 rejects KDL v1: {:?}", super::text::msgs(&e)),
        Ok(s) => match says(&s, &want) {
            Err((k, e)) => Outcome::Viol(k, e),
            Ok(()) => Outcome::Held(true),
        },
    }
}
const SLASHDASHED: &str = "a /-true\n";

/// Documents that are v2 already stay what they are.
fn stays_v2(ctx: &mut Ctx, t: &str) -> Outcome {
    let Ok(mut d) = tri!(KdlDocument::parse_v2(t), "parse_v2") else { return Outcome::Skip("rejected") };
    let want = model::doc(&d);
    tri!(d.ensure_v2(), "ensure_v2");
    if let Some(x) = model::diff(&model::doc(&d), &want, EXACT) {
        bail!("content-in-memory", "ensure_v2 changes the content of a v2 document: {x}");
    }
    let s = tri!(d.to_string(), "printing");
    if let Err((k, e)) = says(&s, &want) {
        bail!(k, "after ensure_v2 of a v2 document: {e}");
    }
    ctx.count("already_v2");
    Outcome::Held(!want.is_empty())
}

fn v1_text(ctx: &mut Ctx, t: &str) -> Outcome {
    match to_v2(ctx, t) {
        Outcome::Held(a) => match stays_v2(ctx, t) {
            Outcome::Held(b) => Outcome::Held(a || b),
            Outcome::Skip(_) => Outcome::Held(a),
            v => v,
        },
        o => o,
    }
}
fn run_v1(c: &mut Ctx) {
    if c.mine(0) {
        c.text("slashdash-sample", SLASHDASHED, slashdashed);
    }
    let mut r = c.rng("v1");
    for _ in 0..c.n(100_000, 2_500_000) {
        if c.stop() {
            return;
        }
        let (t, _, _) = genv1::document(r.next());
        c.text("generated-v1", &t, |c, t| {
            if let Some(Some(_)) = v1_reads(t) {
                c.count("generated_v1_accepted");
            }
            to_v2(c, t)
        });
        if r.p(1, 2) {
            let (o, _, _) = genv1::document(r.next());
            let m = mutate(&mut r, &t, &o);
            c.text("mutated-v1", &m, v1_text);
        }
    }
    drive(c, Mix { generated: (20_000, 400_000), mutated: (20_000, 400_000), tokens: (20_000, 400_000), strings: (20_000, 400_000), numbers: (10_000, 200_000), codepoints: false, ..MIX }, v1_text);
}

// ---------------------------------------------------------------- C19

fn fits_v1(d: &MDoc) -> bool {
    d.iter().all(|n| {
        n.entries.iter().all(|e| match &e.value {
            // i64::MIN is v1, but kdl 4 doesn't read it
            Val::Int(i) => i64::try_from(*i).is_ok_and(|i| i != i64::MIN),
            Val::Float(f) => f.is_finite(),
            _ => true,
        }) && n.children.as_ref().is_none_or(fits_v1)
    })
}
fn fit_v1(d: &mut MDoc) {
    for n in d {
        for e in &mut n.entries {
            match &mut e.value {
                Val::Int(i) => *i = (*i as i64).max(-i64::MAX) as i128,
                Val::Float(f) if !f.is_finite() => *f = 0.5,
                _ => {}
            }
        }
        n.children.iter_mut().for_each(fit_v1);
    }
}

fn becomes_v1(ctx: &mut Ctx, d: &mut KdlDocument, what: &str) -> Outcome {
    let want = model::doc(d);
    tri!(d.ensure_v1(), "ensure_v1");
    if let Some(x) = model::diff(&model::doc(d), &want, EXACT) {
        bail!("content-in-memory", "ensure_v1 of {what} changes the content: {x}");
    }
    let s = tri!(d.to_string(), "printing");
    if !fits_v1(&want) {
        ctx.count("values_not_v1");
        return Outcome::Held(false);
    }
    if let Err((k, e)) = says_v1(&s, &want) {
        bail!(k, "after ensure_v1 of {what}: {e}");
    }
    // what the library itself makes of that
    match tri!(KdlDocument::parse_v1(&s), "parse_v1") {
        Err(e) => bail!("unparseable-v1", "after ensure_v1 of {what}, parse_v1 rejects {s:?}: {:?}", super::text::msgs(&e)),
        Ok(b) => {
            if let Some(x) = model::diff(&model::doc(&b), &want, EXACT) {
                bail!("content-v1", "after ensure_v1 of {what}, parse_v1 of {s:?} differs: {x}");
            }
        }
    }
    tri!(d.ensure_v1(), "ensure_v1");
    let s2 = tri!(d.to_string(), "printing");
    if let Err((k, e)) = says_v1(&s2, &want) {
        bail!(k, "after ensure_v1 twice of {what}: {e}");
    }
    // and back
    tri!(d.ensure_v2(), "ensure_v2");
    let s3 = tri!(d.to_string(), "printing");
    if let Err((k, e)) = says(&s3, &want) {
        bail!(k, "after ensure_v1 and ensure_v2 of {what}: {e}");
    }
    ctx.add("entries_converted", model::count_entries(&want) as u64);
    ctx.count("converted");
    Outcome::Held(!want.is_empty())
}

fn to_v1(ctx: &mut Ctx, t: &str) -> Outcome {
    let Ok(mut d) = tri!(KdlDocument::parse_v2(t), "parse_v2") else {
        if let Ok(s) = tri!(KdlDocument::v2_to_v1(t), "v2_to_v1") {
            bail!("v2-accepts", "v2_to_v1 accepts a text parse_v2 rejects, giving {:?}", clip(&s));
        }
        return Outcome::Skip("rejected");
    };
    let want = model::doc(&d);
    let s = match tri!(KdlDocument::v2_to_v1(t), "v2_to_v1") {
        Ok(s) => s,
        Err(e) => bail!("v2-rejects", "v2_to_v1 rejects a text parse_v2 accepts: {:?}", super::text::msgs(&e)),
    };
    if t.contains("/-") {
        tri!(d.ensure_v1(), "ensure_v1");
        if let Some(x) = model::diff(&model::doc(&d), &want, EXACT) {
            bail!("content-in-memory", "ensure_v1 changes the content: {x}");
        }
        ctx.count("with_slashdash_not_printed");
        return Outcome::Held(false);
    }
    if fits_v1(&want) {
        if let Err((k, e)) = says_v1(&s, &want) {
            bail!(k, "after v2_to_v1: {e}");
        }
        if let Some(was) = comments_v2(t) {
            if let Err((k, e)) = same_comments(ctx, &was, &comments_v1(&s), &s) {
                bail!(k, "after v2_to_v1: {e}");
            }
        }
    }
    match alone_to_v1(ctx, t, &want) {
        Outcome::Viol(k, e) => return Outcome::Viol(k, e),
        _ => {}
    }
    becomes_v1(ctx, &mut d, "the parsed document")
}
/// The same for a node parsed by itself, with whatever surrounds it, and for
/// each of its entries.
fn alone_to_v1(ctx: &mut Ctx, t: &str, want: &MDoc) -> Outcome {
    if want.len() != 1 || !fits_v1(want) {
        return Outcome::Skip("not one node");
    }
    let Ok(mut n) = tri!(KdlNode::parse(t), "KdlNode::parse") else { return Outcome::Skip("not one node") };
    if let Some(x) = model::diff_node(&model::node(&n), &want[0], EXACT, "node") {
        // the text of some document may be v1 for a node
        return Outcome::Skip(if x.is_empty() { "" } else { "read otherwise" });
    }
    for e in n.entries() {
        let mut e = e.clone();
        tri!(e.ensure_v1(), "ensure_v1 of an entry");
        let s = format!("n {}", tri!(e.to_string(), "printing an entry").trim_start_matches(|c: char| c == ' '));
        let one = vec![MNode { ty: None, name: "n".into(), entries: vec![model::entry(&e)], children: None }];
        // (line ends before an entry need the backslash that came before)
        if s.contains('\\') && s.contains('\n') {
            continue;
        }
        if let Err((k, e)) = says_v1(&s, &one) {
            bail!(k, "after ensure_v1 of an entry: {e}");
        }
        ctx.count("lone_entries_converted");
    }
    tri!(n.ensure_v1(), "ensure_v1 of a node");
    if let Some(x) = model::diff_node(&model::node(&n), &want[0], EXACT, "node") {
        bail!("content-in-memory", "ensure_v1 of a node changes its content: {x}");
    }
    let s = tri!(n.to_string(), "printing a node");
    if let Err((k, e)) = says_v1(&s, want) {
        bail!(k, "after ensure_v1 of a node: {e}");
    }
    ctx.count("lone_nodes_converted");
    Outcome::Held(true)
}
const SLASHDASHED_V2: &str = "a /-#true\n";
fn slashdashed_v2(_: &mut Ctx, t: &str) -> Outcome {
    if t != SLASHDASHED_V2 {
        return Outcome::Held(false);
    }
    let want = model::doc(&KdlDocument::parse_v2(t).expect("harness: the sample is v2"));
    match tri!(KdlDocument::v2_to_v1(t), "v2_to_v1") {
        Err(e) => bail!("v2-rejects", "v2_to_v1 rejects KDL v2: {:?}", super::text::msgs(&e)),
        Ok(s) => match says_v1(&s, &want) {
            Err((k, e)) => Outcome::Viol(k, e),
            Ok(()) => Outcome::Held(true),
        },
    }
}

fn made_v1(ctx: &mut Ctx, seed: u64) -> Outcome {
    let mut r = Rng::new(seed);
    let (weird, depth) = (*r.pick(&[0, 30, 60, 95]), r.below(4));
    let mut m = rand_doc(&mut r, weird, depth, 4);
    fit_v1(&mut m);
    let mut d = super::edit::build_doc(&mut r, &m);
    match r.below(4) {
        0 => tri!(d.autoformat(), "autoformat"),
        1 => tri!(d.clear_format_recursive(), "clear_format_recursive"),
        2 => tri!(d.ensure_v2(), "ensure_v2"),
        _ => {}
    }
    becomes_v1(ctx, &mut d, "a built document")
}
fn edited_v1(ctx: &mut Ctx, seed: u64) -> Outcome {
    let mut r = Rng::new(seed);
    let (t, _) = crate::work::constructed(r.next());
    if t.contains("/-") {
        return Outcome::Skip("slashdash");
    }
    let mut d = tri!(KdlDocument::parse_v2(&t), "parse_v2").unwrap_or_default();
    let mut log = vec![];
    for _ in 0..1 + r.below(4) {
        tri!(super::edit::edit_once(&mut r, &mut d, &mut log), "editing");
    }
    let mut m = tri!(d.to_string(), "printing");
    if m.contains("/-") {
        m.clear();
        return Outcome::Skip("slashdash");
    }
    match becomes_v1(ctx, &mut d, "an edited document") {
        Outcome::Viol(k, e) => Outcome::Viol(k, format!("{e}\nedits {log:?} of {t:?}")),
        o => o,
    }
}

fn run_to_v1(c: &mut Ctx) {
    if c.mine(0) {
        c.text("slashdash-sample", SLASHDASHED_V2, slashdashed_v2);
    }
    drive(c, Mix { generated: (50_000, 1_000_000), mutated: (40_000, 800_000), tokens: (60_000, 1_200_000), strings: (60_000, 1_200_000), numbers: (30_000, 600_000), ..MIX }, to_v1);
    super::edit::seeds(c, "built-v1", (30_000, 600_000), made_v1);
    super::edit::seeds(c, "edited-v1", (20_000, 400_000), edited_v1);
}
fn replay_to_v1(c: &mut Ctx, w: &str, d: &Data) -> Outcome {
    match (w, d) {
        ("slashdash-sample", _) => text_replay(c, d, slashdashed_v2),
        ("built-v1", Data::Seed(s)) => made_v1(c, *s),
        ("edited-v1", Data::Seed(s)) => edited_v1(c, *s),
        _ => text_replay(c, d, to_v1),
    }
}

// ---------------------------------------------------------------- C20

/// Everything about a value the fallback could get wrong, as text.
fn whole<T: std::fmt::Debug>(x: &T) -> String {
    format!("{x:?}")
}

fn fallback(ctx: &mut Ctx, t: &str) -> Outcome {
    macro_rules! form {
        ($lib:ty, $v1:ty, $v2:expr, $conv:expr, $mconv:expr, $diff:expr, $own:literal) => {{
            let what = stringify!($lib);
            let v1 = sut(|| t.parse::<$v1>().ok());
            if let Ok(v1) = v1 {
                let got = tri!(<$lib>::parse(t), concat!(stringify!($lib), "::parse"));
                let from_str = tri!(t.parse::<$lib>(), concat!(stringify!($lib), "::from_str"));
                if whole(&got) != whole(&from_str) {
                    bail!("from-str", "{what}: parse and from_str differ: {} vs {}", clip(&whole(&got)), clip(&whole(&from_str)));
                }
                let v2: Option<Result<$lib, kdl::KdlError>> = $v2;
                match (&v2, &v1, &got) {
                    (Some(Ok(a)), _, Ok(b)) => {
                        if whole(a) != whole(b) {
                            bail!("v2-changed", "{what}: parse is not what parse_v2 gives: {} vs {}", clip(&whole(b)), clip(&whole(a)));
                        }
                        ctx.count(concat!("v2_", $own));
                    }
                    (Some(Ok(_)), _, Err(e)) => bail!("v2-rejected", "{what}: parse rejects what parse_v2 accepts: {:?}", super::text::msgs(e)),
                    (_, Some(w), Ok(g)) => {
                        // not v2, or not known whether it is
                        let as_v1 = $diff(&$mconv(g), &$conv(w));
                        match (v2.is_some(), as_v1) {
                            (true, Some(x)) => bail!("v1-content", "{what}: parse of a text that is v1, but not v2, reads something else: {x}"),
                            (_, None) => ctx.count(concat!("v1_", $own)),
                            _ => {}
                        }
                    }
                    (_, Some(_), Err(e)) => bail!("v1-rejected", "{what}: parse rejects a text that is v1: {:?}", super::text::msgs(e)),
                    (Some(Err(_)), None, Ok(_)) => bail!("accepted", "{what}: parse accepts a text that is neither v1 nor v2"),
                    (None, None, Ok(_)) => {}
                    (_, None, Err(e)) => {
                        let own = tri!(<$lib>::parse_v1(t), "parse_v1");
                        let is_v1 = own.is_err_and(|o| whole(&o) == whole(e));
                        if let Some(Err(v2)) = &v2 {
                            let is_v2 = whole(v2) == whole(e);
                            if !is_v1 && !is_v2 {
                                bail!("errors", "{what}: parse reports neither what parse_v1 nor what parse_v2 does: {:?}", super::text::msgs(e));
                            }
                            if t.lines().next().is_some_and(|l| l.trim_end() == "/- kdl-version 1") && !is_v1 {
                                bail!("errors-version", "{what}: parse reports v2 errors although the text declares itself v1");
                            }
                            if is_v1 && !is_v2 && !["true", "false", "null", "\"", "kdl-version"].iter().any(|x| t.contains(x)) {
                                bail!("errors-version", "{what}: parse reports v1 errors although the text has nothing of v1: {:?}", super::text::msgs(e));
                            }
                        } else if is_v1 {
                            bail!("errors-version", "{what}: parse reports v1 errors: {:?}", super::text::msgs(e));
                        }
                        ctx.count(concat!("neither_", $own));
                    }
                }
            } else {
                ctx.count(concat!("v1_parser_panics_", $own));
            }
        }};
    }
    form!(KdlDocument, kdlv1::KdlDocument, Some(tri!(KdlDocument::parse_v2(t), "parse_v2")), v1doc, model::doc, |a: &MDoc, b: &MDoc| model::diff(a, b, EXACT), "document");
    // deserialization reads both versions as well, and reads them alike
    #[cfg(feature = "full")]
    if !t.contains("/-") && tri!(KdlDocument::parse_v2(t), "parse_v2").is_err() {
        if let Ok(Ok(mut d)) = sut(|| KdlDocument::parse(t)) {
            type Tree = std::collections::BTreeMap<String, serde_json::Value>;
            let show = |r: Result<Tree, kdl::de::Error>| match r {
                Ok(v) => format!("{v:?}"),
                Err(e) => format!("error: {e}"),
            };
            let a = show(tri!(kdl::de::from_str::<Tree>(t), "from_str"));
            tri!(d.ensure_v2(), "ensure_v2");
            let s = tri!(d.to_string(), "printing");
            let b = show(tri!(kdl::de::from_str::<Tree>(&s), "from_str"));
            if a != b {
                bail!("deserialization", "from_str of v1 text gives {}, of the same document as v2 {}: {:?}", clip(&a), clip(&b), clip(&s));
            }
            ctx.count(if a.starts_with("error") { "v1_deserialized_error" } else { "v1_deserialized" });
        }
    }
    // the parts have no parse_v2 of their own
    form!(KdlNode, kdlv1::KdlNode, None, v1node, model::node, |a: &MNode, b: &MNode| model::diff_node(a, b, EXACT, "node"), "node");
    form!(KdlEntry, kdlv1::KdlEntry, None, v1entry, model::entry, |a: &MEntry, b: &MEntry| model::diff_entry(a, b, EXACT, "entry"), "entry");
    form!(KdlIdentifier, kdlv1::KdlIdentifier, None, |w: &kdlv1::KdlIdentifier| w.value().to_string(), |g: &KdlIdentifier| g.value().to_string(), |a: &String, b: &String| (a != b).then(|| format!("{a:?} vs {b:?}")), "identifier");
    // a part is v2 when it is all there is to a v2 document
    let plain = !t.starts_with('\u{feff}') && !t.contains("/-");
    if let (true, Ok(v2)) = (plain, tri!(KdlDocument::parse_v2(t), "parse_v2")) {
        if let [n] = v2.nodes() {
            if n.format().is_some_and(|f| f.leading.is_empty()) {
                match sut(|| KdlNode::parse(t)) {
                    Err(p) => bail!("panic", "KdlNode::parse of a v2 node panicked: {p}"),
                    Ok(Err(e)) => bail!("v2-rejected", "KdlNode::parse rejects a v2 node: {:?}", super::text::msgs(&e)),
                    Ok(Ok(g)) => {
                        if let Some(x) = model::diff_node(&model::node(&g), &model::node(n), EXACT, "node") {
                            bail!("v2-node", "KdlNode::parse of a v2 node reads something else: {x}");
                        }
                        if g.to_string() != t {
                            bail!("v2-node", "KdlNode::parse of a v2 node prints it as {:?}", clip(&g.to_string()));
                        }
                        ctx.count("v2_node");
                    }
                }
            }
        }
    }
    if plain && !t.contains([';', '/', '\\', '{']) && t.starts_with(|c: char| !c.is_whitespace()) && !t.contains(['\n', '\r', '\u{b}', '\u{c}', '\u{85}', '\u{2028}', '\u{2029}']) {
        if let Ok(d) = tri!(KdlDocument::parse_v2(&format!("x {t}")), "parse_v2") {
            if let [e] = d.nodes()[0].entries() {
                match sut(|| KdlEntry::parse(t)) {
                    Err(p) => bail!("panic", "KdlEntry::parse of a v2 entry panicked: {p}"),
                    Ok(Err(e)) => bail!("v2-rejected", "KdlEntry::parse rejects a v2 entry: {:?}", super::text::msgs(&e)),
                    Ok(Ok(g)) => {
                        if let Some(x) = model::diff_entry(&model::entry(&g), &model::entry(e), EXACT, "entry") {
                            bail!("v2-entry", "KdlEntry::parse of a v2 entry reads something else: {x}");
                        }
                        if g.to_string() != t {
                            bail!("v2-entry", "KdlEntry::parse of a v2 entry prints it as {:?}", clip(&g.to_string()));
                        }
                        ctx.count("v2_entry");
                    }
                }
            }
        }
    }
    if let Verdict::Accept(d, _) = refparse::parse_identifier(t) {
        match sut(|| KdlIdentifier::parse(t)) {
            Ok(Ok(g)) if g.value() == d.nodes[0].name.value && g.to_string() == t => ctx.count("v2_identifier"),
            g => bail!("v2-identifier", "KdlIdentifier::parse of a v2 identifier gives {:?}", g.map(|g| g.map(|g| g.to_string()))),
        }
    }
    Outcome::Held(!t.trim().is_empty())
}
const PANICS: &str = "(true";
fn panicking(_: &mut Ctx, t: &str) -> Outcome {
    if t != PANICS {
        return Outcome::Held(false);
    }
    tri!(KdlDocument::parse(t), "KdlDocument::parse").ok();
    Outcome::Held(true)
}
fn run_fallback(c: &mut Ctx) {
    if c.mine(0) {
        c.text("v1-parser-panic", PANICS, panicking);
    }
    let mut r = c.rng("fallback");
    for _ in 0..c.n(40_000, 800_000) {
        if c.stop() {
            return;
        }
        let (t, _, _) = genv1::document(r.next());
        c.text("generated-v1", &t, fallback);
        let o = if r.p(1, 2) { genv1::document(r.next()).0 } else { crate::work::constructed(r.next()).0 };
        let mut m = mutate(&mut r, &t, &o);
        if r.p(1, 4) {
            m = format!("/- kdl-version {}\n{m}", 1 + r.below(2));
        }
        c.text("mutated-v1", &m, fallback);
    }
    drive(c, Mix { generated: (20_000, 400_000), mutated: (30_000, 600_000), tokens: (40_000, 800_000), strings: (40_000, 800_000), numbers: (20_000, 400_000), codepoints: false, ..MIX }, fallback);
}

pub fn props() -> Vec<Prop> {
    vec![
        #[cfg(feature = "v1fb")]
        Prop { id: "C20", rule: "non-trivial: a text that is not blank, given to every parse entry point with the v1-fallback feature on, against parse_v2, the v1 parser itself and parse_v1", run: run_fallback, replay: |c, w, d| text_replay(c, d, if w == "v1-parser-panic" { panicking } else { fallback }) },
        Prop { id: "C19", rule: "non-trivial: a document with at least one node whose values fit v1, converted, and read back by the v1 parser", run: run_to_v1, replay: replay_to_v1 },
        Prop { id: "C18", rule: "non-trivial: KDL v1 text with at least one node, converted and read back as v2, or a v2 text converted in place", run: run_v1, replay: |c, w, d| text_replay(c, d, if w == "slashdash-sample" { slashdashed } else { v1_text }) },
    ]
}
