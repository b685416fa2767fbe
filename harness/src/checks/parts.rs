//! C27: a node, entry or identifier parses on its own as it does in a document.
use super::{text_replay, Prop};
use crate::ctx::{Ctx, Outcome};
use crate::model::{self, EXACT};
use crate::refparse::{self, RDoc, REntry, RIdent, RNode, Verdict};
use crate::rng::{hash_bytes, Rng};
use crate::work::{drive, Mix, MIX};
use crate::{bail, tri};
use kdl::{KdlDocument, KdlEntry, KdlIdentifier, KdlNode};

const BEFORE: [&str; 10] = ["", " ", "\t", "\n", "\r\n", "/* c */", "// c\n", " \n\n ", "/* /* n */ */\u{3000}", "\u{2028}// a\r\n\t"];
const AFTER: [&str; 12] = ["", " ", "\n", "\r\n", " // c\n", " // c", "/* c */", "\\\n", " \\ // c\n ", "\n\n", "\t\n// c\n/* d */", "\u{85} "];
const SKIPPED_ENTRIES: [&str; 8] = ["/-1 ", "/-x=#true ", "/-\"q\"\\\n", "/-(t)r /**/ ", "/- #\"\"# /-a=(b)2 ", "/-\n1\t", "/-\"é\" = \"\"\"\n\"\"\" \\ // c\n", "/-//c\n-0x1 "];
const SKIPPED_NODES: [&str; 8] = ["/-m\n", "/-m 1 {\n}\n", "/-k;", "/- (t)\"k\" a=2 // c\n", "/-m{\nn 1;m}\r\n/-k ;", "/-\nm \\\n 3\n // c\n", "/-a /-1 /-{}\n\n\t", "/-m {} /-{x}\n"];
const SKIPPED_CHILDREN: [&str; 3] = [" /-{}", "\t/-{\nm 1\n}", " /-{a;b} /- // c\n {\n}"];
const TERM: [&str; 5] = [";", "\n", " ;", "// c\n", " ; // c\n"];

type Bad = Option<Outcome>;
fn v(k: &str, d: String) -> Bad {
    Some(Outcome::Viol(k.into(), d))
}
macro_rules! go {
    ($e:expr, $w:expr) => {
        match crate::ctx::sut(|| $e) {
            Ok(x) => x,
            Err(p) => return v("panic", format!("{} panicked: {p}", $w)),
        }
    };
}

fn span_is(i: &KdlIdentifier, r: &RIdent, from: usize, pad: usize, what: &str, text: &str) -> Bad {
    let (a, b) = (r.span.0 - from + pad, r.span.1 - from + pad);
    let s = i.span();
    if (s.offset(), s.offset() + s.len()) != (a, b) {
        return v("part-span", format!("{what} in {text:?} has span {:?}, its text is at {:?}", s, (a, b)));
    }
    None
}

fn ident(ctx: &mut Ctx, t: &str, r: &RIdent) -> Bad {
    let text = &t[r.span.0..r.span.1];
    for from_str in [false, true] {
        let got = if from_str { go!(text.parse::<KdlIdentifier>(), "parsing an identifier") } else { go!(KdlIdentifier::parse(text), "parsing an identifier") };
        match got {
            Ok(i) if i.value() == r.value => {
                if let Some(x) = span_is(&i, r, r.span.0, 0, "the identifier", text) {
                    return Some(x);
                }
            }
            g => return v("identifier", format!("{text:?} as an identifier gives {:?}", g.map(|i| i.value().to_string()).map_err(|e| super::text::msgs(&e)))),
        }
    }
    ctx.count("identifiers_parsed_alone");
    for bad in [format!("{text} {text}"), format!("{text}=1"), format!("({text})"), format!("({text}){text}"), format!("{text}{{}}"), format!("{text})"), format!("{text};{text}")] {
        if let Ok(i) = go!(KdlIdentifier::parse(&bad), "parsing an identifier") {
            return v("not-an-identifier", format!("{bad:?} is taken for the identifier {:?}", i.value()));
        }
        ctx.count("wrong_kinds_refused");
    }
    None
}

fn entry(ctx: &mut Ctx, rnd: &mut Rng, t: &str, r: &REntry, inside: &KdlEntry) -> Bad {
    let text = &t[r.span.0..r.span.1];
    let want = model::entry(inside);
    for from_str in [false, true] {
        let (mut b, a) = (rnd.pick(&BEFORE).to_string(), *rnd.pick(&AFTER));
        if rnd.p(1, 3) {
            b.push_str(rnd.pick(&SKIPPED_ENTRIES));
        }
        let whole = format!("{b}{text}{a}");
        let got = if from_str { go!(whole.parse::<KdlEntry>(), "parsing an entry") } else { go!(KdlEntry::parse(&whole), "parsing an entry") };
        match got {
            Err(e) => return v("entry-rejected", format!("{whole:?} is not taken for an entry: {:?}", super::text::msgs(&e))),
            Ok(e) => {
                if let Some(x) = model::diff_entry(&model::entry(&e), &want, EXACT, "entry") {
                    return v("entry-differs", format!("{whole:?} on its own and in a document differ: {x}"));
                }
                if e.to_string() != whole {
                    return v("entry-text", format!("{whole:?} as an entry prints {:?}", e.to_string()));
                }
                for (i, ri, what) in [(e.name(), &r.name, "the key"), (e.ty(), &r.ty, "the type")] {
                    if let (Some(i), Some(ri)) = (i, ri) {
                        if let Some(x) = span_is(i, ri, r.span.0, b.len(), what, &whole) {
                            return Some(x);
                        }
                    }
                }
            }
        }
    }
    ctx.count("entries_parsed_alone");
    for bad in [format!("{text} {text}"), format!("{text} 1"), format!("{text}{{}}"), format!("{text})"), format!("{text};"), format!("{text}\n{text}"), format!("/-{text}"), format!("n {text}"), format!("={text}")] {
        if let Ok(e) = go!(KdlEntry::parse(&bad), "parsing an entry") {
            return v("not-an-entry", format!("{bad:?} is taken for the entry {:?}", e.to_string()));
        }
        ctx.count("wrong_kinds_refused");
    }
    None
}

fn node(ctx: &mut Ctx, rnd: &mut Rng, t: &str, r: &RNode, inside: &KdlNode, left: &mut usize) -> Bad {
    let text = &t[r.core.0..r.core.1];
    let want = model::node(inside);
    for from_str in [false, true] {
        let (mut b, mut a) = (rnd.pick(&BEFORE).to_string(), rnd.pick(&AFTER).to_string());
        if rnd.p(1, 3) {
            b.push_str(rnd.pick(&SKIPPED_NODES));
        }
        if rnd.p(1, 2) {
            a = format!("{}{}", rnd.pick(&TERM), rnd.pick(&AFTER));
        }
        if rnd.p(1, 4) {
            a.insert_str(0, rnd.pick(&SKIPPED_CHILDREN));
        }
        let whole = format!("{b}{text}{a}");
        let got = if from_str { go!(whole.parse::<KdlNode>(), "parsing a node") } else { go!(KdlNode::parse(&whole), "parsing a node") };
        match got {
            Err(e) => return v("node-rejected", format!("{whole:?} is not taken for a node: {:?}", super::text::msgs(&e))),
            Ok(n) => {
                if let Some(x) = model::diff_node(&model::node(&n), &want, EXACT, "node") {
                    return v("node-differs", format!("{whole:?} on its own and in a document differ: {x}"));
                }
                if n.to_string() != whole {
                    return v("node-text", format!("{whole:?} as a node prints {:?}", n.to_string()));
                }
                if let Some(x) = span_is(n.name(), &r.name, r.core.0, b.len(), "the name", &whole) {
                    return Some(x);
                }
                for (e, re) in n.entries().iter().zip(&r.entries) {
                    let at = (re.span.0 - r.core.0 + b.len(), re.span.1 - re.span.0);
                    if (e.span().offset(), e.span().len()) != at {
                        return v("part-span", format!("entry {:?} of {whole:?} has span {:?}, its text is at {at:?}", e.to_string(), e.span()));
                    }
                }
            }
        }
    }
    ctx.count("nodes_parsed_alone");
    for bad in [format!("{text}\n{text}"), format!("{text};{text}"), format!("{text})"), format!("{text}}}"), format!("/-{text}"), format!("1 {text}"), format!("{{{text}}}"), format!("{text}=")] {
        if let Ok(n) = go!(KdlNode::parse(&bad), "parsing a node") {
            return v("not-a-node", format!("{bad:?} is taken for the node {:?}", n.to_string()));
        }
        ctx.count("wrong_kinds_refused");
    }
    if let Some(x) = ident(ctx, t, &r.name) {
        return Some(x);
    }
    if let Some(x) = r.ty.as_ref().and_then(|i| ident(ctx, t, i)) {
        return Some(x);
    }
    for (e, re) in inside.entries().iter().zip(&r.entries) {
        if *left == 0 {
            return None;
        }
        *left -= 1;
        if let Some(x) = entry(ctx, rnd, t, re, e) {
            return Some(x);
        }
        for i in [&re.name, &re.ty].into_iter().flatten() {
            if let Some(x) = ident(ctx, t, i) {
                return Some(x);
            }
        }
    }
    match (&r.children, inside.children()) {
        (Some(rc), Some(c)) => nodes(ctx, rnd, t, rc, c, left),
        _ => None,
    }
}
fn nodes(ctx: &mut Ctx, rnd: &mut Rng, t: &str, r: &RDoc, d: &KdlDocument, left: &mut usize) -> Bad {
    for (n, rn) in d.nodes().iter().zip(&r.nodes) {
        if *left == 0 {
            return None;
        }
        *left -= 1;
        if let Some(x) = node(ctx, rnd, t, rn, n, left) {
            return Some(x);
        }
    }
    None
}

pub fn parts(ctx: &mut Ctx, t: &str) -> Outcome {
    let Verdict::Accept(rd, info) = refparse::parse_document(t) else { return Outcome::Skip("not accepted") };
    if !info.gray.is_empty() {
        return Outcome::Skip("grammar leaves it open");
    }
    let Ok(d) = tri!(KdlDocument::parse_v2(t), "parse") else { return Outcome::Skip("not accepted by both") };
    if model::diff(&model::doc(&d), &model::from_ref(&rd), EXACT).is_some() {
        return Outcome::Skip("parsed differently");
    }
    if rd.nodes.is_empty() {
        // no part at all
        if let Ok(n) = tri!(KdlNode::parse(t), "KdlNode::parse") {
            bail!("not-a-node", "{t:?} is taken for the node {:?}", n.to_string());
        }
        // (what is slashdashed as a node may be followed by an entry)
        let entry = tri!(KdlEntry::parse(t), "KdlEntry::parse");
        if let (Ok(n), false) = (entry, t.contains("/-")) {
            bail!("not-an-entry", "{t:?} is taken for the entry {:?}", n.to_string());
        }
        if let Ok(n) = tri!(KdlIdentifier::parse(t), "KdlIdentifier::parse") {
            bail!("not-an-identifier", "{t:?} is taken for the identifier {:?}", n.value());
        }
        return Outcome::Held(t.len() > 1);
    }
    let mut r = Rng::new(hash_bytes(t.as_bytes()));
    let mut left = 6;
    match nodes(ctx, &mut r, t, &rd, &d, &mut left) {
        Some(x) => x,
        None => Outcome::Held(true),
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C27",
        rule: "non-trivial: accepted document of which at least one node was parsed on its own between random whitespace and comments, or a text without any part that all three parsers refused",
        run: |c| drive(c, Mix { generated: (60_000, 1_500_000), tokens: (20_000, 400_000), strings: (10_000, 200_000), numbers: (5_000, 100_000), ..MIX }, parts),
        replay: |c, _, d| text_replay(c, d, parts),
    }]
}
