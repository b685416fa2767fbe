//! Properties of one parsed text: C05 lossless round trip, C06 totality,
//! C08 diagnostics, C09 source spans.
use super::{text_replay, Prop};
use crate::ctx::{Ctx, Outcome};
use crate::model::{self, EXACT};
use crate::refparse::{self, Verdict};
use crate::work::{drive, Mix, MIX};
use crate::{bail, tri};
use kdl::{KdlDocument, KdlEntry, KdlError, KdlIdentifier, KdlNode};

/// C05: printing a parsed document gives back the text it came from, at every
/// level that can be parsed on its own.
pub fn roundtrip(ctx: &mut Ctx, t: &str) -> Outcome {
    let d = match tri!(KdlDocument::parse_v2(t), "parse") {
        Ok(d) => d,
        Err(_) => return Outcome::Skip("not accepted"),
    };
    let s = tri!(d.to_string(), "to_string");
    if s != t {
        bail!("document-text", "parse then print gave {:?}", clip(&s));
    }
    if d.len() != t.len() || d.is_empty() != t.is_empty() {
        bail!("document-len", "len {} / is_empty {} for {} bytes", d.len(), d.is_empty(), t.len());
    }
    ctx.count("documents_printed");
    ctx.add("bytes_compared", t.len() as u64);
    let mut budget = 24usize;
    if let Some(o) = rt_nodes(ctx, &d, &mut budget) {
        return o;
    }
    Outcome::Held(!d.nodes().is_empty())
}
pub fn clip(s: &str) -> String {
    let n = if std::env::var_os("VERIF_FULL").is_some() { usize::MAX } else { 300 };
    s.chars().take(n).collect()
}
fn rt_nodes(ctx: &mut Ctx, d: &KdlDocument, budget: &mut usize) -> Option<Outcome> {
    for n in d.nodes() {
        if *budget == 0 {
            return None;
        }
        *budget -= 1;
        if let Some(o) = rt_node(ctx, n, budget) {
            return Some(o);
        }
    }
    None
}
fn rt_node(ctx: &mut Ctx, n: &KdlNode, budget: &mut usize) -> Option<Outcome> {
    let v = |k: &str, d: String| Some(Outcome::Viol(k.to_string(), d));
    let s = n.to_string();
    match crate::ctx::sut(|| KdlNode::parse(&s)) {
        Err(p) => return v("panic", format!("parsing node text {s:?} panicked: {p}")),
        Ok(Err(e)) => return v("node-reparse", format!("node text {s:?} does not parse as a node: {:?}", msgs(&e))),
        Ok(Ok(m)) => {
            let s2 = m.to_string();
            if s2 != s {
                return v("node-text", format!("node text {s:?} parsed then printed gave {s2:?}"));
            }
            if let Some(x) = model::diff_node(&model::node(&m), &model::node(n), EXACT, "node") {
                return v("node-content", format!("node text {s:?} reparsed differs: {x}"));
            }
        }
    }
    ctx.count("nodes_roundtripped");
    for e in n.entries() {
        let s = e.to_string();
        match crate::ctx::sut(|| KdlEntry::parse(&s)) {
            Err(p) => return v("panic", format!("parsing entry text {s:?} panicked: {p}")),
            Ok(Err(er)) => return v("entry-reparse", format!("entry text {s:?} does not parse as an entry: {:?}", msgs(&er))),
            Ok(Ok(m)) => {
                if m.to_string() != s {
                    return v("entry-text", format!("entry text {s:?} parsed then printed gave {:?}", m.to_string()));
                }
                if let Some(x) = model::diff_entry(&model::entry(&m), &model::entry(e), EXACT, "entry") {
                    return v("entry-content", format!("entry text {s:?} reparsed differs: {x}"));
                }
                if e.len() != s.len() || e.is_empty() != s.is_empty() {
                    return v("entry-len", format!("entry {s:?} reports len {}, is_empty {}", e.len(), e.is_empty()));
                }
            }
        }
        ctx.count("entries_roundtripped");
        for i in [e.ty(), e.name()].into_iter().flatten() {
            if let Some(o) = rt_ident(i) {
                return Some(o);
            }
            ctx.count("identifiers_roundtripped");
        }
    }
    for i in [n.ty(), Some(n.name())].into_iter().flatten() {
        if let Some(o) = rt_ident(i) {
            return Some(o);
        }
        ctx.count("identifiers_roundtripped");
    }
    match n.children() {
        Some(c) => rt_nodes(ctx, c, budget),
        None => None,
    }
}
fn rt_ident(i: &KdlIdentifier) -> Option<Outcome> {
    let v = |k: &str, d: String| Some(Outcome::Viol(k.to_string(), d));
    let s = i.to_string();
    match crate::ctx::sut(|| KdlIdentifier::parse(&s)) {
        Err(p) => v("panic", format!("parsing identifier text {s:?} panicked: {p}")),
        Ok(Err(e)) => v("identifier-reparse", format!("identifier text {s:?} does not parse: {:?}", msgs(&e))),
        Ok(Ok(j)) => {
            if j.value() != i.value() || j.to_string() != s {
                return v("identifier", format!("identifier text {s:?} reparsed as {:?} printed {:?}", j.value(), j.to_string()));
            }
            if i.len() != s.len() || i.is_empty() != s.is_empty() {
                return v("identifier-len", format!("identifier {s:?} reports len {}, is_empty {}", i.len(), i.is_empty()));
            }
            None
        }
    }
}
pub fn msgs(e: &KdlError) -> Vec<String> {
    e.diagnostics.iter().take(4).map(|d| format!("{d} @{:?}", d.span)).collect()
}

/// C06: every parsing and printing entry point returns on any text.
pub fn totality(ctx: &mut Ctx, t: &str) -> Outcome {
    let mut ok = 0;
    let mut docs = vec![];
    match tri!(KdlDocument::parse(t), "KdlDocument::parse") {
        Ok(d) => docs.push(d),
        Err(e) => {
            let _ = tri!(format!("{e}{e:?}{}", e.diagnostics.len()), "printing the error");
        }
    }
    match tri!(t.parse::<KdlNode>(), "KdlNode from_str") {
        Ok(n) => {
            ok += 1;
            let _ = tri!(n.to_string(), "printing a node");
            let mut m = n.clone();
            tri!(m.autoformat(), "node autoformat");
            let mut m = n.clone();
            tri!(m.clear_format_recursive(), "node clear_format_recursive");
            let mut m = n.clone();
            tri!(m.ensure_v2(), "node ensure_v2");
        }
        Err(e) => {
            let _ = tri!(format!("{e:?}"), "printing the error");
        }
    }
    let _ = tri!(KdlNode::parse(t), "KdlNode::parse");
    match tri!(KdlEntry::parse(t), "KdlEntry::parse") {
        Ok(n) => {
            ok += 1;
            let _ = tri!(n.to_string(), "printing an entry");
            let mut m = n.clone();
            tri!(m.autoformat(), "entry autoformat");
            let mut m = n.clone();
            tri!({ m.keep_format(); m.autoformat() }, "entry kept autoformat");
            let mut m = n.clone();
            tri!(m.clear_format(), "entry clear_format");
            let mut m = n.clone();
            tri!(m.ensure_v2(), "entry ensure_v2");
        }
        Err(e) => {
            let _ = tri!(format!("{e:?}"), "printing the error");
        }
    }
    match tri!(KdlIdentifier::parse(t), "KdlIdentifier::parse") {
        Ok(n) => {
            ok += 1;
            let _ = tri!((n.to_string(), n.len()), "printing an identifier");
        }
        Err(e) => {
            let _ = tri!(format!("{e:?}"), "printing the error");
        }
    }
    #[cfg(feature = "v1")]
    {
        let _ = tri!(KdlNode::parse_v1(t).map(|n| n.to_string()), "KdlNode::parse_v1");
        let _ = tri!(KdlEntry::parse_v1(t).map(|n| n.to_string()), "KdlEntry::parse_v1");
        let _ = tri!(KdlIdentifier::parse_v1(t).map(|n| n.to_string()), "KdlIdentifier::parse_v1");
        let _ = tri!(KdlDocument::v1_to_v2(t), "v1_to_v2");
        let _ = tri!(KdlDocument::v2_to_v1(t), "v2_to_v1");
    }
    for d in docs {
        ok += 1;
        let _ = tri!((d.to_string(), format!("{d:?}").len()), "printing a document");
        let mut m = d.clone();
        tri!(m.autoformat(), "autoformat");
        let _ = tri!(m.to_string(), "printing an autoformatted document");
        let mut m = d.clone();
        tri!(m.autoformat_no_comments(), "autoformat_no_comments");
        let mut m = d.clone();
        tri!(m.clear_format_recursive(), "clear_format_recursive");
        let mut m = d.clone();
        tri!(m.ensure_v2(), "ensure_v2");
        let _ = tri!(m.to_string(), "printing an ensure_v2 document");
    }
    ctx.add("entry_points_accepting", ok);
    ctx.count(if ok > 0 { "inputs_accepted_somewhere" } else { "inputs_rejected_everywhere" });
    Outcome::Held(t.len() > 1)
}

fn check_error(ctx: &mut Ctx, t: &str, e: &KdlError, what: &str) -> Option<Outcome> {
    let v = |k: &str, d: String| Some(Outcome::Viol(k.to_string(), format!("{what}: {d}")));
    if *e.input != t {
        return v("error-input", format!("error carries input {:?}", clip(&e.input)));
    }
    if e.diagnostics.is_empty() {
        return v("no-diagnostics", "rejected without any diagnostic".into());
    }
    for d in &e.diagnostics {
        ctx.count("diagnostics_checked");
        if *d.input != t {
            return v("diagnostic-input", format!("diagnostic carries input {:?}", clip(&d.input)));
        }
        let (o, l) = (d.span.offset(), d.span.len());
        let Some(end) = o.checked_add(l) else {
            return v("span-overflow", format!("span {o}+{l}"));
        };
        if end > t.len() {
            return v("span-out-of-bounds", format!("diagnostic {d:?} covers {o}..{end} of {} bytes", t.len()));
        }
        if !t.is_char_boundary(o) || !t.is_char_boundary(end) {
            return v("span-char-boundary", format!("diagnostic {:?} covers {o}..{end}, not on character boundaries", d.to_string()));
        }
        // (of a node or entry that is just missing there is nothing to tell)
        if what == "document" && d.message.is_none() && d.label.is_none() {
            return v("no-message", format!("{d:?}"));
        }
        if d.to_string().is_empty() || d.message.as_ref().is_some_and(|m| *m != d.to_string()) {
            return v("empty-message", format!("{d:?}"));
        }
        if d.severity != miette::Severity::Error {
            return v("severity", format!("rejecting diagnostic has severity {:?}", d.severity));
        }
    }
    // renders through miette
    use miette::{Diagnostic, GraphicalReportHandler, GraphicalTheme, NarratableReportHandler};
    if t.len() < 2000 && ctx.case_no % 16 == 0 {
        let r = crate::ctx::sut(|| {
            let mut s = String::new();
            GraphicalReportHandler::new_themed(GraphicalTheme::none()).render_report(&mut s, e as &dyn Diagnostic).map_err(|x| x.to_string())?;
            let mut s2 = String::new();
            NarratableReportHandler::new().render_report(&mut s2, e as &dyn Diagnostic).map_err(|x| x.to_string())?;
            Ok::<_, String>((s, s2))
        });
        match r {
            // rendering is miette's job; a failure there is reported only if
            // the spans were unreadable, which read_span decides below
            Err(_) | Ok(Err(_)) => ctx.count("render_failed_in_miette"),
            Ok(Ok((s, _))) => {
                ctx.count("reports_rendered");
                if !s.contains("Failed to parse KDL document") {
                    return v("render", "rendered report lacks the headline".into());
                }
            }
        }
    }
    let shown: Option<Vec<_>> = e.related().map(|r| r.map(|d| (d.to_string(), d.labels().map(|l| l.map(|l| (l.offset(), l.len())).collect::<Vec<_>>()))).collect());
    let held: Vec<_> = e.diagnostics.iter().map(|d| (d.to_string(), Some(vec![(d.span.offset(), d.span.len())]))).collect();
    if shown != Some(held) {
        return v("related", format!("{} diagnostics are presented as {shown:?}", e.diagnostics.len()));
    }
    for d in &e.diagnostics {
        let labels: Vec<_> = match Diagnostic::labels(d) {
            Some(l) => l.collect(),
            None => return v("no-label", format!("{d:?}")),
        };
        if labels.len() != 1 || labels[0].offset() != d.span.offset() || labels[0].len() != d.span.len() {
            return v("label", format!("labels {labels:?} for span {:?}", d.span));
        }
        if labels[0].label().is_none_or(|l| l.is_empty() || d.label.as_ref().is_some_and(|x| x != l)) {
            return v("label-text", format!("labels {labels:?} for {:?}", d.label));
        }
        if Diagnostic::help(d).map(|h| h.to_string()) != d.help || Diagnostic::severity(d) != Some(d.severity) {
            return v("help", format!("{d:?} is presented with other help or severity"));
        }
        match Diagnostic::source_code(d).map(|s| s.read_span(&d.span, 0, 0).map(|c| c.data().to_vec())) {
            // miette may read slightly more than the span (empty span, CRLF)
            Some(Ok(b)) if b.starts_with(&t.as_bytes()[d.span.offset()..d.span.offset() + d.span.len()]) => {}
            x => return v("read-span", format!("span {:?} reads as {:?}", d.span, x.map(|r| r.ok()))),
        }
    }
    None
}

/// The end of the longest part of a rejected text, made of whole lines, that is
/// a complete document by itself and stays one whatever follows.
fn sound_prefix(t: &str) -> Option<usize> {
    let ends: Vec<usize> = t.match_indices('\n').map(|(i, _)| i + 1).collect();
    ends.into_iter().rev().take(12).find(|p| {
        let head = &t[..*p];
        let (Verdict::Accept(a, i), Verdict::Accept(b, _)) = (refparse::parse_document(head), refparse::parse_document(&format!("{head}x\n"))) else { return false };
        i.gray.is_empty() && !a.nodes.is_empty() && b.nodes.len() == a.nodes.len() + 1
    })
}

/// C08
pub fn diagnostics(ctx: &mut Ctx, t: &str) -> Outcome {
    let mut n = 0;
    if let Err(e) = tri!(KdlDocument::parse(t), "KdlDocument::parse") {
        n += 1;
        if let Some(o) = check_error(ctx, t, &e, "document") {
            return o;
        }
        if let Some(p) = sound_prefix(t) {
            for d in &e.diagnostics {
                if d.span.offset() + d.span.len() < p {
                    bail!("wrong-place", "the first {p} bytes are a complete document, but diagnostic {:?} points only there: {:?}", d.to_string(), d.span);
                }
                ctx.count("diagnostics_located");
            }
        }
    }
    if let Err(e) = tri!(KdlNode::parse(t), "KdlNode::parse") {
        n += 1;
        if let Some(o) = check_error(ctx, t, &e, "node") {
            return o;
        }
    }
    if let Err(e) = tri!(KdlEntry::parse(t), "KdlEntry::parse") {
        n += 1;
        if let Some(o) = check_error(ctx, t, &e, "entry") {
            return o;
        }
    }
    if let Err(e) = tri!(KdlIdentifier::parse(t), "KdlIdentifier::parse") {
        n += 1;
        if let Some(o) = check_error(ctx, t, &e, "identifier") {
            return o;
        }
    }
    ctx.add("errors_checked", n);
    Outcome::Held(n > 0)
}

/// Whether a rejected line can have no effect beyond its end: nothing in it can
/// open a string, a comment, a block, or continue the line.
fn closed(l: &str) -> bool {
    if l.contains(['{', '}']) || l.contains("/*") || l.contains("/-") || l.contains("\"\"") || l.contains("#\"") {
        return false;
    }
    // quotes in pairs, and backslashes only before letters
    l.matches('"').count() % 2 == 0 && l.match_indices('\\').all(|(i, _)| l[i + 1..].starts_with(|c: char| c.is_ascii_alphabetic()))
}
/// Whether a line is complete, so that what comes after starts a new node.
fn complete(l: &str) -> bool {
    let (Verdict::Accept(a, i), Verdict::Accept(b, _)) = (refparse::parse_document(&format!("{l}\n")), refparse::parse_document(&format!("{l}\nz\n"))) else { return false };
    i.gray.is_empty() && b.nodes.len() == a.nodes.len() + 1
}

/// C28
pub fn all_errors(ctx: &mut Ctx, t: &str) -> Outcome {
    let mut at = 0;
    let mut lines: Vec<(usize, &str)> = vec![];
    for l in t.split('\n') {
        lines.push((at, l));
        at += l.len() + 1;
    }
    let mut bad = vec![];
    let mut good = 0;
    let mut depth = 0;
    for (o, l) in lines {
        match l {
            "p {" => depth += 1,
            "}" if depth > 0 => depth -= 1,
            "}" => return Outcome::Skip("a block is closed that was not open"),
            _ => {}
        }
        if l == "p {" || l == "}" {
            continue;
        }
        // (recovery may resume anywhere in a line, so it must read alike from there)
        if l.contains(['\u{FEFF}', '"', '/', '\\']) && complete(l) {
            return Outcome::Skip("a line that could be misread from its middle");
        }
        if complete(l) {
            good += 1;
            continue;
        }
        match refparse::parse_document(&format!("{l}\n")) {
            Verdict::Reject(..) if closed(l) && !bad.last().is_some_and(|(e, p): &(usize, &str)| e + p.len() + 1 == o) => bad.push((o, l)),
            _ => return Outcome::Skip("a line is not closed"),
        }
    }
    if depth != 0 {
        return Outcome::Skip("a block is left open");
    }
    if bad.is_empty() {
        return Outcome::Skip("no line is wrong");
    }
    let Err(e) = tri!(KdlDocument::parse_v2(t), "parse_v2") else {
        bail!("accepted", "the line {:?} cannot be part of any document", bad[0].1);
    };
    for (o, l) in &bad {
        if !e.diagnostics.iter().any(|d| d.span.offset() <= o + l.len() && d.span.offset() + d.span.len() >= *o) {
            let all: Vec<_> = e.diagnostics.iter().map(|d| (d.span.offset(), d.span.len(), d.to_string())).collect();
            bail!("error-not-reported", "no diagnostic for the wrong line {l:?} at {o}: {all:?}");
        }
    }
    ctx.add("wrong_lines_reported", bad.len() as u64);
    ctx.add("good_lines_between", good);
    ctx.count(&format!("wrong_lines_per_text:{}", bad.len().min(9)));
    Outcome::Held(bad.len() > 1)
}

const BAD_LINES: [&str; 47] = [
    "x 1.", "x true", "x \"\\q\"", "x (", "x =1", "x \"a\"b", "x k=", "x (t", "x )", "x ]", "x 0x", "x 0xg", "x 1__e", "x .5e", "x -inf", "x #tru", "x #", "(t", "()x",
    "x k=(t)", "x \"\\u{110000}\"", "x 1 2 )", "x 1e", "x 0b2", "x 99999999999999999999999999999999999999999", "(a)(b)x", "x (a)(b)1", "x a=b=c", "=", "x \u{202E}", "true", "x inf",
    "1", "x 1a", "x ()1", "x (t) ", "x k=()1", "x k=true", "x k=.1a", "(true)x", "x (1)2", "x \"a\"=", "x k= ]", "x =", "] x", ") x", "x (\"a\"b)1",
];
fn line_texts(ctx: &mut Ctx, f: crate::work::Oracle) {
    let corp = crate::work::corpus(ctx);
    let mut r = ctx.rng("lines");
    let one = |r: &mut crate::rng::Rng| loop {
        let (t, _) = crate::work::constructed(r.next());
        let ls: Vec<&str> = t.split('\n').filter(|l| !l.trim().is_empty() && l.len() < 200).collect();
        if !ls.is_empty() {
            break r.pick(&ls).to_string();
        }
    };
    let good = |r: &mut crate::rng::Rng| {
        for _ in 0..4 {
            let l = one(r);
            if !l.contains(['\u{FEFF}', '"', '/', '\\']) && complete(&l) {
                return l;
            }
        }
        r.pick(&["a 1 2", "b x k=#true", "(t)c { d; e 1 }", "", "\u{e9}l\u{e8}ve \u{1F600}", "n 1.5;m -3"]).to_string()
    };
    for _ in 0..ctx.n(120_000, 2_000_000) {
        if ctx.stop() {
            return;
        }
        let mut ls = vec![];
        for _ in 0..r.range(1, 4) {
            for _ in 0..r.range(0, 2) {
                ls.push(good(&mut r));
            }
            let mut bad = String::new();
            for _ in 0..6 {
                bad = match r.below(4) {
                    0 => r.pick(&BAD_LINES).to_string(),
                    1 => crate::gen::number_soup(&mut r),
                    2 => crate::gen::token_soup(&mut r, 5),
                    _ => {
                        let (b, o) = (one(&mut r), &corp[r.below(corp.len())].1);
                        crate::gen::mutate(&mut r, &b, &o.chars().take(200).collect::<String>())
                    }
                };
                if !bad.contains('\n') && closed(&bad) && !complete(&bad) {
                    break;
                }
                bad = r.pick(&BAD_LINES).to_string();
            }
            ls.push(bad);
            ls.push(good(&mut r));
        }
        for _ in 0..r.below(3) {
            // around any run of lines that holds whole blocks
            let (i, j) = (r.below(ls.len()), r.below(ls.len()));
            let (i, j) = (i.min(j), i.max(j));
            let level = ls[i..=j].iter().try_fold(0, |d, l| match l.as_str() {
                "p {" => Some(d + 1),
                "}" if d == 0 => None,
                "}" => Some(d - 1),
                _ => Some(d),
            });
            if level == Some(0) {
                ls.insert(j + 1, "}".into());
                ls.insert(i, "p {".into());
            }
        }
        ctx.text("lines", &ls.join("\n"), f);
    }
}

#[cfg(feature = "full")]
mod spans {
    use super::*;
    use crate::refparse::{RDoc, RIdent};
    use miette::SourceSpan;

    fn range(s: SourceSpan) -> (usize, usize) {
        (s.offset(), s.offset() + s.len())
    }
    fn ident(i: &KdlIdentifier, r: &RIdent, what: &str) -> Option<Outcome> {
        if range(i.span()) != r.span {
            return Some(Outcome::Viol(format!("{what}-span"), format!("{what} {:?} has span {:?}, its text is at {:?}", i.value(), range(i.span()), r.span)));
        }
        None
    }
    fn doc(ctx: &mut Ctx, t: &str, d: &KdlDocument, r: &RDoc, outer: (usize, usize)) -> Option<Outcome> {
        let v = |k: &str, d: String| Some(Outcome::Viol(k.to_string(), d));
        let ds = range(d.span());
        if ds.0 < outer.0 || ds.1 > outer.1 || ds.0 > ds.1 || !t.is_char_boundary(ds.0) || !t.is_char_boundary(ds.1) {
            return v("document-span", format!("document span {ds:?} outside {outer:?} or off character boundaries"));
        }
        let mut prev = outer.0;
        for (n, m) in d.nodes().iter().zip(&r.nodes) {
            let ns = range(n.span());
            if ns.0 != m.core.0 || ns.1 < m.core.1 || ns.1 > m.end {
                return v("node-span", format!("node {:?} has span {ns:?}; it occupies {:?} and its terminator is at {}", n.name().value(), m.core, m.end));
            }
            if ns.0 < prev || ns.0 < ds.0 || ns.1 > ds.1 {
                return v("node-order", format!("node span {ns:?} overlaps an earlier sibling or leaves document span {ds:?}"));
            }
            prev = ns.1;
            ctx.count("node_spans");
            if let Some(o) = ident(n.name(), &m.name, "name") {
                return Some(o);
            }
            if let (Some(a), Some(b)) = (n.ty(), &m.ty) {
                if let Some(o) = ident(a, b, "type") {
                    return Some(o);
                }
            }
            for (e, f) in n.entries().iter().zip(&m.entries) {
                ctx.count("entry_spans");
                if range(e.span()) != f.span {
                    return v("entry-span", format!("entry {:?} has span {:?}, its text is at {:?}", e.to_string(), range(e.span()), f.span));
                }
                if let (Some(a), Some(b)) = (e.name(), &f.name) {
                    if let Some(o) = ident(a, b, "key") {
                        return Some(o);
                    }
                }
                if let (Some(a), Some(b)) = (e.ty(), &f.ty) {
                    if let Some(o) = ident(a, b, "type") {
                        return Some(o);
                    }
                }
            }
            if let (Some(c), Some(rc), Some(b)) = (n.children(), &m.children, m.block) {
                if let Some(o) = doc(ctx, t, c, rc, (b.0 + 1, b.1 - 1)) {
                    return Some(o);
                }
            }
        }
        None
    }
    pub fn spans(ctx: &mut Ctx, t: &str) -> Outcome {
        let Verdict::Accept(rd, _) = refparse::parse_document(t) else { return Outcome::Skip("not accepted by both") };
        let d = match tri!(KdlDocument::parse_v2(t), "parse") {
            Ok(d) => d,
            Err(_) => return Outcome::Skip("not accepted by both"),
        };
        if model::diff(&model::doc(&d), &model::from_ref(&rd), model::SHAPE).is_some() {
            return Outcome::Skip("structure differs (another property)");
        }
        if let Some(o) = doc(ctx, t, &d, &rd, (0, t.len())) {
            return o;
        }
        Outcome::Held(!d.nodes().is_empty())
    }
}
#[cfg(feature = "full")]
pub use spans::spans;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C05",
            rule: "non-trivial: accepted document with at least one node, printed and compared byte for byte",
            run: |c| drive(c, Mix { generated: (150_000, 3_000_000), tokens: (100_000, 2_000_000), ..MIX }, roundtrip),
            replay: |c, _, d| text_replay(c, d, roundtrip),
        },
        Prop {
            id: "C06",
            rule: "non-trivial: input longer than one byte put through every parsing entry point (and every formatting entry point when accepted)",
            run: |c| drive(c, Mix { generated: (40_000, 800_000), mutated: (60_000, 1_500_000), ..MIX }, totality),
            replay: |c, _, d| text_replay(c, d, totality),
        },
        Prop {
            id: "C08",
            rule: "non-trivial: input rejected by at least one parsing entry point, whose error was inspected",
            run: |c| drive(c, Mix { generated: (10_000, 200_000), mutated: (100_000, 3_000_000), ..MIX }, diagnostics),
            replay: |c, _, d| text_replay(c, d, diagnostics),
        },
        Prop {
            id: "C28",
            rule: "non-trivial: text in which at least two lines, apart from each other, are wrong by themselves, all of which were reported",
            run: |c| line_texts(c, all_errors),
            replay: |c, _, d| text_replay(c, d, all_errors),
        },
        #[cfg(feature = "full")]
        Prop {
            id: "C09",
            rule: "non-trivial: accepted document with at least one node whose spans were compared with the reference positions",
            run: |c| drive(c, Mix { generated: (150_000, 3_000_000), ..MIX }, spans),
            replay: |c, _, d| text_replay(c, d, spans),
        },
    ]
}
