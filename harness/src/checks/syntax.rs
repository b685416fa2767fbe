//! C01 acceptance, C02 structure, C03 strings, C04 numbers/keywords.
use super::{text_replay, Prop};
use crate::ctx::{Ctx, Outcome};
use crate::model::{self, MDoc};
use crate::refparse::{self, Val, Verdict};
use crate::work::{drive, Mix, MIX};
use crate::{bail, tri};
use kdl::KdlDocument;

fn interesting(t: &str) -> bool {
    t.len() > 1
}

/// C01: parse succeeds exactly on KDL v2 documents.
pub fn accept(ctx: &mut Ctx, t: &str) -> Outcome {
    let v = refparse::parse_document(t);
    let got = tri!(KdlDocument::parse_v2(t), "parse");
    if v.is_gray() {
        return Outcome::Skip("grammar leaves it open");
    }
    match (&v, &got) {
        (Verdict::Accept(..), Ok(_)) => {
            ctx.count("accepted_agree");
            Outcome::Held(interesting(t))
        }
        (Verdict::Reject(_, why, _), Err(_)) => {
            ctx.count("rejected_agree");
            let k = format!("reject_reason:{why}");
            ctx.count(&k);
            Outcome::Held(interesting(t))
        }
        (Verdict::Accept(..), Err(e)) => {
            let m: Vec<String> = e.diagnostics.iter().map(|d| d.to_string()).collect();
            bail!("rejects-valid", "valid document rejected: {m:?}")
        }
        (Verdict::Reject(p, why, _), Ok(d)) => {
            bail!("accepts-invalid", "invalid document accepted (reference: {why} at byte {p}); parsed as {} nodes", d.nodes().len())
        }
    }
}

/// Parse with both; None when the case is not for this property.
fn both(t: &str) -> Result<Option<(MDoc, MDoc)>, String> {
    let v = refparse::parse_document(t);
    let rd = match v {
        Verdict::Accept(rd, _) => rd,
        _ => return Ok(None),
    };
    let got = crate::ctx::sut(|| KdlDocument::parse_v2(t))?;
    Ok(match got {
        Ok(d) => Some((model::doc(&d), model::from_ref(&rd))),
        Err(_) => None,
    })
}

/// A lone literal (`n <literal>`) must be accepted exactly when its own rules
/// say so; elsewhere acceptance is C01's business.
fn lone_literal(t: &str, numeric: bool) -> Option<Outcome> {
    let v = refparse::parse_document(t);
    if v.is_gray() {
        return None;
    }
    let ours = |d: &MDoc| {
        let (1, Some(n)) = (d.len(), d.first()) else { return false };
        n.name == "n" && n.ty.is_none() && n.children.is_none() && n.entries.len() == 1 && {
            let e = &n.entries[0];
            e.name.is_none() && e.ty.is_none() && (numeric != matches!(e.value, Val::Str(_)))
        }
    };
    let got = match crate::ctx::sut(|| KdlDocument::parse_v2(t)) {
        Err(p) => return Some(Outcome::Viol("panic".into(), format!("parse panicked: {p}"))),
        Ok(g) => g,
    };
    match (&v, got) {
        (Verdict::Accept(rd, _), Err(_)) if ours(&model::from_ref(rd)) => {
            Some(Outcome::Viol("literal-rejected".into(), format!("a valid literal was rejected; its value is {:?}", model::from_ref(rd)[0].entries[0].value)))
        }
        (Verdict::Reject(p, why, _), Ok(d)) if ours(&model::doc(&d)) => {
            Some(Outcome::Viol("malformed-literal-accepted".into(), format!("accepted as {:?} (reference: {why} at byte {p})", model::doc(&d)[0].entries[0].value)))
        }
        (Verdict::Reject(..), Err(_)) => Some(Outcome::Held(false)),
        _ => None,
    }
}

/// C02
pub fn structure(ctx: &mut Ctx, t: &str) -> Outcome {
    let (got, want) = match both(t) {
        Err(p) => bail!("panic", "parse panicked: {p}"),
        Ok(None) => return Outcome::Skip("not accepted by both"),
        Ok(Some(x)) => x,
    };
    if let Some(d) = model::diff(&got, &want, model::SHAPE) {
        bail!("structure", "parsed vs document: {d}");
    }
    let n = model::count_nodes(&want) as u64;
    ctx.add("nodes_compared", n);
    ctx.add("entries_compared", model::count_entries(&want) as u64);
    Outcome::Held(n > 0)
}

fn walk(got: &MDoc, want: &MDoc, f: &mut impl FnMut(&Val, &Val)) {
    for (a, b) in got.iter().zip(want) {
        for (e, g) in a.entries.iter().zip(&b.entries) {
            f(&e.value, &g.value);
        }
        if let (Some(x), Some(y)) = (&a.children, &b.children) {
            walk(x, y, f);
        }
    }
}

/// C03
pub fn strings(ctx: &mut Ctx, t: &str) -> Outcome {
    if t.starts_with("n ") {
        if let Some(o) = lone_literal(t, false) {
            return o;
        }
    }
    let (got, want) = match both(t) {
        Err(p) => bail!("panic", "parse panicked: {p}"),
        Ok(None) => return Outcome::Skip("not accepted by both"),
        Ok(Some(x)) => x,
    };
    let mut bad = None;
    let mut n = 0;
    let mut names = vec![];
    fn idents(d: &MDoc, o: &mut Vec<String>) {
        for n in d {
            o.push(n.name.clone());
            o.extend(n.ty.clone());
            for e in &n.entries {
                o.extend(e.name.clone());
                o.extend(e.ty.clone());
            }
            if let Some(c) = &n.children {
                idents(c, o);
            }
        }
    }
    let mut gn = vec![];
    idents(&got, &mut gn);
    idents(&want, &mut names);
    for (a, b) in gn.iter().zip(&names) {
        n += 1;
        if a != b {
            bail!("identifier-value", "identifier string {a:?}, document says {b:?}");
        }
    }
    walk(&got, &want, &mut |a, b| {
        if let Val::Str(w) = b {
            n += 1;
            if !a.same(b) && bad.is_none() {
                bad = Some(format!("string value {a:?}, document says {w:?}"));
            }
        }
    });
    if let Some(b) = bad {
        bail!("string-value", "{b}");
    }
    ctx.add("strings_compared", n);
    Outcome::Held(n > 0 && (t.contains('"') || t.contains('#')))
}

/// C04
pub fn numbers(ctx: &mut Ctx, t: &str) -> Outcome {
    if t.starts_with("n ") {
        if let Some(o) = lone_literal(t, true) {
            return o;
        }
    }
    let (got, want) = match both(t) {
        Err(p) => bail!("panic", "parse panicked: {p}"),
        Ok(None) => return Outcome::Skip("not accepted by both"),
        Ok(Some(x)) => x,
    };
    let mut bad = None;
    let (mut i, mut f, mut k) = (0, 0, 0);
    walk(&got, &want, &mut |a, b| {
        match b {
            Val::Str(_) => return,
            Val::Int(_) | Val::BigInt => i += 1,
            Val::Float(_) => f += 1,
            _ => k += 1,
        }
        if !a.same(b) && bad.is_none() {
            bad = Some(format!("value {a:?}, document says {b:?}"));
        }
    });
    if let Some(b) = bad {
        bail!("value", "{b}");
    }
    ctx.add("integers_compared", i);
    ctx.add("floats_compared", f);
    ctx.add("keywords_compared", k);
    Outcome::Held(i + f + k > 0)
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "non-trivial: input longer than one byte and judged (accepted or rejected) by the independent reference recogniser",
            run: |c| drive(c, MIX, accept),
            replay: |c, _, d| text_replay(c, d, accept),
        },
        Prop {
            id: "C02",
            rule: "non-trivial: accepted document with at least one node whose tree was compared with the reference tree",
            run: |c| drive(c, Mix { generated: (120_000, 3_000_000), codepoints: false, numbers: (0, 0), ..MIX }, structure),
            replay: |c, _, d| text_replay(c, d, structure),
        },
        Prop {
            id: "C03",
            rule: "non-trivial: accepted document containing a quoted or raw string whose value was compared",
            run: |c| drive(c, Mix { generated: (80_000, 2_000_000), strings: (300_000, 8_000_000), numbers: (0, 0), tokens: (20_000, 200_000), ..MIX }, strings),
            replay: |c, _, d| text_replay(c, d, strings),
        },
        Prop {
            id: "C04",
            rule: "non-trivial: accepted document with at least one number or keyword whose value was compared",
            run: |c| drive(c, Mix { numbers: (400_000, 10_000_000), strings: (0, 0), codepoints: false, tokens: (20_000, 200_000), ..MIX }, numbers),
            replay: |c, _, d| text_replay(c, d, numbers),
        },
    ]
}
