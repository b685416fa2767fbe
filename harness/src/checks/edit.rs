//! C10 lookups, C11 editing vs a sequential model, C12 edited documents print
//! what they hold, C13 locality of edits, C14 built documents.
use super::text::clip;
use super::Prop;
use crate::ctx::{sut, Ctx, Data, Outcome};
use crate::gen::{rand_doc, rand_string, rand_val, Gen, Style};
use crate::model::{self, MDoc, MEntry, MNode, EXACT};
use crate::refparse::{self, Val, Verdict};
use crate::rng::{mix, Rng};
use crate::{bail, tri};
use kdl::{KdlDocument, KdlEntry, KdlIdentifier, KdlNode, KdlValue, NodeKey};
use std::ptr;

const NAMES: [&str; 5] = ["a", "b", "-", "k v", ""];

fn spell(r: &mut Rng, s: &str) -> String {
    let bare = refparse::bare_ok(s);
    match r.below(4) {
        0 | 1 if bare => s.to_string(),
        2 => format!("#\"{s}\"#"),
        3 if !s.is_empty() => {
            let c = s.chars().next().unwrap();
            format!("\"\\u{{{:x}}}{}\"", c as u32, &s[c.len_utf8()..])
        }
        _ => format!("\"{s}\""),
    }
}
/// A document over few names, so that duplicates abound, in varied spellings.
pub fn small_doc(r: &mut Rng, depth: usize) -> String {
    let mut s = String::new();
    for _ in 0..r.few(5) {
        s.push_str(&small_node(r, depth));
        s.push_str(*r.pick(&["\n", ";", "\n\n", " // c\n"]));
    }
    s
}
fn small_node(r: &mut Rng, depth: usize) -> String {
    let mut s = String::new();
    if r.p(1, 6) {
        s.push_str("(t)");
    }
    let nm = *r.pick(&NAMES);
    s.push_str(&spell(r, nm));
    for _ in 0..r.few(6) {
        s.push_str(*r.pick(&[" ", "  ", " /*x*/ ", " \\\n "]));
        if r.p(1, 2) {
            let k = *r.pick(&NAMES);
            s.push_str(&spell(r, k));
            s.push_str(*r.pick(&["=", " = ", "= "]));
        }
        if r.p(1, 8) {
            s.push_str("(u)");
        }
        match r.below(5) {
            0..=2 => s.push_str(&r.below(40).to_string()),
            3 => s.push_str(*r.pick(&["#true", "#null", "1.5", "0x1F"])),
            _ => {
                let v = *r.pick(&NAMES);
                s.push_str(&spell(r, v));
            }
        }
    }
    if depth > 0 && r.p(1, 2) {
        s.push_str(" {");
        s.push_str(&small_doc(r, depth - 1));
        s.push('}');
    }
    s
}

// ---------------------------------------------------------------- C10

fn same_opt<T>(a: Option<&T>, b: Option<&T>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(x), Some(y)) => ptr::eq(x, y),
        _ => false,
    }
}
/// The typed views of a value agree with what it is.
fn look_value(v: &KdlValue) -> Result<(), String> {
    let kinds = [v.is_string(), v.is_integer(), v.is_float(), v.is_bool(), v.is_null()];
    let (want, made, same): (usize, KdlValue, bool) = match v {
        KdlValue::String(s) => (0, KdlValue::from(s.as_str()), v.as_string() == Some(s.as_str()) && KdlValue::from(s.clone()) == *v),
        KdlValue::Integer(i) => (1, KdlValue::from(*i), v.as_integer() == Some(*i) && KdlValue::from(Some(*i)) == *v),
        KdlValue::Float(f) => (2, KdlValue::from(*f), v.as_float().map(f64::to_bits) == Some(f.to_bits())),
        KdlValue::Bool(b) => (3, KdlValue::from(*b), v.as_bool() == Some(*b) && KdlValue::from(Some(*b)) == *v),
        KdlValue::Null => (4, KdlValue::from(None::<i128>), KdlValue::from(None::<&str>) == *v),
    };
    if kinds.iter().enumerate().any(|(i, k)| *k != (i == want)) {
        return Err(format!("{v:?} says is_string, is_integer, is_float, is_bool, is_null: {kinds:?}"));
    }
    let some = [v.as_string().is_some(), v.as_integer().is_some(), v.as_float().is_some(), v.as_bool().is_some()];
    if some.iter().enumerate().any(|(i, k)| *k != (i == want)) || !same {
        return Err(format!("{v:?} viewed as string, integer, float, bool: {:?} {:?} {:?} {:?}", v.as_string(), v.as_integer(), v.as_float(), v.as_bool()));
    }
    if !model::val(&made).same(&model::val(v)) {
        return Err(format!("{v:?} converted from what it holds is {made:?}"));
    }
    Ok(())
}
fn look_ident(i: &KdlIdentifier) -> Result<(), String> {
    let printed = i.to_string();
    if i.len() != printed.len() || i.is_empty() != printed.is_empty() {
        return Err(format!("{printed:?} says its length is {} and is_empty {}", i.len(), i.is_empty()));
    }
    if String::from(i.clone()) != i.value() || KdlIdentifier::from(i.value()).value() != i.value() || KdlIdentifier::from(i.value().to_string()).value() != i.value() {
        return Err(format!("{printed:?} changes when converted to a string and back"));
    }
    if i.repr().is_some_and(|r| r != printed) {
        return Err(format!("{printed:?} says it is written {:?}", i.repr()));
    }
    Ok(())
}
fn look_entry(e: &mut KdlEntry) -> Result<(), String> {
    look_value(e.value())?;
    for i in [e.name(), e.ty()].into_iter().flatten() {
        look_ident(i)?;
    }
    let printed = e.to_string();
    if e.len() != printed.len() || e.is_empty() != printed.is_empty() {
        return Err(format!("entry {printed:?} says its length is {} and is_empty {}", e.len(), e.is_empty()));
    }
    let p = (e.name().map(|x| x as *const KdlIdentifier), e.ty().map(|x| x as *const KdlIdentifier), e.value() as *const KdlValue);
    let q = (e.name_mut().map(|x| x as *const KdlIdentifier), e.ty_mut().map(|x| x as *const KdlIdentifier), e.value_mut() as *const KdlValue);
    if p != q {
        return Err(format!("entry {printed:?}: name_mut, ty_mut or value_mut is not name, ty or value"));
    }
    match (e.format().cloned(), e.format_mut().cloned()) {
        (Some(f), Some(g)) if f == g => {
            let mut c = e.clone();
            c.set_format(f);
            if c.to_string() != printed {
                return Err(format!("entry {printed:?} given its own format prints {:?}", c.to_string()));
            }
        }
        (None, None) => {}
        _ => return Err(format!("entry {printed:?}: format_mut is not format")),
    }
    Ok(())
}
fn look_doc(ctx: &mut Ctx, d: &mut KdlDocument) -> Result<u64, String> {
    let mut n = 0;
    let printed = d.to_string();
    if d.len() != printed.len() || d.is_empty() != printed.is_empty() {
        return Err(format!("len {} / is_empty {} for a document that prints {} bytes", d.len(), d.is_empty(), printed.len()));
    }
    let mut names: Vec<String> = d.nodes().iter().map(|x| x.name().value().to_string()).collect();
    names.push("absent".into());
    names.push("-".into());
    names.sort();
    names.dedup();
    for name in &names {
        n += 1;
        let want = d.nodes().iter().position(|x| x.name().value() == name);
        let wn = want.map(|i| &d.nodes()[i]);
        if !same_opt(d.get(name), wn) {
            return Err(format!("get({name:?}) is not the first node of that name"));
        }
        let args: Vec<&KdlValue> = wn.map(|x| x.entries().iter().filter(|e| e.name().is_none()).map(|e| e.value()).collect()).unwrap_or_default();
        if !same_opt(d.get_arg(name), args.first().copied()) {
            return Err(format!("get_arg({name:?}) is not the first argument of the first such node"));
        }
        let got: Vec<&KdlValue> = d.iter_args(name).collect();
        if got.len() != args.len() || got.iter().zip(&args).any(|(a, b)| !ptr::eq(*a, *b)) {
            return Err(format!("iter_args({name:?}) gave {got:?}, the node's arguments are {args:?}"));
        }
        let dash: Vec<&KdlValue> = wn
            .and_then(|x| x.children())
            .map(|c| c.nodes().iter().filter(|x| x.name().value() == "-").filter_map(|x| x.entries().iter().find(|e| e.name().is_none()).map(|e| e.value())).collect())
            .unwrap_or_default();
        let got: Vec<&KdlValue> = d.iter_dash_args(name).collect();
        if got.len() != dash.len() || got.iter().zip(&dash).any(|(a, b)| !ptr::eq(*a, *b)) {
            return Err(format!("iter_dash_args({name:?}) gave {got:?}, expected {dash:?}"));
        }
        let wp = wn.map(|x| x as *const KdlNode);
        let ap = args.first().map(|x| *x as *const KdlValue);
        if d.get_mut(name).map(|x| x as *const KdlNode) != wp {
            return Err(format!("get_mut({name:?}) disagrees with get"));
        }
        if d.get_arg_mut(name).map(|x| x as *const KdlValue) != ap {
            return Err(format!("get_arg_mut({name:?}) disagrees with get_arg"));
        }
    }
    let listed: Vec<*const KdlNode> = d.nodes().iter().map(|x| x as *const _).collect();
    let walked: Vec<*const KdlNode> = (&*d).into_iter().map(|x| x as *const _).collect();
    let walked_mut: Vec<*const KdlNode> = (&mut *d).into_iter().map(|x| x as *const _).collect();
    if listed != walked || listed != walked_mut {
        return Err("iterating the document differs from nodes()".into());
    }
    match (d.format().cloned(), d.format_mut().cloned()) {
        (Some(f), Some(g)) if f == g => {
            let mut c = d.clone();
            c.set_format(f);
            if c.to_string() != printed {
                return Err(format!("a document given its own format prints {:?}", c.to_string()));
            }
            if c.into_iter().ne(d.nodes().iter().cloned()) {
                return Err("taking the document apart gives other nodes".into());
            }
        }
        (None, None) => {}
        _ => return Err("format_mut is not format".into()),
    }
    for x in d.nodes_mut() {
        n += look_node(ctx, x)?;
    }
    Ok(n)
}
fn look_node(ctx: &mut Ctx, x: &mut KdlNode) -> Result<u64, String> {
    let mut n = 0;
    for i in [Some(x.name()), x.ty()].into_iter().flatten() {
        look_ident(i)?;
    }
    let p = (x.name() as *const KdlIdentifier, x.ty().map(|t| t as *const KdlIdentifier));
    if p != (x.name_mut() as *const _, x.ty_mut().as_ref().map(|t| t as *const _)) {
        return Err("name_mut or ty_mut is not name or ty".into());
    }
    for e in x.entries_mut() {
        look_entry(e)?;
    }
    let f = x.format().cloned();
    match (f, x.format_mut().cloned()) {
        (Some(f), Some(g)) if f == g => {
            let mut c = x.clone();
            c.set_format(f);
            if c.to_string() != x.to_string() {
                return Err(format!("a node given its own format prints {:?}", c.to_string()));
            }
        }
        (None, None) => {}
        _ => return Err("a node's format_mut is not its format".into()),
    }
    let mut keys: Vec<String> = x.entries().iter().filter_map(|e| e.name().map(|i| i.value().to_string())).collect();
    keys.push("absent".into());
    keys.sort();
    keys.dedup();
    let nargs = x.entries().iter().filter(|e| e.name().is_none()).count();
    for k in &keys {
        n += 1;
        let want = x.entries().iter().rposition(|e| e.name().map(|i| i.value()) == Some(k.as_str()));
        let we = want.map(|i| &x.entries()[i]);
        let dup = x.entries().iter().filter(|e| e.name().map(|i| i.value()) == Some(k.as_str())).count();
        if dup > 1 {
            ctx.count("duplicate_property_lookups");
        }
        if !same_opt(x.entry(k.as_str()), we) || !same_opt(x.get(k.as_str()), we.map(|e| e.value())) {
            return Err(format!("entry/get({k:?}) is not the rightmost property of that name"));
        }
        if !same_opt(x.entry(NodeKey::Key(KdlIdentifier::from(k.as_str()))), we) || !same_opt(x.get(k.clone()), we.map(|e| e.value())) {
            return Err(format!("entry/get({k:?}) differs by key type"));
        }
        // the same key in another spelling
        let mut other = KdlIdentifier::from(k.as_str());
        other.set_repr(format!("#\"{k}\"#"));
        if !same_opt(x.entry(NodeKey::Key(other)), we) {
            return Err(format!("entry({k:?}) depends on how the key is written"));
        }
        let ep = we.map(|e| e as *const KdlEntry);
        let vp = we.map(|e| e.value() as *const KdlValue);
        if x.entry_mut(k.as_str()).map(|e| e as *const KdlEntry) != ep || x.get_mut(k.as_str()).map(|e| e as *const KdlValue) != vp {
            return Err(format!("entry_mut/get_mut({k:?}) disagree with entry/get"));
        }
        if let Some(vp) = vp {
            if &x[k.as_str()] as *const KdlValue != vp || &mut x[k.as_str()] as *const KdlValue != vp {
                return Err(format!("index [{k:?}] disagrees with get"));
            }
        }
    }
    for i in 0..nargs + 2 {
        n += 1;
        let we = x.entries().iter().filter(|e| e.name().is_none()).nth(i);
        if !same_opt(x.entry(i), we) || !same_opt(x.get(i), we.map(|e| e.value())) {
            return Err(format!("entry/get({i}) is not argument number {i}"));
        }
        let ep = we.map(|e| e as *const KdlEntry);
        let vp = we.map(|e| e.value() as *const KdlValue);
        if x.entry_mut(i).map(|e| e as *const KdlEntry) != ep || x.get_mut(i).map(|e| e as *const KdlValue) != vp {
            return Err(format!("entry_mut/get_mut({i}) disagree with entry/get"));
        }
        if let Some(vp) = vp {
            if &x[i] as *const KdlValue != vp || &mut x[i] as *const KdlValue != vp {
                return Err(format!("index [{i}] disagrees with get"));
            }
        }
    }
    let listed: Vec<*const KdlEntry> = x.entries().iter().map(|e| e as *const _).collect();
    if x.len() != listed.len() || x.is_empty() != listed.is_empty() {
        return Err(format!("len {} / is_empty {} for {} entries", x.len(), x.is_empty(), listed.len()));
    }
    if x.iter().map(|e| e as *const KdlEntry).collect::<Vec<_>>() != listed || x.iter_mut().map(|e| e as *const KdlEntry).collect::<Vec<_>>() != listed {
        return Err("iter/iter_mut differ from entries()".into());
    }
    let kids: Vec<*const KdlNode> = x.children().map(|c| c.nodes().iter().map(|k| k as *const _).collect()).unwrap_or_default();
    if x.iter_children().map(|k| k as *const KdlNode).collect::<Vec<_>>() != kids || x.iter_children_mut().map(|k| k as *const KdlNode).collect::<Vec<_>>() != kids {
        return Err("iter_children differs from the children block".into());
    }
    if let Some(c) = x.children_mut() {
        n += look_doc(ctx, c)?;
    }
    Ok(n)
}
pub fn lookups(ctx: &mut Ctx, t: &str) -> Outcome {
    let mut d = match tri!(KdlDocument::parse_v2(t), "parse") {
        Ok(d) => d,
        Err(_) => return Outcome::Skip("not accepted"),
    };
    let r = tri!(look_doc(ctx, &mut d), "lookup");
    match r {
        Err(e) => bail!("lookup", "{e}"),
        Ok(n) => {
            ctx.add("lookups_compared", n);
            Outcome::Held(d.nodes().len() > 1)
        }
    }
}

// ---------------------------------------------------------------- C11

fn entry_from(r: &mut Rng, e: &MEntry) -> KdlEntry {
    let mut k = match &e.name {
        Some(n) => {
            let id = if r.p(1, 2) {
                KdlIdentifier::from(n.as_str())
            } else {
                spell_id(r, n)
            };
            KdlEntry::new_prop(id, model::to_kdl(&e.value))
        }
        None => KdlEntry::new(model::to_kdl(&e.value)),
    };
    if let Some(t) = &e.ty {
        k.set_ty(t.as_str());
    }
    k
}
/// An identifier spelled in a random valid way.
fn spell_id(r: &mut Rng, s: &str) -> KdlIdentifier {
    if s.chars().all(|c| c.is_ascii_alphanumeric() || c == ' ' || c == '-') {
        let t = spell(r, s);
        if let Ok(i) = KdlIdentifier::parse(&t) {
            return i;
        }
    }
    KdlIdentifier::from(s)
}
fn small_val(r: &mut Rng) -> Val {
    if r.p(3, 4) {
        Val::Int(r.below(1000) as i128)
    } else {
        rand_val(r, 20)
    }
}
type ML = Vec<MEntry>;
fn listing(n: &KdlNode) -> ML {
    n.entries().iter().map(model::entry).collect()
}
fn same_list(a: &ML, b: &ML) -> Option<String> {
    if a.len() != b.len() {
        return Some(format!("{} entries, model has {}: {a:?} vs {b:?}", a.len(), b.len()));
    }
    a.iter().zip(b).enumerate().find_map(|(i, (x, y))| model::diff_entry(x, y, EXACT, &format!("[{i}]")))
}
fn short(e: &MEntry) -> String {
    format!("{}{:?}", e.name.as_ref().map(|n| format!("{n:?}=")).unwrap_or_default(), e.value)
}

pub fn editing(ctx: &mut Ctx, seed: u64) -> Outcome {
    let mut r = Rng::new(seed);
    let mut log: Vec<String> = vec![];
    let mut n = if r.p(2, 3) {
        let t = small_node(&mut r, 1);
        log.push(format!("parse {t:?}"));
        match tri!(KdlNode::parse(&t), "KdlNode::parse") {
            Ok(n) => n,
            Err(_) => return Outcome::Skip("seed node not accepted"),
        }
    } else {
        log.push("new a".into());
        KdlNode::new("a")
    };
    let mut m = listing(&n);
    let kids0 = n.children().map(model::doc);
    let (name0, ty0) = (n.name().value().to_string(), n.ty().map(|t| t.value().to_string()));
    let steps = r.range(4, 30);
    macro_rules! fail {
        ($k:expr, $($a:tt)*) => {{
            let h = log.join("; ");
            return Outcome::Viol($k.to_string(), format!("{} after: {}", format!($($a)*), h.chars().rev().take(500).collect::<String>().chars().rev().collect::<String>()));
        }};
    }
    for _ in 0..steps {
        let key = r.pick(&NAMES).to_string();
        let nargs = m.iter().filter(|e| e.name.is_none()).count();
        let op = r.below(16);
        ctx.count(["op:insert_prop", "op:insert_arg", "op:remove_prop", "op:remove_arg", "op:push", "op:entry_mut_set", "op:get_mut", "op:retain", "op:sort_by", "op:sort_by_key", "op:index_mut", "op:clear", "op:entries_mut", "op:set_names", "op:remove_absent", "op:refused"][op]);
        match op {
            0 => {
                let e = MEntry { ty: None, name: if r.p(1, 2) { Some(key.clone()) } else { None }, value: small_val(&mut r) };
                let k = entry_from(&mut r, &e);
                log.push(format!("insert({key:?}, {})", short(&e)));
                let prev = match r.below(3) {
                    0 => tri!(n.insert(key.as_str(), k), "insert"),
                    1 => tri!(n.insert(key.clone(), k), "insert"),
                    _ => {
                        let id = spell_id(&mut r, &key);
                        tri!(n.insert(NodeKey::Key(id), k), "insert")
                    }
                };
                let e = MEntry { name: Some(key.clone()), ..e };
                match m.iter().rposition(|x| x.name.as_deref() == Some(&key)) {
                    Some(i) => {
                        let old = std::mem::replace(&mut m[i], e);
                        match prev {
                            Some(p) if model::diff_entry(&model::entry(&p), &old, EXACT, "").is_none() => {}
                            p => fail!("insert-return", "insert returned {:?}, it replaced {}", p.map(|e| short(&model::entry(&e))), short(&old)),
                        }
                    }
                    None => {
                        m.push(e);
                        if let Some(p) = prev {
                            fail!("insert-return", "insert of a new key returned {}", short(&model::entry(&p)));
                        }
                    }
                }
            }
            1 => {
                let i = r.below(nargs + 1);
                let e = MEntry { ty: None, name: None, value: small_val(&mut r) };
                let k = entry_from(&mut r, &e);
                log.push(format!("insert({i}, {})", short(&e)));
                if let Some(p) = tri!(n.insert(i, k), "insert") {
                    fail!("insert-return", "inserting an argument returned {}", short(&model::entry(&p)));
                }
                // a new argument becomes argument number i; the others keep
                // their order, and properties stay as they are
                let got = listing(&n);
                let args: ML = got.iter().filter(|x| x.name.is_none()).cloned().collect();
                let mut want: ML = m.iter().filter(|x| x.name.is_none()).cloned().collect();
                want.insert(i, e);
                if let Some(d) = same_list(&args, &want) {
                    fail!("insert-argument", "arguments after insert: {d}");
                }
                let props: ML = got.iter().filter(|x| x.name.is_some()).cloned().collect();
                let wprops: ML = m.iter().filter(|x| x.name.is_some()).cloned().collect();
                if let Some(d) = same_list(&props, &wprops) {
                    fail!("insert-argument", "properties after inserting an argument: {d}");
                }
                m = got;
            }
            2 | 14 => {
                let key = if op == 14 { "absent".to_string() } else { key };
                log.push(format!("remove({key:?})"));
                let prev = match r.below(3) {
                    0 => tri!(n.remove(key.as_str()), "remove"),
                    1 => tri!(n.remove(key.clone()), "remove"),
                    _ => {
                        let id = spell_id(&mut r, &key);
                        tri!(n.remove(NodeKey::Key(id)), "remove")
                    }
                };
                let have: Vec<usize> = (0..m.len()).filter(|i| m[*i].name.as_deref() == Some(key.as_str())).collect();
                match prev {
                    None if have.is_empty() => {}
                    None => fail!("remove-missing", "remove({key:?}) found nothing although the node has that property"),
                    Some(p) => {
                        // with duplicates, which one goes is not specified:
                        // what is gone must be what was returned
                        let pm = model::entry(&p);
                        let got = listing(&n);
                        let ok = have.iter().any(|i| {
                            let mut w = m.clone();
                            let gone = w.remove(*i);
                            same_list(&got, &w).is_none() && model::diff_entry(&gone, &pm, EXACT, "").is_none()
                        });
                        if !ok {
                            fail!("remove", "remove({key:?}) returned {} and left {got:?}, from {m:?}", short(&pm));
                        }
                        m = got;
                    }
                }
            }
            3 if nargs > 0 => {
                let i = r.below(nargs);
                log.push(format!("remove({i})"));
                let prev = tri!(n.remove(i), "remove");
                let at = (0..m.len()).filter(|j| m[*j].name.is_none()).nth(i).unwrap();
                let old = m.remove(at);
                match prev {
                    Some(p) if model::diff_entry(&model::entry(&p), &old, EXACT, "").is_none() => {}
                    p => fail!("remove-return", "remove({i}) returned {:?}, argument {i} was {}", p.map(|e| short(&model::entry(&e))), short(&old)),
                }
            }
            4 => {
                let e = MEntry { ty: None, name: if r.p(1, 2) { Some(key.clone()) } else { None }, value: small_val(&mut r) };
                log.push(format!("push({})", short(&e)));
                let k = entry_from(&mut r, &e);
                tri!(n.push(k), "push");
                m.push(e);
            }
            5 => {
                let v = small_val(&mut r);
                if r.p(1, 2) {
                    log.push(format!("entry_mut({key:?}).set_value"));
                    let at = m.iter().rposition(|x| x.name.as_deref() == Some(&key));
                    match (tri!(n.entry_mut(key.as_str()).map(|e| e.set_value(model::to_kdl(&v))), "entry_mut"), at) {
                        (Some(()), Some(i)) => m[i].value = v,
                        (None, None) => {}
                        (g, w) => fail!("entry_mut", "entry_mut({key:?}) found {} while the model has {}", g.is_some(), w.is_some()),
                    }
                } else if nargs > 0 {
                    let i = r.below(nargs);
                    log.push(format!("entry_mut({i}).set_value"));
                    let at = (0..m.len()).filter(|j| m[*j].name.is_none()).nth(i).unwrap();
                    if tri!(n.entry_mut(i).map(|e| e.set_value(model::to_kdl(&v))), "entry_mut").is_none() {
                        fail!("entry_mut", "entry_mut({i}) found nothing");
                    }
                    m[at].value = v;
                }
            }
            6 => {
                let v = small_val(&mut r);
                log.push(format!("get_mut({key:?})"));
                let at = m.iter().rposition(|x| x.name.as_deref() == Some(&key));
                match (tri!(n.get_mut(key.as_str()).map(|e| *e = model::to_kdl(&v)), "get_mut"), at) {
                    (Some(()), Some(i)) => m[i].value = v,
                    (None, None) => {}
                    (g, w) => fail!("get_mut", "get_mut({key:?}) found {} while the model has {}", g.is_some(), w.is_some()),
                }
            }
            7 => {
                let mask = r.next();
                log.push("retain".into());
                let mut i = 0;
                tri!(n.retain(|_| { i += 1; mask >> (i % 61) & 3 != 0 }), "retain");
                let mut i = 0;
                m.retain(|_| { i += 1; mask >> (i % 61) & 3 != 0 });
            }
            8 => {
                log.push("sort_by".into());
                tri!(n.sort_by(|a, b| a.name().map(|x| x.value()).cmp(&b.name().map(|x| x.value()))), "sort_by");
                m.sort_by(|a, b| a.name.cmp(&b.name));
            }
            9 => {
                log.push("sort_by_key".into());
                tri!(n.sort_by_key(|a| a.value().as_integer().map(|i| i % 5)), "sort_by_key");
                m.sort_by_key(|a| match a.value { Val::Int(i) => Some(i % 5), _ => None });
            }
            10 => {
                let v = small_val(&mut r);
                if r.p(1, 2) {
                    log.push(format!("[{key:?}]="));
                    tri!(n[key.as_str()] = model::to_kdl(&v), "index assignment");
                    match m.iter().rposition(|x| x.name.as_deref() == Some(&key)) {
                        Some(i) => m[i].value = v,
                        None => m.push(MEntry { ty: None, name: Some(key), value: v }),
                    }
                } else if nargs > 0 {
                    let i = r.below(nargs);
                    log.push(format!("[{i}]="));
                    tri!(n[i] = model::to_kdl(&v), "index assignment");
                    let at = (0..m.len()).filter(|j| m[*j].name.is_none()).nth(i).unwrap();
                    m[at].value = v;
                }
            }
            11 if r.p(1, 5) => {
                log.push("clear".into());
                tri!(n.clear(), "clear");
                m.clear();
            }
            12 if !m.is_empty() => {
                let i = r.below(m.len());
                log.push(format!("entries_mut().swap({i},0)"));
                n.entries_mut().swap(i, 0);
                m.swap(i, 0);
            }
            13 if !m.is_empty() => {
                let i = r.below(m.len());
                if m[i].name.is_some() && r.p(1, 2) {
                    log.push(format!("entries_mut()[{i}].set_name({key:?})"));
                    n.entries_mut()[i].set_name(Some(key.as_str()));
                    m[i].name = Some(key);
                } else {
                    log.push(format!("entries_mut()[{i}].set_ty({key:?})"));
                    n.entries_mut()[i].set_ty(key.as_str());
                    m[i].ty = Some(key);
                }
            }
            15 => {
                // requests that cannot be met are refused, and change nothing
                // (checked below): not by losing or misplacing an entry
                let v = model::to_kdl(&small_val(&mut r));
                let (what, refused) = match r.below(5) {
                    0 => {
                        let i = nargs + 1 + r.below(3);
                        (format!("insert({i}, argument) with {nargs} arguments"), crate::ctx::sut(|| drop(n.insert(i, KdlEntry::new(v)))).is_err())
                    }
                    1 => {
                        let i = r.below(nargs + 1);
                        (format!("insert({i}, a property)"), crate::ctx::sut(|| drop(n.insert(i, KdlEntry::new_prop(key.as_str(), v)))).is_err())
                    }
                    2 => (format!("insert({key:?}, a property of another name)"), crate::ctx::sut(|| drop(n.insert(key.as_str(), KdlEntry::new_prop(format!("{key}'").as_str(), v)))).is_err()),
                    3 => {
                        let i = nargs + r.below(3);
                        (format!("remove({i}) with {nargs} arguments"), crate::ctx::sut(|| drop(n.remove(i))).is_err())
                    }
                    _ => {
                        let i = nargs + r.below(3);
                        (format!("[{i}]= with {nargs} arguments"), crate::ctx::sut(|| n[i] = v).is_err())
                    }
                };
                log.push(what.clone());
                if !refused {
                    fail!("not-refused", "{what} was not refused");
                }
            }
            _ => {}
        }
        ctx.count("operations");
        if let Some(d) = same_list(&listing(&n), &m) {
            fail!("entries-differ", "{d}");
        }
        if n.len() != m.len() || n.is_empty() != m.is_empty() {
            fail!("len", "len {} is_empty {} for {} entries", n.len(), n.is_empty(), m.len());
        }
        if n.name().value() != name0 || n.ty().map(|t| t.value().to_string()) != ty0 {
            fail!("collateral", "editing entries changed the node's name or type");
        }
        let kids = n.children().map(model::doc);
        if match (&kids, &kids0) { (Some(a), Some(b)) => model::diff(a, b, EXACT).is_some(), (None, None) => false, _ => true } {
            fail!("collateral", "editing entries changed the children");
        }
    }
    Outcome::Held(steps > 3)
}

// ---------------------------------------------------------------- C12

/// Does `s` say, by both readers, what the document holds?
pub fn says(s: &str, want: &MDoc) -> Result<(), (String, String)> {
    let e = |k: &str, d: String| Err((k.to_string(), d));
    match sut(|| KdlDocument::parse_v2(s)) {
        Err(p) => return e("panic", format!("parsing {:?} panicked: {p}", clip(s))),
        Ok(Err(er)) => return e("unparseable", format!("printed text {:?} is rejected: {:?}", clip(s), super::text::msgs(&er))),
        Ok(Ok(d)) => {
            if let Some(x) = model::diff(&model::doc(&d), want, EXACT) {
                return e("content", format!("printed text {:?} reads back differently: {x}", clip(s)));
            }
        }
    }
    match refparse::parse_document(s) {
        Verdict::Accept(rd, info) if !info.gray.contains(&refparse::G_BIGINT) => {
            if let Some(x) = model::diff(&model::from_ref(&rd), want, EXACT) {
                return e("content-by-spec", format!("printed text {:?} means something else: {x}", clip(s)));
            }
        }
        Verdict::Reject(p, why, info) if info.gray.is_empty() => {
            return e("invalid-by-spec", format!("printed text {:?} is not KDL v2: {why} at byte {p}", clip(s)));
        }
        _ => {}
    }
    Ok(())
}

fn pick_doc<'a>(r: &mut Rng, d: &'a mut KdlDocument) -> &'a mut KdlDocument {
    let kids: Vec<usize> = (0..d.nodes().len()).filter(|i| d.nodes()[*i].children().is_some()).collect();
    if kids.is_empty() || r.p(1, 2) {
        return d;
    }
    let i = *r.pick(&kids);
    pick_doc(r, d.nodes_mut()[i].children_mut().as_mut().unwrap())
}
fn fresh_node(r: &mut Rng) -> KdlNode {
    match r.below(4) {
        0 => {
            let s = rand_string(r, 30);
            KdlNode::new(s)
        }
        1 => {
            let m = crate::gen::rand_node(r, 30, 1, 3);
            build_node(r, &m)
        }
        2 => {
            let t = small_node(r, 1);
            KdlNode::parse(&t).unwrap_or_else(|_| KdlNode::new("x"))
        }
        _ => {
            let t = *r.pick(&["p", "q 1", "  r", "s;", "t\n", "(t)u {\n}\n", "v // c", "\n\nw 2\n", "/* c */ x y=1 // z\n"]);
            KdlNode::parse(t).unwrap_or_else(|_| KdlNode::new("x"))
        }
    }
}
fn fresh_entry(r: &mut Rng) -> KdlEntry {
    match r.below(4) {
        0 => KdlEntry::new(model::to_kdl(&rand_val(r, 40))),
        1 => KdlEntry::new_prop(rand_string(r, 30), model::to_kdl(&rand_val(r, 40))),
        2 => {
            let m = crate::gen::rand_entry(r, 40);
            entry_from(r, &m)
        }
        _ => {
            let t = *r.pick(&["1", " 2", "k=3", " k = 4", "(t)5", "\"x\"", "#true", "x", "0x1f", " /*c*/ 6", "\\\n 7", "k=(t)\"v\"", "8 ", "k=9 "]);
            KdlEntry::parse(t).unwrap_or_else(|_| KdlEntry::new(1))
        }
    }
}

pub fn edit_once(r: &mut Rng, d: &mut KdlDocument, log: &mut Vec<String>) {
    let pd = pick_doc(r, d);
    let op = r.below(32);
    let len = pd.nodes().len();
    if op < 8 || len == 0 {
        match op % 8 {
            0 | 1 | 2 => {
                let n = fresh_node(r);
                let i = r.below(len + 1);
                log.push(format!("insert node {:?} at {i}", n.to_string()));
                pd.nodes_mut().insert(i, n);
            }
            3 | 4 if len > 0 => {
                let i = r.below(len);
                log.push(format!("remove node {i}"));
                pd.nodes_mut().remove(i);
            }
            5 if len > 1 => {
                log.push("rotate nodes".into());
                pd.nodes_mut().rotate_left(1);
            }
            6 => {
                log.push("document clear_format".into());
                pd.clear_format();
            }
            _ => {
                log.push("document autoformat".into());
                pd.autoformat();
            }
        }
        return;
    }
    let i = r.below(len);
    let n = &mut pd.nodes_mut()[i];
    let nargs = n.entries().iter().filter(|e| e.name().is_none()).count();
    let nent = n.entries().len();
    match op {
        8 => {
            log.push(format!("node {i} clear_format"));
            n.clear_format();
        }
        9 => {
            log.push(format!("node {i} clear_format_recursive"));
            n.clear_format_recursive();
        }
        10 => {
            log.push(format!("node {i} autoformat"));
            n.autoformat();
        }
        11 => {
            let s = rand_string(r, 40);
            log.push(format!("node {i} set_name {s:?}"));
            n.set_name(s);
        }
        12 => {
            if r.p(1, 2) {
                let s = rand_string(r, 40);
                log.push(format!("node {i} set_ty {s:?}"));
                n.set_ty(s);
            } else {
                log.push(format!("node {i} remove type"));
                *n.ty_mut() = None;
            }
        }
        13 => {
            log.push(format!("node {i} ensure_children"));
            let k = fresh_node(r);
            n.ensure_children().nodes_mut().push(k);
        }
        14 => {
            log.push(format!("node {i} clear_children"));
            n.clear_children();
        }
        15 => {
            let t = small_doc(r, 1);
            log.push(format!("node {i} set_children {t:?}"));
            if let Ok(c) = KdlDocument::parse_v2(&t) {
                n.set_children(c);
            }
        }
        16 | 17 => {
            let e = fresh_entry(r);
            log.push(format!("node {i} push {:?}", e.to_string()));
            n.push(e);
        }
        18 => {
            let e = KdlEntry::new(model::to_kdl(&rand_val(r, 40)));
            let k = r.below(nargs + 1);
            log.push(format!("node {i} insert({k}, {e})"));
            n.insert(k, e);
        }
        19 => {
            let k = r.pick(&NAMES).to_string();
            let v = rand_val(r, 40);
            log.push(format!("node {i} insert({k:?}, {v:?})"));
            n.insert(k.as_str(), model::to_kdl(&v));
        }
        20 if nent > 0 => {
            let k = r.below(nent);
            log.push(format!("node {i} remove entry {k}"));
            n.entries_mut().remove(k);
        }
        21 if nent > 0 => {
            let k = r.below(nent);
            let v = rand_val(r, 40);
            log.push(format!("node {i} entry {k} set_value({v:?}) and clear_format"));
            let e = &mut n.entries_mut()[k];
            e.set_value(model::to_kdl(&v));
            e.clear_format();
        }
        22 if nent > 1 => {
            log.push(format!("node {i} reverse entries"));
            n.entries_mut().reverse();
        }
        23 if nent > 0 => {
            let k = r.below(nent);
            let e = &mut n.entries_mut()[k];
            match r.below(3) {
                0 => {
                    log.push(format!("node {i} entry {k} autoformat"));
                    e.autoformat();
                }
                1 => {
                    log.push(format!("node {i} entry {k} set_ty"));
                    e.set_ty("ty");
                }
                _ => {
                    log.push(format!("node {i} entry {k} clear_format"));
                    e.clear_format();
                }
            }
        }
        24 if nargs > 0 => {
            let k = r.below(nargs);
            log.push(format!("node {i} remove({k})"));
            n.remove(k);
        }
        25 if nent > nargs => {
            let k = n.entries().iter().filter_map(|e| e.name()).nth(r.below(nent - nargs)).unwrap().value().to_string();
            log.push(format!("node {i} remove({k:?})"));
            n.remove(k.as_str());
        }
        26 => {
            let (props, odd) = (r.p(1, 2), r.p(1, 2));
            log.push(format!("node {i} retain by kind {props} {odd}"));
            let mut k = 0;
            n.retain(|e| {
                k += 1;
                e.name().is_some() == props || (k % 2 == 0) == odd
            });
        }
        27 => {
            log.push(format!("node {i} sort properties first"));
            if r.p(1, 2) {
                n.sort_by_key(|e| (e.name().is_none(), e.name().map(|i| i.value().to_string())));
            } else {
                n.sort_by(|a, b| a.name().is_none().cmp(&b.name().is_none()).then_with(|| b.name().map(|i| i.value()).cmp(&a.name().map(|i| i.value()))));
            }
        }
        28 => {
            let s = rand_string(r, 40);
            log.push(format!("node {i} name_mut set_value {s:?} and clear_format"));
            n.name_mut().set_value(s);
            n.name_mut().clear_format();
        }
        29 => {
            let s = rand_string(r, 40);
            log.push(format!("node {i} every name, key and type set_value {s:?} and autoformat"));
            if let Some(t) = n.ty_mut() {
                t.set_value(s.clone());
                t.autoformat();
            }
            for e in n.iter_mut() {
                for t in [e.ty().is_some(), false] {
                    if let Some(k) = if t { e.ty_mut() } else { e.name_mut() } {
                        k.set_value(s.clone());
                        k.autoformat();
                    }
                }
            }
        }
        30 if nent > 0 => {
            let k = r.below(nent);
            if r.p(1, 2) {
                log.push(format!("node {i} entry {k} set_name(None)"));
                n.entries_mut()[k].set_name(None::<KdlIdentifier>);
            } else {
                let s = rand_string(r, 40);
                log.push(format!("node {i} entry {k} set_name({s:?})"));
                n.entries_mut()[k].set_name(Some(s));
            }
        }
        31 => match r.below(5) {
            0 => {
                log.push(format!("node {i} autoformat without comments"));
                n.autoformat_no_comments();
            }
            1 => {
                log.push("document autoformat without comments".into());
                pd.autoformat_no_comments();
            }
            2 => {
                log.push("document clear_format_recursive".into());
                pd.clear_format_recursive();
            }
            3 => {
                // a node moves to the end with everything below it
                log.push(format!("node {i} moved into the next one"));
                if len > 1 {
                    let moved = pd.nodes_mut().remove(i);
                    let at = i % (len - 1);
                    let k = &mut pd.nodes_mut()[at];
                    k.ensure_children().nodes_mut().insert(0, moved);
                }
            }
            _ => {
                log.push(format!("node {i} children moved up"));
                if let Some(c) = n.children_mut().take() {
                    for (j, k) in c.into_iter().enumerate() {
                        pd.nodes_mut().insert(i + 1 + j, k);
                    }
                }
            }
        },
        _ => {}
    }
}

pub fn printed(ctx: &mut Ctx, seed: u64) -> Outcome {
    let mut r = Rng::new(seed);
    let (t, mut d) = match r.below(4) {
        0 => ("".to_string(), KdlDocument::new()),
        1 => {
            let t = small_doc(&mut r, 2);
            let Ok(d) = tri!(KdlDocument::parse_v2(&t), "parse") else { return Outcome::Skip("not accepted") };
            (t, d)
        }
        _ => {
            let (t, _) = crate::work::constructed(mix(seed, 77));
            let Ok(d) = tri!(KdlDocument::parse_v2(&t), "parse") else { return Outcome::Skip("not accepted") };
            (t, d)
        }
    };
    let mut log = vec![];
    let steps = r.range(1, 8);
    for _ in 0..steps {
        let before = d.to_string();
        let at = log.len();
        tri!(edit_once(&mut r, &mut d, &mut log), "an edit");
        ctx.count("edits");
        if let Some(op) = log.get(at) {
            let w = op.split_whitespace().filter(|w| w.chars().all(|c| c.is_ascii_alphabetic() || c == '_')).take(3).collect::<Vec<_>>().join("_");
            ctx.count(&format!("edit:{w}"));
        }
        let s = tri!(d.to_string(), "printing the edited document");
        let want = model::doc(&d);
        if let Err((k, e)) = says(&s, &want) {
            bail!(k, "{e}; last edit {:?} on {:?}; from {:?}", &log[at..], clip(&before), clip(&t));
        }
        if d.len() != s.len() {
            bail!("len", "len() {} for printed text of {} bytes", d.len(), s.len());
        }
    }
    Outcome::Held(!log.is_empty())
}

// ---------------------------------------------------------------- C13

fn ref_node<'a>(rd: &'a refparse::RDoc, path: &[usize]) -> &'a refparse::RNode {
    let n = &rd.nodes[path[0]];
    if path.len() == 1 {
        n
    } else {
        ref_node(n.children.as_ref().unwrap(), &path[1..])
    }
}
fn sut_node<'a>(d: &'a mut KdlDocument, path: &[usize]) -> &'a mut KdlNode {
    let n = &mut d.nodes_mut()[path[0]];
    if path.len() == 1 {
        n
    } else {
        sut_node(n.children_mut().as_mut().unwrap(), &path[1..])
    }
}
fn random_path(r: &mut Rng, d: &refparse::RDoc) -> Option<Vec<usize>> {
    if d.nodes.is_empty() {
        return None;
    }
    let i = r.below(d.nodes.len());
    let mut p = vec![i];
    if let Some(c) = &d.nodes[i].children {
        if r.p(2, 3) {
            if let Some(q) = random_path(r, c) {
                p.extend(q);
            }
        }
    }
    Some(p)
}

/// One edit; every byte that does not belong to the edited part must survive.
pub fn locality(ctx: &mut Ctx, seed: u64) -> Outcome {
    let mut r = Rng::new(seed);
    let t = if r.p(1, 3) { small_doc(&mut r, 2) } else { crate::work::constructed(mix(seed, 78)).0 };
    let Verdict::Accept(rd, info) = refparse::parse_document(&t) else { return Outcome::Skip("not accepted") };
    if !info.gray.is_empty() {
        return Outcome::Skip("not accepted");
    }
    let Ok(mut d) = tri!(KdlDocument::parse_v2(&t), "parse") else { return Outcome::Skip("not accepted") };
    if model::diff(&model::doc(&d), &model::from_ref(&rd), EXACT).is_some() {
        return Outcome::Skip("content differs (another property)");
    }
    let Some(path) = random_path(&mut r, &rd) else { return Outcome::Skip("no nodes") };
    let rn = ref_node(&rd, &path);
    let n = sut_node(&mut d, &path);
    let nent = rn.entries.len();
    let edge = |i: usize| if i == 0 { rn.name.span.1 } else { rn.entries[i - 1].span.1 };
    let op = r.below(24);
    // the `k`th argument is entry `args[k]`
    let args: Vec<usize> = (0..nent).filter(|i| rn.entries[*i].name.is_none()).collect();
    let (what, want): (&str, String) = match op {
        0 if nent > 0 => {
            let i = r.below(nent);
            n.entries_mut().remove(i);
            ("remove an entry", format!("{}{}", &t[..edge(i)], &t[rn.entries[i].span.1..]))
        }
        1 if nent > 0 => {
            let i = r.below(nent);
            let v = r.below(1000) as i128;
            n.entries_mut()[i] = KdlEntry::new(v);
            ("replace an entry", format!("{} {v}{}", &t[..edge(i)], &t[rn.entries[i].span.1..]))
        }
        2 => {
            let v = r.below(1000) as i128;
            n.push(KdlEntry::new(v));
            ("push an argument", format!("{} {v}{}", &t[..edge(nent)], &t[edge(nent)..]))
        }
        3 => {
            let v = r.below(1000) as i128;
            if n.get("fresh-key").is_some() {
                return Outcome::Skip("key taken");
            }
            n.insert("fresh-key", v);
            ("insert a property", format!("{} fresh-key={v}{}", &t[..edge(nent)], &t[edge(nent)..]))
        }
        4 => {
            n.set_name("renamed");
            ("rename the node", format!("{}renamed{}", &t[..rn.name.span.0], &t[rn.name.span.1..]))
        }
        5 if rn.ty.is_some() => {
            n.set_ty("retyped");
            let s = rn.ty.as_ref().unwrap().span;
            ("retype the node", format!("{}retyped{}", &t[..s.0], &t[s.1..]))
        }
        6 if nent > 0 => {
            let i = r.below(nent);
            let e = &rn.entries[i];
            let Some(k) = &e.name else { return Outcome::Skip("not applicable") };
            n.entries_mut()[i].set_name(Some("rekeyed"));
            ("rename a property", format!("{}rekeyed{}", &t[..k.span.0], &t[k.span.1..]))
        }
        7 if nent > 0 => {
            // a property's value, through the map interface
            let i = r.below(nent);
            let Some(k) = &rn.entries[i].name else { return Outcome::Skip("not applicable") };
            let last = rn.entries.iter().rposition(|e| e.name.as_ref().map(|x| &x.value) == Some(&k.value)).unwrap();
            let key = k.value.clone();
            let ki = KdlIdentifier::from(key.as_str());
            let mut e = KdlEntry::new_prop(ki.clone(), 7);
            e.set_ty("u8");
            n.insert(key.as_str(), e);
            ("replace a property", format!("{} {ki}=(u8)7{}", &t[..edge(last)], &t[rn.entries[last].span.1..]))
        }
        8 => {
            // drop a whole node: what is left is the rest, byte for byte
            let pd = if path.len() == 1 { &mut d } else { sut_node(&mut d, &path[..path.len() - 1]).children_mut().as_mut().unwrap() };
            let i = *path.last().unwrap();
            let len = pd.nodes().len();
            let gone = pd.nodes_mut().remove(i).to_string();
            let s = tri!(d.to_string(), "printing");
            // the removed text contains the node and ends at its terminator
            let ok = (0..=rn.core.0).rev().any(|a| {
                t.is_char_boundary(a) && t[a..].starts_with(&gone) && a + gone.len() >= rn.core.1 && {
                    let rest = format!("{}{}", &t[..a], &t[a + gone.len()..]);
                    rest == s
                }
            });
            // the last node may have had no terminator of its own, in which
            // case the one before it keeps its own
            if !ok {
                bail!("remove-node", "removing node {path:?} ({gone:?}, {len} siblings) from {:?} gave {:?}", clip(&t), clip(&s));
            }
            ctx.count("locality:remove_a_node");
            return Outcome::Held(true);
        }
        9 | 10 if !args.is_empty() => {
            let k = r.below(args.len());
            let i = args[k];
            n.remove(k);
            ("remove an argument", format!("{}{}", &t[..edge(i)], &t[rn.entries[i].span.1..]))
        }
        11 if nent > 0 => {
            let i = r.below(nent);
            let Some(k) = &rn.entries[i].name else { return Outcome::Skip("not applicable") };
            let same: Vec<usize> = (0..nent).filter(|j| rn.entries[*j].name.as_ref().map(|x| &x.value) == Some(&k.value)).collect();
            if same.len() > 1 {
                return Outcome::Skip("which of several properties goes is not said");
            }
            n.remove(k.value.as_str());
            ("remove a property", format!("{}{}", &t[..edge(i)], &t[rn.entries[i].span.1..]))
        }
        12 => {
            let k = r.below(args.len() + 1);
            let v = r.below(1000) as i128;
            n.insert(k, v);
            let at = edge(args.get(k).copied().unwrap_or(nent));
            ("insert an argument", format!("{} {v}{}", &t[..at], &t[at..]))
        }
        13 | 14 if nent > 1 => {
            let mask = r.next();
            let keep = |i: usize| mask >> (i % 64) & 1 == 1;
            let mut i = 0;
            n.retain(|_| {
                i += 1;
                keep(i - 1)
            });
            let mut w = t[..rn.name.span.1].to_string();
            for i in (0..nent).filter(|i| keep(*i)) {
                w.push_str(&t[edge(i)..rn.entries[i].span.1]);
            }
            w.push_str(&t[edge(nent)..]);
            ("retain entries", w)
        }
        15 if nent > 1 => {
            // the entries take what is before them along
            let rank: Vec<u64> = (0..nent).map(|_| r.below(3) as u64).collect();
            let mut order: Vec<usize> = (0..nent).collect();
            order.sort_by_key(|i| rank[*i]);
            if r.p(1, 2) {
                let k = rank.clone();
                let spans: Vec<String> = n.entries().iter().map(|e| e.to_string()).collect();
                let mut left: Vec<(String, u64)> = spans.into_iter().zip(k).collect();
                // equal texts have to have equal ranks for a key function
                left.sort();
                if left.windows(2).any(|w| w[0].0 == w[1].0 && w[0].1 != w[1].1) {
                    return Outcome::Skip("not applicable");
                }
                n.sort_by_key(|e| {
                    let t = e.to_string();
                    left.iter().find(|x| x.0 == t).unwrap().1
                });
            } else {
                let old = std::mem::take(n.entries_mut());
                let mut old: Vec<Option<KdlEntry>> = old.into_iter().map(Some).collect();
                for i in &order {
                    n.entries_mut().push(old[*i].take().unwrap());
                }
            }
            let mut w = t[..rn.name.span.1].to_string();
            for i in order {
                w.push_str(&t[edge(i)..rn.entries[i].span.1]);
            }
            w.push_str(&t[edge(nent)..]);
            ("reorder the entries", w)
        }
        16 => {
            n.clear();
            ("clear the entries", format!("{}{}", &t[..rn.name.span.1], &t[edge(nent)..]))
        }
        17 => {
            if rn.ty.is_some() {
                *n.ty_mut() = None;
                ("remove the node's type", format!("{}{}", &t[..rn.core.0], &t[rn.name.span.0..]))
            } else {
                n.set_ty("typed");
                ("type the node", format!("{}(typed){}", &t[..rn.core.0], &t[rn.core.0..]))
            }
        }
        18 if nent > 0 => {
            let i = r.below(nent);
            let e = &rn.entries[i];
            n.entries_mut()[i].set_ty("retyped");
            match &e.ty {
                Some(ty) => ("retype an entry", format!("{}retyped{}", &t[..ty.span.0], &t[ty.span.1..])),
                None => ("type an entry", format!("{}(retyped){}", &t[..e.vspan.0], &t[e.vspan.0..])),
            }
        }
        19 if nent > 0 => {
            let i = r.below(nent);
            let e = &rn.entries[i];
            let (Some(k), None) = (&e.name, &e.ty) else { return Outcome::Skip("not applicable") };
            n.entries_mut()[i].set_name(None::<KdlIdentifier>);
            ("make a property an argument", format!("{}{}", &t[..k.span.0], &t[e.vspan.0..]))
        }
        20 if nent > 0 => {
            let i = r.below(nent);
            let e = &rn.entries[i];
            n.entries_mut()[i].set_value("new");
            n.entries_mut()[i].format_mut().unwrap().value_repr = "new".into();
            ("respell a value", format!("{}new{}", &t[..e.vspan.0], &t[e.vspan.1..]))
        }
        21..24 => {
            // edits whose own text is not laid down anywhere: all else stays
            let what = match op {
                21 => match rn.block {
                    Some(_) => {
                        n.clear_children();
                        "clear the children"
                    }
                    None => return Outcome::Skip("not applicable"),
                },
                22 => {
                    let mut kids = KdlDocument::new();
                    kids.nodes_mut().push(KdlNode::new("Ωz"));
                    n.set_children(kids);
                    "set the children"
                }
                _ => "insert a node",
            };
            let (own, pre, post) = if op == 23 {
                let pd = if path.len() == 1 { &mut d } else { sut_node(&mut d, &path[..path.len() - 1]).children_mut().as_mut().unwrap() };
                let i = *path.last().unwrap() + r.below(2);
                pd.nodes_mut().insert(i, KdlNode::new("Ωz"));
                let (mut p, s) = (0, tri!(d.to_string(), "printing"));
                while t.as_bytes().get(p).is_some_and(|b| s.as_bytes().get(p) == Some(b)) {
                    p += 1;
                }
                while !t.is_char_boundary(p) {
                    p -= 1;
                }
                ("Ωz", p, p)
            } else if op == 22 {
                ("Ωz", edge(nent), rn.block.map(|b| b.1).unwrap_or(rn.end))
            } else {
                ("", edge(nent), rn.block.unwrap().1)
            };
            let s = tri!(d.to_string(), "printing");
            let ok = s.len() >= pre + (t.len() - post) && s.starts_with(&t[..pre]) && s.ends_with(&t[post..]);
            if !ok {
                bail!("locality", "{what} at {path:?}: got {:?} from {:?}, where {:?} and {:?} were to stay", clip(&s), clip(&t), clip(&t[..pre]), clip(&t[post..]));
            }
            let mid = &s[pre..s.len() - (t.len() - post)];
            if !mid.contains(own) || (op == 23 && mid.chars().filter(|c| c.is_alphanumeric()).count() != 2) {
                bail!("locality", "{what} at {path:?}: {mid:?} was written in {:?}", clip(&s));
            }
            ctx.count(&format!("locality:{}", what.replace(' ', "_")));
            return Outcome::Held(true);
        }
        _ => return Outcome::Skip("not applicable"),
    };
    let s = tri!(d.to_string(), "printing");
    if s != want {
        bail!("locality", "{what} at {path:?}: got {:?}, expected {:?} (from {:?})", clip(&s), clip(&want), clip(&t));
    }
    ctx.count(&format!("locality:{}", what.replace(' ', "_")));
    ctx.add("bytes_compared", s.len() as u64);
    Outcome::Held(true)
}

// ---------------------------------------------------------------- C14

pub fn build_entry(r: &mut Rng, m: &MEntry) -> KdlEntry {
    let v = model::to_kdl(&m.value);
    let mut e = match &m.name {
        None if r.p(1, 2) => KdlEntry::from(v),
        None => KdlEntry::new(v),
        Some(n) if r.p(1, 2) => KdlEntry::from((n.as_str(), v)),
        Some(n) => KdlEntry::new_prop(n.clone(), v),
    };
    if let Some(t) = &m.ty {
        e.set_ty(t.as_str());
    }
    e
}
pub fn build_node(r: &mut Rng, m: &MNode) -> KdlNode {
    let mut n = KdlNode::new(m.name.as_str());
    if let Some(t) = &m.ty {
        if r.p(1, 2) {
            n.set_ty(t.clone());
        } else {
            *n.ty_mut() = Some(t.as_str().into());
        }
    }
    for e in &m.entries {
        let k = build_entry(r, e);
        if r.p(1, 2) {
            n.push(k);
        } else {
            n.entries_mut().push(k);
        }
    }
    if let Some(c) = &m.children {
        if r.p(1, 2) {
            n.set_children(build_doc(r, c));
        } else {
            let d = n.ensure_children();
            for x in c {
                let k = build_node(r, x);
                d.nodes_mut().push(k);
            }
        }
    }
    n
}
pub fn build_doc(r: &mut Rng, m: &MDoc) -> KdlDocument {
    let mut d = KdlDocument::new();
    for x in m {
        let k = build_node(r, x);
        d.nodes_mut().push(k);
    }
    d
}
fn strings_of(d: &MDoc) -> u64 {
    d.iter().map(|n| 1 + n.entries.len() as u64 + n.children.as_ref().map_or(0, strings_of)).sum()
}
pub fn built(ctx: &mut Ctx, seed: u64) -> Outcome {
    let mut r = Rng::new(seed);
    let weird = *r.pick(&[0, 30, 60, 95]);
    let depth = r.below(4);
    let m = rand_doc(&mut r, weird, depth, 4);
    let d = tri!(build_doc(&mut r, &m), "building");
    let s = tri!(d.to_string(), "printing");
    if let Err((k, e)) = says(&s, &m) {
        bail!(k, "built document: {e}");
    }
    // the parts on their own
    for (n, mn) in d.nodes().iter().zip(&m).take(3) {
        let s = n.to_string();
        match tri!(KdlNode::parse(&s), "KdlNode::parse") {
            Err(e) => bail!("node-unparseable", "built node {s:?} is rejected: {:?}", super::text::msgs(&e)),
            Ok(x) => {
                if let Some(x) = model::diff_node(&model::node(&x), mn, EXACT, "node") {
                    bail!("node-content", "built node {s:?} reads back differently: {x}");
                }
            }
        }
        for (e, me) in n.entries().iter().zip(&mn.entries) {
            let s = e.to_string();
            match tri!(KdlEntry::parse(&s), "KdlEntry::parse") {
                Err(e) => bail!("entry-unparseable", "built entry {s:?} is rejected: {:?}", super::text::msgs(&e)),
                Ok(x) => {
                    if let Some(x) = model::diff_entry(&model::entry(&x), me, EXACT, "entry") {
                        bail!("entry-content", "built entry {s:?} reads back differently: {x}");
                    }
                }
            }
            // a value prints as itself
            let s = e.value().to_string();
            match tri!(KdlEntry::parse(&s), "KdlEntry::parse") {
                Ok(x) if model::val(x.value()).same(&me.value) && x.name().is_none() && x.ty().is_none() => ctx.count("values_printed"),
                x => bail!("value", "value {:?} prints as {s:?}, which reads as {:?}", me.value, x.map(|e| format!("{:?}", e.value())).map_err(|e| super::text::msgs(&e))),
            }
        }
        let s = n.name().to_string();
        match tri!(KdlIdentifier::parse(&s), "KdlIdentifier::parse") {
            Ok(i) if i.value() == mn.name => ctx.count("identifiers_printed"),
            x => bail!("identifier", "name {:?} prints as {s:?}, which reads as {:?}", mn.name, x.map(|i| i.value().to_string()).map_err(|e| super::text::msgs(&e))),
        }
    }
    // and after every formatting operation
    for (what, f) in [("autoformat", KdlDocument::autoformat as fn(&mut KdlDocument)), ("autoformat_no_comments", KdlDocument::autoformat_no_comments), ("clear_format_recursive", KdlDocument::clear_format_recursive), ("ensure_v2", KdlDocument::ensure_v2)] {
        let mut x = d.clone();
        tri!(f(&mut x), what);
        let s = tri!(x.to_string(), "printing");
        if let Err((k, e)) = says(&s, &m) {
            bail!(format!("{k}-after-{what}"), "built document after {what}: {e}");
        }
    }
    let n = strings_of(&m);
    ctx.add("parts_printed", n);
    Outcome::Held(n > 0)
}
/// every single character as a name, key, type and value
pub fn built_char(ctx: &mut Ctx, t: &str) -> Outcome {
    let e = MEntry { ty: Some(t.into()), name: Some(t.into()), value: Val::Str(t.into()) };
    let m = vec![MNode { ty: Some(t.into()), name: t.into(), entries: vec![e.clone(), MEntry { name: None, ty: None, ..e }], children: None }];
    let mut r = Rng::new(1);
    let d = tri!(build_doc(&mut r, &m), "building");
    let s = tri!(d.to_string(), "printing");
    if let Err((k, e)) = says(&s, &m) {
        bail!(k, "built document: {e}");
    }
    ctx.count("strings_printed");
    Outcome::Held(true)
}

fn run_built(c: &mut Ctx) {
    let cps = crate::work::cp_set(c);
    let mut idx = 0;
    for ch in cps {
        for t in [format!("{ch}"), format!("a{ch}"), format!("{ch}a"), format!("a{ch}b")] {
            idx += 1;
            if c.mine(idx / 64) && !c.stop() {
                c.text("codepoint-strings", &t, built_char);
            }
        }
    }
    // all short strings over the characters that matter
    let alpha = ["+", "-", ".", "0", "5", "a", "\"", "\\", "#", "/", "\n", "inf", "true", "x", "_", "e", " ", "\u{7f}", "\u{feff}", "r", "=", "(", "{", ";", "nan"];
    let k = if c.thorough { 4 } else { 3 };
    for len in 0..=k {
        for code in 0..(alpha.len() as u64).pow(len) {
            idx += 1;
            if !c.mine(idx / 64) {
                continue;
            }
            if c.stop() {
                return;
            }
            let mut x = code;
            let mut s = String::new();
            for _ in 0..len {
                s.push_str(alpha[(x % alpha.len() as u64) as usize]);
                x /= alpha.len() as u64;
            }
            c.text("short-strings", &s, built_char);
        }
    }
    seeds(c, "built", (60_000, 1_500_000), built);
}
fn replay_built(c: &mut Ctx, _w: &str, d: &Data) -> Outcome {
    match d {
        Data::Text(t) => built_char(c, t),
        Data::Seed(s) => built(c, *s),
    }
}

pub fn seeds(c: &mut Ctx, name: &str, n: (u64, u64), f: fn(&mut Ctx, u64) -> Outcome) {
    let mut r = c.rng(name);
    for _ in 0..c.n(n.0, n.1) {
        if c.stop() {
            return;
        }
        let s = r.next();
        c.seeded(name, s, f);
    }
}
pub fn seed_replay(c: &mut Ctx, d: &Data, f: fn(&mut Ctx, u64) -> Outcome) -> Outcome {
    match d {
        Data::Seed(s) => f(c, *s),
        Data::Text(_) => panic!("harness: text replay not supported here"),
    }
}

fn run_lookups(c: &mut Ctx) {
    for (i, (_, t)) in crate::work::corpus(c).iter().enumerate() {
        if c.mine(i) {
            c.text("corpus", t, lookups);
        }
    }
    let mut r = c.rng("small");
    for _ in 0..c.n(150_000, 4_000_000) {
        if c.stop() {
            return;
        }
        let t = small_doc(&mut r, 3);
        c.text("few-names", &t, lookups);
    }
    let mut r = c.rng("generated");
    for _ in 0..c.n(50_000, 1_000_000) {
        if c.stop() {
            return;
        }
        let (t, _) = crate::work::constructed(r.next());
        c.text("generated", &t, lookups);
    }
}

#[allow(dead_code)]
fn unused(r: &mut Rng) {
    let _ = Gen::new(r, Style::mild());
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C10",
            rule: "non-trivial: document with at least two nodes at top level, all of whose names, keys and argument positions were looked up through every accessor",
            run: run_lookups,
            replay: |c, _, d| super::text_replay(c, d, lookups),
        },
        Prop {
            id: "C11",
            rule: "non-trivial: history of at least four edit operations compared with the sequential model after every operation",
            run: |c| seeds(c, "histories", (200_000, 5_000_000), editing),
            replay: |c, _, d| seed_replay(c, d, editing),
        },
        Prop {
            id: "C12",
            rule: "non-trivial: at least one edit applied and the printed document read back by the library and by the reference reader",
            run: |c| seeds(c, "edited", (150_000, 4_000_000), printed),
            replay: |c, _, d| seed_replay(c, d, printed),
        },
        Prop {
            id: "C13",
            rule: "non-trivial: one edit applied to a parsed document and the whole printed text compared with the text expected from reference positions",
            run: |c| seeds(c, "single-edits", (400_000, 10_000_000), locality),
            replay: |c, _, d| seed_replay(c, d, locality),
        },
        Prop {
            id: "C14",
            rule: "non-trivial: built document with at least one node, printed and read back by the library and by the reference reader",
            run: run_built,
            replay: replay_built,
        },
    ]
}
