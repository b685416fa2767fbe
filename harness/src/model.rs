//! Canonical content of a document: what KDL says a document *means*.
use crate::refparse::{RDoc, Val};
use kdl::{KdlDocument, KdlEntry, KdlNode, KdlValue};

#[derive(Clone, Debug)]
pub struct MEntry {
    pub ty: Option<String>,
    pub name: Option<String>,
    pub value: Val,
}
#[derive(Clone, Debug)]
pub struct MNode {
    pub ty: Option<String>,
    pub name: String,
    pub entries: Vec<MEntry>,
    pub children: Option<Vec<MNode>>,
}
pub type MDoc = Vec<MNode>;

pub fn from_ref(d: &RDoc) -> MDoc {
    d.nodes
        .iter()
        .map(|n| MNode {
            ty: n.ty.as_ref().map(|t| t.value.clone()),
            name: n.name.value.clone(),
            entries: n
                .entries
                .iter()
                .map(|e| MEntry {
                    ty: e.ty.as_ref().map(|t| t.value.clone()),
                    name: e.name.as_ref().map(|t| t.value.clone()),
                    value: e.value.clone(),
                })
                .collect(),
            children: n.children.as_ref().map(from_ref),
        })
        .collect()
}
pub fn val(v: &KdlValue) -> Val {
    match v {
        KdlValue::String(s) => Val::Str(s.clone()),
        KdlValue::Integer(i) => Val::Int(*i),
        KdlValue::Float(f) => Val::Float(*f),
        KdlValue::Bool(b) => Val::Bool(*b),
        KdlValue::Null => Val::Null,
    }
}
pub fn to_kdl(v: &Val) -> KdlValue {
    match v {
        Val::Str(s) => KdlValue::String(s.clone()),
        Val::Int(i) => KdlValue::Integer(*i),
        Val::BigInt => unreachable!("harness: BigInt has no library value"),
        Val::Float(f) => KdlValue::Float(*f),
        Val::Bool(b) => KdlValue::Bool(*b),
        Val::Null => KdlValue::Null,
    }
}
pub fn entry(e: &KdlEntry) -> MEntry {
    MEntry {
        ty: e.ty().map(|t| t.value().to_string()),
        name: e.name().map(|t| t.value().to_string()),
        value: val(e.value()),
    }
}
pub fn node(n: &KdlNode) -> MNode {
    MNode {
        ty: n.ty().map(|t| t.value().to_string()),
        name: n.name().value().to_string(),
        entries: n.entries().iter().map(entry).collect(),
        children: n.children().map(doc),
    }
}
pub fn doc(d: &KdlDocument) -> MDoc {
    d.nodes().iter().map(node).collect()
}

#[derive(Clone, Copy)]
pub struct Cmp {
    /// Treat an empty children block and no children block as the same.
    pub empty_block_is_none: bool,
    /// Compare values (false: only their kinds).
    pub values: bool,
}
pub const EXACT: Cmp = Cmp { empty_block_is_none: false, values: true };
pub const SHAPE: Cmp = Cmp { empty_block_is_none: false, values: false };

fn kind(v: &Val) -> u8 {
    match v {
        Val::Str(_) => 0,
        Val::Int(_) | Val::BigInt => 1,
        Val::Float(_) => 2,
        Val::Bool(_) => 3,
        Val::Null => 4,
    }
}

/// First difference between two documents, or None.
pub fn diff(a: &MDoc, b: &MDoc, c: Cmp) -> Option<String> {
    diff_at(a, b, c, "doc")
}
fn diff_at(a: &[MNode], b: &[MNode], c: Cmp, path: &str) -> Option<String> {
    if a.len() != b.len() {
        return Some(format!("{path}: {} nodes vs {} nodes", a.len(), b.len()));
    }
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        let p = format!("{path}.{i}");
        if let Some(d) = diff_node(x, y, c, &p) {
            return Some(d);
        }
    }
    None
}
pub fn diff_node(x: &MNode, y: &MNode, c: Cmp, p: &str) -> Option<String> {
    if x.name != y.name {
        return Some(format!("{p}: name {:?} vs {:?}", x.name, y.name));
    }
    if x.ty != y.ty {
        return Some(format!("{p}: type {:?} vs {:?}", x.ty, y.ty));
    }
    if x.entries.len() != y.entries.len() {
        return Some(format!("{p}: {} entries vs {} entries", x.entries.len(), y.entries.len()));
    }
    for (k, (e, f)) in x.entries.iter().zip(&y.entries).enumerate() {
        if let Some(d) = diff_entry(e, f, c, &format!("{p}[{k}]")) {
            return Some(d);
        }
    }
    match (&x.children, &y.children) {
        (None, None) => None,
        (Some(a), Some(b)) => diff_at(a, b, c, &format!("{p}{{}}")),
        (Some(a), None) if c.empty_block_is_none && a.is_empty() => None,
        (None, Some(b)) if c.empty_block_is_none && b.is_empty() => None,
        (a, b) => Some(format!("{p}: children block {} vs {}", a.is_some(), b.is_some())),
    }
}
pub fn diff_entry(e: &MEntry, f: &MEntry, c: Cmp, p: &str) -> Option<String> {
    if e.name != f.name {
        return Some(format!("{p}: key {:?} vs {:?}", e.name, f.name));
    }
    if e.ty != f.ty {
        return Some(format!("{p}: type {:?} vs {:?}", e.ty, f.ty));
    }
    let ok = if c.values { e.value.same(&f.value) } else { kind(&e.value) == kind(&f.value) };
    if !ok {
        return Some(format!("{p}: value {:?} vs {:?}", e.value, f.value));
    }
    None
}
/// Every string in the document (names, types, keys, values).
pub fn count_nodes(d: &MDoc) -> usize {
    d.iter().map(|n| 1 + n.children.as_ref().map_or(0, count_nodes)).sum()
}
pub fn count_entries(d: &MDoc) -> usize {
    d.iter()
        .map(|n| n.entries.len() + n.children.as_ref().map_or(0, count_entries))
        .sum()
}
