//! Observes what the library does with numbered cases, one line per case, so
//! that different builds (features, sanitizers) and different executions
//! (order, threads, processes) of the same cases can be compared.
//!
//!   probe run A B            cases A..B in order
//!   probe show SEED          everything observed for one case
//!   probe shuffled A B ORD   the same lines; executed in another order
//!   probe threads A B T ORD  the same lines; executed by T threads at once
//!   probe share A B T        T threads use the same parsed documents at once
//!   probe traits             which public types may cross threads
#[path = "../../harness/src/gen.rs"]
#[allow(dead_code)]
mod gen;
#[path = "../../harness/src/genv1.rs"]
#[allow(dead_code)]
mod genv1;
#[path = "../../harness/src/model.rs"]
#[allow(dead_code)]
mod model;
#[path = "../../harness/src/refparse.rs"]
#[allow(dead_code)]
mod refparse;
#[path = "../../harness/src/rng.rs"]
#[allow(dead_code)]
mod rng;

use gen::*;
use kdl::*;
use rng::{hash_bytes, mix, Rng};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

fn fixed_hash<T: Hash>(t: &T) -> u64 {
    struct F(u64);
    impl Hasher for F {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            self.0 = mix(self.0, hash_bytes(b));
        }
    }
    let mut f = F(1);
    t.hash(&mut f);
    f.finish()
}

pub fn text(seed: u64) -> String {
    let mut r = Rng::new(mix(seed, 77));
    if seed >= SMALL {
        const SAMPLES: [&str; 12] = [
            "a 1 b=2 {\n  c #true\n}\n",
            "(t)n (u)\"x\\u{e9}\" /*c*/ k=#null\n",
            "/-x\na /-1 /-k=2 /-{}\n",
            "m \"\"\"\n  a\n   b\n  \"\"\"\n",
            "r #\"a\"b\"# ##\"\"\"\nz\n\"\"\"##",
            "n 0x7F -1.5e3 #inf 1_000",
            "a \\ // c\n b\n",
            "a {b;c {d}}",
            "a true \"x",
            "é\u{2028}\u{1f600} \"\\s\"",
            "a 99999999999999999999999999999999999999999",
            "(a",
        ];
        let n = r.range(1, 5);
        return if r.p(1, 2) { SAMPLES[seed as usize % SAMPLES.len()].to_string() } else { format!("n {}", token_soup(&mut r, n)) };
    }
    let doc = |r: &mut Rng| {
        let st = Style::random(r);
        Gen::document(r, st).0
    };
    match r.below(12) {
        0..=3 => doc(&mut r),
        4..=7 => {
            let (a, b) = (doc(&mut r), doc(&mut r));
            mutate(&mut r, &a, &b)
        }
        8 => {
            let n = r.range(1, 14);
            format!("{}{}", if r.p(1, 2) { "n " } else { "" }, token_soup(&mut r, n))
        }
        9 => string_soup(&mut r),
        10 => number_soup(&mut r),
        _ => genv1::document(r.next()).0,
    }
}

/// What is observed, by part: the same in every build; only with spans; only
/// with serde; only with v1.
#[derive(Default)]
pub struct Seen {
    common: String,
    spans: String,
    serde: String,
    v1: String,
}

fn error(out: &mut Seen, what: &str, e: &KdlError) {
    let _ = writeln!(out.common, "{what}: rejected, {} diagnostics, {e}, input {:?}", e.diagnostics.len(), e.input);
    for d in &e.diagnostics {
        let _ = writeln!(
            out.common,
            "  {:?} {:?} {:?} {:?} at {}+{} of {}",
            d.message,
            d.label,
            d.help,
            d.severity,
            d.span.offset(),
            d.span.len(),
            fixed_hash(&d.input.as_str())
        );
    }
}
#[cfg(feature = "span")]
fn node_spans(out: &mut String, n: &KdlNode) {
    let _ = write!(out, "{:?}{:?}{:?}[", n.span(), n.name().span(), n.ty().map(|t| t.span()));
    for e in n.entries() {
        let _ = write!(out, "{:?}{:?}{:?},", e.span(), e.name().map(|t| t.span()), e.ty().map(|t| t.span()));
    }
    out.push(']');
    if let Some(c) = n.children() {
        let _ = write!(out, "{:?}", c.span());
        c.nodes().iter().for_each(|n| node_spans(out, n));
    }
}
fn content(d: &KdlDocument) -> String {
    fn go(o: &mut String, n: &KdlNode) {
        let _ = write!(o, "({:?}){:?}<{:?}>", n.ty().map(|t| (t.value(), t.repr())), n.name().value(), n.name().repr());
        for e in n.entries() {
            let _ = write!(o, " ({:?}){:?}={:?}{:?}", e.ty().map(|t| t.value()), e.name().map(|t| (t.value(), t.repr())), e.value(), e.format());
        }
        let _ = write!(o, "{:?}", n.format());
        if let Some(c) = n.children() {
            let _ = write!(o, "{{{:?}", c.format());
            c.nodes().iter().for_each(|n| go(o, n));
            o.push('}');
        }
        o.push(';');
    }
    let mut o = format!("{:?}", d.format());
    d.nodes().iter().for_each(|n| go(&mut o, n));
    o
}
fn config(r: &mut Rng) -> (&'static str, usize, bool) {
    (*r.pick(&["    ", "\t", "", "  "]), r.below(3), r.p(1, 3))
}
fn format(d: &mut KdlDocument, r: &mut Rng) {
    let (indent, level, nc) = config(r);
    let b = FormatConfig::builder().indent(indent).indent_level(level).no_comments(nc);
    d.autoformat_config(&b.build());
}
fn edit(d: &mut KdlDocument, r: &mut Rng, depth: usize, log: &mut String) {
    for _ in 0..r.range(1, 5) {
        let n = d.nodes().len();
        let _ = match r.below(6) {
            0 => {
                d.nodes_mut().push(node(r, 1));
                writeln!(log, "push")
            }
            1 if n > 0 => {
                let i = r.below(n);
                let x = d.nodes_mut().remove(i);
                writeln!(log, "remove {i}: {}", x)
            }
            2 => {
                let i = r.below(n + 1);
                d.nodes_mut().insert(i, node(r, 0));
                writeln!(log, "insert {i}")
            }
            _ if n > 0 => {
                let i = r.below(n);
                let w = &mut d.nodes_mut()[i];
                for _ in 0..r.range(1, 4) {
                    let _ = match r.below(9) {
                        0 => writeln!(log, "insert property: {:?}", w.insert(*r.pick(&["a", "b c", "", "n"]), value(r)).map(|e| e.value().clone())),
                        1 => writeln!(log, "insert first: {:?}", w.insert(0, value(r)).map(|e| e.value().clone())),
                        2 => {
                            w.push(value(r));
                            writeln!(log, "push")
                        }
                        3 => writeln!(log, "remove: {:?}", w.remove(*r.pick(&["a", "b c", "", "n"])).map(|e| e.value().clone())),
                        4 => {
                            let k = rand_string(r, 40);
                            w.set_name(k);
                            writeln!(log, "rename")
                        }
                        5 => {
                            let t = rand_string(r, 40);
                            w.set_ty(t);
                            writeln!(log, "annotate")
                        }
                        6 => match w.entries_mut().first_mut() {
                            Some(e) => {
                                e.set_value(value(r));
                                e.clear_format();
                                writeln!(log, "set value")
                            }
                            None => Ok(()),
                        },
                        7 => {
                            w.clear_format();
                            writeln!(log, "clear")
                        }
                        _ => {
                            if depth < 3 {
                                edit(w.ensure_children(), r, depth + 1, log);
                            }
                            Ok(())
                        }
                    };
                }
                Ok(())
            }
            _ => Ok(()),
        };
    }
}
fn value(r: &mut Rng) -> KdlValue {
    model::to_kdl(&rand_val(r, 40))
}
fn node(r: &mut Rng, depth: usize) -> KdlNode {
    let mut n = KdlNode::new(rand_string(r, 40));
    for _ in 0..r.below(3) {
        if r.p(1, 2) {
            n.push(value(r));
        } else {
            n.push((rand_string(r, 40), value(r)));
        }
    }
    if depth > 0 && r.p(1, 2) {
        let mut d = KdlDocument::new();
        d.nodes_mut().push(node(r, depth - 1));
        n.set_children(d);
    }
    n
}

/// Everything one can ask of a document without changing it.
fn read(d: &KdlDocument, o: &mut Seen) {
    let _ = writeln!(o.common, "reads as {}", content(d));
    let _ = writeln!(o.common, "prints {:?}", d.to_string());
    let _ = writeln!(o.common, "hashes to {}", fixed_hash(d));
    let c = d.clone();
    let _ = writeln!(o.common, "equals its clone {}", &c == d);
    for n in d.nodes() {
        let _ = writeln!(
            o.common,
            "{:?} {:?} {:?} {:?}",
            d.get(n.name().value()).map(|x| x.to_string()),
            d.get_arg(n.name().value()),
            d.iter_args(n.name().value()).collect::<Vec<_>>(),
            d.iter_dash_args(n.name().value()).collect::<Vec<_>>()
        );
        let _ = writeln!(o.common, "{:?} {:?}", n.get("a"), n.get(0));
    }
    #[cfg(feature = "span")]
    d.nodes().iter().for_each(|n| node_spans(&mut o.spans, n));
}

fn observe(seed: u64) -> Seen {
    let t = text(seed);
    let mut r = Rng::new(mix(seed, 99));
    let mut o = Seen::default();
    let _ = writeln!(o.common, "text {t:?}");
    macro_rules! part {
        ($ty:ty) => {
            match t.parse::<$ty>() {
                Ok(x) => {
                    let _ = writeln!(o.common, concat!(stringify!($ty), " {:?} {}"), x.to_string(), fixed_hash(&x));
                }
                Err(e) => error(&mut o, stringify!($ty), &e),
            }
        };
    }
    part!(KdlNode);
    part!(KdlEntry);
    part!(KdlIdentifier);
    let parsed = KdlDocument::parse_v2(&t);
    let again: Result<KdlDocument, _> = t.parse();
    let _ = writeln!(o.common, "parse agrees with parse_v2: {}", again == parsed);
    match parsed {
        Err(e) => {
            error(&mut o, "KdlDocument", &e);
            let mut d = KdlDocument::new();
            edit(&mut d, &mut r, 0, &mut o.common);
            read(&d, &mut o);
        }
        Ok(d) => {
            read(&d, &mut o);
            let mut e = d.clone();
            edit(&mut e, &mut r, 0, &mut o.common);
            read(&e, &mut o);
            format(&mut e, &mut r);
            read(&e, &mut o);
            let mut f = d.clone();
            format(&mut f, &mut r);
            let _ = writeln!(o.common, "autoformatted {:?}", f.to_string());
            for n in f.nodes_mut() {
                n.autoformat();
            }
            let _ = writeln!(o.common, "nodes autoformatted {:?}", f.to_string());
            f.clear_format_recursive();
            let _ = writeln!(o.common, "cleared {:?}", f.to_string());
            let _ = writeln!(o.common, "still equal {} {}", f == e, d == d.clone());
        }
    }
    #[cfg(feature = "serde")]
    {
        match kdl::de::from_str::<serde_json::Value>(&t) {
            Ok(v) => {
                let _ = writeln!(o.serde, "deserializes to {v} {:?}", kdl::se::to_string(&v));
            }
            Err(e) => {
                let _ = writeln!(o.serde, "does not deserialize: {e}");
            }
        }
    }
    #[cfg(feature = "v1")]
    {
        // the v1 parser is another crate, and may panic
        let say = |r: Result<String, KdlError>| match r {
            Ok(s) => s,
            Err(e) => {
                let mut o = Seen::default();
                error(&mut o, "v1", &e);
                o.common
            }
        };
        let r = std::panic::catch_unwind(|| {
            let mut o = String::new();
            let _ = writeln!(o, "v2_to_v1 {}", say(KdlDocument::v2_to_v1(&t)));
            let _ = writeln!(o, "v1_to_v2 {}", say(KdlDocument::v1_to_v2(&t)));
            if let Ok(mut d) = KdlDocument::parse_v1(&t) {
                let _ = writeln!(o, "v1 {}", content(&d));
                d.ensure_v2();
                let _ = writeln!(o, "ensure_v2 {} {}", d, content(&d));
                d.ensure_v1();
                let _ = writeln!(o, "ensure_v1 {} {}", d, content(&d));
            }
            o
        });
        o.v1 = r.unwrap_or_else(|_| "panicked".into());
    }
    o
}

/// Which characters `{:?}` escapes differs between compiler versions.
fn plain(s: &str) -> String {
    let mut o = String::with_capacity(s.len());
    for c in s.chars() {
        if c.is_ascii() {
            o.push(c);
        } else {
            let _ = write!(o, "\\u{{{:x}}}", c as u32);
        }
    }
    o
}
/// Cases from here on are small, for slow interpreters.
const SMALL: u64 = 1 << 40;

fn line(seed: u64) -> String {
    let r = std::panic::catch_unwind(|| observe(seed));
    match r {
        Ok(o) => {
            let h = |s: &str| if s.is_empty() { "-".into() } else { format!("{:016x}", hash_bytes(plain(s).as_bytes())) };
            format!("{seed} {} {} {} {}", h(&o.common), h(&o.spans), h(&o.serde), h(&o.v1))
        }
        Err(_) => format!("{seed} panic panic panic panic"),
    }
}
/// Works on texts much like the case's own, and forgets the results.
fn decoys(seed: u64, ord: u64) {
    let t = text(seed);
    let mut r = Rng::new(mix(seed, ord));
    let mut near = vec![];
    for _ in 0..3 {
        let mut c: Vec<char> = t.chars().collect();
        if c.is_empty() {
            break;
        }
        match r.below(6) {
            // the same characters in another order
            0 => {
                for _ in 0..r.range(1, 4) {
                    let (i, j) = (r.below(c.len()), r.below(c.len()));
                    c.swap(i, j);
                }
            }
            1 => {
                let mut w: Vec<&str> = t.split_inclusive([' ', '\n']).collect();
                let (i, j) = (r.below(w.len()), r.below(w.len()));
                w.swap(i, j);
                c = w.concat().chars().collect();
            }
            // the same length, beginning and end
            2 | 3 => {
                let i = r.below(c.len());
                if c[i].is_ascii() {
                    c[i] = *r.pick(&['a', 'x', '1', '"', '#', ' ', '}', '=', ';']);
                }
            }
            4 => c.truncate(r.below(c.len()) + 1),
            _ => c.extend(" x".chars()),
        }
        near.push(c.into_iter().collect::<String>());
    }
    for t in near {
        let _ = std::panic::catch_unwind(|| {
            let _ = t.parse::<KdlNode>();
            let _ = t.parse::<KdlEntry>();
            let _ = t.parse::<KdlIdentifier>();
            if let Ok(mut d) = KdlDocument::parse_v2(&t) {
                let _ = d.to_string();
                d.autoformat();
                d.clear_format_recursive();
                let _ = (d.to_string(), fixed_hash(&d));
            }
            #[cfg(feature = "serde")]
            let _ = kdl::de::from_str::<serde_json::Value>(&t);
            #[cfg(feature = "v1")]
            let _ = (KdlDocument::v1_to_v2(&t), KdlDocument::v2_to_v1(&t));
        });
    }
}
fn order(a: u64, b: u64, ord: u64) -> Vec<u64> {
    let mut v: Vec<u64> = (a..b).collect();
    let mut r = Rng::new(ord);
    for i in (1..v.len()).rev() {
        v.swap(i, r.below(i + 1));
    }
    v
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let args = a.clone();
    let n = move |i: usize| args[i].parse::<u64>().unwrap();
    let work = move || match a[1].as_str() {
        "run" => {
            for s in n(2)..n(3) {
                println!("{}", line(s));
            }
        }
        "show" => {
            let o = observe(n(2));
            print!("{}== spans\n{}\n== serde\n{}== v1\n{}", o.common, o.spans, o.serde, o.v1);
        }
        "shuffled" => {
            let mut v: Vec<_> = order(n(2), n(3), n(4)).into_iter().map(|s| {
                    decoys(s, n(4));
                    (s, line(s))
                })
                .collect();
            v.sort();
            v.iter().for_each(|(_, l)| println!("{l}"));
        }
        "threads" => {
            let todo = Arc::new(order(n(2), n(3), n(5)));
            let next = Arc::new(AtomicUsize::new(0));
            let hs: Vec<_> = (0..n(4))
                .map(|k| {
                    let (todo, next) = (todo.clone(), next.clone());
                    let ord = n(5);
                    big(move || {
                        let mut r = Rng::new(mix(ord, k));
                        let mut got = vec![];
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= todo.len() {
                                return got;
                            }
                            // some cases are done by two threads at about the same time
                            got.push((todo[i], line(todo[i])));
                            if r.p(1, 4) {
                                std::thread::yield_now();
                                let j = todo[r.below(i + 1)];
                                got.push((j, line(j)));
                            }
                        }
                    })
                })
                .collect();
            let mut v: Vec<_> = hs.into_iter().flat_map(|h| h.join().unwrap()).collect();
            v.sort();
            v.dedup();
            v.iter().for_each(|(_, l)| println!("{l}"));
        }
        "traits" => traits(),
        "share" => share(n(2), n(3), n(4)),
        _ => std::process::exit(2),
    };
    big(work).join().unwrap();
}
fn big<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> std::thread::JoinHandle<T> {
    std::thread::Builder::new().stack_size(64 << 20).spawn(f).unwrap()
}

/// The same documents, errors and values used by many threads at once: every
/// thread must see what one thread alone sees.
fn share(a: u64, b: u64, threads: u64) {
    let alone = |d: &Result<KdlDocument, KdlError>, s: u64| -> u64 {
        let mut o = Seen::default();
        match d {
            Ok(d) => {
                read(d, &mut o);
                let mut r = Rng::new(s);
                let mut e = d.clone();
                edit(&mut e, &mut r, 0, &mut o.common);
                let _ = writeln!(o.common, "{e} {}", e == *d);
                e.autoformat();
                let _ = writeln!(o.common, "{e}");
            }
            Err(e) => {
                error(&mut o, "shared", e);
                let _ = writeln!(o.common, "{:?}", e.clone());
            }
        }
        hash_bytes(o.common.as_bytes())
    };
    for s in a..b {
        let d = Arc::new(Force(KdlDocument::parse_v2(&text(s))));
        let want = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| alone(&d.0, s)));
        let start = Arc::new(std::sync::Barrier::new(threads as usize));
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                let (d, start) = (d.clone(), start.clone());
                big(move || {
                    let d = d;
                    start.wait();
                    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| alone(&d.0, s)))
                })
            })
            .collect();
        let got: Vec<_> = hs.into_iter().map(|h| h.join().unwrap()).collect();
        let same = got.iter().all(|g| match (g, &want) {
            (Ok(a), Ok(b)) => a == b,
            (Err(_), Err(_)) => true,
            _ => false,
        });
        println!("{s} {}", if same { "same" } else { "DIFFERENT" });
        // the last owner drops it on another thread
        big(move || drop(d)).join().unwrap();
    }
}

/// Shares what it holds whether or not the type allows it: `traits` decides
/// that, and the race detector what comes of it.
struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}

fn traits() {
    use std::marker::PhantomData;
    struct S<T>(PhantomData<T>);
    struct Y<T>(PhantomData<T>);
    trait No {
        const YES: bool = false;
    }
    impl<T> No for S<T> {}
    impl<T> No for Y<T> {}
    impl<T: Send> S<T> {
        const YES: bool = true;
    }
    impl<T: Sync> Y<T> {
        const YES: bool = true;
    }
    macro_rules! show {
        ($($t:ty),*) => { $( println!("{} send={} sync={}", stringify!($t), <S<$t>>::YES, <Y<$t>>::YES); )* };
    }
    show!(KdlDocument, KdlNode, KdlEntry, KdlIdentifier, KdlValue, KdlError, KdlDiagnostic, KdlDocumentFormat, KdlNodeFormat, KdlEntryFormat, FormatConfig<'static>);
    #[cfg(feature = "serde")]
    show!(kdl::de::Error, kdl::se::Error);
}
