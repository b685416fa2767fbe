//! C07: stack and work. Every case runs in a subprocess with a fixed stack and
//! a CPU limit; CPU time (not wall time) is compared between sizes.
use super::Prop;
use crate::ctx::{cpu_s, Ctx, Data, Outcome};
use crate::rng::{mix, Rng};
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};

pub const STACK: usize = 8 << 20;
const CPU_LIMIT: u64 = 60;

/// `probe <file>`: parse, print, format and drop the document in the file;
/// prints "<accepted> <cpu seconds>".
pub fn probe(a: &[String]) -> i32 {
    let text = std::fs::read_to_string(&a[0]).expect("probe input");
    unsafe {
        let l = libc::rlimit { rlim_cur: CPU_LIMIT, rlim_max: CPU_LIMIT + 5 };
        libc::setrlimit(libc::RLIMIT_CPU, &l);
        let l = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &l);
    }
    let reps: usize = a.get(1).and_then(|x| x.parse().ok()).unwrap_or(1);
    let h = std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            let mut best = f64::INFINITY;
            let mut ok = false;
            for _ in 0..reps {
                let t0 = cpu_s(libc::CLOCK_THREAD_CPUTIME_ID);
                ok = run(&text);
                best = best.min(cpu_s(libc::CLOCK_THREAD_CPUTIME_ID) - t0);
            }
            println!("{} {best:.6}", ok as u8);
        })
        .unwrap();
    match h.join() {
        Ok(()) => 0,
        Err(_) => 101,
    }
}

fn run(text: &str) -> bool {
    let _ = std::hint::black_box(kdl::KdlEntry::parse(text).is_ok());
    match kdl::KdlDocument::parse_v2(text) {
        Ok(mut d) => {
            assert!(std::hint::black_box(d.to_string()).len() == text.len());
            let c = d.clone();
            std::hint::black_box(c == d);
            d.autoformat();
            std::hint::black_box(d.to_string());
            true
        }
        Err(e) => {
            std::hint::black_box(e.diagnostics.len());
            false
        }
    }
}

enum Res {
    Done(bool, f64),
    Stack,
    Cpu,
    Panic(String),
    Unclear(String),
}

fn measure(ctx: &mut Ctx, text: &str, reps: usize) -> Res {
    let f = format!("{}/kdlverif-probe-{}", std::env::var("VERIF_SCRATCH").unwrap_or_else(|_| "/tmp".into()), std::process::id());
    std::fs::write(&f, text).expect("probe file");
    let o = Command::new(std::env::current_exe().unwrap())
        .args(["probe", &f, &reps.to_string()])
        .stdin(Stdio::null())
        .output()
        .expect("probe");
    let _ = std::fs::remove_file(&f);
    ctx.count("probes");
    ctx.add("bytes_probed", text.len() as u64);
    let err = String::from_utf8_lossy(&o.stderr).to_string();
    match (o.status.code(), o.status.signal()) {
        (Some(0), _) => {
            let out = String::from_utf8_lossy(&o.stdout).to_string();
            let mut w = out.split_whitespace();
            match (w.next(), w.next().and_then(|x| x.parse().ok())) {
                (Some(a), Some(t)) => Res::Done(a == "1", t),
                _ => Res::Unclear(out),
            }
        }
        (Some(101), _) => Res::Panic(err),
        (_, Some(libc::SIGXCPU)) => Res::Cpu,
        (_, Some(libc::SIGABRT | libc::SIGSEGV)) if err.contains("overflowed its stack") => Res::Stack,
        _ => Res::Unclear(format!("{:?} {err}", o.status)),
    }
}

/// Judge one family of growing texts. `sizes` are repetition counts; a size is
/// scaled down when quadratic growth alone would already make it expensive.
fn family(ctx: &mut Ctx, at: &dyn Fn(usize) -> String, sizes: &[usize]) -> Outcome {
    let mut last: Option<(usize, bool, f64)> = None;
    let show = |n: usize| crate::checks::text::clip(&format!("{:?}", at(n.min(3))));
    for &n in sizes {
        let mut n = n;
        if let Some((n0, _, cpu0)) = last {
            while n >= 2 * n0 && cpu0 * (n as f64 / n0 as f64).powi(2) > 15.0 {
                n /= 2;
                ctx.count("sizes_scaled_down");
            }
            if n <= n0 {
                continue;
            }
        }
        let t = at(n);
        match measure(ctx, &t, if t.len() < 20_000 { 3 } else { 1 }) {
            Res::Done(ok, cpu) => {
                ctx.count(if ok { "accepted" } else { "rejected" });
                if let Some((n0, ok0, cpu0)) = last {
                    let growth = cpu / cpu0.max(2e-4);
                    let k = n as f64 / n0 as f64;
                    // what is accepted costs time in proportion to its size;
                    // looking for ends that are missing may cost its square
                    let both = ok && ok0;
                    let allowed = if both { 5.0 * k } else { 4.0 * k * k };
                    if cpu > 1.0 && growth > allowed {
                        return Outcome::Viol(
                            "work".into(),
                            format!("{n0} -> {n} repetitions multiplied the CPU time by {growth:.0} ({cpu0:.4} s -> {cpu:.3} s); family {}", show(n)),
                        );
                    }
                    let m = (growth / k * 100.0) as u64;
                    let e = ctx.rep.counters.entry(if both { "max_accepted_growth_per_size_growth_pct" } else { "max_rejected_growth_per_size_growth_pct" }.into()).or_insert(0);
                    if cpu > 0.05 && std::env::var("C07_SHOW").is_ok() && m > 300 && both {
                        eprintln!("{m} {n0} {n} {cpu0} {cpu} {}", show(n));
                    }
                    if cpu > 0.05 {
                        *e = (*e).max(m);
                    }
                }
                last = Some((n, ok, cpu));
            }
            Res::Stack => return Outcome::Viol("stack".into(), format!("{n} repetitions ({} bytes) overflow an {} MiB stack; family {}", t.len(), STACK >> 20, show(n))),
            Res::Cpu => return Outcome::Viol("no-return".into(), format!("{n} repetitions ({} bytes) take over {CPU_LIMIT} s of CPU time; family {}", t.len(), show(n))),
            Res::Panic(e) => return Outcome::Viol("panic".into(), format!("{n} repetitions: {e}")),
            Res::Unclear(e) => panic!("HARNESS: probe ended unclearly: {} {n} {}", e.lines().next().unwrap_or(""), show(n)),
        }
    }
    Outcome::Held(true)
}

const TOK: [&str; 34] = [
    "a", "b", " ", " ", "\n", ";", "{", "}", "(", ")", "(t)", "=", "\"", "\"x\"", "\"\"\"", "\"\"\"\n", "#", "#\"", "\"#", "\\", "\\\n", "/-", "/-", "/*", "*/", "//",
    "// c\n", "1", "-", "0x", "1.", "é", "\\u{", "#true",
];

fn toks(r: &mut Rng, lo: usize, hi: usize, brace: &mut bool) -> String {
    let n = lo + r.below(hi - lo + 1);
    let mut s = String::new();
    for _ in 0..n {
        let t = TOK[r.below(TOK.len())];
        if t.contains('{') {
            if *brace {
                continue;
            }
            *brace = true;
        }
        s.push_str(t);
    }
    s
}

const NEST: [(&str, &str, &str); 31] = [
    ("a{/-", "b\"\")*/", ""),
    ("a{/-b ", ")", "}"),
    ("/-a{", "b)", "}"),
    ("a /-{", ")", "}"),
    ("a /-{", "/-", "} b"),
    ("/-a{", "b}", "} )"),
    ("a{}{", "", "}"),
    ("{", "", "}"),
    ("a{/-{", "", "}}"),
    ("a{", "", "}"),
    ("a {\n", "b", "\n}\n"),
    ("a 1 b=2 {", "", "};"),
    ("a /-{", "", "}"),
    ("a /-{", "", "} {}"),
    ("a /-b /-{", "x", "}"),
    ("a /-b {", "x", "}"),
    ("/-a{", "", "}"),
    ("/-a /-{", "", "}"),
    ("a {} /-{", "", "}"),
    ("a {/-", "b", "}"),
    ("(t)a {", "b", "}"),
    ("/- a /-b /-{", "", "} /-{} {}\n"),
    ("a{", "", ""),
    ("a /-{", "", ""),
    ("a /-b {", "(", "}"),
    ("a{", "\"", "}"),
    ("a{", "", "}}"),
    ("a \\\n{", "", "}"),
    ("a b=(", "1", ")"),
    ("((", "a", "))"),
    ("a {b \"", "", "\"}"),
];

const FLAT: [&str; 40] = [
    "a\n", "a;", "b ", "/-b ", "/-{} ", "\\\n", "/*", "*/", "/**/", "/* */ ", "* ", "//\n", "\"\"\n", "\"", "\"\"\"\n", "#", "#\"", "\"#", "(", ")", "(a)", "{", "}", "{}", "=", "a=1 ",
    "1", "0", "_", "1.0 ", "-", "+", ".", "\\", "\\n", "\\u{41}", "\r", "\u{85}", "\u{3000}", "é",
];

const PRE: [(&str, &str); 9] = [
    ("", ""),
    ("a ", ""),
    ("a \"", "\""),
    ("a #\"", "\"#"),
    ("a \"\"\"\n", "\n\"\"\""),
    ("/*", "*/"),
    ("a {", "}"),
    ("a 1", ""),
    ("a /-", " b"),
];

fn run_all(ctx: &mut Ctx) {
    let mut k = 0;
    for i in 0..NEST.len() {
        if ctx.mine(k) && !ctx.stop() {
            ctx.seeded("nested-fixed", i as u64, |c, s| nested_fixed(c, s));
        }
        k += 1;
    }
    for i in 0..FLAT.len() * PRE.len() {
        if ctx.mine(k) && !ctx.stop() {
            ctx.seeded("flat-fixed", i as u64, |c, s| flat_fixed(c, s));
        }
        k += 1;
    }
    if ctx.mine(k) {
        ctx.seeded("deep-children", 0, |c, _| deep(c));
    }
    let mut r = ctx.rng("c07");
    for _ in 0..ctx.n(300, 6000) {
        if ctx.stop() {
            return;
        }
        let s = r.next();
        ctx.seeded("nested-random", s, |c, s| nested_random(c, s));
    }
    for _ in 0..ctx.n(200, 4000) {
        if ctx.stop() {
            return;
        }
        let s = r.next();
        ctx.seeded("flat-random", s, |c, s| flat_random(c, s));
    }
}

fn nested_fixed(c: &mut Ctx, i: u64) -> Outcome {
    let (p, m, s) = NEST[i as usize % NEST.len()];
    family(c, &|n| format!("{}{m}{}", p.repeat(n), s.repeat(n)), &[6, 12, 24, 48, 96, 150])
}
fn flat_fixed(c: &mut Ctx, i: u64) -> Outcome {
    let u = FLAT[i as usize % FLAT.len()];
    let (p, s) = PRE[i as usize / FLAT.len() % PRE.len()];
    if u.contains('{') {
        return family(c, &|n| format!("{p}{}{s}", u.repeat(n)), &[8, 16, 32, 64, 120]);
    }
    let a = 8_000 / u.len();
    family(c, &|n| format!("{p}{}{s}", u.repeat(n)), &[a, a * 16])
}
fn nested_random(c: &mut Ctx, s: u64) -> Outcome {
    let mut r = Rng::new(mix(s, 0xC07));
    let mut b = false;
    let p = toks(&mut r, 1, 6, &mut b);
    let m = toks(&mut r, 0, 3, &mut b.clone());
    let q = toks(&mut r, 0, 5, &mut true);
    family(c, &|n| format!("{}{m}{}", p.repeat(n), q.repeat(n)), &[8, 16, 32, 64, 120])
}
fn flat_random(c: &mut Ctx, s: u64) -> Outcome {
    let mut r = Rng::new(mix(s, 0xF07));
    let mut b = true; // no braces: nesting is judged separately
    let u = loop {
        let u = toks(&mut r, 1, 6, &mut b);
        if !u.is_empty() {
            break u;
        }
    };
    let (p, q) = PRE[r.below(PRE.len())];
    let a = 4_000 / u.len();
    family(c, &|n| format!("{p}{}{q}", u.repeat(n)), &[a, a * 16])
}
fn deep(c: &mut Ctx) -> Outcome {
    family(c, &|n| format!("{}{}", "a{".repeat(n), "}".repeat(n)), &[100_000])
}

fn replay(c: &mut Ctx, w: &str, d: &Data) -> Outcome {
    let Data::Seed(s) = d else { panic!("harness: seed expected") };
    match w {
        "nested-fixed" => nested_fixed(c, *s),
        "flat-fixed" => flat_fixed(c, *s),
        "nested-random" => nested_random(c, *s),
        "flat-random" => flat_random(c, *s),
        "deep-children" => deep(c),
        _ => panic!("harness: no such workload"),
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C07",
        rule: "a case is a family of growing texts (repeated or nested fragments), each size parsed, printed, compared and auto-formatted in its own process on a fixed 8 MiB stack under a CPU limit; all are non-trivial",
        run: run_all,
        replay,
    }]
}
