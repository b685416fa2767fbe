#!/usr/bin/env python3
"""C24 (feature flags) and C26 (purity, threads, memory): runs the probe in
many builds and executions over the same numbered cases and compares what was
observed.  Exit 0 held, 1 violated, 2 no answer."""
import hashlib, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.environ.get("VERIF_DIR") or os.path.dirname(HERE)
T = os.environ.get("PROBE_TARGET") or f"{VERIF}/target/probe"
SEED = int(os.environ.get("VERIF_SEED", "1"))
THOROUGH = os.environ.get("VERIF_TIER", "quick") == "thorough"
JOBS = int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 4
SCALE = int(os.environ.get("VERIF_SCALE", "100"))
HOST = "x86_64-unknown-linux-gnu"
SMALL = 1 << 40
CONFIGS = {"none": "", "span": "span", "serde": "serde", "full": "span,serde", "v1": "v1", "all": "span,serde,v1"}
PARTS = {1: "everything all builds have in common", 2: "spans", 3: "serde", 4: "v1 conversion"}


class NoAnswer(Exception):
    pass


class Violation(Exception):
    def __init__(self, kind, detail, data):
        self.kind, self.detail, self.data = kind, detail, data


def build(name, features, sanitizer=None):
    """The built program, or None when the library itself does not compile."""
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(k, None)
    d = f"{T}/{name}"
    cmd = ["cargo"]
    out = f"{d}/release/probe"
    tail = []
    if sanitizer:
        cmd += ["+nightly"]
        env["RUSTFLAGS"] = f"-Zsanitizer={sanitizer}"
        tail = ["-Zbuild-std", "--target", HOST]
        out = f"{d}/{HOST}/release/probe"
    cmd += ["build", "--offline", "--release", "--manifest-path", f"{HERE}/Cargo.toml", "--target-dir", d, "--features", features] + tail
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode == 0:
        return out
    if re.search(r"could not compile `kdl`", p.stdout) and re.search(r"^error(\[E\d+\])?:", p.stdout, re.M):
        return None
    raise NoAnswer(f"building {name}: " + p.stdout[-1500:])


def start(args, env=None):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(args, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")


SAN = re.compile(r"(ThreadSanitizer|AddressSanitizer|LeakSanitizer|Undefined Behavior)[^\n]*")


def chunk(args, a, b, env=None):
    """Lines of one process; a case on which the process dies becomes a line of its own."""
    lines = []
    while a < b:
        p = start(args[:2] + [str(a), str(b)] + args[2:], env)
        got = p.stdout.splitlines()
        m = SAN.search(p.stderr)
        if m:
            i = m.start()
            raise Violation("sanitizer", p.stderr[i:i + 3000], {"args": args[:2] + [str(a), str(b)] + args[2:], "env": env or {}})
        if p.returncode == 0:
            lines += got
            break
        if p.returncode == -9 or "memory allocation of" in p.stderr or p.returncode > 0:
            raise NoAnswer(f"{args} {a} {b}: exit {p.returncode}: {p.stderr[-500:]}")
        if args[1] != "run":
            # order or threads: which case it was is not known
            lines.append(f"{a} died {p.returncode}")
            break
        done = int(got[-1].split()[0]) + 1 if got else a
        lines += got + [f"{done} died died died died"]
        a = done + 1
    return lines


def spread(args, a, b, env=None, jobs=None, size=None):
    """The cases a..b, split over processes."""
    jobs = jobs or JOBS
    size = size or max(1, (b - a + jobs - 1) // jobs)
    with ThreadPoolExecutor(jobs) as ex:
        fs = [ex.submit(chunk, args, x, min(b, x + size), env) for x in range(a, b, size)]
        out = []
        for f in fs:
            out += f.result()
    return out


def compare(a, b, what, upto=4, prog=None):
    """First difference between two lists of lines, as a violation."""
    da = {x.split()[0]: x for x in a}
    db = {x.split()[0]: x for x in b}
    for k, x in da.items():
        y = db.get(k)
        if y is None:
            raise Violation("missing", f"{what}: case {k} has no result", {"case": k})
        if x == y:
            continue
        x, y = x.split(), y.split()
        for i in range(1, upto + 1):
            u, v = (x + ["?"] * 5)[i], (y + ["?"] * 5)[i]
            if u != v and "-" not in (u, v):
                raise Violation("differs", f"{what}: case {k} differs in {PARTS[i]}", {"case": k, "progs": prog or []})


def observed_diff(v):
    """For the report: what the two programs say about the case."""
    ps = v.data.get("progs") or []
    if len(ps) != 2:
        return ""
    outs = [start([p, "show", v.data["case"]]).stdout.splitlines() for p in ps]
    part = -1
    for i, (x, y) in enumerate(zip(*outs)):
        if x.startswith("== "):
            part = i
        if x != y and not ("== spans" in outs[0][:i] and v.detail.endswith("common")):
            j = next((j for j, (c, d) in enumerate(zip(x, y)) if c != d), min(len(x), len(y)))
            return f"\n  text: {outs[0][0][:300]}\n  one: {x[max(0, j - 60):j + 120]}\n  other: {y[max(0, j - 60):j + 120]}"
    return "\n  (the same when the case is run alone)"


def c24(ev):
    progs = {}
    for n, f in CONFIGS.items():
        progs[n] = build(n, f)
    if progs["full"] is None:
        raise NoAnswer("the default features do not build")
    for n, p in progs.items():
        if p is None:
            raise Violation("does-not-build", f"the library does not build with features [{CONFIGS[n]}]", {"case": n})
    n = (500_000 if THOROUGH else 60_000) * SCALE // 100
    base = SEED * 100_000_000
    a, b = base, base + n
    res = {}
    for c in CONFIGS:
        res[c] = spread([progs[c], "run"], a, b)
        ev["observed"][f"cases_in_build_{c}"] = len(res[c])
    ev["evaluations"] = sum(map(len, res.values()))
    ev["distinct_nontrivial"] = len({x.split()[1] for x in res["full"]})
    for i, c in enumerate(CONFIGS):
        for d in list(CONFIGS)[i + 1:]:
            compare(res[c], res[d], f"features [{CONFIGS[c]}] and [{CONFIGS[d]}]", prog=[progs[c], progs[d]])
    for p in (1, 2, 3, 4):
        ev["observed"]["distinct_" + ["", "common", "spans", "serde", "v1"][p]] = len({x.split()[p] for x in res["all"]})
    ev["samples"] = [{"case": x.split()[0], "text": start([progs["full"], "show", x.split()[0]]).stdout.splitlines()[0][:300]} for x in res["full"][:3]]


def c26(ev):
    o = ev["observed"]
    full = build("full", CONFIGS["full"])
    if full is None:
        raise NoAnswer("the default features do not build")
    for l in start([full, "traits"]).stdout.splitlines():
        o["types_checked_for_send_and_sync"] = o.get("types_checked_for_send_and_sync", 0) + 1
        if "false" in l:
            raise Violation("not-thread-safe", f"a public type cannot cross threads: {l}", {"case": l})
    base = SEED * 100_000_000 + 50_000_000
    n = (150_000 if THOROUGH else 24_000) * SCALE // 100
    a, b = base, base + n
    one = spread([full, "run"], a, b)
    ev["distinct_nontrivial"] = len({x.split()[1] for x in one})
    total = len(one)

    def again(label, args, what, lo=a, hi=b, env=None, jobs=None, size=None, against=None):
        nonlocal total
        got = spread(args, lo, hi, env, jobs, size)
        want = [x for x in (against or one) if lo <= int(x.split()[0]) < hi]
        died = [x for x in got if " died" in x]
        if died and not any(" died" in x for x in want):
            raise Violation("died", f"{what}: the process died ({died[0]})", {"case": died[0].split()[0], "args": args})
        o[label] = len(got)
        total += len(got)
        if len(got) != len({x.split()[0] for x in got}):
            seen = {}
            for x in got:
                k = x.split()[0]
                if k in seen and seen[k] != x:
                    raise Violation("differs", f"{what}: case {k} gave two results in one process", {"case": k, "args": args})
                seen[k] = x
        compare(want, got, what, prog=[args[0], full])
        return got

    for k in range(3 if THOROUGH else 1):
        # other orders, other neighbours: chunks overlap different cases
        again(f"cases_in_another_order_{k}", [full, "shuffled", str(SEED * 7 + k)], "run in another order", size=n // 5 + 1 + k * 97)
    again("cases_by_8_threads", [full, "threads", "8", str(SEED)], "run by 8 threads at once", jobs=4)
    k = (4000 if THOROUGH else 500) * SCALE // 100
    again("cases_in_a_process_of_their_own", [full, "run"], "run in a process of its own", lo=a, hi=a + k, size=1)

    def shared(label, prog, lo, hi, env=None, jobs=2, threads=8):
        nonlocal total
        got = spread([prog, "share", str(threads)], lo, hi, env, jobs, max(1, (hi - lo) // (jobs * 4)))
        for x in got:
            if not x.endswith("same"):
                raise Violation("differs", f"threads using the same document see something else than one alone: case {x}", {"case": x.split()[0], "args": [prog, "share", str(threads)]})
        o[label] = len(got)
        total += len(got) * threads
    m = (8_000 if THOROUGH else 1500) * SCALE // 100
    shared("documents_shared_by_8_threads", full, a, a + m)

    tsan = build("tsan", CONFIGS["full"], "thread")
    asan = build("asan", CONFIGS["all"], "address")
    if tsan is None or asan is None:
        raise NoAnswer("the sanitized library does not build")
    te = {"TSAN_OPTIONS": "exitcode=66:halt_on_error=1"}
    m = (20_000 if THOROUGH else 4000) * SCALE // 100
    again("cases_under_the_race_detector", [tsan, "threads", "4", str(SEED)], "run by threads under the race detector", lo=a, hi=a + m, env=te, jobs=3)
    m = (10_000 if THOROUGH else 600) * SCALE // 100
    shared("documents_shared_under_the_race_detector", tsan, a, a + m, env=te)
    m = (40_000 if THOROUGH else 8000) * SCALE // 100
    again("cases_under_the_address_sanitizer", [asan, "run"], "run under the address sanitizer", lo=a, hi=a + m,
          env={"ASAN_OPTIONS": "detect_leaks=1:detect_stack_use_after_return=1"})
    if THOROUGH:
        lo = SMALL + SEED * 1000
        hi = lo + 160 * SCALE // 100
        ref = spread([full, "run"], lo, hi)
        mdir = f"{T}/miri"
        warm = start(["cargo", "+nightly", "miri", "run", "--offline", "--manifest-path", f"{HERE}/Cargo.toml", "--target-dir", mdir, "--features", CONFIGS["full"], "run", "0", "0"], {"CARGO_NET_OFFLINE": "true"})
        if warm.returncode:
            raise NoAnswer("miri: " + warm.stderr[-800:])

        def interpret(k):
            p = start(["cargo", "+nightly", "miri", "run", "--offline", "-q", "--manifest-path", f"{HERE}/Cargo.toml", "--target-dir", mdir, "--features", CONFIGS["full"], "run", str(k), str(k + 1)], {"CARGO_NET_OFFLINE": "true"})
            m = SAN.search(p.stderr)
            if m:
                raise Violation("undefined-behaviour", p.stderr[m.start():m.start() + 3000], {"case": str(k)})
            if p.returncode:
                raise NoAnswer(f"miri case {k}: {p.stderr[-500:]}")
            return p.stdout.splitlines()
        t0 = time.time()
        got = []
        with ThreadPoolExecutor(JOBS) as ex:
            for x in ex.map(lambda k: interpret(k) if time.time() - t0 < 240 else [], range(lo, hi)):
                got += x
        o["cases_interpreted_by_miri"] = len(got)
        total += len(got)
        have = {x.split()[0] for x in got}
        compare([x for x in ref if x.split()[0] in have], got, "run by the interpreter", prog=None)
    ev["evaluations"] = total
    ev["samples"] = [{"case": x.split()[0], "text": start([full, "show", x.split()[0]]).stdout.splitlines()[0][:300]} for x in one[:3]]


CHECKS = {"C24": (c24, "One evaluation is everything observed of one case in one build: a generated, mutated or random text parsed as each kind, printed, hashed, queried, edited, auto-formatted and cleared, with every diagnostic. Non-trivial: what was observed is different from every other case."),
          "C26": (c26, "One evaluation is everything observed of one case in one execution (alone, after others, beside others on other threads, on a shared document, under a sanitizer or interpreter), compared with the first execution. Non-trivial: what was observed is different from every other case.")}


def main():
    pid = sys.argv[1]
    if pid == "build":
        for n, f in CONFIGS.items():
            build(n, f)
        build("tsan", CONFIGS["full"], "thread")
        build("asan", CONFIGS["all"], "address")
        return 0
    if pid == "replay":
        f = json.load(open(sys.argv[2]))
        print("recorded:", f["kind"], f["detail"][:2000])
        pid = f["property"]
        os.environ["VERIF_SEED"] = str(f["seed"])
        global SEED, THOROUGH
        SEED, THOROUGH = f["seed"], f["tier"] == "thorough"
    f, rule = CHECKS[pid]
    t0 = time.time()
    ev = {"evaluations": 0, "distinct_nontrivial": 0, "rule": rule, "samples": [], "observed": {}}
    viol = None
    try:
        f(ev)
    except Violation as v:
        viol = v
    except NoAnswer as e:
        print(f"NO ANSWER: {e}", file=sys.stderr)
        return 2
    if not os.environ.get("VERIF_NO_EVIDENCE"):
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        json.dump({"property": pid, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": "exploration", "coverage": ev,
                   "wall_s": time.time() - t0, "violations": 1 if viol else 0}, open(f"{VERIF}/evidence/{pid}.json", "w"), indent=2)
    if viol:
        more = observed_diff(viol)
        os.makedirs(f"{VERIF}/evidence/replay", exist_ok=True)
        key = hashlib.sha1(f"{viol.kind}{viol.data}".encode()).hexdigest()[:16]
        path = f"{VERIF}/evidence/replay/{pid}-{key}.json"
        json.dump({"property": pid, "seed": SEED, "tier": "thorough" if THOROUGH else "quick", "kind": viol.kind, "detail": viol.detail + more, "data": viol.data}, open(path, "w"), indent=2)
        print(f"VIOLATION property={pid} replay={path}")
        print(f"  kind={viol.kind} {viol.detail[:1500]}{more}")
        return 1
    print(f"OK property={pid} evaluations={ev['evaluations']} distinct_nontrivial={ev['distinct_nontrivial']} wall={time.time() - t0:.1f}s")
    return 0


sys.exit(main())
