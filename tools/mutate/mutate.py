#!/usr/bin/env python3
"""Lists small source mutations of the library's non-test code.
mutate.py list ROOT            -> JSON list of {id, file, line, old, new, op}
"""
import json, re, sys, hashlib
FILES = ["src/document.rs","src/node.rs","src/entry.rs","src/identifier.rs","src/value.rs","src/fmt.rs","src/v2_parser.rs","src/error.rs","src/de.rs","src/se.rs","tools/kdl-lsp/src/main.rs"]
OPS = [
 ("eq", r"==", ["!="]), ("ne", r"!=", ["=="]),
 ("lt", r"(?<![<\-=])<(?![<=])(?= )", ["<="]), ("gt", r"(?<= )>(?![>=])", [">="]),
 ("le", r"<=", ["<"]), ("ge", r">=", [">"]),
 ("and", r"&&", ["||"]), ("or", r"(?<=\s)\|\|(?=\s)", ["&&"]),
 ("plus1", r" \+ 1\b", ["", " + 2"]), ("minus1", r" - 1\b", ["", " - 2"]),
 ("plus", r"(?<=\w|\)) \+ (?=\w)", [" - "]), ("minus", r"(?<=\w|\)) - (?=\w)", [" + "]),
 ("true", r"\btrue\b", ["false"]), ("false", r"\bfalse\b", ["true"]),
 ("rep0", r"\b0\.\.,", ["1..,"]), ("rep1", r"\b1\.\.,", ["0..,"]),
 ("not", r"!(?=[a-z_(])(?<!\w!)", [""]),
 ("ifc", r"\bif (?!let)(.+?) \{", ["if true {", "if false {"]),
 ("issome", r"\.is_some\(\)", [".is_none()"]), ("isnone", r"\.is_none\(\)", [".is_some()"]),
 ("isempty", r"\.is_empty\(\)", [".is_empty() == false"]),
 ("rev", r"\.rev\(\)", [""]), ("last", r"\.last\(\)", [".next()"]), ("next", r"\.next\(\)", [".last()"]),
 ("nl", r'"\\n"', ['""', '"\\r"']), ("sp", r'" "', ['""']),
 ("num", r"\b([2-9]|1[0-9]|[3-9][0-9])\b", ["{-1}", "{+1}"]),
 ("brk", r"\bbreak;", [""]), ("cont", r"\bcontinue;", [""]),
 ("intodefault", r"\b[a-z_]+\.into\(\)", ["Default::default()"]),
 ("clonedef", r"\b[a-z_.]+\.clone\(\)", ["Default::default()"]),
 ("someNone", r"\bSome\([a-z_.()&]+\)(?! =>| =)", ["None"]),
 ("question", r"\.filter\([^()]*(\([^()]*\))?[^()]*\)", [""]),
 ("peekrm", r"\bpeek\(([a-z_0-9]+)\)", [r"\1"]),
 ("optrm", r"\bopt\(([a-z_0-9]+)\)", [r"\1.map(Some)"]),
 ("chr", r"'(\\u\{[0-9A-F]+\}|[ -~])'(?=[,|) ])", ["'\\u{1}'"]),
 ("sw1", r"\bnode_space0\b", ["node_space1"]), ("sw2", r"\bnode_space1\b", ["node_space0"]),
 ("sw3", r"\bline_space\b", ["node_space"]), ("sw4", r"\bnewline\b", ["'\\n'.void()"]),
 ("sw5", r"\bunicode_space\b", ["' '.void()"]), ("sw6", r"\bwss\b", ["empty.void()"]),
 ("chars", r"\.chars\(\)", [".chars().skip(1)"]), ("bytes", r"\.len_utf8\(\)", [".len_utf16()"]),
 ("take", r"\.trim\(\)|\.trim_start\(\)|\.trim_end\(\)", [""]),
 ("maxmin", r"::MAX\b", ["::MIN"]), ("startend", r"starts_with", ["ends_with"]), ("endstart", r"ends_with", ["starts_with"]),
 ("anyall", r"\.any\(", [".all("]), ("allany", r"\.all\(", [".any("]),
 ("posr", r"\.position\(", [".rposition("]), ("rpos", r"\.rposition\(", [".position("]),
 ("findr", r"\.find\(", [".rfind("]), ("saturating", r"saturating_sub\((.+?)\)", ["saturating_sub(0)"]),
]
def nontest(lines):
    keep = [True]*len(lines); i=0
    while i < len(lines):
        if lines[i].strip()=="#[cfg(test)]":
            j=i
            while j<len(lines) and "{" not in lines[j]: j+=1
            d=0; k=j
            while k<len(lines):
                d+=lines[k].count("{")-lines[k].count("}")
                if d<=0: break
                k+=1
            # braces inside literals confuse counting: fall back on an unindented brace
            k=j
            while k<len(lines) and lines[k].rstrip()!="}": k+=1
            for x in range(i,min(k+1,len(lines))): keep[x]=False
            i=k
        i+=1
    return keep
def muts(root):
    out=[]
    for f in FILES:
        lines=open(f"{root}/{f}").read().split("\n"); keep=nontest(lines)
        for n,l in enumerate(lines):
            s=l.strip()
            if not keep[n] or not s or s.startswith("//") or s.startswith("#[") or s.startswith("use ") or s.startswith("pub use"): continue
            code=l.split(" // ")[0]
            if ".msg(" in code or ".hlp(" in code or ".lbl(" in code or "assert" in code or "unreachable" in code: continue
            seen=set()
            for op,pat,reps in OPS:
                for m in re.finditer(pat,code):
                    for r in reps:
                        if op=="num":
                            v=int(m.group(0)); r=str(v-1 if r=="{-1}" else v+1)
                        elif "\\1" in r: r=m.expand(r)
                        new=l[:m.start()]+r+l[m.end():]
                        if new!=l and new not in seen:
                            seen.add(new); out.append((f,n,l,new,op))
            # delete a whole statement or list element
            if re.match(r"^\s+[^{}]*;$",l) and not s.startswith(("let ","return","pub ","type ","static ","const ","break","continue")) and l.count("(")==l.count(")"):
                out.append((f,n,l,"","del"))
            if re.match(r"^\s+[^{}=]*,$",l) and l.count("(")==l.count(")") and not re.match(r"^\s+\w+: ",l):
                out.append((f,n,l,"","delelem"))
            if re.match(r"^\s+.* => [^{]*,$",l) and l.count("(")==l.count(")"):
                out.append((f,n,l,"","delarm"))
    return [dict(id=hashlib.sha1(f"{f}{n}{new}".encode()).hexdigest()[:8],file=f,line=n+1,old=o,new=new,op=op) for f,n,o,new,op in out]
if __name__=="__main__":
    m=muts(sys.argv[2]); json.dump(m,sys.stdout)
