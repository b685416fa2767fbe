import json
M={"684780e":("C01","a literal DEL (U+007F) was accepted"),
"a76dd1d":("C01","bare `-inf` was accepted as a string"),
"e2b6b84":("C01","multi-line raw strings were rejected by the single-line look-alike check"),
"f75170a":("C01","`;` after a slashdashed node was rejected"),
"9893b7b":("C04","floats whose digits do not fit an i128 were rejected"),
"68e8862":("C04","i128::MIN was rejected"),
"9bfa0bd":("C01","a slashdashed node needed no terminator between it and its neighbours"),
"4aed091":("C01","`/-/-` was accepted"),
"d49a1c1":("C05","whitespace between a children block and the terminator was not printed"),
"70fcf19":("C05","whitespace around a node's type annotation was not printed"),
"4a20c62":("C11","remove by name missed properties whose name was written differently"),
"61feecf":("C14","strings with disallowed code points, newlines or number-like beginnings printed text that does not read back"),
"82d025d":("C12","an entry without leading whitespace was glued to what precedes it"),
"31a1ba6":("C12","nodes without a terminator were glued to what follows"),
"08862d8":("C12","children added to a node with trailing slashdashed entries were printed before them"),
"d59de5c":("C12","nodes ending in a comment or open slashdash swallowed what follows"),
"b91769d":("C15","autoformat lost or broke comments and slashdashed parts"),
"f832fb0":("C12","a line continuation swallowed the end of a node"),
"bf7b4c0":("C12","a line continuation swallowed the end of a node (inside a children block)"),
"7ecc5e0":("C12","a line continuation swallowed the end of a node (before a child)"),
"61517dd":("C07","a long comment overflowed the stack"),
"82d32d6":("C07","nested slashdashed children took exponential time"),
"d81e373":("C07","junk after the document overflowed the stack"),
"cb7f99a":("C20","KdlNode's FromStr ignored v1-fallback"),
"a64728a":("C07","nested slashdashed nodes without terminators took exponential time"),
}
M.update(json.load(open('/verif/tools/fixes.json')) if __import__('os').path.exists('/verif/tools/fixes.json') else {})
import subprocess
order=[l.split()[0] for l in subprocess.check_output("git -C /repo log --format=%h --reverse",shell=True,text=True).split('\n')[1:] if l]
out=[{"property":"C07","status":"open","kind":"stack","workload":"deep-children","what":"100000 nested children blocks (`a{a{a{...}}}`) overflow an 8 MiB stack and end the process: the parser recurses once per nesting level (about 1500 levels fit)"}]
extra=[]
try: extra=[json.loads(l) for l in open('/verif/tools/open_findings.jsonl')]
except FileNotFoundError: pass
out+=extra
for h in order:
    p,w=M[h]
    out.append({"property":p,"status":"fixed","commit":h,"what":f"fixed: property={p} {h} {w}","kind":"-"})
open('/verif/known_findings.jsonl','w').write(''.join(json.dumps(o,ensure_ascii=False)+'\n' for o in out))
