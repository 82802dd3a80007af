"""Generate spec/UcdTable.tla: the slice of the Unicode character database that
spec/Norm.tla needs, for a closed alphabet.  Run by hand; the result is committed."""
import sys, unicodedata as u
seed = set(range(0, 128))
marks = [0x300, 0x301, 0x302, 0x308, 0x30A, 0x30C, 0x323, 0x327, 0x338, 0x344]
seed |= set(marks)
seed |= {0x212B, 0x2126, 0xFB01, 0xFB03, 0xB2, 0xBD, 0xFF21, 0x1E9B, 0x1100, 0x1161, 0x11A8, 0xAC00, 0xAC01,
         0x915, 0x93C, 0x958, 0x1D157, 0x1D165, 0x1D15E, 0x11099, 0x110BA, 0x1109A, 0xF900, 0x3A9, 0x391, 0x345,
         0x1FBC, 0x2ADC, 0x33A2, 0xFDFA & 0, 0xA0, 0x3000, 0x2002, 0x1F600, 0xDF, 0x130, 0x131, 0xE6, 0x152}
seed.discard(0xFDFA)
def dec(c):
    d = u.decomposition(chr(c))
    if 0xAC00 <= c <= 0xD7A3:
        return False, [ord(x) for x in u.normalize("NFD", chr(c))]
    if not d: return None, []
    parts = d.split()
    compat = parts[0].startswith("<")
    return compat, [int(x, 16) for x in (parts[1:] if compat else parts)]
A = set(seed)
pairs = {}
for c in range(0x110000):
    if 0xD800 <= c < 0xE000: continue
    compat, d = dec(c)
    if 0xAC00 <= c <= 0xD7A3:
        s = c - 0xAC00
        d = [0x1100 + s // 588, 0x1161 + (s % 588) // 28] if s % 28 == 0 else [c - s % 28, 0x11A7 + s % 28]
    elif compat is not False: continue
    if len(d) == 2 and u.normalize("NFC", chr(c)) == chr(c):
        pairs[tuple(d)] = c
while True:
    n = len(A)
    for c in list(A):
        for f in ("NFD", "NFKD"):
            A |= {ord(x) for x in u.normalize(f, chr(c))}
        A |= set(dec(c)[1])
    for (a, b), c in pairs.items():
        if a in A and b in A: A.add(c)
    if len(A) == n: break
full = {f: {c: [ord(x) for x in u.normalize(f, chr(c))] for c in A if u.normalize(f, chr(c)) != chr(c)} for f in ("NFD", "NFKD")}
ccc = {c: u.combining(chr(c)) for c in A if u.combining(chr(c))}
pp = {k: v for k, v in pairs.items() if k[0] in A and k[1] in A}
def tup(l): return "<<" + ",".join(map(str, l)) + ">>"
def fun(d): return "  " + " @@\n  ".join(f"({k} :> {v})" for k, v in sorted(d.items()))
out = ["---- MODULE UcdTable ----", f"\\* Generated by harness/gen_ucd.py from Unicode {u.unidata_version}; {len(A)} code points.", "EXTENDS Integers, Sequences, TLC"]
# as sorted association sequences, turned into functions once
def assoc(name, d, val):
    items = sorted(d.items())
    out.append(f"{name}_K == " + tup([k if isinstance(k, int) else tup(k) for k, _ in items]))
    out.append(f"{name}_V == " + tup([val(v) for _, v in items]))
assoc("CanonD", full["NFD"], tup)
assoc("CompatD", full["NFKD"], tup)
assoc("Ccc", ccc, str)
grp = {}
for (a, b), c in pp.items(): grp.setdefault(a, {})[b] = c
assoc("PairA", grp, lambda d: "<<" + tup(sorted(d)) + "," + tup([d[k] for k in sorted(d)]) + ">>")
out.append("Alphabet == {" + ",".join(map(str, sorted(A))) + "}")
out.append("====")
open(sys.argv[1], "w").write("\n".join(out) + "\n")
print(len(A), len(full["NFD"]), len(full["NFKD"]), len(ccc), len(pp))
