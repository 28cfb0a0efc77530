#!/usr/bin/env python3
"""Small systematic changes of the code (operators, constants, dropped statements, swapped names), one at a time, in a
private copy: which are noticed, and by which check. What nobody notices is read by hand.
usage: mutate.py -f FILE[,FILE..] -c CHECK[,CHECK..] [-o OUT.jsonl] [-l FROM:TO] [--list]"""
import argparse, json, os, re, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

SWAPS = [
    (r"(?<![<>=!&|+\-*/])<=(?!=)", ["<"]), (r"(?<![<>=!])>=(?!=)", [">"]),
    (r"(?<= )<(?= )", ["<="]), (r"(?<= )>(?= )", [">="]),
    (r"(?<= )===?(?= )", ["!=="]), (r"(?<= )!==(?= )", ["==="]), (r"(?<= )==(?= )", ["!="]), (r"(?<= )!=(?= )", ["=="]),
    (r"&&", ["||"]), (r"(?<= )\|\|(?= )", ["&&"]),
    (r"(?<= )\+(?= )", ["-"]), (r"(?<= )-(?= )", ["+"]), (r"(?<= )\*(?= )", ["/"]), (r"(?<= )/(?= )", ["*"]), (r"(?<= )%(?= )", ["*"]),
    (r"\bchecked_add\b", ["checked_sub"]), (r"\bchecked_sub\b", ["checked_add"]), (r"\bchecked_mul\b", ["checked_add"]),
    (r"\bsaturating_sub\b", ["saturating_add", "wrapping_sub"]), (r"\bsaturating_add\b", ["wrapping_add"]), 
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"(?<![\w.])(\d[\d_]*)(n?)(?![\w.])", ["INC"]),
    (r"\bif \((?!let)", ["if (!"]), (r"\bif !", ["if "]), (r"\bif (?!let|!|\()", ["NOT"]),
    (r"\bSome\(", ["None::<()>.and(Some("]) if False else (r"$^", []),
    (r"\buser\b", ["vault"]) if False else (r"$^", []),
    (r"\borca\b", ["xorca"]), (r"\bxorca\b", ["orca"]),
    (r"\bwritable: true", ["writable: false"]) if False else (r"$^", []),
    (r"\bMath\.floor\b", ["Math.ceil"]), (r"\bMath\.ceil\b", ["Math.floor"]), (r"\bMath\.max\b", ["Math.min"]), (r"\bMath\.min\b", ["Math.max"]),
    (r"\.min\(", [".max("]), (r"\.max\(", [".min("]),
    (r"\bcontinue\b", ["break"]), (r"\bbreak\b", ["continue"]),
    (r"\bu64\b", ["u32", "i64"]), (r"\bi64\b", ["u64"]), (r"\bu128\b", ["u64"]), (r"U64", ["U32", "I64"]), (r"I64", ["U64"]), (r"U8", ["U16"]),
    (r"AccountRole\.WRITABLE_SIGNER", ["AccountRole.READONLY_SIGNER", "AccountRole.WRITABLE"]), (r"AccountRole\.READONLY_SIGNER", ["AccountRole.READONLY"]),
    (r"AccountRole\.WRITABLE\b", ["AccountRole.READONLY"]), (r"AccountRole\.READONLY\b", ["AccountRole.WRITABLE"]),
    (r"'(confirmed|finalized)'", ["'processed'"]),
]
PAIRS = [("source", "destination"), ("stake", "unstake"), ("vault", "user"), ("before", "after"), ("escrowed", "withdrawable"), ("old_", "new_")]

def mutants(path, text, lines):
    out = []
    offset = 0
    skip = False
    for no, line in enumerate(text.splitlines(True), 1):
        if "#[cfg(test)]" in line: skip = True
        s = line.strip()
        comment = re.match(r"\w+\??: [\w<>\[\]| ]+;$", s) or re.match(r"console\.(log|error|warn)\((['\"`][^$]*\);|\))$", s) or s.startswith(("msg!", "throw new Error", "return Err", "error:", "panic!")) or s.startswith(("//", "/*", "*", "import ", "use ", "export {", "#[", "#!", "pub mod", "pub use"))
        if not (skip or comment or not s) and (not lines or lines[0] <= no <= lines[1]):
            body = line.split(" //")[0]
            for rx, subs in SWAPS:
                for m in re.finditer(rx, body):
                    for sub in subs:
                        if sub == "INC":
                            new = str(int(m.group(1).replace("_", "")) + 1) + m.group(2)
                        elif sub == "NOT":
                            k = body.find("{", m.end())
                            if k < 0: continue
                            out.append((no, body[:m.end()] + "!(" + body[m.end():k].rstrip() + ") " + line[k:])); continue
                        elif sub == "if (!":
                            k = body.rfind(")")
                            new = "if (!("
                            out.append((no, body[:m.start()] + new + body[m.end():k] + ")" + line[k:])); continue
                        else: new = sub
                        if "process.exit(" in s or (s.startswith("console.") and sub == "INC" and "${" not in s[m.start()-8:m.start()+3]): continue
                        out.append((no, body[:m.start()] + new + line[m.end():]))
            for a, b in PAIRS:
                for x, y in ((a, b), (b, a)):
                    for m in re.finditer(rf"(?<![a-z]){x}(?=[_A-Z.,;)\s])", body):
                        out.append((no, body[:m.start()] + y + line[m.end():]))
            if s.endswith(";") and not s.startswith(("console.", "process.exit(","let ", "const ", "return", "pub ", "type ", "}", "export", "declare", ")")):
                ind = line[: len(line) - len(line.lstrip())]
                out.append((no, ind + "\n" if True else ""))
            if s.startswith("return ") and s.endswith(";") and False: pass
        offset += len(line)
    seen, res = set(), []
    for no, new in out:
        if not new.endswith("\n"): new += "\n"
        if (no, new) in seen or new == text.splitlines(True)[no - 1]: continue
        seen.add((no, new)); res.append((no, new))
    # statements over several lines
    L = text.splitlines(True)
    i = 0
    while i < len(L):
        s = L[i].strip()
        if "#[cfg(test)]" in s: break
        if re.match(r"[\w.:]+[\w:]*(<.*>)?\($|[\w.:]+.*\{$|if .*\{$", s) and not s.startswith(("fn ", "pub ", "let ", "const ", "export", "impl", "struct", "match", "async", "function", "}", "return", "for ", "interface", "type ", "enum ", "while", "try", "else", "import", "mod ")):
            ind = len(L[i]) - len(L[i].lstrip())
            j = i + 1
            while j < len(L) and not (len(L[j]) - len(L[j].lstrip()) == ind and L[j].strip()): j += 1
            if j < len(L) and re.match(r"\)[?;]*;|\}\)?\??;?$", L[j].strip()) and (not lines or lines[0] <= i + 1 <= lines[1]):
                res.append((i + 1, j + 1))
        i += 1
    return res

def apply(text, m):
    L = text.splitlines(True)
    no, new = m
    if isinstance(new, int):
        return "".join(L[: no - 1] + ["\n"] * (new - no + 1) + L[new:])
    L[no - 1] = new
    return "".join(L)

def show(text, m):
    L = text.splitlines(True)
    no, new = m
    if isinstance(new, int): return "DROP " + " ".join(x.strip() for x in L[no - 1 : new])[:160]
    return f"{L[no-1].strip()}  =>  {new.strip() or 'DROPPED'}"

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-f", required=True); ap.add_argument("-c", required=True); ap.add_argument("-o", default="/tmp/mutants.jsonl")
    ap.add_argument("-l", default=""); ap.add_argument("--list", action="store_true"); ap.add_argument("--step", default="0/1")
    o = ap.parse_args()
    lines = [int(x) for x in o.l.split(":")] if o.l else None
    todo = []
    for f in o.f.split(","):
        text = open(f"/repo/{f}").read()
        todo += [(f, text, m) for m in mutants(f, text, lines)]
    k, n = map(int, o.step.split("/"))
    todo = todo[k::n]
    if o.list:
        for f, t, m in todo: print(f, m[0], show(t, m)[:200])
        print(len(todo)); return
    from box import Box
    box = Box()
    done = set()
    if os.path.exists(o.o):
        for l in open(o.o): r = json.loads(l); done.add((r["file"], r["line"], r["what"]))
    log = open(o.o, "a")
    try:
        for f, text, m in todo:
            what = show(text, m)
            if (f, m[0], what) in done: continue
            open(f"{box.dir}/repo/{f}", "w").write(apply(text, m))
            t0 = time.time(); by = None; odd = []
            for c in o.c.split(","):
                r = box.run(f"exec ./run.sh {c} quick", timeout=400)
                s = r.stdout + r.stderr
                if r.returncode == 1 and "VIOLATION" in s:
                    by = c; first = next((l for l in s.splitlines() if "violat" in l.lower()), ""); break
                if "build failed" in s: by = "build"; break
                if r.returncode: odd.append(f"{c}:{r.returncode} {s.strip().splitlines()[-1][:150] if s.strip() else ''}")
                if r.returncode == 2: by = "no-answer"; break
            open(f"{box.dir}/repo/{f}", "w").write(text)
            rec = {"file": f, "line": m[0], "what": what, "by": by, "odd": odd, "secs": round(time.time() - t0)}
            log.write(json.dumps(rec) + "\n"); log.flush()
    finally:
        box.close()
main()
