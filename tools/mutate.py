#!/usr/bin/env python3
"""Mutation campaign (development tool, no check uses it): mutate.py OUT.jsonl COUNT SEED [file ...]
Makes COUNT random one-token changes in scratch copies of /repo under /tmp/mut and runs the checks of the changed file
until one of them reports a violation. Survivors are printed for manual triage."""
import json, os, random, re, shutil, subprocess, sys, threading, queue
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/tmp/mutsrc"
M = {"Conversion.cpp": "C15 C13 C14 C41 C32 C33 C17 C37", "Hash.cpp": "C22", "BaseClasses.cpp": "C34 C41 C02 C01 C11 C12 C33",
     "Transaction.cpp": "C03 C05 C04 C06 C02 C12 C01 C11 C33", "Script.cpp": "C29 C16 C03 C06 C02 C12 C17 C01 C11 C33", "PSBT.cpp": "C30 C09 C08 C10 C07 C12 C02 C01 C33",
     "Electrum.cpp": "C31 C12 C11 C33", "HDWallet.cpp": "C20 C18 C19 C21 C37 C32 C17 C33 C42", "Bitcoin.cpp": "C26 C35 C24 C28 C25 C27 C37 C16 C32 C17 C42 C11", "BitcoinCurve.cpp": "C24 C23 C19 C26 C35 C12",
     "utility/segwit_addr.c": "C16 C17 C39", "utility/trezor/ecdsa.c": "C40 C23 C24 C25 C27", "utility/trezor/bignum.c": "C40 C23 C24 C25 C27", "utility/trezor/rfc6979.c": "C25 C39", "utility/trezor/hmac.c": "C22 C39 C25 C21", "utility/trezor/sha2.c": "C22 C39",
     "utility/trezor/ripemd160.c": "C22 C39", "utility/trezor/bip39.c": "C21 C39", "utility/trezor/pbkdf2.c": "C21 C39", "utility/trezor/base58.c": "C39", "utility/trezor/sha3.c": "C39", "utility/trezor/hasher.c": "C39", "utility/trezor/address.c": "C39", "utility/trezor/rand.c": "C39", "Networks.cpp": "C16 C19 C28 C18"}
OPS = [(r"<=", ["<"]), (r">=", [">"]), (r"(?<![<\-])<(?![<=])", ["<="]), (r"(?<![>\-])>(?![>=])", [">="]), (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
       (r"(?<![\w.])(\d+)(?![\w.])", ["+1", "-1"]), (r"(?<=[\w)\]]) ?\+ ?(?=[\w(])", ["-"]), (r"(?<=[\w)\]]) ?- ?(?=[\w(])", ["+"]), (r"\+=", ["-=", "="]), (r"<<", [">>"]), (r">>", ["<<"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r" & ", [" | "]), (r" \| ", [" & "]), (r"\^", ["|"])]


def mutants(path):
    lines = open(path).read().split("\n"); out = []; comment = False; skip = 0
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("/*"): comment = True
        if comment:
            if "*/" in s: comment = False
            continue
        if s.startswith("#if") and ("ARDUINO" in s and "STD" not in s or "MBED" in s): skip = 1
        if s.startswith("#else") or s.startswith("#endif") or s.startswith("#elif"): skip = 0
        if skip or s.startswith(("//", "#", "*")) or not s: continue
        code = l.split("//")[0]
        for rx, reps in OPS:
            for m in re.finditer(rx, code):
                if code[:m.start()].count('"') % 2 or code[:m.start()].count("'") % 2: continue
                if re.match(r"(static |inline )?(u?int\w*|size_t|void|bool) [\w:]+\(.*\[\d+\].*\)( const)?\s*[;{]", s) and re.search(r"\[$", code[:m.start()]): continue  # array bound of a parameter
                if "<" in rx and ("include" in code or "template" in code or "static_cast" in code): continue
                for r in reps:
                    t = str(int(m.group(0)) + int(r)) if r in ("+1", "-1") else r
                    if t.startswith("-") and r == "-1": continue
                    out.append((i, code[:m.start()] + t + l[m.end():]))
        if s.endswith(";") and not re.match(r"(const |static |uint|int |size_t|char|bool|return|String|std|Script|Tx|PublicKey|ECPoint|bignum|break|continue|else|struct|typedef|curve_point|SHA|HMAC|using|extern|friend|virtual)", s) and "(" + s.count("(") * " " and not s.startswith("}"):
            out.append((i, re.match(r"\s*", l).group(0) + ";"))
    return lines, out


def main():
    outp, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]); files = sys.argv[4:] or [f for f in M if M[f]]
    shutil.rmtree("/tmp/mutsrc", ignore_errors=True); shutil.copytree("/repo/src", SRC)
    rnd = random.Random(seed); allm = []
    for f in files:
        lines, ms = mutants(SRC + "/" + f)
        rnd.shuffle(ms); allm += [(f, i, new, lines[i]) for i, new in ms[:max(4, count // len(files))]]
    rnd.shuffle(allm); done = set((j["file"], j["old"], j["new"]) for j in map(json.loads, open(outp))) if os.path.exists(outp) else set(); allm = [m for m in allm if (m[0], m[3].strip(), m[2].strip()) not in done]; q = queue.Queue(); [q.put(m) for m in allm]; lock = threading.Lock(); n = int(os.environ.get("SLOTS", "8"))
    def slot(k):
        d = "/tmp/mut/s%d" % k; shutil.rmtree(d, ignore_errors=True); os.makedirs(d + "/v"); shutil.copytree(SRC, d + "/r/src")
        for x in ("check.py", "known_findings.txt"): shutil.copy(os.path.join(ROOT, x), d + "/v/")
        shutil.copytree(os.path.join(ROOT, "harness"), d + "/v/harness")
        while True:
            try: f, i, new, old = q.get_nowait()
            except queue.Empty: break
            p = d + "/r/src/" + f; src = open(SRC + "/" + f).read(); ls = src.split("\n"); ls[i] = new; open(p, "w").write("\n".join(ls)); res = "survived"; by = ""
            for c in M[f].split():
                try:
                    r = subprocess.run(["timeout", "-k", "5", "1500", "python3", d + "/v/check.py", c], env=dict(os.environ, VERIF_REPO=d + "/r", VERIF_J="1", VERIF_TIER="quick"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT); rc = r.returncode
                except Exception: rc = 99
                if rc == 1: res, by = "killed", c; break
                if rc == 3: res, by = ("nocompile" if b"error:" in r.stdout else "noanswer"), c; break
                if rc not in (0, 1): res, by = "rc%d" % rc, c; break
            open(p, "w").write(src)
            for b in os.listdir(d + "/v/build"):
                if b.startswith(("lib-", "bin-")): shutil.rmtree(d + "/v/build/" + b, ignore_errors=True)
            with lock:
                open(outp, "a").write(json.dumps({"file": f, "line": i + 1, "old": old.strip(), "new": new.strip(), "res": res, "by": by}) + "\n")
    ts = [threading.Thread(target=slot, args=(k,)) for k in range(n)]; [t.start() for t in ts]; [t.join() for t in ts]; shutil.rmtree("/tmp/mut", ignore_errors=True)


main()
