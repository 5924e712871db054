#!/usr/bin/env python3
"""Validates the reference model (harness/ref.h) against independent implementations: Python's hashlib/hmac/base64,
a textbook affine secp256k1 and transaction code written separately here, and published vectors."""
import base64, hashlib, hmac, os, struct, subprocess, sys, tempfile, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = 2**256 - 2**32 - 977
N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
G = (0x79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798, 0x483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8)
def padd(a, b):
    if a is None: return b
    if b is None: return a
    if a[0] == b[0]:
        if (a[1] + b[1]) % P == 0: return None
        l = 3 * a[0] * a[0] * pow(2 * a[1], -1, P) % P
    else: l = (b[1] - a[1]) * pow(b[0] - a[0], -1, P) % P
    x = (l * l - a[0] - b[0]) % P
    return (x, (l * (a[0] - x) - a[1]) % P)
def pmul(k, a):
    r = None
    while k:
        if k & 1: r = padd(r, a)
        a = padd(a, a); k >>= 1
    return r
def b32(v): return v.to_bytes(32, "big")
def sec(p, c=True): return bytes([2 + (p[1] & 1)]) + b32(p[0]) if c else b"\4" + b32(p[0]) + b32(p[1])
def sha(b): return hashlib.sha256(b).digest()
def dsha(b): return sha(sha(b))
def rmd(b): return hashlib.new("ripemd160", b).digest()
def h512(k, m): return hmac.new(k, m, hashlib.sha512).digest()
A58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
def b58(b):
    n = int.from_bytes(b, "big"); s = ""
    while n: n, r = divmod(n, 58); s = A58[r] + s
    return "1" * (len(b) - len(b.lstrip(b"\0"))) + s
def b58c(b): return b58(b + dsha(b)[:4])
def pat(n, s): return bytes((s + i * 37 + (i >> 8) * 11) & 255 for i in range(n))
def rfc6979(x, h):
    z = b32(int.from_bytes(h, "big") % N); V = b"\1" * 32; K = b"\0" * 32
    mac = lambda k, m: hmac.new(k, m, hashlib.sha256).digest()
    for c in (b"\0", b"\1"): K = mac(K, V + c + b32(x) + z); V = mac(K, V)
    while True:
        V = mac(K, V); k = int.from_bytes(V, "big")
        if 0 < k < N: return k
        K = mac(K, V + b"\0"); V = mac(K, V)
def der(r, s):
    f = lambda v: (lambda b: b"\2" + bytes([len(b)]) + b)(v.to_bytes(v.bit_length() // 8 + 1, "big"))
    b = f(r) + f(s); return b"\x30" + bytes([len(b)]) + b
def ver(Q, h, r, s):
    w = pow(s, -1, N); X = padd(pmul(int.from_bytes(h, "big") * w % N, G), pmul(r * w % N, Q)); return X is not None and X[0] % N == r
BC = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"
def bech(hrp, v, prog):
    n = int.from_bytes(prog, "big"); bits = len(prog) * 8; pad = -bits % 5; n <<= pad; bits += pad
    d = [v] + [(n >> (bits - 5 * (i + 1))) & 31 for i in range(bits // 5)]
    def pm(vals):
        c = 1
        for x in vals:
            t = c >> 25; c = ((c & 0x1ffffff) << 5) ^ x
            for i, g in enumerate((0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3)): c ^= g if (t >> i) & 1 else 0
        return c
    p = pm([ord(c) >> 5 for c in hrp] + [0] + [ord(c) & 31 for c in hrp] + d + [0] * 6) ^ 1
    return hrp + "1" + "".join(BC[x] for x in d + [(p >> (5 * (5 - i))) & 31 for i in range(6)])
def vi(n): return bytes([n]) if n < 253 else b"\xfd" + struct.pack("<H", n)
INS = [(pat(32, i), i * 7, pat(i * 100, i), 0xfffffff0 + i) for i in range(3)]
OUTS = [(1000000007 * (i + 1), pat(20 + i, i)) for i in range(2)]
def ser(ins, outs, wit=None):
    r = struct.pack("<I", 2) + (b"\0\1" if wit else b"") + vi(len(ins))
    for h, i, s, q in ins: r += h + struct.pack("<I", i) + vi(len(s)) + s + struct.pack("<I", q)
    r += vi(len(outs)) + b"".join(struct.pack("<Q", a) + vi(len(s)) + s for a, s in outs)
    for w in wit or []: r += vi(len(w)) + b"".join(vi(len(e)) + e for e in w)
    return r + struct.pack("<I", 0x01020304)
def sigleg(n, t):
    if t == 3 and n >= len(OUTS): return b"\1" + b"\0" * 31
    ins = [(h, i, pat(25, 4) if k == n else b"", q if k == n or t == 1 else 0) for k, (h, i, s, q) in enumerate(INS)]
    outs = OUTS if t == 1 else [] if t == 2 else [(2**64 - 1, b"")] * n + [OUTS[n]]
    return dsha(ser(ins, outs) + struct.pack("<I", t))
def sigseg(n, t):
    so = lambda o: struct.pack("<Q", o[0]) + vi(len(o[1])) + o[1]
    z = b"\0" * 32
    ho = dsha(b"".join(map(so, OUTS))) if t == 1 else dsha(so(OUTS[n])) if t == 3 and n < len(OUTS) else z
    hs = dsha(b"".join(struct.pack("<I", q) for _, _, _, q in INS)) if t == 1 else z
    h, i, _, q = INS[n]
    return dsha(struct.pack("<I", 2) + dsha(b"".join(a + struct.pack("<I", b) for a, b, _, _ in INS)) + hs + h + struct.pack("<I", i) + vi(25) + pat(25, 4) + struct.pack("<QI", 0x1122334455667788, q) + ho + struct.pack("<II", 0x01020304, t))
def hdpath():
    I = h512(b"Bitcoin seed", pat(32, 2)); k, cc = int.from_bytes(I[:32], "big"), I[32:]; depth = 0
    while True:
        i = yield
        K = pmul(k, G); d = (b"\0" + b32(k) if i >> 31 else sec(K)) + struct.pack(">I", i); I = h512(cc, d); fp = rmd(sha(sec(K)))[:4]
        k, cc, depth = (int.from_bytes(I[:32], "big") + k) % N, I[32:], depth + 1
        hdr = bytes([depth]) + fp + struct.pack(">I", i) + cc
        yield b58c(bytes.fromhex("0488ade4") + hdr + b"\0" + b32(k)) + ":" + b58c(bytes.fromhex("0488b21e") + hdr + sec(pmul(k, G)))
def main():
    d = tempfile.mkdtemp()
    try:
        subprocess.check_call(["clang++", "-std=c++17", "-O2", "-w", os.path.join(ROOT, "tools", "refdump.cpp"), "-o", d + "/r"])
        lines = subprocess.check_output([d + "/r"]).decode().split("\n")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    hd = hdpath(); cnt = {}
    for l in lines:
        if not l: continue
        n, a, r = l.split(" "); a = "" if a == "-" else a; r = "" if r == "-" else r
        hx = lambda: bytes.fromhex(a)
        two = lambda: [int(x, 16) for x in a.split(":")]
        if n == "sha256": w = sha(hx()).hex()
        elif n == "sha512": w = hashlib.sha512(hx()).hexdigest()
        elif n == "sha3": bb, mm = a.split(":"); w = hashlib.new("sha3_" + bb, b"" if mm == "-" else bytes.fromhex(mm)).hexdigest()
        elif n == "rmd160": w = rmd(hx()).hex()
        elif n == "b58": w = b58(hx())
        elif n == "b64": w = base64.b64encode(hx()).decode()
        elif n == "hmac256": w = hmac.new(hx(), pat(77, 1), hashlib.sha256).hexdigest()
        elif n == "hmac512": w = h512(hx(), pat(77, 1)).hex()
        elif n == "pbkdf2": w = hashlib.pbkdf2_hmac("sha512", hx(), b"mnemonicabc", 64).hex()
        elif n == "tagged": t = sha(b"BIP0340/challenge"); w = sha(t + t + hx()).hex()
        elif n == "mulG": w = sec(pmul(int(a, 16), G), False).hex()
        elif n == "inv": w = b32(pow(int(a, 16), -1, N)).hex()
        elif n == "addm": x, y = two(); w = b32((x + y) % N).hex()
        elif n == "subm": x, y = two(); w = b32((x - y) % N).hex()
        elif n == "mulm": x, y = two(); w = b32(x * y % N).hex()
        elif n == "padd": x, y = two(); q = padd(pmul(x, G), pmul(y, G)); w = sec(q).hex() if q else "inf"
        elif n == "pmul": x, y = two(); w = sec(pmul(x, pmul(y, G))).hex()
        elif n == "ecdsa":
            k, h = a.split(":"); d, h = int(k, 16), bytes.fromhex(h); kk = rfc6979(d, h); rr = pmul(kk, G)[0] % N; s = pow(kk, -1, N) * (int.from_bytes(h, "big") + rr * d) % N; s = min(s, N - s)
            assert ver(pmul(d, G), h, rr, s)
            w = b32(rr).hex() + b32(s).hex() + ":" + der(rr, s).hex() + ":10"
        elif n == "lift":
            x = int(a); c = (x**3 + 7) % P; y = pow(c, (P + 1) // 4, P)
            if y * y % P != c: w = "no"
            else: w = sec((x, y if y & 1 == x & 1 else P - y), False).hex()
        elif n == "bip340": w = a
        elif n == "bech32": v, pr = a.split(":"); pr = bytes.fromhex(pr); okv = int(v) > 0 or len(pr) in (20, 32); w = bech("bc", int(v), pr) + ":" + ("1" if okv else "0")
        elif n == "bip32": next(hd); w = hd.send(int(a))
        elif n == "sertx": w = (ser(INS, OUTS) if a == "legacy" else ser(INS, OUTS, [[], [pat(3, 1), b"", pat(300, 3)], []])).hex()
        elif n == "sigleg": x, t = a.split(":"); w = sigleg(int(x), int(t)).hex()
        elif n == "sigseg": x, t = a.split(":"); w = sigseg(int(x), int(t)).hex()
        else: raise SystemExit("unknown line " + l)
        if w != r:
            print("REFERENCE MODEL DIFFERS", n, a, "\n ref ", r, "\n indep", w); return 1
        cnt[n] = cnt.get(n, 0) + 1
    assert len(cnt) >= 20, cnt
    print("reference model agrees with the independent implementations:", cnt); return 0
if __name__ == "__main__": sys.exit(main())
