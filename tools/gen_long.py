#!/usr/bin/env python3
"""Writes data/long_digests.txt: digests of the C04 messages, from Python's hashlib (RawSHAKE: from the
reference model in harness/ref/hash.hpp, compiled here; the model's SHAKE output is checked against hashlib)."""
import concurrent.futures as cf, hashlib, hmac, os, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WIN = 4096 * 257
def pat(n): return bytes((i * 167 + (i >> 8) * 59 + (i >> 16) * 101 + 13) & 255 for i in range(n))
W = pat(WIN)
B29, B31, B32 = 1 << 29, 1 << 31, 1 << 32
LENS = [B29 - 1, B29, B29 + 1, B31 + 9, B32, B32 + 77]
ALGS = ["md5", "sha1", "sha224", "sha256", "sha384", "sha512", "sha512_224", "sha512_256", "sha3_224", "sha3_256", "sha3_384", "sha3_512"]
def feed(h, lens, fin):
    out, done = [], 0
    for n in lens:
        while done < n:
            k = min(WIN - done % WIN, n - done)
            h.update(W if k == WIN else W[done % WIN:done % WIN + k])
            done += k
        out.append((n, fin(h.copy())))
    return out
CXX = r'''
#include "ref/hash.hpp"
#include <cstdio>
#include <cstdlib>
using namespace ref;
int main(int c, char **v) { int a = atoi(v[1]); size_t W = 4096 * 257; Bytes w = pattern(0, W); Ref r(a); size_t done = 0;
 for (int i = 2; i < c; i++) { size_t n = strtoull(v[i], 0, 10); while (done < n) { size_t k = std::min(W - done % W, n - done); r.update(w.data() + done % W, k); done += k; }
  Bytes d = r.finish(8 * digest_size[a]); printf("%s %zu ", alg_name[a], n); for (auto b : d) printf("%02x", b); puts(""); } }
'''
def job(x):
    kind, alg = x
    if kind == "hash":
        if alg.startswith("shake"):
            return [("%s %d %s" % (alg, n, d)) for n, d in feed(hashlib.new("shake_" + alg[5:]), LENS, lambda h: h.hexdigest(32 if "128" in alg else 64))]
        return [("%s %d %s" % (alg, n, d)) for n, d in feed(hashlib.new(alg), LENS, lambda h: h.hexdigest())]
    if kind == "hmac":
        return ["hmac_%s %d %s" % (alg, n, d) for n, d in feed(hmac.new(b"key", b"", lambda d=b"": hashlib.new(alg, d)), [B31 + 9, B32 + 77], lambda h: h.hexdigest())]
    if kind == "hmackey":
        return ["hmackey_%s %d %s" % (alg, n, hmac.new(d, b"msg", lambda x=b"": hashlib.new(alg, x)).hexdigest()) for n, d in feed(hashlib.new(alg), [B32 + 77], lambda h: h.digest())]
    d = tempfile.mkdtemp()
    open(d + "/r.cpp", "w").write("#include <algorithm>\n" + CXX)
    subprocess.check_call(["clang++", "-O3", "-std=c++17", "-I", HERE + "/harness", d + "/r.cpp", "-o", d + "/r"])
    o = subprocess.check_output([d + "/r", str(alg)] + [str(n) for n in LENS], text=True).split("\n")
    subprocess.call(["rm", "-rf", d])
    return [l for l in o if l]
jobs = [("ref", 12), ("ref", 14), ("ref", 13), ("ref", 15)] + [("hash", a) for a in ALGS + ["shake128", "shake256"]] + [("hmac", a) for a in ALGS] + [("hmackey", a) for a in ALGS]
with cf.ProcessPoolExecutor(8) as ex:
    res = list(ex.map(job, jobs))
lines = sorted(set(l for r in res for l in r))
by = {}
for l in lines:
    k = tuple(l.split()[:2])
    assert k not in by, "model and hashlib differ: " + l
    by[k] = l
open(os.path.join(HERE, "data", "long_digests.txt"), "w").write("\n".join(lines) + "\n")
print(len(lines))
