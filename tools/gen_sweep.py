#!/usr/bin/env python3
"""Writes data/long_sweeps.txt: the first 4 bytes of the digests of base, base+1, ... bytes of the C04 message around
2^29, 2^31 and 2^32 bytes, from Python's hashlib (RawSHAKE: the reference model, as in gen_long.py)."""
import concurrent.futures as cf, hashlib, os, subprocess, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WIN = 4096 * 257
W = bytes((i * 167 + (i >> 8) * 59 + (i >> 16) * 101 + 13) & 255 for i in range(WIN))
BASES = [((1 << 29) - 208, 420), ((1 << 31) - 208, 420), ((1 << 32) - 208, 284), ((1 << 32) + 77, 300)]
ALGS = ["md5", "sha1", "sha224", "sha256", "sha384", "sha512", "sha512_224", "sha512_256", "sha3_224", "sha3_256", "sha3_384", "sha3_512", "shake_128", "shake_256"]
def at(done, n): return (W + W)[done % WIN:done % WIN + n]
CXX = r'''
#include <algorithm>
#include "ref/hash.hpp"
#include <cstdio>
#include <cstdlib>
using namespace ref;
int main(int c, char **v) { int a = atoi(v[1]); size_t W = 4096 * 257; Bytes w = pattern(0, W); Ref r(a); size_t done = 0;
 for (int i = 2; i < c; i += 2) { size_t n = strtoull(v[i], 0, 10), cnt = strtoull(v[i + 1], 0, 10); while (done < n) { size_t k = std::min(W - done % W, n - done); r.update(w.data() + done % W, k); done += k; }
  printf("%s %zu ", alg_name[a], n); Ref s = r; for (size_t k = 0; k <= cnt; k++) { Bytes d = s.finish(8 * digest_size[a]); printf("%02x%02x%02x%02x", d[0], d[1], d[2], d[3]); s.update(w.data() + (n + k) % W, 1); } puts(""); } }
'''
def job(alg):
    if isinstance(alg, int):
        d = tempfile.mkdtemp()
        open(d + "/r.cpp", "w").write(CXX)
        subprocess.check_call(["clang++", "-O3", "-std=c++17", "-I", HERE + "/harness", d + "/r.cpp", "-o", d + "/r"])
        o = subprocess.check_output([d + "/r", str(alg)] + [str(x) for b in BASES for x in b], text=True).split("\n")
        subprocess.call(["rm", "-rf", d])
        return [l for l in o if l]
    h, done, out = hashlib.new(alg), 0, []
    for base, cnt in BASES:
        while done < base:
            k = min(WIN - done % WIN, base - done)
            h.update(at(done, k))
            done += k
        s, hexs = h.copy(), ""
        for i in range(cnt + 1):
            hexs += s.hexdigest(4) if alg.startswith("shake") else s.hexdigest()[:8]
            s.update(at(base + i, 1))
        out.append("%s %d %s" % (alg.replace("shake_", "shake"), base, hexs))
    return out
with cf.ProcessPoolExecutor(8) as ex:
    res = list(ex.map(job, [12, 14, 13, 15] + ALGS))
by = {}
for r in res:
    for l in r:
        k = tuple(l.split()[:2])
        assert by.setdefault(k, l) == l, "model and hashlib differ: " + l[:99]
open(os.path.join(HERE, "data", "long_sweeps.txt"), "w").write("\n".join(sorted(by.values())) + "\n")
print(len(by))
