#!/usr/bin/env python3
"""Decide one property of /repo's current working tree by bounded exhaustive exploration.

  check.py C01 [--tier quick|thorough]     explore; exit 0 or exit 1 with VIOLATION lines
  check.py --replay replays/<file>.json    rebuild and run one recorded case again
"""
import argparse, array, base64, concurrent.futures as cf, hashlib, hmac, json, mmap, os, re, shutil, signal, struct
import subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PGFE_REPO", "/repo")
sys.path.insert(0, HERE)
from props import PROPS, VARIANTS

NPROC = os.cpu_count() or 8
START = time.time()
ENV = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "HOME": "/tmp", "LC_ALL": "C", "TZ": "UTC", "PGFE_REPO": REPO,
       "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1:"
                       "strict_string_checks=0:handle_abort=1:malloc_context_size=8:quarantine_size_mb=64",
       "UBSAN_OPTIONS": "halt_on_error=1:exitcode=98:print_stacktrace=1"}


# Where the property is about values, freed memory is used again at once, so that later calls get arguments at addresses
# that earlier ones had; the properties about memory keep AddressSanitizer's quarantine.
REUSE = {"C%02d" % i for i in range(1, 25) if i not in (10, 15, 16, 17)} | {"C26"}


def set_env(prop):
    if prop in REUSE:
        ENV["ASAN_OPTIONS"] = ENV["ASAN_OPTIONS"].replace("quarantine_size_mb=64", "quarantine_size_mb=0:thread_local_quarantine_size_kb=0")


class BuildError(Exception):
    pass


def log(*a):
    print("[%6.1fs]" % (time.time() - START), *a, flush=True)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, text=True, errors="replace", **kw)


class Builder:
    """Builds the library variants and harness executables this run needs, outside /repo."""

    def __init__(self, work):
        self.work = work
        self.locks = {}
        self.done = {}
        self.mutex = threading.Lock()

    def once(self, key, fn):
        with self.mutex:
            lock = self.locks.setdefault(key, threading.Lock())
        with lock:
            if key not in self.done:
                try:
                    self.done[key] = (fn(), None)
                except BuildError as e:
                    self.done[key] = (None, e)
            val, err = self.done[key]
            if err:
                raise err
            return val

    def lib(self, variant):
        def build():
            v = VARIANTS[variant]
            d = os.path.join(self.work, "lib-" + variant)
            r = run(["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=", "-DBUILD_TESTING=OFF",
                     "-DCMAKE_C_COMPILER=" + v["cc"], "-DCMAKE_CXX_COMPILER=" + v["cxx"],
                     "-DCMAKE_C_FLAGS=" + ("" if v.get("plain") else "-w -Wno-error -include stdarg.h ") + v["flags"],
                     "-DCMAKE_CXX_FLAGS=" + ("" if v.get("plain") else "-w -Wno-error ") + v["flags"] + " " + v.get("cxxflags", ""),
                     "-DCMAKE_SHARED_LINKER_FLAGS=" + v.get("ldflags", ""), "-DCMAKE_EXE_LINKER_FLAGS="])
            if r.returncode:
                raise BuildError("cmake configuration failed for variant %s:\n%s" % (variant, r.stdout[-3000:]))
            r = run(["ninja", "-C", d, "pgfe"])
            if r.returncode:
                raise BuildError("build failed for variant %s:\n%s" % (variant, r.stdout[-3000:]))
            return d
        return self.once(("lib", variant), build)

    def harness(self, job):
        v = VARIANTS[job["variant"]]
        src = os.path.join(HERE, "harness", job["src"])
        out = os.path.join(self.work, "%s-%s" % (job["src"].replace(".", "_"), job["variant"]))

        def compile_():
            srcs = [src] + [os.path.join(HERE, "harness", s) for s in job.get("extra", [])]
            objs = []
            for s in srcs:
                o = out + "-" + os.path.basename(s) + ".o"
                extra = s != src
                fl = v.get("rtflags", "-O2") if extra else v["flags"] + " " + v.get("cxxflags", "") + " " + v.get("hflags", "")
                r = run([v["cxx"], "-std=c++17", "-w", "-g1", '-DVERIF_DIR="%s"' % HERE, "-I", os.path.join(REPO, "include"), "-I", os.path.join(HERE, "harness")]
                        + fl.split() + job.get("flags", "").split() + ["-c", s, "-o", o])
                if r.returncode:
                    raise BuildError("harness %s does not compile (%s):\n%s" % (s, job["variant"], r.stdout[-3000:]))
                objs.append(o)
            return objs

        def link():
            objs = self.once(("obj", out), compile_)
            d = self.lib(job["variant"])
            if v.get("static"):
                libargs = []
                for root, _, files in os.walk(os.path.join(d, "CMakeFiles", "pgfe.dir")):
                    libargs += [os.path.join(root, f) for f in files if f.endswith(".o")]
            else:
                libargs = ["-L" + d, "-Wl,-rpath," + d, "-lpgfe"]
            r = run([v["cxx"], "-o", out] + objs + libargs + (v["flags"] + " " + v.get("linkflags", "")).split()
                    + job.get("ldflags", "").split() + ["-lpthread", "-ldl"])
            if r.returncode:
                raise BuildError("harness %s does not link (%s):\n%s" % (job["src"], job["variant"], r.stdout[-3000:]))
            return out

        with cf.ThreadPoolExecutor(2) as ex:  # compile the harness while the library builds
            a = ex.submit(lambda: self.once(("obj", out), compile_))
            b = ex.submit(lambda: self.lib(job["variant"]))
            b.result()
            a.result()
        return self.once(("exe", out), link)


# ---------------------------------------------------------------- oracle conformance

def pattern0(n):
    return bytes((i * 167 + (i >> 8) * 59 + (i >> 16) * 101 + 13) & 255 for i in range(n))


def keccak_py(rate, suffix, msg, outlen):
    """A second, independent Keccak for RawSHAKE, which hashlib lacks."""
    M = (1 << 64) - 1
    rol = lambda x, n: ((x << n) | (x >> (64 - n))) & M if n else x
    def f(A):
        R = 1
        for _ in range(24):
            C = [A[x][0] ^ A[x][1] ^ A[x][2] ^ A[x][3] ^ A[x][4] for x in range(5)]
            D = [C[(x + 4) % 5] ^ rol(C[(x + 1) % 5], 1) for x in range(5)]
            A = [[A[x][y] ^ D[x] for y in range(5)] for x in range(5)]
            x, y, cur = 1, 0, A[1][0]
            for t in range(24):
                x, y = y, (2 * x + 3 * y) % 5
                cur, A[x][y] = A[x][y], rol(cur, (t + 1) * (t + 2) // 2 % 64)
            for y in range(5):
                T = [A[x][y] for x in range(5)]
                for x in range(5):
                    A[x][y] = T[x] ^ ((~T[(x + 1) % 5] & M) & T[(x + 2) % 5])
            for j in range(7):
                R = ((R << 1) ^ ((R >> 7) * 0x71)) % 256
                if R & 2:
                    A[0][0] ^= 1 << ((1 << j) - 1)
        return A
    p = bytearray(msg) + bytes([suffix])
    p += bytes(-len(p) % rate)
    p[-1] ^= 0x80
    A = [[0] * 5 for _ in range(5)]
    for o in range(0, len(p), rate):
        for i in range(rate // 8):
            A[i % 5][i // 5] ^= int.from_bytes(p[o + 8 * i:o + 8 * i + 8], "little")
        A = f(A)
    out = b""
    while len(out) < outlen:
        out += b"".join(A[i % 5][i // 5].to_bytes(8, "little") for i in range(rate // 8))
        A = f(A)
    return out[:outlen]


def py_digest(alg, m, outlen):
    if alg.startswith("rawshake"):
        return keccak_py(168 if alg.endswith("128") else 136, 0x07, m, outlen)
    if alg.startswith("shake"):
        return hashlib.new("shake_" + alg[5:], m).digest(outlen)
    return hashlib.new(alg, m).digest()


BLOCK = {"md5": 64, "sha1": 64, "sha224": 64, "sha256": 64, "sha384": 128, "sha512": 128, "sha512_224": 128, "sha512_256": 128,
         "sha3_224": 144, "sha3_256": 136, "sha3_384": 104, "sha3_512": 72}


def py_hmac(alg, k, m):
    H = lambda x: hashlib.new(alg, x).digest()
    b = BLOCK[alg]
    if len(k) > b:
        k = H(k)
    k = k.ljust(b, b"\0")
    return H(bytes(x ^ 0x5c for x in k) + H(bytes(x ^ 0x36 for x in k) + m))


def check_refs(exe):
    """Compare the reference models built into the harness with Python's own implementations."""
    r = run([exe, "--selfcheck"])
    if r.returncode:
        raise BuildError("reference self check does not run: " + r.stdout[-500:])
    n = 0
    raw_seen = 0
    for line in r.stdout.splitlines():
        f = line.split(" ")
        if f[0] != "REF":
            continue
        if f[1] == "hash":
            alg, ln, want = f[2], int(f[3]), f[4]
            if alg.startswith("rawshake"):
                raw_seen += 1
                if raw_seen % 23:
                    continue
            got = py_digest(alg, pattern0(ln), len(want) // 2)
        elif f[1] == "hmac":
            alg, kl, ml, want = f[2], int(f[3]), int(f[4]), f[5]
            got = py_hmac(alg, pattern0(kl), pattern0(ml))
        elif f[1] == "base":
            enc, data, text = f[2], bytes.fromhex(f[3]), f[4] if len(f) > 4 else ""
            fn = {"16": base64.b16encode, "32": base64.b32encode, "32hex": base64.b32hexencode, "64": base64.b64encode,
                  "64url": base64.urlsafe_b64encode}[enc]
            got, want = fn(data), text.encode().hex()
        elif f[1] == "hotp":
            alg, kl, ctr, digits, want = f[2], int(f[3]), int(f[4]), int(f[5]), f[6]
            h = py_hmac(alg, pattern0(kl), ctr.to_bytes(8, "big"))
            o = h[-1] & 15
            if o + 4 > len(h):
                continue
            v = (int.from_bytes(h[o:o + 4], "big") & 0x7fffffff) % 10 ** digits
            got, want = b"%d" % v, want.encode().hex()
        elif f[1] == "bf":  # key, plain, cipher: Eric Young's published vectors
            got, want = bytes.fromhex(f[2]), f[3]
        else:
            continue
        n += 1
        if got.hex() != want:
            raise BuildError("reference model disagrees with Python: " + line)
    return n


# ---------------------------------------------------------------- running

class Task:
    def __init__(self, job, exe, shard, shards, tier, work):
        self.job, self.exe, self.shard, self.shards, self.tier = job, exe, shard, shards, tier
        self.base = os.path.join(work, "t-%s-%s-%d" % (job["src"], job["variant"], shard))
        self.fails, self.result, self.crash = [], None, None

    def cmd(self):
        return [self.exe, "--tier", self.tier, "--shard", "%d/%d" % (self.shard, self.shards), "--part", str(self.job.get("part", 0))]


def read_marker(path):
    try:
        with open(path, "rb") as f:
            b = f.read()
        seq, active, kind, n = struct.unpack_from("<QQqq", b)
        v = struct.unpack_from("<14q", b, 32)
        return seq, active, "%d:%s" % (kind, ",".join(str(x) for x in v[:n]))
    except (OSError, struct.error):
        return 0, 0, None


def hang_limit(job, tier):
    h = job.get("hang", 60)
    return min(h, 240) if tier == "quick" else h


def run_task(t):
    mark, outc = t.base + ".mark", t.base + ".outc"
    hang = hang_limit(t.job, t.tier)
    with open(t.base + ".out", "w+", errors="replace") as so, open(t.base + ".err", "w+", errors="replace") as se:
        p = subprocess.Popen(t.cmd() + ["--mark", mark, "--outcomes", outc], stdout=so, stderr=se, env=ENV, cwd=os.path.dirname(t.base))
        last, since, hung = -1, time.time(), False
        while True:
            try:
                p.wait(0.2 if time.time() - since < 5 else 1.0)
                break
            except subprocess.TimeoutExpired:
                pass
            seq = read_marker(mark)[0]
            if seq != last:
                last, since = seq, time.time()
            elif time.time() - since > hang:
                hung = True
                p.kill()
                p.wait()
                break
        so.seek(0)
        for line in so.read().splitlines():
            if line.startswith("MCFAIL "):
                t.fails.append(json.loads(line[7:], strict=False))
            elif line.startswith("MCRESULT "):
                t.result = json.loads(line[9:], strict=False)
        se.seek(0)
        err = se.read()
    if hung or t.result is None:
        seq, active, case = read_marker(mark)
        why = "no progress for %d s" % hang if hung else "ended with status %d" % p.returncode
        t.crash = {"case": case, "active": active, "why": why, "stderr": err, "rc": p.returncode, "hung": hung}
    return t


def summarize(err):
    m = re.search(r"ERROR: AddressSanitizer:? (.*)", err)
    if m:
        frames = re.findall(r"#\d+ 0x\w+ in (\S+) ", err)
        return "AddressSanitizer: %s; in %s" % (m.group(1)[:120], ", ".join(frames[:5]))
    lines = [l for l in err.splitlines() if l.strip()]
    return lines[-1][:300] if lines else ""


def replay_case(exe, case, hang):
    """Run one case alone. Returns (failed, message)."""
    try:
        r = subprocess.run([exe, "--case", case], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, text=True, errors="replace", timeout=hang)
    except subprocess.TimeoutExpired:
        return True, "does not finish within %d s" % hang
    for line in r.stdout.splitlines():
        if line.startswith("MCFAIL "):
            return True, json.loads(line[7:], strict=False)["msg"]
        if line.startswith("MCPASS"):
            return False, "passes"
    return True, "crashes (status %d): %s" % (r.returncode, summarize(r.stderr))


def save_replay(prop, job, tier, case, shard, shards, msg):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": prop, "src": job["src"], "variant": job["variant"], "tier": tier, "case": case, "shard": shard, "shards": shards, "message": msg}
    name = "%s-%s.json" % (prop, hashlib.sha1(json.dumps([job["src"], job["variant"], case, shard, shards]).encode()).hexdigest()[:10])
    with open(os.path.join(d, name), "w") as f:
        json.dump(body, f, indent=1)
    return os.path.join("replays", name)


def known_findings():
    path = os.path.join(HERE, "known-findings.json")
    return json.load(open(path)) if os.path.exists(path) else []


def report(prop, job, tier, case, desc, msg, shard, shards, state):
    for k in known_findings():
        if k.get("status") == "known" and k["property"] == prop and re.fullmatch(k["case"], case or "") and k["src"] == job["src"]:
            state["known"].append("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
            return
    path = save_replay(prop, job, tier, case, shard, shards, msg)
    state["violations"].append(path)
    print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
    print("  %s [%s]: %s" % (job["src"], job["variant"], desc or case), flush=True)
    print("  %s" % msg.replace("\n", "\n  "), flush=True)


def confirm(prop, tier, t, state):
    hang = hang_limit(t.job, tier)
    if hang <= 100:
        hang *= 2
    todo = []
    if t.crash:
        todo.append((t.crash["case"] if t.crash["active"] else None, "", t.crash["why"] + ". " + summarize(t.crash["stderr"])))
    todo += [(f["case"], f["desc"], f["msg"]) for f in t.fails[:2]]
    for case, desc, msg in todo:
        if len(state["violations"]) >= 6 or (state["violations"] and time.time() - START > 240):
            return
        if case is not None:
            bad, m2 = replay_case(t.exe, case, hang)
            if bad:
                if not desc:
                    desc = run([t.exe, "--describe", case]).stdout.strip()[:300]
                report(prop, t.job, tier, case, desc, m2, -1, 0, state)
                continue
        # Not reproduced alone: the failure may need the calls made before it, so run the same shard again.
        t2 = run_task(Task(t.job, t.exe, t.shard, t.shards, t.tier, state["work"]))
        again = [f for f in t2.fails if f["case"] == case] or (t2.crash and t.crash and t2.crash["case"] == t.crash["case"])
        if again:
            report(prop, t.job, tier, None, desc or case, msg + " (only after the earlier cases of its shard)", t.shard, t.shards, state)
        else:
            state["unreproduced"].append("%s: %s" % (case, msg))
            log("not reproduced, not reported:", case, msg[:200])


def explore(prop, tier, builder, state):
    spec = PROPS[prop]
    set_env(prop)
    jobs = [dict(j) for j in spec["jobs"] if tier == "thorough" or not j.get("thorough_only")]
    tasks, oracle = [], 0
    with cf.ThreadPoolExecutor(4) as ex:
        exes = list(ex.map(builder.harness, jobs))
    log("built", ", ".join("%s/%s" % (j["src"], j["variant"]) for j in jobs))
    checked = set()
    for j, e in zip(jobs, exes):
        if j["src"] not in checked:
            checked.add(j["src"])
            oracle += check_refs(e)
        n = j.get("shards", NPROC)
        tasks += [Task(j, e, i, n, tier, state["work"]) for i in range(n)]
    log("reference models agree with Python on %d values" % oracle)
    with cf.ThreadPoolExecutor(NPROC) as ex:
        done = list(ex.map(run_task, tasks))
    counters, outcomes, samples = {}, set(), []
    for t in done:
        if t.result:
            for k, v in t.result["counters"].items():
                counters[k] = counters.get(k, 0) + v
            if len(samples) < 6:
                samples += t.result["samples"][:2]
        try:
            a = array.array("Q")
            with open(t.base + ".outc", "rb") as f:
                a.frombytes(f.read())
            outcomes.update(a)
        except OSError:
            pass
    bad = [t for t in done if t.crash or t.fails]
    bad.sort(key=lambda t: bool(t.crash and t.crash["hung"]))
    for t in bad:
        if state["violations"] and t.crash and t.crash["hung"]:
            continue  # a hang takes long to confirm, and there is something to report already
        confirm(prop, tier, t, state)
    return spec, counters, outcomes, samples, oracle, jobs


def write_evidence(prop, tier, spec, counters, outcomes, samples, oracle, jobs, state):
    cov = {}
    if spec["level"] == "model_checking":
        cov["states"] = counters.pop("states", 0)
        cov["transitions"] = counters.pop("transitions", 0)
        cov["traces_validated_against_impl"] = counters.pop("executions", 0)
        cov["distinct_outcomes"] = len(outcomes)
    else:
        cov["evaluations"] = counters.pop("executions", 0)
        cov["distinct_nontrivial"] = len(outcomes)
        cov["rule"] = spec["rule"]
    cov["samples"] = samples[:6]
    cov["exhaustive"] = not state["violations"] and not state["unreproduced"]
    cov["bounds"] = spec["bounds"][tier] if isinstance(spec["bounds"], dict) else spec["bounds"]
    cov["oracle_values_checked_against_python"] = oracle
    cov["builds"] = sorted({j["variant"] for j in jobs})
    for k, v in sorted(counters.items()):
        cov[k] = v
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": spec["level"], "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - START, 2), "violations": len(state["violations"])}
    if state["unreproduced"]:
        ev["coverage"]["unreproduced"] = state["unreproduced"][:5]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    return ev


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    work = tempfile.mkdtemp(prefix="pgfe-verif-")
    state = {"violations": [], "known": [], "unreproduced": [], "work": work}
    rc = 0
    try:
        b = Builder(work)
        if a.replay:
            r = json.load(open(os.path.join(HERE, a.replay) if not os.path.exists(a.replay) else a.replay))
            set_env(r["property"])
            job = next(j for j in PROPS[r["property"]]["jobs"] if j["src"] == r["src"] and j["variant"] == r["variant"])
            if r["src"] == "build":
                print(r["message"])
                return 1
            exe = b.harness(job)
            if r["case"] is not None:
                bad, msg = replay_case(exe, r["case"], 2 * job.get("hang", 60))
            else:
                t = run_task(Task(job, exe, r["shard"], r["shards"], r["tier"], work))
                bad = bool(t.fails or t.crash)
                msg = json.dumps(t.fails or t.crash)[:2000] if bad else "passes"
            print(("VIOLATION property=%s replay=%s\n  %s" % (r["property"], a.replay, msg)) if bad else "passes: " + msg)
            return 1 if bad else 0
        prop = a.property
        if prop not in PROPS:
            print("unknown property", prop)
            return 2
        try:
            spec, counters, outcomes, samples, oracle, jobs = explore(prop, a.tier, b, state)
        except BuildError as e:
            if PROPS[prop].get("build_is_property"):
                path = save_replay(prop, {"src": "build", "variant": "-"}, a.tier, None, -1, 0, str(e))
                print("VIOLATION property=%s replay=%s" % (prop, path))
                print(e)
                return 1
            print("ERROR: cannot decide %s: %s" % (prop, e))
            return 2
        ev = write_evidence(prop, a.tier, spec, dict(counters), outcomes, samples, oracle, jobs, state)
        for k in sorted(set(state["known"])):
            print(k)
        c = ev["coverage"]
        log("%s %s: %s" % (prop, a.tier, ", ".join("%s=%s" % (k, v) for k, v in c.items() if isinstance(v, int) and not isinstance(v, bool))))
        rc = 1 if state["violations"] else 0
        if rc == 0:
            print("OK property=%s" % prop)
        return rc
    finally:
        if a.keep:
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
