"""Choice-sequence property-based testing for code that may end the process.

A case is a sequence of raw 32-bit choices.  Batches of cases run in forked
workers; the index of the running case lies in shared memory, so that an abort
or a crash is attributed to its case.  A failing case is confirmed in fresh
processes and then shrunk by removing and lowering choices, one process per
attempt.  The shrunk choices are the replay file.
"""
import hashlib
import json
import math
import mmap
import os
import random
import select
import signal
import struct
import sys
import time
import traceback

M32 = 1 << 32


class Discard(Exception):
    pass


class Fail(Exception):
    pass


class Case:
    def __init__(self, choices=None, rng=None):
        self.given = choices
        self.rng = rng
        self.used = []
        self.labels = set()
        self.marked = False
        self.log = []

    def raw(self):
        i = len(self.used)
        if self.given is not None:
            v = self.given[i] if i < len(self.given) else 0
        else:
            v = self.rng.getrandbits(32)
        self.used.append(v)
        if len(self.used) > 20000:
            raise Discard()
        return v

    def integer(self, lo, hi):
        return lo + self.raw() % (hi - lo + 1)

    def size(self, lo, hi):
        """small values more often"""
        a = self.integer(lo, hi)
        if self.raw() % 2 == 0:
            return a
        return min(a, self.integer(lo, hi))

    def unit(self):
        return self.raw() / (M32 - 1)

    def real(self, lo, hi):
        return lo + (hi - lo) * self.unit()

    def logreal(self, lo, hi):
        return math.exp(math.log(lo) + (math.log(hi) - math.log(lo)) * self.unit())

    def pick(self, seq):
        return seq[self.raw() % len(seq)]

    def coin(self):
        return self.raw() % 2 == 1

    def chance(self, n):
        return self.raw() % n == n - 1

    def label(self, s):
        self.labels.add(s)

    def mark(self):
        self.marked = True

    def discard(self):
        raise Discard()

    def fail(self, msg):
        raise Fail(msg)

    def require(self, cond, msg):
        if not cond:
            raise Fail(msg)

    def note(self, s):
        if len(self.log) < 60:
            self.log.append(str(s)[:300])


SUBS = []


def sub(weight):
    def deco(fn):
        SUBS.append((fn.__name__, weight, fn))
        return fn
    return deco


def run_case(c):
    """-> (status, message); status ok | discard | fail"""
    total = sum(w for _, w, _ in SUBS)
    k = c.integer(0, total - 1)
    for name, w, fn in SUBS:
        if k < w:
            break
        k -= w
    c.label(name)
    c.note(name)
    try:
        fn(c)
        return "ok", ""
    except Discard:
        return "discard", ""
    except Fail as e:
        return "fail", f"{name}: {e}"
    except Exception:
        return "fail", f"{name}: unexpected exception\n{traceback.format_exc()}"


def silence():
    n = os.open("/dev/null", os.O_WRONLY)
    os.dup2(n, 1)
    os.dup2(n, 2)


def isolated(choices, timeout):
    """run one case in a fresh process -> (status, message, used, log)"""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        silence()
        try:
            c = Case(choices)
            st, msg = run_case(c)
            os.write(w, b"")
            data = json.dumps([st, msg, c.used, c.log]).encode()
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)
    os.close(w)
    buf = b""
    end = time.time() + timeout
    hung = False
    while True:
        rd, _, _ = select.select([r], [], [], max(0.0, end - time.time()))
        if not rd:
            hung = True
            os.kill(pid, signal.SIGKILL)
            break
        d = os.read(r, 1 << 16)
        if not d:
            break
        buf += d
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if hung:
        return "fail", f"no answer within {timeout} s", choices, []
    if os.WIFSIGNALED(status) or not buf:
        return "fail", f"the process ended (signal {status & 127})", choices, []
    st, msg, used, log = json.loads(buf)
    return st, msg, used, log


def shrink(choices, timeout, budget):
    end = time.time() + budget
    best = list(choices)
    st, msg, used, log = isolated(best, timeout)
    if st == "fail" and len(used) <= len(best):
        best = used
    best_msg, best_log = msg, log

    def attempt(cand):
        nonlocal best, best_msg, best_log
        if time.time() > end:
            return False
        st, msg, used, log = isolated(cand, timeout)
        if st != "fail":
            return False
        cand = used if len(used) < len(cand) else cand
        if (len(cand), cand) < (len(best), best):
            best, best_msg, best_log = list(cand), msg, log
            return True
        return False

    progress = True
    while progress and time.time() < end:
        progress = False
        n = 32
        while n:
            i = 0
            while i + n <= len(best) and time.time() < end:
                if attempt(best[:i] + best[i + n:]):
                    progress = True
                else:
                    i += n
            n //= 2
        for i in range(len(best)):
            if i >= len(best) or time.time() > end:
                break
            for v in (0, 1, best[i] % 64, best[i] // 2, best[i] - 1):
                if i < len(best) and 0 <= v < best[i] and attempt(best[:i] + [v] + best[i + 1:]):
                    progress = True
    return best, best_msg, best_log


def worker(wid, workers, seed, cases, cap_end, shared, fd):
    silence()
    labels, samples, hashes = {}, [], set()
    n = disc = 0
    capped = False
    fail = None
    for i in range(wid, cases, workers):
        if n % 16 == 0 and time.time() > cap_end:
            capped = True
            break
        struct.pack_into("<Qd", shared, wid * 16, i + 1, time.time())
        c = Case(rng=random.Random(seed * 1000003 + i))
        st, msg = run_case(c)
        n += 1
        if st == "fail":
            fail = [i, msg]
            break
        if st == "discard":
            disc += 1
            continue
        for s in c.labels:
            labels[s] = labels.get(s, 0) + 1
        if c.marked:
            hashes.add(hashlib.blake2b(struct.pack(f"<{len(c.used)}I", *c.used), digest_size=8).hexdigest())
            if len(samples) < 4 or (len(samples) < 12 and n % 97 == 0):
                samples.append(" ; ".join(c.log)[:900])
    struct.pack_into("<Qd", shared, wid * 16, 0, time.time())
    data = json.dumps({"n": n, "disc": disc, "labels": labels, "samples": samples,
                       "hashes": sorted(hashes), "capped": capped, "fail": fail}).encode()
    while data:
        data = data[os.write(fd, data):]
    os._exit(0)


def main(argv):
    opt = dict(zip(argv[1::2], argv[2::2]))
    timeout = float(opt.get("--case-timeout", 30))
    if "--replay" in opt:
        with open(opt["--replay"]) as f:
            ch = json.load(f)["choices"]
        st, msg, _, log = isolated(ch, timeout)
        print(f"replay: {st} {msg}")
        for s in log:
            print("  " + s)
        return 1 if st == "fail" else 0
    seed, cases = int(opt["--seed"]), int(opt["--cases"])
    workers = int(opt.get("--workers", 8))
    cap_end = time.time() + float(opt["--cap"])
    shared = mmap.mmap(-1, 16 * workers)
    procs, flaky = {}, 0
    agg = {"evaluations": 0, "discarded": 0, "labels": {}, "samples": [], "capped": False}
    hashes = set()
    bad = []
    sys.stdout.flush()
    for w in range(workers):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            worker(w, workers, seed, cases, cap_end, shared, wr)
        os.close(wr)
        procs[r] = [w, pid, b""]
    while procs:
        rd, _, _ = select.select(list(procs), [], [], 1.0)
        now = time.time()
        for r, (w, pid, _) in list(procs.items()):
            i, t = struct.unpack_from("<Qd", shared, w * 16)
            if i and now - t > timeout and r not in rd:
                os.kill(pid, signal.SIGKILL)
        for r in rd:
            d = os.read(r, 1 << 16)
            if d:
                procs[r][2] += d
                continue
            w, pid, buf = procs.pop(r)
            os.close(r)
            _, status = os.waitpid(pid, 0)
            try:
                res = json.loads(buf)
            except ValueError:
                i, _ = struct.unpack_from("<Qd", shared, w * 16)
                bad.append((i - 1, f"process ended, status {status}"))
                continue
            agg["evaluations"] += res["n"]
            agg["discarded"] += res["disc"]
            agg["capped"] |= res["capped"]
            for k, v in res["labels"].items():
                agg["labels"][k] = agg["labels"].get(k, 0) + v
            agg["samples"] += res["samples"]
            hashes.update(res["hashes"])
            if res["fail"]:
                bad.append(tuple(res["fail"]))
        if bad and procs:
            for _, pid, _ in procs.values():
                try:
                    os.kill(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
            for r, (w, pid, _) in procs.items():
                os.close(r)
                os.waitpid(pid, 0)
            procs = {}
    rc = 0
    for i, msg in sorted(bad):
        c = Case(rng=random.Random(seed * 1000003 + i))
        raws = random.Random(seed * 1000003 + i)
        ch = [raws.getrandbits(32) for _ in range(20000)]
        del c
        outs = [isolated(ch, timeout) for _ in range(3)]
        if not all(o[0] == "fail" for o in outs):
            flaky += 1
            print(f"case {i} failed once ({msg}) and not again: ignored")
            continue
        used = min((o[2] for o in outs), key=len)
        best, bmsg, blog = shrink(used, timeout, float(opt.get("--shrink", 40)))
        with open(opt["--violation-out"], "w") as f:
            json.dump({"property": "C21", "choices": best, "message": bmsg, "log": blog}, f, indent=1)
        print(f"violation (case {i}): {bmsg}")
        for s in blog:
            print("  " + s)
        rc = 1
        break
    agg.update({"distinct_nontrivial": len(hashes), "flaky": flaky})
    agg["samples"] = agg["samples"][:16]
    with open(opt["--out"], "w") as f:
        json.dump(agg, f)
    print(f"evaluations={agg['evaluations']} nontrivial={len(hashes)} discarded={agg['discarded']} capped={agg['capped']}")
    return rc
