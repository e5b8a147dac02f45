#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]     decide one property
   check.py --setup                       build everything once
   check.py --survey [PROFILE...]         run profiles and list what fails (for development)

Builds the library from /repo's current working tree in several instrumented
forms, generates workloads together with the answers they must give, plays them
against the real library and reports every difference and every sanitizer report.
"""
import hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("BETREE_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
JOBS = max(2, os.cpu_count() or 2)

SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=97:hard_rss_limit_mb=3500:allocator_may_return_null=0:detect_stack_use_after_return=1:malloc_context_size=12:check_initialization_order=1:strict_string_checks=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=97:hard_rss_limit_mb=3500:history_size=4:second_deadlock_stack=1",
    "MSAN_OPTIONS": "exitcode=97:hard_rss_limit_mb=3500:halt_on_error=1",
}
CLANG = ["-g", "-std=gnu11", "-D_GNU_SOURCE", "-fno-omit-frame-pointer", "-w"]
VARIANTS = {
    # as the project builds it
    "plain": dict(cc="gcc", flags=["-O3", "-g", "-std=gnu11", "-w"], defs=["-DWITH_HELPER"]),
    "asan": dict(cc="clang", flags=["-O1"] + CLANG + ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=function,nonnull-attribute,pointer-overflow", "-fno-sanitize-recover=all"], defs=["-DWITH_HELPER", "-DWITH_HOOKS", "-DWITH_ASAN"]),
    "tsan": dict(cc="clang", flags=["-O1"] + CLANG + ["-fsanitize=thread"], defs=["-DWITH_HELPER"]),
    "msan": dict(cc="clang", flags=["-O1"] + CLANG + ["-fsanitize=memory", "-fsanitize-memory-track-origins"], defs=["-DWITH_HELPER"]),
    # with the structure walk compiled in
    "struct": dict(cc="clang", flags=["-O1"] + CLANG + ["-fsanitize=address,undefined", "-fno-sanitize=function,nonnull-attribute,pointer-overflow", "-fno-sanitize-recover=all"], defs=["-DWITH_HELPER", "-DWITH_STRUCT"]),
}

# A campaign: profile, quick count, thorough count, build, player checks. The counts are
# in units of SCALE cases (see below), which keeps a quick check under about a minute.
SCALE = {"quick": 16, "thorough": 5}
def C(profile, quick, thorough, variant="plain", checks=()):
    return dict(profile=profile, quick=quick * SCALE["quick"], thorough=thorough * SCALE["thorough"], variant=variant, checks=list(checks))

def V(profile, quick, thorough, variant="plain", checks=()):
    """A campaign of few, large cases: not scaled."""
    return dict(profile=profile, quick=quick, thorough=thorough, variant=variant, checks=list(checks))

CAMPAIGNS = {
    "P01": [C("mixed", 12000, 1200000), C("mixed", 800, 40000, "asan"), C("shape", 600, 60000), C("scale", 40, 2000), C("lists", 800, 60000), C("undef", 1500, 100000), V("volume", 40, 2000)],
    "P02": [C("shape", 2500, 250000), C("shape", 150, 12000, "asan"), C("bounds", 1500, 100000), C("scale", 60, 3000), V("volleaves", 20, 1000), V("volleaf", 4, 100)],
    "P03": [C("undef", 12000, 1000000), C("undef", 600, 40000, "asan"), C("freq", 1500, 100000), C("effect", 100, 4000), V("volattrs", 20, 1000)],
    "P04": [C("share", 6000, 500000), C("share", 300, 20000, "asan"), C("multi", 300, 20000), V("volpreds", 20, 1000)],
    "P05": [C("exists", 6000, 500000), C("exists", 300, 20000, "asan"), C("required", 800, 60000), C("mixed", 800, 60000), V("volleaves", 20, 1000)],
    "P06": [C("repeat", 5000, 500000), C("repeat", 300, 20000, "asan"), V("volhistory", 24, 2000)],
    "P07": [C("events", 8000, 600000), C("events", 400, 30000, "asan"), V("volattrs", 20, 1000), V("vollists", 20, 1000), V("volspecial", 20, 1000)],
    "P08": [C("required", 6000, 500000), C("required", 300, 20000, "asan"), V("volattrs", 20, 1000)],
    "P09": [C("refuse", 4000, 300000), C("fuzz", 6000, 500000), C("refuse", 300, 20000, "asan"), C("fuzz", 500, 40000, "asan"), V("volstrings", 20, 1000)],
    "P10": [C("spell", 6000, 500000), C("spell", 300, 20000, "asan"), V("volumesmall", 36, 1000)],
    "P11": [C("lists", 8000, 600000), C("lists", 400, 30000, "asan"), V("vollists", 20, 1000)],
    "P12": [C("numeric", 8000, 600000), C("numeric", 400, 30000, "asan"), V("volleaves", 20, 1000)],
    "P13": [C("bounds", 4000, 400000), C("bounds", 300, 20000, "asan"), V("volleaves", 16, 800)],
    "P14": [C("strings", 6000, 500000), C("strings", 300, 20000, "asan"), V("volstrings", 45, 2000)],
    "P15": [C("freq", 10000, 800000), C("freq", 500, 30000, "asan"), V("volspecial", 20, 1000)],
    "P16": [C("seg", 10000, 800000), C("seg", 500, 30000, "asan"), V("volspecial", 20, 1000)],
    "P17": [C("geostr", 8000, 600000), C("geostr", 400, 30000, "asan"), V("volstrings", 20, 1000)],
    "P18": [C(p, q, q * 60, "asan") for p, q in (("mixed", 500), ("shape", 100), ("undef", 250), ("share", 120), ("repeat", 150), ("events", 250), ("required", 100), ("refuse", 250), ("spell", 120), ("lists", 250), ("numeric", 300), ("bounds", 200), ("strings", 200), ("freq", 250), ("seg", 250), ("geostr", 250), ("fuzz", 400), ("multi", 60), ("decl", 150), ("scale", 4))]
         + [V("volumesmall", 24, 1000, "asan")] + [C(p, q, q * 60, "msan") for p, q in (("mixed", 300), ("shape", 50), ("events", 150), ("refuse", 150), ("strings", 100), ("lists", 100), ("freq", 150), ("seg", 150), ("geostr", 150), ("fuzz", 200), ("decl", 80), ("numeric", 150), ("bounds", 80))],
    "P19": [C(p, q, q * 60, "asan", ["leak"]) for p, q in (("mixed", 400), ("shape", 60), ("undef", 150), ("share", 80), ("exists", 100), ("repeat", 150), ("events", 250), ("required", 200), ("refuse", 400), ("spell", 80), ("lists", 200), ("numeric", 120), ("bounds", 150), ("strings", 200), ("freq", 250), ("seg", 200), ("geostr", 200), ("fuzz", 400), ("multi", 60), ("decl", 150))]
         + [V("memory", 24, 1500, "asan", ["leak"]), V("volhistory", 8, 300, "asan", ["leak"])],
    "P20": [C("par", 120, 8000, "tsan"), C("par", 500, 40000, "plain")],
    "P21": [C("shape", 250, 20000, "struct", ["struct"]), C("mixed", 300, 20000, "struct", ["struct"]), C("bounds", 200, 12000, "struct", ["struct"]), C("numeric", 200, 12000, "struct", ["struct"]), C("scale", 4, 200, "struct", ["struct"]), V("volleaves", 12, 600, "struct", ["struct"]), V("volleaf", 2, 100, "struct", ["struct"]), V("volumesmall", 16, 600, "struct", ["struct"])],
    "P22": [C("effect", 1500, 100000, "plain", ["counters"]), C("mixed", 2000, 200000, "plain", ["counters"]), C("shape", 300, 30000, "plain", ["counters"]), C("required", 500, 40000, "plain", ["counters"]), C("share", 400, 40000, "plain", ["counters"]), V("volleaves", 20, 1000, "plain", ["counters"]), V("volpreds", 20, 1000, "plain", ["counters"]), V("volleaf", 4, 100, "plain", ["counters"]), V("volattrs", 20, 1000, "plain", ["counters"])],
    "P23": [C("multi", 2000, 200000), C("multi", 100, 8000, "asan"), V("volhistory", 24, 1000), C("multipar", 150, 10000, "tsan"), C("multipar", 400, 30000, "plain")],
    "P24": [C("scale", 300, 15000), C("scale", 12, 600, "asan"), V("volume", 120, 3000), V("volumesmall", 50, 1000, "asan")],
    "P25": [C("decl", 3000, 300000), C("decl", 200, 15000, "asan")],
}
RULES = {
    "P01": "Profiles: mixed (all types and operators, up to 60 expressions), shape (leaf capacities 1-8), scale, lists, undef.",
    "P02": "Each case inserts one collection into several trees that differ in insertion order, leaf capacity (1 to 2^40), partition size, time of the searches and repetition of ids; all must give the answers of the evaluator.",
    "P03": "Deep and/or/not nestings over mostly optional attributes; each case asks many subsets of defined attributes.",
    "P04": "Collections of repeated and nearly equal sub-expressions (one operator, constant, list element or attribute apart, also long lists and strings that differ in one place); every expression is also stored alone in a tree of its own and asked the same events.",
    "P05": "Existence queries (text and object) next to searches, on trees that often match nothing and events that may lack a required attribute.",
    "P06": "Repeated and interleaved queries; event objects kept and used again after further insertions that introduce strings the event held; reports used twice; event objects whose variables are replaced between searches; up to 70000 queries on one tree.",
    "P07": "One event in many layouts: shuffled attributes, white space, quotes, explicit null, the same pair twice, whole floats written as integers, and built through the programmatic calls; all must agree with the evaluator.",
    "P08": "Several required attributes; every case asks events with all, some and none of them.",
    "P09": "Ill-typed, undeclared, out-of-capacity, malformed, truncated and random texts between valid ones, through insert, make_sub and change_boundaries; the queries after them must be as if they had never been submitted.",
    "P10": "Each expression is rendered in several spellings and logical rewritings, all stored under different ids: all or none must match.",
    "P11": "List expressions and event lists with repeated and shuffled elements, including empty event lists and long lists.",
    "P12": "Integer and float domains of every size from one point to the full range, constants and event values inside, at and outside the limits; floats close to each other but beyond the tolerance; integers that agree in their low bits.",
    "P13": "One collection inserted directly, prepared first, and with boundaries adjusted before, between and after; all trees must agree with the evaluator.",
    "P14": "Few and many distinct strings and enums shared by attributes, with and without capacity, including unseen values, strings with a long common part, enums that agree in their low bits and refusals at the capacity edge.",
    "P15": "All kinds, namespaces, constants, limits, windows, timestamps and current times at, next to and far from the deciding instants, in any epoch.",
    "P16": "Sorted segment lists of any length, ages at, next to and far from the deciding instant, ids that agree in their low bits, default and named attributes.",
    "P17": "Points in any direction up to the poles and across the antimeridian, radii as little as 30 cm from the true distance, strings and patterns with overlaps, including strings no expression mentions.",
    "P18": "All profiles under AddressSanitizer+UBSan and under MemorySanitizer; any report, abort or signal is a violation.",
    "P19": "All profiles under AddressSanitizer with a leak check after every case, once everything of the case has been destroyed; thousands of different queries on one tree, after the second half of which no more memory may be in use than after the first.",
    "P20": "Several threads query one tree at the same time, started together by a barrier, under ThreadSanitizer and, for more interleavings, uninstrumented; every answer is compared.",
    "P21": "After every insertion the whole index is walked and compared with the expressions inserted so far; of trees with more than a thousand expressions at intervals.",
    "P22": "Counters of every report are checked; the effect profile builds collections whose share of evaluated, early decided and reused expressions is bounded by construction (single values, narrow ranges, neighbouring pairs and denied opposites of a required bounded attribute; undefined gates of every type; repeats of every kind of predicate).",
    "P23": "Several trees with the same names, values and ids but different contents, used alternately in one thread and in parallel, some destroyed on the way; thousands of short-lived trees beside one that stays.",
    "P24": "Hundreds of attributes, thousands of expressions and repeated predicates, with counts next to multiples of 64; and volume cases: up to 5000 attributes and, each on its own, up to 70000 distinct strings, predicates, expressions, list elements, segments, caps, equal expressions in one leaf and characters in a text, at and beyond 2^8 and 2^16.",
    "P25": "Declarations made by call and by text line in twin trees; names, types and numbering are asked back, and where both trees were told the same the counters of their reports must agree as well; trees are emptied and filled again.",
}
LEVEL = "exploration"
NOTES = []


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


class HarnessError(Exception):
    pass


# ---------------------------------------------------------------------- build
def tree_hash(extra):
    h = hashlib.sha256(extra.encode())
    src = os.path.join(REPO, "src")
    for n in sorted(os.listdir(src)):
        if n.endswith((".c", ".h")):
            h.update(n.encode() + b"\0" + open(os.path.join(src, n), "rb").read() + b"\0")
    for n in ("player/player.c", "player/verify.c", "player/verify.h"):
        h.update(open(os.path.join(VERIF, n), "rb").read())
    return h.hexdigest()[:20]


def clear_dir(path):
    if path.startswith(BUILD + os.sep) and os.path.isdir(path):
        shutil.rmtree(path, ignore_errors=True)


def build_variants(names, with_gen=True):
    """Compile the library of the current tree and the player, once per variant."""
    os.makedirs(BUILD, exist_ok=True)
    jobs, links, res = [], [], {}
    src = os.path.join(REPO, "src")
    csrc = sorted(n for n in os.listdir(src) if n.endswith(".c"))
    for v in names:
        spec = VARIANTS[v]
        key = tree_hash(json.dumps([v, spec], sort_keys=True))
        d = os.path.join(BUILD, v)
        exe = os.path.join(d, "player-" + key)
        res[v] = exe
        if os.path.exists(exe):
            continue
        clear_dir(d)
        os.makedirs(d, exist_ok=True)
        objs = []
        for n in csrc:
            o = os.path.join(d, n + ".o")
            objs.append(o)
            jobs.append((os.path.getsize(os.path.join(src, n)), [spec["cc"]] + spec["flags"] + ["-I" + src, "-c", os.path.join(src, n), "-o", o]))
        o = os.path.join(d, "player.o")
        objs.append(o)
        jobs.append((10**6, [spec["cc"]] + spec["flags"] + spec["defs"] + ["-D_GNU_SOURCE", "-I" + src, "-c", os.path.join(VERIF, "player/player.c"), "-o", o]))
        if "-DWITH_STRUCT" in spec["defs"]:
            o = os.path.join(d, "verify.o")
            objs.append(o)
            jobs.append((10**5, [spec["cc"]] + spec["flags"] + ["-D_GNU_SOURCE", "-I" + src, "-c", os.path.join(VERIF, "player/verify.c"), "-o", o]))
        links.append([spec["cc"]] + spec["flags"] + objs + ["-lm", "-lpthread", "-o", exe + ".tmp"])
    gen = None
    if with_gen:
        h = hashlib.sha256()
        for n in ("model.h", "build.h", "gen.cpp"):
            h.update(open(os.path.join(VERIF, "gen", n), "rb").read())
        gen = os.path.join(BUILD, "gen-" + h.hexdigest()[:16])
        if not os.path.exists(gen):
            jobs.append((10**9, ["g++", "-std=c++17", "-O1", "-w", "-o", gen + ".tmp", os.path.join(VERIF, "gen/gen.cpp")]))
    jobs.sort(key=lambda j: -j[0])
    with ThreadPoolExecutor(JOBS) as ex:
        for j, r in zip(jobs, ex.map(lambda j: sh(j[1]), jobs)):
            if r.returncode and j[1][-3].endswith("verify.c"):
                # the structures were renamed: leave the walk out, say so, and go on with the answers
                NOTES.append("the structure walk does not compile against this tree and was left out: " + r.stdout[-300:])
                e = sh([j[1][0]] + [x for x in j[1][1:-4]] + ["-DNO_WALK", "-c", j[1][-3], "-o", j[1][-1]])
                if e.returncode:
                    raise HarnessError("cannot build the empty walk: " + e.stdout[-2000:])
            elif r.returncode:
                raise HarnessError("cannot build: %s\n%s" % (" ".join(j[1]), r.stdout[-3000:]))
        for j, r in zip(links, ex.map(sh, links)):
            if r.returncode:
                raise HarnessError("cannot link: %s\n%s" % (" ".join(j), r.stdout[-3000:]))
            os.replace(j[-1], j[-1][:-4])
    if gen and not os.path.exists(gen):
        os.replace(gen + ".tmp", gen)
    return res, gen


# ------------------------------------------------------------------------ run
class Run:
    """One check: campaigns cut in chunks, played by a pool of workers."""

    def __init__(self, pid, tier, seed, campaigns, limit, max_viol=5, regress=True):
        self.pid, self.tier, self.seed, self.campaigns = pid, tier, seed, campaigns
        # every property sees cases of its own, and every campaign a range of its own
        self.gseed = seed * 100 + (int(pid[1:]) if pid[1:].isdigit() else 0)
        self.deadline = time.time() + limit
        self.max_viol = max_viol
        self.lock = threading.Lock()
        self.viol = []
        self.stop = False
        self.player_stats, self.gen_stats, self.per_campaign = {}, {}, {}
        self.hashes = set()
        self.samples = {}
        self.kinds = {}
        self.regress = regress
        self.nregress = 0
        self.skipped = 0
        self.scratch = tempfile.mkdtemp(prefix="betree-check-", dir=BUILD)

    def env(self):
        e = {k: v for k, v in os.environ.items() if not k.endswith("SAN_OPTIONS")}
        e.update(SAN_ENV)
        e["LC_ALL"] = "C"
        sym = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18")
        if sym:
            e["ASAN_SYMBOLIZER_PATH"] = e["MSAN_SYMBOLIZER_PATH"] = e["TSAN_SYMBOLIZER_PATH"] = sym
        return e

    def play(self, exe, variant, script, name, checks, quiet_limit):
        """-> (returncode or 'hang', fails, stat, last case, stderr tail)"""
        res, st, err = (os.path.join(self.scratch, name + s) for s in (".res", ".st", ".err"))
        for f in (res, st):
            if os.path.exists(f):
                os.unlink(f)

        def lim():
            if variant == "plain":
                resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
            else:
                # frames are several times larger under a sanitizer
                try:
                    resource.setrlimit(resource.RLIMIT_STACK, (256 << 20, resource.getrlimit(resource.RLIMIT_STACK)[1]))
                except (ValueError, OSError):
                    pass
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_FSIZE, (2 << 30, 2 << 30))
        with open(err, "wb") as ef:
            p = subprocess.Popen([exe, script, res, st] + checks, stdout=subprocess.DEVNULL, stderr=ef, stdin=subprocess.DEVNULL, preexec_fn=lim, env=self.env(), cwd=self.scratch, start_new_session=True)
            last, since, rc = None, time.time(), None
            delay = 0.01
            while True:
                try:
                    rc = p.wait(timeout=delay)
                    break
                except subprocess.TimeoutExpired:
                    pass
                delay = min(0.5, delay * 2)
                cur = self.progress(st)
                if cur != last:
                    last, since = cur, time.time()
                elif time.time() - since > quiet_limit:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    rc = "hang"
                    break
        cur = self.progress(st)
        fails, stat, harness = [], None, None
        if os.path.exists(res):
            for l in open(res, errors="replace"):
                f = l.rstrip("\n").split("\t")
                if f[0] == "FAIL" and len(f) >= 5:
                    fails.append(dict(case=int(f[1]), line=int(f[2]), kind=f[3], msg=f[4]))
                elif f[0] == "STAT":
                    stat = json.loads(f[1])
                elif f[0] == "HARNESS":
                    harness = l.strip()
        if harness or rc == 3:
            raise HarnessError("player: %s (script %s)" % (harness, script))
        size = os.path.getsize(err)
        with open(err, "rb") as ef:
            head = ef.read(20000) if size < 60000 else b""
            ef.seek(max(0, size - 40000))
            tail = head if size <= 20000 else ef.read()
        for f in (res, st, err):
            if os.path.exists(f):
                os.unlink(f)
        return rc, fails, stat, cur[0] if cur else None, tail.decode(errors="replace")

    @staticmethod
    def progress(st):
        try:
            b = open(st, "rb").read(24)
            if len(b) == 24:
                return int.from_bytes(b[:8], "little", signed=True), int.from_bytes(b[8:16], "little"), int.from_bytes(b[16:24], "little")
        except OSError:
            pass
        return None

    def add(self, camp, case, line, kind, msg, script_text, detail=""):
        with self.lock:
            self.viol.append(dict(camp=camp, case=case, line=line, kind=kind, msg=msg, script=script_text, detail=detail))
            # five failing cases are enough, and one hang
            if kind == "hang" or len({(v["camp"]["profile"], v["case"]) for v in self.viol}) >= self.max_viol:
                self.stop = True

    @staticmethod
    def case_text(script, case):
        out, on = [], False
        with open(script, "rb") as f:
            for l in f:
                if l.startswith(b"CASE\t"):
                    if on:
                        break
                    on = int(l.split(b"\t")[1]) == case
                if on:
                    out.append(l)
        return b"".join(out)

    def merge(self, d, s):
        for k, v in s.items():
            d[k] = max(d.get(k, 0), v) if k.endswith("max_depth") else d.get(k, 0) + v

    def chunk(self, idx, camp, frm, cnt):
        exe = self.exes[camp["variant"]]
        name = "c%d" % idx
        end = frm + cnt
        quiet = 40 if camp["variant"] == "plain" else 80
        while frm < end:
            if self.stop:
                return
            if time.time() > self.deadline:
                with self.lock:
                    self.skipped += end - frm
                return
            script = os.path.join(self.scratch, name + ".script")
            hf = os.path.join(self.scratch, name + ".hash")
            for attempt in range(3):
                with open(script, "wb") as f:
                    g = subprocess.run([self.gen, "--profile", camp["profile"], "--seed", str(self.gseed), "--from", str(frm), "--count", str(end - frm), "--hashes", hf], stdout=f, stderr=subprocess.PIPE)
                if g.returncode >= 0:
                    break
                time.sleep(2)  # ended from outside: memory was short
            if g.returncode:
                raise HarnessError("generator failed: %s %d" % (camp["profile"], frm))
            gst = json.loads(g.stderr.decode().strip().splitlines()[-1])
            for attempt in range(3):
                rc, fails, stat, cur, tail = self.play(exe, camp["variant"], script, name, camp["checks"], quiet)
                if rc == 0 or not (cur is None or cur < frm):
                    break
                time.sleep(2)  # ended before it started: memory was short
            done = end - frm
            nxt = end
            if rc != 0:
                if cur is None or cur < frm:
                    raise HarnessError("player ended with %s before its first case\n%s" % (rc, tail[-2000:]))
                text = self.case_text(script, cur)
                bad = True
                if rc == "hang":
                    # once more, alone and with more patience, before it counts
                    one = os.path.join(self.scratch, name + ".one")
                    open(one, "wb").write(text)
                    rc2, f2, s2, c2, t2 = self.play(exe, camp["variant"], one, name + "-one", camp["checks"], 2 * quiet)
                    if rc2 == 0:
                        bad = False
                        fails += f2
                    else:
                        rc, tail = rc2, t2
                if bad:
                    kind, msg, detail = classify(rc, tail)
                    self.add(camp, cur, 0, kind, msg, text, detail)
                done = cur - frm + 1
                nxt = cur + 1
            byc = {}
            for f in fails:
                byc.setdefault(f["case"], []).append(f)
            for c, fs in sorted(byc.items())[:self.max_viol]:
                self.add(camp, c, fs[0]["line"], fs[0]["kind"], fs[0]["msg"], self.case_text(script, c), "; ".join(f["kind"] + ": " + f["msg"] for f in fs[1:4]))
            with self.lock:
                if stat:
                    self.merge(self.player_stats, stat)
                if nxt == end:
                    self.merge(self.gen_stats, {k: v for k, v in gst.items() if isinstance(v, int) and k != "distinct"})
                key = camp["profile"] + "/" + camp["variant"] + ("+" + "+".join(camp["checks"]) if camp["checks"] else "")
                pc = self.per_campaign.setdefault(key, 0)
                self.per_campaign[key] = pc + done
                b = open(hf, "rb").read()
                self.hashes.update(camp["profile"].encode() + b[i:i + 8] for i in range(0, len(b), 8))
                if key not in self.samples and len(self.samples) < 4:
                    self.samples[key] = self.case_text(script, frm).decode(errors="replace")[:1500]
            for f in (script, hf):
                os.unlink(f)
            frm = nxt

    def regress_one(self, path, variant, checks):
        text = open(path, "rb").read()
        name = "r-" + os.path.basename(path) + "-" + variant + "".join("-" + c for c in checks)
        rc, fails, stat, cur, tail = self.play(self.exes[variant], variant, path, name, checks, 60)
        camp = dict(profile="regress:" + os.path.relpath(path, VERIF), variant=variant, checks=checks)
        if rc != 0:
            kind, msg, detail = classify(rc, tail)
            self.add(camp, cur or 0, 0, kind, msg, text, detail)
        for f in fails if "known" in camp["profile"] else []:
            with self.lock:
                self.viol.append(dict(camp=camp, case=f["case"], line=f["line"], kind=f["kind"], msg=f["msg"], script=text, detail=""))
        if fails and "known" not in camp["profile"]:
            self.add(camp, fails[0]["case"], fails[0]["line"], fails[0]["kind"], fails[0]["msg"], text, "; ".join(f["kind"] + ": " + f["msg"] for f in fails[1:4]))
        with self.lock:
            self.nregress += 1
            if stat:
                self.merge(self.player_stats, stat)

    def run(self):
        self.exes, self.gen = build_variants(sorted({c["variant"] for c in self.campaigns}))
        jobs = []
        if self.regress:
            combos = sorted({(c["variant"], tuple(c["checks"])) for c in self.campaigns})
            rd = os.path.join(VERIF, "regress")
            for f in sorted(os.listdir(rd)) if os.path.isdir(rd) else []:
                if f.endswith(".script") and self.pid in f.split("-")[0].split("+"):
                    for v, ck in combos:
                        jobs.append((self.regress_one, (os.path.join(rd, f), v, list(ck))))
            for k in load_findings(self.pid):
                v, ck = combos[0]
                jobs.append((self.regress_one, (os.path.join(VERIF, k["script"]), v, list(ck))))
        i = 0
        for ci, c in enumerate(self.campaigns):
            n = c[self.tier]
            base = ci * 100000000
            per = max(1, min(-(-n // JOBS), 4000 if c["variant"] == "plain" else 400))
            k = 0
            while k < n:
                jobs.append((self.chunk, (i, c, base + k, min(per, n - k))))
                k += per
                i += 1
        if self.tier == "thorough":
            # interleave the campaigns so that a deadline cuts all of them alike
            jobs.sort(key=lambda j: 0 if j[0] == self.regress_one else (j[1][2] % 100000000 / j[1][1][self.tier]))
        with ThreadPoolExecutor(JOBS) as ex:
            fs = [ex.submit(f, *a) for f, a in jobs]
            for f in fs:
                f.result()

    def close(self):
        clear_dir(self.scratch)


def classify(rc, tail):
    """A kind, one line and the relevant lines of a crash."""
    if rc == "hang":
        return "hang", "a call did not return", ""
    m = re.search(r"SUMMARY: (\w+Sanitizer): (.*)", tail)
    u = re.search(r"^(\S+): runtime error: (.*)$", tail, re.M)
    frames = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+)", tail)[:8]
    if u:
        return "sanitizer", "undefined behaviour: %s at %s" % (u.group(2), os.path.basename(u.group(1))), " < ".join(frames)
    if m:
        return "sanitizer", "%s: %s" % (m.group(1), m.group(2)), " < ".join(frames)
    if "RSS limit" in tail or "rss limit" in tail:
        return "crash", "memory limit exhausted", tail[-300:]
    last = [l for l in tail.strip().splitlines() if l.strip()]
    return "crash", "process ended with %s%s" % (rc, ": " + last[-1][:200] if last else ""), ""


def signature(v):
    return "%s|%s" % (v["kind"], re.sub(r"\d+", "#", v["msg"])[:160])


# ---------------------------------------------------------------------- main
def load_findings(pid):
    """The recorded defects of a property: each has the script that shows it and what it then says."""
    p = os.path.join(VERIF, "known_findings.json")
    return [f for f in json.load(open(p))["findings"] if f["property"] == pid and f["status"] == "known"] if os.path.exists(p) else []


def is_known(v, findings):
    """A violation is known only if it came from the script of a recorded finding and says the same."""
    return next((k for k in findings if v["camp"]["profile"] == "regress:" + k["script"] and re.search(k["signature"], signature(v))), None)


def save_replay(pid, seed, v):
    d = os.path.join(BUILD, "replay")
    os.makedirs(d, exist_ok=True)
    prof = re.sub("[:/]", "-", v["camp"]["profile"])
    path = os.path.join(d, "%s-%s-%s-%d-%d.script" % (pid, prof, v["camp"]["variant"], seed, v["case"]))
    head = ["# property %s, %s: %s" % (pid, v["kind"], v["msg"]),
            "# profile %s, seed %d, case %d, build %s; play it with" % (prof, seed, v["case"], v["camp"]["variant"]),
            "#   python3 /verif/check.py --play %s %s %s" % (path, v["camp"]["variant"], " ".join(v["camp"]["checks"]))]
    if v["detail"]:
        head.append("# " + v["detail"][:1500].replace("\n", " "))
    with open(path, "wb") as f:
        f.write(("\n".join(h.replace("\n", " ") for h in head) + "\n").encode(errors="replace"))
        f.write(v["script"])
    return path


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    os.makedirs(BUILD, exist_ok=True)
    if a[0] == "--setup":
        build_variants(list(VARIANTS))
        print("built")
        return 0
    if a[0] == "--play":
        exes, _ = build_variants([a[2]], False)
        r = Run("X", "quick", 1, [], 600)
        out = r.play(exes[a[2]], a[2], os.path.abspath(a[1]), "play", a[3:], 120)
        r.close()
        print("exit", out[0])
        for f in out[1]:
            print(f)
        if out[0] != 0:
            print("case", out[3])
            print(out[4][-6000:])
        return 1 if out[0] != 0 or out[1] else 0
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if a[0] == "--survey":
        var = os.environ.get("SURVEY_VARIANT", "plain")
        n = int(os.environ.get("SURVEY_COUNT", "400"))
        checks = os.environ.get("SURVEY_CHECKS", "").split()
        profs = a[1:] or sorted({c["profile"] for cs in CAMPAIGNS.values() for c in cs})
        for p in profs:
            r = Run("X", "quick", seed, [dict(profile=p, quick=n, thorough=n, variant=var, checks=checks)], 600, max_viol=10**9, regress=False)
            t = time.time()
            r.run()
            r.close()
            cases = {v["case"] for v in r.viol}
            print("== %s: %d of %d cases fail, %d distinct, %.1fs" % (p, len(cases), n, len(r.hashes), time.time() - t))
            sig = {}
            for v in r.viol:
                s = signature(v) if v["kind"] not in ("answer", "exists", "ok") else v["kind"]
                if s not in sig or len(v["script"]) < len(sig[s][1]["script"]):
                    sig[s] = (sig.get(s, (0,))[0], v)
                sig[s] = (sig[s][0] + 1, sig[s][1])
            for s, (k, v) in sorted(sig.items(), key=lambda x: -x[1][0])[:12]:
                print("   %4d  %s\n         e.g. %s  [%s] %s" % (k, s, v["msg"][:200], v["detail"][:200], save_replay("survey", seed, v)))
        return 0
    pid = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    if pid not in CAMPAIGNS or tier not in ("quick", "thorough"):
        print("unknown property or tier")
        return 2
    t0 = time.time()
    r = Run(pid, tier, seed, CAMPAIGNS[pid], 420 if tier == "quick" else 3600 * 3)
    try:
        r.run()
    except HarnessError as e:
        # what was already observed stands
        if not r.viol:
            raise
        print("  (%s)" % str(e)[:300])
    finally:
        r.close()
    known = load_findings(pid)
    seen = []
    for v in r.viol:
        k = is_known(v, known)
        if k and k not in seen:
            seen.append(k)
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    fresh = [v for v in r.viol if not is_known(v, known)]
    fresh.sort(key=lambda v: (len(v["script"]), v["case"]))
    cov = {
        "evaluations": r.player_stats.get("cases", 0),
        "distinct_nontrivial": len(r.hashes),
        "rule": RULE + " " + RULES.get(pid, ""),
        "samples": ["%s: %s" % kv for kv in r.samples.items()],
        "campaigns": {k: v for k, v in sorted(r.per_campaign.items())},
        "regression_scripts_played": r.nregress,
        "known_findings_observed": [k["what"] for k in seen],
        "cases_not_run_for_lack_of_time": r.skipped,
        "observed": {k: v for k, v in r.player_stats.items() if v},
        "expected": r.gen_stats,
        "notes": NOTES,
        "builds": {v: " ".join([VARIANTS[v]["cc"]] + VARIANTS[v]["flags"]) for v in sorted({c["variant"] for c in r.campaigns})},
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": LEVEL, "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": len(fresh), "assumptions": ASSUME}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d searches, %d ids, %.1fs" % (pid, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], r.player_stats.get("searches", 0), r.player_stats.get("matches", 0), time.time() - t0))
    if fresh:
        for v in fresh[:3]:
            p = save_replay(pid, seed, v)
            print("  %s: %s %s" % (v["kind"], v["msg"][:300], ("[" + v["detail"][:300] + "]") if v["detail"] else ""))
            print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    if cov["evaluations"] == 0 or cov["distinct_nontrivial"] < 10:
        print("nothing was explored")
        return 2
    return 0


RULE = ("A case is one generated script: declarations, insertions and queries together with the answer every call must give, "
        "computed by an independent evaluator. A case is non-trivial when it inserts at least one expression and asks queries whose "
        "demanded answers differ (some expression true, some false), or demands a refusal where the profile is about refusals; "
        "distinct cases are counted by hash of the whole script.")
ASSUME = ["the evaluator in gen/model.h states the documented meaning of the expression language",
          "calls follow the documented interface: declarations before insertions, well-typed events, no concurrent modification"]

if __name__ == "__main__":
    try:
        sys.exit(main())
    except HarnessError as e:
        print("HARNESS ERROR:", e)
        sys.exit(2)
