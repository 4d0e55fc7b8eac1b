#!/usr/bin/env python3
"""Runs the check of one property: builds the harnesses from /repo's working tree, explores their bounded
spaces exhaustively in parallel processes, confirms and reports violations, writes the evidence file.

  check.py ID [--tier quick|thorough]     check one property     (exit 0 held / 1 VIOLATION / 2 no answer)
  check.py --replay FILE                  re-run the case of a violation artefact
  check.py --build-all                    build everything (setup)
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(HERE, "build")
EVID = os.path.join(HERE, "evidence")
NCPU = max(1, min(8, os.cpu_count() or 1))
sys.path.insert(0, HERE)
from props import PROPS, NEEDS_LIBROM  # noqa: E402

CXX = "/usr/bin/g++"
BASEFLAGS = ("-std=gnu++14 -O1 -w -ftrivial-auto-var-init=pattern -I{h}/shim -I{r}/include -I/usr/include/mfem -I/usr/include/hypre "
             "-I/usr/include/hdf5/serial -isystem /usr/lib/x86_64-linux-gnu/openmpi/include "
             "-isystem /usr/lib/x86_64-linux-gnu/openmpi/include/openmpi").format(h=HERE, r=REPO).split()
LIBS = ("-lmfem -lHYPRE -lmetis -lyaml-cpp -llapack -lblas -L/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5 "
        "-L/usr/lib/x86_64-linux-gnu/openmpi/lib -lmpi_cxx -lmpi").split()
ENV = dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl="self,vader",
           OMPI_MCA_plm="isolated", OMPI_MCA_btl_vader_single_copy_mechanism="none", OMP_NUM_THREADS="1",
           OPENBLAS_NUM_THREADS="1", HDF5_USE_FILE_LOCKING="FALSE", ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:malloc_fill_byte=255:max_malloc_fill_size=67108864:detect_odr_violation=0:abort_on_error=0:exitcode=86", MALLOC_PERTURB_="165", LC_ALL="C")


class NoAnswer(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


_hdr = {}


def headers_key(group):
    if group not in _hdr:
        fs = sorted(glob.glob(REPO + "/include/**/*", recursive=True)) + sorted(glob.glob(HERE + "/shim/**/*", recursive=True))
        if group == "harness":
            fs += sorted(glob.glob(HERE + "/harness/*.hpp")) + sorted(glob.glob(REPO + "/test/*.hpp")) + sorted(glob.glob(REPO + "/utils/*.cpp"))
        _hdr[group] = sha(*[rd(f) + f.encode() for f in fs if os.path.isfile(f)])
    return _hdr[group]


def compile_one(src, group, extra=()):
    key = sha(rd(src), headers_key(group), " ".join(BASEFLAGS), " ".join(extra), os.path.basename(src))
    obj = os.path.join(BUILD, "obj", os.path.basename(src)[:-4] + "-" + key + ".o")
    if os.path.exists(obj):
        os.utime(obj)
        return obj
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = obj + ".tmp%d-%d" % (os.getpid(), threading.get_ident())
    r = subprocess.run([CXX] + BASEFLAGS + list(extra) + ["-c", src, "-o", tmp], capture_output=True, text=True)
    if r.returncode:
        raise NoAnswer("cannot compile %s\n%s" % (src, r.stderr[-3000:]))
    os.replace(tmp, obj)
    return obj


def compile_program(src, symbol):
    # a program of the repository, its main() under another name
    obj = compile_one(os.path.join(REPO, src), "repo")
    out = obj[:-2] + "-" + symbol + ".o"
    if not os.path.exists(out):
        tmp = out + ".tmp%d-%d" % (os.getpid(), threading.get_ident())
        subprocess.run(["objcopy", "--redefine-sym", "main=" + symbol, obj, tmp], check=True)
        os.replace(tmp, out)
    return out


def repo_sources(full):
    out = []
    for s in sorted(glob.glob(REPO + "/src/*.cpp")):
        if full or os.path.basename(s)[:-4] not in NEEDS_LIBROM:
            out.append(s)
    return out


def prune():
    # bounded disk use: keep the newest objects and binaries only
    for d, n in (("obj", 400), ("bin", 60)):
        fs = sorted(glob.glob(os.path.join(BUILD, d, "*")), key=os.path.getmtime)
        for f in fs[:-n]:
            try:
                os.remove(f)
            except OSError:
                pass


def san(h):
    # memory errors of the code under test are violations too, where "asan" is set
    return ("-fsanitize=address", "-fno-omit-frame-pointer") if h.get("asan") else ()


def build(harnesses):
    """harnesses: list of dicts {name, full, ldflags}. Returns name -> binary."""
    jobs = {}
    with cf.ThreadPoolExecutor(NCPU) as ex:
        # the big ones first
        srcs = {}
        scripts = [h for h in harnesses if h.get("python")]
        harnesses = [h for h in harnesses if not h.get("python")]
        for h in harnesses:
            for s in repo_sources(h.get("full", False)):
                srcs[(s, san(h))] = 1
        futs = {}
        for h in harnesses:
            s = os.path.join(HERE, "harness", h.get("src", h["name"]) + ".cpp")
            futs[("h", h["name"])] = ex.submit(compile_one, s, "harness", tuple(h.get("cxxflags", [])) + san(h))
            for e in h.get("extra_src", []):
                futs[("e", e)] = ex.submit(compile_one, e, "harness")
            for e in h.get("programs", []):
                futs[("p", e)] = ex.submit(compile_program, *e)
        for (s, a) in sorted(srcs, key=lambda s: -os.path.getsize(s[0])):
            futs[("s", s, a)] = ex.submit(compile_one, s, "repo", a)
        res = {k: f.result() for k, f in futs.items()}
    def link(h):
        objs = [res[("h", h["name"])]] + [res[("e", e)] for e in h.get("extra_src", [])] + [res[("p", e)] for e in h.get("programs", [])]
        lib = [res[("s", s, san(h))] for s in repo_sources(h.get("full", False))]
        ld = list(h.get("ldflags", [])) + list(san(h)[:1])
        key = sha(*(objs + lib + list(ld)))
        b = os.path.join(BUILD, "bin", h["name"] + "-" + key)
        if not os.path.exists(b):
            os.makedirs(os.path.dirname(b), exist_ok=True)
            tmp = b + ".tmp%d" % os.getpid()
            r = subprocess.run([CXX, "-o", tmp] + objs + lib + list(ld) + LIBS, capture_output=True, text=True)
            if r.returncode:
                raise NoAnswer("cannot link %s\n%s" % (h["name"], r.stderr[-3000:]))
            os.replace(tmp, b)
        else:
            os.utime(b)
        return h["name"], b
    with cf.ThreadPoolExecutor(4) as ex:
        jobs = dict(ex.map(link, harnesses))
    for h in scripts:  # run from the source tree as they are
        jobs[h["name"]] = os.path.join(HERE, "harness", h["name"] + ".py")
    prune()
    return jobs


class Run:
    """One harness run over its whole space, sharded."""

    def __init__(self, binary, name, tier, deadline, nshard=None, args=()):
        self.b, self.name, self.tier, self.deadline = binary, name, tier, deadline
        self.n = nshard or NCPU
        self.args = list(args)
        self.viol, self.stats, self.problems = [], [], []
        self.lock = threading.Lock()
        self.stop = False

    def spawn(self, d, extra, limit):
        # starting eight MPI singletons at once sometimes fails in MPI_Init, before any code under test ran: start again
        t0 = time.time()
        for attempt in range(6):
            r = self.spawn1(d, extra, limit - (time.time() - t0))
            rc, lines, cur, log = r
            if rc in (None, 0) or lines or cur is not None:
                break
            time.sleep(0.5 * (attempt + 1))
        return r

    def spawn1(self, d, extra, limit):
        out, prog = os.path.join(d, "out.jsonl"), os.path.join(d, "progress")
        for f in (out, prog):
            if os.path.exists(f):
                os.remove(f)
        tmp = os.path.join(d, "tmp")  # a session directory of its own per process
        os.makedirs(tmp, exist_ok=True)
        with open(os.path.join(d, "log"), "wb") as log:
            p = subprocess.Popen((["python3-vt"] if self.b.endswith(".py") else []) + [self.b, "--tier", self.tier, "--out", out, "--progress", prog] + self.args + extra,
                                 cwd=d, env=dict(ENV, TMPDIR=tmp, OMPI_MCA_orte_tmpdir_base=tmp), stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                                 start_new_session=True)
            try:
                rc = p.wait(timeout=max(1, limit))
            except subprocess.TimeoutExpired:
                rc = None
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        lines = []
        if os.path.exists(out):
            for l in open(out, errors="replace"):
                try:
                    lines.append(json.loads(l))
                except ValueError:
                    pass
        cur = None
        if os.path.exists(prog):
            t = open(prog, errors="replace").read().strip().split(" ", 1)
            if len(t) == 2 and t[0].isdigit():
                cur = (int(t[0]), t[1])
        logtail = rd(os.path.join(d, "log"))[-6000:].decode(errors="replace")
        return rc, lines, cur, logtail

    def describe(self, rc, log):
        m = re.search(r"SUMMARY: AddressSanitizer: [^\n]*", log)
        if m:
            return "memory error: " + m.group(0)
        tail = " | ".join(x for x in re.sub(r"[^\x20-\x7e\n]", " ", log).split("\n") if x.strip())[-500:]
        if rc == -signal.SIGALRM:
            return "the case did not finish within its time limit; " + tail
        return "the process died (status %s) in this case; %s" % (rc, tail)

    def confirm(self, d, v):
        """Replay before report: alone first, else after the same prefix of the shard."""
        for k in range(2):
            rc, lines, cur, log = self.spawn(d, ["--only", v["case"]], 600)
            hit = [x for x in lines if x.get("viol")]
            done = [x for x in lines if x.get("done")]
            if hit:
                return dict(v, msg=hit[0]["msg"], replay_args=["--only", v["case"]])
            if not done and rc is not None and cur is not None:
                return dict(v, msg=self.describe(rc, log), replay_args=["--only", v["case"]])
        rc, lines, cur, log = self.spawn(d, v["args"], 900)
        hit = [x for x in lines if x.get("viol") and x["case"] == v["case"]]
        done = [x for x in lines if x.get("done")]
        if hit or (not done and rc is not None and cur and cur[1] == v["case"]):
            return dict(v, msg=v["msg"] + " (only after the preceding cases of the run)", replay_args=v["args"])
        return None

    def shard(self, i):
        frm = 0
        with tempfile.TemporaryDirectory(prefix="vcrun_") as d:
            self.setup_dir(d)
            while not self.stop:
                a = ["--shard", "%d/%d" % (i, self.n), "--from", str(frm)]
                left = self.deadline - time.time()
                rc, lines, cur, log = self.spawn(d, a, left)
                got = [dict(x, args=a) for x in lines if x.get("viol")]
                done = [x for x in lines if x.get("done")]
                nxt = None
                if not done:
                    if rc is None:
                        with self.lock:
                            self.problems.append("shard %d stopped at the time limit in case %s" % (i, cur))
                        return
                    if cur is None:
                        with self.lock:
                            self.problems.append("harness died before its first case: rc=%s %s" % (rc, log[-600:]))
                        return
                    got.append({"viol": 1, "case": cur[1], "msg": self.describe(rc, log), "args": a})
                    nxt = cur[0] + 1
                for g in got:
                    if known_for(self.name, g["case"]):
                        with self.lock:
                            self.viol.append(dict(g, known=True))
                        continue
                    if self.stop:
                        break
                    c = self.confirm(d, g)
                    with self.lock:
                        if c:
                            self.viol.append(c)
                            if len([v for v in self.viol if not v.get("known")]) >= 3:
                                self.stop = True
                        else:
                            self.problems.append("not reproduced, not reported: %s: %s" % (g["case"], g["msg"]))
                if done:
                    with self.lock:
                        self.stats.append(done[0])
                    return
                frm = nxt

    def setup_dir(self, d):
        for s in ("inputs", "meshes"):
            src = os.path.join(REPO, "test", s)
            if os.path.isdir(src):
                shutil.copytree(src, os.path.join(d, s))

    def go(self):
        with cf.ThreadPoolExecutor(self.n) as ex:
            list(ex.map(self.shard, range(self.n)))
        return self


KNOWN = []


def load_known(prop):
    KNOWN.clear()
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) harness=(\S+) case=(\S+) :: (.*)", l.strip())
            if m and m.group(1) == prop:
                KNOWN.append({"harness": m.group(2), "case": m.group(3), "what": m.group(4)})


def known_for(harness, case):
    for k in KNOWN:
        if k["harness"] == harness and k["case"] == case.replace(" ", "_"):
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--build-all", action="store_true")
    ap.add_argument("--limit", type=float, default=None)
    a = ap.parse_args()
    if a.build_all:
        hs = {h["name"]: h for p in PROPS.values() for h in p["harnesses"]}
        t = time.time()
        build(list(hs.values()))
        print("built %d harnesses in %.0f s" % (len(hs), time.time() - t))
        return 0
    if a.replay:
        v = json.load(open(a.replay))
        p = PROPS[v["property"]]
        h = [h for h in p["harnesses"] if h["name"] == v["harness"]]
        b = build(h)[v["harness"]]
        r = Run(b, v["harness"], v["tier"], time.time() + 3600, args=h[0].get("args", []))
        with tempfile.TemporaryDirectory(prefix="vcrun_") as d:
            r.setup_dir(d)
            rc, lines, cur, log = r.spawn(d, v["replay_args"], 3600)
        hit = [x for x in lines if x.get("viol")]
        print(json.dumps({"rc": rc, "violations": hit, "died_in": None if any(x.get("done") for x in lines) else cur, "log": log[-1000:]}, indent=1))
        return 1 if hit or not any(x.get("done") for x in lines) else 0

    prop = a.prop
    P = PROPS[prop]
    load_known(prop)
    t0 = time.time()
    limit = a.limit or (820 if a.tier == "quick" else 12 * 3600)
    rdir = os.path.join(EVID, "replay", prop)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(EVID, exist_ok=True)
    viol, cov, problems = [], {"states": 0, "transitions": 0, "checks": 0, "traces_validated_against_impl": 0, "distinct_nontrivial": 0}, []
    samples, spaces = [], []
    try:
        bins = build(P["harnesses"])
    except NoAnswer as e:
        print("NO ANSWER: %s" % e)
        return 2
    tb = time.time()
    for h in P["harnesses"]:
        r = Run(bins[h["name"]], h["name"], a.tier, t0 + limit, args=h.get("args", [])).go()
        viol += [dict(v, harness=h["name"]) for v in r.viol]
        problems += ["%s: %s" % (h["name"], x) for x in r.problems]
        tot = max([s["total"] for s in r.stats] or [0])
        ex = sum(s["executed"] for s in r.stats)
        spaces.append({"harness": h["name"], "cases_in_bounded_space": tot, "cases_executed": ex})
        cov["states"] += sum(s["states"] for s in r.stats)
        cov["transitions"] += sum(s["transitions"] for s in r.stats)
        cov["checks"] += sum(s["checks"] for s in r.stats)
        cov["traces_validated_against_impl"] += ex
        cov["distinct_nontrivial"] += max([s["distinct"] for s in r.stats] or [0])
        for s in r.stats:
            samples += s["samples"][:2]
        if any(not v.get("known") for v in viol):
            break
    new = [v for v in viol if not v.get("known")]
    cov["transitions"] = max(cov["transitions"], cov["traces_validated_against_impl"])
    complete = not problems and all(s["cases_in_bounded_space"] == s["cases_executed"] for s in spaces) and not viol
    ev = {"property": prop, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
          "coverage": {"states": cov["states"], "transitions": cov["transitions"],
                       "traces_validated_against_impl": cov["traces_validated_against_impl"],
                       "evaluations": cov["checks"], "distinct_nontrivial": cov["distinct_nontrivial"],
                       "rule": P["rule"], "samples": samples[:12], "exhaustive": bool(complete),
                       "spaces": spaces, "bounds": P["bounds"], "problems": problems[:10]},
          "wall_s": round(time.time() - t0, 1), "violations": len(new)}
    with open(os.path.join(EVID, prop + ".json.tmp"), "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(os.path.join(EVID, prop + ".json.tmp"), os.path.join(EVID, prop + ".json"))
    for v in viol:
        if v.get("known"):
            print("KNOWN-FINDING: property=%s %s" % (prop, known_for(v["harness"], v["case"])["what"]))
    for p in problems:
        print("note: " + p)
    for i, v in enumerate(new[:3]):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%d.json" % i)
        json.dump({"property": prop, "harness": v["harness"], "tier": a.tier, "case": v["case"], "message": v["msg"],
                   "replay_args": v["replay_args"], "how": "python3 check.py --replay " + path}, open(path, "w"), indent=1)
        print("  %s case %s\n    %s" % (v["harness"], v["case"], v["msg"][:900]))
    print("%s %s: %d cases of %d, %d checks, %d distinct outcomes, build %.0f s, total %.0f s" % (
        prop, a.tier, sum(s["cases_executed"] for s in spaces), sum(s["cases_in_bounded_space"] for s in spaces), cov["checks"],
        cov["distinct_nontrivial"], tb - t0, time.time() - t0))
    if new:
        print("VIOLATION property=%s replay=%s" % (prop, os.path.join(rdir, "0.json")))
        return 1
    if problems and not all(p.find("not reproduced") >= 0 for p in problems):
        print("NO ANSWER: the exploration did not complete")
        return 2
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoAnswer as e:
        print("NO ANSWER: %s" % e)
        sys.exit(2)
