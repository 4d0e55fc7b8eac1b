#!/usr/bin/env python3
"""mutate.py COUNT SEED OUT [FILES...]: systematic small changes in a scratch copy of /repo, checked with a scratch copy of
/verif; lists the ones no check reports. Neither /repo nor /verif is touched."""
import hashlib, json, os, random, re, shutil, subprocess, sys, time
V, R = "/tmp/mv", "/tmp/mr"
MAP = {"input_parser": ["C01"], "hdf5_utils": ["C02"], "parameter": ["C03"], "random_sample_generator": ["C04"], "sample_generator": ["C04", "C19", "C17", "C23"], "submesh_topology_handler": ["C05"], "topology_handler": ["C05", "C06"],
       "component_topology_handler": ["C06"], "interface_form": ["C07", "C18"], "dg_mixed_bilin": ["C10", "C07"], "dg_bilinear": ["C10", "C07"], "dg_linear": ["C10", "C18"], "hyperreduction_integ": ["C08", "C09"], "interfaceinteg": ["C07", "C08", "C09"],
       "nonlinear_integ": ["C08", "C09"], "block_smoother": ["C11"], "linalg_utils": ["C12", "C17"], "rom_element_collection": ["C13", "C17"], "parameterized_problem": ["C14", "C18"], "etc": ["C15"], "rom_nonlinearform": ["C16", "C17"],
       "rom_interfaceform": ["C16", "C17"], "rom_handler": ["C17", "C19", "C22", "C23"], "main_workflow": ["C17", "C04", "C19", "C23"], "multiblock_solver": ["C18", "C17", "C19", "C22"], "poisson_solver": ["C18", "C17"], "stokes_solver": ["C18", "C17", "C19"], "steady_ns_solver": ["C18", "C17"],
       "linelast_solver": ["C18", "C17"], "advdiff_solver": ["C18", "C17", "C22"], "unsteady_ns_solver": ["C19", "C22"]}
SKIP = re.compile(r"^\s*\}\s*//|printf|assert|mfem_error|mfem_warning|MFEM_|timer|^\s*//|^\s*\*|^\s*/\*|^\s*#|^\s*delete|print_level|SetPrintLevel|case |default:|std::cout")
def ops(l):
    o = []
    def sub(p, r, tag):
        for m in re.finditer(p, l):
            t = l[:m.start()] + (r(m) if callable(r) else m.expand(r)) + l[m.end():]
            if t != l: o.append((tag, t))
    if not SKIP.search(l):
        sub(r" \+ ", " - ", "plus"); sub(r" - ", " + ", "minus"); sub(r"\+= ", "-= ", "pluseq"); sub(r"\+= ", "= ", "set"); sub(r"-= ", "+= ", "minuseq"); sub(r"\*= ", "/= ", "timeseq"); sub(r" \* ", " / ", "times") if "double" in l or "." in l else None
        sub(r"\b(\w*[a-zA-Z_])1\b", r"\g<1>2", "one2two"); sub(r"\b(\w*[a-zA-Z_])2\b", r"\g<1>1", "two2one"); sub(r"\[0\]", "[1]", "idx"); sub(r"\[1\]", "[0]", "idx"); sub(r"\(0, 1\)", "(1, 0)", "idx"); sub(r"\(i, j\)", "(j, i)", "ij"); sub(r"\[i\]", "[0]", "i0"); sub(r"\[m\]", "[0]", "m0"); sub(r"\[c\]", "[0]", "c0"); sub(r"\[b\]", "[0]", "b0"); sub(r"\[k\]", "[0]", "k0")
        sub(r"\btrue\b", "false", "bool"); sub(r"\bfalse\b", "true", "bool"); sub(r" == ", " != ", "eq"); sub(r" != ", " == ", "ne"); sub(r"&&", "||", "and"); sub(r"\|\|", "&&", "or"); sub(r" < ", " <= ", "lt"); sub(r" <= ", " < ", "le"); sub(r" > ", " >= ", "gt"); sub(r" >= ", " > ", "ge"); sub(r"AddMultTranspose", "AddMult", "tr"); sub(r"MultTranspose", "Mult", "tr"); sub(r"\bcontinue;", "break;", "cont"); sub(r"\bbreak;", "continue;", "brk"); sub(r"if \((?!\!)([^()]*)\)", r"if (!(\1))", "not"); sub(r"\b0\.5\b", "1.0", "half"); sub(r"= (\w+), ", r"= 0 * \1, ", "zero") if "for" not in l else None
        sub(r"= 0;", "= 1;", "start"); sub(r"\b1\.0\b", "2.0", "const"); sub(r"\(-", "(", "neg"); sub(r"\* -", "* ", "neg")
        if re.match(r"^\s+[\w:\->\.\[\]\(\)\*&, ]+(\(.*\)|[+\-*/]?= .*);\s*(//.*)?$", l) and not re.match(r"^\s*(return|const|int|double|Array|Vector|DenseMatrix|std::|bool|hid_t|herr_t|auto)\b", l): o.append(("delete", re.match(r"^\s*", l).group(0) + ";\n"))
    return o
def sh(c, t=1200):
    p = subprocess.Popen(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try: out, _ = p.communicate(timeout=t); return p.returncode, out
    except subprocess.TimeoutExpired: os.killpg(p.pid, 9); p.communicate(); return 99, "timeout"
def main():
    count, seed, outf = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]; files = sys.argv[4:]
    for a in (V, R): shutil.rmtree(a, ignore_errors=True)
    shutil.copytree("/verif", V, ignore=shutil.ignore_patterns(".git", "seeded", "evidence")); shutil.copytree("/repo", R, symlinks=True)
    s = open(V + "/check.py").read(); open(V + "/check.py", "w").write(s.replace('REPO = "/repo"', 'REPO = "%s"' % R)); sh("grep -rl /repo %s/props.py %s/harness %s/shim | xargs -r sed -i 's#/repo#%s#g'" % (V, V, V, R))
    rnd = random.Random(seed); pool = []
    for f in sorted(MAP):
        for p in (R + "/src/%s.cpp" % f, R + "/include/%s.hpp" % f):
            if (files and f not in files) or not os.path.exists(p) or (p.endswith("hpp") and f not in ("etc", "input_parser", "hdf5_utils", "sample_generator", "unsteady_ns_solver", "hyperreduction_integ", "rom_handler")): continue
            for n, l in enumerate(open(p).read().split("\n")):
                for tag, t in ops(l): pool.append((f, p, n, l, tag, t))
    rnd.shuffle(pool); per = {}; done = 0; res = []
    for f, p, n, l, tag, t in pool:
        if done >= count: break
        lim = max(3, int(count * sum(1 for q in pool if q[0] == f) ** 0.7 / sum(sum(1 for q in pool if q[0] == g) ** 0.7 for g in set(q[0] for q in pool))) + 1) if f not in per else per[f][1]
        per.setdefault(f, [0, lim])
        if per[f][0] >= per[f][1]: continue
        src = open(p).read().split("\n"); keep = src[n]; src[n] = t.rstrip("\n"); open(p, "w").write("\n".join(src)); st = "survived"; t0 = time.time(); msg = ""
        try:
            for c in MAP[f]:
                rc, o = sh("cd %s && python3 check.py %s --tier quick" % (V, c))
                if rc == 1 and "VIOLATION" in o: st = "caught " + c; break
                if rc == 99: st = "timeout " + c; break
                if rc != 0: st = "nobuild" if ("error:" in o or "build" in o) else "rc%d" % rc; msg = o[-300:]; break
        finally:
            src[n] = keep; open(p, "w").write("\n".join(src))
        if st == "nobuild": continue
        per[f][0] += 1; done += 1
        with open(outf, "a") as g: g.write(json.dumps({"st": st, "file": os.path.basename(p), "line": n + 1, "op": tag, "old": keep.strip(), "new": t.strip(), "s": round(time.time() - t0), "msg": msg if st.startswith("rc") else ""}) + "\n")
    for a in (V, R): shutil.rmtree(a, ignore_errors=True)
main()
