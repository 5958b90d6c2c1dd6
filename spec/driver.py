"""check PROPERTY: decide one property on /repo's current working tree."""
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
from multiprocessing import Pool

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(HERE, "..", "engine")]
ROOT = os.path.abspath(os.path.join(HERE, ".."))
REPO = os.environ.get("S2S_REPO", "/repo")
import catalogue as K
import compare as C
import schema as S
import verify as VV
import native as N
from spec import Unsupported

CLANG = "/usr/bin/clang++-18"
IRFLAGS = ["-std=c++23", "-D__cpp_concepts=202002L", "-Wno-builtin-macro-redefined", "-emit-llvm", "-O0", "-Xclang", "-disable-O0-optnone",
           "-fno-exceptions", "-fno-discard-value-names", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]
# C16: the preconditions of the standard library's own functions (an engaged optional behind *, an index within size, ...) become obligations
IRFLAGS16 = ["-D_GLIBCXX_ASSERTIONS"]
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)

# which postconditions decide a property: (kinds over run-time streams, kinds over constant-evaluation streams, schema tags or None)
PLAN = {
    "C01": (["read"], ["read"], None),
    "C02": (["read", "write"], ["read", "write"], None),
    "C03": (["write"], ["write"], None),
    "C04": (["wr", "rw"], [], None),
    "C05": (["write"], ["write"], ["container"]),
    "C06": (["write"], ["write"], ["union"]),
    "C07": (["read"], ["read"], None),
    "C08": (["write"], ["write"], None),
    "C09": (["write"], ["write"], None),
    "C10": (["read"], ["read"], ["container"]),
    "C11": (["read"], ["read"], None),
    "C12": (["read", "write"], ["read", "write"], ["optional", "conditional"]),
    "C13": (["read", "write"], ["read", "write"], ["union"]),
    "C14": (["read", "write"], ["read", "write"], None),
    "C15": (["write"], ["write"], ["conditional", "computed"]),
    "C16": (["read", "write", "life"], ["read", "write"], None),
    "C17": (["read", "write"], ["read", "write"], None),
}
TRUSTED = [
    "clang 18 front end at -O0: the LLVM IR it emits for the instantiated templates means what g++-14's binary does (cross-checked natively on replays and, thorough tier, on generated inputs)",
    "engine/ (VC generator: IR semantics, memory model, loop summaries) and z3 4.x (python binding of python3-vt)",
    "spec/spec.py, spec/compare.py: the specification of schemas and the postconditions",
    "contracts assumed on externals: operator new/delete, memcpy/memmove/memset/memcmp/strlen, llvm intrinsics (engine/externs.py)",
    "stream contract: read(n) delivers exactly n bytes or fails and delivers nothing usable; write(n) takes all n bytes or fails; both go on failing after a failure",
]
ASSUME = [
    "proved for every input, struct and stream capacity, per schema of the catalogue: templates are verified as instantiated, not for all instantiations",
    "stream lengths up to 2^60 bytes, container sizes up to 2^34 elements (writes) / the declared ceiling (reads)",
    "allocation succeeds (failure to allocate is excluded by the property)",
    "little-endian host (x86-64 ABI)",
]


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, **kw)


def headers(work):
    """the header(s) users include: include/s2s.hpp, and single_header/s2s.hpp when it is not simply its amalgamation"""
    out = [("include", os.path.join(REPO, "include", "s2s.hpp"))]
    single = os.path.join(REPO, "single_header", "s2s.hpp")
    fresh = os.path.join(work, "fresh.hpp")
    try:
        r = sh([sys.executable, os.path.join(REPO, "scripts", "amalgam.py"), os.path.join(REPO, "include"), out[0][1], fresh], env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
        same = r.returncode == 0 and os.path.exists(fresh) and os.path.exists(single) and norm_text(open(fresh).read()) == norm_text(open(single).read())
    except Exception:
        same = True
    if os.path.exists(single) and not same:
        out.append(("single", single))
    return out


def norm_text(t):
    return re.sub(r"\s+", " ", t)


def variants(e):
    return [(k, en, s) for s in e.streams for k in (e.kinds if s == "vs" else e.cs_kinds) for en in e.endians]


def plan(prop, tier):
    vk, ck, tg = PLAN[prop]
    jobs = []
    K.random_entries(11, 10)
    if tier == "thorough":
        K.random_entries(100 + SEED, 24)
    for e in K.CAT.values():
        if tg and not (e.tags & set(tg)) or e.finding and prop not in e.finding:
            continue
        hs = [h for h in variants(e) if (h[2] == "vs" and h[0] in vk) or (h[2] == "cs" and h[0] in ck)]
        if e.quick is not None and tier == "quick":
            hs = [h for h in hs if e.quick and (h[1:] in e.quick or h[0] in ("wr", "rw"))]
        if hs:
            jobs.append((e, hs))
    return jobs


def compile_ir(a):
    name, vs, hname, header, work = a
    e = K.CAT[name]
    src, ll = os.path.join(work, f"{hname}_{name}.cpp"), os.path.join(work, f"{hname}_{name}.ll")
    text = S.Gen(e.rec).source(vs)
    open(src, "w").write(text)
    pch = os.path.join(work, hname + ".pch")
    try:
        r = None
        if os.path.exists(pch):
            body = src[:-4] + "_b.cpp"
            open(body, "w").write(text.replace(S.PRELUDE, "\n"))
            r = sh([CLANG] + IRFLAGS + ["-S", f'-DS2S_HEADER="{header}"', "-include-pch", pch, body, "-o", ll])
        if r is None or r.returncode:
            r = sh([CLANG] + IRFLAGS + ["-S", f'-DS2S_HEADER="{header}"', src, "-o", ll])
    except subprocess.TimeoutExpired:
        return name, hname, None, "clang: timeout", "time"
    if r.returncode == 0:
        return name, hname, ll, None, None
    g = sh([N.GXX, "-std=c++23", "-w", "-fsyntax-only", f'-DS2S_HEADER="{header}"', src])
    if g.returncode == 0:
        return name, hname, None, r.stderr, "clang-only"
    # does the library reject the schema, or only this harness' way of looking at it?
    api = os.path.join(work, f"{hname}_{name}_api.cpp")
    open(api, "w").write(api_only(e, vs))
    g2 = sh([N.GXX, "-std=c++23", "-w", "-fsyntax-only", f'-DS2S_HEADER="{header}"', api])
    return name, hname, None, (g2.stderr or g.stderr), ("schema" if g2.returncode else "harness")


def precompile(a):
    """the preamble every harness shares, parsed once per header"""
    hname, header, work = a
    pre = os.path.join(work, hname + "_pre.hpp")
    open(pre, "w").write(S.PRELUDE)
    try:
        sh([CLANG] + [f for f in IRFLAGS if f != "-emit-llvm"] + [f'-DS2S_HEADER="{header}"', "-x", "c++-header", pre, "-o", os.path.join(work, hname + ".pch")])
    except subprocess.TimeoutExpired:
        pass


def api_only(e, vs):
    g = S.Gen(e.rec)
    t = [S.PRELUDE, g.decls(), "int main() {"]
    for k, en, st in sorted({(("read" if k in ("read", "life") else k), en, st) for k, en, st in vs}):
        t.append(f"  {{ {st} s; ")
        if k in ("read", "rw", "wr"):
            t.append(f"    (void)s2s::struct_cast_{en}<{e.rec.name}>(s);")
        if k in ("write", "rw", "wr"):
            t.append(f"    {e.rec.name} r; (void)s2s::stream_cast_{en}<{e.rec.name}>(s, r);")
        t.append("  }")
    return "\n".join(t + ["}"])


MODS = {}


def module(ll):
    m = MODS.get(ll)
    if m is None:
        if len(MODS) > 3:
            MODS.clear()
        m = MODS[ll] = VV.Module(open(ll).read())
    return m


class Rec:
    """picklable result of one harness"""


def prove(a):
    """a schema that shows a known finding must meet its contract, or exactly the contract the finding describes"""
    e = K.CAT[a[0]]
    e.rec.stored = False
    r = prove1(a)
    if e.finding and r.fails:
        e.rec.stored = True
        ideal, r = r, prove1(a)
        if r.status == "proved" and not r.fails:
            r.finding = ideal.fails
    return r


def prove1(a):
    name, h, hname, ll, want, deadline = a
    e = K.CAT[name]
    out = Rec()
    out.schema, out.harness, out.header, out.ll = name, h, hname, ll
    out.envs, out.fails, out.finding = [], [], None
    t0 = time.time()
    try:
        m = module(ll)
        R = VV.verify(m, e.rec, h, want, deadline=min(deadline, time.time() + 300))
        out.status, out.why, out.obl, out.disch, out.paths = R.status, R.why, R.obl, R.disch, R.paths
        out.stats, out.labels, out.notes = R.stats, R.labels, [str(n) for n in R.notes]
        seen = {}
        for f in R.fails:
            key = (f.label, f.props)
            star = set(f.props) == {"*"}
            seen[key] = seen.get(key, 0) + 1
            if seen[key] > (3 if star else 1) or len(out.fails) >= 12:
                continue
            out.fails.append((f.label, sorted(f.props), f.detail))
            if len(out.envs) < (30 if star else 8) and f.pc is not None:
                try:
                    offs = VV.layout(m, e.rec)
                    for x in N.concretise(e.rec, h[0], f.pc, offs, diverse=star):
                        out.envs.append((f.label, x))
                except Exception as ex:
                    out.notes.append("concretise: " + repr(ex))
    except Unsupported as ex:
        out.status, out.why, out.obl, out.disch, out.paths, out.stats, out.labels, out.notes = "unsupported", str(ex), 0, 0, 0, {}, {}, []
    except Exception as ex:
        out.status, out.why, out.obl, out.disch, out.paths, out.stats, out.labels, out.notes = "unsupported", "engine: " + repr(ex) + traceback.format_exc()[-400:], 0, 0, 0, {}, {}, []
    out.wall = time.time() - t0
    return out


def native_cases(a):
    """replay the counterexamples of one harness and, if asked, search among generated inputs -> (confirmed, tried, problems)"""
    name, h, header, ll, work, prop, envs, nrand, seed = a
    e = K.CAT[name]
    e.rec.stored = e.finding is not None
    confirmed, tried, prob = [], 0, ""
    try:
        m = module(ll) if ll else None
        w = os.path.join(work, "n_%s_%s" % (name, "_".join(h)))
        os.makedirs(w, exist_ok=True)
        san = "asan"
        exe, err = N.build(e.rec, variants(e), header, w, san)
        if exe is None:
            return confirmed, 0, "native build failed: " + err[-1500:]
        if m is None:
            return confirmed, 0, "no IR"
        offs = VV.layout(m, e.rec)
        J = N.Judge(m, e.rec, offs)
        exes = [exe]
        if prop == "C16" and any("uninit" in l for l, _ in envs):
            e2, err2 = N.build(e.rec, variants(e), header, w, "msan")
            if e2:
                exes.append(e2)

        def batches():
            cases = [("m%d" % i, h, x) for i, (_, x) in enumerate(envs)]
            yield cases + ([("g%d" % i, h, x) for i, x in enumerate(N.generate(J, h, seed, nrand))] if nrand else [])
            if h[0] in ("read", "rw", "life"):
                # the counterexamples' beginnings, continued to inputs that satisfy the schema
                t0, rng, seen = time.time(), random.Random(seed), set()
                for i, (_, x) in enumerate(envs):
                    for k, y in enumerate(N.complete(J, h[1], x, rng, seen)):
                        if time.time() - t0 > 100:
                            return
                        yield [("c%d_%d" % (i, k), h, y)]
        for cases in batches():
            for x in exes:
                r = N.run(x, cases, w)
                tried += len(r)
                for nm, _, env in cases:
                    f = J.judge(h, env, r.get(nm))
                    f = [y for y in (f or []) if prop is None or prop in y.props]
                    if f:
                        confirmed.append((nm, f[0].label, (f[0].detail or "")[:1500], env.text(nm, N.harness_name(h))[:200000], os.path.basename(x)))
                        if len(confirmed) >= 3:
                            break
                if confirmed:
                    break
            if confirmed:
                break
        shutil.rmtree(w, ignore_errors=True)
    except Exception as ex:
        prob = repr(ex) + traceback.format_exc()[-600:]
    return confirmed, tried, prob


def native_pair(a):
    """C17: the same inputs through both stream kinds"""
    name, h, header, work, envs, nrand, seed, ll = a
    e = K.CAT[name]
    diffs, tried, prob = [], 0, ""
    try:
        w = os.path.join(work, "p_%s_%s" % (name, "_".join(h)))
        os.makedirs(w, exist_ok=True)
        exe, err = N.build(e.rec, variants(e), header, w, "asan")
        if exe is None:
            return diffs, 0, "native build failed: " + err[-1500:]
        J = N.Judge(module(ll), e.rec, VV.layout(module(ll), e.rec))
        envs = [x for _, x in envs] + (N.generate(J, h, seed, nrand) if nrand else [])
        A = N.run(exe, [("a%d" % i, (h[0], h[1], "vs"), x) for i, x in enumerate(envs)], w)
        B = N.run(exe, [("a%d" % i, (h[0], h[1], "cs"), x) for i, x in enumerate(envs)], w)
        for i, x in enumerate(envs):
            a, b = A.get("a%d" % i), B.get("a%d" % i)
            if a is None or b is None:
                continue
            tried += 1
            fa, fb = observable(a, h[0]), observable(b, h[0])
            if fa != fb and "badalloc" not in (a.status, b.status):
                ja, jb = J.judge((h[0], h[1], "vs"), x, a), J.judge((h[0], h[1], "cs"), x, b)
                if not (ja or jb):
                    continue
                diffs.append(("a%d" % i, "run-time stream: %s; constant-evaluation stream: %s" % (short(a), short(b)), "", x.text("a%d" % i, "h_%s_%s_{vs,cs}" % h[:2])[:200000], "asan"))
                if len(diffs) >= 3:
                    break
        shutil.rmtree(w, ignore_errors=True)
    except Exception as ex:
        prob = repr(ex) + traceback.format_exc()[-600:]
    return diffs, tried, prob


def observable(o, kind):
    err = C.status_of(o.events)[1]
    # after a refused write how much of the refused field was taken depends on the stream's granularity
    part = kind == "write" and err is not None and err[0] == 0
    # a failed read may have consumed a different part of the field it failed in
    rpart = kind == "read" and err is not None and err[0] == 0
    ev = [e for e in o.events if e[0] != "mark"]
    return (o.status, ev, None if rpart else o.pos, None if part else o.outlen, None if part else o.out, o.after, o.out_after)


def short(o):
    err = C.status_of(o.events)[1] if o.events else None
    return o.status + (" ok" if err is None else " %s at %s" % (C.rname(err[0]), err[1])) + " pos=%d out=%d" % (o.pos, o.outlen)


def demangle(names):
    try:
        r = subprocess.run(["c++filt"], input="\n".join(n.lstrip("@") for n in names), capture_output=True, text=True, timeout=60)
        return r.stdout.split("\n")
    except Exception:
        return list(names)


def lib_functions(funcs):
    out = set()
    for d in demangle(sorted(funcs)):
        m = re.search(r"(s2s::[\w:]+)", re.sub(r"^[^(]*?\b(?=s2s::\w+(?:<|\())", "", d) if "s2s::" in d else "")
        if m:
            out.add(m.group(1))
    return sorted(out)


def known(prop):
    """open entries of KNOWN-FINDINGS.txt: finding: property=X schema=S :: TEXT"""
    out = {}
    p = os.path.join(ROOT, "KNOWN-FINDINGS.txt")
    for l in open(p) if os.path.exists(p) else ():
        m = re.match(r"finding: property=(\w+) schema=(\w+) :: (.*)$", l.strip())
        if m and m.group(1) == prop:
            out[m.group(2)] = m.group(3)
    return out


def run(prop, tier):
    t0 = time.time()
    budget = float(os.environ.get("S2S_BUDGET", "780" if tier == "quick" else "5400"))
    deadline = t0 + budget
    work = tempfile.mkdtemp(prefix="s2sv_")
    outdir = os.path.join(ROOT, "out", prop)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir, exist_ok=True)
    if prop == "C16":
        IRFLAGS.extend(IRFLAGS16)
    try:
        return decide(prop, tier, t0, deadline, work, outdir)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(prop, tier, t0, deadline, work, outdir):
    want = None if prop == "C17" else {prop}
    hdrs = headers(work)
    jobs = plan(prop, tier)
    viol, knownhit, results, notes = [], {}, [], []
    kn = known(prop)
    ncpu = int(os.environ.get("S2S_JOBS", "8"))
    with Pool(ncpu, maxtasksperchild=60) as pool:
        pool.map(precompile, [(hn, hp, work) for hn, hp in hdrs])
        comp = [(e.name, hs, hn, hp, work) for hn, hp in hdrs for e, hs in jobs]
        lls, cfail = {}, []
        pend = []
        hdr = dict(hdrs)
        want_h = {e.name: hs for e, hs in jobs}
        seen_ir = {}
        todo = []
        for name, hn, ll, err, cls in pool.imap_unordered(compile_ir, comp):
            if ll is None:
                cfail.append((name, hn, err, cls))
                continue
            lls[name, hn] = ll
            if len(hdrs) > 1:
                key = name, hashlib.sha256(re.sub(r"(?m)^source_filename.*$|^; ModuleID.*$", "", open(ll).read()).encode()).hexdigest()
                if key in seen_ir:
                    continue
                seen_ir[key] = hn
            for h in want_h[name]:
                # two-element batches would add latency; each harness is its own task
                pend.append(pool.apply_async(prove, ((name, h, hn, ll, want, deadline),)))
        for p in pend:
            results.append(p.get())
        # --- schemas that no longer compile
        for name, hn, err, cls in cfail:
            if cls == "schema":
                viol.append(dict(schema=name, header=hn, label="a well-formed schema no longer compiles", confirmed=True, detail=err[-3000:], case=""))
            else:
                notes.append(f"{name} ({hn}): not brought to the verifier: {cls}")
        # --- failed obligations
        bad = [r for r in results if r.fails]
        und = [r for r in results if not r.fails and r.status != "proved"]
        tasks = []
        if prop == "C17":
            byk = {}
            for r in bad:
                byk.setdefault((r.schema, r.harness[:2], r.header), []).append(r)
            for (s, k, hn), rs in sorted(byk.items())[:24]:
                envs = [x for r in rs for x in r.envs][:16]
                both = {r.harness[2] for r in rs}
                tasks.append((rs, both, pool.apply_async(native_pair, ((s, (k[0], k[1], "cs"), hdr[hn], work, envs, 150, SEED, rs[0].ll),))))
            for rs, both, p in tasks:
                diffs, tried, prob = p.get()
                r = rs[0]
                if diffs:
                    viol.append(dict(schema=r.schema, header=r.header, harness="_".join(r.harness), label=rs[0].fails[0][0], confirmed=True, detail=diffs[0][1], case=diffs[0][3]))
                elif both == {"cs"} and "vs" in K.CAT[r.schema].streams:
                    real = [f for f in r.fails if f[1] != ["*"]]
                    if real:
                        viol.append(dict(schema=r.schema, header=r.header, harness="_".join(r.harness), label=real[0][0], confirmed=False, detail=str(real[0]) + " " + prob, case=""))
        else:
            real = []
            for r in bad:
                real.append((r, r.fails))
            for r in results:
                if r.finding and r.schema in kn:
                    knownhit.setdefault((r.schema, kn[r.schema]), []).append("_".join(r.harness) + ": " + r.finding[0][0])
                elif r.finding:
                    r.fails = r.finding
                    real.append((r, r.fails))
            real.sort(key=lambda x: (x[0].stats.get("wall", 0)))
            for r, left in real[:16]:
                envs = [x for x in r.envs if x[0] in {f[0] for f in left}]
                tasks.append((r, left, pool.apply_async(native_cases, ((r.schema, r.harness, hdr[r.header], r.ll, work, prop, envs, 150, SEED),))))
            for r, left, p in tasks:
                conf, tried, prob = p.get()
                star = all(f[1] == ["*"] for f in left)
                if conf:
                    viol.append(dict(schema=r.schema, header=r.header, harness="_".join(r.harness), label=left[0][0], confirmed=True, detail=f"{conf[0][1]}\n{conf[0][2]}", case=conf[0][3], obligations=[list(f) for f in left]))
                elif not star:
                    viol.append(dict(schema=r.schema, header=r.header, harness="_".join(r.harness), label=left[0][0], confirmed=False, detail=str(left) + prob, case="", obligations=[list(f) for f in left]))
                else:
                    und.append(r)
        # --- outside the verifier's reach: bounded stand-in
        bounded = []
        if und or any(c[3] in ("clang-only", "time") for c in cfail):
            bt = []
            for r in und:
                if prop == "C17":
                    bt.append((r, pool.apply_async(native_pair, ((r.schema, r.harness, hdr[r.header], work, [], 300, SEED, r.ll),))))
                else:
                    bt.append((r, pool.apply_async(native_cases, ((r.schema, r.harness, hdr[r.header], r.ll, work, prop, [], 300, SEED),))))
            for r, p in bt:
                conf, tried, prob = p.get()
                bounded.append(dict(schema=r.schema, harness="_".join(r.harness), why=r.why[:200], cases=tried, problem=prob[:200]))
                if conf:
                    viol.append(dict(schema=r.schema, header=r.header, harness="_".join(r.harness), label=conf[0][1], confirmed=True, detail=conf[0][2], case=conf[0][3]))
        # --- thorough: the compiled code against the same spec, on generated inputs
        cross = dict(cases=0, harnesses=0)
        if tier == "thorough" and prop != "C17":
            ct = [(r, pool.apply_async(native_cases, ((r.schema, r.harness, hdr[r.header], r.ll, work, prop, [], 600, SEED),))) for r in results if not r.fails and not r.finding]
            for r, p in ct:
                conf, tried, prob = p.get()
                cross["cases"] += tried
                cross["harnesses"] += 1
                if conf:
                    viol.append(dict(schema=r.schema, header=r.header, harness="_".join(r.harness), label="native: " + conf[0][1], confirmed=True, detail=conf[0][2], case=conf[0][3]))
    return report(prop, tier, t0, results, viol, knownhit, notes, bounded, cross, outdir, hdrs)


def report(prop, tier, t0, results, viol, knownhit, notes, bounded, cross, outdir, hdrs):
    funcs = set()
    for r in results:
        funcs |= set(r.stats.get("funcs", ()))
    proved = [r for r in results if r.status == "proved" and not r.fails]
    labels = {}
    for r in results:
        for l, n in r.labels.items():
            labels[re.sub(r" at \w*$| of \S+$", "", l)] = labels.get(re.sub(r" at \w*$| of \S+$", "", l), 0) + n
    obl, dis = sum(r.obl for r in results), sum(r.disch for r in results)
    lf = lib_functions(funcs)
    cov = dict(
        obligations=obl, discharged=dis,
        checker_cmd="VC generation from the LLVM IR of /repo/include/s2s.hpp instantiated per schema (clang++-18 -O0 -emit-llvm), discharged by z3 %s" % z3_version(),
        trusted_base=TRUSTED,
        schemas=len({r.schema for r in results}), harnesses=len(results), harnesses_proved=len(proved),
        paths=sum(r.paths for r in results), loops_summarised=sum(r.stats.get("loops", 0) for r in results),
        solver_queries=sum(r.stats.get("queries", 0) for r in results), solver_s=round(sum(r.stats.get("solver_s", 0) for r in results), 1),
        postconditions_by_clause=labels, functions_verified=len(funcs), library_functions=lf,
        headers=[h for h, _ in hdrs], bounded_harnesses=bounded, native_cross_check=cross, notes=notes[:40],
        undischarged=[dict(schema=v["schema"], harness=v.get("harness"), obligation=v["label"], confirmed=v["confirmed"]) for v in viol][:40],
        known_findings=[f"{s}: {t}" for s, t in knownhit],
    )
    vac = not results or obl == 0 or not any(r.labels for r in results) and prop not in ("C16", "C10")
    ev = dict(property=prop, tier=tier, seed=SEED, level="proof", coverage=cov, assumptions=ASSUME, wall_s=round(time.time() - t0, 1), violations=len(viol))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    if vac and not viol:
        notes.append("vacuous run")
        ev["level"] = "other"
        cov["explanation"] = "no obligation could be generated; see notes"
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    for (s, t), n in sorted(knownhit.items()):
        print(f"KNOWN-FINDING: property={prop} {t} (schema {s})")
    if viol:
        return say(prop, viol, outdir)
    print(f"{prop}: held; {dis}/{obl} obligations discharged, {len(proved)}/{len(results)} harnesses proved over {cov['schemas']} schemas, {len(bounded)} bounded, {round(time.time() - t0, 1)} s")
    return 0


def say(prop, viol, outdir):
    viol.sort(key=lambda v: not v["confirmed"])
    best = [v for v in viol if v["confirmed"]] or viol
    for i, v in enumerate(best[:5]):
        path = os.path.join(outdir, f"violation{i}.json")
        json.dump(v, open(path, "w"), indent=1)
        print(f"  {v['schema']} {v.get('harness', '')} [{v['header']}]: {v['label']}: {v['detail'][:300]}")
        print(f"VIOLATION property={prop} replay={path}" + ("" if v["confirmed"] else " no-failing-input-found"))
    return 1


def z3_version():
    import z3
    return z3.get_version_string()


def main():
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    if prop in ("C18", "C19"):
        import static_rules
        sys.exit(static_rules.run(prop, tier))
    sys.exit(run(prop, tier))


if __name__ == "__main__":
    main()
