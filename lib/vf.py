"""Harness: build the library and driver, run scripts, let TLC judge the recorded traces."""
import os, re, sys, json, time, shutil, subprocess, tempfile, hashlib, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = 8
CM = ["-G", "Ninja", "-Wno-dev", "-DCMAKE_BUILD_TYPE=None", "-DIL_TESTS=OFF", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5",
      "-DMNG_INCLUDE_DIR=/usr/include", "-DCMAKE_DISABLE_FIND_PACKAGE_Jasper=ON", "-DCMAKE_DISABLE_FIND_PACKAGE_NVTT=ON",
      "-DCMAKE_DISABLE_FIND_PACKAGE_OpenEXR=ON"]
FLAGS = "-O1 -g1 -fsanitize=address -fno-omit-frame-pointer -w"

class Broken(Exception):
    """The machinery itself failed (exit 2)."""

def log(*a):
    print(*a, flush=True)

def build():
    """Address-sanitized libraries from /repo's working tree, and the driver linked against them."""
    os.makedirs(BUILD, exist_ok=True)
    b = os.path.join(BUILD, "asan")
    env = dict(os.environ, CC="gcc", CXX="g++")
    if not os.path.exists(os.path.join(b, "build.ninja")):
        shutil.rmtree(b, ignore_errors=True)
        os.makedirs(b)
        r = subprocess.run(["cmake", "-S", os.path.join(REPO, "DevIL"), "-B", b, "-DCMAKE_CXX_FLAGS=" + FLAGS, "-DCMAKE_C_FLAGS=" + FLAGS] + CM,
                           env=env, capture_output=True, text=True)
        if r.returncode: raise Broken("cmake failed:\n" + r.stdout[-2000:] + r.stderr[-2000:])
    r = subprocess.run(["ninja", "-C", b, "IL", "ILU", "ILUT"], env=env, capture_output=True, text=True)
    if r.returncode: raise Broken("build failed:\n" + r.stdout[-3000:])
    drv = os.path.join(b, "ildrv")
    r = subprocess.run(["g++", "-O1", "-g1", "-fsanitize=address", "-w", "-I" + os.path.join(REPO, "DevIL/include"), os.path.join(VERIF, "driver/ildrv.cpp"),
                        "-o", drv, "-L" + os.path.join(b, "lib/x64"), "-lILUT", "-lILU", "-lIL", "-Wl,-rpath," + os.path.join(b, "lib/x64")],
                       capture_output=True, text=True)
    if r.returncode: raise Broken("driver build failed:\n" + r.stderr[-3000:])
    return drv

def run_driver(drv, scripts, work, timeout_s=20, procs=NCPU):
    """scripts: [(id, [lines])] -> list of trace files (one JSON line per script)."""
    os.makedirs(work, exist_ok=True)
    sf = os.path.join(work, "scripts.txt")
    with open(sf, "w") as f:
        for i, lines in scripts:
            f.write("# %s\n%s\n" % (i, "\n".join(lines)))
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:max_malloc_fill_size=65536", ILDRV_TIMEOUT=str(timeout_s))
    procs = max(1, min(procs, len(scripts)))
    def one(p):
        out = os.path.join(work, "t%d.ndjson" % p)
        wd = os.path.join(work, "w%d" % p)
        os.makedirs(wd, exist_ok=True)
        with open(os.path.join(work, "d%d.err" % p), "w") as e:
            r = subprocess.run([drv, sf, out, str(p), str(procs)], cwd=wd, env=env, stdout=subprocess.DEVNULL, stderr=e)
        if r.returncode:
            raise Broken("driver exit %d: %s" % (r.returncode, open(os.path.join(work, "d%d.err" % p)).read()[-500:]))
        shutil.rmtree(wd, ignore_errors=True)
        return out
    with ThreadPoolExecutor(procs) as ex:
        return list(ex.map(one, range(procs)))

def tlc(module, cfg, env=None, workers=1, heap="2g", timeout=850):
    meta = tempfile.mkdtemp(prefix="vf_tlc")
    try:
        e = dict(os.environ, **(env or {}))
        e.pop("JAVA_TOOL_OPTIONS", None)
        r = subprocess.run(["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + meta, "-cp", JAR, "tlc2.TLC",
                            "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, module + ".tla"],
                           cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout, errors="replace")
        return r.stdout + r.stderr
    except subprocess.TimeoutExpired as x:
        raise Broken("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)

DONE = re.compile(r'<<\s*"DONE",\s*"([^"]*)"\s*>>')
REJ = re.compile(r'<<\s*"REJECT",\s*"([^"]*)",\s*(\d+),\s*"([^"]*)",')
GENR = re.compile(r'(\d+) states generated, (\d+) distinct states found')

def split_traces(files, work):
    """Read the driver's output and pack it into at most NCPU shards of similar size."""
    lines = []
    for f in files:
        with open(f, errors="replace") as h:
            for l in h:
                if l.strip(): lines.append(l)
    return lines

def trace_id(line):
    return json.loads(line)["id"]

def validate(lines, work, workers=NCPU):
    """TLC on the traces.  Returns ({id: (event, op, text)}, #accepted, states, [ids without verdict])."""
    total = sum(map(len, lines))
    shards = max(1, min(workers, total // 400000 + 1, len(lines)))
    bins = [[] for _ in range(shards)]
    load = [0] * shards
    for l in sorted(lines, key=len, reverse=True):
        k = load.index(min(load))
        bins[k].append(l); load[k] += len(l)
    def one(k):
        f = os.path.join(work, "shard%d.ndjson" % k)
        with open(f, "w") as h: h.writelines(bins[k])
        out = tlc("ILTrace", "ILTrace.cfg", {"ILTRACE": f}, heap="3g" if shards > 1 else "6g")
        with open(os.path.join(work, "shard%d.out" % k), "w") as h: h.write(out)
        return out
    with ThreadPoolExecutor(shards) as ex:
        outs = list(ex.map(one, range(shards)))
    rej, done, states = {}, set(), 0
    for k, out in enumerate(outs):
        for m in DONE.finditer(out): done.add(m.group(1))
        for m in REJ.finditer(out): rej[m.group(1)] = (int(m.group(2)), m.group(3), " ".join(out[m.start():m.start() + 1500].split()))
        m = GENR.findall(out)
        if m: states += int(m[-1][1])
    missing = [l for l in lines if trace_id(l) not in done and trace_id(l) not in rej]
    return rej, done, states, missing, outs

class Verdict:
    def __init__(self):
        self.rejects = {}     # id -> (step, op, text)
        self.accepted = 0
        self.states = 0
        self.events = 0

def judge(drv, scripts, work, timeout_s=20):
    """Run scripts and validate; rejected ones are confirmed by running them again on their own."""
    v = Verdict()
    if not scripts: return v
    by_id = dict(scripts)
    assert len(by_id) == len(scripts), "duplicate script ids"
    t0 = time.time()
    files = run_driver(drv, scripts, work, timeout_s)
    lines = split_traces(files, work)
    if len(lines) != len(scripts): raise Broken("driver produced %d traces for %d scripts" % (len(lines), len(scripts)))
    t1 = time.time()
    v.events = sum(l.count('"op":') for l in lines)
    rej, done, states, missing, outs = validate(lines, work)
    v.accepted, v.states = len(done), states
    t2 = time.time()
    if os.environ.get("VF_VERBOSE"): log("  driver %.1fs, %d events; TLC %.1fs, %d rejected, %d without verdict" % (t1 - t0, v.events, t2 - t1, len(rej), len(missing)))
    cand = sorted(rej)
    if missing:
        # an evaluation stopped TLC: find the traces that do it
        rounds = 0
        while missing and rounds < 12:
            rounds += 1
            parts = [missing[i::NCPU] for i in range(NCPU) if missing[i::NCPU]]
            nxt = []
            def part(a):
                k, p = a
                w = os.path.join(work, "m%d_%d" % (rounds, k)); os.makedirs(w, exist_ok=True)
                return validate(p, w, 1)
            with ThreadPoolExecutor(NCPU) as ex:
                for (r2, d2, s2, m2, o2), p in zip(ex.map(part, enumerate(parts)), parts):
                    rej.update(r2); v.accepted += len(d2); v.states += s2
                    if m2 and len(p) == 1:
                        err = [x for x in o2[0].splitlines() if x.strip() and not x.startswith("Parsing")]
                        rej[trace_id(m2[0])] = (0, "?", "TLC could not evaluate the trace: " + " ".join(err)[-1200:])
                    else: nxt += m2
            missing = nxt
            if len(rej) > 60: break
        v.unresolved = len(missing)
        cand = sorted(rej)
    if os.environ.get("VF_ALL"):
        for i in cand: log("event %d (%s): %s" % (rej[i][0], rej[i][1], rej[i][2]))
    # confirm
    if cand:
        w = os.path.join(work, "confirm")
        shutil.rmtree(w, ignore_errors=True)
        for i in cand[:40]:
            wi = os.path.join(w, re.sub(r"\W", "_", i))
            f2 = run_driver(drv, [(i, by_id[i])], wi, timeout_s, 1)
            r2, d2, s2, m2, o2 = validate(split_traces(f2, wi), wi, 1)
            if i in r2: v.rejects[i] = r2[i]
            elif m2:
                if not re.search(r"Error:", o2[0]): raise Broken("TLC failed: " + o2[0][-800:])
                v.rejects[i] = rej[i] if rej[i][0] == 0 else (0, "?", "TLC could not evaluate the trace: " + " ".join(o2[0].split())[-1200:])
            else: log("  note: rejection of %s did not repeat" % i)
            if len(v.rejects) >= 3: break
        v.total_rejected = len(cand)
    if missing and not v.rejects: raise Broken('%d traces without a verdict' % len(missing))
    return v

def run_model(module, cfg, workers=4, timeout=800):
    """Explore a model; returns (scripts, generated, distinct)."""
    out = tlc(module, cfg, workers=workers, heap="6g", timeout=timeout)
    m = GENR.findall(out)
    if not m or "No error has been found" not in out:
        bad = [l for l in out.splitlines() if not l.startswith('"SCRIPT')]
        bad = [l[:400] for l in bad if "Error" in l or "violated" in l][:6] + bad
        raise Broken("model %s does not check:\n%s" % (module, "\n".join(bad[:8])[:1500] + " ... " + "\n".join(bad)[-1500:]))
    scripts = [l[1:-1][len("SCRIPT;"):].split(";") for l in out.splitlines() if l.startswith('"SCRIPT;')]
    scripts.sort()
    return scripts, int(m[-1][0]), int(m[-1][1])
