#!/usr/bin/env python3
"""Decide properties of /repo by bounded symbolic execution of its real code.

usage: check.py PROPERTY [--tier quick|thorough] [--harness NAME ...] [--keep]
       check.py --setup            (prepare the tool chain only)
       check.py --list             (properties and their harnesses)

Pipeline, rerun from /repo's working tree every time:
  cargo kani --only-codegen   harness crate + /repo crates -> goto program
  goto-cc / goto-instrument   link, add library, drop bodies
  cbmc --function vh_<h>      one SAT-decided query set per harness
  cbmc --trace                counterexample values of a failed assertion
  replay <h> <values>         re-execution in the compiled release build
"""
import json, os, re, shutil, subprocess, sys, time, threading, hashlib, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VH_BUILD", os.path.join(VERIF, ".build"))
KVER = "kani-0.68.0"
KSRC = os.path.join(os.path.expanduser("~"), ".kani", KVER)
KHOME = os.path.join(BUILD, "kani-home")
KDIR = os.path.join(KHOME, KVER)
CRATES = ["asset"]
DEFAULT_UNWIND = 8
KEY_UNWIND = 64          # byte-wise loops over 32-byte keys (memcmp)
MODEL_UNWIND = 200       # loops of the specification helpers, with concrete bounds
COPY_UNWIND = 400        # sol_memcpy / sol_memmove
JOBS = int(os.environ.get("VH_JOBS", "8"))

ENV = dict(os.environ)
ENV.update(CARGO_NET_OFFLINE="true", pnpm_config_offline="true",
           pnpm_config_fetch_retries="0", KANI_HOME=KHOME,
           CARGO_TERM_COLOR="never")
for k in ("RUSTUP_TOOLCHAIN", "RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER",
          "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET_DIR"):
    ENV.pop(k, None)
PATHENV = dict(ENV)
PATHENV["PATH"] = os.path.join(KDIR, "bin") + ":" + ENV.get("PATH", "")


UNWINDSET = {}


class Inconclusive(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def sh(cmd, cwd=None, env=None, timeout=None, out=None):
    f = open(out, "wb") if out else subprocess.PIPE
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env or ENV, timeout=timeout,
                           stdout=f, stderr=subprocess.STDOUT)
    finally:
        if out:
            f.close()
    return p.returncode, (b"" if out else p.stdout).decode("utf-8", "replace")


# --------------------------------------------------------------------------
# tool chain: Kani with release-mode (wrapping) integer arithmetic
# --------------------------------------------------------------------------
def ensure_kani():
    stamp = os.path.join(KHOME, "ok")
    if os.path.exists(stamp):
        return
    if os.path.isdir(KHOME):
        shutil.rmtree(KHOME)
    os.makedirs(os.path.join(KDIR, "bin"))
    for e in os.listdir(KSRC):
        if e != "bin":
            os.symlink(os.path.join(KSRC, e), os.path.join(KDIR, e))
    for e in os.listdir(os.path.join(KSRC, "bin")):
        src, dst = os.path.join(KSRC, "bin", e), os.path.join(KDIR, "bin", e)
        if e in ("kani-compiler", "kani-driver"):
            b = open(src, "rb").read()
            # same length: overflow-checks=on -> overflow-checks=no
            b = b.replace(b"overflow-checks=on", b"overflow-checks=no")
            if e == "kani-compiler":
                pat = bytes.fromhex("f6c1017521488dbb10170000488d15ee56d9ff")
                if b.count(pat) != 1:
                    raise Inconclusive("kani-compiler: unexpected build")
                i = b.index(pat)
                b = b[:i + 3] + b"\xeb" + b[i + 4:]
            open(dst, "wb").write(b)
            os.chmod(dst, 0o755)
        else:
            os.symlink(src, dst)
    open(stamp, "w").write("ok\n")


# --------------------------------------------------------------------------
# harness metadata (from the //@ lines of the harness sources)
# --------------------------------------------------------------------------
def harness_table():
    table = {}
    for crate in CRATES:
        src = os.path.join(VERIF, "kani", crate, "src")
        for fn in sorted(os.listdir(src)):
            if not fn.endswith(".rs"):
                continue
            meta = None
            for line in open(os.path.join(src, fn)):
                s = line.strip()
                if s.startswith("//@"):
                    meta = dict(kv.split("=", 1) for kv in s[3:].split())
                elif meta is not None:
                    m = re.match(r"fn (\w+)\(\)", s)
                    if not m:
                        m = re.match(r"\w+!\s*\{?\s*\(?(\w+)", s)
                    if m:
                        table[m.group(1)] = dict(
                            name=m.group(1), crate=crate, file=fn,
                            props=meta.get("props", "").split(","),
                            nopanic=[p for p in meta.get("nopanic", "").split(",") if p],
                            unwind=int(meta.get("unwind", DEFAULT_UNWIND)),
                            tier=meta.get("tier", "quick"),
                            weight=int(meta.get("weight", 10)),
                            args=meta.get("args", ""),
                        )
                        meta = None
    return table


# --------------------------------------------------------------------------
# encoding
# --------------------------------------------------------------------------
def codegen(crate):
    """Returns (goto file, list of /repo functions encoded)."""
    cdir = os.path.join(VERIF, "kani", crate)
    tdir = os.path.join(BUILD, "kt-" + crate)
    logf = os.path.join(BUILD, "codegen-%s.log" % crate)
    # stale symbol tables of this crate must not be picked up
    rc, _ = sh(["cargo", "kani", "--target-dir", tdir, "-Z", "stubbing",
                "--lib", "--only-codegen", "--no-memory-safety-checks",
                "--no-overflow-checks", "--no-assertion-reach-checks"],
               cwd=cdir, out=logf, timeout=800)
    if rc != 0:
        tail = open(logf, errors="replace").read()[-4000:]
        raise Inconclusive("encoding %s failed:\n%s" % (crate, tail))
    metas = []
    for root, _, files in os.walk(tdir):
        for f in files:
            if f.startswith("vh_") and f.endswith(".kani-metadata.json"):
                p = os.path.join(root, f)
                metas.append((os.path.getmtime(p), p))
    if not metas:
        raise Inconclusive("no kani metadata for " + crate)
    meta = json.load(open(max(metas)[1]))
    h = meta["proof_harnesses"]
    if len(h) != 1:
        raise Inconclusive("expected one root harness in %s" % crate)
    goto = h[0]["goto_file"]
    w = os.path.join(BUILD, "goto-" + crate)
    os.makedirs(w, exist_ok=True)
    obj = os.path.join(w, "x.o")
    shutil.copy(goto, obj)
    def step(name, cmd):
        rc, out = sh(cmd, cwd=w, env=PATHENV, timeout=600)
        if rc != 0:
            raise Inconclusive("%s failed: %s" % (name, out[-2000:]))
    step("goto-cc", ["goto-cc", "-c", os.path.join(KDIR, "library/kani/kani_lib.c"), "-o", "kl.o"])
    step("goto-cc", ["goto-cc", "x.o", "kl.o", "--function", h[0]["mangled_name"], "-o", "a.goto"])
    # std::io::Error only arises while decoding a malformed instruction and ends
    # the transaction: its constructors become failing assertions (counted like
    # a panic), which makes its destructor unreachable.
    rc, out = sh(["goto-instrument", "--list-goto-functions", "a.goto"], cwd=w, env=PATHENV, timeout=120)
    ctors = []
    for l in out.splitlines():
        m = re.match(r"^(\S.*?) /\* (\S+) \*/", l)
        if not m:
            continue
        if IO_ERROR.search(m.group(1)):
            ctors.append(m.group(2))
    rm = []
    for f in ctors:
        rm += ["--remove-function-body", f]
    step("instrument", ["goto-instrument"] + rm +
         ["--add-library", "--no-malloc-may-fail",
          "--generate-function-body-options", "assert-false-assume-false",
          "--generate-function-body", ".*", "--drop-unused-functions",
          "--ensure-one-backedge-per-target", "a.goto", "d.goto"])
    return os.path.join(w, "d.goto")


IO_ERROR = re.compile(r"<impl std::io::Error>::new::<|^std::io::Error::from_static_message$"
                      r"|^<std::io::Error as std::convert::From<std::io::ErrorKind>>::from$"
                      r"|^std::ptr::drop_glue::<std::io::Error>$")

CBMC_FLAGS = ["--unwinding-assertions", "--no-standard-checks", "--object-bits", "16",
              "--slice-formula", "--sat-solver", "cadical",
              "--max-field-sensitivity-array-size", "1024", "--no-malloc-may-fail",
              "--drop-unused-functions"]

RES = re.compile(r"^\[(.+?)\] (?:line \d+ )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$")
procs_lock = threading.Lock()


def base_unwindset(goto):
    """Loops over key bytes get a fixed bound; everything else the harness's."""
    rc, out = sh(["goto-instrument", "--show-loops", goto], env=PATHENV, timeout=120)
    us = {}
    for l in out.splitlines():
        m = re.match(r"Loop (\S+):$", l)
        if not m:
            continue
        if re.search(r"program_stubs\d+sol_mem", m.group(1)):
            us[m.group(1)] = COPY_UNWIND
        elif m.group(1).startswith("memcmp.") or "6String9from_utf8" in m.group(1):
            us[m.group(1)] = KEY_UNWIND
        elif re.search(r"vh_\w+?5model", m.group(1)):
            us[m.group(1)] = MODEL_UNWIND
    return us


def unwind_args(unwind):
    u, us = unwind
    a = ["--unwind", str(u)]
    if us:
        a += ["--unwindset", ",".join("%s:%d" % kv for kv in sorted(us.items()))]
    return a


def run_cbmc(goto, h, unwind, timeout, extra=()):
    out = os.path.join(BUILD, "out-%s.txt" % h["name"])
    cmd = ["cbmc", goto, "--function", "vh_" + h["name"]] + unwind_args(unwind) + CBMC_FLAGS
    if h["args"]:
        cmd += h["args"].split(",")
    cmd += list(extra) + ["--verbosity", "8"]
    t0 = time.time()
    try:
        rc, _ = sh(cmd, env=PATHENV, out=out, timeout=timeout)
    except subprocess.TimeoutExpired:
        return dict(status="timeout", wall=time.time() - t0)
    r = dict(status="done", wall=time.time() - t0, rc=rc, tagged={}, covers={}, panics=[],
             unwind=[], unsupported=[], props=0, steps=0, vccs=0, remaining=0,
             queries=0, solver=0.0, symex=0.0, variables=0, clauses=0,
             unwind_bound=unwind[0], cut={})
    for line in open(out, errors="replace"):
        line = line.rstrip("\n")
        m = RES.match(line)
        if m:
            pid, desc, st = m.groups()
            r["props"] += 1
            if ".unwind." in pid or desc.startswith("unwinding assertion") or "recursion unwinding" in desc:
                if st != "SUCCESS":
                    r["unwind"].append(pid)
            elif ".cover." in pid:
                r["covers"].setdefault(desc, []).append((pid, st))
            elif desc == "undefined function should be unreachable":
                if st == "SUCCESS":
                    pass
                elif "2io5error" in pid:
                    r["panics"].append((pid, "malformed instruction"))
                else:
                    r["unsupported"].append(pid + ": " + desc)
            elif ".unsupported_construct." in pid or desc == "assertion":
                if st != "SUCCESS":
                    r["unsupported"].append(pid + ": " + desc)
            elif re.match(r"\[\w+\]", desc):
                r["tagged"][pid] = (desc, st)
            elif st != "SUCCESS":
                r["panics"].append((pid, desc))
            continue
        m = re.match(r"Not unwinding (?:loop|recursion) (\S+) iteration (\d+)(?: file .* function (.*) thread \d+)?", line)
        if m: r["cut"][m.group(1)] = (int(m.group(2)), (m.group(3) or "") + ".unwind." + m.group(1).rsplit(".", 1)[-1])
        m = re.match(r"Runtime Symex: ([\d.e+-]+)s", line)
        if m: r["symex"] += float(m.group(1))
        m = re.match(r"Runtime [Dd]ecision [Pp]rocedure: ([\d.e+-]+)s", line)
        if m:
            r["solver"] += float(m.group(1)); r["queries"] += 1
        m = re.match(r"size of program expression: (\d+) steps", line)
        if m: r["steps"] = int(m.group(1))
        m = re.match(r"Generated (\d+) VCC\(s\), (\d+) remaining", line)
        if m: r["vccs"], r["remaining"] = int(m.group(1)), int(m.group(2))
        m = re.match(r"(\d+) variables, (\d+) clauses", line)
        if m:
            r["variables"] = max(r["variables"], int(m.group(1)))
            r["clauses"] = max(r["clauses"], int(m.group(2)))
    if rc not in (0, 10) or r["props"] == 0:
        r["status"] = "error"
        r["tail"] = open(out, errors="replace").read()[-1500:]
    return r


# --------------------------------------------------------------------------
# counterexamples
# --------------------------------------------------------------------------
def trace_values(goto, h, unwind, pid, timeout):
    out = os.path.join(BUILD, "trace-%s.json" % h["name"])
    cmd = ["cbmc", goto, "--function", "vh_" + h["name"]] + unwind_args(unwind)
    cmd += [f for f in CBMC_FLAGS if f != "--slice-formula"]
    cmd += ["--property", pid, "--trace", "--json-ui"]
    try:
        sh(cmd, env=PATHENV, out=out, timeout=timeout)
        doc = json.load(open(out, errors="replace"))
    except (subprocess.TimeoutExpired, ValueError) as e:
        raise Inconclusive("no trace for %s: %s" % (pid, e))
    finally:
        pass
    vals = None
    for e in doc:
        for res in e.get("result", []) if isinstance(e, dict) else []:
            if res.get("status") == "FAILURE" and "trace" in res:
                vals = []
                for s in res["trace"]:
                    if s.get("stepType") != "assignment":
                        continue
                    fn = s.get("sourceLocation", {}).get("function", "")
                    if not fn.startswith("kani::any_raw_"):
                        continue
                    lhs = s.get("lhs", "")
                    if not lhs.startswith("goto_symex$$return_value") or "[" in lhs:
                        continue
                    v = s["value"]
                    if "elements" in v:
                        vals.append("".join("%02x" % int(el["value"]["binary"], 2)
                                            for el in sorted(v["elements"], key=lambda x: x["index"])))
                    elif "binary" in v:
                        b = v["binary"]
                        n = max(1, len(b) // 8)
                        vals.append(int(b, 2).to_bytes(n, "little").hex())
    os.unlink(out)
    if vals is None:
        raise Inconclusive("no trace for " + pid)
    return vals


replay_lock = threading.Lock()
replay_built = {}


def build_replay(crate):
    with replay_lock:
        if crate in replay_built:
            return replay_built[crate]
        cdir = os.path.join(VERIF, "kani", crate)
        logf = os.path.join(BUILD, "replay-build-%s.log" % crate)
        tdir = os.path.join(BUILD, "rt-" + crate)
        rc, _ = sh(["cargo", "build", "--offline", "--release", "--bin", "replay",
                    "--target-dir", tdir], cwd=cdir, out=logf, timeout=600)
        if rc != 0:
            raise Inconclusive("replay build failed:\n" + open(logf, errors="replace").read()[-3000:])
        replay_built[crate] = os.path.join(tdir, "release", "replay")
        return replay_built[crate]


def replay(h, vals, want, is_panic, prop):
    exe = build_replay(h["crate"])
    d = os.path.join(BUILD, "replays")
    os.makedirs(d, exist_ok=True)
    tag = hashlib.sha1((h["name"] + want).encode()).hexdigest()[:8]
    path = os.path.join(d, "%s-%s-%s.json" % (prop, h["name"], tag))
    vf = path[:-5] + ".values"
    open(vf, "w").write("\n".join(vals) + "\n")
    try:
        p = subprocess.run([exe, h["name"], vf], env=ENV, timeout=60, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        out, rc = p.stdout.decode("utf-8", "replace"), p.returncode
    except subprocess.TimeoutExpired:
        out, rc = "REPLAY-TIMEOUT", -1
    failed = [l[5:] for l in out.splitlines() if l.startswith("FAIL ")]
    panicked = "PANIC" in out or out == "REPLAY-TIMEOUT"  # does not terminate
    ok = (panicked or rc < 0 or any(f.startswith("[%s]" % prop) for f in failed)) if is_panic else want in failed
    json.dump(dict(property=prop, harness=h["name"], assertion=want, values=vals,
                   command="%s %s %s" % (exe, h["name"], vf), native_exit=rc,
                   native_output=out, reproduced=ok), open(path, "w"), indent=1)
    return ok, path, out


# --------------------------------------------------------------------------
def known_findings():
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    known = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\w+) harness=(\w+) assertion=\"(.*?)\" (.*)$", line.strip())
            if m:
                known.append(m.groups())
    return known


def decide(prop, h, goto, deadline, tier):
    """Runs one harness for one property; returns a result dict."""
    unwind = (h["unwind"], dict(UNWINDSET[goto]))
    for attempt in range(5):
        left = deadline - time.time()
        if left < 5:
            return dict(h=h, state="inconclusive", why="time budget exhausted")
        r = run_cbmc(goto, h, unwind, left)
        if r["status"] != "done":
            return dict(h=h, r=r, state="inconclusive", why=r["status"] + " " + r.get("tail", ""))
        bad = [(pid, d, False) for pid, (d, st) in r["tagged"].items()
               if st == "FAILURE" and d.startswith("[%s]" % prop)]
        # after an access out of bounds nothing holds any more, whatever the property
        bad += [(pid, d, True) for pid, d in r["panics"] if ".safety_check." in pid]
        if prop in h["nopanic"]:
            bad += [(pid, d, True) for pid, d in r["panics"] if ".safety_check." not in pid]
        if bad:
            return dict(h=h, r=r, state="violated", bad=bad, unwind=unwind)
        if r["unwind"]:
            # raise the bound of the loops that need more iterations
            us = dict(unwind[1])
            hit = False
            for lid, (it, pid) in r["cut"].items():
                if pid in r["unwind"]:
                    us[lid] = max(us.get(lid, 0), it) * 5
                    hit = True
            unwind = (unwind[0] if hit else unwind[0] * 3, us)
            continue
        break
    if r["unwind"]:
        return dict(h=h, r=r, state="inconclusive", why="loop bound too small: " + ", ".join(r["unwind"][:4]))
    if r["unsupported"]:
        return dict(h=h, r=r, state="inconclusive", why="not encodable: " + "; ".join(r["unsupported"][:3]))
    mine = [d for d, st in r["tagged"].values() if d.startswith("[%s]" % prop)]
    if not mine and prop not in h["nopanic"]:
        return dict(h=h, r=r, state="inconclusive", why="no assertion of %s in %s" % (prop, h["name"]))
    unreached = [d for d, l in r["covers"].items()
                 if d.startswith("[%s]" % prop) and all(st != "FAILURE" for _, st in l)]
    if unreached:
        return dict(h=h, r=r, state="unreached", why="; ".join(unreached))
    return dict(h=h, r=r, state="held", asserts=mine)


def check(prop, tier, only=None):
    t0 = time.time()
    budget = 840 if tier == "quick" else 6 * 3600
    if os.environ.get("VH_BUDGET"):
        budget = int(os.environ["VH_BUDGET"])
    deadline = t0 + budget
    ensure_kani()
    table = harness_table()
    hs = [h for h in table.values() if prop in h["props"]
          and (tier == "thorough" or h["tier"] == "quick") and (not only or h["name"] in only)]
    if not hs:
        log("no harness for", prop)
        return 2
    hs.sort(key=lambda h: -h["weight"])
    crates = sorted(set(h["crate"] for h in hs))
    gotos = {}
    for c in crates:
        gotos[c] = codegen(c)
        UNWINDSET[gotos[c]] = base_unwindset(gotos[c])
    t1 = time.time()
    log("encoded %s in %.0f s; %d harnesses for %s" % (",".join(crates), t1 - t0, len(hs), prop))
    results = []
    with ThreadPoolExecutor(JOBS) as ex:
        futs = [ex.submit(decide, prop, h, gotos[h["crate"]], deadline - 30, tier) for h in hs]
        for f in futs:
            res = f.result()
            results.append(res)
            r = res.get("r") or {}
            log("  %-28s %-12s %5.1f s  %s" % (res["h"]["name"], res["state"], r.get("wall", 0), res.get("why", "")[:300]))
    known = known_findings()
    violations, findings, unconfirmed = [], [], []
    for res in results:
        if res["state"] != "violated":
            continue
        h = res["h"]
        hits = 0
        for pid, desc, is_panic in res["bad"]:
            k = [x for x in known if x[0] == prop and x[1] == h["name"] and x[2] == desc]
            if k:
                findings.append((desc, k[0][3]))
                continue
            if hits >= 2:
                continue
            try:
                vals = trace_values(gotos[h["crate"]], h, res["unwind"], pid, 600)
                ok, path, out = replay(h, vals, desc, is_panic, prop)
            except Inconclusive as e:
                unconfirmed.append("%s: %s: %s" % (h["name"], desc, e))
                continue
            if ok:
                violations.append((h["name"], desc, path))
                hits += 1
            else:
                unconfirmed.append("%s: %s: counterexample did not reproduce natively (%s)" % (h["name"], desc, path))
    inconclusive = [r for r in results if r["state"] in ("inconclusive", "unreached")]
    write_evidence(prop, tier, results, violations, findings, t0, t1, gotos)
    for desc, text in findings:
        log("KNOWN-FINDING: property=%s %s" % (prop, text))
    for u in unconfirmed:
        log("UNCONFIRMED " + u)
    if violations:
        for name, desc, path in violations:
            log("  violated in %s: %s" % (name, desc))
        log("VIOLATION property=%s replay=%s" % (prop, violations[0][2]))
        return 1
    if unconfirmed or inconclusive:
        for r in inconclusive:
            log("INCONCLUSIVE %s: %s" % (r["h"]["name"], (r.get("why") or "")[:600]))
        return 2
    log("HELD property=%s harnesses=%d wall=%.0fs" % (prop, len(results), time.time() - t0))
    return 0


def repo_functions(goto):
    try:
        rc, out = sh(["goto-instrument", "--list-goto-functions", goto], env=PATHENV, timeout=120)
    except subprocess.TimeoutExpired:
        return []
    fns = set()
    for l in out.splitlines():
        m = re.match(r"^(\S.*?) /\* (\S+) \*/", l)
        n = m.group(1) if m else l.split(" ")[0]
        if re.search(r"asset_program|nifty_asset", n):
            fns.add(n)
    return sorted(fns)


def write_evidence(prop, tier, results, violations, findings, t0, t1, gotos):
    fns = []
    for g in gotos.values():
        fns += repo_functions(g)
    per = []
    tot = dict(queries=0, solver_s=0.0, symex_s=0.0, vccs=0, ssa_steps=0)
    asserts = 0
    for res in results:
        r = res.get("r") or {}
        mine = sorted(set(d for d, st in (r.get("tagged") or {}).values() if d.startswith("[%s]" % prop)))
        asserts += len(mine)
        tot["queries"] += r.get("queries", 0)
        tot["solver_s"] += r.get("solver", 0)
        tot["symex_s"] += r.get("symex", 0)
        tot["vccs"] += r.get("vccs", 0)
        tot["ssa_steps"] += r.get("steps", 0)
        per.append(dict(harness=res["h"]["name"], source="kani/%s/src/%s" % (res["h"]["crate"], res["h"]["file"]),
                        outcome=res["state"], assertions=mine,
                        panic_free=prop in res["h"]["nopanic"],
                        witnesses=sorted(d for d in (r.get("covers") or {}) if d.startswith("[%s]" % prop)),
                        unwind=r.get("unwind_bound"), vccs=r.get("vccs"), vccs_to_solver=r.get("remaining"),
                        sat_variables=r.get("variables"), sat_clauses=r.get("clauses"),
                        queries=r.get("queries"), solver_s=round(r.get("solver", 0), 3),
                        symex_s=round(r.get("symex", 0), 3), wall_s=round(r.get("wall", 0), 2)))
    props = {}
    p = os.path.join(VERIF, "properties.jsonl")
    if os.path.exists(p):
        for l in open(p):
            if l.strip():
                j = json.loads(l)
                props[j["id"]] = j
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="other",
              coverage=dict(
                  explanation="Bounded symbolic execution (Kani 0.68 encoding of the MIR of /repo's crates, "
                              "CBMC 6.11 + CaDiCaL). Each harness runs the real functions on symbolic accounts and "
                              "arguments; every listed assertion was decided by the SAT solver for all values within "
                              "the harness's bounds, unwinding assertions included, and the listed witnesses were shown reachable.",
                  harnesses=per, assertions_decided=asserts, totals=tot,
                  functions_encoded_count=len(fns), functions_encoded=fns[:400],
                  bounds="per harness: account sizes, extension layouts and argument shapes are the concrete ones written in the "
                         "harness; all keys, flags, balances, payload bytes and positions are symbolic; loops are unwound to the "
                         "stated bound with unwinding assertions on",
                  encode_s=round(t1 - t0, 1),
                  known_findings=[t for _, t in findings]),
              assumptions=["integer arithmetic wraps as in the release build that is deployed",
                           "System Program CPIs and runtime system calls behave as modelled in kani/patches/nitrate-program/src/system.rs and kani/asset/src/model.rs",
                           "enum and flag bytes of stored asset headers hold one of their declared values",
                           "a panic aborts the transaction and leaves the state unchanged"],
              wall_s=round(time.time() - t0, 1), violations=len(violations))
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    json.dump(ev, open(os.path.join(d, prop + ".json"), "w"), indent=1)


def main():
    a = sys.argv[1:]
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)     # one check at a time in one build folder
    if a and a[0] == "--setup":
        ensure_kani()
        for c in CRATES:
            try:
                codegen(c)
                build_replay(c)
            except Inconclusive as e:
                log("setup:", e)      # the checks themselves report it
        return 0
    if a and a[0] == "--list":
        t = harness_table()
        ps = {}
        for h in t.values():
            for p in h["props"]:
                ps.setdefault(p, []).append(h["name"])
        for p in sorted(ps):
            print(p, " ".join(ps[p]))
        return 0
    prop = a[0]
    tier = "quick"
    only = []
    i = 1
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]; i += 2
        elif a[i] == "--harness":
            only.append(a[i + 1]); i += 2
        else:
            raise SystemExit("unknown argument " + a[i])
    try:
        return check(prop, tier, only)
    except Inconclusive as e:
        log("INCONCLUSIVE", e)
        return 2
    except subprocess.TimeoutExpired as e:
        log("INCONCLUSIVE time-out in", e.cmd[:3])
        return 2


if __name__ == "__main__":
    sys.exit(main())
