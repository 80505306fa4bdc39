"""Running TLC."""
import json
import os
import re
import shutil
import subprocess
import tempfile

from bd import SCRATCH

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    pass


def run_tlc(module, cfg_text, files=None, timeout=800, workers="auto", heap="4g", extra=None):
    """run TLC on spec/<module>.tla with the given cfg text in a private directory

    files: {name: text} placed in that directory (traces).  Returns dict with out, states,
    distinct, ok, violated (name of invariant or None)
    """
    d = tempfile.mkdtemp(prefix="tlc_", dir=SCRATCH())
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
    with open(os.path.join(d, "run.cfg"), "w") as fh:
        fh.write(cfg_text)
    for n, t in (files or {}).items():
        with open(os.path.join(d, n), "w") as fh:
            fh.write(t)
    cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", f"-Djava.io.tmpdir={d}", "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-metadir", os.path.join(d, "meta"),
           "-config", "run.cfg", "-noGenerateSpecTE"] + (extra or []) + [module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, errors="replace")
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as e:
        raise MachineryError(f"TLC timeout on {module}") from e
    finally:
        shutil.rmtree(d, ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
    res = {"out": out, "rc": rc, "states": int(m[-1][0]) if m else 0,
           "distinct": int(m[-1][1]) if m else 0, "violated": None}
    v = re.search(r"Invariant (\w+) is violated", out)
    if v:
        res["violated"] = v.group(1)
    elif re.search(r"Action property (\w+)|Temporal properties were violated", out):
        res["violated"] = "property"
    res["ok"] = "Model checking completed. No error has been found" in out
    if not res["ok"] and res["violated"] is None:
        err = out.find("Error:")
        raise MachineryError(f"TLC failed on {module}:\n" + out[max(err, 0):][:5000])
    return res


LINE = re.compile(r'^<<"(ACCEPT|MISS)", (.*)>>$')


def run_trace(module, cases, constants="", timeout=800, workers="auto", heap="6g", init="Init",
              nxt="Next", invs=(), extra_cfg=""):
    """validate the cases (list of dicts with 'id') with a trace spec

    The trace spec prints <<"ACCEPT", id>> for cases with an accepting path and
    <<"MISS", id, clause, detail>> where a comparison failed.  Returns (verdicts, stats):
    verdicts[id] = None if accepted, else list of (clause, detail)
    """
    cfg = f"INIT {init}\nNEXT {nxt}\nCHECK_DEADLOCK FALSE\n"
    if constants:
        cfg += "CONSTANTS\n" + constants + "\n"
    for i in invs:
        cfg += f"INVARIANT {i}\n"
    cfg += extra_cfg
    text = "".join(json.dumps(c) + "\n" for c in cases)
    r = run_tlc(module, cfg, {"trace.ndjson": text}, timeout, workers, heap)
    acc, miss, at = set(), {}, {}
    buf = ""
    for line in r["out"].split("\n"):
        # TLC wraps long tuples over several lines
        if buf:
            buf += " " + line.strip()
        elif line.startswith('<<"AT"'):
            m = re.match(r'<<"AT", (\d+), "(\w+)", (\d+)', line)
            if m:
                k = int(m.group(1))
                at[k] = max(at.get(k, (0, "")), (int(m.group(3)), m.group(2)))
            continue
        elif line.startswith('<<"ACCEPT"') or line.startswith('<< "ACCEPT"') or \
                line.startswith('<<"MISS"') or line.startswith('<< "MISS"'):
            buf = line.strip()
        else:
            continue
        if buf.count("<<") <= buf.count(">>"):
            m = re.match(r'<<\s*"(ACCEPT|MISS)",\s*(\d+)\s*,?\s*(.*?)\s*>>$', buf)
            if not m:
                raise MachineryError("unreadable verdict: " + buf)
            if m.group(1) == "ACCEPT":
                acc.add(int(m.group(2)))
            else:
                miss.setdefault(int(m.group(2)), []).append(m.group(3))
            buf = ""
    verd = {}
    for c in cases:
        if c["id"] in acc:
            verd[c["id"]] = None
        elif c["id"] in miss:
            verd[c["id"]] = sorted(set(miss[c["id"]]))[:6]
        elif c["id"] in at:  # the inference found no explanation
            verd[c["id"]] = [f'"unexplained-{at[c["id"]][1]}", {at[c["id"]][0]}']
        else:
            raise MachineryError(f"{module}: no verdict for case {c['id']}\n" + r["out"][-3000:])
    if r["violated"]:
        raise MachineryError(f"{module}: invariant {r['violated']} violated in trace run\n" + r["out"][-3000:])
    return verd, r
