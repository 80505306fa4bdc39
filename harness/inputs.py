"""Input files (C15): descriptions, rendering, running.  Validity is decided by InputSpec."""
import re

import bd

COEF = {2: "0 0 1.0\n2 0 0.5\n0 2 0.5\n", 3: "0 0 0 1.0\n2 0 0 0.5\n0 2 0 0.5\n0 0 2 0.5\n", 1: "0 1.0\n2 0.5\n"}


def formats(t):
    """can numbers be written with this printf-style format (empty: the default one is used)"""
    try:
        return t == "" or (t.count("%") > 0 and bool(t % ((1.5,) * t.count("%"))))
    except (TypeError, ValueError):
        return False


def token(t):
    t = t.strip()
    w = {"k": "word", "s": 0, "v": 0, "w": t, "b": t.lower(), "f": formats(t)}
    try:
        v = int(t)
        w.update(k="int", v=max(-10**6, min(10**6, v)), s=(v > 0) - (v < 0))
    except ValueError:
        try:
            f = float(t)
            w.update(k="float", s=(f > 0) - (f < 0))
        except ValueError:
            pass
    return w


class Desc:
    """sections: list of [name, list of [key, text]]; files: {name: content}"""

    def __init__(self):
        self.secs, self.files, self.style = [], {}, {}

    def sec(self, name):
        for s in self.secs:
            if s[0] == name:
                return s[1]
        return None

    def text(self):
        st = self.style
        out = []
        if st.get("comment"):
            out.append("# " + st["comment"])
        for name, opts in self.secs:
            out.append(f"[{name}]")
            for k, v in opts:
                kk = k.upper() if st.get("upper") else k
                out.append(kk + st.get("sep", ": ") + v)
            if st.get("blank", True):
                out.append("")
        return "\n".join(out) + "\n"

    def abstract(self):
        return {"secs": [n for n, _ in self.secs if n != "DEFAULT"],
                "opts": [{"sec": n, "key": k, "val": [token(t) for t in v.split(",")]}
                         for n, o in self.secs for k, v in o],
                "files": sorted(self.files)}


ALLKEYS = ["type", "timestep", "n_steps", "seed", "kt", "friction", "n_dim", "coeffs", "coeffs-file", "min",
           "max", "boundary-condition", "scaling-factor", "number", "mass", "initial-distribution",
           "fractions", "stride", "correction-variant", "approximation-variant", "exponential-factor",
           "recalculate-probabilities", "stats-stride", "stats-filename", "kernel-bandwidth", "filename",
           "momentum", "write-stride", "fmt", "reset", "bins", "plot-stride", "plot-filename",
           "plot-domain", "plot-title", "ld", "potential", "particles", "birth-death", "trajectories",
           "histogram", "fes", "delta-f", "particle-distribution"] + [
               f"pos{i}" for i in range(1, 10)] + [
               f"state{i}-{m}" for i in range(1, 10) for m in ("min", "max")]


def mentions(msg):
    return [k for k in ALLKEYS if re.search(r"(?<![\w\-])" + re.escape(k) + r"(?![\w\-])", msg)]


def run_case(d, cid):
    text = d.text()
    sc = bd.Script()
    r = bd.run_main(text, sc, dict(d.files))
    msg = r["err"] + "\n" + r["stderr"]
    return {"id": cid, "file": d.abstract(), "code": r["code"], "draws": sc.kinds.get("normal", 0),
            "mention": mentions(msg), "msg": re.sub(r'["\\]', "'", msg.strip().replace("\n", " "))[-300:],
            "_input": text, "_files": sorted(r["files"])}


# ------------------------------------------------------------------ generator
def base(rng):
    d = Desc()
    r = rng
    dim = r.choice([1, 1, 1, 2, 2, 3])
    mb = dim == 2 and r.random() < .3
    n = r.choice([1, 2, 3, 4, 5])
    fl = lambda lo, hi: r.choice([repr(round(r.uniform(lo, hi), 2)), str(r.randint(int(lo) or 1, max(1, int(hi))))])
    opt = lambda p=.5: r.random() < p
    ld = [["type", r.choice(["overdamped", "bussi-parinello"])], ["timestep", r.choice(["0.005", "1e-3", "0", ".01", "0.0"])],
          ["n_steps", str(r.choice([1, 2, 3, 5, 8]))]]
    if opt():
        ld.append(["seed", r.choice(["0", "1", "4242"])])
    if ld[0][1] == "bussi-parinello":
        ld += [["kt", r.choice(["1", "0.5", "2.0"])], ["friction", r.choice(["0", "10", "1.5"])]]
    elif opt(.3):
        ld.append(["kt", "1"])  # unknown to overdamped
    L = lambda f: ", ".join(f() for _ in range(dim)) if opt() else ",".join(f() for _ in range(dim))
    lo, hi = (lambda: r.choice(["-2", "-2.5", "-3.0"])), (lambda: r.choice(["2", "2.5", "3.0"]))
    if mb:
        pot = [["type", "mueller-brown"]]
        if opt():
            pot.append(["scaling-factor", r.choice(["0.1", "1", "2"])])
        if opt(.3):
            pot.append(["n_dim", "2"])
    else:
        pot = [["type", "polynomial"], ["n_dim", str(dim)], ["min", L(lo)], ["max", L(hi)]]
        if dim == 1 and opt(.8):
            pot.append(["coeffs", r.choice(["0, 0, 1", "0.2,0,-4,0,1", "0, -1.5, 2"])])
            if opt(.15):
                pot.append(["coeffs-file", "nofile"])  # not used
        else:
            fn = r.choice(["coeffs.data", "C"])
            d.files[fn] = COEF[dim]
            pot.append(["coeffs-file", fn])
    if opt():
        pot.append(["boundary-condition", r.choice(["periodic", "reflective"])])
    dist = r.choice(["random-global", "random-pos", "fractions-pos", "fractions-pos"])
    part = [["number", str(n)], ["initial-distribution", dist]]
    if opt():
        part.append(["seed", r.choice(["0", "7"])])
    if opt():
        part.append(["mass", r.choice(["1", "2.5", "0.1"])])
    if dist != "random-global" or opt(.2):
        m = r.choice([1, 2, 3])
        for i in range(m):
            part.append([f"pos{i+1}", L(lambda: r.choice(["-1", "0.5", "1.0", "0"]))])
        if dist == "fractions-pos" or opt(.2):
            part.append(["fractions", ", ".join(r.choice(["1", "0.5", "3"]) for _ in range(m))])
    d.secs = [["ld", ld], ["potential", pot], ["particles", part]]

    def writer(o, fn):
        if opt():
            o.append(["stride", str(r.choice([1, 2, 3]))])
        if opt():
            o.append(["write-stride", str(r.choice([1, 2, 6, 50]))])
        if opt(.7):
            o.append(["filename", fn])
        if opt(.4):
            o.append(["fmt", r.choice(["%.6f", "%14.9f", "%g", "%.3e"])])
        return o

    def states(o, m):
        for i in range(m):
            o.append([f"state{i+1}-min", L(lo)])
            o.append([f"state{i+1}-max", L(hi)])
        return o

    if opt():
        o = [["stride", str(r.choice([1, 2, 4]))],
             ["kernel-bandwidth", L(lambda: r.choice(["0.5", "1", "0.3"]))]]
        if opt(.3):
            o.append(["approximation-variant", r.choice(["orig", "original"] + (["add", "mult", "additive", "multiplicative"] if dim == 1 else []))])
        if opt(.3):
            o.append(["correction-variant", r.choice(["orig", "original"] + (["add", "mult", "additive", "multiplicative"] if dim == 1 else []))])
        if opt(.3):
            o.append(["exponential-factor", r.choice(["1", "0.5"])])
        if opt(.3):
            o.append(["recalculate-probabilities", r.choice(["true", "True", "no", "on", "0", "FALSE"])])
        if opt(.4):
            o.append(["stats-stride", str(r.choice([1, 2, 5]))])
        if opt(.3):
            o.append(["stats-filename", "stats"])
        if opt():
            o.append(["seed", r.choice(["0", "3"])])
        d.secs.append(["birth-death", o])
    lvl = r.choice([0, 1, 1, 2, 3, 4, 4])
    if lvl >= 1:
        o = writer([], "traj")
        if opt():
            o.append(["momentum", r.choice(["true", "yes", "False", "off"])])
        d.secs.append(["trajectories", o])
    if lvl >= 2:
        o = writer([["min", L(lo)], ["max", L(hi)], ["bins", L(lambda: r.choice(["3", "4", "5"]))]], "hist")
        if opt(.3):
            o.append(["reset", r.choice(["2", "1,3", "3, 5, 9"])])
        d.secs.append(["histogram", o])
    if lvl >= 3:
        o = writer([["kt", r.choice(["1", "0.5"])]], "fes")
        if opt(.06):
            o += [["plot-stride", "4"], ["plot-filename", "plot"]]
            if opt():
                o.append(["plot-domain", "0, 9"])
            if opt():
                o.append(["plot-title", "a title"])
        elif opt(.2):  # no plot without a name for it
            o.append(["plot-domain", r.choice(["0, 9", "0,2.5"])])
        d.secs.append(["fes", o])
    if lvl >= 4:
        d.secs.append(["delta-f", states(writer([], "df"), r.choice([2, 2, 3]))])
    if opt(.4):
        d.secs.append(["particle-distribution", states(writer([], "pd"), r.choice([1, 2, 3]))])
    return d


BADTYPE = {"int": ["2.5", "x", "1e3", "1,2", ""], "num": ["x", "1..0", "0.5;1", "--1", ""], "bool": ["maybe", "2", ""]}
INTS = {"n_steps", "seed", "n_dim", "number", "stride", "write-stride", "stats-stride", "reset", "bins", "plot-stride"}
WORDS = {"type", "boundary-condition", "initial-distribution", "approximation-variant", "correction-variant"}
STRS = {"filename", "stats-filename", "fmt", "plot-filename", "plot-title", "coeffs-file"}
BOOLS = {"momentum", "recalculate-probabilities"}
POSITIVE = {"n_steps", "number", "stride", "write-stride", "stats-stride", "reset", "bins", "kt", "mass",
            "kernel-bandwidth", "exponential-factor", "n_dim"}
NONNEG = {"timestep", "friction", "seed", "fractions"}
BADFMT = ["%14.9", "%q", "abc", "%", "%%", "14.9f", "%d %%", "%.3x", "{:.3f}"]


def mutate(rng, d):
    r = rng
    kind = r.choice(["dropopt", "dropopt", "dropsec", "type", "type", "range", "range", "name", "len", "len",
                     "num", "file", "listbad", "fmt"])
    allopts = [(s, i) for s in d.secs for i in range(len(s[1]))]
    pick = lambda ks: [(s, i) for s, i in allopts if s[1][i][0] in ks]
    if kind == "dropopt" and allopts:
        s, i = r.choice(allopts)
        del s[1][i]
    elif kind == "dropsec":
        d.secs.remove(r.choice(d.secs))
    elif kind == "type":
        s, i = r.choice(allopts)
        k = s[1][i][0]
        if k in WORDS | STRS:
            return
        s[1][i][1] = r.choice(BADTYPE["bool" if k in BOOLS else "int" if k in INTS else "num"])
    elif kind == "range":
        c = pick(POSITIVE | NONNEG)
        if c:
            s, i = r.choice(c)
            k, v = s[1][i]
            if k == "n_dim" and ["type", "mueller-brown"] in s[1]:
                return
            toks = v.split(",")
            j = r.randrange(len(toks))
            bad = ["-1", "-3"] if k in NONNEG else (["0", "-1", "4", "7"] if k == "n_dim" else ["0", "-1", "-2"])
            if k == "fractions" and r.random() < .4:
                toks = ["0"] * len(toks)
                bad = ["0", "0.0"]
            elif k not in INTS:
                bad += ["-0.5"] + ([] if k in NONNEG else ["0.0"])
            toks[j] = r.choice(bad)
            s[1][i][1] = ",".join(toks)
    elif kind == "fmt":
        c = pick({"fmt"})
        if c:
            s, i = r.choice(c)
            s[1][i][1] = r.choice(BADFMT + ["%s", "%+.2f", "%-12.4f", ""])
    elif kind == "name":
        c = pick(WORDS)
        if c:
            s, i = r.choice(c)
            v = s[1][i][1]
            s[1][i][1] = r.choice(["unknown", "", v + "s", v[:-1], v.replace("-", "_") if "-" in v else v + "x",
                                   v.upper(), "none"])
    elif kind in ("len", "listbad"):
        c = [(s, i) for s, i in allopts if s[1][i][0] in {"min", "max", "bins", "kernel-bandwidth", "fractions", "reset", "coeffs", "plot-domain"}
             or re.match(r"pos\d|state\d", s[1][i][0])]
        if c:
            s, i = r.choice(c)
            toks = s[1][i][1].split(",")
            if kind == "listbad":
                toks[r.randrange(len(toks))] = r.choice(["x", "", "1 2"])
            elif len(toks) > 1 and r.random() < .5:
                toks.pop(r.randrange(len(toks)))
            else:
                toks.append(toks[-1])
            s[1][i][1] = ",".join(toks)
    elif kind == "num":
        c = [(s, i) for s, i in allopts if re.match(r"pos\d|state\d", s[1][i][0])]
        if c:
            s, i = r.choice(c)
            if r.random() < .4:  # only some of the first ones are left
                pre = re.match(r"(pos|state)", s[1][i][0]).group(1)
                left = r.choice([0, 1, 1, 2])
                s[1][:] = [o for o in s[1] if not re.match(pre + r"\d", o[0])
                           or int(re.match(pre + r"(\d)", o[0]).group(1)) <= left]
            elif r.random() < .5:
                del s[1][i]
            else:  # another position / half a state
                k = s[1][i][0]
                m = re.match(r"(pos|state)(\d)(.*)", k)
                mx = max(int(re.match(r"(pos|state)(\d)", o[0]).group(2)) for o in s[1] if o[0].startswith(m.group(1)))
                s[1].append([m.group(1) + str(mx + 1) + m.group(3), s[1][i][1]])
    elif kind == "file" and d.files:
        for s, i in pick({"coeffs-file"}):
            s[1][i][1] = "missing.data"


def vary(rng, d):
    """variations that keep an input valid or not as it is"""
    r = rng
    if r.random() < .4:
        r.shuffle(d.secs)
    for s in d.secs:
        if r.random() < .3:
            r.shuffle(s[1])
        if r.random() < .15:
            s[1].append([r.choice(["comment", "unknown-option", "stride2", "author", "plot"]), r.choice(["x", "-1", "0, 1"])])
    if r.random() < .1:
        d.secs.append(["notes", [["stride", "x"], ["text", "hello"]]])
    if r.random() < .35:  # move options to DEFAULT
        for k in r.sample(["seed", "kt", "stride", "write-stride", "fmt", "mass", "n_steps", "timestep", "number"], 3):
            own = [s for s in d.secs if any(o[0] == k for o in s[1])]
            if own and d.sec("DEFAULT") is None:
                d.secs.insert(r.choice([0, len(d.secs)]), ["DEFAULT", []])
            if own and not any(o[0] == k for o in d.sec("DEFAULT")):
                s = r.choice(own)
                o = next(o for o in s[1] if o[0] == k)
                s[1].remove(o)
                d.sec("DEFAULT").append(o)
    d.style = {"sep": r.choice([": ", " = ", "=", ":"]), "upper": r.random() < .1,
               "comment": r.choice(["", "an input file", "[ld]"]), "blank": r.random() < .7}


def c15(rng, k, thorough):
    for q in range(k):
        d = base(rng)
        m = [0, 1, 1, 1, 2][q % 5]
        if m and rng.random() < .3:
            vary(rng, d)
            m = max(1, m)
        for _ in range(m):
            if d.secs:
                mutate(rng, d)
        if not m:
            vary(rng, d)
        seen = set()
        for s in d.secs:  # duplicates are a syntax error of the file format
            s[1][:] = [o for o in s[1] if not ((s[0], o[0]) in seen or seen.add((s[0], o[0])))]
        yield d


def single_faults(rng):
    """every option of every section of one rich input dropped / of wrong type / out of range"""
    for dim in (1, 2, 3):
        for what in ("drop", "type", "range", "section"):
            for _ in range(200):
                d = base(rng)
                if len(d.secs) >= 8 and any(o == ["n_dim", str(dim)] for o in d.sec("potential")):
                    break
            n = sum(len(s[1]) for s in d.secs) if what != "section" else len(d.secs)
            import copy
            if what == "drop":  # fewer states, positions
                for s in d.secs:
                    for pre in ("pos", "state"):
                        for left in (0, 1, 2) if any(re.match(pre + r"\d", o[0]) for o in s[1]) else ():
                            e = copy.deepcopy(d)
                            o = e.sec(s[0])
                            o[:] = [v for v in o if not re.match(pre + r"\d", v[0]) or int(re.match(pre + r"(\d)", v[0]).group(1)) <= left]
                            yield e
            for j in range(n):
                e = copy.deepcopy(d)
                if what == "section":
                    del e.secs[j]
                    yield e
                    continue
                s, i = [(s, i) for s in e.secs for i in range(len(s[1]))][j]
                key = s[1][i][0]
                if what == "drop":
                    del s[1][i]
                elif what == "type":
                    if key in WORDS:
                        s[1][i][1] = "unknown"
                    elif key in STRS:
                        continue
                    else:
                        s[1][i][1] = "abc"
                elif key in POSITIVE or key in NONNEG:
                    s[1][i][1] = ",".join(["-1"] * len(s[1][i][1].split(",")))
                elif key == "fmt":
                    s[1][i][1] = BADFMT[j % len(BADFMT)]
                elif key == "plot-domain":
                    s[1][i][1] = ["1", "0, 1, 2"][j % 2]
                else:
                    continue
                yield e
