"""The checks, one per property of properties.jsonl."""
import gens
import api
import histories
import inputs
import sim
from framework import check, clauses, runs

OUT = dict(MaxStep=9, TStr="{1}", TWs="{2}", HStr="{0}", HWs="{0}", Resets=("NoResets",), FStr="{0}",
           FWs="{0}", FPs="{0}", DStr="{0}", DMul="{1}", PStr="{0}", PMul="{1}", Files="{TRUE}", MaxExtra=0)


def mcout(ctx, name, invs, **kw):
    ctx.design(name, "MCOut", dict(OUT, **kw), invs)


@check("C01")
def c01(ctx):
    big = ctx.thorough
    mcout(ctx, "design-trajectory-schedule", ["TrajExact", "TrajDue", "TrajDone"],
          TStr="{1,2,3,4,5,6}" if big else "{1,2,3,4}", TWs="{1,2,3,4,5,6,7}" if big else "{1,2,3,4,5}",
          MaxStep=15 if big else 10, MaxExtra=4 if big else 3)
    scs = list(gens.c01(ctx.rng(), 3150 if big else 1050, big))
    ctx.conform("trajectory-files", "TraceSim", runs(ctx, scs), clauses("traj"))
    exact_rows(ctx, "traj")
    long_runs(ctx, "traj")


def exact_rows(ctx, *kinds):
    ctx.conform("decimal-times", "TraceRows",
                numbered(sim.rows_case, list(gens.exact_rows(ctx.rng("rows"), 400 if ctx.thorough else 48)), ctx, 2), clauses(*kinds))


def long_runs(ctx, *kinds):
    """very many steps, very many walkers"""
    lens = [33500, 66500, 40000, 70001, 33000, 131500] if ctx.thorough else [33100 + ctx.rng("len").randrange(3000), 66000]
    scs = list(gens.long_runs(ctx.rng("long"), lens))
    scs += list(gens.wide_runs(ctx.rng("wide"), [1003, 1200, 2048, 1030] if ctx.thorough else [1003 + ctx.rng("len").randrange(60)]))
    if "stats" in kinds:
        scs += list(gens.busy_runs(ctx.rng("busy"), [(66, 17500), (110, 11000), (3, 70000)] if ctx.thorough else [(66, 17000)]))
    ctx.conform("long-runs", "TraceLong", numbered(sim.long_case, scs, ctx, 1), clauses(*kinds))


@check("C02")
def c02(ctx):
    big = ctx.thorough
    mcout(ctx, "design-record-schedule-pd", ["PdExact"], PStr="{0,1,2,3,4,5}", PMul="{1,2,3,4}",
          MaxStep=17 if big else 13)
    mcout(ctx, "design-record-schedule-df", ["DfExact"], TWs="{1,2,3}", HStr="{1,2}",
          FStr="{0,1,2,3}", DStr="{0,1,2,3}" if not big else "{0,1,2,3,4}", DMul="{1,2,3}",
          MaxStep=12 if big else 8)
    scs = list(gens.c02(ctx.rng(), 2250 if big else 750, big))
    ctx.conform("record-files", "TraceSim", runs(ctx, scs), clauses("dft", "pdt"))
    exact_rows(ctx, "df")
    long_runs(ctx, "pd", "df")


ALLOUT = ["TrajExact", "TrajDue", "TrajDone", "HistExact", "HistFiles", "FesExact", "FesFiles",
          "DfExact", "PdExact"]


@check("C03", "fault_enumeration")
def c03(ctx):
    big = ctx.thorough
    mcout(ctx, "design-crash-points", ALLOUT, TStr="{1,2}", TWs="{1,2,3}", HStr="{1,2}",
          HWs="{0,2,3}", Resets=("Resets1",), FStr="{0,1,2}", FWs="{0,1,2}", DStr="{0,2,3}", DMul="{1,2}",
          PStr="{0,2,3}" if big else "{3}", PMul="{1,2}", MaxStep=8 if big else 7)
    scs = list(gens.c03(ctx.rng(), 2250 if big else 750, big))
    ctx.conform("interrupted-runs", "TraceSim", runs(ctx, scs),
                clauses("traj", "hist", "fes", "dft", "dfv", "pdt", "pdv", "statt"))


@check("C04")
def c04(ctx):
    big = ctx.thorough
    mcout(ctx, "design-histogram", ["HistExact", "HistFiles"], TStr="{1,3}", TWs="{1,2,3,4}",
          HStr="{1,2,3,4}" if big else "{1,2,3}", HWs="{0,1,2,3}" if big else "{0,2,3}", Resets=("Resets2",) if big else ("Resets1",),
          Files="{TRUE,FALSE}", MaxExtra=1, MaxStep=10 if big else 7)
    scs = list(gens.c04(ctx.rng(), 2700 if big else 900, big))
    ctx.conform("histogram-files", "TraceSim", runs(ctx, scs), clauses("hist"))
    long_runs(ctx, "hist")


@check("C05")
def c05(ctx):
    big = ctx.thorough
    mcout(ctx, "design-fes-deltaf", ["FesExact", "FesFiles", "DfExact"], TWs="{1,2,3}", HStr="{1,2}",
          HWs="{0}", FStr="{0,1,2,3}", FWs="{0,1,2}", DStr="{0,1,2,3}", DMul="{1,2}",
          Resets=("Resets2",) if big else ("NoResets",), MaxStep=8 if big else 7)
    scs = list(gens.c05(ctx.rng(), 3150 if big else 1050, big))
    ctx.conform("free-energies", "TraceSim", runs(ctx, scs), clauses("fes", "dfv"))


@check("C23")
def c23(ctx):
    big = ctx.thorough
    mcout(ctx, "design-plots", ["FigsExact", "FesExact"], TWs="{1,2,3}", HStr="{1,2}", HWs="{0}",
          FStr="{0,1,2,3}", FPs="{0,1,2,3,4}", Resets=("Resets1",), MaxStep=9 if big else 7)
    scs = list(gens.c23(ctx.rng(), 2000 if big else 350, big))
    ctx.conform("plots", "TraceSim", runs(ctx, scs), clauses("figs"))


@check("C06")
def c06(ctx):
    mcout(ctx, "design-particle-distribution", ["PdExact"], PStr="{0,1,2,3}", PMul="{1,2,3}", MaxStep=9)
    scs = list(gens.c06(ctx.rng(), 4800 if ctx.thorough else 1600, ctx.thorough))
    ctx.conform("particle-distribution", "TraceSim", runs(ctx, scs), clauses("pdv"))
    long_runs(ctx, "pd")


BDINV = ["CountsExact", "RoundsExact", "StatSchedule", "EventBound", "AfterRound"]


def mcbd(ctx, name, invs, props, **kw):
    cs = dict(MaxStep=2, NW=3, Pos="{0, 512, 2048}", Strides="{1, 2}", StatStrides="{0, 2}",
              Us="{0, 20000, 5000000}", Modes="{0, 1}")
    cs.update(kw)
    ctx.design(name, "MCBd", cs, invs, props, spec="Spec")


@check("C07")
def c07(ctx):
    big = ctx.thorough
    mcbd(ctx, "design-population", ["EventBound"], ["PopulationKept", "OnlyCopies", "OnlyInRound"],
         **(dict(MaxStep=1, Strides="{1}", StatStrides="{0}", NW=4) if big else
            dict(MaxStep=1, Strides="{1}", StatStrides="{0}")))
    scs = list(gens.c07(ctx.rng(), 3150 if big else 1050, big))
    scs += list(gens.bd_many(ctx.rng("u"), 900 if big else 300, big))
    ctx.conform("population", "TraceSim", runs(ctx, scs), clauses("bdpop", "bdoff", "ldcopy"))
    ctx.conform("unequal-walkers", "TraceList",
                numbered(api.list_case, list(gens.unequal(ctx.rng("unequal"), 1500 if big else 300)), ctx))


@check("C08")
def c08(ctx):
    big = ctx.thorough
    mcbd(ctx, "design-decisions", BDINV, ["OnlyCopies"], MaxStep=1, Strides="{1}", StatStrides="{1}",
         Us="{0, 10000, 60000, 5000000}", Pos="{0, 256, 512, 2048, 4096}" if big else "{0, 512, 2048}")
    scs = list(gens.bd_many(ctx.rng(), 6000 if big else 1000, big))
    scs += list(gens.crowd(ctx.rng("crowd"), 1500 if big else 250, big))
    ctx.conform("decisions", "TraceSim", runs(ctx, scs), clauses("bd"))
    ctx.conform("densities", "TraceDens",
                numbered(api.density_case, list(gens.densities(ctx.rng("dens"), 1500 if big else 200)), ctx))
    ctx.conform("many-walkers", "TraceSites",
                numbered(sim.run_sites, list(gens.sites(ctx.rng("sites"), [10001, 10001, 9999] + [400, 1500, 3000] * 8 if big else [101, 500, 1001] * 3)), ctx, 1))
    # rounds in which every walker has an event of its own: which of them take place
    outcomes(ctx, gens.c09(ctx.rng("all"), 40 if big else 8, big, 4000 if big else 1500))
    outcomes(ctx, gens.event_counts(ctx.rng("ev"), [6, 7, 8, 10, 12, 16] * 4 if big else [6, 8, 12, 16], 8000 if big else 3000),
             "event-numbers")
    outcomes(ctx, gens.turns(ctx.rng("turn"), [3] * 24 + [4] * 8 if big else [3] * 8 + [4] * 2, 5000 if big else 2000), "every-turn")


def outcomes(ctx, scs, name="round-results"):
    ctx.conform(name, "Unbiased",
                ctx.map(sim.run_outcomes, [(s, i + 1) for i, s in enumerate(scs)], 1))


@check("C09")
def c09(ctx):
    big = ctx.thorough
    mcbd(ctx, "design-partners", ["EventBound"], ["OnlyCopies"], MaxStep=1, Strides="{1}",
         StatStrides="{0}", Us="{0, 5000000}")
    outcomes(ctx, gens.c09(ctx.rng(), 96 if big else 32, big))
    outcomes(ctx, gens.pairs(ctx.rng("pairs"), [3, 3, 3, 4, 4, 4, 6, 5] * (3 if big else 1), 6000 if big else 2500), "two-events")
    outcomes(ctx, gens.partners(ctx.rng("many"), [100, 100, 40, 70, 128, 90, 33, 65] if big else [100, 70], 8000 if big else 4500),
             "many-partners")


@check("C10")
def c10(ctx):
    big = ctx.thorough
    mcbd(ctx, "design-schedule", BDINV, ["OnlyInRound"], MaxStep=2 if big else 3, NW=3 if big else 2,
         Pos="{0, 512}", Us="{0, 5000000}", Strides="{1, 2, 3}", StatStrides="{0, 1, 2}")
    rng = ctx.rng()
    scs = []
    for sc in gens.bd_many(rng, 3150 if big else 1050, big, generic=False):
        if sc["n"] > 3 and rng.random() < .4:
            continue
        gens.add_traj(rng, sc, stride=1)
        gens.add_pd(rng, sc, stride=rng.choice([1, 2]), ws=2)
        scs.append(sc)
    ctx.conform("schedule-and-statistics", "TraceSim", runs(ctx, scs),
                clauses("bdoff", "bd", "stats", "statt", "traj", "pdv"))
    scs = list(gens.crowd(ctx.rng("crowd"), 120 if big else 24, big, recalc=False, steps=8))
    ctx.conform("large-populations", "TraceSites",
                numbered(sim.run_sites, list(gens.sites(ctx.rng("sites"), [300, 700, 1100, 9000, 10001] * 3 if big else [270, 300, 600, 1001] * 3, True)), ctx, 1))
    ctx.conform("large-counters", "TraceSim", runs(ctx, scs), clauses("bd", "stats", "statt"))
    long_runs(ctx, "stats")


@check("C22")
def c22(ctx):
    big = ctx.thorough
    mcbd(ctx, "design-decisions", BDINV, ["OnlyCopies"], MaxStep=1, Strides="{1}", StatStrides="{1}",
         Us="{0, 10000, 60000, 5000000}", Pos="{0, 512, 2048}", Modes="{0}")
    scs = list(gens.c22(ctx.rng(), 1200 if big else 220, big))
    ctx.conform("variants", "TraceSim", runs(ctx, scs, 1), clauses("bd"))
    ctx.conform("any-density", "TraceCorr",
                numbered(api.corr_case, list(gens.corrections(ctx.rng("corr"), 600 if big else 120)), ctx))


def numbered(fn, specs, ctx, chunk=4):
    return ctx.map(fn, [(s, i + 1) for i, s in enumerate(specs)], chunk)


@check("C11")
def c11(ctx):
    big = ctx.thorough
    ctx.design("design-integrators", "MCDyn", dict(MaxStep=1, NPs="{0, 512, 1024, 2048, 3072}" if big else "{0, 1024}"), ["TypeOk"],
               ["Verlet", "Euler", "NoInfluence"], spec="Spec")
    rng = ctx.rng()
    scs = list(gens.ld_many(rng, 7200 if big else 2400)) + list(gens.ld_bd(rng, 1080 if big else 360))
    ctx.conform("langevin-steps", "TraceSim", runs(ctx, scs), clauses("ld"))
    ctx.conform("any-parameters", "TraceTherm",
                numbered(sim.therm_case, list(gens.therms(ctx.rng("any"), 6000 if big else 1500)), ctx))


@check("C12")
def c12(ctx):
    big = ctx.thorough
    ctx.design("design-boundary", "MCBoundary",
               dict(NLos="{0, 3}", Lens="{1, 4}", NMoms="{0, 2, 3}", Dim=1,
                    NKicks="{7, 21, 26, 27, 29, 30, 31, 33, 37, 47}" if big else "{7, 26, 29, 30, 33, 47}"),
               [], ["Correct", "Inside", "Stable"], spec="Spec")
    ctx.design("design-boundary-2d", "MCBoundary",
               dict(NLos="{0, 3}", Lens="{1, 4}", NMoms="{0, 3}", Dim=2,
                    NKicks="{7, 26, 30, 33}" if big else "{7, 30, 33}"),
               [], ["Correct", "Inside", "Stable"], spec="Spec")
    rng = ctx.rng()
    ctx.conform("boundary-calls", "TraceBoundary",
                numbered(api.boundary_case, list(gens.bc_calls(rng, 4000 if big else 900)), ctx))
    scs = [s for b in (0, 1, 1, 2, 2) for s in gens.ld_many(rng, 500 if big else 120, bc=b)]
    ctx.conform("boundary-runs", "TraceSim", runs(ctx, scs), clauses("ld"))


@check("C13")
def c13(ctx):
    big = ctx.thorough
    ctx.design("design-gradient", "MCPot", dict(Exps="{0, 1, 2, 3}", Coefs="{1, 3}",
                                                Pts="{0, 1, 2, 3, 4}" if big else "{0, 1, 3}"), ["Gradient"])
    rng = ctx.rng()
    ctx.conform("potential-histories", "TracePot",
                numbered(api.pot_case, list(gens.c13(rng, 8400 if big else 2800, big)), ctx))
    scs = list(gens.ld_many(rng, 2400 if big else 800, bc=0))
    for s in scs:
        s["coeffile"] = True
    ctx.conform("forces-in-runs", "TraceSim", runs(ctx, scs), clauses("ld"))
    ctx.conform("any-coefficients", "TracePoly",
                numbered(api.poly_case, list(gens.polys(ctx.rng("poly"), 4000 if big else 600)), ctx))


@check("C14")
def c14(ctx):
    big = ctx.thorough
    ctx.design("design-fractions", "MCInit", dict(MaxN=12 if big else 9, MaxF=5 if big else 3, MaxPos=4),
               ["Total", "Shares", "Exact", "Walkers"])
    rng = ctx.rng()
    ctx.conform("initial-walkers", "TraceInit",
                numbered(sim.init_case, list(gens.c14(rng, 2250 if big else 750, big)), ctx))
    scs = []
    for s in gens.ld_many(rng, 1350 if big else 450):
        # all walkers at one position (the noise is then no longer steered: flat potential)
        s["pot"], s["bc"], s["nsteps"] = [], 0, 2
        s["init"] = [list(s["init"][0]) for _ in range(s["n"])]
        if s["ld"] == "b":
            s.update(dt=gens.F(1), mass=gens.F(1))
            s["fric"], s["kt"], s["c1"], s["c2"] = sim.thermostat("full", s["dt"], s["mass"])
        s["noise"] = sim.free_noise(rng, s)
        s["samepos"] = True
        scs.append(s)
    ctx.conform("independent-walkers", "TraceSim", runs(ctx, scs), clauses("ld"))


@check("C15")
def c15(ctx):
    big = ctx.thorough
    rng = ctx.rng()
    ctx.design("design-edits", "MCInput", dict(MaxEdits=2), ["BaseValid", "Sections", "Chain"],
               ["Harmless", "Optional", "NoRepair"], spec="Spec")
    ds = list(inputs.single_faults(rng)) + list(inputs.c15(rng, 20000 if big else 1800, big))
    ctx.conform("input-files", "TraceInput", numbered(inputs.run_case, ds, ctx))


@check("C16")
def c16(ctx):
    big = ctx.thorough
    ctx.design("design-directory", "MCDir", dict(Bases='{"a", "b"}', MaxRuns=3 if big else 2, MaxApp=1),
               ["NothingLost", "Latest", "OneEach", "AsRun"])
    ctx.conform("directories", "TraceDir",
                numbered(histories.dir_case, list(histories.c16(ctx.rng(), 3600 if big else 1200)), ctx))


@check("C17")
def c17(ctx):
    big = ctx.thorough
    ctx.design("design-streams", "MCStreams", dict(Seeds="{0, 1, 2}", NSteps=4 if big else 3, BdStride=2, Outs="{0, 1}"),
               ["Determined", "NoInfluence"])
    ctx.conform("repeated-runs", "TraceRuns",
                numbered(histories.runs_case, list(histories.c17(ctx.rng(), 1500 if big else 300, 240 if big else 80)), ctx, 1))


@check("C18")
def c18(ctx):
    big = ctx.thorough
    ctx.design("design-read-only-output", "MCStreams", dict(Seeds="{0, 1}", NSteps=5, BdStride=1, Outs="{0, 1, 2, 3}"),
               ["NoInfluence"])
    ctx.conform("other-output-sections", "TraceRuns",
                numbered(histories.runs_case, list(histories.c18(ctx.rng(), 3750 if big else 1250)), ctx, 1))


@check("C19")
def c19(ctx):
    big = ctx.thorough
    ctx.design("design-row-order", "MCFile", dict(MaxBins=4), ["RowMajor", "AllBins"])
    scs = list(gens.c19(ctx.rng(), 3600 if big else 1200, big))
    cases = runs(ctx, scs)
    ctx.conform("file-layout", "TraceFiles", [sim.layout_case(c, s, i + 1) for i, (c, s) in enumerate(zip(cases, scs))])
    ctx.conform("values-in-place", "TraceSim", cases, clauses("traj", "hist", "fes", "dfv", "pdv", "statt"))


@check("C20")
def c20(ctx):
    big = ctx.thorough
    ctx.design("design-grid-laws", "MCGrid", dict(MaxN=4 if big else 3, Vals="{0, 1024}" if not big else "{0, 512, 1024}"),
               ["Idx", "RowMajor", "AtPoints", "SparseKeeps", "SparseRange", "Commutes", "Within", "SubOfSame", "AddSub"])
    ctx.conform("grid-histories", "TraceGrid",
                numbered(api.grid_case, list(gens.c20(ctx.rng(), 8000 if big else 1530, big)), ctx))


@check("C21")
def c21(ctx):
    big = ctx.thorough
    ctx.design("design-walker-list", "MCList", dict(MaxOps=4 if big else 3, MaxLen=3, Lds="{0, 1}"),
               ["Rest"], ["OnlyThat", "Everyone"], spec="Spec")
    ctx.conform("walker-lists", "TraceList",
                numbered(api.list_case, list(gens.c21(ctx.rng(), 10800 if big else 3600, big)), ctx))
