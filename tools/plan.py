"""What each check drives and judges."""

MC = "model_checking"


def datum(profile, quick=90, thorough=2400, **more):
    return dict(dict(mode="datum", profile=profile, quick=quick, thorough=thorough), **more)


def structs(profile, quick=70, thorough=1500, **more):
    return dict(dict(mode="structs", spec="STrace", profile=profile, quick=quick, thorough=thorough), **more)


def public(profile, quick=30, thorough=600, **more):
    return dict(dict(mode="public", spec="PTrace", profile=profile, quick=quick, thorough=thorough), **more)


def indexes(quick=400, thorough=12000, **more):
    return dict(dict(mode="index", spec="ITrace", profile="all", quick=quick, thorough=thorough, chunk=600), **more)


def conc(profile, quick=200, thorough=6000, **more):
    return dict(dict(mode="conc", spec="Lin", profile=profile, quick=quick, thorough=thorough, chunk=100), **more)


def pconc(quick=60, thorough=2000, **more):
    return dict(dict(mode="pconc", spec="PTrace", profile="all", quick=quick, thorough=thorough, chunk=100), **more)


def replay(theme, quick=3000, thorough=60000, **more):
    return dict(dict(runner="replay", theme=theme, quick=quick, thorough=thorough), **more)


def sreplay(theme, quick=800, thorough=30000, **more):
    return dict(dict(runner="replay", model="SMC", replays="sreplay", spec="STrace", theme=theme, profile=theme, quick=quick, thorough=thorough), **more)


def preplay(theme, quick=500, thorough=15000, **more):
    return sreplay(theme, quick, thorough, replays="preplay", spec="PTrace", **more)


def beside(job, **more):
    return dict(job, runner="beside", **more)


DESIGN = dict(runner="design", quick=1, thorough=1)


NOTE = ("Every event of seeded random histories of the real code is judged by TLC against the specification's one exact answer; "
        "the histories are samples, the judgement is total. Trusts TLC, the Go toolchain, the harness's recording and the "
        "specification as reviewed against the documentation.")

PLAN = {
    "C01": dict(level=MC, jobs=[datum("atomic", 80), replay("unique", 1500), replay("schema", 1500), replay("entities", 1500), datum("long", 2, 60)]),
    "C02": dict(level=MC, jobs=[datum("snapshots", 80), replay("idents", 3000, profile="snaps"), replay("effects", 3000, profile="snaps"), datum("bulk", 5, 80), datum("long", 2, 60)]),
    "C03": dict(level=MC, jobs=[datum("effects", 80), replay("effects", 12000), datum("bulk", 5, 80), datum("crowd", 6, 60), datum("wide", 4, 120)]),
    "C04": dict(level=MC, jobs=[datum("cardinality", 80), replay("effects", 12000)]),
    "C05": dict(level=MC, jobs=[datum("unique", 80), replay("unique", 10000)]),
    "C06": dict(level=MC, jobs=[datum("temps", 80), replay("unify", 12000)]),
    "C07": dict(level=MC, jobs=[datum("unique", 80), replay("unique", 8000), replay("names", 3000)]),
    "C08": dict(level=MC, jobs=[datum("ids", 80), replay("unify", 8000), replay("entities", 3000), datum("bulk", 5, 80), datum("long", 2, 60)]),
    "C09": dict(level=MC, jobs=[datum("types", 80), replay("values", 8000)]),
    "C10": dict(level=MC, jobs=[datum("schema", 80), replay("schema", 15000), datum("wide", 4, 120)]),
    "C11": dict(level=MC, jobs=[datum("system", 80), replay("system", 15000)]),
    "C12": dict(level=MC, jobs=[datum("idents", 80), replay("idents", 9000), replay("names", 3000), datum("wide", 4, 120)]),
    "C13": dict(level=MC, jobs=[datum("queries", 60), replay("refs", 1500, queries=15000), replay("values", 1500, queries=10000), datum("bulk", 5, 80)]),
    "C14": dict(level=MC, jobs=[datum("queries", 60), replay("entities", 2000, queries=12000), datum("bulk", 5, 80), datum("crowd", 6, 60)]),
    "C15": dict(level=MC, jobs=[datum("queryrefs", 60), replay("refs", 1500, queries=20000), datum("wide", 4, 120)]),
    "C16": dict(level=MC, jobs=[datum("claimrefs", 80), replay("refs", 8000), replay("names", 6000)]),
    "C17": dict(level=MC, jobs=[datum("entities", 80), replay("entities", 12000), datum("bulk", 5, 80), datum("crowd", 6, 60)]),
    "C18": dict(level=MC, jobs=[datum("values", 60), replay("values", 8000, queries=10000)]),
    "C19": dict(level=MC, jobs=[DESIGN, conc("lazy", 250), conc("eager", 30, race=True), pconc(40)]),
    "C20": dict(level=MC, jobs=[DESIGN, conc("eager", 90, race=True), pconc(40, race=True)]),
    "C21": dict(level=MC, jobs=[indexes(500)]),
    "C22": dict(level=MC, jobs=[structs("roundtrip", 50), public("roundtrip", 20), structs("big", 12, 400), structs("huge", 16, 300), public("big", 6, 200), public("huge", 8, 150), sreplay("embed", 1500), sreplay("list", 700), preplay("embed", 800)]),
    "C23": dict(level=MC, jobs=[structs("graphs", 50), public("graphs", 20), structs("big", 12, 400), structs("huge", 16, 300), public("big", 6, 200), public("huge", 8, 150), sreplay("link", 1500), sreplay("map", 700), preplay("link", 800)]),
    "C24": dict(level=MC, jobs=[structs("updates", 75), public("updates", 40), sreplay("link", 1000), sreplay("embed", 1000), preplay("link", 800), structs("long", 1, 60), public("long", 2, 80)]),
    "C25": dict(level=MC, jobs=[structs("retracts", 75), public("retracts", 40), sreplay("link", 800), sreplay("map", 800), sreplay("embed", 800), preplay("embed", 800), structs("long", 1, 60), public("long", 2, 80)]),
    "C26": dict(level=MC, jobs=[structs("schemas", 85), public("schemas", 40)]),
    "C27": dict(level=MC, jobs=[structs("reads", 75), public("reads", 40), structs("big", 12, 400), structs("huge", 16, 300), sreplay("list", 1000), sreplay("map", 1000), preplay("map", 800)]),
    "C28": dict(level=MC, jobs=[public("public", 110), public("schemas", 30), pconc(25), preplay("link", 1200), preplay("list", 1000), preplay("map", 800), public("long", 2, 80)]),
    "C30": dict(level=MC, jobs=[datum("entities", 40), datum("atomic", 40), structs("updates", 35), structs("reads", 35), public("public", 40), public("retracts", 20)]),
    "C31": dict(level=MC, jobs=[beside(datum("idents", 48)), beside(datum("schema", 48)), beside(datum("bulk", 4, 60)), beside(structs("graphs", 24, 500)),
                                beside(public("public", 60), beside=5), beside(public("schemas", 30)), beside(indexes(60, 2000)),
                                beside(datum("effects", 24, 400), race=True, beside=6), beside(public("public", 30, 400), race=True, beside=6)]),
    "C32": dict(level=MC, jobs=[datum("queries", 30), datum("entities", 25), datum("snapshots", 25), datum("atomic", 25), datum("malformed", 15), indexes(150, 4000),
                                structs("graphs", 20, 500), structs("malformed", 15, 400), public("public", 40), public("schemas", 20), conc("lazy", 60, 2000), pconc(12, 400)]),
    "C29": dict(level=MC, jobs=[datum("malformed", 60), structs("malformed", 30), public("malformed", 40)]),
}

for _m in PLAN.values():
    _m.setdefault("note", NOTE)
