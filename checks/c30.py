"""C30: an invalid model is refused with a validation error, and the corresponding valid model is accepted."""

import copy
from datetime import datetime

from checks.c13 import chart
from checks.c28 import refused
from checks.fluid import patched, service
from checks.model import GENSET_FILE, asset_result, consumer, doc, el, fuel, installation, make_model, years
from engine.runner import harness

ASSUMPTIONS = ["input files are handed over in memory instead of being read from CSV text"]
OUTSIDE = "wrong models other than the listed ones (each is one change of the same valid model); YAML text that cannot be parsed; unreadable files"

TURBINE = {"NAME": "turb", "TYPE": "TURBINE", "LOWER_HEATING_VALUE": 38.0, "TURBINE_LOADS": [0.0, 10.0, 20.0], "TURBINE_EFFICIENCIES": [0.0, 0.3, 0.4]}
WITH = {"NAME": "ct", "TYPE": "COMPRESSOR_WITH_TURBINE", "COMPRESSOR_MODEL": "comp", "TURBINE_MODEL": "turb"}
FILES = {
    **GENSET_FILE,
    "tab.csv": {"X": [0.0, 10.0, 20.0], "POWER": [0.0, 1.0, 3.0]},
    "comp.csv": {"RATE": [1e6, 2e6, 5e6], "POWER": [3.0, 8.0, 11.0]},
    "pc.csv": chart("single"),
}
INPUTS = [
    {"NAME": "tab", "FILE": "tab.csv", "TYPE": "TABULAR"},
    {"NAME": "comp", "FILE": "comp.csv", "TYPE": "COMPRESSOR_TABULAR"},
    {"NAME": "pc", "FILE": "pc.csv", "TYPE": "PUMP_CHART_SINGLE_SPEED", "UNITS": {"HEAD": "M", "EFFICIENCY": "PERCENTAGE"}},
]
D0, D1, D2, D3 = (datetime(y, 1, 1) for y in (2019, 2020, 2021, 2022))
LATER = datetime(2030, 1, 1)


def setting(kind="pump", **k):
    return {"RATE_FRACTIONS": [0.5, 0.5], "SUCTION_PRESSURE": 10.0, "DISCHARGE_PRESSURE": 60.0, **k}


def pump_system(**k):
    return {"TYPE": "PUMP_SYSTEM", "PUMPS": [{"NAME": "p1", "CHART": "pc"}, {"NAME": "p2", "CHART": "pc"}], "FLUID_DENSITY": 1000, "TOTAL_SYSTEM_RATE": 4000, "OPERATIONAL_SETTINGS": [setting()], **k}


def comp_system(**k):
    return {"TYPE": "COMPRESSOR_SYSTEM", "COMPRESSORS": [{"NAME": "c1", "COMPRESSOR_MODEL": "comp"}, {"NAME": "c2", "COMPRESSOR_MODEL": "comp"}], "TOTAL_SYSTEM_RATE": 4e6, "OPERATIONAL_SETTINGS": [setting()], **k}


def model():
    """a valid model with a component of every kind"""
    direct = {"NAME": "vent", "CATEGORY": "COLD-VENTING-FUGITIVE", "TYPE": "DIRECT_EMISSION", "EMISSIONS": [{"NAME": "ch4", "RATE": {"VALUE": "SIM;V", "UNIT": "KG_PER_DAY"}}]}
    a = installation("A", genset_consumers=[
        consumer("load", el("SIM;LOAD")),
        consumer("tabulated", {"TYPE": "TABULATED", "ENERGYFUNCTION": "tab", "VARIABLES": [{"NAME": "X", "EXPRESSION": 5}]}),
        consumer("compressor", {"TYPE": "COMPRESSOR", "ENERGYFUNCTION": "comp", "RATE": 2e6, "SUCTION_PRESSURE": 10, "DISCHARGE_PRESSURE": 60}, "COMPRESSOR"),
        consumer("pump", {"TYPE": "PUMP", "ENERGYFUNCTION": "pc", "RATE": 2000, "SUCTION_PRESSURE": 10, "DISCHARGE_PRESSURE": 60, "FLUID_DENSITY": 1000}, "PUMP"),
        consumer("pumps", pump_system(), "PUMP"),
        consumer("compressors", comp_system(), "COMPRESSOR"),
    ], fuel_consumers=[consumer("flare", fuel("SIM;FUEL"), "FLARE"), consumer("turbine", {"TYPE": "COMPRESSOR", "ENERGYFUNCTION": "ct", "RATE": 2e6, "SUCTION_PRESSURE": 10, "DISCHARGE_PRESSURE": 60}, "COMPRESSOR")], venting=[direct])
    b = installation("B", fuel_consumers=[consumer("flare2", fuel("SIM;FUEL {*} 2"), "FLARE")])
    return copy.deepcopy(doc([a, b], inputs=INPUTS, models=[TURBINE, WITH], VARIABLES={"twice": {"VALUE": "SIM;LOAD {*} 2"}}, end=D3)), {k: dict(v) for k, v in FILES.items()}


def part(d, name):
    """the part of the document with the name"""
    found = []

    def walk(x):
        if isinstance(x, dict):
            if x.get("NAME") == name:
                found.append(x)
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)

    walk(d)
    return found[0]


def eum(d, name):
    return part(d, name)["ENERGY_USAGE_MODEL"]


def put(name, key, value):
    return lambda d, f: part(d, name).__setitem__(key, value)


def eput(name, key, value):
    return lambda d, f: eum(d, name).__setitem__(key, value)


def drop(name, *keys):
    return lambda d, f: [part(d, name).pop(k) for k in keys]


def sput(name, **k):
    """keys of the system's setting, None to drop them"""

    def edit(d, f):
        s = eum(d, name)["OPERATIONAL_SETTINGS"][0]
        for key, v in k.items():
            s.pop(key) if v is None else s.__setitem__(key, v)

    return edit


def file(name, **cols):
    return lambda d, f: f.__setitem__(name, cols)


def dated(name, key, *dates):
    """the value from each of the dates"""
    return lambda d, f: part(d, name).__setitem__(key, {t: copy.deepcopy(part(d, name)[key]) for t in dates})


def add(key, value):
    return lambda d, f: d.setdefault(key, []).append(value)


def both(*fs):
    return lambda d, f: [g(d, f) for g in fs]


def run(ctx, edit):
    n = 2
    load, fl, v = ctx.real("load", 0, 20), ctx.real("fuel", 0, 1e5), ctx.real("v", 0, 1e5)
    d, files = model()
    edit(d, files)
    cols = {"LOAD": [load, 1.0], "FUEL": [fl, 0.0], "V": [v, 2.0]}
    m = make_model(d, columns=cols, dates=years(n), facility=files)
    m.validate_for_run()
    return m, load, fl, v


def accepted(ctx, edit):
    m, load, fl, v = run(ctx, edit)
    m.evaluate_energy_usage()
    r = {c.name: c for c in asset_result(m).sub_components}
    if "load" in r:
        ctx.eq(r["load"].energy_usage.to_stream_day().values[0], load, "the load is as given")
    if "flare" in r:
        ctx.eq(r["flare"].energy_usage.to_stream_day().values[0], fl, "the fuel is as given")
    if "vent" in r:
        ctx.eq(r["vent"].emissions["ch4"].rate.to_stream_day().values[0], v / 1000, "the vented amount is as given")
    return r


COMPONENTS = ["A", "B", "gs_A", "load", "tabulated", "compressor", "pump", "pumps", "compressors", "flare", "turbine", "flare2", "vent"]


@harness("any two components of the same name, or the model's: refused; a new name: accepted; any load, fuel and vented amount", budget_s=90, max_paths=2000)
def component_names(ctx):
    one = ctx.choice("component", COMPONENTS)
    other = ctx.choice("name", [x for x in COMPONENTS if x != one] + ["new name", "model"])
    if other == "model":
        m = run(ctx, lambda d, f: None)[0]
        other = m._configuration.name
    edit = put(one, "NAME", other)
    if other == "new name":
        r = accepted(ctx, edit)
        ctx.same(sorted(r), sorted([other if c == one else c for c in COMPONENTS] + [x for x in r if x == "model"]), "every component is reported by its name")
    else:
        refused(ctx, lambda: run(ctx, edit), "two components of the same name are refused")


REFERENCES = ["genset", "tab", "comp", "pc", "turb", "ct", "gas"]


@harness("any two inputs, models or fuels of the same name: refused; names of components and variables do not matter", budget_s=40)
def reference_names(ctx):
    one = ctx.choice("what", ["input", "model", "fuel"])
    name = ctx.choice("name", REFERENCES + ["new name", "load", "SIM", "twice"])
    item = {"input": {"NAME": name, "FILE": "tab.csv", "TYPE": "TABULAR"}, "model": {**TURBINE, "NAME": name}, "fuel": {"NAME": name, "EMISSIONS": [{"NAME": "co2", "FACTOR": 2.0}]}}[one]
    edit = add({"input": "FACILITY_INPUTS", "model": "MODELS", "fuel": "FUEL_TYPES"}[one], item)
    if name in REFERENCES:
        refused(ctx, lambda: run(ctx, edit), "two references of the same name are refused")
    else:
        accepted(ctx, edit)


TYPES = {"genset": "ELECTRICITY2FUEL", "tab": "TABULAR", "comp": "COMPRESSOR_TABULAR", "pc": "PUMP", "turb": "TURBINE", "ct": "COMPRESSOR_WITH_TURBINE", "gas": "FUEL", "nope": None}
USES = {
    "generator set": (put, "gs_A", "ELECTRICITY2FUEL", {"genset"}),
    "tabulated": (eput, "tabulated", "ENERGYFUNCTION", {"tab"}),
    "compressor": (eput, "compressor", "ENERGYFUNCTION", {"comp"}),
    "fuel compressor": (eput, "turbine", "ENERGYFUNCTION", {"ct"}),
    "pump": (eput, "pump", "ENERGYFUNCTION", {"pc"}),
    "turbine's compressor": (put, "ct", "COMPRESSOR_MODEL", {"comp"}),
    "turbine": (put, "ct", "TURBINE_MODEL", {"turb"}),
    "compressor of a system": (lambda n, k, v: lambda d, f: eum(d, n)["COMPRESSORS"][1].__setitem__(k, v), "compressors", "COMPRESSOR_MODEL", {"comp"}),
    "pump of a system": (lambda n, k, v: lambda d, f: eum(d, n)["PUMPS"][1].__setitem__(k, v), "pumps", "CHART", {"pc"}),
    "fuel": (put, "A", "FUEL", {"gas"}),
    "fuel of a consumer": (put, "flare", "FUEL", {"gas"}),
    "fuel of a generator set": (put, "gs_A", "FUEL", {"gas"}),
}


@harness("every use of a reference x every reference: of the right kind accepted, of another kind or unknown refused", budget_s=60)
def references(ctx):
    use = ctx.choice("use", list(USES))
    ref = ctx.choice("reference", list(TYPES))
    if (use, ref) in {("pump", "tab"), ("pump of a system", "tab")}:
        return  # accepted as a type, but not a pump chart
    how, name, key, right = USES[use]
    edit = how(name, key, ref)
    if ref in right:
        accepted(ctx, edit)
    else:
        refused(ctx, lambda: run(ctx, edit), "a reference of the wrong kind, or to nothing, is refused")


WRONG = {
    "installation without consumers": lambda d, f: part(d, "B").pop("FUELCONSUMERS"),
    "generator set without consumers": put("gs_A", "CONSUMERS", []),
    "no fuel anywhere": lambda d, f: [part(d, "A").pop("FUEL")],
    "unknown variable": eput("load", "LOAD", "$var.nope"),
    "unknown time series": eput("load", "LOAD", "NOPE;LOAD"),
    "unknown column": eput("load", "LOAD", "SIM;NOPE"),
    "malformed expression": eput("load", "LOAD", "SIM;LOAD {+}"),
    "unknown keyword": put("load", "NOPE", 1),
    "unknown category": put("load", "CATEGORY", "NOPE"),
    "unknown venting category": put("vent", "CATEGORY", "NOPE"),
    "unknown installation category": put("A", "CATEGORY", "NOPE"),
    "unknown type of model": eput("load", "TYPE", "NOPE"),
    "no load": lambda d, f: eum(d, "load").pop("LOAD"),
    "condition and conditions": lambda d, f: eum(d, "load").update(CONDITION="SIM;V > 1", CONDITIONS=["SIM;V > 1"]),
    "cable loss without power from shore": put("gs_A", "CABLE_LOSS", 0.1),
    "maximum usage without power from shore": put("gs_A", "MAX_USAGE_FROM_SHORE", 10),
    "regularity above 1": put("A", "REGULARITY", 1.1),
    "negative regularity": put("A", "REGULARITY", -0.1),
    "regularity above 1 in a year": put("A", "REGULARITY", {D1: 0.9, D2: 1.5}),
    "two emissions of a fuel of the same name": put("gas", "EMISSIONS", [{"NAME": "co2", "FACTOR": 2.0}, {"NAME": "co2", "FACTOR": 1.0}]),
    "electricity from a compressor with turbine": eput("compressor", "ENERGYFUNCTION", "ct"),
    "fuel consumer of a table of power": lambda d, f: part(d, "B")["FUELCONSUMERS"].append(consumer("t2", eum(d, "tabulated"))),
    "electric load given as fuel": put("load", "ENERGY_USAGE_MODEL", fuel("SIM;FUEL")),
    "fuel given as electric load": put("flare", "ENERGY_USAGE_MODEL", el("SIM;LOAD")),
    "model type changes over time": put("load", "ENERGY_USAGE_MODEL", {D1: el("SIM;LOAD"), D2: {"TYPE": "TABULATED", "ENERGYFUNCTION": "tab", "VARIABLES": [{"NAME": "X", "EXPRESSION": 5}]}}),
    "dates out of order": put("load", "ENERGY_USAGE_MODEL", {D2: el("SIM;LOAD"), D1: el(1)}),
    "dates of the fuel out of order": put("flare", "FUEL", {D2: "gas", D1: "gas"}),
    "dates of the generator set out of order": put("gs_A", "ELECTRICITY2FUEL", {D2: "genset", D1: "genset"}),
    "dates of the regularity out of order": put("A", "REGULARITY", {D2: 1, D1: 0.5}),
    "dates out of order, the last before the start": put("load", "ENERGY_USAGE_MODEL", {D2: el("SIM;LOAD"), D0: el(1)}),
    "dates of the generator set out of order, the last before the start": put("gs_A", "ELECTRICITY2FUEL", {D2: "genset", D0: "genset"}),
    "dates out of order after the end": put("load", "ENERGY_USAGE_MODEL", {D1: el("SIM;LOAD"), LATER: el(1), D3: el(2)}),
    "dates of the export out of order": put("A", "HCEXPORT", {D2: 1, D1: 2}),
    "dates of the category out of order": put("gs_A", "CATEGORY", {D2: "TURBINE-GENERATOR", D1: "TURBINE-GENERATOR"}),
    "something other than dates": put("load", "ENERGY_USAGE_MODEL", {D1: el("SIM;LOAD"), "later": el(1)}),
    "fuel starts after the consumer": put("flare", "FUEL", {D2: "gas"}),
    "fuel starts after the generator set": put("gs_A", "FUEL", {D2: "gas"}),
    "missing file": lambda d, f: f.pop("tab.csv"),
    "missing file of the generator set": lambda d, f: f.pop("genset.csv"),
    "missing file of a compressor": lambda d, f: f.pop("comp.csv"),
    "missing file of a pump": lambda d, f: f.pop("pc.csv"),
    "generator set table without fuel": file("genset.csv", POWER=[0.0, 10.0], X=[0.0, 1e5]),
    "generator set table without power": file("genset.csv", X=[0.0, 10.0], FUEL=[0.0, 1e5]),
    "generator set table with more columns": file("genset.csv", POWER=[0.0, 10.0], FUEL=[0.0, 1e5], X=[1.0, 2.0]),
    "generator set table of unequal columns": file("genset.csv", POWER=[0.0, 10.0, 20.0], FUEL=[0.0, 1e5]),
    "generator set table with text": file("genset.csv", POWER=[0.0, 10.0], FUEL=[0.0, "abc"]),
    "table without power or fuel": file("tab.csv", X=[0.0, 1.0], Y=[0.0, 1.0]),
    "table of unequal columns": file("tab.csv", X=[0.0, 1.0, 2.0], POWER=[0.0, 1.0]),
    "table with text": file("tab.csv", X=[0.0, "abc"], POWER=[0.0, 1.0]),
    "table without the variable": file("tab.csv", Y=[0.0, 10.0], POWER=[0.0, 1.0]),
    "variable that is not in the table": lambda d, f: eum(d, "tabulated")["VARIABLES"].append({"NAME": "Z", "EXPRESSION": 1}),
    "compressor table without power or fuel": file("comp.csv", RATE=[1e6, 2e6]),
    "compressor table without variables": file("comp.csv", POWER=[1.0, 2.0]),
    "compressor table of unequal columns": file("comp.csv", RATE=[1e6, 2e6, 3e6], POWER=[1.0, 2.0]),
    "compressor table with text": file("comp.csv", RATE=[1e6, "abc"], POWER=[1.0, 2.0]),
    "compressor table with text in one of two variables": file("comp.csv", RATE=[1e6, "abc"], DISCHARGE_PRESSURE=[50.0, 60.0], POWER=[1.0, 2.0]),
    "compressor table with a negative value": file("comp.csv", RATE=[-1.0, 1e6], POWER=[1.0, 2.0]),
    "pump chart of a single point": file("pc.csv", RATE=[100.0], HEAD=[100.0], EFFICIENCY=[70.0]),
    "pump chart without head": file("pc.csv", RATE=[100.0, 200.0], EFFICIENCY=[70.0, 70.0]),
    "pump chart without efficiency": file("pc.csv", RATE=[100.0, 200.0], HEAD=[100.0, 90.0]),
    "pump chart with efficiency above 100 %": file("pc.csv", RATE=[100.0, 200.0], HEAD=[100.0, 90.0], EFFICIENCY=[70.0, 120.0]),
    "pump chart with negative efficiency": file("pc.csv", RATE=[100.0, 200.0], HEAD=[100.0, 90.0], EFFICIENCY=[-1.0, 70.0]),
    "pump chart of unequal columns": file("pc.csv", RATE=[100.0, 200.0, 300.0], HEAD=[100.0, 90.0], EFFICIENCY=[70.0, 70.0]),
    "pump chart with text": file("pc.csv", RATE=[100.0, 200.0], HEAD=[100.0, "abc"], EFFICIENCY=[70.0, 70.0]),
    "single speed chart with two speeds": file("pc.csv", SPEED=[1.0, 2.0], RATE=[100.0, 200.0], HEAD=[100.0, 90.0], EFFICIENCY=[70.0, 70.0]),
    "turbine of unequal lists": put("turb", "TURBINE_LOADS", [0.0, 10.0]),
    "turbine efficiency above 1": put("turb", "TURBINE_EFFICIENCIES", [0.0, 0.5, 1.01]),
    "negative turbine efficiency": put("turb", "TURBINE_EFFICIENCIES", [-0.01, 0.3, 0.4]),
    "pressures both ways": sput("pumps", SUCTION_PRESSURES=[10.0, 10.0]),
    "discharge pressures both ways": sput("compressors", DISCHARGE_PRESSURES=[60.0, 60.0]),
    "no suction pressure": sput("pumps", SUCTION_PRESSURE=None),
    "no discharge pressure": sput("compressors", DISCHARGE_PRESSURE=None),
    "no rates": sput("compressors", RATE_FRACTIONS=None),
    "rate fractions but no total rate": lambda d, f: eum(d, "pumps").pop("TOTAL_SYSTEM_RATE"),
    "too few rate fractions": sput("pumps", RATE_FRACTIONS=[1.0]),
    "too many rate fractions": sput("compressors", RATE_FRACTIONS=[0.5, 0.3, 0.2]),
    "too few rates": sput("compressors", RATE_FRACTIONS=None, RATES=[2e6]),
    "too many rates of pumps": sput("pumps", RATE_FRACTIONS=None, RATES=[1e3, 1e3, 1e3]),
    "too few suction pressures": sput("pumps", SUCTION_PRESSURE=None, SUCTION_PRESSURES=[10.0]),
    "too many suction pressures": sput("compressors", SUCTION_PRESSURE=None, SUCTION_PRESSURES=[10.0] * 3),
    "too few discharge pressures": sput("compressors", DISCHARGE_PRESSURE=None, DISCHARGE_PRESSURES=[60.0]),
    "too many discharge pressures": sput("pumps", DISCHARGE_PRESSURE=None, DISCHARGE_PRESSURES=[60.0] * 3),
    "too few densities": sput("pumps", FLUID_DENSITIES=[1000.0]),
    "no settings": lambda d, f: eum(d, "pumps").__setitem__("OPERATIONAL_SETTINGS", []),
    "two pumps of the same name": lambda d, f: eum(d, "pumps")["PUMPS"][1].__setitem__("NAME", "p1"),
    "two compressors of the same name": lambda d, f: eum(d, "compressors")["COMPRESSORS"][1].__setitem__("NAME", "c1"),
    "too few cross-overs": sput("compressors", CROSSOVER=[0]),
    "negative cross-over": sput("compressors", CROSSOVER=[-1, 0]),
    "compressor with turbine of a system without its compressor": both(put("ct", "COMPRESSOR_MODEL", "nope"), lambda d, f: eum(d, "compressors")["COMPRESSORS"][1].__setitem__("COMPRESSOR_MODEL", "ct")),
    "cross-over to an unknown consumer": sput("compressors", CROSSOVER=[3, 0]),
    "suction pressure of zero": eput("pump", "SUCTION_PRESSURE", 0),
    "suction above discharge pressure": eput("compressor", "SUCTION_PRESSURE", 70),
    "negative discharge pressure": eput("pump", "DISCHARGE_PRESSURE", -1),
    "negative fuel": eput("flare", "FUELRATE", -1),
    "end before start": lambda d, f: d.update(END=datetime(2019, 1, 1)),
    "two time series of the same name": add("TIME_SERIES", {"NAME": "SIM", "TYPE": "DEFAULT", "FILE": "SIM.csv"}),
    "two variables that need each other": lambda d, f: d.update(VARIABLES={"x": {"VALUE": "$var.y"}, "y": {"VALUE": "$var.x"}}),
    "variable that needs an unknown one": lambda d, f: d.update(VARIABLES={"x": {"VALUE": "$var.nope {+} 1"}}),
}
RIGHT = {
    "the model itself": lambda d, f: None,
    "installation of venting only": lambda d, f: part(d, "B").update(VENTING_EMITTERS=[{**part(d, "vent"), "NAME": "vent2"}]) or part(d, "B").pop("FUELCONSUMERS"),
    "power from shore": both(put("gs_A", "CATEGORY", "POWER-FROM-SHORE"), put("gs_A", "CABLE_LOSS", 0.1), put("gs_A", "MAX_USAGE_FROM_SHORE", 10)),
    "power from shore later": both(put("gs_A", "CATEGORY", {D1: "TURBINE-GENERATOR", D2: "POWER-FROM-SHORE"}), put("gs_A", "CABLE_LOSS", 0.1)),
    "condition": eput("load", "CONDITION", "SIM;V >= 0"),
    "conditions": eput("load", "CONDITIONS", ["SIM;V >= 0", "SIM;LOAD >= 0"]),
    "regularity of 0": put("B", "REGULARITY", 0),
    "regularity of 1": put("A", "REGULARITY", 1),
    "dated regularity": put("A", "REGULARITY", {D1: 0.5, D2: 1}),
    "dated model": dated("load", "ENERGY_USAGE_MODEL", D1, D2),
    "model dated before the start": dated("load", "ENERGY_USAGE_MODEL", D0, D2),
    "consumer that starts later": dated("tabulated", "ENERGY_USAGE_MODEL", D2),
    "consumer that never starts": dated("tabulated", "ENERGY_USAGE_MODEL", LATER),
    "fuel consumer that never starts": dated("turbine", "ENERGY_USAGE_MODEL", LATER),
    "dated fuel": put("flare", "FUEL", {D1: "gas", D2: "gas"}),
    "fuel dated before the start": put("flare", "FUEL", {D0: "gas"}),
    "dated generator set": dated("gs_A", "ELECTRICITY2FUEL", D1, D2),
    "consumer and its fuel start later": both(dated("turbine", "ENERGY_USAGE_MODEL", D2), put("turbine", "FUEL", {D2: "gas"})),
    "fuel of each consumer, none of the installation": both(drop("A", "FUEL"), put("gs_A", "FUEL", "gas"), put("flare", "FUEL", "gas"), put("turbine", "FUEL", "gas")),
    "two emissions": put("gas", "EMISSIONS", [{"NAME": "co2", "FACTOR": 2.0}, {"NAME": "nox", "FACTOR": 1.0}]),
    "variable used": eput("tabulated", "POWERLOSSFACTOR", "$var.twice {*} 0"),
    "turbine efficiencies of 0 and 1": put("turb", "TURBINE_EFFICIENCIES", [0.0, 0.5, 1.0]),
    "pump chart with 100 %": lambda d, f: f["pc.csv"].__setitem__("EFFICIENCY", [100.0] * 3),
    "pump chart of one speed": lambda d, f: f["pc.csv"].__setitem__("SPEED", [1.0] * 3),
    "export": put("A", "HCEXPORT", "SIM;V"),
    "dated category": put("gs_A", "CATEGORY", {D1: "TURBINE-GENERATOR", D2: "TURBINE-GENERATOR"}),
    "model dated after the end": put("load", "ENERGY_USAGE_MODEL", {D1: el("SIM;LOAD"), D3: el(1), LATER: el(2)}),
    "compressor table of 0": file("comp.csv", RATE=[0.0, 1e6], POWER=[0.0, 20.0]),
    "columns that are not used": lambda d, f: f["comp.csv"].__setitem__("OTHER", [1.0, 2.0, 3.0]),
    "integers in tables": file("tab.csv", X=[0, 10, 20], POWER=[0, 1, 3]),
    "rows out of order": file("tab.csv", X=[20.0, 0.0, 10.0], POWER=[3.0, 0.0, 1.0]),
    "rates of pumps": sput("pumps", RATE_FRACTIONS=None, RATES=[1e3, 1e3]),
    "pressures of each": both(sput("pumps", SUCTION_PRESSURE=None, SUCTION_PRESSURES=[10.0, 9.0]), sput("compressors", DISCHARGE_PRESSURE=None, DISCHARGE_PRESSURES=[60.0, 50.0])),
    "densities of each": sput("pumps", FLUID_DENSITIES=[1000.0, 900.0]),
    "cross-over to the next": sput("compressors", CROSSOVER=[2, 0]),
    "cross-over to the previous": sput("compressors", CROSSOVER=[0, 1]),
    "suction pressure equal to discharge pressure": eput("compressor", "SUCTION_PRESSURE", 60),
    "wrong pressure where the condition is off": lambda d, f: eum(d, "compressor").update(SUCTION_PRESSURE=70, CONDITION="0 > 1"),
    "two time series": add("TIME_SERIES", {"NAME": "OTHER", "TYPE": "DEFAULT", "FILE": "SIM.csv"}),
    "variable of a variable": lambda d, f: d.update(VARIABLES={"x": {"VALUE": "$var.y {+} 1"}, "y": {"VALUE": 1}}),
}


@harness("each wrong change of a valid model, by itself: refused, for any load, fuel and vented amount", budget_s=90, max_paths=2000)
def wrong(ctx):
    edit = WRONG[ctx.choice("what", list(WRONG))]
    refused(ctx, lambda: run(ctx, edit), "refused as an invalid model")


@harness("each right change of a valid model: accepted, for any load, fuel and vented amount", budget_s=60, max_paths=2000)
def right(ctx):
    accepted(ctx, RIGHT[ctx.choice("what", list(RIGHT))])


@harness("turbines of any 3 loads and efficiencies: refused exactly where an efficiency is outside 0 to 1, or a list is longer", budget_s=20)
def turbines(ctx):
    from libecalc.domain.infrastructure.energy_components.turbine.turbine import Turbine

    n = ctx.choice("loads", [2, 3])
    loads, eff = [ctx.real(f"load{i}", 0, 100) for i in range(n)], [ctx.real(f"eff{i}", -1, 2) for i in range(3)]
    make = lambda: Turbine(loads=loads, efficiency_fractions=eff, lower_heating_value=38.0, energy_usage_adjustment_factor=1.0, energy_usage_adjustment_constant=0.0)
    if n != 3 or ctx.Or(*[ctx.Or(e < 0, e > 1) for e in eff]):
        refused(ctx, make, "a turbine of unequal lists, or of an efficiency outside 0 to 1, is refused")
    else:
        ctx.eqs(list(make().efficiency_fractions), eff, "the efficiencies are as given")


@harness("chart curves of any points: refused exactly where an efficiency is outside 0 to 1, the lists differ, or there is a single point", budget_s=30)
def curves(ctx):
    from libecalc.domain.process.value_objects.chart.base import ChartCurve

    n = [ctx.choice(k, [1, 2, 3]) for k in ("rates", "heads", "efficiencies")]
    x = [[ctx.real(f"{k}{i}", lo, hi) for i in range(m)] for k, m, lo, hi in zip("qhe", n, (0, 0, -1), (1e4, 1e5, 2))]
    for i in range(n[0] - 1):
        ctx.assume(x[0][i] < x[0][i + 1])
    make = lambda: ChartCurve(rate_actual_m3_hour=x[0], polytropic_head_joule_per_kg=x[1], efficiency_fraction=x[2], speed_rpm=1.0)
    if len(set(n)) > 1 or n[0] < 2 or ctx.Or(*[ctx.Or(e < 0, e > 1) for e in x[2]]):
        refused(ctx, make, "an invalid curve is refused")
        return
    c = make()
    for got, want, what in ((c.rate_values, x[0], "rates"), (c.head_values, x[1], "heads"), (c.efficiency_values, x[2], "efficiencies")):
        ctx.eqs(list(got), want, f"{what} of the curve")


@harness("sampled compressors of any table: refused exactly where a value is negative", budget_s=30)
def samples(ctx):
    names = ["rate_values", "suction_pressure_values", "discharge_pressure_values", "energy_usage_values", "power_interpolation_values"]
    which = ctx.choice("column", names)
    at = ctx.choice("row", [0, 1, 2])
    from libecalc.domain.process.compressor.core.sampled.compressor_model_sampled import CompressorModelSampled, EnergyUsageType

    v = ctx.real("value", -100, 100)
    columns = {"rate_values": [1e6, 2e6, 3e6], "suction_pressure_values": [20.0, 20.0, 20.0], "discharge_pressure_values": [60.0, 60.0, 60.0], "energy_usage_values": [1.0, 2.0, 3.0], "power_interpolation_values": [1.0, 2.0, 3.0]}
    columns[which][at] = v
    make = lambda: CompressorModelSampled(energy_usage_type=EnergyUsageType.FUEL, **columns)
    if v < 0:
        refused(ctx, make, "a table with a negative value is refused")
    elif which.startswith(("energy", "power")):
        ctx.check(make() is not None, "a table without negative values is accepted")


DATES = {
    "years": ([2020, 2021, 2022], True), "ISO dates": (["2020-01-01", "2021-06-01", "2022-01-01"], True), "ISO times": (["2020-01-01 00:00:00", "2021-06-01 12:00:00", "2022-01-01 00:00:00"], True),
    "day first": (["01.01.2020", "01.06.2021", "01.01.2022"], True), "day first, slashes": (["1/1/2020", "1/6/2021", "1/1/2022"], True), "day first with times": (["01.01.2020 00:00:00", "01.06.2021 12:00:00", "01.01.2022 00:00:00"], True),
    "twice the same": ([2020, 2020, 2022], False), "mixed": (["2020-01-01", "01.06.2021", "2022-01-01"], False), "month first": (["01/13/2020", "06/13/2021", "01/13/2022"], False), "text": (["a", "b", "c"], False),
    "no such day": (["2020-01-01", "2021-02-30", "2022-01-01"], False), "numbers": ([2020.5, 2021.5, 2022.5], False), "none": ([], False),
}


@harness("time series files: every way of writing dates, any values, columns of other lengths, text; refused or read as given", budget_s=40, max_paths=1000)
def time_series(ctx):
    from libecalc.common.errors.exceptions import InvalidResourceException
    from libecalc.presentation.yaml.domain.time_series_resource import TimeSeriesResource
    from libecalc.presentation.yaml.yaml_entities import MemoryResource

    dates, ok = DATES[ctx.choice("dates", list(DATES))]
    head = ctx.choice("header", ["DATE", "DATES", "anything"])
    where = ctx.choice("position of the dates", [0, 1]) if head != "anything" else 0
    wrong = ctx.choice("columns", ["right", "short", "long", "text", "none", "second short", "second text", "number as text"])
    v = [ctx.real(f"v{i}", -1e6, 1e6) for i in range(len(dates))]
    w = [float(i) for i in range(len(dates))]
    cols = {"right": [v, w], "short": [v[1:], w[1:]], "long": [v + [1.0], w + [1.0]], "text": [[*v[1:], "abc"], w], "none": [], "second short": [v, w[1:]], "second text": [v, ["abc", *w[1:]]], "number as text": [["1.5" for _ in v], w]}[wrong]
    ok = ok and wrong in ("right", "number as text")
    headers, data = ["ONE", "TWO"][: len(cols)], list(cols)
    headers.insert(where, head)
    data.insert(where, dates)
    make = lambda: TimeSeriesResource(MemoryResource(headers=headers, data=data)).validate()
    if not ok:
        try:
            make()
        except InvalidResourceException:
            ctx.check(True, "a file that is not a time series is refused")
            return
        ctx.check(False, "a file that is not a time series is refused")
        return
    r = make()
    ctx.same(r.get_headers(), ["ONE", "TWO"], "the columns are all but the dates")
    got = r.get_time_vector()
    ctx.same([(d.year, d.month, d.day) for d in got], [(2020, 1, 1), (2021, *((1, 1) if dates[1] == 2021 else (6, 1))), (2022, 1, 1)], "the dates are as given")
    ctx.same([d.hour for d in got], [0, 12 if ":" in str(dates[1]) else 0, 0], "the times are as given")
    if wrong == "right":
        ctx.eqs(r.get_column("ONE"), v, "the values are as given")
    ctx.eqs(r.get_column("TWO"), w, "the values are as given")


HEADERS = {"POWER": True, "A b": True, "x_1": True, "SIM:X/Y.z-#+,": True, "1X": False, "": False, " X": False, "_X": False, "X;Y": False, "X$": False, "Unnamed: 1": False, "é": False}


@harness("columns of input files: names, values that are missing", budget_s=20)
def columns(ctx):
    from libecalc.common.errors.exceptions import InvalidResourceException
    from libecalc.presentation.yaml.yaml_entities import MemoryResource

    name = ctx.choice("name", list(HEADERS))
    at = ctx.choice("missing", [None, 0, 3])
    allowed = ctx.choice("allowed", [False, True])
    x = [ctx.real(f"x{i}", -1e6, 1e6) for i in range(4)]
    if at is not None:
        x[at] = float("nan")
    make = lambda: MemoryResource(headers=["ONE", name], data=[x[:2], x[2:]]).validate(allow_nans=allowed)
    if HEADERS[name] and (at is None or allowed):
        r = make()
        got = [*r.get_column("ONE"), *r.get_column(name.lower())]
        ctx.eqs([v for i, v in enumerate(got) if i != at], [v for i, v in enumerate(x) if i != at], "the values are as given")
        return
    try:
        make()
    except InvalidResourceException:
        ctx.check(True, "a file with an invalid column is refused")
        return
    ctx.check(False, "a file with an invalid column is refused")


SPEEDS = [(70.0, [800.0, 9000.0], [30000.0, 15000.0], [0.65, 0.8]), (100.0, [800.0, 9000.0], [60000.0, 36000.0], [0.7, 0.6])]
UNITS = {"RATE": "AM3_PER_HOUR", "HEAD": "JOULE_PER_KG", "EFFICIENCY": "FRACTION"}
CHART_FILES = {
    "vsd.csv": {"SPEED": [70.0, 70.0, 100.0, 100.0], "RATE": [800.0, 9000.0] * 2, "HEAD": [30000.0, 15000.0, 60000.0, 36000.0], "EFFICIENCY": [0.65, 0.8, 0.7, 0.6]},
    "one.csv": {"RATE": [800.0, 9000.0], "HEAD": [30000.0, 15000.0], "EFFICIENCY": [0.65, 0.8]},
}


def curve(speed, rate, head, efficiency):
    return {"SPEED": speed, "RATE": list(rate), "HEAD": list(head), "EFFICIENCY": list(efficiency)}


def a_chart(name, kind, **k):
    return {"NAME": name, "TYPE": "COMPRESSOR_CHART", "CHART_TYPE": kind, "UNITS": dict(UNITS), **k}


def stage(chart, **k):
    return {"COMPRESSOR_CHART": chart, "INLET_TEMPERATURE": 30, "CONTROL_MARGIN": 0, "CONTROL_MARGIN_UNIT": "FRACTION", **k}


def simple(chart, **k):
    return {"COMPRESSOR_CHART": chart, "INLET_TEMPERATURE": 30, **k}


def a_train(name, kind, **k):
    return {"NAME": name, "TYPE": kind, "FLUID_MODEL": "fluid", **k}


def usage(train, **k):
    return {"TYPE": "COMPRESSOR", "ENERGYFUNCTION": train, "RATE": 3e6, "SUCTION_PRESSURE": 50, "DISCHARGE_PRESSURE": 80, **k}


MULTIPLE = "VARIABLE_SPEED_COMPRESSOR_TRAIN_MULTIPLE_STREAMS_AND_PRESSURES"


def train_model():
    """a valid model with a train of every kind"""
    models = [
        a_chart("vsd", "VARIABLE_SPEED", CURVES=[curve(*x) for x in SPEEDS]),
        a_chart("vsd file", "VARIABLE_SPEED", CURVES={"FILE": "vsd.csv"}),
        a_chart("one", "SINGLE_SPEED", CURVE=curve(1.0, *SPEEDS[1][1:])),
        a_chart("one file", "SINGLE_SPEED", CURVE={"FILE": "one.csv"}),
        a_chart("design", "GENERIC_FROM_DESIGN_POINT", POLYTROPIC_EFFICIENCY=0.75, DESIGN_RATE=5000.0, DESIGN_HEAD=90000.0),
        a_chart("generic", "GENERIC_FROM_INPUT", POLYTROPIC_EFFICIENCY=0.75),
        {"NAME": "fluid", "TYPE": "FLUID", "FLUID_MODEL_TYPE": "COMPOSITION", "COMPOSITION": {"methane": 1.0}},
        {"NAME": "dry", "TYPE": "FLUID", "FLUID_MODEL_TYPE": "PREDEFINED", "EOS_MODEL": "SRK", "GAS_TYPE": "DRY"},
        a_train("variable", "VARIABLE_SPEED_COMPRESSOR_TRAIN", COMPRESSOR_TRAIN={"STAGES": [stage("vsd"), stage("vsd file")]}),
        a_train("single", "SINGLE_SPEED_COMPRESSOR_TRAIN", COMPRESSOR_TRAIN={"STAGES": [stage("one"), stage("one file")]}),
        a_train("known", "SIMPLIFIED_VARIABLE_SPEED_COMPRESSOR_TRAIN", COMPRESSOR_TRAIN={"STAGES": [simple("design"), simple("design")]}),
        a_train("unknown", "SIMPLIFIED_VARIABLE_SPEED_COMPRESSOR_TRAIN", COMPRESSOR_TRAIN={**simple("design"), "MAXIMUM_PRESSURE_RATIO_PER_STAGE": 3}),
        {"NAME": "multiple", "TYPE": MULTIPLE, "STREAMS": [{"NAME": "main", "TYPE": "INGOING", "FLUID_MODEL": "fluid"}, {"NAME": "sales", "TYPE": "OUTGOING"}],
         "STAGES": [stage("vsd", STREAM=["main"]), stage("vsd", STREAM=["sales"])]},
        {"NAME": "two pressures", "TYPE": MULTIPLE, "STREAMS": [{"NAME": "main", "TYPE": "INGOING", "FLUID_MODEL": "fluid"}, {"NAME": "sales", "TYPE": "OUTGOING"}],
         "STAGES": [stage("vsd", STREAM=["main"]), stage("vsd", STREAM=["sales"], INTERSTAGE_CONTROL_PRESSURE={"UPSTREAM_PRESSURE_CONTROL": "DOWNSTREAM_CHOKE", "DOWNSTREAM_PRESSURE_CONTROL": "DOWNSTREAM_CHOKE"})]},
        {**TURBINE, "TURBINE_LOADS": [0.0, 100.0, 400.0]},
        {"NAME": "driven", "TYPE": "COMPRESSOR_WITH_TURBINE", "COMPRESSOR_MODEL": "variable", "TURBINE_MODEL": "turb"},
    ]
    several = {"TYPE": MULTIPLE, "SUCTION_PRESSURE": 50, "DISCHARGE_PRESSURE": 80}
    system = {"TYPE": "COMPRESSOR_SYSTEM", "COMPRESSORS": [{"NAME": "c1", "COMPRESSOR_MODEL": "variable"}, {"NAME": "c2", "COMPRESSOR_MODEL": "known"}], "TOTAL_SYSTEM_RATE": "SIM;RATE", "OPERATIONAL_SETTINGS": [{"RATE_FRACTIONS": [0.5, 0.5], "SUCTION_PRESSURE": 50, "DISCHARGE_PRESSURE": 80}]}
    uses = {"u variable": usage("variable"), "u single": usage("single"), "u known": usage("known"), "u unknown": usage("unknown"), "u multiple": {**several, "RATE_PER_STREAM": ["SIM;RATE", "SIM;RATE {*} 0.05"], "COMPRESSOR_TRAIN_MODEL": "multiple"},
            "u two": {**several, "RATE_PER_STREAM": ["SIM;RATE", "SIM;RATE {*} 0.05"], "COMPRESSOR_TRAIN_MODEL": "two pressures", "INTERSTAGE_CONTROL_PRESSURE": 60}, "u system": system}
    a = installation("A", genset_consumers=[consumer(k, v, "COMPRESSOR") for k, v in uses.items()], fuel_consumers=[consumer("u driven", usage("driven"), "COMPRESSOR")])
    return copy.deepcopy(doc([a], models=models, inputs=[INPUTS[1]])), {k: dict(v) for k, v in FILES.items()} | {k: dict(v) for k, v in CHART_FILES.items()}


def train_run(ctx, edit, rate):
    d, files = train_model()
    edit(d, files)
    m = make_model(d, columns={"RATE": [rate, 0.0]}, dates=years(2), facility=files)
    m.validate_for_run()
    return m


def stages_of(d, name):
    t = part(d, name)
    return t["COMPRESSOR_TRAIN"]["STAGES"] if "COMPRESSOR_TRAIN" in t else t["STAGES"]


def st(name, at=1, **k):
    """keys of a stage of the train, None to drop them"""

    def edit(d, f):
        s = stages_of(d, name)[at]
        for key, v in k.items():
            s.pop(key) if v is None else s.__setitem__(key, v)

    return edit


def tput(name, key, value):
    """key of the train's COMPRESSOR_TRAIN"""
    return lambda d, f: part(d, name)["COMPRESSOR_TRAIN"].__setitem__(key, value)


def in_system(at, train):
    return lambda d, f: eum(d, "u system")["COMPRESSORS"][at].__setitem__("COMPRESSOR_MODEL", train)


def curve_of(name, **k):
    def edit(d, f):
        c = part(d, name)
        c = c["CURVE"] if "CURVE" in c else c["CURVES"][1]
        c.update(k)

    return edit


WRONG_TRAINS = {
    **{f"{t}: {what}": e for t in ("variable", "single", "known", "multiple") for what, e in {
        "unknown chart": st(t, COMPRESSOR_CHART="nope"), "fluid as chart": st(t, COMPRESSOR_CHART="fluid"), "train as chart": st(t, COMPRESSOR_CHART="variable"), "table as chart": st(t, COMPRESSOR_CHART="comp"), "turbine as chart": st(t, COMPRESSOR_CHART="turb"),
        "no temperature": st(t, INLET_TEMPERATURE=None), "no chart": st(t, COMPRESSOR_CHART=None), "unknown keyword": st(t, NOPE=1)}.items()},
    **{f"{t}: {what}": st(t, COMPRESSOR_CHART=c) for t in ("variable", "single", "multiple") for what, c in {"design point chart": "design", "chart of the input": "generic"}.items()},
    "variable: single speed chart": st("variable", COMPRESSOR_CHART="one"), "multiple: single speed chart": st("multiple", COMPRESSOR_CHART="one"),
    "single: variable speed chart": st("single", COMPRESSOR_CHART="vsd"), "known: variable speed chart": st("known", COMPRESSOR_CHART="vsd"), "known: single speed chart": st("known", COMPRESSOR_CHART="one"),
    "single: variable speed chart of a file": st("single", COMPRESSOR_CHART="vsd file"), "known: variable speed chart of a file": st("known", COMPRESSOR_CHART="vsd file"),
    **{f"unknown stages: {what}": tput("unknown", "COMPRESSOR_CHART", c) for what, c in {"unknown chart": "nope", "fluid as chart": "fluid", "train as chart": "variable", "table as chart": "comp", "variable speed chart": "vsd", "single speed chart": "one"}.items()},
    "unknown stages: no maximum ratio": lambda d, f: part(d, "unknown")["COMPRESSOR_TRAIN"].pop("MAXIMUM_PRESSURE_RATIO_PER_STAGE"),
    "unknown stages: no temperature": lambda d, f: part(d, "unknown")["COMPRESSOR_TRAIN"].pop("INLET_TEMPERATURE"),
    **{f"{t}: {what}": put(t, "FLUID_MODEL", x) for t in ("variable", "single", "known", "unknown") for what, x in {"unknown fluid": "nope", "chart as fluid": "vsd", "turbine as fluid": "turb"}.items()},
    **{f"{t}: no fluid": drop(t, "FLUID_MODEL") for t in ("variable", "single", "known", "unknown")},
    **{f"{t}: no stages": (lambda t: lambda d, f: stages_of(d, t).clear())(t) for t in ("variable", "single", "known", "multiple")},
    **{f"{t}: no train": drop(t, "COMPRESSOR_TRAIN") for t in ("variable", "single", "known", "unknown")},
    **{f"{t}: unknown pressure control": put(t, "PRESSURE_CONTROL", "NOPE") for t in ("variable", "single", "multiple")},
    **{f"{t}: negative control margin": st(t, CONTROL_MARGIN=-0.1) for t in ("variable", "single", "multiple")},
    **{f"{t}: no control margin": st(t, CONTROL_MARGIN=None) for t in ("variable", "single", "multiple")},
    **{f"{t}: no control margin unit": st(t, CONTROL_MARGIN_UNIT=None) for t in ("variable", "single", "multiple")},
    **{f"single: maximum discharge pressure with {c}": both(put("single", "PRESSURE_CONTROL", c), put("single", "MAXIMUM_DISCHARGE_PRESSURE", 100)) for c in ("UPSTREAM_CHOKE", "COMMON_ASV", "INDIVIDUAL_ASV_RATE", "INDIVIDUAL_ASV_PRESSURE")},
    "variable: maximum discharge pressure": put("variable", "MAXIMUM_DISCHARGE_PRESSURE", 100),
    "file of a variable speed chart missing": lambda d, f: f.pop("vsd.csv"),
    "file of a single speed chart missing": lambda d, f: f.pop("one.csv"),
    **{f"{x}: {what}": curve_of(x, **k) for x in ("vsd", "one") for what, k in {"unequal lists": {"HEAD": [1.0]}, "a single point": {"RATE": [1.0], "HEAD": [1.0], "EFFICIENCY": [0.5]}, "no points": {"RATE": [], "HEAD": [], "EFFICIENCY": []}, "efficiency above 1": {"EFFICIENCY": [0.5, 1.1]}, "efficiency below 0": {"EFFICIENCY": [0.5, -0.1]}, "text": {"HEAD": [1.0, "abc"]}}.items()},
    "vsd: no curves": put("vsd", "CURVES", []), "vsd: curves missing": drop("vsd", "CURVES"), "one: curve missing": drop("one", "CURVE"),
    **{f"{x}: {what}": (lambda k: lambda d, f: f[k[0]].update(k[1]))((x, k)) for x in ("vsd.csv", "one.csv") for what, k in {"text": {"HEAD": [*CHART_FILES[x]["HEAD"][1:], "abc"]}, "efficiency above 1": {"EFFICIENCY": [*CHART_FILES[x]["HEAD"][1:], 1.1]}}.items()},
    **{f"{x}: no {c}": (lambda x, c: lambda d, f: f[x].pop(c))(x, c) for x in ("vsd.csv", "one.csv") for c in CHART_FILES[x]},
    "one.csv: two speeds": lambda d, f: f["one.csv"].update(SPEED=[1.0, 2.0]),
    "vsd.csv: a speed with a single point": lambda d, f: f["vsd.csv"].update(SPEED=[70.0, 70.0, 100.0, 101.0]),
    **{f"{x}: {what}": put(x, "POLYTROPIC_EFFICIENCY", v) for x in ("design", ) for what, v in {"efficiency above 1": 1.1, "efficiency of 0": 0, "negative efficiency": -0.5}.items()},
    **{f"{x}: unknown unit of {u}": (lambda x, u: lambda d, f: part(d, x)["UNITS"].__setitem__(u, "NOPE"))(x, u) for x in ("vsd", "one", "design") for u in UNITS},
    "design: no rate": drop("design", "DESIGN_RATE"), "design: no head": drop("design", "DESIGN_HEAD"), "design: no efficiency": drop("design", "POLYTROPIC_EFFICIENCY"),
    "unknown type of chart": put("vsd", "CHART_TYPE", "NOPE"), "no type of chart": drop("vsd", "CHART_TYPE"), "unknown type of fluid": put("fluid", "FLUID_MODEL_TYPE", "NOPE"), "unknown type of model": put("fluid", "TYPE", "NOPE"),
    "fluid without composition": drop("fluid", "COMPOSITION"), "unknown component of the fluid": put("fluid", "COMPOSITION", {"methane": 1.0, "nope": 1.0}), "empty composition": put("fluid", "COMPOSITION", {}), "unknown equation of state": put("dry", "EOS_MODEL", "NOPE"), "unknown gas": put("dry", "GAS_TYPE", "NOPE"),
    "composition without amounts": put("fluid", "COMPOSITION", {"methane": 0.0}), "negative amount in the composition": put("fluid", "COMPOSITION", {"methane": 1.0, "ethane": -0.5}),
    "multiple: two controlled pressures": st("two pressures", 0, INTERSTAGE_CONTROL_PRESSURE={"UPSTREAM_PRESSURE_CONTROL": "DOWNSTREAM_CHOKE", "DOWNSTREAM_PRESSURE_CONTROL": "DOWNSTREAM_CHOKE"}),
    "multiple: controlled pressure of the first stage": lambda d, f: stages_of(d, "two pressures")[0].update(INTERSTAGE_CONTROL_PRESSURE=stages_of(d, "two pressures")[1].pop("INTERSTAGE_CONTROL_PRESSURE")),
    "multiple: streams in of different equations of state": lambda d, f: (part(d, "multiple")["STREAMS"].append({"NAME": "dry in", "TYPE": "INGOING", "FLUID_MODEL": "dry"}), part(d, "fluid").update(EOS_MODEL="PR"), stages_of(d, "multiple")[1]["STREAM"].append("dry in"), eum(d, "u multiple")["RATE_PER_STREAM"].append(1e5)),
    "multiple: controlled pressure without a control": lambda d, f: stages_of(d, "two pressures")[1]["INTERSTAGE_CONTROL_PRESSURE"].pop("UPSTREAM_PRESSURE_CONTROL"),
    "multiple: unknown stream": st("multiple", STREAM=["sales", "nope"]),
    "multiple: no stream in": lambda d, f: (part(d, "multiple").update(STREAMS=[{"NAME": "sales", "TYPE": "OUTGOING"}]), stages_of(d, "multiple")[0].pop("STREAM"), eum(d, "u multiple").update(RATE_PER_STREAM=[1e5])),
    "multiple: no stream to the first stage": lambda d, f: (stages_of(d, "multiple")[0].pop("STREAM"), stages_of(d, "multiple")[1].update(STREAM=["main", "sales"])),
    "multiple: stream out of the first stage only": lambda d, f: (stages_of(d, "multiple")[0].update(STREAM=["sales"]), stages_of(d, "multiple")[1].update(STREAM=["main"])),
    "multiple: stream that is not connected": lambda d, f: stages_of(d, "multiple")[1].pop("STREAM"),
    "multiple: stream of two stages": st("multiple", STREAM=["main", "sales"]),
    "multiple: two streams of the same name": lambda d, f: part(d, "multiple")["STREAMS"].append({"NAME": "sales", "TYPE": "OUTGOING"}),
    "multiple: no streams": put("multiple", "STREAMS", []),
    "multiple: unknown fluid": lambda d, f: part(d, "multiple")["STREAMS"][0].update(FLUID_MODEL="nope"),
    "multiple: chart as fluid": lambda d, f: part(d, "multiple")["STREAMS"][0].update(FLUID_MODEL="vsd"),
    "multiple: no fluid": lambda d, f: part(d, "multiple")["STREAMS"][0].pop("FLUID_MODEL"),
    "multiple: fluid of the stream out": lambda d, f: part(d, "multiple")["STREAMS"][1].update(FLUID_MODEL="fluid"),
    "multiple: unknown type of stream": lambda d, f: part(d, "multiple")["STREAMS"][1].update(TYPE="NOPE"),
    "multiple: too few rates": eput("u multiple", "RATE_PER_STREAM", ["SIM;RATE"]),
    "multiple: too many rates": eput("u multiple", "RATE_PER_STREAM", ["SIM;RATE", 1e5, 1e5]),
    "multiple: no rates": eput("u multiple", "RATE_PER_STREAM", []),
    "multiple: no suction pressure": lambda d, f: eum(d, "u multiple").pop("SUCTION_PRESSURE"),
    "multiple: no discharge pressure": lambda d, f: eum(d, "u multiple").pop("DISCHARGE_PRESSURE"),
    "multiple: interstage pressure of a train without one": eput("u multiple", "INTERSTAGE_CONTROL_PRESSURE", 60),
    "two pressures: no interstage pressure": lambda d, f: eum(d, "u two").pop("INTERSTAGE_CONTROL_PRESSURE"),
    "two pressures: interstage below suction": eput("u two", "INTERSTAGE_CONTROL_PRESSURE", 40),
    "two pressures: interstage above discharge": eput("u two", "INTERSTAGE_CONTROL_PRESSURE", 90),
    **{f"{u}: {what}": eput(u, k, v) for u in ("u variable", "u single", "u known", "u unknown", "u multiple", "u driven") for what, (k, v) in {"suction pressure of zero": ("SUCTION_PRESSURE", 0), "suction above discharge": ("SUCTION_PRESSURE", 81), "negative discharge pressure": ("DISCHARGE_PRESSURE", -1)}.items()},
    **{f"{u}: no {k}": (lambda u, k: lambda d, f: eum(d, u).pop(k))(u, k) for u in ("u variable", "u single", "u known", "u unknown", "u driven") for k in ("RATE", "SUCTION_PRESSURE", "DISCHARGE_PRESSURE")},
    "train of several streams for one": eput("u variable", "ENERGYFUNCTION", "multiple"), "train of one stream for several": eput("u multiple", "COMPRESSOR_TRAIN_MODEL", "variable"), "table for several streams": eput("u multiple", "COMPRESSOR_TRAIN_MODEL", "comp"),
    "chart for a train": eput("u variable", "ENERGYFUNCTION", "vsd"), "fluid for a train": eput("u variable", "ENERGYFUNCTION", "fluid"), "electricity for a train with turbine": eput("u variable", "ENERGYFUNCTION", "driven"), "fuel for a train without turbine": eput("u driven", "ENERGYFUNCTION", "variable"),
    "several streams and a turbine, with electricity": both(put("driven", "COMPRESSOR_MODEL", "multiple"), eput("u multiple", "COMPRESSOR_TRAIN_MODEL", "driven")),
    "one stream and a turbine of a train of several": put("driven", "COMPRESSOR_MODEL", "multiple"),
    "system: train of several streams": in_system(0, "multiple"), "system: unknown train": in_system(0, "nope"), "system: train with turbine": in_system(0, "driven"), "system: chart": in_system(0, "vsd"),
    "system: unknown stages": in_system(1, "unknown"), "system: chart of the input": both(st("known", COMPRESSOR_CHART="generic"), in_system(1, "known")),
    "turbine of a turbine": put("driven", "COMPRESSOR_MODEL", "turb"), "turbine with a chart": put("driven", "COMPRESSOR_MODEL", "vsd"), "turbine of itself": put("driven", "COMPRESSOR_MODEL", "driven"), "train as turbine": put("driven", "TURBINE_MODEL", "variable"),
}
RIGHT_TRAINS = {
    "the model itself": lambda d, f: None,
    **{f"{t}: {c}": put(t, "PRESSURE_CONTROL", c) for t in ("variable", "single") for c in ("UPSTREAM_CHOKE", "COMMON_ASV", "INDIVIDUAL_ASV_RATE", "INDIVIDUAL_ASV_PRESSURE")},
    "single: maximum discharge pressure": put("single", "MAXIMUM_DISCHARGE_PRESSURE", 200),
    "variable: maximum power": put("variable", "MAXIMUM_POWER", 100),
    "variable: maximum rate": put("variable", "CALCULATE_MAX_RATE", True),
    **{f"{t}: control margin": st(t, CONTROL_MARGIN=10, CONTROL_MARGIN_UNIT="PERCENTAGE") for t in ("variable", "single", "multiple")},
    **{f"{t}: pressure drop": st(t, PRESSURE_DROP_AHEAD_OF_STAGE=1) for t in ("variable", "single")},
    "variable: one stage": lambda d, f: stages_of(d, "variable").pop(),
    "single: one stage": lambda d, f: stages_of(d, "single").pop(),
    "known: one stage": lambda d, f: stages_of(d, "known").pop(),
    "known: charts of the input": both(in_system(1, "variable"), st("known", COMPRESSOR_CHART="generic")),
    "unknown stages: chart of the input": tput("unknown", "COMPRESSOR_CHART", "generic"),
    **{f"{t}: predefined fluid": put(t, "FLUID_MODEL", "dry") for t in ("variable", "single", "known", "unknown")},
    "fluid of several components": put("fluid", "COMPOSITION", {"methane": 8.0, "ethane": 1.0, "water": 0.0}),
    "multiple: streams in another order": lambda d, f: (part(d, "multiple")["STREAMS"].reverse(), eum(d, "u multiple")["RATE_PER_STREAM"].reverse()),
    "multiple: no stream out": lambda d, f: (part(d, "multiple")["STREAMS"].pop(), stages_of(d, "multiple")[1].pop("STREAM"), eum(d, "u multiple")["RATE_PER_STREAM"].pop()),
    "multiple: both streams at the first stage": lambda d, f: (stages_of(d, "multiple")[0].update(STREAM=["main", "sales"]), stages_of(d, "multiple")[1].pop("STREAM")),
    "two pressures: at the suction pressure": eput("u two", "INTERSTAGE_CONTROL_PRESSURE", 50),
    "two pressures: with turbine": both(put("driven", "COMPRESSOR_MODEL", "two pressures"), lambda d, f: part(d, "u driven").update(ENERGY_USAGE_MODEL={**eum(d, "u two"), "COMPRESSOR_TRAIN_MODEL": "driven"})),
    "several streams with turbine": both(put("driven", "COMPRESSOR_MODEL", "multiple"), lambda d, f: part(d, "u driven").update(ENERGY_USAGE_MODEL={**eum(d, "u multiple"), "COMPRESSOR_TRAIN_MODEL": "driven"})),
    "turbine of a simplified train": put("driven", "COMPRESSOR_MODEL", "known"),
    "turbine of a table": put("driven", "COMPRESSOR_MODEL", "comp"),
    "table without pressures": both(eput("u variable", "ENERGYFUNCTION", "comp"), lambda d, f: [eum(d, "u variable").pop(k) for k in ("SUCTION_PRESSURE", "DISCHARGE_PRESSURE")]),
    "pressures equal": both(eput("u variable", "SUCTION_PRESSURE", 80), eput("u known", "SUCTION_PRESSURE", 80)),
    "gas never compressed": eput("u variable", "RATE", 0),
    "no pressures without gas": both(eput("u variable", "RATE", 0), eput("u variable", "SUCTION_PRESSURE", 0), eput("u variable", "DISCHARGE_PRESSURE", 0)),
}


@harness("compressor trains: every wrong model of the list is refused; any rate above zero", budget_s=150, max_paths=2000)
def wrong_trains(ctx):
    name = ctx.choice("model", list(WRONG_TRAINS))
    with patched(service()):
        refused(ctx, lambda: train_run(ctx, WRONG_TRAINS[name], ctx.real("rate", 1, 5e6)), "an invalid compressor train is refused")


@harness("compressor trains: every right model of the list is accepted; any rate", budget_s=60)
def right_trains(ctx):
    name = ctx.choice("model", list(RIGHT_TRAINS))
    with patched(service()):
        train_run(ctx, RIGHT_TRAINS[name], ctx.real("rate", 0, 5e6))
    ctx.check(True, "accepted")
