"""Build and run whole eCalc models from YAML text with (possibly symbolic) input series.  Only input reading is stubbed:
resources are handed over in memory instead of being read from CSV files."""

from __future__ import annotations

import io
from datetime import datetime

_CONF: dict = {}


def configuration(text):
    from libecalc.presentation.yaml.yaml_entities import ResourceStream
    from libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model import PyYamlYamlModel

    if text not in _CONF:
        _CONF[text] = PyYamlYamlModel.get_validator(main_yaml=ResourceStream(name="model", stream=io.StringIO(text)), base_dir=None, resources={})
    return _CONF[text]


def make_model(text, columns=None, dates=None, facility=None, file="SIM.csv"):
    """columns: {header: values}; dates: datetimes; facility: {file: {header: values}}"""
    from libecalc.presentation.yaml.domain.time_series_resource import TimeSeriesResource
    from libecalc.presentation.yaml.model import YamlModel
    from libecalc.presentation.yaml.resource_service import ResourceService
    from libecalc.presentation.yaml.yaml_entities import MemoryResource

    if isinstance(text, dict):
        text = dump(text)

    class Res(ResourceService):
        def get_time_series_resources(self):
            if columns is None:
                return {}, []
            head = ["DATE", *columns]
            data = [[d.strftime("%Y-%m-%d %H:%M:%S") for d in dates], *columns.values()]
            return {file: TimeSeriesResource(MemoryResource(headers=head, data=data))}, []

        def get_facility_resources(self):
            return {k: MemoryResource(headers=list(v), data=[list(c) for c in v.values()]) for k, v in (facility or {}).items()}, []

    return YamlModel(configuration=configuration(text), resource_service=Res())


def run(text, **k):
    m = make_model(text, **k)
    m.validate_for_run()
    m.evaluate_energy_usage()
    return m


def asset_result(model):
    from libecalc.presentation.json_result.mapper import get_asset_result

    return get_asset_result(model)


class Results:
    """The user-facing results of a model by component name."""

    def __init__(self, text, **k):
        self.model = run(text, **k)
        r = asset_result(self.model)
        self.asset = r.component_result
        self.by_name = {}
        for c in r.sub_components:
            assert c.name not in self.by_name, f"component {c.name} reported twice"
            self.by_name[c.name] = c
        self.models = r.models

    def __getitem__(self, name):
        return self.by_name[name]


def years(n, first=2020):
    return [datetime(first + i, 1, 1) for i in range(n)]


# ---- YAML documents as dicts --------------------------------------------------------------------------------------


def dump(doc):
    import yaml

    return yaml.safe_dump(doc, sort_keys=False)


GENSET_X, GENSET_Y = [0.0, 10.0, 20.0, 40.0], [0.0, 70000.0, 120000.0, 200000.0]
GENSET_FILE = {"genset.csv": {"POWER": GENSET_X, "FUEL": GENSET_Y}}


def doc(installations, start=datetime(2020, 1, 1), end=datetime(2022, 1, 1), fuels=None, inputs=None, models=None, **extra):
    d = {
        "TIME_SERIES": [{"NAME": "SIM", "TYPE": "DEFAULT", "FILE": "SIM.csv"}],
        "FACILITY_INPUTS": [{"NAME": "genset", "FILE": "genset.csv", "TYPE": "ELECTRICITY2FUEL"}, *(inputs or [])],
        "FUEL_TYPES": fuels if fuels is not None else [{"NAME": "gas", "EMISSIONS": [{"NAME": "co2", "FACTOR": 2.5}]}],
    }
    if models:
        d["MODELS"] = models
    d.update(START=start, END=end, INSTALLATIONS=installations, **extra)
    return d


def installation(name="A", genset_consumers=None, fuel_consumers=None, venting=None, genset=None, **k):
    d = {"NAME": name, "FUEL": "gas", "CATEGORY": "FIXED"}
    d.update({a.upper(): b for a, b in k.items()})
    if genset_consumers is not None:
        g = {"NAME": f"gs_{name}", "ELECTRICITY2FUEL": "genset", "CATEGORY": "TURBINE-GENERATOR", "CONSUMERS": genset_consumers}
        g.update(genset or {})
        d["GENERATORSETS"] = [g]
    if fuel_consumers:
        d["FUELCONSUMERS"] = fuel_consumers
    if venting:
        d["VENTING_EMITTERS"] = venting
    return d


def consumer(name, model, category="BASE-LOAD"):
    return {"NAME": name, "CATEGORY": category, "ENERGY_USAGE_MODEL": model}


def el(load="SIM;LOAD", **k):
    return {"TYPE": "DIRECT", "LOAD": load, **{a.upper(): b for a, b in k.items() if b is not None}}


def fuel(rate="SIM;FUEL", **k):
    return {"TYPE": "DIRECT", "FUELRATE": rate, **{a.upper(): b for a, b in k.items() if b is not None}}


def interp(ctx, x, xs, ys):
    """piecewise linear through (xs, ys), inside the range"""
    out = ys[-1]
    for i in reversed(range(len(xs) - 1)):
        seg = ys[i] + (x - xs[i]) * ((ys[i + 1] - ys[i]) / (xs[i + 1] - xs[i]))
        out = seg if i == len(xs) - 2 else ctx.ite(x < xs[i + 1], seg, out)
    return out
