"""The properties and the rules that decide them."""
import importlib
from conf import tables, props


def rule(mod, *args, fn="run", **kw):
    def call(P, ctx):
        m = importlib.import_module("rules." + mod)
        return getattr(m, fn)(P, ctx, *args, **kw)
    return call


RULES = {
    "C01": rule("guarded", dict(tables.REGISTRIES)),
    "C02": rule("guarded", dict(tables.CACHES)),
    "C03": rule("guarded", dict(tables.THREADS)),
    "C04": rule("lockuse", fn="run_release"),
    "C05": rule("lockuse", fn="run_waits"),
    "C06": rule("lockorder"),
    "C07": rule("odr"),
    "C08": rule("oscall"),
    "C09": rule("statics", tables),
    "C10": rule("narrowing"),
    "C11": rule("streams"),
    "C12": rule("outparam"),
    "C13": rule("copies"),
    "C14": rule("inits"),
    "C15": rule("resources"),
    "C16": rule("lookups"),
    "C17": rule("errors"),
    "C18": rule("heap", fn="run_all"),
    "C19": rule("formats"),
    "C20": rule("formats", fn="run_names"),
    "C21": rule("sharedmem"),
    "C22": rule("restore"),
    "C23": rule("buffers"),
    "C24": rule("lifetimes"),
    "C25": rule("refusals"),
}

PROPS = {k: {"title": props.TITLES.get(k, ""), "run": v} for k, v in RULES.items()}
