import importlib
CHECKS = {}
for m in ("geom", "simu", "prof", "backend", "grat", "lcos", "opts", "state", "ana", "ctl", "api", "reject", "kinds"):
    try:
        mod = importlib.import_module("checks." + m)
    except ModuleNotFoundError as e:
        if e.name != "checks." + m:
            raise
        continue
    CHECKS.update(mod.CHECKS)
