import importlib

AREAS = ["core", "difexch", "macros", "issuer", "verifier", "docs", "openid", "holder", "e2e"]


def module(area):
    return importlib.import_module(f"{__name__}.{area}")


def lookup(prop):
    for area in AREAS:
        m = module(area)
        if prop in m.CHECKS:
            return m.CHECKS[prop]
    raise KeyError(prop)
