import importlib


def module(prop):
    return importlib.import_module("pbt.props." + prop.lower())


def facets(prop):
    m = module(prop)
    return dict(facets=[f.name for f in m.FACETS], rule=m.RULE, assumptions=getattr(m, "ASSUMPTIONS", []))
