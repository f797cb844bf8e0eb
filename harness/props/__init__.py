"""The properties: each module maps property ids to builders."""
import importlib

_MODULES = {
    'C': 'cipher', 'H': 'hashing', 'M': 'hashing', 'P': 'derive', 'R': 'derive',
    'S': 'signature', 'O': 'oids', 'I': 'cross', 'U': 'utilities',
    'X': 'compose', 'F': 'faults',
}


def _module(letter):
    return importlib.import_module('harness.props.' + _MODULES[letter])


def get(pid):
    return _module(pid[0]).PROPS[pid]()


def all_ids():
    out = []
    for name in sorted(set(_MODULES.values())):
        out += list(importlib.import_module('harness.props.' + name).PROPS)
    return sorted(out)
