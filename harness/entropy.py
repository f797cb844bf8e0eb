"""The operating system's random source, replaceable by a script.

install() must run before gostcrypto is imported, so that the script is also seen by code that
took os.urandom by name or reaches it through random.SystemRandom or secrets.
"""
import os
import random

_real = {'urandom': os.urandom, 'getrandom': getattr(os, 'getrandom', None)}
_source = []


def urandom(size):
    return (_source[-1] if _source else _real['urandom'])(size)


def getrandom(size, flags=0):
    return _source[-1](size) if _source else _real['getrandom'](size, flags)


def install():
    os.urandom = random._urandom = urandom  # pylint: disable=protected-access
    if _real['getrandom'] is not None:
        os.getrandom = getrandom


class scripted:
    """Context in which `source(size)` stands in for the system's random source."""

    def __init__(self, source):
        self.source = source

    def __enter__(self):
        _source.append(self.source)

    def __exit__(self, *_exc):
        _source.remove(self.source)
