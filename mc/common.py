"""Helpers shared by the checks: the only places where freesif is called."""
import os

from . import sesam
from .core import Violation


def fs():
    import freesif
    return freesif


def write_file(path, recs, lay):
    with open(path, 'wb') as f:
        f.write(sesam.encode(recs, lay))
    return path


def convert(env, sifname, h5name=None, **kw):
    """sif2hdf5; returns the name of the converted file"""
    env.step()
    return fs().sif2hdf5(sifname, h5name, **kw)


def must_convert(env, sifname, h5name=None, what='', **kw):
    try:
        return convert(env, sifname, h5name, **kw)
    except Exception as e:
        raise Violation('%sconversion of a valid file failed: %s: %s' % (
            what + ': ' if what else '', type(e).__name__, e))


def describe(recs, n=12):
    s = ['%s%s' % (r.name, tuple(int(x) if x == int(x) else x
                                 for x in r.head)) for r in recs[:n]]
    return ' '.join(s) + (' ...' if len(recs) > n else '')


LETTER = {}


def layout(d):
    return sesam.Layout(**d)


def suffix(fmt, letter):
    if letter in 'TL':
        return '.FEM'
    return '.SIF' if fmt == 'F' else '.SIU'
