"""Pieces of lives that several checks share."""
from . import gen
from .lifegen import newlabel
from .life import simple


def grow(L, r, versions, prof='database', size=3, stage=False):
    """versions made one after the other; sometimes something is left staged"""
    cat = L.cats.get(prof)
    for k in range(versions + (1 if stage else 0)):
        new = simple(gen.random_cat(r, r.choice([1, 2, size])) if cat is None else gen.evolve(r, cat, r.choice([1, 2, 3])))
        if not new['schemas']:
            continue
        cat = new
        L.set_cat(cat, prof)
        L.cmd('stage', prof=prof)
        if k < versions:
            L.cmd('make', newlabel(L, r), prof=prof)
