# -*- coding: utf-8 -*-
'''What the environment may do, at its worst: the identity of a dead object is given to the next one at once; processes are slow in any order.'''
import builtins
import contextlib
import gc
import os
import random
import sys
import time
import weakref


@contextlib.contextmanager
def identities(package='pdf2docx', every=4, seed=0):
    '''-> [number of identities used again]; only for objects of classes of ``package``'''
    rnd = random.Random(seed)
    real, frees, refs, last, again, new = builtins.id, {}, {}, [0], [0], [0]

    def release(k, n, free):
        refs.pop(k, None)
        free.append(n)

    def fake(o, /):
        if not type(o).__module__.startswith(package): return real(o)
        k = real(o)
        r = refs.get(k)
        if r is not None and r[0]() is o: return -r[1]
        new[0] += 1
        if new[0] % every == 0: gc.collect()     # dead objects go at once
        free = frees.setdefault(type(o), [])     # (objects of one type, as they are of the same size)
        if free:
            n = free.pop(rnd.randrange(len(free)))
            again[0] += 1
        else:
            last[0] += 1
            n = last[0]
        try: ref = weakref.ref(o, lambda _: release(k, n, free))
        except TypeError: return k
        refs[k] = (ref, n)
        return -n
    gc.collect()
    gc.freeze()
    builtins.id = fake
    try: yield again
    finally:
        builtins.id = real
        gc.unfreeze()
        refs.clear()


LOG = []


def _hook(event, args):
    if LOG and event == 'open' and os.getpid() != LOG[1] and isinstance(args[0], str) and isinstance(args[1], str) and ('w' in args[1] or 'a' in args[1] or 'x' in args[1]):
        os.write(LOG[0], ('%d %s\n' % (os.getpid(), args[0])).encode())


@contextlib.contextmanager
def slow(log, seed, most=.3):
    '''Child processes of this one open PDF files and load pages with random delays; the files they write are listed in ``log``: -> function which gives the list'''
    import fitz
    me = os.getpid()
    init, load = fitz.Document.__init__, fitz.Document.load_page
    state = {}

    def wait(t):
        if os.getpid() == me: return
        rnd = state.get(os.getpid())
        if rnd is None: rnd = state[os.getpid()] = random.Random('%s:%d' % (seed, os.getpid()))
        time.sleep(rnd.choice((0, 0, t)) * rnd.random())

    def slow_init(self, *a, **k):
        wait(most)
        init(self, *a, **k)

    def slow_load(self, *a, **k):
        wait(most / 6)
        return load(self, *a, **k)
    if not hasattr(sys, '_vt_slow'):
        sys._vt_slow = True
        sys.addaudithook(_hook)
    LOG[:] = [os.open(log, os.O_CREAT | os.O_APPEND | os.O_WRONLY), me]
    fitz.Document.__init__, fitz.Document.load_page = slow_init, slow_load
    try: yield lambda: [l.rstrip('\n').split(' ', 1) for l in open(log)]
    finally:
        fitz.Document.__init__, fitz.Document.load_page = init, load
        os.close(LOG[0])
        LOG[:] = []
