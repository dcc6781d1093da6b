"""C15 the ordered collection behaves as an ordered set under every history of operations (bounded stand-in)"""
from .common import *
from gnome.utilities.orderedcollection import OrderedCollection
LEVEL = 'exploration'


class It:
    def __init__(self, n):
        self.id = 'obj-%s' % n
        self.n = n


class Bare:
    """no id attribute"""
    def __init__(self, n):
        self.n = n


def same(B, oc, model, log):
    B.prove('iteration', [e for e in oc] == model and all(a is b for a, b in zip(oc, model)))
    B.prove('length', len(oc) == len(model))
    B.prove('values', oc.values() == model)
    for k, e in enumerate(model):
        B.prove('by-index', oc[k] is e and oc[k - len(model)] is e)
        B.prove('by-id', oc[oc._s_id(e)] is e if not hasattr(e, 'id') else oc[e.id] is e)
        B.prove('index', oc.index(e) == k)
        if hasattr(e, 'id'):
            B.prove('index-by-id', oc.index(e.id) == k)
        B.prove('contains', e in oc)
    ids = [d['id'] for d in oc.to_dict()]
    B.prove('to_dict', ids == [oc._s_id(e) for e in model])


def history(B):
    cls = B.choice('cls', [It, Bare])
    U = [cls(i) for i in range(7)]
    n0 = B.int('n0', lo=0, hi=4)
    oc = OrderedCollection(U[:n0] or None, dtype=cls)
    model = list(U[:n0])
    ev = []
    for what in ('add', 'remove', 'replace'):
        oc.register_callback(lambda o, w=what: ev.append((w, o)), what)
    more = B.choice('callbacks', [0, 0, 3, 40])
    calls = []
    for j in range(more):
        oc.register_callback(lambda o, j=j: calls.append((j, o)))
    log = []
    for k in range(B.int('len', lo=1, hi=14)):
        op = B.choice('op', ['add', 'add', 'addmany', 'remove', 'remove_id', 'del', 'replace', 'replace_id', 'setitem', 'remake', 'slice', 'missing', 'clear?', 'iadd'])
        e = U[B.int('e', lo=0, hi=len(U) - 1)]
        at = B.int('at', lo=-len(model), hi=len(model) - 1) if model else None
        ident = (lambda x: x.id if hasattr(x, 'id') else oc._s_id(x))
        ev.clear()
        calls.clear()
        want = []
        if op in ('add', 'iadd'):
            if op == 'add':
                oc.add(e)
            else:
                oc += e
            if e not in model:
                model.append(e)
                want = [('add', e)]
        elif op == 'addmany':
            f = U[B.int('f', lo=0, hi=len(U) - 1)]
            oc.add([e, f])
            for x in (e, f):
                if x not in model:
                    model.append(x)
                    want.append(('add', x))
        elif op in ('remove', 'del') and model:
            x = model[at]
            if op == 'remove':
                oc.remove(at)
            else:
                del oc[at]
            del model[at]
            want = [('remove', x)]
        elif op == 'remove_id' and model:
            x = model[at]
            oc.remove(ident(x))
            del model[at]
            want = [('remove', x)]
        elif op in ('replace', 'setitem', 'replace_id') and model:
            if e in model and e is not model[at]:
                continue
            x = model[at]
            if op == 'replace':
                oc.replace(at, e)
            elif op == 'setitem':
                oc[at] = e
            else:
                oc.replace(ident(x), e)
            model[at] = e
            want = [('replace', e)]
            if x is not e:
                B.prove('replaced-object-is-gone', x not in oc)
        elif op == 'remake':
            oc.remake()
        elif op == 'slice':
            a = B.choice('a', [None, 0, 1, 2, -1, -2])
            b = B.choice('b', [None, 0, 1, 2, 9, -1])
            st = B.choice('st', [None, 1, 2, -1])
            B.prove('slice', oc[a:b:st] == model[a:b:st])
        elif op == 'missing':
            if e not in model:
                for f in (lambda: oc.remove(ident(e)), lambda: oc.replace(ident(e), e), lambda: oc.index(e), lambda: oc[ident(e)]):
                    try:
                        f()
                        B.prove('missing-refused', False)
                    except (KeyError, ValueError, IndexError, TypeError):
                        pass
            try:
                oc.add(3)
                B.prove('wrong-type-refused', False)
            except TypeError:
                pass
        elif op == 'clear?' and B.choice('really', [0, 0, 1]):
            oc.clear()
            model = []
        B.prove('events', ev == want, )
        B.prove('every-callback-once-per-change', sorted(j for j, _ in calls) == sorted(list(range(more)) * len(want)) and all(any(o is x for _, x in want) for _, o in calls))
        same(B, oc, model, log)
    B.prove('equality', oc == OrderedCollection(list(model) or None, dtype=cls))
    B.prove('inequality', not (oc == OrderedCollection(list(model) + [cls(99)], dtype=cls)))


HARNESSES = [H('history', history, sym=False, conc=1500, functions=['OrderedCollection.' + f for f in (
    'add', 'remove', 'replace', 'get', 'index', '__iter__', '__len__', '__contains__', '__getitem__', 'values', 'to_dict', 'clear', 'remake', 'fire_event')])]
