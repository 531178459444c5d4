"""call a stand-in the way the replaced function would see its arguments, whatever the call style"""
import inspect
import types


def as_called(orig, f):
    """f(*required, **rest): required parameters of orig by position, everything else by keyword"""
    if not isinstance(orig, types.FunctionType) or not str(orig.__module__).startswith('qmix'):
        return f
    try:
        sig = inspect.signature(orig)
    except (TypeError, ValueError):
        return f

    def stand_in(*a, **k):
        b = sig.bind(*a, **k)
        pos, kw = [], {}
        for n, v in b.arguments.items():
            p = sig.parameters[n]
            if p.kind == p.VAR_POSITIONAL:
                pos += list(v)
            elif p.kind == p.VAR_KEYWORD:
                kw.update(v)
            elif p.default is p.empty and p.kind != p.KEYWORD_ONLY:
                pos.append(v)
            else:
                kw[n] = v
        return f(*pos, **kw)
    return stand_in
