"""Make a failing program smaller: take list elements out of its tree (and
replace expressions by a subexpression of the same type) while it still fails."""
import copy


def spots(n, path=()):
    """Paths of every list whose elements can be left out, largest first."""
    out = []
    if isinstance(n, dict):
        for k, v in n.items():
            if k in ("items", "b", "el", "cs", "arms", "a", "c", "args", "d", "z", "inc", "mods", "order", "v") or isinstance(v, dict):
                if isinstance(v, list) and k in ("items", "b", "el", "cs", "arms"):
                    out.append(path + (k,))
                out += spots(v, path + (k,))
    elif isinstance(n, list):
        for i, v in enumerate(n):
            out += spots(v, path + (i,))
    return out


def at(n, path):
    for p in path:
        n = n[p]
    return n


def exprs(n, path=()):
    out = []
    if isinstance(n, dict):
        if n.get("k") in ("bin", "un", "call", "bc", "mcall", "get", "idx", "cast", "fstr", "ig", "unw", "new", "vecl", "varn"):
            out.append(path)
        for k, v in n.items():
            if isinstance(v, (dict, list)):
                out += exprs(v, path + (k,))
    elif isinstance(n, list):
        for i, v in enumerate(n):
            if isinstance(v, (dict, list)):
                out += exprs(v, path + (i,))
    return out


def default(t):
    import lang
    if t == lang.INT:
        return lang.ilit(1)
    if t == lang.REAL:
        return lang.rlit(3, 2)
    if t == lang.BOOL:
        return lang.blit(True)
    if t == lang.TEXTO:
        return lang.tlit("a")
    return None


def variants(prog):
    """Smaller programs, most drastic first."""
    sp = spots(prog)
    for path in sp:
        l = at(prog, path)
        n = len(l)
        for size in sorted({n, n // 2, n // 4, 1}, reverse=True):
            if size < 1:
                continue
            for i in range(0, n, size):
                c = copy.deepcopy(prog)
                del at(c, path)[i:i + size]
                yield c
    for path in exprs(prog):
        e = at(prog, path)
        d = default(e.get("ty"))
        cands = [d] if d else []
        for k in ("a", "b"):
            s = e.get(k)
            if isinstance(s, dict) and s.get("ty") == e.get("ty"):
                cands.append(s)
        for s in e.get("args") or []:
            if isinstance(s, dict) and s.get("ty") == e.get("ty"):
                cands.append(s)
        for s in cands:
            c = copy.deepcopy(prog)
            at(c, path[:-1])[path[-1]] = copy.deepcopy(s)
            yield c


def reduce(prog, fails, budget=60, batch=64):
    """fails(list of programs) -> list of booleans."""
    import time
    end = time.time() + budget
    progress = True
    while progress and time.time() < end:
        progress = False
        group = []

        def flush():
            nonlocal prog, progress
            if not group:
                return False
            for c, bad in zip(group, fails(group)):
                if bad:
                    prog, progress = c, True
                    return True
            return False

        for c in variants(prog):
            group.append(c)
            if len(group) >= batch or time.time() > end:
                if flush():
                    break
                group = []
                if time.time() > end:
                    break
        else:
            flush()
    return prog
