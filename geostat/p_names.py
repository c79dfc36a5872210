"""C22: the documented interface exists, every name and call resolves, optional dependencies stay optional."""
import ast
import builtins
import glob
import os
import re
import symtable
from . import ir, interp as X
from .interp import Interp, AbsRaise
from .arr import Unsupported

REQUIRED = ('numpy', 'scipy', 'libdlf')
OPTIONAL = ('matplotlib', 'utm', 'numba', 'geoana.kernels._extensions')
BUILTIN = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__package__', '__spec__', '__path__', '__class__', '__builtins__', '__loader__',
                                '__module__', '__qualname__', '__annotations__', '__dict__', 'WindowsError'}


def repo():
    return os.environ.get('GEOSTAT_REPO', '/repo')


def sources():
    """module name -> (path, text) of every Python module of the package."""
    out = {}
    for p in sorted(glob.glob(os.path.join(repo(), 'geoana', '**', '*.py'), recursive=True)):
        rel = os.path.relpath(p, repo())
        mod = rel[:-3].replace(os.sep, '.')
        if mod.endswith('.__init__'):
            mod = mod[:-9]
        out[mod] = (p, open(p, encoding='utf-8').read())
    return out


class Mod:
    def __init__(self, name, path, text):
        self.name, self.path, self.rel = name, path, os.path.relpath(path, repo())
        self.text = text
        self.tree = ast.parse(text, path)
        self.pkg = path.endswith('__init__.py')
        self.bound = set()
        self.star = []
        self.imports = {}         # local name -> dotted origin
        self.defs = {}            # top-level name -> def node
        self.collect(self.tree.body)

    def absolute(self, s):
        if not s.level:
            return s.module or ''
        parts = self.name.split('.')
        drop = s.level - (1 if self.pkg else 0)
        parts = parts[:-drop] if drop else parts
        return '.'.join(parts + ([s.module] if s.module else []))

    def collect(self, body):
        for s in body:
            for n in self.walk(s):
                if isinstance(n, ast.Import):
                    for a in n.names:
                        self.bound.add(a.asname or a.name.split('.')[0])
                        self.imports[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
                elif isinstance(n, ast.ImportFrom):
                    m = self.absolute(n)
                    for a in n.names:
                        if a.name == '*':
                            self.star.append(m)
                            continue
                        self.bound.add(a.asname or a.name)
                        self.imports.setdefault(a.asname or a.name, m + '.' + a.name)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    self.bound.add(n.name)
                    self.defs.setdefault(n.name, n)
                elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    self.bound.add(n.id)
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    self.bound.add(n.name)

    def walk(self, s):
        """Nodes of a statement outside nested functions and classes."""
        yield s
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return
        for c in ast.iter_child_nodes(s):
            yield from self.walk(c)


class Package:
    def __init__(self):
        self.mods = {n: Mod(n, p, t) for n, (p, t) in sources().items()}
        for m in self.mods.values():
            for st in m.star:
                if st in self.mods:
                    m.bound |= self.exports(st)
        # names given to a module by `global` statements
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Global):
                    m.bound |= set(n.names)
        self.classes = {}
        for m in self.mods.values():
            for n in m.tree.body:
                if isinstance(n, ast.ClassDef):
                    self.classes[m.name, n.name] = n

    def exports(self, name):
        m = self.mods[name]
        al = alls(m)
        return set(al[0]) if al else {b for b in m.bound if not b.startswith('_')}

    def has(self, dotted):
        """Does the dotted name of this package exist?"""
        if dotted in self.mods or self.ext(dotted):
            return True
        if '.' not in dotted:
            return False
        mod, last = dotted.rsplit('.', 1)
        if mod in self.mods:
            m = self.mods[mod]
            return last in m.bound or '__getattr__' in m.bound or mod + '.' + last in self.mods
        if self.ext(mod):
            return True
        return False

    def ext(self, dotted):
        p = os.path.join(repo(), *dotted.split('.'))
        return os.path.exists(p + '.pyx') or os.path.isdir(p)

    def resolve(self, mod, name, seen=()):
        """The definition (module, node) a name of a module stands for, through imports and plain aliases."""
        if (mod, name) in seen or mod not in self.mods:
            return None
        m = self.mods[mod]
        stores = sum(1 for s in m.tree.body for n in m.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == name)
        if name in m.defs and not stores and name not in m.imports:
            if sum(1 for s in m.tree.body for n in m.walk(s) if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == name) == 1:
                return mod, m.defs[name]
            return None
        if name in m.imports and not stores and name not in m.defs:
            d = m.imports[name]
            if d.split('.')[0] == 'geoana' and '.' in d:
                return self.resolve(d.rsplit('.', 1)[0], d.rsplit('.', 1)[1], seen + ((mod, name),))
        return None

    def bases(self, mod, cls):
        """Linearised user classes of a class, and whether every base is known."""
        out, known = [(mod, cls)], True
        for b in cls.bases:
            r = self.resolve(mod, b.id) if isinstance(b, ast.Name) else None
            if r and isinstance(r[1], ast.ClassDef):
                o, k = self.bases(*r)
                out += [x for x in o if x not in out]
                known &= k
            elif not (isinstance(b, ast.Name) and b.id in ('object', 'ABC')):
                known = False
        return out, known


def alls(m):
    for s in m.tree.body:
        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == '__all__' for t in s.targets):
            try:
                v = ast.literal_eval(s.value)
            except ValueError:
                return None
            return [x for x in v if isinstance(x, str)], s.lineno
    return None


def documented(m):
    """(name, current module) listed under autosummary in the module's docstring."""
    doc = ast.get_docstring(m.tree) or ''
    cur, on, out = m.name, False, []
    for line in doc.splitlines():
        q = re.match(r'\s*\.\. currentmodule:: *(\S+)', line)
        if q:
            cur = q.group(1)
        if re.match(r'\s*\.\. autosummary::', line):
            on = True
            continue
        if on and line.strip() and not line.startswith(' '):
            on = False
        if on and re.match(r'\s+[A-Za-z_][\w.]*\s*$', line):
            out.append((line.strip(), cur))
    return out


# ------------------------------------------------------------------ rules
def run(ck):
    P = Package()
    interface(ck, P)
    names(ck, P)
    attributes(ck, P)
    calls(ck, P)
    examples(ck, P)
    dependencies(ck, P)


def interface(ck, P):
    for m in P.mods.values():
        ck.analysed.add(m.name)
        for d, cur in documented(m):
            nm = f"{cur}.{d}"

            def go():
                (ck.ok if P.has(nm) else lambda r, c: ck.bad(r, c, f"documented in {m.rel} but not defined"))('documented name exists', nm)
            ck.obligation('documented name exists', nm, go)
        al = alls(m)
        for n in al[0] if al else ():
            def go():
                (ck.ok if P.has(m.name + '.' + n) else lambda r, c: ck.bad(r, c, f"listed in __all__ ({m.rel}:{al[1]}) but not defined"))('exported name exists', f"{m.name}.{n}")
            ck.obligation('exported name exists', f"{m.name}.{n}", go)
        for s in ast.walk(m.tree):
            if isinstance(s, ast.ImportFrom):
                base = m.absolute(s)
                if base.split('.')[0] != 'geoana':
                    continue
                for a in s.names:
                    nm = f"{m.rel}:{s.lineno} from {base} import {a.name}"

                    def go():
                        good = a.name == '*' and (base in P.mods) or P.has(base + '.' + a.name)
                        ck.ok('import resolves', nm) if good else ck.bad('import resolves', nm, 'no such name in the package')
                    ck.obligation('import resolves', nm, go)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.name.split('.')[0] == 'geoana':
                        nm = f"{m.rel}:{s.lineno} import {a.name}"

                        def go():
                            ck.ok('import resolves', nm) if a.name in P.mods or P.ext(a.name) else ck.bad('import resolves', nm, 'no such module')
                        ck.obligation('import resolves', nm, go)


def names(ck, P):
    """Every name read in a scope is bound in it, around it, in the module or built in."""
    for m in P.mods.values():
        top = symtable.symtable(m.text, m.path, 'exec')

        def scope(t, label):
            def go():
                bad = []
                for s in t.get_symbols():
                    if s.is_referenced() and (s.is_global() or (t.get_type() == 'module')) and s.get_name() not in m.bound and s.get_name() not in BUILTIN:
                        if t.get_type() == 'module' and s.is_assigned():
                            continue
                        bad.append(s.get_name())
                if bad:
                    for b in bad:
                        ln = [n.lineno for n in ast.walk(m.tree) if isinstance(n, ast.Name) and n.id == b]
                        ck.bad('every name is defined', f"{m.name} {label}: {b}", 'the name is not defined anywhere', [f"{m.rel}:{x}" for x in ln[:3]])
                else:
                    ck.ok('every name is defined', f"{m.name} {label}")
            if not m.star or all(s in P.mods for s in m.star):
                ck.obligation('every name is defined', f"{m.name} {label}", go)
            for c in t.get_children():
                scope(c, label + '.' + c.get_name() if label != '<module>' else c.get_name())
        scope(top, '<module>')
        for f in [n for n in ast.walk(m.tree) if isinstance(n, ast.FunctionDef)]:
            assigned(ck, m, f)
        modattrs(ck, P, m)


def assigned(ck, m, f):
    """No local variable is read where no assignment can have reached it."""
    nm = f"{m.name} {f.name}:{f.lineno}" if False else f"{m.name} {f.name}"

    def go():
        a = f.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())
        loc = set()
        outer = set()
        for n in own(f):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                outer |= set(n.names)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                loc.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not f:
                loc.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                loc |= {(x.asname or x.name).split('.')[0] for x in n.names}
            elif isinstance(n, ast.ExceptHandler) and n.name:
                loc.add(n.name)
        loc -= outer | params
        bad = []
        may(f.body, set(), loc, bad)
        for name, ln in bad:
            ck.bad('no variable is read before it is assigned', f"{nm}: {name}", 'no assignment reaches this read on any path', [f"{m.rel}:{ln}"])
        if not bad:
            late = {}
            FACTS.clear()
            FACTS.update(correlated(f))
            rd = {n.id for n in own(f) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Load, ast.Del))} | \
                {n.target.id for n in own(f) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name)}
            for v in sorted(loc & rd):
                VARS.clear()
                VARS.add(v)
                paths(f.body, [(frozenset(), frozenset())], {v}, late)
            for (name, ln), facts in late.items():
                bad.append((name, ln))
                ck.bad('no variable is read before it is assigned', f"{nm}: {name}",
                       'not assigned where ' + (' and '.join(('' if v else 'not ') + f"({q})" for q, v in sorted(facts)) or 'this is reached'), [f"{m.rel}:{ln}"])
        if not bad:
            ck.ok('no variable is read before it is assigned', nm)
    ck.obligation('no variable is read before it is assigned', nm, go)


FACTS = set()
VARS = set()          # the variable followed


def subject(q):
    return re.split(r' (?:==|is|in) ', q)[0]


def correlated(f):
    """Subjects of more than one test: only these tell paths apart later on."""
    count = {}
    for n in ast.walk(f):
        if isinstance(n, (ast.If, ast.While, ast.Assert)):
            for q in {subject(q) for v in (True, False) for q, _ in atom(n.test, v) or ()}:
                count[q] = count.get(q, 0) + 1
    return {q for q, k in count.items() if k > 1}


def own(f):
    """Nodes of a function outside nested functions, classes and comprehensions."""
    st = list(f.body)
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            continue
        st += list(ast.iter_child_nodes(n))


def reads(n):
    """Names read by an expression, outside nested scopes (lambdas run later; comprehension variables are their own)."""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, (ast.Lambda, ast.FunctionDef, ast.ClassDef)):
            continue
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            st.append(x.generators[0].iter)
            continue
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
            yield x
        st += list(ast.iter_child_nodes(x))


def stores(n):
    for x in ast.walk(n):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            yield x.id


DEAD = None


def may(body, s, loc, bad):
    """Set of locals that may be assigned after body (DEAD: it never ends normally); reads outside it are recorded."""
    for st in body:
        if s is DEAD:
            return DEAD
        s = step(st, s, loc, bad)
    return s


def use(n, s, loc, bad):
    if n is None:
        return
    walrus = {x.target.id for x in ast.walk(n) if isinstance(x, ast.NamedExpr)}
    for r in reads(n):
        if r.id in loc and r.id not in s and r.id not in walrus:
            bad.append((r.id, r.lineno))
    s |= walrus


def union(*ss):
    ss = [x for x in ss if x is not DEAD]
    return set().union(*ss) if ss else DEAD


def step(st, s, loc, bad):
    s = set(s)
    if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
        for d in st.decorator_list:
            use(d, s, loc, bad)
        s.add(st.name)
        return s
    if isinstance(st, (ast.Return, ast.Raise)):
        for c in ast.iter_child_nodes(st):
            use(c, s, loc, bad)
        return DEAD
    if isinstance(st, (ast.Break, ast.Continue)):
        return DEAD if False else s          # joins the loop exit, which is a superset already
    if isinstance(st, ast.If):
        use(st.test, s, loc, bad)
        return union(may(st.body, s, loc, bad), may(st.orelse, s, loc, bad))
    if isinstance(st, (ast.For, ast.While)):
        if isinstance(st, ast.For):
            use(st.iter, s, loc, bad)
            inner = s | set(stores(st.target))
        else:
            inner = s
        # anything assigned in the body may have been assigned by an earlier round
        inner = inner | {x for b in st.body for x in stores(b)}
        if isinstance(st, ast.While):
            use(st.test, set(inner), loc, bad)
        e = may(st.body, inner, loc, bad)
        after = inner if e is DEAD else e | inner
        o = may(st.orelse, after, loc, bad)
        return union(after, o)
    if isinstance(st, ast.Try) or st.__class__.__name__ == 'TryStar':
        b = may(st.body, s, loc, bad)
        mid = s | {x for q in st.body for x in stores(q)} | {n.name for q in st.body for n in ast.walk(q) if isinstance(n, (ast.FunctionDef, ast.ClassDef))} | \
            {(a.asname or a.name).split('.')[0] for q in st.body for n in ast.walk(q) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
        hs = []
        for h in st.handlers:
            hin = set(mid) | ({h.name} if h.name else set())
            if h.type is not None:
                use(h.type, set(hin), loc, bad)
            hs.append(may(h.body, hin, loc, bad))
        o = may(st.orelse, b, loc, bad) if b is not DEAD else DEAD
        out = union(o, *hs)
        fin = may(st.finalbody, union(out, mid) or set(mid), loc, bad)
        return DEAD if out is DEAD else out | (fin or set()) if st.finalbody else out
    if isinstance(st, ast.With):
        for i in st.items:
            use(i.context_expr, s, loc, bad)
            if i.optional_vars is not None:
                s |= set(stores(i.optional_vars))
        return may(st.body, s, loc, bad)
    if isinstance(st, (ast.Import, ast.ImportFrom)):
        return s | {(a.asname or a.name).split('.')[0] for a in st.names}
    if isinstance(st, ast.AugAssign):
        use(st.value, s, loc, bad)
        if isinstance(st.target, ast.Name):
            if st.target.id in loc and st.target.id not in s:
                bad.append((st.target.id, st.lineno))
        else:
            use(st.target, s, loc, bad)
        return s
    if isinstance(st, (ast.Assign, ast.AnnAssign)):
        use(st.value, s, loc, bad)
        ts = st.targets if isinstance(st, ast.Assign) else [st.target]
        for t in ts:
            use(t, s, loc, bad)
            if isinstance(st, ast.Assign) or st.value is not None:
                s |= set(stores(t))
        return s
    if isinstance(st, ast.Delete):
        return s
    if st.__class__.__name__ == 'Match':
        return s | set(loc)
    for c in ast.iter_child_nodes(st):
        use(c, s, loc, bad)
    return s | set(stores(st))


def atom(t, v):
    """Facts that hold when test t comes out as v (a list of (text, bool)); None when t cannot come out so."""
    while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        t, v = t.operand, not v
    if isinstance(t, ast.Constant):
        return [] if bool(t.value) == v else None
    if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) == v:
        out = []
        for q in t.values:
            r = atom(q, v)
            if r is None:
                return None
            out += r
        return out
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        neg = {ast.NotEq: '==', ast.IsNot: 'is', ast.NotIn: 'in'}.get(type(t.ops[0]))
        pos = {ast.Eq: '==', ast.Is: 'is', ast.In: 'in'}.get(type(t.ops[0]))
        if neg or pos:
            return [(f"{ast.unparse(t.left)} {neg or pos} {ast.unparse(t.comparators[0])}", v == bool(pos))]
    return [(ast.unparse(t), v)]


def constrain(states, t, v):
    new = atom(t, v)
    if new is None:
        return []
    out = []
    for a, facts in states:
        if not any((q, not w) in facts for q, w in new) and not any(w and excludes(q, facts) for q, w in new):
            out.append((a, facts | frozenset(x for x in new if subject(x[0]) in FACTS)))
    return out


def excludes(q, facts):
    """q is `expr == constant` and a different constant is already known."""
    m = re.match(r"(.*) (?:==|is) (\S+)$", q)
    if not m:
        return False
    return any(w and r != q and r.startswith(m.group(1) + ' == ') and CONST.match(m.group(2)) and CONST.match(r[len(m.group(1)) + 4:]) for r, w in facts)


CONST = re.compile(r"""^(?:'[^']*'|"[^"]*"|-?[\d.]+|None|True|False)$""")


def forget(states, names):
    if not names:
        return states
    pat = re.compile(r'(?<!\w)(?:%s)(?!\w)' % '|'.join(map(re.escape, names)))
    return merge([(a | (VARS & set(names)), frozenset(x for x in f if not pat.search(x[0]))) for a, f in states])


def merge(states):
    states = list(dict.fromkeys(states))
    if len(states) > 512:
        return [(frozenset().union(*[a for a, _ in states]), frozenset())]
    return states


def touch(n, states, loc, late, extra=()):
    if n is None:
        return
    walrus = {x.target.id for x in ast.walk(n) if isinstance(x, ast.NamedExpr)} | set(extra)
    for r in reads(n):
        if r.id in loc and r.id not in walrus:
            for a, facts in states:
                if r.id not in a:
                    late.setdefault((r.id, r.lineno), facts)


def exhaustive(st):
    """An if/elif chain over the values of one expression is taken to list them all."""
    subj, n = set(), 0
    while True:
        t = st.test
        ps = t.values if isinstance(t, ast.BoolOp) else [t]
        for q in ps:
            if isinstance(q, ast.UnaryOp) and isinstance(q.op, ast.Not):
                q = q.operand
            subj.add(ast.unparse(q.left) if isinstance(q, ast.Compare) else ast.unparse(q.args[0]) if isinstance(q, ast.Call) and q.args else ast.unparse(q))
        n += 1
        if len(st.orelse) == 1 and isinstance(st.orelse[0], ast.If):
            st = st.orelse[0]
            continue
        return not st.orelse and n > 1


def paths(body, states, loc, late):
    """States (assigned locals, branch facts) that reach the end of body; loops run at least once."""
    for st in body:
        if not states:
            return states
        states = merge(advance(st, states, loc, late))
    return states


def advance(st, states, loc, late, chain=False):
    if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
        return forget(states, {st.name})
    if isinstance(st, (ast.Return, ast.Raise)):
        for c in ast.iter_child_nodes(st):
            touch(c, states, loc, late)
        return []
    if isinstance(st, (ast.Break, ast.Continue)):
        return []
    if isinstance(st, ast.Assert):
        touch(st.test, states, loc, late)
        return constrain(states, st.test, True)
    if isinstance(st, ast.If):
        touch(st.test, states, loc, late)
        w = {x.target.id for x in ast.walk(st.test) if isinstance(x, ast.NamedExpr)}
        states = forget(states, w)
        yes = paths(st.body, constrain(states, st.test, True), loc, late)
        no = constrain(states, st.test, False)
        if chain and not st.orelse:
            return yes                     # last elif of a chain without else
        if len(st.orelse) == 1 and isinstance(st.orelse[0], ast.If):
            no = advance(st.orelse[0], no, loc, late, chain or exhaustive(st))
        else:
            no = paths(st.orelse, no, loc, late)
        return yes + no
    if isinstance(st, (ast.For, ast.While, ast.AsyncFor)):
        if isinstance(st, ast.While):
            touch(st.test, states, loc, late)
        else:
            touch(st.iter, states, loc, late)
            states = forget(states, set(stores(st.target)))
        inner = {x for b in st.body for x in stores(b)}
        # a name set anywhere in the body may have been set by an earlier round
        states = forget(states, inner | {n.name for b in st.body for n in ast.walk(b) if isinstance(n, (ast.FunctionDef, ast.ClassDef))})
        paths(st.body, states, loc, late)
        return states
    if isinstance(st, ast.Try) or st.__class__.__name__ == 'TryStar':
        ok = paths(st.body, states, loc, late)
        mid = {x for q in st.body for x in stores(q)} | {n.name for q in st.body for n in ast.walk(q) if isinstance(n, (ast.FunctionDef, ast.ClassDef))} | \
            {(a.asname or a.name).split('.')[0] for q in st.body for n in ast.walk(q) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
        # a simple body fails before it assigns anything; of a longer one nothing is known
        one = len(st.body) == 1 and isinstance(st.body[0], (ast.Assign, ast.AnnAssign, ast.Import, ast.ImportFrom))
        out = []
        for h in st.handlers:
            hin = forget(states, ({h.name} if h.name else set()) | (set() if one else mid))
            out += paths(h.body, hin, loc, late)
        out += paths(st.orelse, ok, loc, late)
        if st.finalbody:
            return paths(st.finalbody, out, loc, late)
        return out
    if isinstance(st, (ast.With, ast.AsyncWith)):
        for i in st.items:
            touch(i.context_expr, states, loc, late)
            if i.optional_vars is not None:
                states = forget(states, set(stores(i.optional_vars)))
        return paths(st.body, states, loc, late)
    if isinstance(st, (ast.Import, ast.ImportFrom)):
        return forget(states, {(a.asname or a.name).split('.')[0] for a in st.names})
    if st.__class__.__name__ == 'Match':
        return [(a | frozenset(loc), frozenset()) for a, f in states]
    if isinstance(st, ast.AugAssign):
        touch(st.value, states, loc, late)
        if isinstance(st.target, ast.Name):
            for a, facts in states:
                if st.target.id in loc and st.target.id not in a:
                    late.setdefault((st.target.id, st.lineno), facts)
            return forget(states, {st.target.id})
        touch(st.target, states, loc, late)
        return states
    if isinstance(st, ast.Delete):
        return states
    new = set(stores(st))
    for c in ast.iter_child_nodes(st):
        touch(c, states, loc, late)
    attrs = {n.attr for n in ast.walk(st) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
    states = forget(states, new)
    if attrs:
        pat = re.compile(r'\.(?:%s)(?!\w)' % '|'.join(map(re.escape, attrs)))
        states = [(a, frozenset(x for x in f if not pat.search(x[0]))) for a, f in states]
    return states


def modattrs(ck, P, m):
    """module.name for modules of this package."""
    alias = {k: v for k, v in m.imports.items() if v in P.mods}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in alias:
            nm = f"{m.rel}:{n.lineno} {n.value.id}.{n.attr}"

            def go():
                good = P.has(alias[n.value.id] + '.' + n.attr) or n.attr.startswith('__')
                ck.ok('every name is defined', nm) if good else ck.bad('every name is defined', nm, f"{alias[n.value.id]} has no such name")
            ck.obligation('every name is defined', nm, go)
    # names of numpy and scipy, against their type stubs and sources
    for n in ast.walk(m.tree):
        d = dotted(n)
        if d and isinstance(n, ast.Attribute) and d.split('.')[0] in m.imports:
            full = m.imports[d.split('.')[0]] + '.' + '.'.join(d.split('.')[1:])
            library(ck, f"{m.rel} {d}", full, f"{m.rel}:{n.lineno}")
        if isinstance(n, ast.ImportFrom) and n.module and not n.level:
            for a in n.names:
                library(ck, f"{m.rel} from {n.module} import {a.name}", n.module + '.' + a.name, f"{m.rel}:{n.lineno}")


def dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = dotted(n.value)
        return b and b + '.' + n.attr
    return None


_lib = {}


def site():
    for p in ('/opt/venv/lib/python3.*/site-packages',):
        g = glob.glob(p)
        if g:
            return g[0]
    return None


def library(ck, label, full, where):
    parts = full.split('.')
    if parts[0] not in ('numpy', 'scipy') or len(parts) < 2 or site() is None:
        return
    if parts[0] == 'scipy' and len(parts) < 3:
        return

    def words(d):
        if d not in _lib:
            w = set(os.listdir(d)) if os.path.isdir(d) else set()
            w = {x.split('.')[0] for x in w}
            for e in ('__init__.py', '__init__.pyi'):
                q = os.path.join(d, e)
                if os.path.exists(q):
                    w |= set(re.findall(r'\w+', open(q, encoding='utf-8').read()))
            stars = re.findall(r'from \.(\w+) import \*', open(os.path.join(d, '__init__.py'), encoding='utf-8').read()) if os.path.exists(os.path.join(d, '__init__.py')) else []
            for x in stars:
                for e in ('.py', '.pyi'):
                    q = os.path.join(d, x + e)
                    if os.path.exists(q):
                        w |= set(re.findall(r'\w+', open(q, encoding='utf-8').read()))
            _lib[d] = w
        return _lib[d]

    def go():
        d = os.path.join(site(), parts[0])
        if not os.path.isdir(d):
            return
        for k, name in enumerate(parts[1:], 1):
            if name not in words(d):
                return ck.bad('every name is defined', label, f"{'.'.join(parts[:k])} has no name {name}", [where])
            d = os.path.join(d, name)
            if not os.path.isdir(d):
                break
        ck.ok('every name is defined', label)
    ck.obligation('every name is defined', label, go)


def class_attrs(P, mod, cls):
    out, known = set(), True
    chain, known = P.bases(mod, cls)
    for md, c in chain:
        for s in c.body:
            for n in P.mods[md].walk(s):
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    out.add(n.name)
                elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.add(n.id)
        for n in ast.walk(c):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id in ('self', 'cls'):
                out.add(n.attr)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr':
                if len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                    out.add(n.args[1].value)
                else:
                    out.add('*')
            if isinstance(n, ast.FunctionDef) and n.name in ('__getattr__', '__getattribute__', '__setattr__'):
                out.add('*')
            if isinstance(n, ast.Attribute) and n.attr == '__dict__':
                out.add('*')
    return out, known


def attributes(ck, P):
    """self.name is an attribute of the class or a base of it."""
    for (mod, cn), c in P.classes.items():
        m = P.mods[mod]
        attrs, known = class_attrs(P, mod, c)
        # a mixin may rely on attributes of the classes it is combined with
        sub = [k for k in P.classes.items() if (mod, c) in P.bases(k[0][0], k[1])[0] and k[1] is not c]
        allowed = [class_attrs(P, a, b) for (a, _), b in sub]
        for f in c.body:
            if not isinstance(f, ast.FunctionDef) or any(isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod') for d in f.decorator_list):
                continue
            if not f.args.args or f.args.args[0].arg != 'self':
                continue
            nm = f"{mod}.{cn}.{f.name}"

            def go():
                ck.analysed.add(nm)
                if not known or '*' in attrs and cn not in ('EarthquakeInterferogram',):
                    return ck.undecided('every attribute is defined', nm, 'attributes not known statically')
                bad = []
                for n in ast.walk(f):
                    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self' and isinstance(n.ctx, ast.Load):
                        if n.attr in attrs or hasattr(object, n.attr) or n.attr in ('__dict__', '__class__', '__name__'):
                            continue
                        if allowed and all(n.attr in a for a, _ in allowed):
                            continue
                        if any(isinstance(q, ast.Call) and isinstance(q.func, ast.Name) and q.func.id == 'hasattr' for q in ast.walk(f)):
                            continue
                        bad.append(n)
                for n in bad:
                    ck.bad('every attribute is defined', f"{nm}: self.{n.attr}", 'neither the class nor its bases define it', [f"{m.rel}:{n.lineno}"])
                if not bad:
                    ck.ok('every attribute is defined', nm)
            ck.obligation('every attribute is defined', nm, go)


# ------------------------------------------------------------------ calls
def accepts(f, call, bound):
    """Why call does not fit the signature of f (None if it does or cannot be told)."""
    a = f.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    if bound:
        if not pos and not a.vararg:
            return 'takes no self'
        pos = pos[1:]
    kwo = [x.arg for x in a.kwonlyargs]
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        for k in call.keywords:
            if k.arg and k.arg not in pos + kwo and not a.kwarg:
                return f"unexpected keyword {k.arg}"
        return None
    n = len(call.args)
    if n > len(pos) and not a.vararg:
        return f"{n} positional arguments given, {len(pos)} accepted"
    posonly = {x.arg for x in a.posonlyargs}
    given = set(pos[:n])
    for k in call.keywords:
        if k.arg in given:
            return f"{k.arg} given twice"
        if (k.arg not in pos + kwo or k.arg in posonly) and not a.kwarg:
            return f"unexpected keyword {k.arg}"
        given.add(k.arg)
    need = pos[:len(pos) - len(a.defaults)] if len(a.defaults) <= len(pos) else []
    miss = [p for p in need if p not in given] + [p for p, d in zip(kwo, a.kw_defaults) if d is None and p not in given]
    if miss:
        return f"{', '.join(miss)} missing"
    return None


PLAIN = ('requires',)


def plain(f):
    """Decorators that keep the signature."""
    for d in f.decorator_list:
        n = d.func if isinstance(d, ast.Call) else d
        if not (isinstance(n, ast.Name) and n.id in PLAIN):
            return False
    return True


def calls(ck, P):
    for m in P.mods.values():
        fns = [(f, None) for f in m.tree.body if isinstance(f, ast.FunctionDef)] + \
              [(f, c) for c in m.tree.body if isinstance(c, ast.ClassDef) for f in c.body if isinstance(f, ast.FunctionDef)]
        for f, c in fns:
            nm = f"{m.name}.{c.name + '.' if c else ''}{f.name}"

            def go():
                bad = []
                shadow = {x.arg for x in f.args.posonlyargs + f.args.args + f.args.kwonlyargs} | {x for b in f.body for x in stores(b)}
                for n in ast.walk(f):
                    if not isinstance(n, ast.Call):
                        continue
                    why = None
                    if isinstance(n.func, ast.Name) and n.func.id not in shadow:
                        r = P.resolve(m.name, n.func.id)
                        if r and isinstance(r[1], ast.FunctionDef) and plain(r[1]):
                            why = accepts(r[1], n, False)
                        elif r and isinstance(r[1], ast.ClassDef):
                            i = find(P, r[0], r[1], '__init__')
                            why = accepts(i, n, True) if i is not None else None
                    elif c is not None and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'self':
                        t = find(P, m.name, c, n.func.attr)
                        if t is not None and not overridden(P, m.name, c, n.func.attr):
                            st = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in t.decorator_list)
                            if st and len(t.decorator_list) == 1:
                                why = accepts(t, n, False)
                            elif plain(t):
                                why = accepts(t, n, True)
                    if why:
                        bad.append((n, why))
                for n, why in bad:
                    ck.bad('every call fits its callee', f"{nm}: {ast.unparse(n.func)}", why, [f"{m.rel}:{n.lineno}"])
                if not bad:
                    ck.ok('every call fits its callee', nm)
            ck.obligation('every call fits its callee', nm, go)


def find(P, mod, c, name):
    chain, known = P.bases(mod, c)
    for md, k in chain:
        fs = [s for s in k.body if isinstance(s, ast.FunctionDef) and s.name == name]
        if len(fs) == 1 and not any(isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets) for s in k.body):
            return fs[0]
        if fs:
            return None
        if any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == name for s in k.body for x in P.mods[md].walk(s)):
            return None
    return None


def overridden(P, mod, c, name):
    return any((mod, c) in P.bases(k[0], b)[0] and b is not c and any(isinstance(s, ast.FunctionDef) and s.name == name for s in b.body)
               for k, b in P.classes.items())


# ------------------------------------------------------------------ documented examples
def doctests(P):
    """(label, code) of the examples in docstrings and of the example scripts."""
    for m in P.mods.values():
        stack = [(m.name, m.tree)]
        while stack:
            label, n = stack.pop()
            doc = ast.get_docstring(n) or ''
            lines = [q.group(1) for q in (re.match(r'\s*(?:>>>|\.\.\.) ?(.*)$', x) for x in doc.splitlines()) if q]
            if lines:
                yield f"example of {label}", '\n'.join(lines)
            stack += [(label + '.' + c.name, c) for c in n.body if isinstance(c, (ast.FunctionDef, ast.ClassDef))]
    for p in sorted(glob.glob(os.path.join(repo(), 'examples', '**', '*.py'), recursive=True)):
        yield os.path.relpath(p, repo()), open(p, encoding='utf-8').read()


def examples(ck, P):
    for label, code in doctests(P):
        try:
            tree = ast.parse(code)
        except SyntaxError:
            continue

        def go():
            bad = []
            alias, inst = {}, {}
            for n in ast.walk(tree):
                if isinstance(n, ast.ImportFrom) and (n.module or '').split('.')[0] == 'geoana':
                    for a in n.names:
                        if a.name == '*':
                            continue
                        d = n.module + '.' + a.name
                        alias[a.asname or a.name] = d
                        if not P.has(d):
                            bad.append(f"{d} does not exist")
                elif isinstance(n, ast.Import):
                    for a in n.names:
                        if a.name.split('.')[0] == 'geoana':
                            alias[a.asname or a.name.split('.')[0]] = a.name if a.asname else 'geoana'
                            if not P.has(a.name):
                                bad.append(f"{a.name} does not exist")

            def target(f):
                d = dotted(f)
                if not d or d.split('.')[0] not in alias:
                    return None
                full = '.'.join([alias[d.split('.')[0]]] + d.split('.')[1:])
                if '.' not in full:
                    return None
                mod, last = full.rsplit('.', 1)
                if mod not in P.mods:
                    return None
                if not P.has(full):
                    bad.append(f"{full} does not exist")
                    return None
                return P.resolve(mod, last)
            stored = {}
            for n in ast.walk(tree):
                for x in [n.id] if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) else []:
                    stored[x] = stored.get(x, 0) + 1
            for n in ast.walk(tree):
                if isinstance(n, ast.Call):
                    r = target(n.func)
                    why = None
                    if r and isinstance(r[1], ast.FunctionDef) and plain(r[1]):
                        why = accepts(r[1], n, False)
                    elif r and isinstance(r[1], ast.ClassDef):
                        i = find(P, r[0], r[1], '__init__')
                        why = accepts(i, n, True) if i is not None else None
                    if why:
                        bad.append(f"{ast.unparse(n.func)}: {why}")
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    r = target(n.value.func)
                    if r and isinstance(r[1], ast.ClassDef) and stored.get(n.targets[0].id) == 1:
                        inst[n.targets[0].id] = r
            for n in ast.walk(tree):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in inst:
                    md, c = inst[n.value.id]
                    attrs, known = class_attrs(P, md, c)
                    if known and '*' not in attrs and n.attr not in attrs and not hasattr(object, n.attr):
                        bad.append(f"{c.name}.{n.attr} does not exist")
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in inst:
                    t = find(P, *inst[n.func.value.id], n.func.attr)
                    if t is not None and plain(t):
                        why = accepts(t, n, True)
                        if why:
                            bad.append(f"{ast.unparse(n.func)}: {why}")
            for b in dict.fromkeys(bad):
                ck.bad('documented example resolves', f"{label}: {b.split(':')[0]}", b)
            if not bad:
                ck.ok('documented example resolves', label)
        ck.obligation('documented example resolves', label, go)


# ------------------------------------------------------------------ dependencies
class Without(Interp):
    """Abstract import with some distributions missing."""
    missing = ()

    def ext(self, name):
        if name.split('.')[0] in self.missing:
            raise AbsRaise('ModuleNotFoundError' if False else 'ImportError', f"No module named {name.split('.')[0]!r}", ir.G.loc)
        if name.split('.')[0] == 'numba':
            return self.np.resolve(self, name)
        return self.np.resolve(self, name)

    def load(self, name):
        if name.startswith('geoana.kernels._extensions') and 'geoana.kernels._extensions' in self.missing and name not in self.mods:
            raise AbsRaise('ImportError', name, ir.G.loc)
        return super().load(name)


def dependencies(ck, P):
    std = None
    import sys
    std = set(sys.stdlib_module_names)
    for m in P.mods.values():
        for n in m.tree.body:
            for s in m.walk(n):
                if not isinstance(s, (ast.Import, ast.ImportFrom)) or isinstance(s, ast.ImportFrom) and s.level:
                    continue
                for top in ({a.name.split('.')[0] for a in s.names} if isinstance(s, ast.Import) else {(s.module or '').split('.')[0]}):
                    nm = f"{m.rel}: import of {top}"
                    if top in std or top in REQUIRED or top == 'geoana':
                        continue

                    def go():
                        ok = guarded_import(m.tree, s)
                        ck.ok('only declared dependencies are needed', nm) if ok else ck.bad(
                            'only declared dependencies are needed', nm, 'not a declared dependency, and its absence is not handled', [f"{m.rel}:{s.lineno}"])
                    ck.obligation('only declared dependencies are needed', nm, go)
    base = ('geoana.kernels._extensions',)
    for miss in ((), ('matplotlib',), ('utm',), ('matplotlib', 'utm'), base, ('matplotlib', 'utm') + base):
        tag = 'nothing missing' if not miss else 'without ' + ', '.join('compiled kernels' if q.startswith('geoana') else q for q in miss)
        nm = f"import of every module, {tag}"

        def go():
            ir.reset()
            from . import scen
            scen.World._base.pop('b', None)
            I = Without(None, None)
            I.missing = set(miss) | {'numba'}
            I.compiled = {'_extensions', 'potential_field_prism', 'rTE'}
            I.repo = repo()
            try:
                for q in P.mods:
                    if '_extensions' in q or q.endswith('_version'):
                        continue
                    I.load(q)
            except AbsRaise as e:
                return ck.bad('imports without optional packages', nm, f"import raises {e}", [str(e.loc)])
            ck.ok('imports without optional packages', nm)
            for q, m in P.mods.items():
                if q not in I.mods:
                    continue
                ns = I.heap[I.mods[q].nsid]
                want = [d for d, cur in documented(m) if cur == q and '.' not in d] + list((alls(m) or ([],))[0])
                gone = [d for d in want if d not in ns and P.has(q + '.' + d)]
                for d in gone:
                    ck.bad('imports without optional packages', f"{q}.{d}, {tag}", 'not defined')
            # functions that need a missing package are skipped, the others are there
            for mod, cls, f, used in users(P):
                q = f"{mod}.{cls + '.' if cls else ''}{f.name}, {tag}"
                v = I.heap[I.mods[mod].nsid].get(cls or f.name)
                if cls and isinstance(v, X.ClassV):
                    v = I.class_lookup(v, f.name)
                rule = 'functions of a missing package are skipped'
                if not isinstance(v, X.FuncV):
                    ck.undecided(rule, q, f"bound to {type(v).__name__}")
                    continue
                lost = [d for d in used if d in miss]
                if lost and v.node is f or lost and same(v.node, f):
                    if handles(f, lost) or inner(P, mod, cls, f, lost, I):
                        ck.ok(rule, q)
                    else:
                        ck.bad(rule, q, f"runs although {', '.join(lost)} is missing", [f"{P.mods[mod].rel}:{f.lineno}"])
                    continue
                if not lost and v.node is not f and not same(v.node, f):
                    ck.bad(rule, q, 'not available although nothing it needs is missing', [f"{P.mods[mod].rel}:{f.lineno}"])
                    continue
                if lost:
                    try:
                        r = I.call(v, [X.NONE if hasattr(X, 'NONE') else None] * len(f.args.args), {})
                        r2 = I.call(v, [None], {'anything': None})
                    except AbsRaise as e:
                        ck.bad(rule, q, f"raises {e} instead of being skipped", [f"{P.mods[mod].rel}:{f.lineno}"])
                        continue
                ck.ok(rule, q)
            ns = I.heap[I.mods['geoana'].nsid]
            if 'compiled' in ns:
                want = base[0] not in miss
                q = f"geoana.compiled, {tag}"
                if ns['compiled'] is want:
                    ck.ok('compiled tells whether the compiled kernels are in use', q)
                else:
                    ck.bad('compiled tells whether the compiled kernels are in use', q, f"is {ns['compiled']!r}")
                try:
                    d = I.call(ns['show_config'], [], {})
                    got = dict((k, w) for k, w in I.heap[d.id].items()) if hasattr(d, 'id') else d
                    w = got.get('compiled', '?') if isinstance(got, dict) else '?'
                    if w is want:
                        ck.ok('compiled tells whether the compiled kernels are in use', f"show_config(), {tag}")
                    else:
                        ck.bad('compiled tells whether the compiled kernels are in use', f"show_config(), {tag}", f"reports {w!r}")
                except (AbsRaise, KeyError) as e:
                    ck.bad('compiled tells whether the compiled kernels are in use', f"show_config(), {tag}", f"raises {e}")
        try:
            ck.obligation('imports without optional packages', nm, go)
        finally:
            from . import scen
            scen.World._base.pop('b', None)


def users(P):
    """(module, class, function, optional packages it uses itself)."""
    for m in P.mods.values():
        opt = {k: v.split('.')[0] for k, v in m.imports.items() if v.split('.')[0] in ('matplotlib', 'utm')}
        for f, c in [(f, None) for f in m.tree.body if isinstance(f, ast.FunctionDef)] + \
                [(f, c) for c in m.tree.body if isinstance(c, ast.ClassDef) for f in c.body if isinstance(f, ast.FunctionDef)]:
            deco = {id(q) for d in f.decorator_list for q in ast.walk(d)}
            used = {opt[n.id] for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in opt and id(n) not in deco}
            for q in ast.walk(f):
                if isinstance(q, ast.Import):
                    used |= {a.name.split('.')[0] for a in q.names} & {'matplotlib', 'utm'}
                elif isinstance(q, ast.ImportFrom) and not q.level:
                    used |= {(q.module or '').split('.')[0]} & {'matplotlib', 'utm'}
            if used:
                yield m.name, c.name if c else None, f, sorted(used)


def same(a, b):
    return isinstance(a, ast.FunctionDef) and (a.name, a.lineno) == (b.name, b.lineno)


def inner(P, mod, cls, f, lost, I):
    """A private helper whose callers are all skipped."""
    m = P.mods[mod]
    if not f.name.startswith('_'):
        return False
    callers = []
    for c in [None] + [c for c in m.tree.body if isinstance(c, ast.ClassDef)]:
        for x in (c.body if c else m.tree.body):
            if isinstance(x, ast.FunctionDef) and x is not f and any(
                    isinstance(q, ast.Call) and (isinstance(q.func, ast.Attribute) and q.func.attr == f.name or isinstance(q.func, ast.Name) and q.func.id == f.name)
                    for q in ast.walk(x)):
                callers.append((c, x))
    for c, x in callers:
        v = I.heap[I.mods[mod].nsid].get(c.name if c else x.name)
        if c and isinstance(v, X.ClassV):
            v = I.class_lookup(v, x.name)
        if isinstance(v, X.FuncV) and same(v.node, x) and not handles(x, lost):
            return False
    return bool(callers)


def handles(f, left):
    """The function tests for the package itself."""
    for n in ast.walk(f):
        if isinstance(n, ast.Try) and any(isinstance(q, (ast.Import, ast.ImportFrom)) for b in n.body for q in ast.walk(b)):
            return True
        if isinstance(n, ast.If) and any(isinstance(q, ast.Name) and q.id in tuple(left) + ('plt',) for q in ast.walk(n.test)):
            return True
    return False


def guarded_import(tree, s):
    """The import is inside a try that handles ImportError."""
    for n in ast.walk(tree):
        if isinstance(n, ast.Try) and any(s is q for b in n.body for q in ast.walk(b)):
            for h in n.handlers:
                ts = [h.type] if not isinstance(h.type, ast.Tuple) else h.type.elts
                if h.type is None or any(isinstance(t, ast.Name) and t.id in ('ImportError', 'ModuleNotFoundError', 'Exception', 'BaseException') for t in ts):
                    return True
    return False
