"""Property id -> analysis."""
import os
import pickle
import signal
import sys
import traceback
from . import gf
from .checklib import Check, Broken, OutOfTime, limit_time


def _sym(name):
    def go(ck):
        from . import p_sym
        getattr(p_sym, name)(ck)
    return go


def _field(name):
    def go(ck):
        from . import p_field
        getattr(p_field, name)(ck)
    return go


def _ref(name):
    def go(ck):
        from . import p_ref
        getattr(p_ref, name)(ck)
    return go


def _mod(mod, name):
    def go(ck):
        import importlib
        getattr(importlib.import_module('geostat.' + mod), name)(ck)
    return go


def _units(ck):
    from . import p_units
    p_units.run(ck)


RULES = {
    'C01': (_units, "dimension inference over the value graph of every public method, property and function; mixed sums, "
                    "comparisons and results confirmed by scaling all inputs in free base units"),
    'C02': (_sym('run_translation'), "value graph of f(source+t, points+t) equals that of f(source, points)"),
    'C03': (_sym('run_linearity'), "value graph at strength*lambda equals lambda times the value graph"),
    'C04': (_sym('run_rotation'), "value graph of the rotated configuration equals the rotated value graph"),
    'C05': (_field('run_equations'), "formal curl/div of the value graphs satisfy the governing equations"),
    'C06': (_field('run_derivatives'), "fields equal the formal derivatives of their potentials; time derivatives those of the fields"),
    'C07': (_field('run_constitutive'), "flux and current densities equal the material parameter times the field"),
    'C10': (_field('run_tensors'), "gradient tensors are symmetric with the trace of the governing equation"),
    'C11': (_ref('run_static'), "value graph of every static source equals the documented closed form"),
    'C12': (_ref('run_fdem'), "value graph of every frequency-domain source, property and function equals the documented closed form"),
    'C13': (_ref('run_tdem'), "value graph of every time-domain source, property and function equals the documented closed form"),
    'C14': (_ref('run_gravity'), "value graph of every gravity source equals the documented closed form"),
    'C08': (_mod('p_struct', 'run_decomposition'), "value graphs of parts add up to the value graph of the whole"),
    'C09': (_mod('p_struct', 'run_interfaces'), "branch-resolved value graphs of both sides agree on the interface"),
    'C15': (_mod('p_state', 'run_shapes'), "shape and element-type inference over every documented call; values compared across batch shapes"),
    'C16': (_mod('p_state', 'run_purity'), "abstract heap after every call compared with the heap before it; value graphs along evaluation and setter histories compared with those of new sources"),
    'C17': (_mod('p_valid', 'run'), "exception and guard analysis of every constructor, setter and evaluation; state after a rejected assignment compared with the state before"),
    'C18': (_mod('p_spatial', 'run'), "value graph of every coordinate, rotation and grid helper equals its definition; compositions equal the identity"),
    'C19': (_mod('p_kernels', 'run'), "value graphs of the compiled (Cython, C++) and Python kernels equal their definitions and formal derivatives; every C++ access inside its buffer"),
    'C20': (_mod('p_quake', 'run'), "value graphs of the earthquake model equal Okada's closed form and the line-of-sight definition; parameters read back, are owned and are range-checked"),
    'C21': (_mod('p_cross', 'run'), "value graphs (or formal derivatives) of two sources, or of one source under exchange or in a limit, are equal"),
    'C22': (_mod('p_names', 'run'), "name, attribute, call and definite-assignment resolution over every path of every module; imports replayed with the optional dependencies absent"),
    'C23': (_mod('p_plot', 'run'), "plot2Ddata interpreted with a recording drawing library and uninterpreted interpolants: values, coordinates, "
                                   "levels, limits and options that reach each drawing call equal their definition"),
}


QUICK = 600      # seconds for a quick run


def part(ck, go):
    if ck.tier == 'quick':
        limit_time(QUICK)
    try:
        go(ck)
    except OutOfTime:
        ck.undecided('analysis', ck.pid, 'no time left')
    except Broken as e:
        return f"ANALYSIS-BROKEN: {e}"
    except Exception:
        return traceback.format_exc()
    finally:
        signal.alarm(0)
    return None


def run(pid, tier, seed):
    """Obligations are dealt out to one process per core; the results are merged in order."""
    go, rule = RULES[pid]
    ck = Check(pid, tier, seed, rule)
    gf.EFFORT[0] = 4 if tier == 'thorough' else 1
    n = int(os.environ.get('GEOSTAT_PROCS', 0)) or min(8, os.cpu_count() or 1)
    if n == 1:
        err = [part(ck, go)]
    else:
        kids = []
        sys.stdout.flush()
        for r in range(n):
            rd, wr = os.pipe()
            pid_ = os.fork()
            if pid_ == 0:
                code = 1
                try:
                    os.close(rd)
                    ck.rank, ck.of = r, n
                    e = part(ck, go)
                    with os.fdopen(wr, 'wb') as f:
                        pickle.dump((e, ck.state()), f)
                    code = 0
                finally:
                    os._exit(code)
            os.close(wr)
            kids.append((pid_, rd))
        err = []
        for k, rd in kids:
            with os.fdopen(rd, 'rb') as f:
                data = f.read()
            os.waitpid(k, 0)
            if not data:
                err.append('an analysis process ended early')
                continue
            e, st = pickle.loads(data)
            err.append(e)
            ck.merge(st)
    if any(err):
        print(next(e for e in err if e))
        return 2
    return ck.finish()
