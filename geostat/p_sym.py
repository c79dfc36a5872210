"""C02 translation invariance, C03 linearity in the source strength, C04 rotation covariance."""
from . import ir, gf, scen, sym, spec

POSK = ('pos', 'posneg', 'pospos', 'posmin', 'posmax', 'nodes', 'posz0')
OBS = ('xyz', 'xy')


def run_translation(ck):
    deep = True
    for s, var, m, o in scen.all_cases(deep):
        def one():
            c = scen.Case(s, var, m, o, batch=('N',))
            ck.note(c.w)
            pos = sym.vec_names(s, POSK)
            if m not in s.methods:
                return
            free = {0, 1, 2}
            cyl = o.get('coordinates') == 'cylindrical'
            if cyl:
                free = {2}
            if s.frame in ('half', 'vertical'):
                free = {0, 1}
            if not pos and s.frame != 'vertical':
                return

            def f(name, idx):
                if cyl and name == 'cyl_z':
                    return ir.add(ir.sym(name, idx), ir.sym('shift_z'))
                if (name in pos or name in OBS) and idx[-1] in free:
                    return ir.add(ir.sym(name, idx), ir.sym(f"shift_{'xyz'[idx[-1]]}"))
            g = sym.sub_sym(c.nodes, f)
            res = gf.decide(list(zip(c.nodes, g)), c.w.signs, c.guards, seed=ck.seed)
            ck.verdict('translation', c.name(), res, ir.where(res.idx[0]) if res.idx else (),
                       'field after translating source and observation points together')
        ck.obligation('translation', f"{s.id}.{m} {o} {var}", one)


def run_linearity(ck):
    deep = True
    cases = [(s, var, m, o, None) for s, var, m, o in scen.all_cases(deep)] + \
            [(f, var, None, fl, 1) for f, var, fl in scen.fn_cases(deep)]
    for s, var, m, o, isfn in cases:
        def one():
            c = scen.FnCase(s, var, o) if isfn else scen.Case(s, var, m, o, batch=('N',))
            ck.note(c.w)
            for p in s.strength:
                name = c.name() + f" in {p}"
                vec = s.params[p].kind == 'vec'
                lam = ir.sym('lam')

                def scale(n, idx):
                    if n == p:
                        return ir.mul(lam, ir.sym(n, idx))

                g = sym.sub_sym(c.nodes, scale)
                pairs = [(a, ir.mul(lam, b)) for a, b in zip(g, c.nodes)]
                if vec:
                    add = sym.sub_sym(c.nodes, lambda n, i: ir.add(ir.sym(p, i), ir.sym(p + "'", i)) if n == p else None)
                    oth = sym.sub_sym(c.nodes, lambda n, i: ir.sym(p + "'", i) if n == p else None)
                    pairs += [(a, ir.add(b, d)) for a, b, d in zip(add, c.nodes, oth)]
                signs = {k: v for k, v in c.w.signs.items() if k != p}
                res = gf.decide(pairs, signs, c.guards, seed=ck.seed)
                ck.verdict('linearity', name, res, ir.where(res.idx[0]) if res.idx else (),
                           f'field at {p} scaled by lambda and lambda times the field')
        ck.obligation('linearity', f"{s.id}.{m} {o} {var}", one)


def run_rotation(ck):
    deep = True
    for s, var, m, o in scen.all_cases(deep):
        if s.frame == 'axes':
            continue
        if o.get('coordinates') == 'cylindrical':
            continue

        def one():
            c = scen.Case(s, var, m, o, batch=('N',))
            ck.note(c.w)
            Q = sym.rotation() if s.frame == 'whole' else sym.rotation_z()
            vec = sym.vec_names(s, POSK + ('dir', 'dirh', 'vec')) | set(OBS)
            if any(isinstance(v, str) for v in c.variant.values()) and any(k in ('*dir', '*dirh') and v for k, v in var.items()):
                return

            def f(name, idx):
                if name in vec:
                    k = idx[-1]
                    if name == 'xy' or s.params.get(name) is not None and s.params[name].kind == 'xy':
                        return sym.lincomb(Q[k][:2], [ir.sym(name, idx[:-1] + (j,)) for j in range(2)])
                    cs, ns = [], []
                    for j in range(3):
                        if name in s.params and s.params[name].kind in spec.FLATZ and j == 2:
                            continue
                        cs.append(Q[k][j])
                        ns.append(ir.sym(name, idx[:-1] + (j,)))
                    return sym.lincomb(cs, ns)
            g = sym.sub_sym(c.nodes, f)
            byidx = {(j, idx): n for j, idx, n in c.outs}
            pairs = []
            rank = s.methods[m].rank
            for (j, idx, n), gn in zip(c.outs, g):
                if rank == 0:
                    pairs.append((gn, n))
                elif rank == 1:
                    pairs.append((gn, sym.lincomb(Q[idx[-1]], [byidx[j, idx[:-1] + (q,)] for q in range(3)])))
                else:
                    acc = ir.const(0)
                    for a in range(3):
                        for b in range(3):
                            cc = Q[idx[-2]][a] * Q[idx[-1]][b]
                            acc = ir.add(acc, ir.mul(ir.const(cc), byidx[j, idx[:-2] + (a, b)]))
                    pairs.append((gn, acc))
            res = gf.decide(pairs, c.w.signs, c.guards, seed=ck.seed)
            ck.verdict('rotation', c.name(), res, ir.where(res.idx[0]) if res.idx else (),
                       'field of the rotated configuration and the rotated field')
        ck.obligation('rotation', f"{s.id}.{m} {o} {var}", one)
