"""Loops whose trip count is settled by the analysed sizes are peeled: the body is value-numbered once per
iteration with the header values of that iteration, until the back edge is unreachable."""
from . import alg, harness
from .alg import FALSE, bor, Unsupported

LIMIT = 80


def summarize(ev, header, inc, cond):
    if ev.hooks.get('havoc'):
        return havoc(ev, header, inc, cond)
    L = ev.loops[header]['set']
    outs = []
    cur = inc
    ev.iterpath.append(0)
    try:
        for it in range(ev.loop_limit):
            c = FALSE
            live = []
            for x in cur:
                if x[1] is not FALSE:
                    live.append(x)
                    c = bor(c, x[1])
            if not live:
                return outs
            ev.iterpath[-1] = it
            st = ev.merge(live, c)
            ev.phis(header, live, c)
            exits = ev.region(L, header, {header: [(None, c, st)]}, header)
            cur = []
            for dst, lst in exits.items():
                for src, ec, es in lst:
                    if not isinstance(src, tuple):
                        src = snapshot(ev, src, dst)
                    if dst == header:
                        cur.append((src, ec, es))
                    else:
                        outs.append((src, dst, ec, es))
            if not cur:
                return outs
    finally:
        ev.iterpath.pop()
    raise Unsupported('loop at %s in %s is not bounded by the analysed sizes' % (where(ev, header), ev.fn['name']))


def havoc(ev, header, inc, cond):
    """A loop left unsummarised: whatever it carries round is unknown, its body is analysed once."""
    L = ev.loops[header]['set']
    st = ev.merge(inc, cond)
    for ins in ev.blocks[header]['ins']:
        if ins['op'] != 'phi':
            break
        if ins['ty'] not in ('double', 'float'):
            raise Unsupported('loop-carried %s' % ins['ty'])
        ev.env[ins['id']] = alg.leaf(alg.sym('loop%s' % ins['id']))
    before = {b: dict(c) for b, c in st.cells.items()}
    exits = ev.region(L, header, {header: [(None, cond, st)]}, header)
    outs = []
    for dst, lst in exits.items():
        for src, ec, es in lst:
            if {b: dict(c) for b, c in es.cells.items()} != before:
                raise Unsupported('loop with an unknown number of iterations writes memory')
            if dst != header:
                outs.append((snapshot(ev, src, dst) if not isinstance(src, tuple) else src, dst, ec, es))
    return outs


def snapshot(ev, src, dst):
    """Values the phis of dst receive over the edge src -> dst, taken now."""
    vals = {}
    for ins in ev.blocks[dst]['ins']:
        if ins['op'] != 'phi':
            break
        for o, pb in ins['in']:
            if pb == src:
                vals[ins['id']] = ev.op(o)
                break
    ev.nsnap += 1
    key = ('edge', src, ev.nsnap)
    ev.edge_vals[key] = vals
    return key


def where(ev, header):
    for b in [header] + ev.loops[header]['blocks']:
        for i in ev.blocks[b]['ins']:
            for l in i.get('loc') or ():
                if l.startswith(harness.REPO):
                    return l
    return '?'
