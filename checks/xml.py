"""XML documents and number formatting as values: what pugixml, snprintf and strto* do with known texts."""
import re
from engine import alg, ir
from engine.alg import num
from engine.ir import Ptr, rc


class Node:
    def __init__(self, tag, parent=None):
        self.tag, self.parent, self.attrs, self.children, self.text = tag, parent, {}, [], ''

    def find(self, tag, after=None):
        cs = self.children
        if after is not None:
            cs = cs[cs.index(after) + 1:]
        return next((c for c in cs if c.tag == tag), None)


class Attr:
    def __init__(self, node, name):
        self.node, self.name = node, name


class Text:
    """The text child of a node."""

    def __init__(self, node):
        self.node = node


def cstr(ev, st, p):
    """The known C string at p, or None."""
    out = []
    while len(out) < 4096:
        c = ir.constval(ev.load(st, ev.gep(p, num(len(out))), 'i8', 1))
        if c is None:
            return None
        if c == 0:
            return ''.join(out)
        out.append(chr(int(c) % 256))
    return None


class Xml:
    def __init__(self):
        self.objs, self.docs, self.files, self.values, self.ntext = [], [], {}, [], 0

    # handles
    def ptr(self, o):
        if o is None:
            return alg.leaf(ir.NULL)
        if o not in self.objs:
            self.objs.append(o)
        return alg.leaf(Ptr(('xml', self.objs.index(o)), rc(0)))

    def obj(self, v):
        ls = alg.leaves(v)
        if len(ls) == 1 and isinstance(ls[0], Ptr) and isinstance(ls[0].base, tuple) and ls[0].base[0] == 'xml':
            return self.objs[ls[0].base[1]]
        return None

    def this(self, ev, st, p):
        return self.obj(ev.load(st, p, 'ptr', 8))

    def put(self, ev, st, s):
        """A C string in fresh memory."""
        self.ntext += 1
        p = alg.leaf(Ptr(('heap', 'text', self.ntext), rc(0)))
        for k, c in enumerate(s.encode('latin1') + b'\0'):
            ev.store(st, ev.gep(p, num(k)), num(c), 'i8', 1, alg.TRUE, None)
        return p

    def __call__(self, ev, ins, ops, st, cond):
        d = ins.get('dem') or ins.get('fn') or ''
        f = ins.get('fn')
        if f == 'snprintf':
            return self.snprintf(ev, ops, st)
        if f in ('strtol', 'strtoll', 'strtod', 'strtof', '__isoc23_strtol', '__isoc23_strtoll'):
            return self.strto(ev, f, ops, st)
        if f == 'strcmp':
            a, b = cstr(ev, st, ops[0]), cstr(ev, st, ops[1])
            return None if a is None or b is None else num((a > b) - (a < b))
        if f == 'strlen':
            a = cstr(ev, st, ops[0])
            return None if a is None else num(len(a))
        m = re.match(r'(?:\S+ )*?pugi::(\w+)::(~?\w+|operator\W+|operator bool)\(([^)]*)\)', d)
        return self.pugi(ev, m.group(1), m.group(2).strip(), m.group(3), ops, st) if m else None

    def pugi(self, ev, cls, fn, args, ops, st):
        def set_(p, o):
            ev.store(st, p, self.ptr(o), 'ptr', 8, alg.TRUE, None)
        if cls == 'xml_document':
            if fn == 'xml_document':
                set_(ops[0], Node('document'))
            elif fn == 'save_file':
                self.files[cstr(ev, st, ops[1])] = self.this(ev, st, ops[0])
                return alg.TRUE
            elif fn == 'load_file':
                # the parse result comes first
                p, doc, name = ops[0], ops[1], ops[2]
                set_(doc, self.files.get(cstr(ev, st, name)))
                ev.store(st, p, num(0), 'i32', 4, alg.TRUE, None)
            return alg.UNDEF
        if cls == 'xml_parse_result' and fn == 'operator bool':
            return alg.cmp('eq', ev.load(st, ops[0], 'i32', 4), num(0))
        if cls == 'xml_named_node_iterator':
            it = ops[0]
            if fn.startswith('operator!') or fn.startswith('operator='):
                a, b = (self.this(ev, st, p) for p in ops[:2])
                return alg.TRUE if (a is b) == fn.startswith('operator=') else alg.FALSE
            if fn == 'operator++':
                n = self.this(ev, st, it)
                set_(it, n.parent.find(n.tag, n))
                return it
            if fn.startswith('operator'):
                return it
            return alg.UNDEF
        if fn == 'children':
            r, this, tag = ops[0], ops[1], cstr(ev, st, ops[2])
            n = self.this(ev, st, this)
            set_(r, n.find(tag) if n else None)
            set_(ev.gep(r, num(24)), None)
            return alg.UNDEF
        if not ops:
            return None
        n = self.this(ev, st, ops[0])
        t = cstr(ev, st, ops[1]) if len(ops) > 1 and 'char const*' in args else None
        if fn == 'append_child':
            c = Text(n) if t is None else Node(t, n)
            if t is not None:
                n.children.append(c)
            return self.ptr(c)
        if fn == 'append_attribute':
            n.attrs[t] = ''
            return self.ptr(Attr(n, t))
        if fn in ('operator=', 'set_value'):
            if isinstance(n, Attr):
                n.node.attrs[n.name] = t
            elif isinstance(n, Text):
                n.node.text = t
            return alg.TRUE if fn == 'set_value' else ops[0]
        if fn == 'child':
            return self.ptr(n.find(t) if n else None)
        if fn == 'next_sibling':
            return self.ptr(n.parent.find(t, n) if n else None)
        if fn == 'attribute':
            return self.ptr(Attr(n, t) if n and t in n.attrs else None)
        if fn == 'name':
            return self.put(ev, st, n.tag if n else '')
        if fn == 'value':
            return self.put(ev, st, n.node.attrs[n.name] if isinstance(n, Attr) else '')
        if fn == 'child_value':
            return self.put(ev, st, n.text if n else '')
        return None

    # numbers
    def snprintf(self, ev, ops, st):
        fmt = cstr(ev, st, ops[2])
        size = ir.constval(ops[1])
        if fmt is None or size is None:
            return None
        v = ops[3]
        c = ir.constval(v)
        if c is None:
            if v not in self.values:
                self.values.append(v)
            s = '?%d' % self.values.index(v)
        else:
            s = re.sub(r'%l+', '%', fmt) % (int(c) if fmt[-1] in 'du' else float(c))
        if size:
            for k, b in enumerate(s[:int(size) - 1].encode() + b'\0'):
                ev.store(st, ev.gep(ops[0], num(k)), num(b), 'i8', 1, alg.TRUE, None)
        return num(len(s))

    def strto(self, ev, f, ops, st):
        s = cstr(ev, st, ops[0])
        if s is None:
            return None
        whole = f.rstrip('l').endswith('o')
        m = re.match(r'\s*([-+]?\d+)' if whole else r'\s*(\?\d+|[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?)', s)
        n = len(m.group(0)) if m else 0
        if ir.constval(ops[1]) != 0 and not (len(alg.leaves(ops[1])) == 1 and alg.leaves(ops[1])[0] == ir.NULL):
            ev.store(st, ops[1], ev.gep(ops[0], num(n)), 'ptr', 8, alg.TRUE, None)
        if not m:
            return num(0)
        if m.group(1).startswith('?'):
            return self.values[int(m.group(1)[1:])]
        return num(int(m.group(1))) if whole else num(alg.Fraction(m.group(1)))
