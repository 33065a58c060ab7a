"""Reference renderer of help output."""
import uni
from model import Model, Err, N
from tree import value_type

BARS = ('\u250c ', '\u251c ', '\u2514 ')


def value_suffix(n):
    if (n.minv is None and n.maxv is None) or n.rtb:
        return ''
    vt = value_type(n)
    if n.minv is not None:
        lo = str(n.minv)
    else:
        lo = '0' if vt.startswith('unsigned') or vt.startswith('std::uint') else '-N'
    return '<%s-%s>' % (lo, 'N' if n.maxv is None else n.maxv)


def value_sep_suffix(n):
    v = value_suffix(n) or '<Value>'
    if n.sep:
        return n.sep + v
    return ' ' + v if n.counts() == (1, 1) else ''


def count_suffix(n):
    a, b = n.counts()
    if a == b:
        return '[%d]' % a
    return '[%d,%s]' % (a, 'N' if b is None else b)


def label(n, lp, sp):
    if n.k == 'root':
        return ''
    if n.k == 'mode' and n.none is None:
        return ' '
    if n.k == 'pos':
        return '<%s> %s' % (n.disp, count_suffix(n))
    if n.k in ('oneof', 'agroup'):
        d = n.disp if n.disp is not None else {'oneof': 'One of: ', 'agroup': 'Alias Group: '}[n.k]
        return d + (value_suffix(n) if n.k == 'agroup' else '')
    names = [p + x for p, x in ((lp, n.long), (sp, n.short)) if x is not None] or [n.none]
    s = ','.join(names) + value_sep_suffix(n)
    return s + ' ' + count_suffix(n) if n.k in ('marg', 'fwd') else s


def children(n, flat):
    """nodes whose lines follow n's"""
    if n.k == 'mode' and n.none is not None and not flat:
        return []
    return n.ch


def column(n, flat, lp, sp, indent, depth=0, bar=False):
    """the widest label decides, disabled nodes included"""
    out = depth * indent + uni.width(label(n, lp, sp)) + (2 if bar else 0) + indent
    for c in children(n, flat):
        out = max(out, column(c, flat, lp, sp, indent, depth + 1, n.k in ('oneof', 'agroup')))
    return out


def find(root, mask, path, lp, sp):
    """-> the node the path leads to; Err if there is none or it is disabled"""
    m = Model(root, mask, lp, sp)
    node = root
    for t in path:
        for c in node.ch:
            if m.match(c, m.ttype_node(c, t)):
                if not m.enabled(c):
                    raise Err('unknown_argument', [(N, t)])
                node = c
                break
        else:
            raise Err('unknown_argument', [(N, t)])
    return node


def preamble(h):
    p = h.pre or {}
    o = ''
    if 'name' in p:
        o += p['name'] + (' ' + p['version'] if 'version' in p else '') + '\n\n'
    if 'intro' in p:
        o += p['intro'] + '\n\n'
    return o


def addendum(h):
    return '\n%s\n' % h.pre['addendum'] if h.pre and 'addendum' in h.pre else ''


def render(root, mask, h, target, columns, lp, sp):
    m = Model(root, mask, lp, sp)
    indent, off, _colour = fmt(h)
    flat = h.flat or target is not root
    col = column(target, flat, lp, sp, indent)
    out = []

    def line(n, depth, bar, flat):
        l = bar + label(n, lp, sp)
        if l:
            s = ' ' * (depth * indent) + l
            if n.desc:
                s += ' ' * (col - depth * indent - uni.width(l))
                if columns >= col + off:
                    b = n.desc
                    s += ('\n' + ' ' * col).join(b[x:y] for x, y in uni.wrap(b, columns - col))
                else:
                    s += n.desc
            out.append(s + '\n')
        kids = [c for c in children(n, flat) if m.enabled(c)]
        group = n.k in ('oneof', 'agroup') and len(kids) > 1
        for i, c in enumerate(kids):
            line(c, depth + 1, BARS[0 if i == 0 else 2 if i == len(kids) - 1 else 1] if group else '', flat)
    line(target, 0, '', flat)
    return preamble(h) + ''.join(out) + addendum(h)


def fmt(h):
    """(indent, description column offset, colour)"""
    return h.fmt or (4, 8, False)
