"""Independent Unicode reference: data from Perl's Unicode database, algorithms from UAX #29 and UAX #14."""
import bisect
import subprocess

PERL = r'''
use Unicode::UCD qw(prop_invmap);
for my $p ("GCB", "ExtPict", "LB", "EA", "GC", "Age", "White_Space") {
  my ($l, $m, $f, $d) = prop_invmap($p);
  print "$p";
  for my $i (0 .. $#$l) { print " ", $l->[$i], "=", $m->[$i]; }
  print "\n";
}
'''
_data = None


class Prop:
    def __init__(self, starts, vals):
        self.s, self.v = starts, vals

    def __call__(self, c):
        return self.v[bisect.bisect_right(self.s, c) - 1]


def data():
    global _data
    if _data is None:
        o = subprocess.run(['perl', '-e', PERL], stdout=subprocess.PIPE, check=True).stdout.decode()
        _data = {}
        for l in o.splitlines():
            f = l.split(' ')
            s, v = [], []
            for x in f[1:]:
                a, b = x.split('=')
                s.append(int(a))
                v.append(b)
            _data[f[0]] = Prop(s, v)
    return _data


def known14(c):
    """assigned in Unicode 14 or earlier"""
    a = data()['Age'](c)
    if a in ('Unassigned', 'NA'):
        return False
    return float(a.replace('V', '').replace('_', '.')) <= 14.0


def gcb(c):
    """short name of the grapheme break class; EP for Extended_Pictographic"""
    g = data()['GCB'](c)
    if g in ('Other', 'XX') and data()['ExtPict'](c) in ('Y', 'Yes'):
        return 'EP'
    return {'Other': 'XX', 'ExtPict_XX': 'EP', 'Control': 'CN', 'Extend': 'EX', 'Regional_Indicator': 'RI', 'Prepend': 'PP',
            'SpacingMark': 'SM'}.get(g, g)


def gc_boundaries(cps):
    """indices where extended grapheme clusters begin (UAX #29, Unicode 14/15.0)"""
    out = []
    cl = [gcb(c) for c in cps]
    ctl = ('CN', 'CR', 'LF')
    for i in range(len(cl)):
        if i == 0:
            out.append(0)
            continue
        a, b = cl[i - 1], cl[i]
        if a == 'CR' and b == 'LF':
            continue
        if a in ctl or b in ctl:
            out.append(i)
            continue
        if a == 'L' and b in ('L', 'V', 'LV', 'LVT'):
            continue
        if a in ('LV', 'V') and b in ('V', 'T'):
            continue
        if a in ('LVT', 'T') and b == 'T':
            continue
        if b in ('EX', 'ZWJ', 'SM') or a == 'PP':
            continue
        if a == 'ZWJ' and b == 'EP':
            j = i - 2
            while j >= 0 and cl[j] == 'EX':
                j -= 1
            if j >= 0 and cl[j] == 'EP':
                continue
        if a == 'RI' and b == 'RI':
            n = 0
            j = i - 1
            while j >= 0 and cl[j] == 'RI':
                n += 1
                j -= 1
            if n % 2:
                continue
        out.append(i)
    return out


def graphemes(s):
    b = gc_boundaries([ord(c) for c in s]) + [len(s)]
    return [s[b[i]:b[i + 1]] for i in range(len(b) - 1)]


def width1(c):
    d = data()
    if d['EA'](c) in ('W', 'F', 'Wide', 'Fullwidth'):
        return 2
    if d['GC'](c) in ('Mn', 'Me', 'Nonspacing_Mark', 'Enclosing_Mark'):
        return 0
    return 1


def width(s):
    return sum(width1(ord(c)) for c in s)


def white(c):
    return data()['White_Space'](c) in ('Y', 'Yes')


LBNAME = {'Alphabetic': 'AL', 'Break_After': 'BA', 'Break_Before': 'BB', 'Break_Both': 'B2', 'Mandatory_Break': 'BK',
          'Contingent_Break': 'CB', 'Close_Punctuation': 'CL', 'Combining_Mark': 'CM', 'Close_Parenthesis': 'CP',
          'Carriage_Return': 'CR', 'E_Base': 'EB', 'E_Modifier': 'EM', 'Exclamation': 'EX', 'Glue': 'GL',
          'Hyphen': 'HY', 'Ideographic': 'ID', 'Hebrew_Letter': 'HL', 'Inseparable': 'IN', 'Infix_Numeric': 'IS',
          'Line_Feed': 'LF', 'Next_Line': 'NL', 'Nonstarter': 'NS', 'Numeric': 'NU', 'Open_Punctuation': 'OP',
          'Postfix_Numeric': 'PO', 'Prefix_Numeric': 'PR', 'Quotation': 'QU', 'Regional_Indicator': 'RI',
          'Space': 'SP', 'Break_Symbols': 'SY', 'Word_Joiner': 'WJ', 'ZWSpace': 'ZW', 'Ambiguous': 'AI',
          'Surrogate': 'SG', 'Unknown': 'XX', 'Conditional_Japanese_Starter': 'CJ', 'Complex_Context': 'SA',
          'Inseperable': 'IN'}


def lb(c):
    """line break class resolved by LB1"""
    l = data()['LB'](c)
    l = LBNAME.get(l, l)
    if l in ('AI', 'SG', 'XX'):
        return 'AL'
    if l == 'CJ':
        return 'NS'
    if l == 'SA':
        return 'CM' if data()['GC'](c) in ('Mn', 'Mc', 'Nonspacing_Mark', 'Spacing_Mark') else 'AL'
    return l


PAIRS25 = {('CL', 'PO'), ('CP', 'PO'), ('CL', 'PR'), ('CP', 'PR'), ('NU', 'PO'), ('NU', 'PR'), ('PO', 'OP'),
           ('PO', 'NU'), ('PR', 'OP'), ('PR', 'NU'), ('HY', 'NU'), ('IS', 'NU'), ('NU', 'NU'), ('SY', 'NU')}
HARD = ('BK', 'CR', 'LF', 'NL')
KOR = ('JL', 'JV', 'JT', 'H2', 'H3')


def lb_opportunities(cps):
    """indices i such that a line may be broken between i-1 and i (UAX #14 without tailoring, for text that
    holds no mandatory break, ZW or CB).  None where the two readings of the standard differ"""
    raw = [lb(c) for c in cps]
    # LB9/LB10: resolved class of each character and whether it continues a combining sequence
    cl, cont = [], []
    for i, x in enumerate(raw):
        if x in ('CM', 'ZWJ') and i > 0 and cl[i - 1] not in HARD + ('SP', 'ZW'):
            cl.append(cl[i - 1])
            cont.append(True)
        elif x in ('CM', 'ZWJ'):
            cl.append('AL')
            cont.append(False)
        else:
            cl.append(x)
            cont.append(False)
    out = []
    for i in range(1, len(cl)):
        if cont[i]:
            continue
        if raw[i - 1] == 'ZWJ':                                        # LB8a
            continue
        a, b = cl[i - 1], cl[i]
        j = i - 1
        while j >= 0 and cl[j] == 'SP':
            j -= 1
        s = cl[j] if j >= 0 else None                                  # class before any spaces
        # the class before a, skipping the combining sequence a belongs to
        k = i - 1
        while k > 0 and cont[k]:
            k -= 1
        p = cl[k - 1] if k > 0 else None
        if b in HARD or b in ('SP', 'ZW'):                             # LB6, LB7
            continue
        if a == 'WJ' or b == 'WJ' or a == 'GL':                        # LB11, LB12
            continue
        if b == 'GL' and a not in ('SP', 'BA', 'HY'):                  # LB12a
            continue
        if b in ('CL', 'CP', 'EX', 'IS', 'SY'):                        # LB13
            continue
        if s == 'OP':                                                  # LB14
            continue
        if s == 'QU' and b == 'OP':                                    # LB15
            continue
        if s in ('CL', 'CP') and b == 'NS':                            # LB16
            continue
        if s == 'B2' and b == 'B2':                                    # LB17
            continue
        if a == 'SP':                                                  # LB18
            out.append(i)
            continue
        if b == 'QU' or a == 'QU':                                     # LB19
            continue
        if b in ('BA', 'HY', 'NS') or a == 'BB':                       # LB21
            continue
        if p == 'HL' and a in ('HY', 'BA'):                            # LB21a
            continue
        if a == 'SY' and b == 'HL':                                    # LB21b
            continue
        if b == 'IN':                                                  # LB22
            continue
        if a in ('AL', 'HL') and b == 'NU' or a == 'NU' and b in ('AL', 'HL'):      # LB23
            continue
        if a == 'PR' and b in ('ID', 'EB', 'EM') or a in ('ID', 'EB', 'EM') and b == 'PO':   # LB23a
            continue
        if a in ('PR', 'PO') and b in ('AL', 'HL') or a in ('AL', 'HL') and b in ('PR', 'PO'):  # LB24
            continue
        if (a, b) in PAIRS25:                                          # LB25
            continue
        if a == 'JL' and b in ('JL', 'JV', 'H2', 'H3') or a in ('JV', 'H2') and b in ('JV', 'JT') or \
                a in ('JT', 'H3') and b == 'JT':                       # LB26
            continue
        if a in KOR and b == 'PO' or a == 'PR' and b in KOR:           # LB27
            continue
        if a in ('AL', 'HL') and b in ('AL', 'HL'):                    # LB28
            continue
        if a == 'IS' and b in ('AL', 'HL'):                            # LB29
            continue
        if a in ('AL', 'HL', 'NU') and b == 'OP' or a == 'CP' and b in ('AL', 'HL', 'NU'):   # LB30
            continue
        if a == 'RI' and b == 'RI':                                    # LB30a
            n = 0
            q = i - 1
            while q >= 0 and cl[q] == 'RI':
                if not cont[q]:
                    n += 1
                q -= 1
            if n % 2:
                continue
        if a == 'EB' and b == 'EM':                                    # LB30b
            continue
        out.append(i)
    return out


def wrap(s, cols):
    """greedy wrapping: list of (start, end) character indices.  Lines begin after leading white space"""
    out = []
    i = 0
    n = len(s)
    while i < n and cols:
        rest = [ord(c) for c in s[i:]]
        w = 0
        fit = 0
        while fit < len(rest) and w + width1(rest[fit]) <= cols:
            w += width1(rest[fit])
            fit += 1
        if fit == len(rest):
            out.append((i, n))
            break
        opp = [x for x in lb_opportunities(rest) if x <= fit]
        # an opportunity needs a visible line before it
        opp = [x for x in opp if sum(width1(c) for c in rest[:x]) > 0]
        e = opp[-1] if opp else max(fit, 1)
        out.append((i, i + e))
        i += e
        while i < n and white(ord(s[i])):
            i += 1
    return out


_byclass = {}


def of_class(prop, val, limit=0x30000):
    """code points (known in Unicode 14) of a class, below limit"""
    if not _byclass:
        for c in range(0x30000):
            if 0xD800 <= c <= 0xDFFF or not known14(c):
                continue
            _byclass.setdefault(('G', gcb(c)), []).append(c)
            _byclass.setdefault(('L', lb(c)), []).append(c)
    return _byclass.get((prop, val), [])
