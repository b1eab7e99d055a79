"""Parser for values as TLC prints them."""
import re

_tok = re.compile(r'\s*(<<|>>|\|->|:>|@@|/\\|-?\d+|"(?:[^"\\]|\\.)*"|[A-Za-z_]\w*|[\[\](){},=])')


def tokens(s):
    p = 0
    out = []
    while p < len(s):
        mm = _tok.match(s, p)
        if not mm:
            break
        out.append(mm.group(1))
        p = mm.end()
    return out


class P:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def get(self, x=None):
        v = self.t[self.i]
        self.i += 1
        if x is not None and v != x:
            raise ValueError('expected %s got %s' % (x, v))
        return v

    def seq(self, end):
        out = []
        while self.peek() != end:
            out.append(self.val())
            if self.peek() == ',':
                self.get()
        self.get(end)
        return out

    def val(self):
        v = self.get()
        if v == '<<':
            return self.seq('>>')
        if v == '{':
            return self.seq('}')
        if v == '(':
            d = {}
            while True:
                k = self.val()
                self.get(':>')
                d[k if not isinstance(k, list) else tuple(k)] = self.val()
                if self.get() == ')':
                    return d
        if v == '[':
            d = {}
            while self.peek() != ']':
                k = self.get()
                self.get('|->')
                d[k] = self.val()
                if self.peek() == ',':
                    self.get()
            self.get(']')
            return d
        if v in ('TRUE', 'FALSE'):
            return v == 'TRUE'
        if v[0] == '"':
            return v[1:-1]
        if v.lstrip('-').isdigit():
            return int(v)
        return v


def states(out):
    """list of dicts, one per printed state of the error trace"""
    res = []
    for blk in re.split(r'\nState \d+:[^\n]*\n', out)[1:]:
        blk = blk.split('\n\n')[0]
        if not blk.lstrip().startswith('/\\'):
            blk = '/\\ ' + blk
        p = P(tokens(blk))
        d = {}
        try:
            while p.peek() == '/\\':
                p.get()
                k = p.get()
                p.get('=')
                d[k] = p.val()
        except Exception as ex:
            d['parse_error'] = str(ex)
        res.append(d)
    return res
