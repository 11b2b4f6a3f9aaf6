"""Reading values printed by TLC."""
import re
_tok = re.compile(r'\s*(<<|>>|\|->|[\[\]{},]|"(?:[^"\\]|\\.)*"|-?\d+|[A-Za-z_]\w*)')

def parse(s):
    toks = _tok.findall(s)
    pos = 0
    def val():
        nonlocal pos
        t = toks[pos]; pos += 1
        if t == '<<':
            out = []
            while toks[pos] != '>>':
                out.append(val())
                if toks[pos] == ',': pos += 1
            pos += 1
            if out and all(isinstance(x, str) and len(x) == 1 for x in out):
                return ''.join(out)
            return out
        if t == '{':
            out = []
            while toks[pos] != '}':
                out.append(val())
                if toks[pos] == ',': pos += 1
            pos += 1
            return out
        if t == '[':
            out = {}
            while toks[pos] != ']':
                k = toks[pos]; pos += 2
                out[k] = val()
                if toks[pos] == ',': pos += 1
            pos += 1
            return out
        if t[0] == '"':
            return re.sub(r'\\(.)', lambda m: {'n': '\n', 't': '\t', 'r': '\r', 'f': '\f'}.get(m.group(1), m.group(1)), t[1:-1])
        if t in ('TRUE', 'FALSE'):
            return t == 'TRUE'
        try:
            return int(t)
        except ValueError:
            return t
    return val()
