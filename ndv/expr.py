"""Reference evaluator of nd's integer expressions: C operators on wrapping i64."""
import re

PREC = {"*": 10, "/": 10, "%": 10, "+": 9, "-": 9, "<<": 8, ">>": 8, "<": 7, "<=": 7, ">": 7, ">=": 7,
        "&": 5, "^": 4, "|": 3}


class EvalError(Exception):
    pass


class ParseError(Exception):
    pass


def wrap(x):
    x &= (1 << 64) - 1
    return x - (1 << 64) if x >> 63 else x


# With SIGN_OF_DIFFERENCE set, comparisons are what the known finding "comparison-overflow" says they are.
SIGN_OF_DIFFERENCE = False
OVERFLOWS = [0]     # comparisons evaluated so far whose difference does not fit in 64 bits


def compare(o, a, b):
    d = {"<": b - a - 1, "<=": b - a, ">": a - b - 1, ">=": a - b}[o]
    if wrap(d) != d:
        OVERFLOWS[0] += 1
        if SIGN_OF_DIFFERENCE:
            d = wrap(d)
    return int(d >= 0)


def apply(o, a, b):
    if o == "+":
        r = a + b
    elif o == "-":
        r = a - b
    elif o == "*":
        r = a * b
    elif o in "/%":
        if b == 0:
            raise EvalError("division by zero")
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0):
            q = -q
        r = q if o == "/" else a - q * b
    elif o == "<<":
        if not 0 <= b < 64:
            raise EvalError("shift")     # undefined in C; never generated
        r = a << b
    elif o == ">>":
        if not 0 <= b < 64:
            raise EvalError("shift")
        r = a >> b
    elif o in ("<", "<=", ">", ">="):
        r = compare(o, a, b)
    elif o == "&":
        r = a & b
    elif o == "^":
        r = a ^ b
    elif o == "|":
        r = a | b
    else:
        raise ParseError(o)
    return wrap(r)


UNITS = {"": 1, "k": 10**3, "M": 10**6, "G": 10**9, "T": 10**12, "P": 10**15, "E": 10**18,
         "ki": 1 << 10, "Mi": 1 << 20, "Gi": 1 << 30, "Ti": 1 << 40, "Pi": 1 << 50, "Ei": 1 << 60}

TOK = re.compile(r"\s*(?:(0[xX][0-9a-fA-F]+|0[bB][01]+|0[oO][0-7]+|0[dD][0-9]+|[0-9]+)((?:[kMGTPE]i?)?)"
                 r"|([a-z])|(<<|>>|<=|>=|[-+*/%<>&^|~()\[\]]))")


def parse(s, arrays="", scalars=""):
    """-> AST: ('c', v) ('v', name) ('a', name, ast) ('u', op, ast) ('b', op, l, r)"""
    toks = []
    p = 0
    while s[p:].strip():
        m = TOK.match(s, p)
        if not m:
            raise ParseError(s[p:])
        num, unit, var, op = m.groups()
        if num is not None:
            pre = num[:2].lower()
            if pre in ("0x", "0b", "0o", "0d"):
                v = int(num[2:], {"x": 16, "b": 2, "o": 8, "d": 10}[pre[1]])
            elif len(num) > 1 and num[0] == "0":
                v = int(num, 8)
            else:
                v = int(num)
            toks.append(("c", v * UNITS[unit]))
        elif var is not None:
            toks.append(("v", var))
        else:
            toks.append(("o", op))
        p = m.end()
    toks.append(("$", None))
    i = [0]

    def peek():
        return toks[i[0]]

    def nxt():
        t = toks[i[0]]
        i[0] += 1
        return t

    def unary():
        t = nxt()
        if t == ("o", "(") :
            e = binary(0)
            if nxt() != ("o", ")"):
                raise ParseError("paren")
            return e
        if t[0] == "o" and t[1] in "+-~":
            return ("u", t[1], unary())
        if t[0] == "c":
            return t
        if t[0] == "v":
            if peek() == ("o", "["):
                nxt()
                e = binary(0)
                if nxt() != ("o", "]"):
                    raise ParseError("bracket")
                if t[1] not in arrays:
                    raise ParseError("var")
                return ("a", t[1], e)
            if t[1] not in scalars:
                raise ParseError("var")
            return t
        raise ParseError(repr(t))

    def binary(minp):
        lhs = unary()
        while True:
            t = peek()
            if t[0] != "o" or t[1] not in PREC or PREC[t[1]] < minp:
                return lhs
            nxt()
            lhs = ("b", t[1], lhs, binary(PREC[t[1]] + 1))

    e = binary(0)
    if peek()[0] != "$":
        raise ParseError("trailing")
    return e


def evaluate(t, env=None, elem=None):
    k = t[0]
    if k == "c":
        return wrap(t[1])
    if k == "v":
        return env[t[1]]
    if k == "a":
        return elem(t[1], evaluate(t[2], env, elem))
    if k == "u":
        x = evaluate(t[2], env, elem)
        return wrap({"+": x, "-": -x, "~": ~x}[t[1]])
    return apply(t[1], evaluate(t[2], env, elem), evaluate(t[3], env, elem))


# ------------------------------------------------------------------ templates
def parse_template(s):
    out = []
    p = 0
    while p < len(s):
        if s[p] != "{":
            q = s.find("{", p)
            q = len(s) if q < 0 else q
            out.append(("t", s[p:q]))
            p = q
            continue
        m = re.compile(r"\{([nl]|\(.*?\))(?::([^{}]*))?\}").match(s, p)
        if not m:
            raise ParseError(s[p:])
        out.append(("e", parse(m.group(1), scalars="nl"), m.group(2) or "d"))
        p = m.end()
    return out


def fmt_int(v, f):
    m = re.match(r"^(?:(.)?([<>^]))?([+])?(#)?(0)?(\d+)?([dxXbo]?)$", f)
    fill, al, plus, alt, zero, width, ty = m.groups()
    base = {"": "d", "d": "d", "x": "x", "X": "X", "b": "b", "o": "o"}[ty]
    if base == "d":
        digits, neg = format(abs(v), "d"), v < 0
    else:
        digits, neg = format(v & ((1 << 64) - 1) if v < 0 else v, base), False
    pre = {"x": "0x", "X": "0x", "b": "0b", "o": "0o", "d": ""}[base] if alt else ""
    sign = "-" if neg else ("+" if plus else "")
    w = int(width) if width else 0
    if zero:
        return sign + pre + digits.rjust(max(0, w - len(sign) - len(pre)), "0")
    body = sign + pre + digits
    pad = max(0, w - len(body))
    f = fill or " "
    if al == "<":
        return body + f * pad
    if al == "^":
        return f * (pad // 2) + body + f * (pad - pad // 2)
    return f * pad + body


def render(tmpl, env):
    out = []
    for t in tmpl:
        if t[0] == "t":
            out.append(t[1])
        else:
            out.append(fmt_int(evaluate(t[1], env), t[2]))
    return "".join(out)
