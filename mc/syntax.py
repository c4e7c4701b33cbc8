"""
Printing of model programs with as few parentheses and separators as the
grammar allows (ref.program_text parenthesises everything).
"""
import ref

OR, AND, NOT, CMP, ADD, MUL, UNARY, POW, ATOM = range(1, 10)
BINARY = {
    "|": (OR, OR, AND), "&": (AND, AND, NOT),
    "+": (ADD, ADD, MUL), "-": (ADD, ADD, MUL),
    "*": (MUL, MUL, UNARY), "/": (MUL, MUL, UNARY), "div": (MUL, MUL, UNARY), "mod": (MUL, MUL, UNARY),
    "**": (POW, ATOM, UNARY),
}
for _op in ref.COMPARE + ("=", "=.."):
    BINARY[_op] = (CMP, ADD, ADD)


def wrap(s, level, need):
    return "(%s)" % s if level < need else s


def binary(op, left, right, need):
    level, l, r = BINARY[op]
    return wrap("%s %s %s" % (term(left, l), op, term(right, r)), level, need)


def term(t, need=OR):
    k = t[0]
    if k == "n":
        s = ref.fmt_num(t[1])
        return wrap(s, UNARY if s.startswith("-") else ATOM, need)
    if k == "f":
        r = t[1]
        if t[2]:
            r += "(%s)" % ",".join(term(a) for a in t[2])
        if t[3]:
            r += "[%s]" % ",".join(term(a) for a in t[3])
        return r
    if k == "l":
        return "[%s]" % ",".join(term(a, AND) for a in t[1])
    if k == "c":
        return "[%s|%s]" % (term(t[1], AND), term(t[2], AND))
    if k == "o":
        return binary(t[1], t[2], t[3], need)
    if k == "u":
        if t[1] == "not":
            return wrap("not " + term(t[2], NOT), NOT, need)
        inner = term(t[2], UNARY)
        return wrap(t[1] + (" " if inner[0] in "+-" else "") + inner, UNARY, need)
    return ref.text(t)


def query(q, need=OR):
    k = q[0]
    if k == "lit":
        return term(q[1], need)
    if k == "and":
        return wrap("%s & %s" % (query(q[1], AND), query(q[2], NOT)), AND, need)
    if k == "or":
        return wrap("%s | %s" % (query(q[1], OR), query(q[2], AND)), OR, need)
    if k == "not":
        return wrap("not " + query(q[1], NOT), NOT, need)
    if k == "cmp":
        return binary(q[1], q[2], q[3], need)
    if k == "uni":
        return binary("=", q[1], q[2], need)
    if k == "act":
        return q[1] + ("(%s)" % ",".join(map(term, q[2])) if q[2] else "")
    return ref.qtext(q)


def statement(st):
    k = st[0]
    if k in ("if", "for", "while"):
        r = "%s (%s) {%s}" % (k, query(st[1]), body(st[2]))
        if k == "if" and len(st) > 3 and st[3] is not None:
            r += " else {%s}" % body(st[3])
        return r
    if k == "q":
        return query(st[1])
    return k + term(st[1])


def body(stmts):
    out = []
    for i, st in enumerate(stmts):
        out.append(statement(st))
        if i + 1 < len(stmts):
            out.append(" " if st[0] in ("if", "for", "while") else "; ")
    return "".join(out)


def plan(p):
    label, trigger, head, ctx, stmts = p
    r = "@%s " % label if label else ""
    r += trigger + term(head)
    if ctx is not None:
        r += " : " + query(ctx)
    if stmts:
        r += " <- " + body(stmts)
    return r + "."


def program(prog):
    beliefs, rules, goals, plans = prog
    out = [term(b) + "." for b in beliefs]
    out += ["%s :- %s." % (term(h), query(q)) for h, q in rules]
    out += ["!%s." % term(g) for g in goals]
    out += [plan(p) for p in plans]
    return "\n".join(out) + "\n"
