"""C17: including files equals writing their contents in place, and always ends."""
import harness
if __name__ == "__main__":
    harness.reexec()
import itertools
import scale
import os
import shutil
import tempfile

PROPERTY = "C17"
RULE = ("graphs: every include graph over three (thorough: four) files in nested directories, with up to two include directives per file to any file or a missing one, "
        "placed between beliefs, rules, goals and plans, with rotating spellings of the path; spellings: every spelling of every path between directories, absolute, "
        "through symbolic links, with the main file given in every way; faults: every kind of error in every file of every graph without cycles; directives: every placement of up to four begin and end directives between the parts of a program, of which a part may be in another file; walks: every walk through four directories with files of the same names, of up to five files; links: every path of up to three steps through directories and links to directories, and from the file found there again; chains: chains, cycles back to any file, "
        "diamonds and repetitions up to a size; a state is a distinct set of files, a transition a loaded file")
DESIGN = ("the files are written to a scratch directory and the main file is loaded as an open file. A model expands the directives: the loaded program, the trace of its "
          "run and its beliefs must be those of the expanded text; where the model meets a missing file or a file that is being included, exactly these directives must be "
          "reported, by file and line, and no agent be built. Errors in a file must be reported with that file and line, whether found when loading or running.")
ASSUMPTIONS = ["every file is a complete program", "the files do not change while they are loaded"]

# Directory of each file.
FILES = ["main.asl", "d/x.asl", "d/e/y.asl", "z.asl"]
PATHS = {}


def relative(a, b):
    """Path of file b as seen from file a."""
    return os.path.relpath(b, os.path.dirname(a) or ".")


def spell(a, b, how, root):
    """Spellings of the path from file a to file b."""
    rel = relative(a, b)
    d = os.path.dirname(a)
    if how == 0:
        return rel
    if how == 1:
        return "./" + rel
    if how == 2:
        return os.path.join(root, b)
    if how == 3:
        # Up and down again.
        up = "/".join([".."] * len([x for x in d.split("/") if x]) or ["."])
        return up + "/d/e/../../" + b
    if how == 4:
        # A link to the root directory.
        up = "/".join([".."] * len([x for x in d.split("/") if x]) or ["."])
        return up + "/self/" + b
    if how == 5:
        return rel.replace("/", "//./")
    if how == 6:
        return os.path.join(root, "self", "d", "..", b)
    if how == 7:
        up = "/".join([".."] * len([x for x in d.split("/") if x]) or ["."])
        return up + "/alias_" + os.path.basename(b)
    raise AssertionError(how)


HOWS = 8


def quote(s):
    return '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"')


# ---- scratch directory

_ROOT = []


def root():
    if not _ROOT or _ROOT[0] != os.getpid():
        _ROOT[:] = [os.getpid(), os.path.realpath(harness.scratch())]
        os.makedirs(os.path.join(_ROOT[1], "d", "e"))
        os.symlink(_ROOT[1], os.path.join(_ROOT[1], "self"))
        for f in FILES:
            # Aliases would resolve their own includes relative to the root, so only files there have them.
            os.symlink(f, os.path.join(_ROOT[1], "alias_" + os.path.basename(f)))
    return _ROOT[1]


def write(contents):
    r = root()
    for f, text in contents.items():
        with open(os.path.join(r, f), "w", encoding="utf-8") as out:
            out.write(text)
    for f in FILES:
        if f not in contents:
            try:
                os.unlink(os.path.join(r, f))
            except FileNotFoundError:
                pass


# ---- contents

def content(i, includes):
    """Segments of file i: texts and (directive text, target)."""
    segs = ["b(%d, 0).\n!g(%d, a).\n" % (i, i), "+!g(X, Y) : b(Z, X) <- .emit(%d, X, Y, Z).\nr(X) :- b(X, _).\n// c\n" % i,
            "+!g(X, Y) <- .emit(%d, X, Y, none).\nb(%d, %d).\n!g(0, %d).\n-b(X, Y) : r(X) <- .emit(%d).\n" % (i, i, i, i, i)]
    out = []
    for k, seg in enumerate(segs):
        out.append(seg)
        if k < len(includes):
            out.append(includes[k])
    return out


def expand(contents, f, stack, errors, out, seen):
    """Expansion of file f: appends its text to out and the bad directives to errors."""
    seen.append(f)
    line = 1
    for seg in contents[f]:
        if isinstance(seg, str):
            out.append(seg)
            line += seg.count("\n")
            continue
        text, target = seg
        if len(errors) >= 3:
            return
        if target not in contents or target in stack:
            errors.append((f, line))
        else:
            expand(contents, target, stack + [target], errors, out, seen)
        line += text.count("\n")


def load(main, stats, run=True):
    """Loads a file; returns (error locations, outcome)."""
    with impl.Capture() as log:
        trace = []
        r = impl.Run.__new__(impl.Run)
        r.trace = trace
        r.env = agentspeak.runtime.Environment()
        r.actions = impl.make_actions(trace)
        r.agents = []
        failed = None
        try:
            with open(main, encoding="utf-8") as source:
                r.agents.append(r.env.build_agent(source, r.actions, name="a"))
        except impl.ERRORS as e:
            failed = e
        if failed is None:
            stats.step(r.drive_faults())
    errors = [(os.path.realpath(loc.filename), loc.lineno) if loc else None for _, loc in log.errors()]
    if failed is not None:
        return errors, None, r.env.agents
    return errors, (trace, r.beliefs(), shape(r.agents[0])), r.env.agents


def shape(agent):
    """Rules and plans in order."""
    return ([[(getattr(p, "source", None), impl.to_ref(p.head)) for p in ps] for ps in agent.plans.values()],
            [[impl.to_ref(x.head) for x in rs] for rs in agent.rules.values()])


def judge(contents, stats, main=None):
    texts = dict((f, "".join(s if isinstance(s, str) else s[0] for s in segs)) for f, segs in contents.items())
    write(texts)
    stats.state(sorted(texts.items()))
    errors, out, seen = [], [], []
    expand(contents, FILES[0], [FILES[0]], errors, out, seen)
    stats.count("files_loaded", len(seen))
    r = root()
    got, outcome, agents = load(main or os.path.join(r, FILES[0]), stats)
    listing = "\n".join("==> %s\n%s" % x for x in sorted(texts.items()))
    if errors:
        want = [(os.path.join(r, f), line) for f, line in errors]
        if outcome is not None or agents:
            return "%s\nis loaded although there is an error at %r" % (listing, errors)
        if got[:len(want)] != want:
            return "%s\nreports errors at %r, expected %r" % (listing, got, want)
        stats.count("errors_reported")
        stats.validated += 1
        return None
    if outcome is None:
        return "%s\nis not loaded: errors at %r" % (listing, got)
    whole = "".join(out)
    plain = os.path.join(r, "whole.asl")
    with open(plain, "w", encoding="utf-8") as f:
        f.write(whole)
    _, want, _ = load(plain, stats)
    if want is None:
        return "expansion is no program: %s" % whole
    for a, b, what in zip(outcome, want, ("trace", "beliefs", "plans and rules")):
        if a != b:
            return "%s\nhas the %s %r, written in place it is %r" % (listing, what, a, b)
    stats.validated += 1
    return None


def directive(f, target, how, sep="\n"):
    return ("{include(%s)}%s" % (quote(spell(f, target, how, root())), sep), target)


# ---- graphs

def choices(n, most):
    out = []
    for k in range(most + 1):
        out += itertools.product(range(n + 1), repeat=k)
    return [list(c) for c in out]


def gen_graphs(tier):
    n = 3
    for graph in itertools.product(choices(n, 2), repeat=n):
        yield [list(graph)]
    if tier == "thorough":
        for graph in itertools.product(choices(4, 1), choices(4, 2), choices(4, 2), choices(4, 2)):
            yield [list(graph)]
        # Only the main file and two others, three directives in the main file.
        for graph in itertools.product([list(x) for x in itertools.product(range(4), repeat=3)], choices(n, 2), choices(n, 1)):
            yield [list(graph)]


def build(graph, offset=0):
    n = len(graph)
    contents = {}
    for i, targets in enumerate(graph):
        incs = []
        for k, t in enumerate(targets):
            f = FILES[i]
            target = FILES[t] if t < n else "d/missing.asl"
            how = (i + 2 * k + 3 * t + offset) % 7
            incs.append(directive(f, target, how, ("\n", " ", "// c\n", "/*\n*/")[(i + k + t) % 4]))
        contents[FILES[i]] = content(i, incs)
    return contents


def run_graphs(case, stats):
    graph = case[0]
    return judge(build(graph, sum(map(len, graph))), stats)


# ---- spellings

MAINS = ("abs", "rel", "dot", "link", "up")


def gen_spellings(tier):
    for m in MAINS:
        for i in range(4):
            for j in range(4):
                for h1, h2 in itertools.product(range(HOWS), repeat=2):
                    if h2 and tier != "thorough" and (h1 + h2) % 3:
                        continue
                    yield [m, i, j, h1, h2]


def run_spellings(case, stats):
    """The main file includes file i, which includes file j (which may be a cycle)."""
    m, i, j, h1, h2 = case
    contents = dict((f, content(k, [])) for k, f in enumerate(FILES))
    # A link to the file itself names it by another directory, so its own includes are resolved from there.
    if h1 == 7:
        h2 = 2
    contents[FILES[0]] = content(0, [directive(FILES[0], FILES[i], h1)])
    if i:
        contents[FILES[i]] = content(i, [directive(FILES[i], FILES[j], h2)])
    r = root()
    old = os.getcwd()
    try:
        os.chdir(os.path.join(r, "d") if m == "up" else r)
        main = {"abs": os.path.join(r, "main.asl"), "rel": "main.asl", "dot": ".//./main.asl", "link": "self/self/main.asl", "up": "../main.asl"}[m]
        return judge(contents, stats, main)
    finally:
        os.chdir(old)


# ---- begin and end

ITEMS = ["b(1, 0).", "!g(1, a).", "r(X) :- b(X, 1).", "+!g(X, Y) : b(Z, X) <- .emit(1, X, Y, Z).", "b(2, 1).", "!g(2, b).", "+!g(X, Y) <- .emit(2, X, Y).", "r(X) :- b(_, X).", "+b(X, Y) <- .emit(b, X, Y)."]
OPENINGS = ["{begin ns}", "{ begin a.b(1, X)[c]\n}", "{begin end_}"]
CLOSINGS = ["{end}", "{ end // c\n }"]


def nested(marks):
    depth = 0
    for m in marks:
        depth += 1 if m == "b" else -1
        if depth < 0:
            return False
    return depth == 0


def gen_directives(tier):
    n = len(ITEMS) + 1
    for k in (0, 1, 2, 3, 4) + ((6,) if tier == "thorough" else ()):
        for marks in itertools.product("be", repeat=k):
            if k < 4 or nested(marks):
                for places in itertools.combinations_with_replacement(range(0, n, 1 if k < 4 or tier == "thorough" and k < 6 else 2), k):
                    yield [list(marks), list(places), None]
    # A part of the program, with its directives, is in a file of its own.
    for marks in itertools.product("be", repeat=2):
        for places in itertools.combinations_with_replacement(range(n), 2):
            for cut in itertools.combinations(range(0, n), 2) if tier == "thorough" else [(0, n - 1), (2, 4), (4, 7), (1, 8)]:
                yield [list(marks), list(places), list(cut)]


def run_directives(case, stats):
    marks, places, cut = case
    parts = []          # (text, in the included file, mark)
    inside = False
    for i in range(len(ITEMS) + 1):
        if cut and i == cut[1]:
            inside = False
        here = [m for m, p in zip(marks, places) if p == i]
        for j, m in enumerate(here):
            parts.append(((OPENINGS if m == "b" else CLOSINGS)[(i + j) % 2], inside, m))
        if cut and i == cut[0]:
            inside = True
        if i < len(ITEMS):
            parts.append((ITEMS[i], inside, None))
    main, sub = [], []
    for text, where, _ in parts:
        if where and not sub:
            main.append("{include(\"z.asl\")}")
        (sub if where else main).append(text)
    good = all(nested([m for _, w, m in parts if m and w == side]) for side in (False, True))
    r = root()
    texts = {FILES[0]: "\n".join(main) + "\n"}
    if sub:
        texts[FILES[3]] = "\n".join(sub) + "\n"
    write(texts)
    stats.state(sorted(texts.items()))
    got, outcome, agents = load(os.path.join(r, FILES[0]), stats)
    listing = "\n".join("==> %s\n%s" % x for x in sorted(texts.items()))
    if not good:
        if outcome is not None or agents or not got:
            return "%s\nis loaded although begin and end do not match" % listing
        stats.count("errors_reported")
        stats.validated += 1
        return None
    if outcome is None:
        return "%s\nis not loaded: errors at %r" % (listing, got)
    plain = os.path.join(r, "whole.asl")
    with open(plain, "w", encoding="utf-8") as f:
        f.write("\n".join(ITEMS) + "\n")
    _, want, _ = load(plain, stats)
    for a, b, what in zip(outcome, want, ("trace", "beliefs", "plans and rules")):
        if a != b:
            return "%s\nhas the %s %r, without directives it is %r" % (listing, what, a, b)
    stats.validated += 1
    return None


# ---- errors in files

FAULTS = {
    "syntax": (0, "p(.\n"), "late": (4, "p(1) :-\n\nq(2)\n\n)."), "static": (0, 'q :- X < 1 + "a".\n'), "illegal": (0, "p $ .\n"), "eof": (0, "+!g(1, 2) <- a"),
    "zero": (1, "// c\np(1 / 0).\n"), "directive": (0, "{includes}\n"), "stray": (0, ") p.\n"), "string": (0, 'p("a).\n'), "double": (0, "+!h <- 1 & a.\n"),
}


def gen_faults(tier):
    top = 3 if tier == "thorough" else 2
    below = lambda targets: [list(c) for k in range(top + 1) for c in itertools.product(targets, repeat=k)][:40]  # noqa
    for graph in itertools.product(below((1, 2)), below((2,)), [[]]):
        for i in range(3):
            for kind in FAULTS:
                for pos in range(3):
                    yield [graph, i, kind, pos]
    for i in range(3):
        for pos in range(3):
            yield [[[1], [2], []], i, "run", pos]
            yield [[[1, 2], [2], []], i, "run", pos]


def run_faults(case, stats):
    graph, i, kind, pos = case
    contents = build(graph)
    segs = contents[FILES[i]]
    where = [k for k, s in enumerate(segs) if isinstance(s, str)][pos]
    if kind == "run":
        return run_fault(contents, FILES[i], where, stats)
    offset, bad = FAULTS[kind]
    if kind == "eof":
        # The end of the file is where it is missing.
        segs[:] = [bad]
        line = 1
    else:
        before = "".join(s if isinstance(s, str) else s[0] for s in segs[:where])
        if not before.endswith("\n"):
            bad = "\n" + bad
            offset += 1
        line = before.count("\n") + 1 + offset
        if kind == "late":
            line = before.count("\n") + 1 + offset
        segs.insert(where, bad)
    texts = dict((f, "".join(s if isinstance(s, str) else s[0] for s in segs)) for f, segs in contents.items())
    seen = []
    expand(contents, FILES[0], [FILES[0]], [], [], seen)
    write(texts)
    stats.state(sorted(texts.items()))
    r = root()
    got, outcome, agents = load(os.path.join(r, FILES[0]), stats)
    listing = "\n".join("==> %s\n%s" % x for x in sorted(texts.items()))
    if FILES[i] not in seen:
        return None if outcome else "%s\nis not loaded although the error is in a file that is not included" % listing
    if outcome is not None or agents:
        return "%s\nis loaded although there is an error in %s" % (listing, FILES[i])
    if not got or got[0] is None or got[0] != (os.path.join(r, FILES[i]), line):
        return "%s\nreports errors at %r, expected %r" % (listing, got, (FILES[i], line))
    stats.validated += 1
    return None


def run_fault(contents, f, where, stats):
    """A plan that fails when it runs."""
    segs = contents[f]
    before = "".join(s if isinstance(s, str) else s[0] for s in segs[:where])
    line = before.count("\n") + 1 + 2
    segs.insert(where, "!oops.\n+!oops <-\n  .fail.\n")
    texts = dict((f, "".join(s if isinstance(s, str) else s[0] for s in segs)) for f, segs in contents.items())
    write(texts)
    stats.state(sorted(texts.items()))
    seen = []
    expand(contents, FILES[0], [FILES[0]], [], [], seen)
    r = root()
    got, outcome, agents = load(os.path.join(r, FILES[0]), stats)
    if outcome is None or not got or set(got) != {(os.path.join(r, f), line)} or len(got) != seen.count(f):
        return "%r\nreports errors at %r, expected %r" % (texts, got, (f, line))
    stats.validated += 1
    return None


# ---- chains

def gen_chains(tier):
    top = 120 if tier == "thorough" else 40
    for n in list(range(2, top)):
        yield ["chain", n]
        yield ["cycle", n]
        yield ["wide", n]
    for n in range(2, 20 if tier == "thorough" else 12):
        for k in range(1, n):
            # The last file includes one in the middle, by its name or another spelling.
            yield ["back", n, k]
            yield ["back.", n, k]
    for n in range(2, 11 if tier == "thorough" else 8):
        yield ["diamond", n]


def run_chains(case, stats):
    kind, n = case[:2]
    r = root()
    scratch = tempfile.mkdtemp(dir=r)
    try:
        names = ["f%d.asl" % i for i in range(n)]
        lines = []
        for i in range(n):
            if kind == "wide":
                incs = [] if i else ["f%d.asl" % (k % n) for k in range(1, 2 * n) if k % n]
            elif kind == "diamond":
                incs = ["f%d.asl" % (i + 1)] * 2 if i + 1 < n else []
            elif i + 1 < n:
                incs = ["f%d.asl" % (i + 1)]
            else:
                incs = ["f0.asl"] if kind == "cycle" else ["f%d.asl" % case[2]] if kind == "back" else [".//../%s/f%d.asl" % (os.path.basename(scratch), case[2])] if kind == "back." else []
            lines.append(["b(%d, 1)." % i] + ["{include(%s)}" % quote(x) for x in incs] + ["b(%d, 2)." % i])
            with open(os.path.join(scratch, names[i]), "w") as f:
                f.write("\n".join(lines[i]) + "\n")
        stats.state(case)
        stats.step(n)
        got, outcome, agents = load(os.path.join(scratch, "f0.asl"), stats)
        if kind in ("cycle", "back", "back."):
            want = (os.path.join(scratch, names[-1]), 2)
            if outcome is not None or got[:1] != [want]:
                return "%r: errors %r, expected %r" % (case, got, want)
            return None
        if outcome is None:
            return "%r is not loaded: %r" % (case, got)
        if len(outcome[1]) != 2 * n:
            return "%r has the beliefs %r" % (case, outcome[1])
        stats.validated += 1
        return None
    finally:
        shutil.rmtree(scratch)


# ---- sizes: the order of everything, and the place of an error

def gen_scale(tier):
    for n in scale.sizes(tier, 64):
        for kind in ("siblings", "chain", "again", "long"):
            for bad in [None] + scale.some(n + 1):
                yield [n, kind, bad]


def run_scale(case, stats):
    n, kind, bad = case
    r = root()
    scratch = tempfile.mkdtemp(dir=r)
    try:
        def own(i, part):
            return "!g(%d, %d).\n+!g(%d, %d) <- .emit(%d, %d).\n+!order <- .emit(%d).\nr(%d, %d) :- true.\n" % (i, part, i, part, i, part, i, i, part)

        def inc(i):
            return '{ include("f%d.asl") }\n' % i
        files, want = {}, []
        total = n + 1
        if kind == "siblings":
            files["main.asl"] = own(0, 1) + "".join(inc(i) for i in range(1, total)) + own(0, 2)
            for i in range(1, total):
                files["f%d.asl" % i] = own(i, 1)
            want = [(0, 1)] + [(i, 1) for i in range(1, total)] + [(0, 2)]
        elif kind == "chain":
            for i in range(total):
                files["f%d.asl" % i] = own(i, 1) + (inc(i + 1) if i < n else "") + own(i, 2)
            files["main.asl"] = inc(0)
            want = [(i, 1) for i in range(total)] + [(i, 2) for i in reversed(range(total))]
        elif kind == "again":
            files["f0.asl"] = own(0, 1)
            files["main.asl"] = inc(0) * n + own(1, 1)
            want = [(0, 1)] * n + [(1, 1)]
        else:
            files["f0.asl"] = "\n" * n + own(0, 1) * n
            files["main.asl"] = "// \n" * n + inc(0) + own(1, 1)
            want = [(0, 1)] * n + [(1, 1)]
        place = None
        if bad is not None:
            name = "f%d.asl" % bad if "f%d.asl" % bad in files else "main.asl"
            text = files[name]
            cut = text.split("\n")
            cut[-1:] = ["p(1) q."]
            files[name] = "\n".join(cut)
            place = (os.path.join(scratch, name), len(cut))
        for name, text in files.items():
            with open(os.path.join(scratch, name), "w") as f:
                f.write(text)
        stats.state(case)
        got, outcome, agents = load(os.path.join(scratch, "main.asl"), stats)
        listing = "\n".join("==> %s\n%s" % x for x in sorted(files.items()))[:3000]
        used = bad is None or place[0].endswith("main.asl") or kind != "again" or n
        if bad is not None and used:
            if outcome is not None or agents or got[:1] != [place]:
                return "%r: errors %r, expected %r\n%s" % (case, got, [place], listing)
            stats.validated += 1
            return None
        if outcome is None:
            return "%r is not loaded: %r\n%s" % (case, got, listing)
        trace = [tuple(x[1] for x in i[1:]) for i in outcome[0]]
        if trace != [tuple(map(float, w)) for w in want]:
            return "%r: goals are %r, expected %r\n%s" % (case, trace, want, listing)
        order = []
        for ps in outcome[2][0]:
            order += [h for _, h in ps if h[1] == "order"]
        heads = [tuple(x[1] for x in h[2]) for hs in outcome[2][1] for h in hs]
        if len(order) != len(want) or heads != [tuple(map(float, w)) for w in want]:
            return "%r: rules are %r, expected %r, %d plans\n%s" % (case, heads, want, len(order), listing)
        stats.validated += 1
        return None
    finally:
        shutil.rmtree(scratch)


# ---- walks through directories, with files of the same names everywhere

DIRS = ("", "d", "d/e", "g")


def gen_walks(tier):
    for n in (2, 3, 4) + ((5, 6) if tier == "thorough" else (5,)):
        for walk in itertools.product(range(len(DIRS)), repeat=n):
            if n == 5 and tier != "thorough" and sum(walk) % 2:
                continue
            yield [list(walk), False]
            if n < 4 or tier == "thorough" and n < 5:
                yield [list(walk), True]


def run_walks(case, stats):
    """File i, in the directory walk[i], includes file i + 1 and then a leaf of its own directory."""
    walk, absolute = case
    r = root()
    scratch = tempfile.mkdtemp(dir=r)
    n = len(walk)
    try:
        for j, d in enumerate(DIRS):
            os.makedirs(os.path.join(scratch, d), exist_ok=True)
            with open(os.path.join(scratch, d, "leaf.asl"), "w") as f:
                f.write("!g(%d, 100).\n+!g(%d, 100) <- .emit(%d, 100).\n" % (j, j, j))
            for i in range(n):
                own = lambda k: "!g(%d, %d).\n+!g(%d, %d) <- .emit(%d, %d).\n" % (j, i + k, j, i + k, j, i + k)  # noqa
                text = own(0)
                if i + 1 < n:
                    target = os.path.join(DIRS[walk[i + 1]], "f%d.asl" % (i + 1))
                    target = os.path.join(scratch, target) if absolute else os.path.relpath(target, d or ".")
                    text += '{ include("%s") }\n' % target
                text += '{ include("leaf.asl") }\n'
                with open(os.path.join(scratch, d, "f%d.asl" % i), "w") as f:
                    f.write(text + own(50))
        stats.state(case)
        got, outcome, agents = load(os.path.join(scratch, DIRS[walk[0]], "f0.asl"), stats)
        if outcome is None:
            return "%r is not loaded: %r" % (case, got)
        want = []
        for i in range(n):
            want.append((walk[i], i))
        for i in reversed(range(n)):
            want += [(walk[i], 100), (walk[i], i + 50)]
        trace = [tuple(x[1] for x in i[1:]) for i in outcome[0]]
        if trace != [tuple(map(float, w)) for w in want]:
            return "%r: goals are %r, expected %r" % ([DIRS[j] for j in walk], trace, want)
        stats.validated += 1
        return None
    finally:
        shutil.rmtree(scratch)


# ---- links to directories: the path is that of the system, not of its text

TREE = ("", "a", "a/b", "c", "c/b")
LINKS = {"l": "a/b", "a/l": "c", "c/l": "a", "a/b/l": "", "c/b/l": "c/b", "b": "c/b"}
STEPS = (".", "..", "a", "b", "c", "l")


def gen_links(tier):
    for n in range(5 if tier == "thorough" else 4):
        for path in itertools.product(STEPS, repeat=n):
            yield [list(path), None]
            if n < 3 or n == 3 and tier == "thorough" and path[-1] != ".":
                for k in (1, 2):
                    for path2 in itertools.product(STEPS, repeat=k):
                        yield [list(path), list(path2)]


_TREE = []


def tree():
    """Every directory has a file f, which is written for each case, and a leaf."""
    if not _TREE or _TREE[0] != os.getpid():
        top = os.path.join(root(), "tree")
        for j, d in enumerate(TREE):
            os.makedirs(os.path.join(top, d))
            with open(os.path.join(top, d, "leaf.asl"), "w") as f:
                f.write("!g(%d, leaf).\n+!g(%d, leaf) <- .emit(%d, leaf).\n" % (j, j, j))
        for name, target in LINKS.items():
            os.symlink(os.path.join(top, target), os.path.join(top, name))
        _TREE[:] = [os.getpid(), top]
    return _TREE[1]


def follow(start, path):
    """Directory reached by a path, or None: links and parents as the system takes them."""
    at = start
    for step in path:
        if step == ".":
            continue
        if step == "..":
            if not at:
                return None
            at = os.path.dirname(at)
            continue
        at = at + "/" + step if at else step
        at = LINKS.get(at, at)
        if at not in TREE:
            return None
    return at


def run_links(case, stats):
    path, path2 = case
    top = tree()
    for j, d in enumerate(TREE):
        text = "!g(%d, f).\n+!g(%d, f) <- .emit(%d, f).\n" % (j, j, j)
        if path2 is not None:
            text += '{ include("%s") }\n' % "/".join(path2 + ["leaf.asl"])
        with open(os.path.join(top, d, "f.asl"), "w") as f:
            f.write(text)
    main = os.path.join(top, "main.asl")
    with open(main, "w") as f:
        f.write('\n{ include("%s") }\n' % "/".join(path + ["f.asl"]))
    stats.state(case)
    stats.step()
    one = follow("", path)
    two = None if one is None or path2 is None else follow(one, path2)
    # Parents of the top are not judged.
    for i in range(len(path)):
        if path[i] == ".." and follow("", path[:i]) == "":
            return None
    if one is not None and path2:
        for i in range(len(path2)):
            if path2[i] == ".." and follow(one, path2[:i]) == "":
                return None
    got, outcome, agents = load(main, stats)
    if one is None or path2 is not None and two is None:
        want = (main, 2) if one is None else (os.path.join(top, one, "f.asl"), 3)
        if outcome is not None or agents or got[:1] != [(os.path.realpath(want[0]), want[1])]:
            return "%r: errors %r, expected %r" % (case, got, want)
        stats.validated += 1
        return None
    if outcome is None:
        return "%r is not loaded: %r" % (case, got)
    trace = [tuple(x[1] for x in i[1:]) for i in outcome[0]]
    want = [(float(TREE.index(one)), "f")] + ([(float(TREE.index(two)), "leaf")] if path2 is not None else [])
    if trace != want:
        return "%r: the goals are %r, expected %r" % (case, trace, want)
    stats.validated += 1
    return None


def setup():
    global impl, agentspeak
    import impl
    import agentspeak
    import agentspeak.runtime
    import agentspeak.stdlib


SUITES = {"graphs": (gen_graphs, run_graphs), "spellings": (gen_spellings, run_spellings), "faults": (gen_faults, run_faults), "chains": (gen_chains, run_chains), "directives": (gen_directives, run_directives), "walks": (gen_walks, run_walks), "scale": (gen_scale, run_scale), "links": (gen_links, run_links)}

if __name__ == "__main__":
    import sys
    sys.exit(harness.main(sys.modules[__name__]))
