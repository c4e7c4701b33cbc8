"""C25: running a program from the command line is running the program."""
import harness
if __name__ == "__main__":
    harness.reexec()
import io
import itertools
import scale
import os
import re
import shutil
import signal
import subprocess
import sys
import traceback
from ref import N, S, B, V, W, F, L, C
import ref
import syntax
import c10

PROPERTY = "C25"
RULE = ("runs: every sequence of up to two (thorough: three) statements from an alphabet (output, subgoals, beliefs, waiting, several kinds of errors) as the body of one of two concurrent goals, in every "
        "way of starting the interpreter (file by relative path, by absolute path, from another directory, redirected or piped standard input, with a console afterwards); loads: every program of a list of "
        "wrong programs in every place of the program and in included files, and every kind of file that is missing, no file, empty or not readable as text, in every way of starting; process: a part of "
        "these in processes of their own; a state is a distinct output and exit status, a transition a line of output")
DESIGN = ("the interpreter's main function runs in a forked process with real files for its standard streams, in a scratch directory; standard output must be, line by line, what the model of the program prints, "
          "the exit status 0 exactly if the model ends without an error and 1 otherwise, errors must be reported as a message on standard error, with the file and line for errors of the program text, "
          "never as an unhandled Python exception, and nothing may be printed by a program that can not be loaded.")
ASSUMPTIONS = ["only the first file argument is judged", "text files are UTF-8", "only the presence, level and place of error messages are judged, not their wording"]

X, Y, Z = V("X"), V("Y"), V("Z")
lit, act = c10.lit, c10.act
ANSI = re.compile("\x1b\\[[0-9;]*m")


def out(*xs):
    return act(".print", *xs)


# ---- running the interpreter

def child(argv, stdin, console):
    """What python -m agentspeak does, in this process."""
    os.dup2(os.open(stdin, os.O_RDONLY), 0)
    raw = io.FileIO(0)
    raw.name = "<stdin>"
    sys.stdin = io.TextIOWrapper(io.BufferedReader(raw), encoding="utf-8", errors="strict")
    fd = os.open("../stdout", os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(fd, 1)
    fd = os.open("../stderr", os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(fd, 2)
    sys.stdout = sys.__stdout__ = open(1, "w", encoding="utf-8", closefd=False)
    import logging
    import runpy
    logging.disable(logging.NOTSET)
    sys.argv = ["agentspeak"] + argv
    status = 0
    try:
        if console:
            agentspeak.runtime.main()
        else:
            runpy.run_module("agentspeak.__main__", run_name="__main__")
    except SystemExit as e:
        status = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
    except BaseException:
        traceback.print_exc()
        status = 1
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(status)


def forked(where, argv, stdin, console):
    pid = os.fork()
    if pid == 0:
        try:
            signal.signal(signal.SIGPROF, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_PROF, 20)
            signal.alarm(120)
            os.chdir(where)
            child(argv, stdin, console)
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(97)
    try:
        _, status = os.waitpid(pid, 0)
    except BaseException:
        os.kill(pid, 9)
        os.waitpid(pid, 0)
        raise
    return os.WEXITSTATUS(status) if os.WIFEXITED(status) else -os.WTERMSIG(status)


_CACHE = []


def process(where, argv, stdin, console):
    if not _CACHE:
        _CACHE.append(harness.scratch())
    env = {"PATH": os.environ.get("PATH", ""), "PYTHONPATH": harness.REPO, "PYTHONPYCACHEPREFIX": _CACHE[0], "LC_ALL": "C.UTF-8", "HOME": where}
    cmd = [sys.executable] + (["-c", "import agentspeak.runtime; agentspeak.runtime.main()"] if console else ["-m", "agentspeak"]) + argv
    with open(os.path.join(where, stdin)) as i, open(os.path.join(where, "../stdout"), "w") as o, open(os.path.join(where, "../stderr"), "w") as e:
        return subprocess.run(cmd, cwd=where, stdin=i, stdout=o, stderr=e, env=env, timeout=60).returncode


# How the interpreter is started: (directory of the file, current directory, argument, name of the agent); None is standard input
MODES = {
    "file": ("", "", "prog.asl", "prog", False), "dot": ("", "", "./prog.asl", "prog", False), "sub": ("d", "", "d/other.asl", "other", False), "up": ("", "d", "../prog.asl", "prog", False),
    "abs": ("d", "", "/d/prog.asl", "prog", False), "plain": ("", "", "prog", "prog", False), "two": ("", "", "a.b.asl", None, False), "stdin": ("", "", None, None, False), "console": ("", "", "prog.asl", "prog", True),
}


def start(mode, text, files, real=False):
    """Runs the interpreter on a text (bytes); returns status, stdout, stderr and the name under which the program is known."""
    folder, cwd, arg, name, console = MODES[mode]
    base = harness.scratch()
    try:
        top = os.path.join(base, "w")
        os.makedirs(os.path.join(top, "d"))
        os.makedirs(os.path.join(top, "d", "e"))
        for f, content in files.items():
            if content is None:
                os.mkdir(os.path.join(top, folder, f))
            else:
                with open(os.path.join(top, folder, f), "wb") as h:
                    h.write(content)
        where = os.path.join(top, cwd)
        stdin = "/dev/null"
        argv = []
        path = arg
        if arg is None:
            path = "<stdin>"
            stdin = os.path.join(base, "in")
            with open(stdin, "wb") as h:
                h.write(text or b"")
        else:
            if arg.startswith("/"):
                path = top + arg
            argv = [path]
            if text is not None:
                with open(os.path.join(where, path), "wb") as h:
                    h.write(text)
        status = (process if real else forked)(where, argv, stdin, console)
        with open(os.path.join(where, "../stdout"), encoding="utf-8", errors="replace") as h:
            o = ANSI.sub("", h.read())
        with open(os.path.join(where, "../stderr"), encoding="utf-8", errors="replace") as h:
            e = ANSI.sub("", h.read())
        return status, o, e, path
    finally:
        shutil.rmtree(base)


def judge(mode, status, o, e, failing):
    """What holds for all runs; failing: is an error expected?"""
    last = e.rstrip("\n").split("\n")[-1]
    if failing and not re.match(r"\d+ errors? and \d+ warnings?$", last) and "error: " not in last:
        return "does not end with an error message: %s" % e[-600:]
    if status != (1 if failing else 0):
        return "has exit status %d, expected %d" % (status, 1 if failing else 0)
    if failing and "error: " not in e:
        return "fails without a message on standard error: %r" % e
    if not failing and "error: " in e:
        return "reports an error on standard error: %r" % e
    return None


# ---- runs

STATEMENTS = {
    "out": out(S("hello"), N(1), F("f", S("x y"), L(N(2), S("b")))), "empty": out(), "var": out(V("X"), S("\u00e9\u20ac\"\\")), "add": ("+", F("b", N(2))), "rem": ("-", F("b", N(1))), "repl": ("-+", F("b", N(3))),
    "sub": ("!", F("s", N(4))), "par": ("!!", F("s", N(5))), "none": ("!", F("nope")), "fail": act(".fail"), "div": ("q", ("cmp", "==", Z, N(1))), "test": ("?", F("b", V("T"))), "notest": ("?", F("c", W)),
    "for": ("for", lit(F("b", V("Q"))), (out(S("q"), V("Q")),)), "boom": ("?", V("Nothing")), "wait": act(".wait", N(3)), "tell": act(".send", F("nobody"), F("tell"), F("b", N(1))), "arith": ("q", ("and", ("uni", V("A"), S("a")), ("cmp", "==", ("o", "+", V("A"), N(1)), N(2)))),
    "zero": ("+", F("b", ("o", "/", N(1), ("o", "-", X, X)))), "loop": ("while", lit(F("b", N(1))), (("-", F("b", N(1))), out(S("w")))), "bool": ("q", ("cmp", "<", X, N(1))),
}
# These always end the program.
PLANS = ((None, "+!", F("s", X), lit(F("b", Y)), (out(S("s"), X, Y), ("-", F("b", Y)))), (None, "+!", F("s", X), None, (out(S("s2"), X),)), (None, "+", F("b", X), ("cmp", ">", X, N(2)), (out(S("new"), X),)),
         (None, "+!", F("other"), None, (out(S("o1")), out(S("o2")), out(S("o3")), out(S("o4")))))


def gen_runs(tier):
    for mode in MODES:
        yield [mode, []]
        for x in STATEMENTS:
            yield [mode, [x]]
    modes = list(MODES)
    for i, seq in enumerate(itertools.product(STATEMENTS, repeat=2)):
        for m in modes if tier == "thorough" else (modes[i % len(modes)], modes[(i // len(modes)) % len(modes)]):
            yield [m, list(seq)]
    if tier == "thorough":
        for i, seq in enumerate(itertools.product(STATEMENTS, repeat=3)):
            yield [modes[i % len(modes)], list(seq)]


def model_print(world, agent, args, s):
    world.emit((agent.name, S(" ".join(show(ref.resolve(a, s)) for a in args))))
    yield s


def show(t):
    return t[1] if t[0] == "s" else ref.text(t)


class World(object):
    """The time that passes is not known."""

    def __new__(cls, *args):
        class Timed(impl.ModelWorld):
            def drive(self):
                for name, prog in self.programs:
                    self.add(name, prog)
                self.run_timed()
        return Timed(*args)


def run_runs(case, stats, real=False):
    mode, seq = case
    body = [("q", ("uni", X, N(1)))] + [STATEMENTS[x] for x in seq] + [out(S("end"))]
    prog = ((F("b", N(1)), F("b", N(2.5))), (), (F("start"), F("other")), ((None, "+!", F("start"), None, tuple(body)),) + PLANS)
    text = syntax.program(prog)
    status, o, e, path = start(mode, text.encode("utf-8"), {}, real)
    about = "%s (%s)\n%sprints %r and %r, status %d: " % (path, mode, text, o, e[-500:], status)
    lines = o.split("\n")
    if lines.pop() != "":
        return about + "the last line does not end"
    if mode == "console" and status == 0:
        if not lines or ">>>" not in lines[-1]:
            return about + "there is no console afterwards"
        lines.pop()
    items = []
    names = set()
    for l in lines:
        name, _, rest = l.partition(" ")
        names.add(name)
        items.append((name, S(rest)))
    stats.step(len(lines))
    stats.state((status, o))
    if len(names) > 1:
        return about + "several names"
    name = names.pop() if names else "x"
    if MODES[mode][3] is not None and names and name != MODES[mode][3]:
        return about + "the agent is called %s" % name

    def build(chooser, expected):
        w = World([(name, prog)], chooser, expected, {".print": model_print})
        w.JUMP = 0.004
        w.jumps = seq.count("wait")
        return w

    def accept(world, err):
        return judge(mode, status, o, e, err is not None)
    ok, explored, why = ref.outcomes_match(build, items, accept, 20000)
    stats.count("model_paths", explored)
    stats.validated += 1
    if not ok:
        return about + "not explained by the model (longest prefix %s): %s" % (why[0], "; ".join(map(str, why[1])))
    return None


# ---- loads

GOOD = '!start.\n+!start <- .print("started").\n'
# Wrong items and the line of the error within the item; the line is None if it is not known which one is reported
WRONG = {
    "syntax": ("p(1) q.", 1), "open": ("p(1", None), "char": ("p(1).\np($).", 2), "string": ('p("abc).', 1), "op": ("p(1 + X).", 1), "head": ("r(X + 1) :- q(X).", 1), "plan": ("+!g(1 +\nX) <- .print(1).", None),
    "cond": ("+!g : 1 <- .print(1).", 1), "body": ("+!g <- 1.", 1), "include": ('{ include("nothere.asl") }', 1), "directive": ("{ begin nothing }", None), "belief": ("p(X).", None), "goal": ("!nope.", None), "goaldiv": ("!start(1 / 0).", None),
    "end": ("+!g <- .print(1); .", 1), "if": ("+!g <- if (true) { .print(1) ", None), "else": ("+!g <-\n else { .print(1) }.", 2), "colon": ("p(1);", 1), "mixed": ("p([1,2|X]).", 1), "not": ("r :- not.", 1), "unquery": ("r :- -X.", 1),
}
BYTES = {"ff": b"p(\"\xff\").\n", "cut": b"p(\"\xc3\").\n", "comment": b"// \xe9\n", "only": b"\xff", "utf16": "p(1).".encode("utf-16"), "last": b"p(1). /* \xf0\x9f */"}
FINE = {"empty": b"", "comment": b"// nothing", "crlf": b"p(1).\r\np(2).\r\n", "cr": b"p(1). // x\r\np(2).", "noeol": b"p(1).", "blank": b"\n\n  \t\n", "utf8": "p(\"\u00e9\U0001f600\"). // \u2028".encode("utf-8"), "long": b"p(1).\n" * 2000, "block": b"/* \n\n */"}


def gen_loads(tier):
    for mode in MODES:
        for w in WRONG:
            for place in ("first", "last", "only", "included", "nested"):
                yield [mode, "wrong", w, place]
        for b in BYTES:
            for place in ("first", "last", "included", "nested"):
                yield [mode, "bytes", b, place]
        for b in FINE:
            for place in ("first", "last", "included", "nested", "only"):
                yield [mode, "fine", b, place]
        for b in ("missing", "directory", "parent"):
            for place in ("main", "included", "nested"):
                yield [mode, b, "", place]


def run_loads(case, stats, real=False):
    mode, kind, what, place = case
    good = GOOD.encode("utf-8")
    files = {}
    name = "inc.asl"
    line = None
    target = None
    if kind in ("wrong", "bytes", "fine"):
        content, line = (WRONG[what][0].encode("utf-8"), WRONG[what][1]) if kind == "wrong" else ((BYTES if kind == "bytes" else FINE)[what], None)
        if place == "first":
            text = content + b"\n" + good
        elif place == "last":
            text = good + content
            line = line and line + 2
        elif place == "only":
            text = content
        else:
            target = name
            files[name] = content
    else:
        if place == "main" and MODES[mode][2] is None:
            return None
        text = None
        target = {"missing": "nothere.asl", "directory": "e.asl", "parent": "e/../nowhere/x.asl"}[kind]
        if kind == "directory" and place != "main":
            files["e.asl"] = None
        if place == "main":
            folder, cwd, arg, _, console = MODES[mode]
            if kind == "directory":
                files[os.path.basename(arg)] = None
            elif kind == "parent":
                return None
    if place == "included":
        text = b'{ include("%s") }\n' % target.encode() + good
    elif place == "nested":
        files["mid.asl"] = good + b'{ include("%s") }' % target.encode()
        text = b'\n{ include("mid.asl") }\n'
    status, o, e, path = start(mode, text, files, real)
    stats.state((status, o, e.replace(path, "")))
    stats.step()
    stats.validated += 1
    about = "%s (%s, started with %s)\n%r with %r\nprints %r and %r, status %d: " % (path, case, mode, text, files, o, e[-700:], status)
    failing = kind != "fine"
    why = judge(mode, status, o, e, failing)
    if why:
        return about + why
    started = [l for l in o.split("\n") if l and ">>>" not in l]
    want = [] if failing or place == "only" else ["started"]
    if [l.partition(" ")[2] for l in started] != want:
        return about + "the output should be %r" % want
    if kind == "wrong" and line is not None:
        f = path if place in ("first", "last", "only") else None
        if f is not None:
            if not re.search("(?m)^%s:%d:\\d+: error: " % (re.escape(f), line), e):
                return about + "the error is not reported for line %d of %s" % (line, f)
        elif not re.search("(?m)^\\S*\\b%s:%d:\\d+: error: " % (re.escape(name), line), e):
            return about + "the error is not reported for line %d of %s" % (line, name)
    return None


# ---- sizes

def gen_scale(tier):
    modes = list(MODES)
    for i, n in enumerate(scale.sizes(tier, 3000)):
        for j, kind in enumerate(("lines", "items", "wide", "fails")):
            yield [modes[(3 * i + j) % len(modes)], n, kind]


def run_scale(case, stats):
    mode, n, kind = case
    line = None
    if kind in ("lines", "fails"):
        body = "for (.range(%d, X)) { .print(X) }" % n
        text = "!go.\n+!go <- %s; %s.print(end).\n" % (body, ".fail; " if kind == "fails" else "")
        want = ["%d" % i for i in range(n)] + ["end"] * (kind == "lines")
    elif kind == "items":
        n = min(n, 600)
        text = "".join("p(%d).\n!g(%d).\n" % (i, i) for i in range(n)) + "+!g(X) : p(X) <- .print(X).\n"
        want = ["%d" % i for i in range(n)]
    else:
        text = "!go.\n+!go <- .print(\"%s\").\n" % ("x" * n)
        want = ["x" * n]
    text = text.replace("print(end)", 'print("end")')
    status, o, e, path = start(mode, text.encode("utf-8"), {})
    about = "%s (%s)\n%s\nprints %r and %r, status %d: " % (path, case, text[:1000], o[-500:], e[-500:], status)
    stats.state(case)
    stats.step(len(want))
    why = judge(mode, status, o, e, kind == "fails")
    if why:
        return about + why
    lines = [l.partition(" ")[2] for l in o.split("\n") if l and ">>>" not in l]
    if lines != want:
        k = 0
        while k < min(len(lines), len(want)) and lines[k] == want[k]:
            k += 1
        return about + "%d lines instead of %d, line %d differs" % (len(lines), len(want), k)
    if kind == "fails" and not re.search("(?m)^%s:2:\\d+: error: " % re.escape(path), e):
        return about + "the error is not reported for line 2"
    stats.validated += 1
    return None


# ---- in processes of their own

def gen_process(tier):
    runs, loads = list(gen_runs("quick")), list(gen_loads("quick"))
    step = (23, 37) if tier != "thorough" else (5, 7)
    for c in runs[::step[0]]:
        yield ["runs", c]
    for c in loads[::step[1]]:
        yield ["loads", c]


def run_process(case, stats):
    which, c = case
    if which == "loads" and c[1] == "bytes" and c[0] == "stdin" and c[3] in ("first", "last"):
        return None     # depends on the locale
    return (run_runs if which == "runs" else run_loads)(c, stats, True)


def setup():
    global agentspeak, impl
    import agentspeak
    import agentspeak.runtime
    import agentspeak.ext_stdlib
    import impl


SUITES = {"runs": (gen_runs, run_runs), "loads": (gen_loads, run_loads), "process": (gen_process, run_process), "scale": (gen_scale, run_scale)}

if __name__ == "__main__":
    sys.exit(harness.main(sys.modules[__name__]))
