"""
Stateless exploration of agent interleavings: agents are stepped one step at a
time, all schedules with a bounded number of preemptions are enumerated by
re-execution.
"""
import impl
import ref


class Pruned(Exception):
    """The schedule is equivalent to another one (it steps an idle agent)."""


def looks_idle(agent):
    """
    A hint that saves schedules that would be pruned.  Every agent is stepped
    until it reports that it has nothing to do in any case.
    """
    try:
        return len(agent.intentions) == 0
    except (AttributeError, TypeError):
        return False


def one(run, chooser, budget, limit, visit=None):
    """Executes one schedule; returns the number of steps."""
    idle = set()
    cur = None
    steps = 0
    progress = {}
    while True:
        agents = list(run.env.agents.values())
        live = [a for a in agents if a.name not in idle]
        if not live:
            return steps
        if cur is not None and cur in live:
            options = [cur]
            if budget:
                options += [a for a in live if a is not cur and not looks_idle(a)]
            free = False
        else:
            options = [a for a in live if not looks_idle(a)] or live
            free = True
        k = chooser.choose(len(options))
        pick = options[k]
        if k and not free:
            budget -= 1
        if pick.step():
            steps += 1
            if steps > limit:
                raise impl.StepLimit("still running after %d steps" % limit)
            # Others may have received something.
            idle.clear()
            progress[pick.name] = progress.get(pick.name, 0) + 1
            if visit is not None:
                visit(tuple(sorted(progress.items())), len(run.trace))
            cur = pick
        else:
            if k:
                raise Pruned()
            idle.add(pick.name)


def explore(build, bound, stats, key, check, limit=2000):
    """
    All schedules with at most bound preemptions.  build() makes a fresh Run,
    check(run, error) judges the finished run.
    """
    chooser = ref.Chooser()

    def visit(progress, n):
        stats.state((key, progress, n))
    while True:
        chooser.restart()
        run = build()
        error = None
        pruned = False
        steps = 0
        try:
            steps = one(run, chooser, bound, limit, visit)
        except impl.ERRORS as e:
            error = e
        except impl.StepLimit as e:
            return str(e)
        except Pruned:
            pruned = True
        stats.step(steps)
        if not pruned:
            stats.count("schedules")
            msg = check(run, error)
            if msg:
                return "%s\nschedule %s" % (msg, [p[0] for p in chooser.path])
        else:
            stats.count("pruned_schedules")
        if not chooser.advance():
            return None
