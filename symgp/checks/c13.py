"""C13: default measures nest like a stack."""

from stheno import GP, Measure, cross

from ..scenario import scenario


class Boom(Exception):
    pass


class Stop(BaseException):
    """Like a keyboard interrupt."""


class Machine:
    """Executes a history that the solver chooses, next to a stack of measures."""

    def __init__(self, env, steps, first, measures, actions):
        self.env, self.steps, self.first, self.actions = env, steps, list(first), actions
        self.ms, self.stack, self.k, self.seen = measures, [], 0, []
        self.check("before")

    def kernel(self):
        return self.env.kernel(f"k{self.k}")

    def check(self, when):
        """Observe the default through a new process."""
        env = self.env
        label = f"{when} step {self.k}"
        p = GP(self.kernel())
        if self.stack:
            env.true(p.measure is self.stack[-1], f"{label}: the process is in the innermost measure")
        else:
            env.true(
                all(p.measure is not m for m in self.ms) and all(p.measure is not q.measure for q in self.seen),
                f"{label}: the process has its own measure",
            )
            self.seen.append(p)
        env.true(any(q is p for q in p.measure.ps), f"{label}: the measure lists the process")
        env.true(Measure.default is (self.stack[-1] if self.stack else None), f"{label}: default")

    def action(self):
        if self.k >= self.steps:
            return None
        a = self.first.pop(0) if self.first else self.env.choice(f"step {self.k}", self.actions)
        self.k += 1
        return a

    def explicit(self, i):
        """An explicitly given measure takes precedence."""
        env, m = self.env, self.ms[i]
        p = GP(self.kernel(), measure=m)
        env.true(p.measure is m, f"step {self.k}: given measure")
        n = GP(env.mean("m"), self.kernel(), measure=m)
        env.true(n.measure is m, f"step {self.k}: given measure and mean")
        env.true((p + n).measure is m and cross(p, n).measure is m, f"step {self.k}: derived processes")

    def block(self, depth):
        """Actions until this block is left."""
        while True:
            a = self.action()
            if a is None or (a == "exit" and depth > 0):
                return
            if a == "raise" and depth > 0:
                raise Boom()
            if a == "stop" and depth > 0:
                raise Stop()
            if isinstance(a, int):
                self.enter(a, depth)
            elif a == "given":
                self.explicit(self.k % len(self.ms))
            elif a == "fail":
                self.fail()
            else:
                continue
            self.check("after")

    def enter(self, i, depth):
        env, m = self.env, self.ms[i]
        caught = None
        try:
            with m as entered:
                env.true(entered is m, f"step {self.k}: the context gives the measure")
                self.stack.append(m)
                try:
                    self.check("inside")
                    self.block(depth + 1)
                finally:
                    self.stack.pop()
        except (Boom, Stop) as e:
            caught = e
        if caught is not None:
            self.check("after exception")
            if depth > 0 and env.flag(f"propagate {self.k}"):
                raise caught

    def fail(self):
        """A process that cannot be made."""
        m = self.stack[-1] if self.stack else self.ms[0]
        k = self.kernel()
        name = f"name{self.k}"
        GP(k, measure=m, name=name)
        self.env.raises(RuntimeError, lambda: GP(k, measure=m, name=name), f"step {self.k}: name is taken")


def run(env, steps, first, n, actions, posterior=False):
    previous, Measure.default = Measure.default, None
    try:
        ms = [Measure() for _ in range(n)]
        if posterior:
            p = GP(env.kernel("kp"), measure=ms[0])
            ms[1] = ms[0] | (p(env.inputs("z", 1), env.positive("s")), env.vector("v", 1))
        machine = Machine(env, steps, first, ms, actions)
        machine.block(0)
        env.true(not machine.stack, "all contexts are left")
        machine.k = steps + 1
        machine.check("finally")
    finally:
        Measure.default = previous


@scenario(
    "C13",
    quick=[(5, (0, a)) for a in (0, 1, "exit", "raise", "stop", "given", "fail")],
    thorough=[(7, (0, a, b)) for a in (0, 1, "exit", "raise") for b in (0, 1, "exit", "raise")],
    bounds="all histories of k steps: entering one of two measures, leaving, raising an exception (that propagates "
    "through any number of contexts), a process in a given measure, a process that cannot be made",
)
def history(env):
    steps, first = env.params
    run(env, steps, first, 2, [0, 1, "exit", "raise", "stop", "given", "fail"])


@scenario(
    "C13",
    quick=[(7, (0, a)) for a in (0, 1)],
    thorough=[(9, (0, a, b)) for a in (0, 1) for b in (0, 1, "exit", "raise")],
    bounds="all longer histories of k steps of entering one of two measures, leaving, and raising",
)
def nesting(env):
    steps, first = env.params
    run(env, steps, first, 2, [0, 1, "exit", "raise"])


@scenario(
    "C13",
    quick=[(5, (0, a)) for a in (1, 2)],
    bounds="all histories of k steps with three measures, one of which is a posterior of the first",
)
def posteriors(env):
    steps, first = env.params
    run(env, steps, first, 3, [0, 1, 2, "exit", "raise"], posterior=True)
