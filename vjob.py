"""Descriptions of what a check explores."""


class Job:
    """one entry point of a harness with its bounds.

    base: parameters whose exploration must finish; more: larger bounds explored while time remains (quick tier), deep: for the thorough tier"""

    def __init__(self, harness, entry, bounds, base=None, more=(), deep=(), tags=(), time=180, steps=40000000, query_ms=20000, defs=()):
        self.harness, self.entry, self.bounds = harness, entry, bounds
        self.base, self.more, self.deep, self.tags = base or {}, list(more), list(deep), list(tags)
        self.time, self.steps, self.query_ms, self.defs = time, steps, query_ms, tuple(defs)


class Prop:
    def __init__(self, jobs, assumptions=(), quick_s=45):
        self.jobs, self.assumptions, self.quick_s = list(jobs), list(assumptions), quick_s
