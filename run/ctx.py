"""What one run of a check has covered."""
import json, os, time
import vlib


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier, self.t0 = prop, tier, time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.extra, self.assumptions = [], {}, []
        self.dir = vlib.scratch(prop)
        self.quick = tier != 'thorough'

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def rng(self, *what):
        return vlib.rng_for(self.prop, *what)

    def add(self, res):
        self.states += res.distinct
        self.transitions += res.generated

    def sample(self, x):
        if len(self.samples) < 12:
            self.samples.append(x)

    def count(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n

    def coverage(self):
        c = dict(states=self.states, transitions=self.transitions,
                 traces_validated_against_impl=self.traces, samples=self.samples)
        c.update(self.extra)
        return c
