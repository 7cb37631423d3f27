"""Shared pieces of the checks: engines return (violations, coverage); check.py reports."""
import os
EVID = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'evidence')
class Cov:
    def __init__(self):
        self.d = dict(states=0, transitions=0, traces_validated_against_impl=0, executions=0, samples=[], parts=[])
    def add(self, **kw):
        for k, v in kw.items():
            if k == 'samples':
                self.d['samples'] += v
            elif k == 'part':
                self.d['parts'].append(v)
            else:
                self.d[k] = self.d.get(k, 0) + v
class Violation:
    def __init__(self, key, summary, replay):
        self.key, self.summary, self.replay = key, summary, replay   # replay: text stored in the replay file
