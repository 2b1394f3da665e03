"""The analyses deciding each property."""
from __future__ import annotations

import hashlib
import os

import meta
from rules_effects import OperatorMemory, SolverMemory, OperatorState, Results
from rules_protocol import TauCheck, Counter
from rules_solver import Silent, Callbacks, Budgets
from rules_monitor import Monitored
from rules_defined import Defined
from rules_phase import Turning, TurningComplex
from rules_options import Options
from rules_switch import Switches
from rules_validation import Validation
from rules_isolation import Isolation
from rules_utils import Utilities
from rules_units import Dimensions
from rules_shift import Translation
from rules_fixed import FixedPoints
from rules_inner import Inner
from rules_belong import Belongs, BelongsLater


def digest(root):
    h = hashlib.sha256()
    for d, _, fs in sorted(os.walk(os.path.join(root, "pyproximal"))):
        for f in sorted(fs):
            if f.endswith(".py"):
                h.update(f.encode())
                h.update(open(os.path.join(d, f), "rb").read())
    return h.hexdigest()[:16]


# floor: least number of instances each rule has to match for the run to count
ANALYSES = {
    "C01": ([OperatorMemory], {"caller-memory": 120}),
    "C02": ([SolverMemory], {"caller-memory": 50}),
    "C03": ([OperatorState], {"parameters-kept": 500}),
    "C04": ([Results], {"result-fresh": 100}),
    "C05": ([TauCheck], {"tau-rejected": 1000, "tau-before-effects": 1000}),
    "C06": ([Counter], {"schedule-current": 60, "count-once": 60}),
    "C07": ([Silent], {"silent": 200, "show-result": 200}),
    "C08": ([Callbacks], {"callback-count": 150, "callback-returned": 150}),
    "C09": ([Budgets, Monitored], {"tolerance-measures": 8, "budget": 40, "tolerance-only": 150, "tolerance-stops": 60}),
    "C10": ([Options, Switches], {"takes-effect": 3000, "switch": 12, "forwarded": 25}),
    "C18": ([Validation], {"rejected": 250, "accepted": 150}),
    "C17": ([Isolation], {"shared-state": 800, "settings": 800, "repeatable": 800}),
    "C11": ([Dimensions], {"consistent": 100, "result": 60}),
    "C12": ([Translation], {"argument": 20, "result": 20}),
    "C13": ([FixedPoints], {"fixed-point": 60}),
    "C14": ([Belongs, BelongsLater], {"belongs": 120, "belongs-later": 120}),
    "C19": ([Utilities], {"verdict": 30, "evidence": 30, "tolerance": 30, "perturbation": 20}),
    "C20": ([Inner], {"inner-problem": 40}),
    "C16": ([Defined], {"defined": 800}),
    "C21": ([Turning, TurningComplex], {"turning": 300, "turned": 80}),
}
PROPERTIES = {k: dict(analyses=a, floor=f, explain=meta.P[k]["explain"], assumptions=meta.P[k]["assumptions"])
              for k, (a, f) in ANALYSES.items()}
