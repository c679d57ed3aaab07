"""Independent statement of which states exist, how they may follow each other,
and where each action is allowed and leads. Written from
docs/reference/statesets.rst and the method documentation."""

_BASE = {"Resetting": {"Ready"}, "Ready": set()}
_MANAGER = {"Ready": {"Saving", "Loading"}, "Saving": {"Ready"}, "Loading": {"Ready"}}
_RUN = {
    "Ready": {"Configuring"},
    "Configuring": {"Armed"},
    "Armed": {"Running", "Seeking", "Resetting"},
    "Running": {"PostRun", "Seeking"},
    "PostRun": {"Finished", "Armed", "Seeking"},
    "Finished": {"Seeking", "Resetting", "Configuring"},
    "Seeking": {"Armed", "Paused", "Finished"},
    "Paused": {"Seeking", "Running"},
    "Aborting": {"Aborted"},
    "Aborted": {"Resetting"},
}
ABORTABLE = [
    "Ready", "Configuring", "Armed", "Running", "PostRun", "Paused", "Seeking",
    "Finished",
]


def relation(kind):
    rel = {k: set(v) for k, v in _BASE.items()}
    layers = dict(stateful=[], manager=[_MANAGER], runnable=[_MANAGER, _RUN])[kind]
    for layer in layers:
        for k, v in layer.items():
            rel.setdefault(k, set()).update(v)
    if kind == "runnable":
        for s in ABORTABLE:
            rel[s].add("Aborting")
    for s in list(rel):
        rel[s] |= {"Fault", "Disabling"}
    rel["Fault"] = {"Resetting", "Disabling"}
    rel["Disabling"] = {"Fault", "Disabled"}
    rel["Disabled"] = {"Resetting"}
    return rel


def states(kind):
    return sorted(relation(kind))


def writeable_in(kind):
    """{field: set of states}, for the fields every block of this kind has"""
    every = set(states(kind))
    up = every - {"Disabling", "Disabled"}
    d = {"disable": up, "reset": {"Disabled", "Fault"}, "state": set(), "health": set()}
    d["meta"] = set()
    d.pop("meta")
    if kind in ("manager", "runnable"):
        for f in ("layout", "design", "exports", "save"):
            d[f] = {"Ready"}
        d["modified"] = d["mri"] = set()
    if kind == "runnable":
        d["completedSteps"] = {"Paused", "Armed"}
        d["configuredSteps"] = d["totalSteps"] = set()
        d["validate"] = up
        d["configure"] = {"Ready", "Finished"}
        d["run"] = {"Armed"}
        d["abort"] = set(ABORTABLE)
        d["pause"] = {"Armed", "Paused", "Running", "Finished"}
        d["resume"] = {"Paused"}
        d["reset"] = {"Fault", "Disabled", "Aborted", "Armed", "Finished"}
    return d


REST = {
    "stateful": {"Ready", "Fault", "Disabled"},
    "manager": {"Ready", "Fault", "Disabled"},
    "runnable": {"Ready", "Fault", "Disabled", "Armed", "Paused", "Finished", "Aborted"},
}
