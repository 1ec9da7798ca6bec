"""property -> contract units and native suites"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PROPS = {
    "C01": {"units": ["auth", "state"], "suites": ["auth", "verify", "state"]},
    "C02": {"units": ["state"], "suites": ["verify", "state"]},
    "C03": {"units": ["auth", "store", "state"], "suites": ["auth", "coll", "state"]},
    "C04": {"units": ["auth", "state"], "suites": ["auth", "state"]},
    "C05": {"units": ["auth"], "suites": ["auth", "auth@random_leader"]},
    "C06": {"units": ["smr"], "suites": ["smr"]},
    "C07": {"units": ["smr"], "suites": ["smr"]},
    "C08": {"units": ["smr"], "suites": ["smr"]},
    "C09": {"units": ["smr"], "suites": ["smr"]},
    "C10": {"units": ["state"], "suites": ["state"]},
    "C11": {"units": ["state"], "suites": ["state"]},
    "C12": {"units": ["smr", "state"], "suites": ["smr", "state", "node", "net"]},
    "C13": {"units": ["state"], "suites": ["state", "net"]},
    "C14": {"units": ["state", "store"], "suites": ["coll", "state"]},
    "C15": {"units": ["state"], "suites": ["verify", "state"]},
    "C16": {"units": ["state"], "suites": ["state"]},
    "C17": {"units": ["state", "store"], "suites": ["auth", "coll", "verify", "state"]},
    "C18": {"units": ["state", "smr", "timer"], "suites": ["smr", "state", "node", "net"]},
    "C19": {"units": ["timer", "smr"], "suites": ["timer"]},
    "C20": {"units": ["codec"], "suites": ["codec"]},
    "C21": {"units": ["codec"], "suites": ["codec"]},
    "C22": {"units": ["codec", "state"], "suites": ["verify", "codec", "state"]},
    "C23": {"units": ["json"], "suites": ["json"]},
    "C24": {"units": ["store"], "suites": ["coll"]},
    "C25": {"units": ["timer", "smr", "state", "node"], "suites": ["timer", "smr", "state", "node"]},
    "C26": {"units": ["smr", "state", "auth"], "suites": ["agree", "auth", "verify", "smr", "state", "net"],
            "assumptions": ["a signature that verifies for an honest validator was made by it", "validators of less than a third of the vote weight are faulty",
                            "a restarted node reads the last log record it wrote", "honest nodes are given the same authority list for a height"]},
    "C27": {"units": ["node", "state", "timer", "smr"], "suites": ["node"],
            "assumptions": ["no lock of the instance is poisoned or taken by others while run takes its parts"]},
}
ASSUMPTIONS = [
    "the trusted base listed in coverage.trusted_base (stubs of library types and their contracts)",
    "the extraction tool vx and its rewrites (DESIGN.md, what the extraction drops)",
    "channels between the parts of a node stay open while the node runs",
]


def baseline(unit):
    p = os.path.join(HERE, "units", unit + ".base.json")
    return json.load(open(p)) if os.path.exists(p) else {}

HOOKS = ["028d6c555cb66c11a97e1f5fb1a6db66c4535b5c"]
NOT_APPLICABLE = {
    "C28": "liveness of infinite runs of several nodes under fairness of network and timers: a function contract of a deductive Rust verifier (Verus has no temporal operators over executions) speaks of one call, or by induction of every finite history, never of what must eventually happen; the safety side (C07, C08, C17-C19, C26) is claimed, the liveness findings made while testing are in DESIGN.md section 8",
}
