"""C02: a subscriber's replayed view always equals the state served"""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vmon  # noqa: E402

import mh  # noqa: E402
from malcolm.core import Error, Get, Post, Put  # noqa: E402
from subs import SubRig, overlaps  # noqa: E402


def compare_all(m, rig, tag):
    """Every live view equals the state served, right now"""
    state = rig.c.state()
    for s in rig.subs:
        want = mh.walk(state, s.path[1:])
        want = None if want is mh.MISSING else want
        m.check(
            s.view == want,
            "view-not-converged",
            lambda: "after %s: %s delta=%s view %s but block has %s"
            % (tag, s.path, s.delta, str(s.view)[:300], str(want)[:300]),
        )


def history(m, rng, idx):
    rig = SubRig(m, rng)
    for _ in range(rng.randrange(2, 7)):
        rig.subscribe(rig.random_path(), rng.random() < 0.5)
    ended = []
    for step in range(rng.randrange(20, 50)):
        r = rng.random()
        if r < 0.15 and len(rig.subs) < 10:
            rig.subscribe(rig.random_path(), rng.random() < 0.5)
        elif r < 0.25 and rig.subs:
            s = rng.choice(rig.subs)
            rig.unsubscribe(s)
            ended.append((s, s.messages))
        elif r < 0.32:
            # Through the front door
            before = {s: s.messages for s in rig.subs}
            n = rng.choice(rig.names)
            rig.op = "put"
            rig.request(Put(999, ["MRI", n, "value"], rig.gen(n)))
            for s in rig.subs:
                if not overlaps(s.path[1:], [n]):
                    m.check(s.messages == before[s], "unaffected-got-message", "%s after put to %s" % (s.path, n))
        elif r < 0.38:
            rig.op = "post"
            rig.request(Post(998, ["MRI", "echo"], dict(x=rng.randrange(1000))))
        else:
            before = {s: s.messages for s in rig.subs}
            touched = rig.random_change()
            for s in rig.subs:
                got = s.messages - before[s]
                rel = s.path[1:]
                hit = [sure for path, sure in touched if overlaps(path, rel)]
                if not hit:
                    m.check(
                        got == 0,
                        "unaffected-got-message",
                        "%s got %d messages after %s %s" % (s.path, got, rig.op, touched),
                    )
                elif any(hit):
                    m.check(got >= 1, "change-not-delivered", "%s after %s %s" % (s.path, rig.op, touched))
                    m.count("deliveries", got)
        compare_all(m, rig, rig.op)
    # What was delivered did not change afterwards in the receiver's hands
    for s in rig.subs + [e[0] for e in ended]:
        for response, n in s.raw:
            now = mh.norm(response.changes if s.delta else response.value)
            m.check(now == n, "delivered-message-mutated", "%s: %s became %s" % (s.path, str(n)[:200], str(now)[:200]))
    for s, n in ended:
        m.check(s.messages == n, "message-after-unsubscribe", "%s" % s.path)
    # And Get agrees with what we compared with
    for s in rig.subs:
        r = rig.request(Get(997, s.path))
        if isinstance(r, Error):
            m.check(s.view is None, "get-differs", "%s: get fails but view is %s" % (s.path, str(s.view)[:200]))
        else:
            m.check(
                mh.norm(r.value) == s.view,
                "get-differs",
                lambda: "%s: get %s view %s" % (s.path, str(mh.norm(r.value))[:300], str(s.view)[:300]),
            )
        m.count("final_gets")
    m.sample(dict(paths=[s.path for s in rig.subs], messages=[s.messages for s in rig.subs]))


check = vmon.Check(
    "C02",
    [vmon.Scenario("history", history, quick=900, thorough=6000, timeout=30)],
    rule="distinct (subscribed path shape, delta or update, kind of change) combinations delivered",
    required=["deliveries", "unsubscribed", "final_gets", "table_sets", "op_remove_field", "op_set_meta"],
    assumptions=["a path that does not exist is shown to its subscribers as null"],
)
if __name__ == "__main__":
    check.main()
