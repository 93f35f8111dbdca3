"""Registry of properties and checks.  Each props/*.py file declares properties with P(...)."""
import glob, importlib.util, os

SPEC = {}
PROPS = []


def P(pid, title, statement, over, quantifier, why, files, mechanism, technique, level, note, rule, units=None,
      assumptions=(), observe=(), state=(), cap=None, not_applicable=None):
    assert pid not in SPEC and len(title) <= 80, (pid, len(title))
    PROPS.append(dict(
        prop={"id": pid, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quantifier}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                          "mechanism": [dict(name=n, where=w) for n, w in mechanism],
                          "observe_at": list(observe), "hook_needed": None}},
        technique=technique, level=level, note=note, not_applicable=not_applicable))
    if units:
        SPEC[pid] = dict(level=level, rule=rule, units=units, assumptions=list(assumptions), cap=cap or {})


for _f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props", "p*.py"))):
    exec(compile(open(_f).read(), _f, "exec"), {"P": P})
PROPS.sort(key=lambda p: p["prop"]["id"])
