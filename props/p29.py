import json
from lib import common, progcheck, progs

W = {"probe": 2, "goto": 4, "records": 2, "fill": 3, "new": 2, "layout": 3, "findop": 3, "enterfind": 0.3, "find": 0.6, "loop": 1,
     "if": 1, "setf": 2, "all": 1, "call": 2, "set": 1, "exit": 0.1, "assert_false": 0.05}


def judge(tables, prev, s):
    """None or what is wrong with one observed state. tables: ids of the stored tables."""
    db = s["db"]
    lens = db["tables"]
    for t, l in enumerate(lens):
        if len(set(l)) > 1: return "the fields of table %d hold %r records" % (t, l)
    if db["occurrences"] and db["current"] is None: return "the current occurrence does not exist"
    for o, (t, pos, found) in enumerate(db["occurrences"]):
        n = lens[t][0] if t < len(lens) and lens[t] else 0
        if any(a >= b for a, b in zip(found, found[1:])): return "found set of occurrence %d is not ascending without duplicates: %r" % (o, found)
        if any(r >= n for r in found): return "found set %r of occurrence %d lists a record its table (of %d) does not have" % (found, o, n)
        if pos >= len(found) and not (pos == 0 and not found): return "position %d of occurrence %d is outside of its found set %r" % (pos, o, found)
    if s["scopes"] < s["depth"]: return "%d scripts in progress, %d variable scopes" % (s["depth"], s["scopes"])
    if prev is not None and prev["test"] == s["test"]:
        for t, l in enumerate(prev["db"]["tables"]):
            if l and lens[t] and lens[t][0] < l[0]: return "table %d lost records: %d, now %d" % (t, l[0], lens[t][0])
            if l and lens[t] and lens[t][0] > l[0] + 1: return "table %d grew by %d records in one step" % (t, lens[t][0] - l[0])
    return None


def run(check):
    check.rule = ("random record-handling tests and stored scripts over random schemas; the state of the record store is "
                  "recorded before every executed step and each state is judged on its own and against the one before it, "
                  "and the sequence of record counts against the reference interpreter; output lines are compared too. A "
                  "case is one test; distinct states are counted")
    binary, hooked = common.build()
    def db(rng, b):
        w = {k: v for k, v in W.items() if k in ("probe", "set", "if", "new", "layout", "goto", "all", "enterfind", "find", "loop")}
        return progcheck.db_batch(rng, binary, hooked, w, n_scripts=rng.choice([0, 1, 2, 3]), schema_spec=progs.random_schema(rng, top=140))   # a state has an entry for every id up to the largest
    def body(rng, bt):
        p = progs.Progs(rng, W, bt.schema, list(bt.scripts))
        b = p.start() if rng.random() < 0.85 else []
        if rng.random() < 0.7:
            for _ in range(rng.randrange(1, 6)): b += p.dbstep("fill", 1, {}, 0)
        return b + p.body(rng.randrange(3, 16), rng.choice([1, 2, 2, 3]), {}) + (p.dump() if rng.random() < 0.4 else []) + [("dlg", ("str", "end"))]
    def trace(bt, cases):
        by = {c.name: c for c in cases}
        def on_trace(text, todo):
            order = list(bt.spec.tables)
            states = []
            for line in text.split("\n"):
                if not line.strip(): continue
                try: states.append(json.loads(line))
                except ValueError: break             # the last line of a run that ended
            prev, hist, problems = None, {}, {}
            seen = set()
            for s in states:
                d = judge(order, prev, s)
                if d and s["test"] not in problems: problems[s["test"]] = "before step %s of script %s: %s" % (s["ip"], s["script"], d)
                if prev is None or prev["test"] != s["test"]:
                    if any(l and l[0] for l in s["db"]["tables"]): problems.setdefault(s["test"], "the test starts with records")
                seen.add(json.dumps(s["db"]))
                lens = s["db"]["tables"]
                now = tuple(lens[t][0] if t < len(lens) and lens[t] else 0 for t in order)
                h = hist.setdefault(s["test"], [])
                if not h or h[-1] != now: h.append(now)
                prev = s
            bt.states = getattr(bt, "states", 0) + len(states)
            bt.seen = getattr(bt, "seen", set()) | {hash(x) for x in seen}
            bt.problems = dict(problems)
            for n, h in hist.items():
                if n in by and n not in problems and h not in [x[:len(h)] for x in by[n].counts]:
                    bt.problems[n] = "records per table went through %r, the steps add them as %r" % (h, by[n].counts[1])
            bt.sources = {n: by[n].source for n in bt.problems if n in by}
        return on_trace
    results = []
    progcheck.run(check, db, body, common.quick(30, 1200, 4), 12, trace=trace, min_lines=1, collect=results)
    distinct = set()
    for bt in results:
        check.count("states_observed", getattr(bt, "states", 0))
        distinct |= getattr(bt, "seen", set())
        for n, d in getattr(bt, "problems", {}).items():
            check.violation("%s: %s" % (n, d), {"test": bt.sources.get(n), "file": bt.session.files["synth.fmp12"].hex()[:200000]})
    check.extra["distinct_states"] = len(distinct)
    check.extra["observation_points"] = sorted(hooked)
    if hooked and not check.violations and check.extra.get("states_observed", 0) < 10000: raise common.Inconclusive("too few states were observed")
    return check.finish(200)
