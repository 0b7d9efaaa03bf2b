import json, os
from lib import burn, common, fmp, harness, progs, sources, specs

W = {"set": 2, "show": 3, "if": 1, "call": 5, "assert_false": 0.2, "assert_true": 0.3}
NAMES = ["a", "b", "helper", "Helper", "s1", "s_2", "é1", "long_script_name", "x", "test_it", "end_", "q7", "w", "z9", "inner", "Loop", "If", "end", "script", "long_script_name_" * 8 + "a", "long_script_name_" * 8 + "b"]


def small_script(rng, name, others):
    """A script with one line to tell it by, and calls of others."""
    b = [("dlg", ("str", "in " + name + " " + str(rng.randrange(1000))))]
    for o in rng.sample(others, rng.randrange(0, min(2, len(others)) + 1)): b.insert(rng.randrange(len(b) + 1), ("call", ("str", o)))
    return b


DB = {"layout": 2, "new": 1, "setf": 2, "fill": 2, "findop": 1, "all": 0.5, "records": 1, "goto": 1.5}


def common_schema(ss):
    """What all of the schemas have, as the last one keeps it; None without a field or layout."""
    last = ss[-1]
    occs = {o: v for o, v in last.occs.items() if all(v[0] in {n for n, t in s.occs.values()} for s in ss)}
    names = {}
    for o, (n, t) in occs.items():
        for s in ss:
            t2 = [u for m, u in s.occs.values() if m == n][0]
            fs = set(s.tables[t2][1].values())
            names[t] = names[t] & fs if t in names else fs
    tables = {t: (last.tables[t][0], {f: x for f, x in last.tables[t][1].items() if x in fs}) for t, fs in names.items()}
    occs = {o: v for o, v in occs.items() if tables[v[1]][1]}
    layouts = {l: v for l, v in last.layouts.items() if v[1] in occs}
    return burn.Schema(tables, occs, layouts) if occs and layouts else None


def distinct(ns): return len(set(ns)) == len(ns)


def schemas(rng, n):
    """One description per database and, per stage, all that is known after it: later files replace what has the same id."""
    while True:
        first = progs.random_schema(rng)
        specs, merged = [first], [progs.burn_schema(first)]
        for i in range(1, n):
            x = rng.random()
            if x < 0.25: sp = first
            elif x < 0.35: sp = fmp.Spec()
            else:
                sp = progs.random_schema(rng, 2, 3)
                if rng.random() < 0.5:                      # its ids next to or over those of the files before
                    low = lambda d, all: dict(zip(rng.sample(sorted(set(range(1, 9)) | set(all)), len(d)), d.values()))
                    new = dict(zip(sp.tables, rng.sample(sorted(set(range(1, 9)) | set(merged[-1].tables)), len(sp.tables))))
                    newo = dict(zip(sp.occs, rng.sample(sorted(set(range(1, 9)) | set(merged[-1].occs)), len(sp.occs))))
                    sp.tables = {new[t]: d for t, d in sp.tables.items()}
                    sp.occs = {newo[o]: (m, new[t]) for o, (m, t) in sp.occs.items()}
                    sp.layouts = {l: (m, newo[o]) for l, (m, o) in low(sp.layouts, merged[-1].layouts).items()}
            b, m = progs.burn_schema(sp), merged[-1]
            specs.append(sp)
            merged.append(burn.Schema({**m.tables, **b.tables}, {**m.occs, **b.occs}, {**m.layouts, **b.layouts}))
        if all(distinct([v[0] for v in x.values()]) for m in merged for x in (m.occs, m.layouts, m.tables)) or rng.random() < 0.02: break
    if not all(distinct([v[0] for v in x.values()]) for m in merged for x in (m.occs, m.layouts)): return schemas(rng, n)
    return specs, merged


def make(rng):
    """A command over several files: (args, files, [stage: [Case]] , kind, order of the files)"""
    kind = rng.choice(["-c", "-d"])
    n = rng.choice([1, 1, 2, 2, 3, 4])
    nt = rng.choice([0, 1, 1, 2, 3])
    names = rng.sample(NAMES, 8)
    pr = burn.Printer(rng, style=rng.choice(["plain", "tight"]))
    files, stages_scripts, src_tests, known = {}, [], [], {}
    pos = 0
    sps, merged = schemas(rng, n) if kind == "-d" else ([None] * n, [None] * n)
    rich = kind == "-d" and rng.random() < 0.7
    ids = {}
    mains = [common.stem(rng, "f%d" % i) + (".burn" if kind == "-c" else rng.choice([".fmp12"] * 4 + [".FMP12", "", ".burn"])) for i in range(n)]
    for i in range(n):
        if kind == "-c":
            k = rng.choice([0, 1, 1, 2]) if pos < 7 else 0
            mine = names[pos:pos + k]; pos += k
            bodies = {m: small_script(rng, m, list(known) + [rng.choice(NAMES)] * (rng.random() < 0.2)) for m in mine}
            bodies = {m: [s for s in b if s != ("call", ("str", m))] for m, b in bodies.items()}
            known.update(bodies)
        else:
            bodies, sids = {}, {}
            for _ in range(rng.choice([0, 1, 1, 2])):
                sid = rng.randrange(1, 5)                   # may take the id of a script of an earlier file
                if sid in sids.values(): continue
                m = rng.choice([x for x in NAMES if x not in ids.values() and x not in bodies] + ([ids[sid]] if sid in ids else []))
                bodies[m] = small_script(rng, m, [])
                if sids and rng.random() < 0.5: bodies[m].append(("call", ("str", rng.choice(list(sids)))))
                sids[m] = sid
            sp = fmp.Spec()
            sp.tables, sp.occs, sp.layouts = sps[i].tables, sps[i].occs, sps[i].layouts
            stored = {m: progs.stored_steps(bodies[m], sids, rng) for m in sids}
            if rich:                                        # one of the same name and id in every file, with work of its own
                sids["entry"] = 9
                for _ in range(60):
                    p = progs.Progs(rng, {**W, **DB, "setf": 0, "fill": 0, "findop": 0, "records": 0, "call": 0}, merged[i], [], simple=True)
                    b = p.body(rng.randrange(1, 5), 1, {})
                    for l, o in rng.sample(sorted(merged[i].layouts.values()), min(2, len(merged[i].layouts))):
                        b += [("layout", ("str", l)), ("new",), ("dlg", ("cat", ("str", "in " + l), ("fld", merged[i].occs[o][0], rng.choice(list(merged[i].tables[merged[i].occs[o][1]][1].values())))))]
                    for m in list(sids)[:-1]: b.insert(rng.randrange(len(b) + 1), ("call", ("str", m)))
                    try: stored["entry"] = progs.stored_steps(b, sids, rng)
                    except progs.Unstorable: continue
                    try: burn.World(merged[i], {**{m: bodies[m] for m in bodies}, "entry": b}, budget=800).run_test([("call", ("str", "entry"))])
                    except (burn.ModelError, burn.Budget, RecursionError): continue
                    bodies["entry"] = b
                    break
                else:
                    bodies["entry"] = [("dlg", ("str", "entry %d" % i))]
                    stored["entry"] = progs.stored_steps(bodies["entry"], sids, rng)
            for m, s in sids.items():
                if s in ids: known.pop(ids[s], None)
            for m, s in sids.items():
                ids[s] = m; known[m] = bodies[m]
            for m, s in sids.items(): sp.scripts[s] = (m, stored[m], "chunk")
            files[mains[i]] = fmp.write(sp.items(rng))
        stages_scripts.append(dict(known))
        src_tests.append((bodies, rng.choice([0, 0, 1, 2]) if kind == "-c" else 0))
    probes = [m for m in NAMES if any(m in s for s in stages_scripts)] + ["nobody"]
    num, stats = [0], {"rich": 0}
    def test_cases(first):
        """One test, as it has to run in each stage from the given one on."""
        tries = 0
        shared = [m for m in probes if all(m in x for x in stages_scripts[first:])]     # others would not end (known finding)
        while True:
            tries += 1
            sch = common_schema(merged[first:]) if rich and tries < 40 else None
            b = [("dlg", ("str", "test %d" % num[0]))]
            p = progs.Progs(rng, {**W, **DB} if sch else W, sch, probes if rng.random() < 0.1 else shared, simple=bool(sch)) if tries % 8 else progs.Progs(rng, W, sch, shared, simple=bool(sch))
            if sch:
                b += p.start()
                if rng.random() < 0.7: b.append(("call", ("str", "entry")))
            else:
                for m in rng.sample(shared, rng.randrange(0, len(shared) + 1)): b.append(("call", ("str", m)))
            b += p.body(rng.randrange(0, 4), 1, {})
            if sch:
                if rng.random() < 0.5: b.append(("call", ("str", "entry")))
                b += p.dump()
            elif rng.random() < 0.05: b = []
            worlds = [burn.World(schema, s, budget=800) for schema, s in zip(merged, stages_scripts)]
            name = "t%d" % num[0]
            cs = [harness.make_case(name, b, w, pr) if i >= first else None for i, w in enumerate(worlds)]
            if any(c is None for c in cs[first:]): continue
            num[0] += 1
            stats["rich"] += bool(sch)
            return cs
    tests = []                                              # (index of the stage they join, cases by stage)
    tfiles = []
    for j in range(nt):
        mine = [test_cases(0) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        tfiles.append(common.stem(rng, "t%d" % j) + rng.choice([".burn", ".burn", ".burn", "", ".txt"]))
        files[tfiles[-1]] = "".join(c[0].source for c in mine)
        if rng.random() < 0.1 and j == 0: tfiles.append(tfiles[0]); mine = mine + mine
        tests += [(0, c) for c in mine]
    if kind == "-c":
        for i, (bodies, k) in enumerate(src_tests):
            mine = [test_cases(i) for _ in range(k)]
            tests += [(i, c) for c in mine]
            parts = ["script: [\n" + pr.script(m, b) + "]\n" for m, b in bodies.items()] + [c[i].source for c in mine]
            if rng.random() < 0.5: parts.insert(rng.randrange(len(parts) + 1), "table tab%d:\n  x: Text,\nend table;\n" % i)
            # tests keep their order, anything else may stand between them
            files[mains[i]] = "".join(parts)
    stages = [[c[i] for first, c in tests if first <= i] for i in range(n)]
    return kind, mains, tfiles, files, stages


def arguments(rng, kind, mains, tfiles, opts):
    """The options in a random order that keeps the files of each kind in order."""
    slots = [(kind, m) for m in mains], [("-t", t) for t in tfiles], [(o,) for o in opts]
    pool = [0] * len(mains) + [1] * len(tfiles) + [2] * len(opts)
    rng.shuffle(pool)
    its = [iter(s) for s in slots]
    out = []
    for k in pool:
        g = next(its[k])
        if len(g) == 2 and rng.random() < 0.25: out.append(g[0] + rng.choice(["", "", "="]) + g[1])
        else: out += list(g)
    return out


def listing(d): return sorted(os.path.relpath(os.path.join(r, f), d) for r, _, fs in os.walk(d) for f in fs if not f.startswith(".std"))


def compare(seen, stages):
    exp = [c for s in stages for c in s]
    for i, c in enumerate(exp):
        if i >= len(seen): return "test %s was not run (%d of %d runs seen)" % (c.name, len(seen), len(exp))
        name, lines, outcome = seen[i]
        if name != c.name: return "run %d was test %s, expected %s" % (i, name, c.name)
        d = harness.agrees(c, lines, outcome)
        if d: return "run %d, test %s: %s" % (i, name, d)
    if len(seen) > len(exp): return "test %s ran, no more tests were expected" % seen[len(exp)][0]
    return None


def run(check):
    check.rule = ("commands with 1-4 -c or -d files, 0-4 -t files, --no-testing and --print-header in any order and form; each test "
                  "shows which scripts of which files it could call; the runs, outputs, written files and exit status are compared "
                  "with the reference model for every stage; unreadable files and wrong option combinations are refused; a case is "
                  "one command, distinct by its shape and outcome")
    binary, hooked = common.build()
    failed = []
    def one(b):
        if len(failed) >= 6: return None
        rng = check.rng("command", b)
        kind, mains, tfiles, files, stages = make(rng)
        bad = []
        def execute(args, tree=files):
            with common.Scratch() as sc:
                for n, d in tree.items(): sc.write(n, d)
                before = listing(sc.dir)
                r = common.run(binary, args, sc, cpu=10)
                new = [f for f in listing(sc.dir) if f not in before]
                return r, {f: sc.read(f) for f in new}
        model = "inspect_output/test_" + ("compile" if kind == "-c" else "decompile")
        opts = rng.choice([[], [], ["--print-header"], ["--no-testing"], ["--no-testing", "--print-header"]])
        args = arguments(rng, kind, mains, tfiles, opts)
        r, new = execute(args)
        # the assembler's and decompiler's own lines come after or before tests, the parser leaves them out
        seen = harness.parse_output(r.out)
        want = [] if "--no-testing" in opts else stages
        if r.rc: bad.append("ended with status %d: %s" % (r.rc, r.err.strip()[-300:]))
        d = compare(seen, want)
        if d: bad.append(d)
        expect = {model} | ({m[:-5] + ".fmp12" for m in mains} if kind == "-c" else set()) | ({"header.log"} if kind == "-d" and "--print-header" in opts else set())
        if set(new) != expect: bad.append("wrote %s, expected %s" % (sorted(new), sorted(expect)))
        if "header.log" in new and new["header.log"] != files[mains[-1]]: bad.append("header.log is no copy of %s" % mains[-1])
        try: m1 = json.loads(new[model])
        except (KeyError, ValueError): m1 = None
        # the same with the options changed
        other = arguments(rng, kind, mains, tfiles, [o for o in ("--no-testing", "--print-header") if (o in opts) != (rng.random() < 0.7)])
        r2, new2 = execute(other)
        seen2 = harness.parse_output(r2.out)
        d = compare(seen2, [] if "--no-testing" in other else stages)
        if d: bad.append("%s: %s" % (other, d))
        try: m2 = json.loads(new2[model])
        except (KeyError, ValueError): m2 = None
        if kind == "-d" and len(mains) > 1:                 # the model is the one of the last file
            r5, new5 = execute(["-d", mains[-1]], {mains[-1]: files[mains[-1]]})
            try: m5 = json.loads(new5[model])
            except (KeyError, ValueError): m5 = None
            if m5 != m1: bad.append("the model is not that of %s alone: %s" % (mains[-1], str(specs.diff(m5, m1))[:300]))
        if m1 != m2 or m1 is None: bad.append("the model differs between %s and %s" % (args, other))
        for f in set(new) & set(new2):
            if f.endswith(".fmp12") and new[f] != new2[f]: bad.append("%s differs between %s and %s" % (f, args, other))
        # a file that cannot be read
        which = rng.choice(["t", "main", "main"])
        tree, broken = dict(files), rng.choice(["missing", "directory", "binary"])
        ts, ms = list(tfiles), list(mains)
        if which == "t":
            j = rng.randrange(len(ts) + 1); ts.insert(j, "broken.burn"); good = 0
        else:
            j = rng.randrange(len(ms) + 1); good = j
            ms.insert(j, "broken.burn" if kind == "-c" else "broken.fmp12")
        if broken == "binary" and (kind == "-c" or which == "t"): tree["broken.burn"] = b"table x\xff\xfe:\nend table;\n"
        elif broken == "directory": ts = ["inspect_output" if x.startswith("broken") else x for x in ts]; ms = ["inspect_output" if x.startswith("broken") else x for x in ms]
        args3 = arguments(rng, kind, ms, ts, [])
        r3, new3 = execute(args3, tree)
        if r3.rc == 0 or r3.signal: bad.append("%s with an unreadable file ended with status %d" % (args3, r3.rc))
        d = compare(harness.parse_output(r3.out), stages[:good])
        if d: bad.append("%s with an unreadable file: %s" % (args3, d))
        written = {f for f in new3 if f.endswith(".fmp12")}
        if kind == "-c" and written != {m[:-5] + ".fmp12" for m in mains[:good]}: bad.append("%s with an unreadable file wrote %s" % (args3, sorted(written)))
        # option combinations that are refused
        t = ["-t", tfiles[0]] if tfiles else []
        both = ["-d", mains[0]] if kind == "-c" else ["-c", "t0.burn"]
        wrong = rng.choice([t, t + ["--no-testing"], ["--print-header"] + t, [kind] + t, t + [kind], [kind, mains[0]] + both, both + [kind, mains[0]] + t,
                            [kind, mains[0], "-t"], [kind, mains[0], "--no-such-option"], [], mains, [kind, mains[0], "--no-testing=yes"]])
        r4, new4 = execute(wrong)
        if r4.rc <= 0: bad.append("%s ended with status %d" % (wrong, r4.rc))
        if harness.parse_output(r4.out) or new4: bad.append("%s ran tests or wrote %s" % (wrong, sorted(new4)))
        if bad: failed.append(b)
        shape = (kind, len(mains), len(tfiles), sorted(opts), [len(s) for s in stages], [(len(c.lines), c.ok) for s in stages for c in s])
        return shape, [args, other, args3, wrong], sum(map(len, stages)), bad, {n: d if isinstance(d, str) else d.rstrip(b"\0").hex() for n, d in files.items()}
    for res in common.parallel(one, range(common.quick(120, 3000))):
        if res is None: continue
        shape, argv, runs, bad, files = res
        check.case(shape); check.count("commands", len(argv)); check.count("test_runs_expected", runs); check.count("files_with_" + shape[0], shape[1])
        check.sample(argv[0])
        if bad: check.violation("%s\n%s" % (argv[0], "\n".join(bad)), {"args": argv, "files": files})
    return check.finish(150)
