"""C15: dump files contain the recorded data and stay inside the dump directory."""
import os, re
import numpy as np
from .. import gen, runs, dumps, instr, build
from ..build import arr
from ..dumps import DumpRun, Cfg, OPT_FLAGS, DYN_FLAGS, ITEM

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: a file-system audit hook records every path the process writes while real optimisations dump to file; an independent parser reads the files back and compares them with the values in memory and in the event log"
CASES = {"quick": 1960, "thorough": 21000}
NEED = {"runs": 400, "files": 10000, "blocks": 20000, "writeouts": 300, "streams": 80, "unusable": 40, "default_dir": 20, "renamed": 60, "earlier_files": 150, "summary_names": 60, "summary_home": 12, "links": 150}
RULE = ("random runs dumping to file interactively or on request, at every level, into relative, nested, absolute, home, default and unusable directories, "
        "with custom names, separators and extensions; distinct = (levels, directory kind, write mode, dynamics, measure, operator type)")
ASSUMPTIONS = ["directories are blocked by a file, a dangling link or a parent that is a file; failing writes to an existing directory are not provoked"]

TITLES = {"dyn_gen": r"dynamics generator for timeslot (\d+)", "prop": r"Propagator for timeslot (\d+)",
          "prop_grad": r"Propagator gradient for timeslot (\d+) control (\d+)", "fwd_evo": r"Evolution from 0 to (\d+)",
          "onwd_evo": r"Evolution from (\d+) to end", "onto_evo": r"Evolution from (\d+) onto target"}
SECTION = {"Ctrl amps": "ctrl_amps", "Dynamics Generators": "dyn_gen", "Propagators": "prop", "Propagator gradients": "prop_grad",
           "Forward evolution": "fwd_evo", "Onward evolution": "onwd_evo", "Onto evolution": "onto_evo"}


def row(line):
    """Numbers of a savetxt line, real or complex, any separator."""
    if "(" in line:
        return [complex(m.replace("+-", "-").replace(" ", "")) for m in re.findall(r"\(([^()]*)\)", line)]
    return [float(m) for m in re.findall(r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)", line)]


def table(lines):
    return np.array([row(l) for l in lines if l.strip()])


def blocks(cat, lines):
    """{index tuple: table} of an operator file."""
    out, cur = {}, None
    pat = re.compile(TITLES[cat])
    for l in lines:
        m = pat.match(l.strip())
        if m:
            cur = tuple(int(x) for x in m.groups())
            if cur in out:
                raise ValueError("block %s appears twice" % (cur,))
            out[cur] = []
        elif l.strip():
            if cur is None:
                raise ValueError("unexpected line %r" % l[:60])
            out[cur].append(l)
    return {k: table(v) for k, v in out.items()}


def check_oper_lines(mon, cat, v, lines, what):
    try:
        if cat == "ctrl_amps":
            mon.count("blocks")
            got = table(lines)
            want = np.asarray(v, float)
            mon.check(got.shape == want.shape and np.all(np.abs(got - want) <= 1e-5 * np.abs(want) + 1e-300 + (np.abs(want) < 1e-290)), "amps_file",
                      lambda: "%s does not hold the recorded amplitudes" % what)
            return
        got = blocks(cat, lines)
    except Exception as e:
        mon.fail("parse", "%s cannot be read back: %s" % (what, e))
        return
    if cat == "prop_grad":
        want = {(k, j): v[k, j] for k in range(v.shape[0]) for j in range(v.shape[1])}
    else:
        want = {(k,): x for k, x in enumerate(v)}
    if not mon.check(set(got) == set(want), "blocks_" + cat, lambda: "%s holds entries %s, recorded are %s" % (what, sorted(got)[:9], sorted(want)[:9])):
        return
    mon.check(list(got) == sorted(got), "order_" + cat, lambda: "%s holds its entries in the order %s" % (what, list(got)[:9]))
    for k in want:
        mon.count("blocks")
        if not mon.close(got[k], arr(want[k]), "data_" + cat, "%s entry %s" % (what, k), 1e-14, 1e-300):
            break


def cells(line, sep):
    return [c.strip() for c in (line.split() if sep == " " else line.split(sep))]


def check_summary(mon, items, lines, sep, what):
    lines = [l for l in lines if l.strip()]
    if not mon.check(len(lines) == (len(items) + 1 if items else 0), "summary_rows", lambda: "%s has %d lines for %d summaries" % (what, len(lines), len(items))) or not items:
        return
    names = items[0].summary_property_names
    mon.check(cells(lines[0], sep) == list(names), "summary_header", lambda: "%s header %s" % (what, lines[0]))
    for s, l in zip(items, lines[1:]):
        c = cells(l, sep)
        if not mon.check(len(c) == len(names), "summary_cells", lambda: "%s row %r" % (what, l)):
            return
        for n, x, prec in zip(names, c, s.summary_property_fmt_prec):
            v = getattr(s, n)
            if v is None:
                mon.check(x == "None", "summary_value", lambda: "%s shows %s for %s=None" % (what, x, n))
            else:
                tol = 0 if prec == 0 else abs(float(v)) * 0.6 * 10.0 ** (1 - prec)
                mon.check(abs(float(x) - float(v)) <= tol, "summary_value", lambda: "%s shows %s for %s=%s" % (what, x, n, v))


def read(path):
    with open(path) as f:
        return f.read().splitlines()


def opt_files(d, base, ext, explicit):
    """{file name: content kind} expected for an optimiser dump."""
    out = {}
    if d.dump_summary and (d.iter_summary or explicit):
        out["%s-summary.%s" % (base, ext)] = "summary"
    if d.dump_fid_err and (d.fid_err_log or explicit):
        out["%s-fid_err_log.%s" % (base, ext)] = "fid"
    if d.dump_grad_norm and (d.grad_norm_log or explicit):
        out["%s-grad_norm_log.%s" % (base, ext)] = "gn"
    if d.dump_grad:
        for i in range(len(d.grad_log)):
            out["%s-fid_err_gradients%d.%s" % (base, i + 1, ext)] = ("g", i)
    return out


def dyn_files(d, base, ext, explicit):
    out = {}
    if d.dump_summary and (d.evo_summary or explicit):
        out["%s-summary.%s" % (base, ext)] = "summary"
    for i, it in enumerate(d.evo_dumps):
        for cat in ITEM.values():
            if getattr(it, cat) is not None:
                out["%s-evo%d-%s.%s" % (base, i, cat, ext)] = (cat, i)
    return out


JUNK = "left by an earlier run 1.5\n2.5\n"


def listing(folder, want, junk, mon, what):
    """Files below folder, except those that were there before and are not to be written."""
    have = set()
    for dp, dn, fn in os.walk(folder):
        for n in fn:
            rel = os.path.relpath(os.path.join(dp, n), folder)
            if rel in junk and rel not in want:
                mon.check(open(os.path.join(folder, rel)).read() == JUNK, "foreign_file", lambda: "%s: file %s, which was there before, was changed" % (what, rel))
            else:
                have.add(rel)
    for n in junk:
        mon.check(os.path.exists(os.path.join(folder, n)), "foreign_removed", lambda: "%s: file %s, which was there before, is gone" % (what, n))
    return have


def earlier(rng, folder, which):
    """Files of an earlier run in the dump directory; their names."""
    os.makedirs(folder, exist_ok=True)
    base = {"o": "optimdump", "d": "dyndump"}[which]
    names = ["notes.txt"]
    for b in (base, "my_" + which):
        for e in ("txt", "dat"):
            names.append("%s-summary.%s" % (b, e))
            if which == "o":
                names += ["%s-fid_err_log.%s" % (b, e), "%s-grad_norm_log.%s" % (b, e)] + ["%s-fid_err_gradients%d.%s" % (b, i, e) for i in (1, 2, 40)]
            else:
                names += ["%s-evo%d-%s.%s" % (b, i, c, e) for i in (0, 1, 40) for c in ITEM.values()]
    names = [n for n in names if gen.chance(rng, .7)]
    for n in names:
        with open(os.path.join(folder, n), "w") as f:
            f.write(JUNK)
    return set(names)


def check_dir(mon, folder, want, d, which, sep, rng, what, junk=()):
    """Files present in folder are exactly those wanted, with the right contents."""
    have = listing(folder, want, junk, mon, what)
    if not mon.check(have == set(want), "files", lambda: "%s: files %s, expected %s" % (what, sorted(have ^ set(want))[:8], "present/missing")):
        return
    names = sorted(want)
    if len(names) > 40:
        names = [n for n in names if "-evo" not in n] + [names[int(i)] for i in rng.choice(len(names), 30, replace=False)]
    for n in sorted(set(names)):
        mon.count("files")
        k = want[n]
        lines = read(os.path.join(folder, n))
        w = "%s %s" % (what, n)
        if k == "summary":
            check_summary(mon, d.iter_summary if which == "o" else d.evo_summary, lines, sep, w)
        elif k == "fid":
            mon.check([float(l) for l in lines] == [float(x) for x in d.fid_err_log], "fid_log_file", lambda: "%s differs from fid_err_log" % w)
        elif k == "gn":
            mon.check([float(l) for l in lines] == [float(x) for x in d.grad_norm_log], "gn_log_file", lambda: "%s differs from grad_norm_log" % w)
        elif k[0] == "g":
            mon.close(table(lines), np.asarray(d.grad_log[k[1]], float), "grad_file", w, 1e-14, 1e-300)
        else:
            check_oper_lines(mon, k[0], getattr(d.evo_dumps[k[1]], k[0]), lines, w)


def check_single(mon, d, which, text, what):
    """One file or stream holding a whole dump."""
    mon.count("streams")
    lines = text.splitlines()
    if which == "o":
        sec, cur = {}, "summary"
        for l in lines:
            m = re.match(r"gradients \(call (\d+)\):", l)
            if l == "Fidelity errors:":
                cur = "fid"
            elif l == "gradients norms:":
                cur = "gn"
            elif m:
                cur = ("g", int(m.group(1)) - 1)
            else:
                sec.setdefault(cur, []).append(l)
                continue
            sec.setdefault(cur, [])
        if d.dump_summary:
            check_summary(mon, d.iter_summary, sec.get("summary", []), d.summary_sep, what)
        if d.dump_fid_err:
            mon.check([float(l) for l in sec.get("fid", [])] == [float(x) for x in d.fid_err_log], "fid_log_file", lambda: "%s: fidelity errors" % what)
        if d.dump_grad_norm:
            mon.check([float(l) for l in sec.get("gn", [])] == [float(x) for x in d.grad_norm_log], "gn_log_file", lambda: "%s: gradient norms" % what)
        if d.dump_grad:
            have = sorted(k[1] for k in sec if isinstance(k, tuple))
            if mon.check(have == list(range(len(d.grad_log))), "grad_sections", lambda: "%s: gradients of calls %s of %d" % (what, have, len(d.grad_log))):
                for i in have:
                    mon.close(table(sec[("g", i)]), np.asarray(d.grad_log[i], float), "grad_file", "%s gradient %d" % (what, i), 1e-14, 1e-300)
        return
    # dynamics: summary, then one part per item
    parts, cur = {}, None
    summ = []
    for l in lines:
        m = re.match(r"EVOLUTION COMPUTATION (\d+)$", l)
        if m:
            cur = {}
            parts[int(m.group(1))] = cur
            sec = None
        elif cur is None:
            summ.append(l)
        elif l in SECTION:
            sec = SECTION[l]
            cur[sec] = []
        else:
            cur.setdefault(sec, []).append(l)
    if d.dump_summary:
        check_summary(mon, d.evo_summary, summ, d.summary_sep, what)
    if mon.check(list(parts) == list(range(len(d.evo_dumps))), "items_in_file", lambda: "%s: items %s of %d" % (what, sorted(parts)[:9], len(d.evo_dumps))):
        for i, it in enumerate(d.evo_dumps[:6]):
            want = {c for c in ITEM.values() if getattr(it, c) is not None}
            if mon.check(set(parts[i]) == want, "sections", lambda: "%s: item %d has %s, recorded %s" % (what, i, sorted(map(str, parts[i])), sorted(want))):
                for c in want:
                    check_oper_lines(mon, c, getattr(it, c), parts[i][c], "%s item %d %s" % (what, i, c))


def tree(root):
    out = set()
    for dp, dn, fn in os.walk(root):
        for n in dn + fn:
            out.add(os.path.join(dp, n))
    return out


def case(mon, rng, idx, tier):
    home, cwd = os.path.join(mon.scratch, "home"), os.path.join(mon.scratch, "cwd")
    os.makedirs(home)
    os.makedirs(cwd)
    old_home = os.environ.get("HOME")
    os.environ["HOME"] = home
    os.chdir(cwd)
    try:
        _case(mon, rng, idx, tier, home, cwd)
    finally:
        os.environ["HOME"] = old_home
        os.chdir("/")


def location(rng, kind, tag, home, cwd, scratch):
    """(value of dump_dir, absolute path)"""
    if kind == "default":
        return None, os.path.join(home, ".qtrl_dump")
    if kind == "relative":
        return tag, os.path.join(cwd, tag)
    if kind == "nested":
        v = os.path.join("a", tag, "b c")
        return v, os.path.join(cwd, v)
    if kind == "absolute":
        v = os.path.join(scratch, "abs", tag)
        return v, v
    if kind == "home":
        return "~/d/" + tag, os.path.join(home, "d", tag)
    if kind == "existing":
        p = os.path.join(cwd, "ex-" + tag)
        os.makedirs(p)
        return p, p
    if kind == "tilde":
        return "x~" + tag, os.path.join(cwd, "x~" + tag)
    # unusable
    p = os.path.join(scratch, "blocked-" + tag)
    if kind == "file":
        open(p, "w").write("keep")
        return p, p
    if kind == "under_file":
        open(p, "w").write("keep")
        return os.path.join(p, "sub"), os.path.join(p, "sub")
    os.symlink(os.path.join(scratch, "nowhere"), p)
    return p, p


def links(mon, rng, home, cwd):
    """The dump settings reached through the optimiser and the dynamics, before and without a run."""
    p = gen.problem(rng, dims_small=True, max_ts=3)
    mon.note(part="links", **p.describe())
    o = build.optim(p)
    hosts = {"o": o, "d": o.dynamics}
    for w, h in hosts.items():
        mon.count("links")
        base = {"o": "optimdump", "d": "dyndump"}[w]
        mon.check(h.dump is None and h.dumping == "NONE" and h.dump_dir is None, "link:off", lambda: "without dumping: dump %s, dumping %s, dump_dir %s" % (h.dump, h.dumping, h.dump_dir))
        how = gen.pick(rng, ["dir", "dir", "level", "to_file", "read"])
        v, q = location(rng, gen.pick(rng, ["relative", "nested", "absolute", "home"]), w, home, cwd, mon.scratch)
        mon.sig("links", w, how)
        if how == "dir":
            with mon.guard("link", "dump_dir"):
                h.dump_dir = v
            if not mon.check(h.dump is not None, "link:created", "setting dump_dir gives no dump"):
                continue
            mon.check(h.dumping == "SUMMARY", "link:level", lambda: "dumping is %s after setting dump_dir" % h.dumping)
            mon.check(os.path.isdir(q), "link:dir", lambda: "%s is not created" % q)
        elif how == "level":
            lv = gen.pick(rng, ["summary", "FULL", "Full", "SUMMARY"])
            h.dumping = lv
            first = h.dump
            if gen.chance(rng, .5):
                h.dump_dir = v
            else:
                h.dump.dump_dir = v
            mon.check(h.dump is first and h.dumping == lv.upper(), "link:level", lambda: "dumping is %s after %s and dump_dir" % (h.dumping, lv))
        elif how == "to_file":
            h.dump_to_file = True
            v, q = None, os.path.join(home, ".qtrl_dump")
            np.random.seed(3)
            done = 1
            with mon.guard("link", "dump_to_file without level"):
                if w == "d":
                    h.initialize_controls(gen.amps(rng, p))
                    h.compute_evolution()
                else:
                    h.dynamics.initialize_controls(gen.amps(rng, p))
                    h.termination_conditions.max_iterations = 2
                    done = h.run_optimization().num_iter      # none when the start cannot be improved
            if not mon.check(h.dump is not None and h.dump.write_to_file, "link:created", "dump_to_file gives no dump written to file"):
                continue
            mon.check(h.dumping == "SUMMARY", "link:level", lambda: "dumping is %s after dump_to_file" % h.dumping)
            names = os.listdir(q) if os.path.isdir(q) else []
            n = h.dump.evo_summary if w == "d" else h.dump.iter_summary
            mon.check(len(n) >= min(done, 1), "link:recorded", "nothing recorded")
            mon.check([x for x in names if x.startswith(base)] == ["%s-summary.txt" % base][:len(n)], "link:files", lambda: "files %s in %s" % (names, q))
        else:
            h.dumping = "SUMMARY"
            v, q = None, os.path.join(home, ".qtrl_dump")
        got = h.dump_dir
        mon.check(got is not None and os.path.realpath(got) == os.path.realpath(q) and os.path.isabs(got), "link:value", lambda: "dump_dir is %r, expected %r" % (got, q))
        mon.check(h.dump.dump_dir == got and h.dump.parent is h, "link:value", lambda: "dump_dir of the dump is %r" % h.dump.dump_dir)
        if how != "to_file" and gen.chance(rng, .5):
            h.dumping = gen.pick(rng, ["none", "NONE", None, "None"])
            mon.check(h.dump is None and h.dumping == "NONE" and h.dump_dir is None, "link:switched_off", lambda: "dumping %s after switching it off" % h.dumping)
            mon.check(not os.path.isdir(q) or not [x for x in os.listdir(q) if x.startswith(base)], "link:empty", "files written without a run")


def _case(mon, rng, idx, tier, home, cwd):
    if idx % 12 == 11:
        return links(mon, rng, home, cwd)
    sp = runs.spec(rng, max_ts=4, max_ctrls=2)
    sp.kw["max_iter"] = min(sp.kw["max_iter"], 6)
    if sp.dt == 0.0:
        sp.kw["max_wall_time"] = 1e9
    sp.kw["gen_stats"] = gen.chance(rng, .5)
    ol = gen.pick(rng, ["NONE", "SUMMARY", "FULL", "FULL", "CUSTOM"])
    dl = gen.pick(rng, ["NONE", "SUMMARY", "FULL", "FULL", "CUSTOM"])
    mode = gen.pick(rng, ["live", "live", "later", "both"])
    ok = ["default", "relative", "nested", "absolute", "home", "existing", "tilde"]
    bad = gen.chance(rng, .12)
    dk = gen.pick(rng, ["file", "under_file", "dangling"]) if bad else gen.pick(rng, ok)
    if bad:
        mode = "live"
    if dk == "default":
        mon.count("default_dir")
    oc, dc = Cfg(OPT_FLAGS, ol, rng), Cfg(DYN_FLAGS, dl, rng)
    ren = gen.chance(rng, .3) and not bad
    if "CUSTOM" in (ol, dl) or ren:
        sp.route = "steps"
    mon.note(ol=ol, dl=dl, mode=mode, dk=dk, ren=ren, of=str(oc.flags), df=str(dc.flags), **sp.describe())
    paths, par = {}, {}
    for w, cfg in (("o", oc), ("d", dc)):
        par[w] = {}
        if not cfg.on:
            continue
        v, p = location(rng, dk, w if dk != "default" and gen.chance(rng, .7) else "dump", home, cwd, mon.scratch) if w == "o" or dk not in (
            "existing", "file", "under_file", "dangling") else location(rng, dk, w + "2", home, cwd, mon.scratch)
        paths[w] = p
        if v is not None:
            par[w]["dump_dir"] = v
        if mode in ("live", "both"):
            par[w]["dump_to_file"] = True
    shared = len(paths) == 2 and paths["o"] == paths["d"]
    base = {"o": "optimdump", "d": "dyndump"}
    sumname = {"o": None, "d": None}
    sumhome = {}
    junk = {}
    if not bad and gen.chance(rng, .3):
        mon.count("earlier_files")
        for w, q in paths.items():
            junk[w] = earlier(rng, q, w)
        if shared:
            junk["o"] = junk["d"] = junk["o"] | junk["d"]
    ext = {"o": "txt", "d": "txt"}
    run = DumpRun(sp, oc, dc, oparams=par["o"], dparams=par["d"])
    if ren:
        mon.count("renamed")
        new = {w: (gen.pick(rng, [None, "my_" + w]), gen.pick(rng, [None, "dat"]), gen.pick(rng, [" ", ",", ";"]), gen.pick(rng, [" ", ",", "\t"])) for w in "od"}

        touch = gen.chance(rng, .5)

        def config(o):
            for w, d in (("o", o.dump), ("d", o.dynamics.dump)):
                if d is None:
                    continue
                if touch:
                    # looking at the names must not fix them
                    d.summary_file
                    if w == "o":
                        d.fid_err_file, d.grad_norm_file
                if new[w][0]:
                    d.fname_base = base[w] = new[w][0]
                if new[w][1]:
                    d.dump_file_ext = ext[w] = new[w][1]
                d.summary_sep, d.data_sep = new[w][2], new[w][3]
                if gen.chance(rng, .1) and w in paths:
                    mon.count("summary_home")
                    sumhome[w] = os.path.join(home, "my-%s.csv" % w)
                    d.summary_file = "~/my-%s.csv" % w
                elif gen.chance(rng, .35) and w in paths:
                    mon.count("summary_names")
                    n = sumname[w] = gen.pick(rng, ["sums_%s.txt", "%s.csv", os.path.join("sub", "s%s.txt")]) % w
                    if os.sep in n:
                        os.makedirs(os.path.join(paths[w], "sub"), exist_ok=True)
                    d.summary_file = os.path.join(paths[w], n) if gen.chance(rng, .3) else n
        run.config = config
    before = tree(mon.scratch)
    with instr.FileMonitor() as fm, instr.capture_logs() as logs:
        run.go()
    if run.exc is not None or run.diverged():
        if run.exc is None or run.diverged():
            mon.count("diverged")
            return
        with mon.guard("run", "optimisation dumping to file"):
            raise run.exc
        return
    mon.count("runs")
    o = run.optim
    D = {"o": o.dump, "d": o.dynamics.dump}
    mon.sig(ol, dl, dk, mode, sp.p.kind, sp.measure, sp.alg, ren)

    def contained(fm, when):
        allowed = list(paths.values()) + list(sumhome.values())
        for kind, p in fm.events:
            good = any(p == a or p.startswith(a + os.sep) for a in allowed)
            if not good and kind == "mkdir":
                good = any(a.startswith(p + os.sep) for a in allowed)
            mon.check(good, "outside", lambda: "%s: %s of %s, dump directories are %s" % (when, kind, p, allowed))

    contained(fm, "run")
    if bad:
        mon.count("unusable")
        mon.check(tree(mon.scratch) == before, "unusable_created", lambda: "unusable directory: %s created" % sorted(tree(mon.scratch) - before)[:4])
        for w, p in paths.items():
            mon.check(any("dump" in m for n, lv, m in logs if lv >= 40), "unusable_silent", "an unusable dump directory is not reported")
            if dk == "file":
                mon.check(open(p).read() == "keep", "clobbered", "the file in the way was changed")
        # the run is the run without dumping
        plain = runs.Run(sp).go()
        if plain.exc is None:
            mon.check(plain.result.fid_err == run.result.fid_err and np.array_equal(plain.result.final_amps, run.result.final_amps), "unusable_spoils",
                      "results differ when the dump directory is unusable")
        T = run.truth
        if D["o"] is not None and oc.flags["dump_fid_err"]:
            mon.check(len(D["o"].fid_err_log) == len(T.f), "unusable_memory", "record in memory incomplete when files are suppressed")
        return
    def named(w, fn):
        def files(d, base, ext, explicit):
            out = fn(d, base, ext, explicit)
            if w in sumhome:
                return {k: v for k, v in out.items() if v != "summary"}
            if sumname[w]:
                return {(sumname[w] if v == "summary" else k): v for k, v in out.items()}
            return out
        return files
    fns = {"o": named("o", opt_files), "d": named("d", dyn_files)}

    def verify(explicit, what):
        for w, f in sumhome.items():
            d = D[w]
            items = d.iter_summary if w == "o" else d.evo_summary
            if mon.check(os.path.exists(f) == bool(d.dump_summary and (items or explicit)), "summary_home", lambda: "%s: summary file %s is %s" % (what, f, "there" if os.path.exists(f) else "missing")) and os.path.exists(f):
                check_summary(mon, items, read(f), d.summary_sep, what)
        if shared:
            want = {}
            for w in paths:
                want.update({k: (w, v) for k, v in fns[w](D[w], base[w], ext[w], explicit).items()})
            have = listing(paths["o"], want, junk.get("o", ()), mon, what)
            mon.check(have == set(want), "files", lambda: "%s: files differ: %s" % (what, sorted(have ^ set(want))[:8]))
            for n in sorted(want)[:60]:
                if n in have:
                    one_file(n, *want[n], what)
            return
        for w, p in paths.items():
            check_dir(mon, p, fns[w](D[w], base[w], ext[w], explicit), D[w], w, D[w].summary_sep, rng, what, junk.get(w, ()))

    def one_file(n, w, k, what):
        mon.count("files")
        lines = read(os.path.join(paths["o"], n))
        d = D[w]
        if k == "summary":
            check_summary(mon, d.iter_summary if w == "o" else d.evo_summary, lines, d.summary_sep, what)
        elif k == "fid":
            mon.check([float(l) for l in lines] == [float(x) for x in d.fid_err_log], "fid_log_file", "%s differs" % n)
        elif k == "gn":
            mon.check([float(l) for l in lines] == [float(x) for x in d.grad_norm_log], "gn_log_file", "%s differs" % n)
        elif k[0] == "g":
            mon.close(table(lines), np.asarray(d.grad_log[k[1]], float), "grad_file", n, 1e-14, 1e-300)
        else:
            check_oper_lines(mon, k[0], getattr(d.evo_dumps[k[1]], k[0]), lines, n)

    if mode in ("live", "both"):
        verify(False, "written during the run")
    else:
        for w, p in paths.items():
            have = sorted(listing(p, (), junk.get(w, ()), mon, "run without writing"))
            mon.check(not have, "written_unasked", lambda: "files %s written though dump_to_file is off" % have[:5])
    if gen.chance(rng, .3) and mode in ("live", "both") and not shared:
        r = run.again(lambda o: setattr(o.termination_conditions, "max_iterations", 3))
        if r.exc is not None or r.diverged():
            mon.count("diverged")
            return
        mon.count("later_runs")
        verify(False, "written during a later run")
    if not paths:
        return
    if mode in ("later", "both"):
        mon.count("writeouts")
        if mode == "later" and gen.chance(rng, .3) and not shared and not any(sumname.values()) and not sumhome:
            # the directory may be chosen afterwards
            for w in paths:
                paths[w] = os.path.join(cwd, "after-" + w)
                junk[w] = ()
                if gen.chance(rng, .5):
                    D[w].dump_dir = "after-" + w
                else:
                    (o if w == "o" else o.dynamics).dump_dir = paths[w]
        with instr.FileMonitor() as fm:
            with mon.guard("writeout", "writeout of a dump"):
                for w in paths:
                    D[w].writeout()
        contained(fm, "writeout")
        verify(True, "written by writeout")
    for w in paths:
        if not gen.chance(rng, .4):
            continue
        f = os.path.join(mon.scratch, "all-%s.txt" % w)
        kind = gen.pick(rng, ["name", "stream", "text"])
        with instr.FileMonitor() as fm:
            if kind == "name":
                with mon.guard("writeout", "writeout to one file"):
                    D[w].writeout(f)
            elif kind == "stream":
                with open(f, "wb") as s:
                    with mon.guard("writeout", "writeout to a stream"):
                        D[w].writeout(s)
                    mon.check(not s.closed, "stream_closed", "writeout closed the stream it was given")
            else:
                with open(f, "w") as s:
                    mon.raises(lambda: D[w].writeout(s), "text_stream", "a text stream", (RuntimeError,))
        mon.check(set(fm.paths()) == {f}, "outside_single", lambda: "writeout to one file touched %s" % sorted(set(fm.paths()) - {f})[:4])
        if kind != "text" and os.path.exists(f):
            check_single(mon, D[w], w, open(f).read(), "dump in one file")
    if "d" in paths and D["d"].evo_dumps and gen.chance(rng, .3):
        i = int(rng.integers(len(D["d"].evo_dumps)))
        it = D["d"].evo_dumps[i]
        f = os.path.join(mon.scratch, "item.txt")
        with mon.guard("writeout", "writeout of one item"):
            it.writeout(f)
        if os.path.exists(f):
            parts, sec = {}, None
            for l in read(f):
                if l in SECTION:
                    sec = SECTION[l]
                    parts[sec] = []
                elif sec:
                    parts[sec].append(l)
            want = {c for c in ITEM.values() if getattr(it, c) is not None}
            if mon.check(set(parts) == want, "sections", lambda: "item file has %s, recorded %s" % (sorted(parts), sorted(want))):
                for c in want:
                    check_oper_lines(mon, c, getattr(it, c), parts[c], "item file %s" % c)
