"""C26: output directories are created exactly as asked."""
import contextlib, errno, os, stat, sys, threading
import numpy as np
from .. import gen, build, instr
import qutip_qtrl.io as qio
import qutip_qtrl.dump as dp
import qutip_qtrl.optimconfig as oc

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring with fault injection: directory requests of every path form against random file-system states, with system-call failures and races (another process making the directory or a file at that moment, several threads asking at once) injected at os.mkdir; the tree before and after, the returned triple and an independent prediction are compared"
CASES = {"quick": 5000, "thorough": 60000}
NEED = {"requests": 8000, "created": 4000, "refused": 1500, "faults": 400, "existing": 400, "races": 100, "threads": 200, "through_dump": 300, "through_config": 300, "gone": 1500}
RULE = ("path form x state of the tree along the path x injected failure x entry point (create_dir, OptimConfig.check_create_output_dir, dump_dir of both dump classes); "
        "distinct = (form, state, failure, entry, number of directories made)")
ASSUMPTIONS = ["path names are non-empty and can be encoded by the file system (no NUL)"]

CAGE = {"root": None, "escapes": []}
_installed = False


def _cage(event, args):
    """Nothing outside the scratch directory is created or removed, whatever the code does."""
    root = CAGE["root"]
    if root is None or event not in ("os.mkdir", "os.remove", "os.rmdir", "os.rename", "os.symlink", "os.link", "shutil.rmtree", "shutil.move", "os.truncate", "os.chmod"):
        return
    for p in (args[1:2] if event == "os.symlink" else args[:2]):
        if isinstance(p, (str, bytes, os.PathLike)):
            p = os.path.abspath(os.path.expanduser(os.fsdecode(p)))
            real = os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))
            if not (real == root or real.startswith(root + os.sep)):
                CAGE["escapes"].append((event, p))
                raise PermissionError(errno.EACCES, "outside the scratch directory", p)


@contextlib.contextmanager
def caged(root):
    global _installed
    if not _installed:
        sys.addaudithook(_cage)
        _installed = True
    CAGE["root"], CAGE["escapes"] = os.path.realpath(root), []
    try:
        yield CAGE["escapes"]
    finally:
        CAGE["root"] = None


def tree(root):
    """path -> (kind, content, mode)"""
    out = {}
    for d, ds, fs in os.walk(root):
        for n in ds + fs:
            p = os.path.join(d, n)
            st = os.lstat(p)
            k = stat.S_IFMT(st.st_mode)
            c = os.readlink(p) if stat.S_ISLNK(k) else open(p, "rb").read() if stat.S_ISREG(k) else b""
            out[p] = (k, c, st.st_mode, st.st_ino)
    return out


NAMES = ["out", "data dir", "x.y", ".hidden", "a~b", "~x", "run-1", "é日本", "..more", "UPPER", "x" * 200, "$HOME", "%d", "{0}", "{}", "*"]


def prefixes(path):
    """Every directory named on the way to path (which is absolute), as given."""
    parts = path.split("/")
    out = []
    for i in range(2, len(parts) + 1):
        if parts[i - 1] != "":
            out.append("/".join(parts[:i]))
    return out


def predict(path):
    """True: the directory exists or can be made; the set of directories which then may be new."""
    made, ok = set(), True
    cur = "/"
    for part in [x for x in path.split("/") if x]:
        if part == ".":
            continue
        if part == "..":
            cur = os.path.dirname(cur)
            continue
        nxt = os.path.join(cur, part)
        if len(os.fsencode(part)) > 255:
            return False, made
        if nxt in made:
            cur = nxt
            continue
        if os.path.lexists(nxt):
            nxt = os.path.realpath(nxt)
            if not os.path.isdir(nxt):
                return False, made
        else:
            made.add(nxt)
        cur = nxt
    return ok, made


class Faults:
    """Replaces os.mkdir inside the cage: fails, or lets 'another process' act first."""

    def __init__(self, plan):
        self.plan, self.n, self.hits = plan, 0, 0

    def __enter__(self):
        self.real = os.mkdir

        def mkdir(path, *a, **k):
            i = self.n
            self.n += 1
            w = self.plan.get(i)
            if w is not None:
                self.hits += 1
                if w == "race_dir":
                    self.real(path)
                elif w == "race_file":
                    open(path, "w").write("theirs")
                elif w == "race_link":
                    os.symlink("gone-qv", path)
                else:
                    raise OSError(w, os.strerror(w), path)
            return self.real(path, *a, **k)
        os.mkdir = mkdir
        return self

    def __exit__(self, *a):
        os.mkdir = self.real


ERRNOS = [errno.EACCES, errno.EPERM, errno.ENOSPC, errno.EROFS, errno.EDQUOT, errno.EIO, errno.EMLINK, errno.ENAMETOOLONG, errno.ENOTDIR, errno.EEXIST, errno.ENOENT, errno.ELOOP]


def world(rng, root):
    """A directory with all sorts of things; returns the working directory and the home."""
    cwd, home = os.path.join(root, "work", "here"), os.path.join(root, "home dir")
    os.makedirs(cwd)
    os.makedirs(home)
    for base in (cwd, home, os.path.join(root, "work")):
        for n in ("out", "sub"):
            if gen.chance(rng, .5):
                os.makedirs(os.path.join(base, n, "deep"), exist_ok=True)
                open(os.path.join(base, n, "kept.txt"), "w").write("content %s" % n)
        if gen.chance(rng, .6):
            open(os.path.join(base, "file"), "w").write("a file")
        if gen.chance(rng, .4):
            os.symlink("sub", os.path.join(base, "link"))
        if gen.chance(rng, .4):
            os.symlink("gone", os.path.join(base, "dangling"))
        if gen.chance(rng, .3):
            os.symlink("loop", os.path.join(base, "loop"))
        if gen.chance(rng, .3):
            os.mkfifo(os.path.join(base, "fifo"))
        if gen.chance(rng, .2):
            os.mkdir(os.path.join(base, "~"))
    return cwd, home


def request(rng, cwd, home):
    """(form, path as given, absolute path which is meant)"""
    def rel():
        n = int(rng.integers(1, 5))
        c = [gen.pick(rng, NAMES + ["out", "sub", "sub", "file", "link", "dangling", "loop", "fifo", "deep", "new", "new2"]) for _ in range(n)]
        if gen.chance(rng, .25):
            c.insert(int(rng.integers(0, len(c) + 1)), gen.pick(rng, ["..", ".", ".", "", "~"]))
        if gen.chance(rng, .03):
            c[-1] = "y" * 300
        s = "/".join(c).lstrip("/")
        return s or "new"
    form = gen.pick(rng, ["abs", "abs", "rel", "rel", "rel", "dotted", "home", "home", "tilde_inside", "tilde_user", "only_home", "cwd", "up", "slash"])
    r = rel()
    if form == "abs":
        p = os.path.join(gen.pick(rng, [cwd, home, os.path.dirname(cwd)]), r)
        return form, p, p
    if form == "dotted":
        r = "./" + r
    elif form == "home":
        return form, "~/" + r, home + "/" + r
    elif form == "only_home":
        return form, "~", home
    elif form == "cwd":
        r = gen.pick(rng, [".", "./", "./."])
    elif form == "tilde_inside":
        r = gen.pick(rng, ["a~b", "new~", "x/~", "x/~/y", "out/~z", ".~"]) + gen.pick(rng, ["", "/" + r])
    elif form == "tilde_user":
        r = gen.pick(rng, ["~nosuchuser_qv", "~nosuchuser_qv/x"])
    elif form == "up":
        r = "../" + r
    elif form == "slash":
        r = r + gen.pick(rng, ["/", "//", "/."])
    if r.startswith("~") and not r.startswith("~nosuch"):
        r = "./" + r
    return form, r, os.path.abspath(os.path.join(cwd, r))


def plan(rng):
    if gen.chance(rng, .55):
        return {}, "none"
    i = int(rng.integers(0, 3))
    w = gen.pick(rng, ["race_dir", "race_dir", "race_file", "race_link", "errno", "errno", "errno"])
    if w == "errno":
        e = ERRNOS[int(rng.integers(len(ERRNOS)))]
        return {i: e}, errno.errorcode[e]
    return {i: w}, w


def entry_of(rng):
    e = gen.pick(rng, ["create_dir", "create_dir", "config", "dump", "dump"])
    desc = gen.pick(rng, [None, "output", "results", "{}"])
    if e == "create_dir":
        return e, (lambda p: qio.create_dir(p) if desc is None else qio.create_dir(p, desc=desc))
    if e == "config":
        c = oc.OptimConfig()
        return e, (lambda p: c.check_create_output_dir(p) if desc is None else c.check_create_output_dir(p, desc=desc))
    prob = gen.problem(rng, dims_small=True, max_ts=2, max_ctrls=1, kind="UNIT")
    o = build.optim(prob)
    d = dp.OptimDump(o) if gen.chance(rng, .5) else dp.DynamicsDump(o.dynamics)
    how = gen.pick(rng, ["assign", "assign", "create"])

    def f(p):
        d.write_to_file = True
        with instr.capture_logs() as recs:
            if how == "assign" or not hasattr(d, "_dump_dir"):
                d.dump_dir = p
                ok = d.write_to_file
            else:
                # only in memory before the directory is asked for
                d._dump_dir = p
                ok = d.create_dump_dir()
        logs = [r for r in recs if r[1] >= 40]
        if ok:
            return ok, d.dump_dir, "made" if d.write_to_file else ""
        return ok, d._dump_dir if hasattr(d, "_dump_dir") else d.dump_dir, logs[0][2] if logs and not d.write_to_file else ""
    return "dump", f


def judge(mon, key, what, ret, raised, want, before, root, allowed, expected_ok, escapes, theirs):
    after = tree(root)
    if raised is not None:
        mon.fail(key + ":raised:" + type(raised).__name__, "%s raised %r" % (what, raised))
    for e, p in escapes:
        mon.fail(key + ":elsewhere", "%s: %s of %s" % (what, e, p))
    for p, v in before.items():
        mon.count("oracle_checks")
        if after.get(p) != v:
            mon.fail(key + ":touched", "%s changed or removed %s" % (what, os.path.relpath(p, root)))
    new = set(after) - set(before) - theirs
    for p in new:
        mon.count("oracle_checks")
        if not stat.S_ISDIR(after[p][0]):
            mon.fail(key + ":file", "%s made %s, which is not a directory" % (what, os.path.relpath(p, root)))
        elif p not in allowed:
            mon.fail(key + ":stray", "%s made the directory %s" % (what, os.path.relpath(p, root)))
        else:
            # usable by the caller
            mon.check(after[p][2] & 0o700 == 0o700, key + ":mode", "%s made %s with mode %o" % (what, os.path.relpath(p, root), after[p][2]))
    if raised is not None:
        return len(new)
    if not (isinstance(ret, tuple) and len(ret) == 3):
        mon.fail(key + ":triple", "%s returned %r" % (what, ret))
        return len(new)
    ok, path, msg = ret
    there = os.path.isdir(want)
    mon.check(bool(ok) == there, key + ":ok", "%s returned %r but the directory %s" % (what, ok, "exists" if there else "does not exist"))
    if expected_ok is not None:
        mon.check(bool(ok) == expected_ok, key + ":outcome", "%s returned %r (%s), expected %r" % (what, ok, msg, expected_ok))
    mon.check(isinstance(path, str) and os.path.isabs(path) and os.path.normpath(path) == os.path.normpath(want), key + ":path", "%s returned the path %r, meant is %r" % (what, path, want))
    mon.check(isinstance(msg, str) and msg.strip() != "", key + ":message", "%s returned the message %r" % (what, msg))
    mon.count("created" if new and ok else "existing" if ok else "refused")
    return len(new)


def single(mon, rng):
    root = os.path.realpath(mon.scratch)
    root = os.path.join(root, "w")
    os.makedirs(root)
    cwd, home = world(rng, root)
    old = os.getcwd(), os.environ.get("HOME")
    try:
        os.chdir(cwd)
        os.environ["HOME"] = home
        ename, fn = entry_of(rng)
        for turn in range(3):
            form, given, want = request(rng, cwd, home)
            ps, pname = plan(rng)
            if set(want.split("/")) & {".", ".."}:
                # what is asked for depends on which of the steps were made
                ps, pname = {}, "none"
            ok, made = predict(want)
            before = tree(root)
            mon.note(entry=ename, form=form, path=given, meant=os.path.relpath(want, root), failure=pname, turn=turn)
            ret = raised = None
            with caged(root) as esc, Faults(ps) as f:
                try:
                    ret = fn(given)
                except Exception as e:
                    raised = e
            theirs = set()
            if f.hits and pname.startswith("race") and pname != "race_dir":
                theirs = {p for p in tree(root) if p not in before and not stat.S_ISDIR(os.lstat(p).st_mode)}
            exp = ok
            if f.hits:
                mon.count("faults")
                if pname.startswith("race"):
                    mon.count("races")
                # the directory may still be there (made by the other process): judged by the tree only
                exp = None if pname in ("race_dir", "EEXIST") else False
                if pname == "race_dir" and ok:
                    exp = True
            n = judge(mon, "single:" + ename + (":fault" if f.hits else ""), "%s(%r)%s" % (ename, given, " with %s" % pname if f.hits else ""), ret, raised, want, before, root, made, exp, list(esc), theirs)
            mon.count("requests")
            mon.count("through_" + ename)
            mon.sig(form, pname if f.hits else "", ename, ok, n, turn)
            if raised is None and ret[0] and gen.chance(rng, .5):
                # asking again changes nothing; the path stays good from elsewhere
                if gen.chance(rng, .5):
                    open(os.path.join(want, "result.txt"), "w").write("data")
                b2 = tree(root)
                os.chdir(root)
                with caged(root) as esc:
                    with mon.guard("again", "asking for %r again" % ret[1]):
                        r2 = fn(ret[1])
                        judge(mon, "again:" + ename, "%s(%r) again" % (ename, ret[1]), r2, None, want, b2, root, set(), True, list(esc), set())
                os.chdir(cwd)
            w = os.path.normpath(want)
            if raised is None and ret[0] and w not in before and not os.path.islink(w) and os.path.isdir(w) and not os.listdir(w) and gen.chance(rng, .6):
                # the directory has gone meanwhile, or a file has taken its place
                os.rmdir(w)
                if gen.chance(rng, .5):
                    open(w, "w").write("a file now")
                ok, made = predict(want)
                b2 = tree(root)
                ret = raised = None
                with caged(root) as esc:
                    try:
                        ret = fn(given)
                    except Exception as e:
                        raised = e
                judge(mon, "gone:" + ename, "%s(%r) after the directory was removed" % (ename, given), ret, raised, want, b2, root, made, ok, list(esc), set())
                mon.count("gone")
    finally:
        os.chdir(old[0])
        if old[1] is None:
            os.environ.pop("HOME")
        else:
            os.environ["HOME"] = old[1]


def threads(mon, rng):
    """Several callers asking at once for the same or nested directories."""
    root = os.path.join(os.path.realpath(mon.scratch), "w")
    os.makedirs(root)
    old = os.getcwd()
    os.chdir(root)
    try:
        n = int(rng.integers(2, 6))
        base = gen.pick(rng, ["a", "a/b", "a/b/c", "a/b/c/d"])
        names = [base if gen.chance(rng, .7) else base + "/" + gen.pick(rng, ["x", "y", "x/z"]) for _ in range(n)]
        res = [None] * n
        bar = threading.Barrier(n)
        real = os.mkdir
        delays = rng.integers(0, 4, 64)
        cnt = [0]

        def mkdir(p, *a, **k):
            cnt[0] += 1
            import time
            for _ in range(int(delays[cnt[0] % 64])):
                time.sleep(1e-5)
            return real(p, *a, **k)

        def go(i):
            bar.wait()
            try:
                res[i] = qio.create_dir(names[i])
            except Exception as e:
                res[i] = e
        mon.note(part="threads", names=names)
        with caged(root) as esc:
            os.mkdir = mkdir
            try:
                ts = [threading.Thread(target=go, args=(i,)) for i in range(n)]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join()
            finally:
                os.mkdir = real
        for i in range(n):
            mon.count("threads")
            good = isinstance(res[i], tuple) and res[i][0] is True and os.path.isdir(names[i]) and res[i][1] == os.path.abspath(names[i])
            mon.check(good, "threads", "%d callers at once: %r got %r" % (n, names[i], res[i]))
        allowed = set()
        for x in names:
            allowed |= set(prefixes(os.path.abspath(x)))
        for p in tree(root):
            mon.check(p in allowed, "threads:stray", "%s was made" % p)
        mon.check(not esc, "threads:elsewhere", "%r" % (esc,))
        mon.sig("threads", n, base, len(set(names)))
    finally:
        os.chdir(old)


def case(mon, rng, idx, tier):
    if idx % 8 == 7:
        threads(mon, rng)
    else:
        single(mon, rng)
