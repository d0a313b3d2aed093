"""C20: configuration files set exactly the named attributes."""
import copy, logging, os, pathlib
import numpy as np
from qutip import Qobj
from .. import gen, build, instr
import qutip_qtrl.loadparams as lp
import qutip_qtrl.optimconfig as oc
import qutip_qtrl.dynamics as dynmod
import qutip_qtrl.optimizer as om
import qutip_qtrl.termcond as tc
import qutip_qtrl.pulsegen as pg

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: attributes of real and of plain objects snapshotted around each load of a generated configuration file and compared with the file's meaning; log records watched for reports"
CASES = {"quick": 30000, "thorough": 400000}
NEED = {"loads": 3000, "values": 6000, "bad_values": 300, "unknown_names": 300, "missing_file": 50, "general": 300, "missing_section": 200, "rewritten": 1500}
RULE = ("random files (sections, keys, spellings, invalid values, unknown names, missing sections) loaded into configuration, dynamics, "
        "optimiser, termination, pulse generator and arbitrary objects; distinct = (object kind, attribute type, spelling class)")
ASSUMPTIONS = ["options after an invalid value in the same section may be skipped"]


class Plain:
    """Object with one attribute of every kind."""

    def __init__(self, rng):
        self.an_int, self.another_int = 3, -1
        self.a_float, self.another_float = 0.5, 2.0
        self.a_bool, self.another_bool = bool(rng.integers(2)), bool(rng.integers(2))
        self.a_text, self.another_text = "text", ""
        self.a_complex = 1 + 2j
        self.a_list = [1, 2]
        self.an_array = np.array([1.0, 2.0])
        self.an_int_array = np.array([1, 2, 3])
        self.a_qobj = Qobj(np.eye(2))
        self.nothing, self.more_nothing = None, None
        self.untouched = object()


REAL = {
    "optimconfig": (lambda rng: oc.OptimConfig(), dict(alg="str", optim_method="str", dyn_type="str", prop_type="str", fid_type="str", tslot_type="str",
                                                        init_pulse_type="str", log_level="level")),
    "termconds": (lambda rng: tc.TerminationConditions(), dict(fid_err_targ="float", max_wall_time="float", min_gradient_norm="float", max_iterations="float",
                                                              max_fid_func_calls="float", fid_goal="none")),
    "dynamics": (lambda rng: gen.pick(rng, [dynmod.DynamicsUnitary, dynmod.DynamicsGenMat, dynmod.DynamicsSymplectic])(oc.OptimConfig()),
                 dict(initial_ctrl_scaling="float", initial_ctrl_offset="float", memory_optimization="int", fact_mat_round_prec="float", id_text="str",
                      def_amps_fname="str", unitarity_check_level="int", unitarity_tol="float", dump_to_file="bool", cache_prop_grad="none",
                      cache_phased_dyn_gen="none", cache_dyn_gen_eigenvectors_adj="none", sparse_eigen_decomp="none")),
    "optimizer": (lambda rng: gen.pick(rng, [om.Optimizer, om.OptimizerLBFGSB, om.OptimizerBFGS, om.OptimizerCrab, om.OptimizerCrabFmin])(
        *(lambda c: (c, dynmod.DynamicsUnitary(c)))(oc.OptimConfig())),
        dict(amp_lbound="none", amp_ubound="none", approx_grad="bool", disp_conv_msg="bool", record_iteration_steps="bool", method="str",
             id_text="str", dump_to_file="bool", alg="str", wall_time_optim_start="float", num_iter="int")),
    "pulsegen": (lambda rng: pg.create_pulse_gen(gen.pick(rng, ["RND", "LIN", "SINE", "GAUSSIAN", "CRAB_FOURIER", "RNDWAVES", "RNDWALK1"])),
                 dict(num_tslots="int", pulse_time="float", scaling="float", offset="float", lbound="none", ubound="none", periodic="bool",
                      random="bool")),
}
PLAIN = dict(an_int="int", another_int="int", a_float="float", another_float="float", a_bool="bool", another_bool="bool", a_text="str", another_text="str",
             a_complex="complex", a_list="list", an_array="array", an_int_array="iarray", a_qobj="qobj", nothing="none", more_nothing="none")


def value(rng, kind):
    """(text, expected value, class)"""
    if kind == "int":
        v = int(rng.integers(-50, 1000))
        return gen.pick(rng, ["%d" % v, "  %d  " % v, "%+d" % v]), v, "int"
    if kind == "level":
        return "30", 30, "int"
    if kind == "float":
        v = float(rng.normal() * 10.0 ** rng.integers(-6, 6))
        return gen.pick(rng, [(repr(v), v, "repr"), ("%.3e" % v, float("%.3e" % v), "exp"), ("%d" % round(v), float(round(v)), "int"),
                              ("1/4", .25, "expr"), ("2*3", 6.0, "expr"), ("np.pi/2", np.pi / 2, "expr"), (".5", .5, "dot"), ("1E-3", 1e-3, "exp"), ("-inf", -np.inf, "inf")])
    if kind == "bool":
        return gen.pick(rng, [(t, v, t.lower()) for v, ts in ((True, ["True", "true", "yes", "on", "1", "YES"]), (False, ["False", "no", "off", "0", "OFF", "false"])) for t in ts])
    if kind == "str":
        return gen.pick(rng, [(t, t, c) for t, c in (("FMIN_L_BFGS_B", "word"), ("123", "number"), ("1e-3", "number"), ("yes", "boolword"), ("off", "boolword"), ("1", "number"),
                                                     ("two words", "spaces"), ("a = b : c", "punct"), ("[1, 2]", "bracket"), ("None", "word"), ("./some/dir.txt", "path"), ("x", "word"),
                                                     ("run #3 ; second # last", "comment_marks"), ("'quoted'", "quotes"), ("CamelCase Text", "case"))])
    if kind == "complex":
        return gen.pick(rng, [("1+2j", 1 + 2j, "c"), ("-.5j", -.5j, "c"), ("3", 3 + 0j, "c")])
    if kind == "list":
        return gen.pick(rng, [("[1, 2, 3]", [1, 2, 3], "l"), ("(4, 5)", [4, 5], "l"), ("['a', 2.5]", ["a", 2.5], "l"), ("[]", [], "l")])
    if kind == "array":
        return gen.pick(rng, [("[1, 2.5, 3]", np.array([1, 2.5, 3]), "a"), ("[[1,2],[3,4]]", np.array([[1., 2], [3, 4]]), "a"), ("np.ones(2)", np.ones(2), "a"),
                              ("[[1, 2],\n   [3, 4]]", np.array([[1., 2], [3, 4]]), "lines"), ("[[1, 2]]", np.array([[1., 2]]), "a"), ("[]", np.zeros(0), "a")])
    if kind == "iarray":
        return "[4, 5]", np.array([4, 5]), "a"
    if kind == "qobj":
        return gen.pick(rng, [("[[0, 1], [1, 0]]", Qobj([[0, 1], [1, 0]]), "q"), ("[[1],[0]]", Qobj([[1], [0]]), "q"), ("[[0, -1j],\n  [1j, 0]]", Qobj([[0, -1j], [1j, 0]]), "lines")])
    return gen.pick(rng, [("3", 3, "int"), ("-7", -7, "int"), ("2.5", 2.5, "float"), ("1e-4", 1e-4, "float"), ("yes", True, "bool"), ("False", False, "bool"), ("off", False, "bool"),
                          ("True", True, "bool"), ("some text", "some text", "text"), ("SUMMARY", "SUMMARY", "text")])


BAD = dict(int=["1.5", "abc", "", "1e3", "1 2"], float=["abc", "", "[1, 2]", "'x'", "1,5"], bool=["maybe", "2", "", "truee"], complex=["abc", "1+", ""],
           list=["3", "abc", "["], array=["abc(", "['x', 'y']"], iarray=["['a']", "foo"], qobj=["abc", "foo("])


def eq(a, b):
    if isinstance(b, Qobj):
        return isinstance(a, Qobj) and a.shape == b.shape and np.array_equal(a.full(), b.full())
    if isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b)
    try:
        return bool(a == b)
    except Exception:
        return False


def typed(got, want, kind):
    """Value and type as the attribute had it."""
    if not eq(got, want):
        return False
    t = {"int": int, "level": int, "float": float, "bool": bool, "str": str, "complex": complex, "list": list}.get(kind)
    if t is not None:
        return isinstance(got, t) and (isinstance(got, bool) == (t is bool))
    if kind == "none" and isinstance(want, bool):
        return isinstance(got, (bool, np.bool_))
    if kind == "none" and isinstance(want, (int, str)):
        return isinstance(got, type(want)) and not isinstance(got, bool)
    return True


def state(obj, attrs):
    if isinstance(obj, Plain) or isinstance(obj, (tc.TerminationConditions,)):
        return dict(vars(obj))
    return {a: getattr(obj, a) for a in attrs} | {k: v for k, v in vars(obj).items() if not k.startswith("_")}


def case(mon, rng, idx, tier):
    kinds = list(REAL)
    objs, spec = {}, {}
    for k in kinds:
        if gen.chance(rng, .35):
            mk, attrs = REAL[k]
            objs[k] = mk(rng)
            spec[k] = attrs
    gsec = gen.pick(rng, ["mysection", "other", "My Section"])
    if gen.chance(rng, .5) or not objs:
        objs[gsec] = Plain(rng)
        spec[gsec] = PLAIN
        mon.count("general")
    # content of the file
    lines, want, bad, unknown, sections = [], {}, {}, {}, []
    for s in list(objs) + [k for k in kinds if k not in objs and gen.chance(rng, .3)]:
        if s in objs and gen.chance(rng, .08):
            mon.count("missing_section")
            want[s] = {}
            continue
        sections.append(s)
        lines.append("[%s]" % s)
        want[s] = {}
        attrs = spec.get(s) or REAL[s][1]
        names = [a for a in attrs if gen.chance(rng, .4)]
        rng.shuffle(names)
        for a in names:
            txt, v, cls = value(rng, attrs[a])
            key = gen.pick(rng, [a, a, a.upper(), a.title()])
            lines.append(gen.pick(rng, ["%s = %s", "%s=%s", "%s : %s", "%s:  %s"]) % (key, txt))
            want[s][a] = v
            mon.count("values")
            mon.sig("Plain" if s == gsec else s, attrs[a], cls)
            if gen.chance(rng, .1):
                lines.append(gen.pick(rng, ["# comment", "; comment = 3", ""]))
            if gen.chance(rng, .08):
                u = gen.pick(rng, ["no_such_attribute", "foo", "zzz"]) + str(len(lines))
                lines.append("%s = %s" % (u, gen.pick(rng, ["5", "text"])))
                if s in objs:
                    unknown.setdefault(s, []).append(u)
                    mon.count("unknown_names")
        left = [a for a in attrs if a not in names and attrs[a] in BAD]
        if left and s in objs and gen.chance(rng, .2):
            a = gen.pick(rng, left)
            if not (isinstance(objs[s], dynmod.Dynamics) and a == "dump_to_file"):
                lines.append("%s = %s" % (a, gen.pick(rng, BAD[attrs[a]])))
                bad[s] = a
                mon.count("bad_values")
    path = os.path.join(mon.scratch, "params.ini")
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")
    mon.note(file="; ".join(lines)[:400])
    before = {s: state(o, spec[s]) for s, o in objs.items()}
    kwname = dict(optimconfig="config", termconds="term_conds", dynamics="dynamics", optimizer="optim", pulsegen="pulsegen")
    kw = {kwname[s]: o for s, o in objs.items() if s != gsec}
    if gsec in objs:
        kw.update(obj=objs[gsec], section=gsec)
    for rep in range(2 if not bad else 1):
        with instr.capture_logs() as logs:
            with mon.guard("load", "loading a parameter file"):
                lp.load_parameters(path if gen.chance(rng, .6) else pathlib.Path(path), **kw)
        mon.count("loads")
        warned = [m for n, l, m in logs if l >= logging.WARNING]
        for s, o in objs.items():
            attrs = spec[s]
            for a, v in want[s].items():
                g = getattr(o, a)
                mon.check(typed(g, v, attrs[a]), "value:%s" % attrs[a], lambda: "%s.%s is %r (%s), the file says %r" % (s, a, g, type(g).__name__, v))
            after = state(o, attrs)
            for a, v in before[s].items():
                if a in want[s]:
                    continue
                mon.check(a in after and (after[a] is v or eq(after[a], v)), "touched", lambda: "%s.%s changed from %r to %r though not in the file (or its value is invalid)" % (s, a, v, after.get(a)))
            mon.check(set(after) <= set(before[s]), "created", lambda: "%s gained attributes %s" % (s, set(after) - set(before[s])))
            for u in unknown.get(s, []):
                mon.check(any(u in m for m in warned), "unknown_not_reported", lambda: "no warning names the unknown attribute %s.%s" % (s, u))
            if s in bad:
                mon.check(any(s in m for m in warned), "bad_not_reported", lambda: "no warning about the invalid value of %s.%s" % (s, bad[s]))
        if not bad and not unknown and all(s in sections for s in objs):
            mon.check(not warned, "spurious_warning", lambda: "valid file reported: %s" % warned[:2])
    if gen.chance(rng, .12):
        # the file is written anew (or another one is loaded): what counts is what it says now
        mon.count("rewritten")
        o = Plain(rng)
        p3 = path if gen.chance(rng, .7) else os.path.join(mon.scratch, "second.ini")
        for turn in range(int(rng.integers(1, 3))):
            was = dict(vars(o))
            new = {a: value(rng, PLAIN[a]) for a in PLAIN if gen.chance(rng, .3) and (PLAIN[a] != "none" or was[a] is None)}
            with open(p3, "w") as f:
                f.write("[%s]\n" % gsec + "".join("%s = %s\n" % (a, x[0]) for a, x in new.items()))
            with instr.capture_logs(), mon.guard("load", "loading a parameter file written anew"):
                lp.load_parameters(p3, obj=o, section=gsec)
            for a, v in vars(o).items():
                if a in new:
                    mon.check(typed(v, new[a][1], PLAIN[a]), "rewritten", lambda: "%s is %r, the file now says %s" % (a, v, new[a][0]))
                else:
                    mon.check(v is was[a] or eq(v, was[a]), "rewritten:touched", lambda: "%s changed from %r to %r, though the file no longer names it" % (a, was[a], v))
    if idx % 40 == 0:
        mon.count("missing_file")
        o = Plain(rng)
        mon.raises(lambda: lp.load_parameters(os.path.join(mon.scratch, "none.ini"), obj=o, section="x"), "missing_file", "a file that does not exist", (ValueError,))
        mon.raises(lambda: lp.load_parameters(path, obj=o), "no_section", "a general object without section name", (ValueError,))
    if idx % 60 == 1:
        # values given in a file act as if given in code
        p2 = os.path.join(mon.scratch, "use.ini")
        n, T, nc = int(rng.integers(1, 9)), float(rng.uniform(.5, 4)), int(rng.integers(1, 4))
        with open(p2, "w") as f:
            f.write("[dynamics]\nevo_time = %r\nnum_tslots = %d\n[pulsegen]\nnum_coeffs = %d\nscaling = 1/2\n" % (T, n, nc))
        d = dynmod.DynamicsUnitary(oc.OptimConfig())
        lp.load_parameters(p2, dynamics=d)
        d.init_timeslots()
        mon.close(np.asarray(d.tau, float), np.full(n, T / n), "dyn_grid", "timeslots from a file", 1e-6, 1e-9)
        g = pg.PulseGenCrabFourier(d)
        lp.load_parameters(p2, pulsegen=g)
        x = g.gen_pulse()
        mon.check(np.shape(g.coeffs) == (nc, 2) and np.shape(x) == (n,) and np.abs(g.coeffs).max() <= .5, "crab_file", lambda: "CRAB generator from a file: coefficients %s" % (g.coeffs,))
