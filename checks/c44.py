"""C44: entries of a connection dictionary that cannot connect are reported when it is given."""
from sx.common import harness

from .bundles import NDUT, Spec, is_pin, fetch, make
from .c17 import BL, BLL, DECL, DEEP, FLAT, LIST, P
from .c18 import DLIST, DSUB, L3, RSUB, SUBL, TRI, inner, mentions
from .lib import LogCapture


def tables():
    """(structure, [(path or None, key)]): keys that lead to a signal, and keys that lead to none"""
    out = []
    for spec in (FLAT, DECL, LIST, DEEP, BL, BLL, L3, SUBL, TRI, DLIST):
        good = [(p, n) for p, n in inner(spec)]
        names = {n for _, n in good}
        bad = []
        for n in sorted(names):
            bad += [n + "q", n[:-1] + "9", "q" + n]
        bad = [k for k in dict.fromkeys(bad) if k not in names][::max(1, len(bad) // 3)][:3]
        good = good[:2] + good[-2:] if len(good) > 4 else good
        out.append((spec, good, bad))
    out.append((DSUB, [(("a",), "a"), (("s", "b"), "pin_b"), (("s", "t", "c"), "pin_c")], ["pin_n", "b", "t_c", "nope"]))
    out.append((RSUB, [((("v", 0),), "v0"), ((("v", 1),), "v1"), (("s", "b"), "r_b"), (("s", "c"), "xr_c")], ["r_d", "v2", "b", "r_"]))
    return out


@harness("C44", params=[{}], labels=("none", "some", "all"))
def entries(ctx):
    """12 structures (lists, bundle lists, sub-bundles with prefixes, expressions and dictionaries of their own, three
    levels), each of the keys that lead to a signal and of those that do not symbolically present; given to
    from_dict, set_dict, or set_dict again after another dictionary; then bound to a design with all the pins"""
    tb = tables()
    ti = ctx.choose("structure", len(tb))
    spec, good, bad = tb[ti]
    how = ctx.choose("how", 3)
    d, valid, wrong = {}, [], []
    put = {k: bool(ctx.bool("key " + k)) for k in bad}
    for k in bad[:2]:
        if put[k]:
            wrong.append(k)
            d[k] = "pin_of_" + k + "_"
    for p, k in good:
        if bool(ctx.bool("key " + k)):
            valid.append((p, k))
            d[k] = "pin_of_" + k + "_"
    for k in bad[2:]:
        if put[k]:
            wrong.append(k)
            d[k] = "pin_of_" + k + "_"
    given = dict(d)
    cls = spec.cls()
    dut = NDUT(list(d.values()) + ["unrelated"])
    with LogCapture("INFO") as lc:
        if how == 0:
            b = cls.from_dict(d)
        else:
            b = cls()
            if how == 2:
                with LogCapture("CRITICAL"):
                    b.set_dict({"something": "else"})
                lc.records.clear()
            r = b.set_dict(d)
            ctx.check(r is b, "set_dict does not return the bundle")
    texts = lc.texts()
    warn = lc.texts("WARNING")
    ctx.check(texts == warn, "giving a dictionary logs something else")
    for k in wrong:
        ctx.check(any(mentions(t, k) for t in warn), f"no warning names {k}, which leads to no signal: {warn}")
    for _, k in valid:
        ctx.check(not any(mentions(t, k) for t in warn), f"a warning names {k}, which leads to a signal: {warn}")
    ctx.check(bool(warn) == bool(wrong), "a warning although every entry leads to a signal, or none although one does not")
    ctx.check(d == given, "the dictionary is changed")
    ctx.check(not b.bound and not any(is_pin(x) for _, x in b.all_signals()), "giving a dictionary connects something")
    # what is reported is what binding does
    from toffee import Bundle

    with LogCapture("CRITICAL"):
        b.bind(dut)
        left = set(Bundle.detect_unconnected_signals(dut))
    for p, k in valid:
        ctx.check(fetch(b, p) is getattr(dut, d[k]), f"the pin of {k} is not connected to its signal")
    ctx.check(left == {"unrelated"} | {d[k] for k in wrong}, "other pins than those of the entries reported stay unconnected")
    ctx.note("none" if not wrong else "some" if valid else "all")


@harness("C44", params=[{"length": 3}], thorough=[{"length": 5}], labels=("leads", "not"))
def keys(ctx, length):
    """one entry with a symbolic key, in a class with a signal, a list, a bundle list and two sub-bundles, one in
    the other: a warning exactly if no signal has that key, and the pin is connected exactly if there was none"""
    from toffee import Bundle

    k = ctx.str("k", "abv0_", 1, length)
    spec = Spec(["a"], lists=[("v", "v#", 1)], subs=[("s", P("b"), Spec(["a"], subs=[("t", P("_"), Spec(["v"]))]))], blists=[("l", "0#", 1, Spec(["b"]))])
    names = ["a", "v0", "ba", "b_v", "00b"]
    with LogCapture("WARNING") as lc:
        b = spec.cls().from_dict({k: "pin"})
    leads = any(bool(k == n) for n in names)
    ctx.check(bool(lc.records) == (not leads), "warned exactly if the key leads to no signal")
    dut = NDUT(["pin"])
    with LogCapture("CRITICAL"):
        b.bind(dut)
        left = Bundle.detect_unconnected_signals(dut)
    ctx.check(left == ([] if leads else ["pin"]), "binding does something else than what was said")
    ctx.note("leads" if leads else "not")
