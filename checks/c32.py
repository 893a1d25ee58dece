from sx.common import harness

BOUND = "arbitrary counter state (any integer in 0..3), one arbitrary outcome; plus sequences of 6 outcomes"


@harness("C32", labels=("taken", "not", "sat_hi", "sat_lo"))
def step(ctx):
    """one step from every state 0..3 with a symbolic outcome"""
    from toffee import TwoBitsCounter

    init = ctx.int("init", 0, 3)
    # an outcome is anything that is true or false: also the value of a pin
    taken = ctx.bool("taken") if ctx.choose("kind", 2) else ctx.int("taken_pin", 0, 255)
    c = TwoBitsCounter(init)
    p0 = c.get_prediction()
    ctx.check(ctx.eq(p0, ctx.ite(init >= 2, 1, 0)), "prediction is not the upper half")
    c.update(taken)
    exp = ctx.ite(taken != 0, ctx.ite(init >= 3, 3, init + 1), ctx.ite(init <= 0, 0, init - 1))
    ctx.check(c.counter == exp, "counter moved wrongly")
    ctx.check(ctx.eq(c.get_prediction(), ctx.ite(exp >= 2, 1, 0)), "prediction after update")
    ctx.note("taken" if taken else "not")
    if init == 3:
        ctx.note("sat_hi")
    if init == 0:
        ctx.note("sat_lo")


@harness("C32", params=[{"n": 7}], thorough=[{"n": 11}], labels=("end",))
def history(ctx, n):
    """every sequence of n outcomes from the default state"""
    from toffee import TwoBitsCounter

    c = TwoBitsCounter()
    ctx.check(c.counter == 2 and c.get_prediction() == 1, "does not start weakly taken")
    ref = 2
    for i in range(n):
        t = ctx.bool(f"t{i}")
        p = c.get_prediction()
        ctx.check(ctx.eq(p, ctx.ite(ref >= 2, 1, 0)), "prediction")
        c.update(t)
        ref = ctx.ite(t, ctx.ite(ref >= 3, 3, ref + 1), ctx.ite(ref <= 0, 0, ref - 1))
        ctx.check(c.counter == ref, "counter")
        ctx.check(ctx.eq(c.get_prediction(), ctx.ite(ref >= 2, 1, 0)), "prediction")
    ctx.note("end")
