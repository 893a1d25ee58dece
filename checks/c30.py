"""C30: the 64-bit LFSR follows its recurrence and stays in 64 bits."""
from sx.common import harness

M = (1 << 64) - 1


def nxt(s):
    return (s >> 1) | ((((s >> 0) ^ (s >> 1) ^ (s >> 3) ^ (s >> 4)) & 1) << 63)


def same(ctx, x, s, what):
    ctx.check(ctx.And(x == s, x >= 0, x <= M), what)


@harness("C30", params=[{"n": 9}, {"n": 3, "mix": 1}], thorough=[{"n": 66}, {"n": 9, "mix": 1}], labels=("end", "top", "zero"),
         fallback=[{"n": 4}, {"n": 2, "mix": 1}])
def recurrence(ctx, n, mix=0):
    """n steps from any seed of up to 80 bits, positive or negative; with `mix`, a second generator of any other seed steps
    in between and must not interfere; reading changes nothing"""
    from toffee.utils import LFSR_64

    seed = ctx.bv("seed", 80)
    kind = ctx.choose("kind", 3)
    if kind == 1:
        seed = -seed
    if kind == 2:
        seed = ctx.bv("small", 64)
    g = LFSR_64(seed)
    s = seed & M
    same(ctx, g.rand, s, "the seed is not reduced to 64 bits")
    if mix:
        other = ctx.bv("other", 64)
        h = LFSR_64(other)
    for i in range(n):
        if mix:
            same(ctx, g.rand, s, "another generator interferes")
        g.step()
        s = nxt(s)
        same(ctx, g.rand, s, f"state {i + 1} is wrong")
        same(ctx, g.rand, s, f"reading changes the state")
        if mix:
            h.step()
            other = nxt(other)
            same(ctx, h.rand, other, "another generator interferes")
    same(ctx, g.rand, s, "reading changes the state")
    ctx.note("end")
    if s > M >> 1:
        ctx.note("top")
    elif s == 0:
        ctx.note("zero")


@harness("C30", labels=("end",))
def injective(ctx):
    """any two different 64-bit states have different successors; a non-zero state never becomes zero"""
    from toffee.utils import LFSR_64

    a, b = ctx.bv("a", 64), ctx.bv("b", 64)
    ctx.assume(a != b)
    g, h = LFSR_64(a), LFSR_64(b)
    g.step()
    h.step()
    ctx.check(g.rand != h.rand, "two states have the same successor")
    ctx.check(ctx.Or(a == 0, g.rand != 0), "a non-zero state becomes zero")
    ctx.note("end")


@harness("C30", labels=("end",))
def default(ctx):
    """without a seed the generator starts from 1; two runs from one seed agree"""
    from toffee import LFSR_64

    g = LFSR_64()
    s = 1
    for i in range(130):
        same(ctx, g.rand, s, "the default seed is not 1")
        g.step()
        s = nxt(s)
    x = ctx.int("x", -4, 4)
    g = LFSR_64(seed=x)
    same(ctx, g.rand, ctx.ite(x < 0, x + (1 << 64), x), "the seed is not reduced to 64 bits")
    ctx.note("end")
