"""contracts for st_mod; names starting with bad_ must not be provable"""
from pyvc.api import contract

M = "st_mod:"


def reg(f):
    contract("SELF", functions=[], budget=10)(f)
    return f


@reg
def ok_abs(c):
    x = c.real("x")
    r = c.call(M + "absval", x)
    c.ensure("abs", c.And(r >= 0, c.Or(c.eq(r, x), c.eq(r, -x))))


@reg
def bad_abs(c):
    x = c.real("x")
    c.ensure("abs", c.call(M + "absval_bad", x) >= 0)


@reg
def ok_ceil(c):
    a, b = c.int("a", 0), c.int("b", 1)
    r = c.call(M + "ceil_div", a, b)
    c.ensure("ceil", c.And(r * b >= a, (r - 1) * b < a))


@reg
def bad_ceil(c):
    a, b = c.int("a", 0), c.int("b", 1)
    r = c.call(M + "ceil_div_bad", a, b)
    c.ensure("ceil", c.And(r * b >= a, (r - 1) * b < a))


@reg
def ok_clamp(c):
    x, lo, hi = c.real("x"), c.real("lo"), c.real("hi")
    c.assume(lo <= hi)
    r = c.call(M + "clamp", x, lo, hi)
    c.ensure("in range", c.And(lo <= r, r <= hi))


@reg
def bad_clamp(c):
    x, lo, hi = c.real("x"), c.real("lo"), c.real("hi")
    c.assume(lo <= hi)
    r = c.call(M + "clamp_bad", x, lo, hi)
    c.ensure("in range", c.And(lo <= r, r <= hi))


@reg
def bad_clamp_without_precondition(c):
    x, lo, hi = c.real("x"), c.real("lo"), c.real("hi")
    r = c.call(M + "clamp", x, lo, hi)
    c.ensure("in range", c.And(lo <= r, r <= hi))


@reg
def ok_mutable_default(c):
    c.call(M + "push", 1)
    c.ensure("shared default", c.eq(c.call(M + "push", 1), 2))


@reg
def bad_mutable_default(c):
    c.call(M + "push", 1)
    c.ensure("fresh default", c.eq(c.call(M + "push", 1), 1))


def acc(c):
    b, d = c.real("b", lo=0), c.real("d", gt=0)
    a = c.call(M + "Account", b)
    return a, b, d


@reg
def ok_atomic(c):
    a, b, d = acc(c)
    out = c.try_meth(a, "withdraw", d)
    c.ensure("atomic", c.Or(c.And(out.ok, c.eq(c.attr(a, "bal"), b - d), b >= d), c.And(not out.ok, c.eq(c.attr(a, "bal"), b))))
    c.ensure("error kind", out.ok or out.raised("ValueError"))


@reg
def bad_atomic(c):
    a, b, d = acc(c)
    out = c.try_meth(a, "withdraw_bad", d)
    c.ensure("atomic", out.ok or c.eq(c.attr(a, "bal"), b))


@reg
def ok_transfer(c):
    a, b, d = acc(c)
    e = c.call(M + "Account", 5)
    c.call(M + "transfer", a, e, d)
    c.ensure("conserved", c.eq(c.attr(a, "bal") + c.attr(e, "bal"), b + 5))


@reg
def bad_transfer_to_self_changes(c):
    a, b, d = acc(c)
    c.call(M + "transfer", a, a, d)
    c.ensure("reduced", c.Or(d > b, c.lt(c.attr(a, "bal"), b)))


@reg
def ok_sort(c):
    x, y, z = c.real("x"), c.real("y"), c.real("z")
    r = c.call(M + "best", c.lift([x, y, z]))
    c.ensure("max", c.And(r >= x, r >= y, r >= z))


@reg
def bad_sort(c):
    x, y, z = c.real("x"), c.real("y"), c.real("z")
    r = c.call(M + "best", c.lift([x, y]))
    c.ensure("max", r >= z)


@reg
def ok_sqrt(c):
    a, b = c.real("a", gt=0), c.real("b", gt=0)
    g = c.call(M + "geo", a, b)
    c.ensure("AM-GM", c.le(g, (a + b) / 2))


@reg
def bad_sqrt(c):
    a, b = c.real("a", gt=0), c.real("b", gt=0)
    c.ensure("GM below both", c.call(M + "geo", a, b) <= a)


@reg
def ok_alias(c):
    c.ensure("two", c.eq(c.call(M + "shadow", c.real("x")), 2))


@reg
def bad_alias(c):
    c.ensure("one", c.eq(c.call(M + "shadow", c.real("x")), 1))


@reg
def bad_false(c):
    x = c.real("x")
    c.assume(x > 0)
    c.ensure("unreachable?", x > 1)


@reg
def bad_float_bound(c):
    x = c.real("x")
    c.ensure("small", x <= 1e-11)


@reg
def bad_float_bound_le(c):
    x = c.real("x")
    c.ensure("small", c.le(x, 1e-11))


@reg
def bad_float_bound_gt(c):
    x = c.real("x", gt=0)
    c.ensure("large", x > 1e-3)


@reg
def ok_float_bound(c):
    x = c.real("x", gt=0)
    c.assume(x >= 1e-3)
    c.ensure("large", x * 1000.0 >= 1)
    c.ensure("sum", c.ge(x + 0.5, 0.501))
    c.ensure("product", c.ge(x * 1e-3, 1e-6))
