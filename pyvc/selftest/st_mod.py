"""Small functions with known answers: the verifier must accept every ok_* contract and reject every bad_* one."""
from dataclasses import dataclass, field
from decimal import Decimal
from functools import cmp_to_key
from math import sqrt


def absval(x):
    return x if x >= 0 else -x


def absval_bad(x):
    return x if x > -3 else -x


def ceil_div(a, b):
    return (a + b - 1) // b


def ceil_div_bad(a, b):
    return a // b + 1


def clamp(x, lo, hi):
    if x < lo:
        return lo
    elif x > hi:
        return hi
    return x


def clamp_bad(x, lo, hi):
    if x < lo:
        return lo
    if x > hi:
        return x
    return x


def push(x, acc=[]):
    acc.append(x)
    return len(acc)


@dataclass
class Account:
    bal: float = 0
    log: list = field(default_factory=list)

    @property
    def empty(self):
        return self.bal == 0

    def withdraw(self, d):
        if d > self.bal:
            raise ValueError("too much", d)
        self.bal -= d
        self.log.append(d)

    def withdraw_bad(self, d):
        self.bal -= d
        if self.bal < 0:
            raise ValueError("too much", d)


def transfer(a, b, d):
    try:
        a.withdraw(d)
    except ValueError:
        return False
    b.bal += d
    return True


def best(xs):
    return sorted(xs, key=cmp_to_key(lambda p, q: (p > q) - (p < q)))[-1]


def bits(n):
    r = 0
    while n:
        n, b = divmod(n, 2)
        r += b
    return r


def geo(a, b):
    return sqrt(a * b)


def shadow(x):
    y = [x]
    z = y
    z.append(1)
    return len(y)
