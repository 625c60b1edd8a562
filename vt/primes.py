"""The primes the program draws for a seed: the first by rand() after srand(seed), then one after the other."""
import ctypes

_libc = ctypes.CDLL("libc.so.6")
LO, HI = 1 << 30, 1303905301


def is_prime(n):
    if n % 2 == 0:
        return n == 2
    i = 3
    while i * i <= n:
        if n % i == 0:
            return False
        i += 2
    return n > 1


def next_prime(n):
    n += 1
    while not is_prime(n):
        n += 1
    return n


def sequence(seed, k):
    _libc.srand(seed)
    p = next_prime(_libc.rand() % (HI - LO + 1) + LO)
    out = [p]
    while len(out) < k:
        p = next_prime(p)
        if p >= HI - 2:
            p = next_prime(LO)
        out.append(p)
    return out
