"""Field elements with a bias to the borders of the representation."""
import shutil, subprocess, tempfile

def primes(exe):
    """the library's own list of field moduli"""
    d = tempfile.mkdtemp(prefix="vf_")
    try:
        open(d + "/i", "w").write("primelist\n")
        subprocess.run([exe, d + "/i", d + "/o"], timeout=30)
        return [int(x) for x in open(d + "/o").read().split()]
    finally:
        shutil.rmtree(d, ignore_errors=True)

def is_prime(n):
    if n < 2:
        return False
    for q in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % q == 0:
            return n == q
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2; s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True

def elem(rng, p):
    k = rng.randrange(12)
    if k < 4:
        return rng.randrange(p)
    if k == 4:
        return rng.randrange(0, min(p, 12))
    if k == 5:
        return p - 1 - rng.randrange(0, min(p, 12))
    if k == 6:
        return (p // 2 + rng.randint(-3, 3)) % p
    if k == 7:
        return ((1 << rng.randrange(1, 63)) + rng.randint(-1, 1)) % p
    if k == 8:
        return (p - (1 << rng.randrange(1, 63)) + rng.randint(-1, 1)) % p
    if k == 9:
        return rng.randrange(1 << 32)
    if k == 10:
        return pow(rng.randrange(1, 1000), -1, p)
    return (rng.randrange(1, 100) * pow(rng.randrange(1, 100), -1, p)) % p

def nonzero(rng, p):
    while True:
        e = elem(rng, p)
        if e:
            return e
