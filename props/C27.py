BOUNDS = {"dense": "15 expressions over three vectors of 1 and 3 elements and a number, every value in [-4,4]", "sparse": "8 expressions, vectors of 3 elements, up to 3 stored indexes of every distance 0 to 2, inside and outside the vector", "storage": "every sequence of 4 (thorough: 5) operations (append, take away, clear, resize to 0..9, reserve 0..12, share)", "matrices": "1x1, 2x3, 3x2, every value in [-4,4]"}
OUTSIDE = "larger operands; rounding, overflow; whole-number and double elements; elements that appear when a vector is shrunk and grown again; reading and writing as text (see C19)"
ASSUMPTIONS = ["arithmetic over exact reals"]
def jobs(tier):
    q = tier == "quick"; J = []
    def job(n, *a, t=150): J.append(dict(name=n, h="h_math.cc", src=["none"], mode="real", args=list(a), time=t if q else 10 * t, reach=["done"]))
    for w in range(15):
        for n in (1, 3): job(f"dense-{w}-{n}", 0, w, n)
    for w in range(8):
        for m in (0, 1, 2, 3): job(f"sparse-{w}-{m}", 1, w, 3, m)
    for n, m in ((1, 0), (1, 1), (3, 2), (4, 3)): job(f"sums-{n}-{m}", 2, n, m)
    job("shapes", 3); job("storage", 4, 3 if q else 4)
    for r, c in ((1, 1), (2, 3), (3, 2)): job(f"matrix-{r}x{c}", 5, r, c)
    return J
