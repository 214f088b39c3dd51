BOUNDS = {"examples": "<= 2 (<= 3 thorough)", "features per example": "<= 3", "many features": "130, 260, 520 (5000 thorough) features with arbitrary bits at four places", "labels, indexes, value bits": "all 32-bit values, indexes ascending"}
OUTSIDE = "longer examples and files; stdio failures; the C library and file system are modelled (rt.cc) as a byte-exact in-memory file"
ASSUMPTIONS = ["stdio delivers the bytes written", "indexes of an example are strictly ascending (documented precondition of the format)"]
def jobs(tier):
    J = [dict(name="one-3f", h="h_bin.cc", args=[0, 1, 3, 0], time=200, reach=["done"]),
         dict(name="two-1f", h="h_bin.cc", args=[0, 2, 1, 0], time=200, reach=["done"]),
         dict(name="two-2f-small", h="h_bin.cc", args=[0, 2, 2, 1], time=200, reach=["done"]),
         dict(name="none", h="h_bin.cc", args=[0, 0, 0, 0], reach=["done"], nosample=True)]
    for n, st in ((130, 1), (260, 127), (520, 9000)) + (((5000, 77),) if tier != "quick" else ()):
        J.append(dict(name=f"many-{n}", h="h_bin.cc", args=[3, n, st, 0], time=200 if n < 1000 else 3000, reach=["done"]))
    if tier != "quick":
        J += [dict(name="one-4f", h="h_bin.cc", args=[0, 1, 4, 0], time=3000, reach=["done"]),
              dict(name="three-2f-small", h="h_bin.cc", args=[0, 3, 2, 1], time=3000, reach=["done"]),
              dict(name="two-2f", h="h_bin.cc", args=[0, 2, 2, 0], time=3000, reach=["done"])]
    return J
