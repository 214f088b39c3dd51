BOUNDS = {"wide and many": "12 examples of 40 features, 3 of 700, 300 of 3: fixed values of all magnitudes, one arbitrary label and one arbitrary index", "labels and indexes": "all 32-bit labels, all strictly ascending 32-bit index lists of up to 2 features", "values": "every sign, 1..6 significant digits (each digit symbolic), decimal exponents -7..8"}
OUTSIDE = "more than 2 features; values that need more than six significant digits (those are rounded by the format itself); the C library's %g is modelled as printing the exact shortest six-digit form"
def jobs(tier):
    q = tier == "quick"
    J = [dict(name=f"ints{n}", h="h_text.cc", mode="fp", args=[2, n, 0], time=600, reach=["done"]) for n in range(0, 2)]
    J += [dict(name="ints2-label", h="h_text.cc", mode="fp", args=[2, 2, 1], time=600, reach=["done"])]
    J += [dict(name=f"vals{n}", h="h_text.cc", mode="real", args=[3, 0, n], time=600 if q else 6000, reach=["done"]) for n in ((1,) if q else (1, 2))]
    if not q: J += [dict(name="ints2", h="h_text.cc", mode="fp", args=[2, 2, 0], time=6000, reach=["done"])]
    for nf, ne in ((40, 12), (700, 3), (3, 300)):
        J.append(dict(name=f"wide-{nf}x{ne}", h="h_text.cc", mode="fp", args=[7, 0, nf, ne], time=400, reach=["done"]))
    return J
