BOUNDS = {"wide and many": "12 examples of 40 features, 4 of 150, 300 of 3: fixed values of all magnitudes", "long lines": "4 shapes of symbolic tails after 60 or 600 fixed entries", "patterns": "every set of present columns for 5 columns x 1 example, 2 x 2, 1 x 3 (3 x 2, 2 x 3 thorough)", "labels": "all 32-bit labels", "values": "every sign, 1..6 significant digits, decimal exponents -7..8", "lines": "every line of up to 4 bytes and 15 line shapes with symbolic digits and bytes"}
OUTSIDE = "more columns; values needing more than six significant digits; examples with unsorted or out-of-range indexes"
def jobs(tier):
    q = tier == "quick"
    J = [dict(name=f"pat-{d}x{n}{'-label' if l else ''}", h="h_text.cc", mode="real", args=[4, d, n, l], time=600 if q else 3000, reach=["done"]) for d, n, l in ((5, 1, 0), (2, 2, 0), (1, 3, 0), (1, 1, 1), (0, 1, 0)) + (() if q else ((3, 2, 0), (2, 3, 0), (4, 1, 1)))]
    J += [dict(name="vals1", h="h_text.cc", mode="real", args=[3, 1, 1], time=600, reach=["done"])]
    J += [dict(name=f"line{k}", h="h_text.cc", mode="real", args=[5, 0, k], time=600, reach=["done"]) for k in range(1, 16)]
    J += [dict(name=f"any{n}", h="h_text.cc", mode="real", args=[5, n, 0], time=600 if q else 6000) for n in range(0, 5 if q else 6)]
    for nf, k in ((60, 0), (60, 1), (60, 2), (60, 3), (600, 0), (600, 1), (600, 3)):
        J.append(dict(name=f"long-{nf}-{k}", h="h_text.cc", mode="real", args=[6, 1, nf, k], time=400, reach=["done"]))
    for nf, ne in ((40, 12), (150, 4), (3, 300)):
        J.append(dict(name=f"wide-{nf}x{ne}", h="h_text.cc", mode="fp", args=[7, 1, nf, ne], time=400, reach=["done"]))
    return J
