BOUNDS = {'long runs': '20 to 30 examples (120 thorough) of up to 60 features that appear one after another, 2, 4 and 11 classes, values fixed, three labels chosen by the solver, executed in single precision against the rule in double precision', 'examples': '1 or 2 examples of 1..2 features, arbitrary values in [-8,8] and labels (cw/eccw second step: first example fixed)', 'classes': '2 and 3', 'parameters': 'a, phi, r, eta, delta arbitrary in the one-step jobs, fixed otherwise'}
OUTSIDE = 'arbitrary values in long runs; single-precision rounding'
ASSUMPTIONS = ['the update arithmetic is decided over exact reals: single-precision rounding is not part of the claim (values closer than 1e-4 relative count as equal)', 'examples carry the calibrated labels (+1/-1, or 0..classes-1)', 'cw/eccw are given an example with positive variance']
NM = ["sop", "cw", "eccw", "arow", "ada-fobos", "ada-rda"]
LONG = ['perceptron', 'ogd', 'pa', 'pa1', 'pa2', 'alma2', 'sop', 'cw', 'eccw', 'arow', 'ada-fobos', 'ada-rda', 'stg', 'fobos-l1', 'ada-fobos-l1', 'rda', 'rda-l1', 'erda-l1', 'ada-rda-l1', 'pet', 'fofs', 'sofs', 'adafobos-ofs', 'adarda-ofs']
def jobs(tier):
    J = []
    for a in range(6):
        J.append(dict(name=f"{NM[a]}-bin-1", h="h_second.cc", src=["model"], mode="real", args=[a, 2, 1, 112], time=120, reach=["done", "updated"]))
        J.append(dict(name=f"{NM[a]}-bin-2", h="h_second.cc", src=["model"], mode="real", args=[a, 2, 2, 1001 if a in (1, 2) else 11], time=120, reach=["done", "updated"]))
        if a != 2 or tier == "thorough": J.append(dict(name=f"{NM[a]}-mc-2", h="h_second.cc", src=["model"], mode="real", args=[a, 3, 2, 1001 if a in (1, 2) else 1], time=120, reach=["done", "updated"]))
        if a == 2: J.append(dict(name="eccw-mc-1", h="h_second.cc", src=["model"], mode="real", args=[a, 3, 1, 1], time=120, reach=["done", "updated"]))
        if tier == "thorough":
            J.append(dict(name=f"{NM[a]}-mc-1-par", h="h_second.cc", src=["model"], mode="real", args=[a, 3, 1, 112], time=3000, reach=["done", "updated"]))
            J.append(dict(name=f"{NM[a]}-bin-3", h="h_second.cc", src=["model"], mode="real", args=[a, 2, 3, 1001], time=3000, reach=["done", "updated"]))
    for a in range(6, 12):   # long runs, single precision
        for cls, st, F, opt, seed in ((2, 30, 40, 1, 1), (11, 24, 20, 0, 2), (4, 20, 60, 1, 3)) + (() if tier == "quick" else ((2, 120, 60, 1, 5), (7, 80, 50, 1, 6))):
            J.append(dict(name=f"{LONG[a]}-long-{cls}-{seed}", h="h_long.cc", src=["model"], mode="fp", args=[a, cls, st, F, opt, seed], time=100, reach=["done", "updated"]))
    return J
