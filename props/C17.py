BOUNDS = {'long runs': '20 to 30 examples (120 thorough) of up to 60 features that appear one after another, 2, 4 and 11 classes, values fixed, three labels chosen by the solver, executed in single precision against the rule in double precision', 'examples': '1..3 examples over 2 features with a fixed pattern of present/absent features and arbitrary values in [-8,8]; for learners with square roots the first one or two examples are fixed', 'classes': '2 and 3', 'parameters': 'lambda, eta, delta, sigma, rou arbitrary in the two-step jobs; truncation period k 1..2'}
OUTSIDE = 'arbitrary values in long runs, decaying learning rates with stg/fobos-l1, single-precision rounding'
ASSUMPTIONS = ['the update arithmetic is decided over exact reals: single-precision rounding is not part of the claim (values closer than 1e-4 relative count as equal)', 'examples carry the calibrated labels (+1/-1, or 0..classes-1)']
NM = ["stg", "fobos-l1", "ada-fobos-l1", "rda", "rda-l1", "erda-l1", "ada-rda-l1"]
LONG = ['perceptron', 'ogd', 'pa', 'pa1', 'pa2', 'alma2', 'sop', 'cw', 'eccw', 'arow', 'ada-fobos', 'ada-rda', 'stg', 'fobos-l1', 'ada-fobos-l1', 'rda', 'rda-l1', 'erda-l1', 'ada-rda-l1', 'pet', 'fofs', 'sofs', 'adafobos-ofs', 'adarda-ofs']
def jobs(tier):
    J = []
    def job(n, a, cls, st, sh, t=150): J.append(dict(name=n, h="h_sparse.cc", src=["model"], mode="real", args=[a, cls, st, sh], time=t, reach=["done", "updated"]))
    for a in range(7):
        ada = a in (2, 6); hard = ada or a == 5
        job(f"{NM[a]}-bin-2", a, 2, 2, 111 if not hard else 11, 200)
        job(f"{NM[a]}-bin-3", a, 2, 3, 1 + (20 if a == 0 else 10) + (200000 if ada else 100000 if hard else 0))
        job(f"{NM[a]}-dim", a, 2, 1 if hard else 2, 50010)
        job(f"{NM[a]}-mc-2", a, 3, 2, 10 + (100000 if ada else 0))
        for p, n, k in ((1, 5, 2), (2, 5, 3), (3, 6, 2)) if a == 0 else ((1, 5, 1),) if ada or a == 5 else ((1, 5, 1), (2, 5, 1)):
            job(f"{NM[a]}-absent{p}-{n}", a, 2, n, p * 1000000 + (400010 if ada else 900000 + 1 + 10 * k))
        if a != 3: job(f"{NM[a]}-thresh", a, 2, 1, 1211)
        if tier == "thorough":
            job(f"{NM[a]}-bin-4", a, 2, 4, 1 + (20 if a == 0 else 10) + (200000 if hard else 100000), 3000)
            job(f"{NM[a]}-mc-3", a, 3, 3, 10 + (200000 if ada else 100000), 3000)
            job(f"{NM[a]}-label-2", a, 2, 2, 1011, 3000)
    for a in range(12, 19):   # long runs, single precision
        for cls, st, F, opt, seed in ((2, 30, 40, 1, 1), (11, 24, 20, 0, 2), (4, 20, 60, 1, 3)) + (() if tier == "quick" else ((2, 120, 60, 1, 5), (7, 80, 50, 1, 6))):
            J.append(dict(name=f"{LONG[a]}-long-{cls}-{seed}", h="h_long.cc", src=["model"], mode="fp", args=[a, cls, st, F, opt, seed], time=100, reach=["done", "updated"]))
    return J
