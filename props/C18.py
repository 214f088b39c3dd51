BOUNDS = {'long runs': '20 to 30 examples (120 thorough) of up to 60 features that appear one after another, 2, 4 and 11 classes, values fixed, three labels chosen by the solver, executed in single precision against the rule in double precision', 'examples': '1..3 examples over 3 features, arbitrary values in [-8,8] (in some jobs the first ones are fixed)', 'budget': '1 and 2 of 3 features, and no budget', 'classes': '2 and 3'}
OUTSIDE = 'arbitrary values in long runs; single-precision rounding'
ASSUMPTIONS = ['the update arithmetic is decided over exact reals: single-precision rounding is not part of the claim (values closer than 1e-4 relative count as equal)', 'examples carry the calibrated labels (+1/-1, or 0..classes-1)']
NM = ["pet", "fofs", "sofs", "adafobos-ofs", "adarda-ofs"]
LONG = ['perceptron', 'ogd', 'pa', 'pa1', 'pa2', 'alma2', 'sop', 'cw', 'eccw', 'arow', 'ada-fobos', 'ada-rda', 'stg', 'fobos-l1', 'ada-fobos-l1', 'rda', 'rda-l1', 'erda-l1', 'ada-rda-l1', 'pet', 'fofs', 'sofs', 'adafobos-ofs', 'adarda-ofs']
def jobs(tier):
    J = []
    def job(n, a, cls, st, sh, t=150, reach=("done", "updated", "dropped")): J.append(dict(name=n, h="h_select.cc", src=["model"], mode="real", args=[a, cls, st, sh], time=t, reach=list(reach)))
    for a in range(5):
        job(f"{NM[a]}-bin-2", a, 2, 2, 1)
        job(f"{NM[a]}-bin-B2", a, 2, 2, 12 + (1000 if a == 2 else 0))
        job(f"{NM[a]}-bin-3", a, 2, 3, 2 + (1000 if a == 0 else 2000))
        job(f"{NM[a]}-mc-2", a, 3, 2, 1 + 1000)
        job(f"{NM[a]}-nobudget", a, 2, 1, 110, 60, ("done", "updated"))
        for f in (1, 2, 3) if a == 3 else ():
            job(f"{NM[a]}-single{f}-3", a, 2, 3, f * 1000000 + 2 + 200000)
        if a != 3: job(f"{NM[a]}-single-3", a, 2, 3, 2 + (100000 if a == 0 else 200000)); J[-1]["opts"] = ["--approx"] if a < 3 else []
        if tier == "thorough":
            job(f"{NM[a]}-bin-4", a, 2, 4, 1 + 2000, 3000)
            job(f"{NM[a]}-label-2", a, 2, 2, 101, 3000)
            job(f"{NM[a]}-mc-3", a, 3, 3, 2 + 2000, 3000)
    for a in range(19, 24):   # long runs, single precision
        for cls, st, F, opt, seed in ((2, 30, 40, 61, 1), (11, 24, 20, 60, 2), (4, 20, 60, 301, 3), (2, 24, 12, 0, 4)) + (() if tier == "quick" else ((2, 120, 60, 121, 5), (7, 80, 50, 91, 6))):
            J.append(dict(name=f"{LONG[a]}-long-{cls}-{seed}", h="h_long.cc", src=["model"], mode="fp", args=[a, cls, st, F, opt, seed], time=100, reach=["done", "updated"]))
    return J
