BOUNDS = {"examples": "3 examples over 3 features with fixed patterns of presence, the last one or two with arbitrary values of magnitude 1/16 to 8 (for learners with square roots one value; two examples for cw, eccw and alma2 with three classes)", "numbers": "features 1,2,3 renumbered to 2,3,5; 1,7,40; 4,127,700; 1,2,3000", "zeros": "the same examples with the absent features (and numbers in between) stored with value zero", "classes": "2 and 3"}
OUTSIDE = "longer runs; feature selection with several equally important features; single-precision rounding"
ASSUMPTIONS = ["arithmetic over exact reals (values closer than 1e-4 relative count as equal), irrational constants replaced by the nearest double", "examples carry the calibrated labels"]
NM = ["perceptron", "ogd", "stg", "fobos-l1", "pet", "pa", "pa1", "pa2", "alma2", "rda", "rda-l1", "erda-l1", "sop", "cw", "eccw", "arow", "sofs", "ada-fobos", "ada-fobos-l1", "adafobos-ofs", "ada-rda", "ada-rda-l1", "adarda-ofs", "fofs"]
HARD = (8, 11, 13, 14, 17, 18, 19, 20, 21, 22, 23)
def jobs(tier):
    J = []
    def job(n, *a, t=100, opts=("--approx",)): J.append(dict(name=n, h="h_renum.cc", src=["model"], mode="real", args=list(a), time=t, reach=["done"], opts=["--preempt=0", *opts]))
    for a in range(24):
        ns = 1 if a in HARD else 2
        sg = (64 if a in HARD else 0) | (128 if a == 14 else 0)
        st = 2 if a in (13, 14) else 3
        st3 = 2 if a in (8, 13, 14) else 3
        for mp in (1, 2, 3): job(f"{NM[a]}-map{mp}", a, 2, mp, 8 | (1 if a == 14 and mp == 1 else mp - 1) << 4 | sg, st, ns if mp == 1 else 1, t=250 if a == 14 else 100)
        job(f"{NM[a]}-zeros", a, 2, 1, 4 | 8 | (16 if a == 14 else 0) | sg, st, 1)
        job(f"{NM[a]}-mc", a, 3, 2, 4 | 16 | sg, st3, 1)
    for a in (4, 16, 19, 22, 23): job(f"{NM[a]}-B1", a, 2, 2, 1, 3, 1); job(f"{NM[a]}-B2", a, 2, 1, 2, 3, 1); job(f"{NM[a]}-B1-mc", a, 3, 2, 1 | 64, 3, 1)
    job("ogd-3000", 1, 2, 4, 0, 3, 1); job("arow-3000", 15, 3, 4, 0, 3, 1)
    return J
