BOUNDS = {"direct": "examples with any subset of 4 features, any values in [-8,8], any of 6 labels, norm None/L1/L2, filters of 0 to 3 features", "wide": "20 to 300 features numbered up to 150000, 100 of them chosen; two arbitrary values", "everywhere": "one example with two features through sol_Train, sol_Predict and sol_Test", "filter files": "12 files and every file of two characters without blanks, signs '+' and comments"}
OUTSIDE = "single-precision rounding; the value of sqrt is its defining equation"
ASSUMPTIONS = ["arithmetic over exact reals"]
def jobs(tier):
    J = []
    def job(n, *a, t=100, opts=(), mode="real"): J.append(dict(name=n, h="h_prep.cc", src=["all"], mode=mode, args=list(a), time=t, reach=["done"], opts=["--preempt=0", *opts]))
    NF = 3 if tier == "quick" else 4
    for n in range(6):
        for f in (0, 1, 5, 6): job(f"direct-{n}-{f}", 0, n, f, 2, NF)
    for n in (0, 1, 2): job(f"direct-mc-{n}", 0, n, 2, 3, NF)
    for n in (0, 1, 2):
        for f in (0, 1, 2, 4): job(f"everywhere-{n}-{f}", 1, n, f, 2, 2)
    for k in range(14): job(f"filter-{k}", 2, k, 0, 2, 3, mode="fp")
    for n, st, nf in ((0, 1, 300), (0, 997, 150), (0, -1, 300), (1, 1, 40), (1, 5000, 30), (1, -1, 60), (2, -1, 20), (2, 3, 20)): job(f"wide-{n}-{st}-{nf}".replace("--", "-m"), 3, n, st, 2, nf)
    return J
