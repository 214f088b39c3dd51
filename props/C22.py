BOUNDS = {"accounting": "perceptron and ogd, 2 and 3 classes, 1 to 4 examples (rows x passes x calls of sol_Train; 18 and 35 examples of which one per pass is arbitrary), one feature of any value with magnitude in [0.25,4], cost margin and active smoothness in [0.25,4], all draws of the random generator", "reports": "default, exp_show 3, step_show 3", "interruption": "all 24 algorithms, two calls of sol_Train on two examples each, two of the values symbolic"}
OUTSIDE = "single-precision rounding, longer sequences, the printed progress table"
ASSUMPTIONS = ["arithmetic over exact reals", "random draws are arbitrary numbers in [0,1), 1e-3 away from the query probability"]
NM = ["perceptron", "ogd", "stg", "fobos-l1", "pet", "pa", "pa1", "pa2", "alma2", "rda", "rda-l1", "erda-l1", "sop", "cw", "eccw", "arow", "sofs", "ada-fobos", "ada-fobos-l1", "adafobos-ofs", "ada-rda", "ada-rda-l1", "adarda-ofs", "fofs"]
MODE = ["plain", "ogd", "lazy", "cost", "active", "step", "exp3"]
def jobs(tier):
    J = []
    def job(n, *a, t=100, opts=()): J.append(dict(name=n, h="h_train.cc", src=["all"], mode="real", args=list(a), time=t, reach=["done"], opts=["--preempt=0", *opts]))
    for m in range(7): job(f"{MODE[m]}-3", 0, m, 2, 3, 1, 1)
    for m in range(7):
        if m in (0, 2): job(f"{MODE[m]}-5", 0, m, 2, 5, 1, 1)
        elif m != 4: job(f"{MODE[m]}-4", 0, m, 2, 4, 1, 1)
    for m in range(7): job(f"{MODE[m]}-2x2", 0, m, 2, 2, 2, 1)
    for m in range(7): job(f"{MODE[m]}-twice", 0, m, 2, 2, 1, 2)
    job("plain-1x3-twice", 0, 0, 2, 1, 3, 2)
    for m in (0, 1, 2): job(f"{MODE[m]}-mc-3", 0, m, 3, 3, 1, 1)
    job("active-mc-2", 0, 4, 3, 2, 1, 1)
    job("active-mc-1x2", 0, 4, 3, 1, 2, 1)
    for m in (0, 1, 2, 5, 6): job(f"{MODE[m]}-long", 2, m, 2, 3, 6, 1)
    for m in (0, 1): job(f"{MODE[m]}-mc-long", 2, m, 3, 3, 6, 1)
    job("plain-longer", 2, 0, 2, 5, 7, 1)
    for a in range(24):
        if a in (13, 14): job(f"{NM[a]}-interrupted", 1, a, 2, 3, 0, 0, opts=["--approx"])
        elif a in (8, 17, 18, 19): job(f"{NM[a]}-interrupted", 1, a, 2, 1, 0, 0, opts=["--approx"])
        else: job(f"{NM[a]}-interrupted", 1, a, 2, 1 if a in (15, 16, 20, 21, 22, 23) and tier == "quick" else 0, 0, 0)
    if tier == "thorough":
        for m in range(7): job(f"{MODE[m]}-6", 0, m, 2, 6 if m != 4 else 4, 1, 1, t=2000)
        for m in (0, 1, 2, 4): job(f"{MODE[m]}-mc-4", 0, m, 3, 4 if m != 4 else 3, 1, 1, t=2000)
        for a in (2, 3, 9, 10, 11, 18, 21): job(f"{NM[a]}-interrupted-3", 1, a, 3, 1, 0, 0, t=2000, opts=["--approx"] if a > 16 else [])
    return J
