BOUNDS = {"direct": "models of 1 to 3 weights (bias included), 2, 3 and 4 classes, arbitrary weights and features in [-8,8], any subset of features, one of them unknown to the model", "large": "20 to 40 features, 7 and 11 classes, 300 and 700 examples in the default batches; up to two weights and two values arbitrary, the others fixed", "data sets": "1 to 3 rows, 1 or 2 passes, any labels, through sol_Predict and sol_Test with and without output file"}
OUTSIDE = "single-precision rounding, longer data sets with more arbitrary values, schedules of the reader thread (C11)"
ASSUMPTIONS = ["arithmetic over exact reals"]
NM = ["perceptron", "ogd", "stg", "fobos-l1", "pet", "pa", "pa1", "pa2", "alma2", "rda", "rda-l1", "erda-l1", "sop", "cw", "eccw", "arow", "sofs", "ada-fobos", "ada-fobos-l1", "adafobos-ofs", "ada-rda", "ada-rda-l1", "adarda-ofs", "fofs"]
def jobs(tier):
    J = []
    def job(n, *a, t=100, opts=()): J.append(dict(name=n, h="h_pred.cc", src=["all"], mode="real", args=list(a), time=t, reach=["done"], opts=list(opts)))
    for a in range(24): job(f"{NM[a]}-2", 0, a, 2, 3)
    for a in (0, 1, 9, 15): job(f"{NM[a]}-3", 0, a, 3, 3)
    job("ogd-4", 0, 1, 4, 2)
    job("ogd-empty", 0, 1, 2, 1)
    job("ogd-empty-3", 0, 1, 3, 1)
    for a, c, n in ((1, 2, 12), (1, 3, 12), (1, 2, 21)): job(f"{NM[a]}-set-{c}-{n}", 1, a, c, n, opts=["--preempt=0"])
    job('perceptron-set-2-13', 2, 0, 2, 13, opts=['--preempt=0'])
    for a, c, n in ((1, 2, 70006), (1, 5, 30005), (9, 2, 30006), (1, 2, 40), (0, 11, 33), (15, 7, 20), (12, 2, 30)): job(f"{NM[a]}-big-{c}-{n}", 3, a, c, n, opts=["--preempt=0"])
    if tier == "thorough":
        for a in range(24): job(f"{NM[a]}-3t", 0, a, 3, 3, t=1000)
        for a in (2, 5, 12, 15, 17, 20): job(f"{NM[a]}-set-2-12", 1, a, 2, 12, opts=["--preempt=0"], t=1000)
        job("ogd-set-4-12", 1, 1, 4, 12, opts=["--preempt=0"], t=2000)
    return J
