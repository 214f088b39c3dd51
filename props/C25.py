BOUNDS = {"numbers": "every number in [-4,4] (whole numbers -2..5) for every numeric parameter of all 24 algorithms, before and after training", "texts": "every text of up to 2 characters for every parameter", "names": "every parameter name of up to 2 characters", "losses": "14 names for every algorithm, 2 and 3 classes, before and after training", "changes between training runs": "one value per parameter, two fixed examples before, two fixed and an arbitrary one after"}
OUTSIDE = "texts that start with a number and go on with something else; the range of C, a, phi, r, p, sparse_thresh, exp_show and step_show; huge numbers (see C21, C20)"
ASSUMPTIONS = ["arithmetic over exact reals in the jobs with symbolic numbers"]
NM = ["perceptron", "ogd", "stg", "fobos-l1", "pet", "pa", "pa1", "pa2", "alma2", "rda", "rda-l1", "erda-l1", "sop", "cw", "eccw", "arow", "sofs", "ada-fobos", "ada-fobos-l1", "adafobos-ofs", "ada-rda", "ada-rda-l1", "adarda-ofs", "fofs"]
OWN = [0, 2, 5, 4, 3, 0, 1, 1, 4, 1, 3, 4, 1, 2, 2, 1, 2, 2, 4, 3, 2, 4, 3, 3]
def jobs(tier):
    J = []
    def job(n, *a, t=100, mode="real", opts=()): J.append(dict(name=n, h="h_param.cc", src=["all"], mode=mode, args=list(a), time=t, reach=["done"], opts=["--preempt=0", *opts]))
    for a in range(24):
        for i in range(7, 7 + OWN[a]):
            job(f"num-{NM[a]}-{i}", 0, a, 2, i, 1, opts=["--approx"])
    for a in (1, 8, 13):
        for i in range(7): job(f"num-{NM[a]}-{i}", 0, a, 3 if a == 1 else 2, i, 0 if a == 8 else 1, opts=["--approx"])
    for a in range(24):
        for c in (2, 3):
            for t in (0, 1): job(f"loss-{NM[a]}-{c}-{t}", 2, a, c, t, 0, opts=["--approx"])
    for a in range(24): job(f"name-{NM[a]}", 3, a, 2, 2 if a % 6 == 2 else 1, 0)
    for a in range(24):
        for i in [0, 2, 50] + list(range(7, 7 + OWN[a])): job(f"later-{NM[a]}-{i}", 4, a, 2, i, int(a in (13, 14)), opts=["--approx"])
    for w, a in ((0, 1), (3, 1), (4, 1), (5, 1), (6, 1), (7, 2), (10, 2), (7, 8), (9, 8), (7, 23), (9, 23), (9, 4)): job(f"text-{NM[a]}-{w}", 1, a, 2, w, 2 if tier != "quick" else 1)
    for w in range(100, 107): job(f"text-ogd-{w}", 1, 1, 2, w, 2 if w in (100, 101) or tier != "quick" else 1)
    job("text-alma2-norm", 1, 8, 2, 101, 2)
    return J
