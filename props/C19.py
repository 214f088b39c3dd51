BOUNDS = {"large models": "40 features and 2 classes, 16 and 11, 70 and 3, after 12 to 18 fixed examples, 9 more after restoring; several labels chosen by the solver; single precision", "state": "2 features, 2 and 3 classes, arbitrary weights in [-8,8] and arbitrary hyper-parameters in their range", "continued training": "two fixed examples before saving, one arbitrary example after restoring (eccw: thorough tier only)", "C interface": "a training run of two fixed examples and an arbitrary one (alma2, cw, eccw, ada-fobos: two fixed ones), predictions for an arbitrary one"}
OUTSIDE = "display settings; pre-selected features (filter); scores within 1/64 of an update decision, because weights are written with six digits; B>0 with the adaptive learners in continued training"
ASSUMPTIONS = ["arithmetic over exact reals, irrational constants replaced by the nearest double; numbers written to a file come back equal up to the six (weights) or seventeen digits written", "files are modelled in memory"]
NM = ["perceptron", "ogd", "stg", "fobos-l1", "pet", "pa", "pa1", "pa2", "alma2", "rda", "rda-l1", "erda-l1", "sop", "cw", "eccw", "arow", "sofs", "ada-fobos", "ada-fobos-l1", "adafobos-ofs", "ada-rda", "ada-rda-l1", "adarda-ofs", "fofs"]
def jobs(tier):
    J = []
    def job(n, *a, t=120): J.append(dict(name=n, h="h_save.cc", src=["all"], mode="real", args=list(a), time=t, reach=["done"], opts=["--approx"]))
    for a in range(24):
        job(f"{NM[a]}-io-2", 0, a, 2, 3 + 256 + (512 if a in (2, 3, 10, 11, 18, 21) else 0) + (16 if a in (4, 16, 19, 22, 23) else 0) + (1024 if 1 <= a <= 4 else 0) + (4 if a not in (0, 12) else 0))
        job(f"{NM[a]}-io-3", 0, a, 3, 1 + (8 if a not in (0, 5, 6, 7, 8, 12, 13, 14, 15, 16) else 0))
        if tier == "thorough" or a not in (8, 14): job(f"{NM[a]}-resume", 1, a, 2, (32 if a in (2, 3, 18) else 0) + (128 if a in (8, 13, 14) else 0))
        job(f"{NM[a]}-train", 2, a, 2, 64 if a in (8, 13, 14, 17, 18, 19) else 0); J[-1]["opts"] = ["--preempt=0", "--approx"]
        if a == 8: job(f"{NM[a]}-resume-step", 1, a, 2, 128 + 2048)
    for a in range(24):
        for cls, st, F, seed, fl in ((2, 18, 40, 11, 1), (11, 14, 16, 12, 0), (3, 12, 70, 13, 3)) + (() if tier == "quick" else ((2, 60, 300, 14, 1), (12, 60, 60, 15, 2))):
            J.append(dict(name=f"{NM[a]}-long-{cls}", h="h_savelong.cc", src=["all"], mode="fp", args=[a, cls, st, F, seed, fl], time=100, reach=["compared"]))
    return J
