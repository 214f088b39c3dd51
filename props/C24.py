BOUNDS = {"data": "up to 3 examples of up to 3 columns (1, 2 and 7), every set of present features, labels of both signs and zero, equal and different; 5 and 300 examples of which the last has any of 5 labels and 12 features", "formats": "bin, svm, csv; empty files"}
OUTSIDE = "more examples or features; features stored with value zero; feature number 0; thread schedules (see C11)"
FM = ["bin", "svm", "csv"]
def jobs(tier):
    q = tier == "quick"; J = []
    def job(n, *a, reach=("done",), t=300): J.append(dict(name=n, h="h_tools.cc", src=["all"], mode="fp", args=list(a), time=t if q else 10 * t, reach=list(reach), opts=["--preempt=0"]))
    for s in range(3):
        for n, c in ((0, 0), (1, 3), (2, 2), (3, 1)) + (() if q else ((2, 3), (3, 2))): job(f"analyze-{FM[s]}-{n}x{c}", 3, s, n, c)
    for n in (5, 300): job(f"analyze-{n}", 6, n)
    for k in (10, 11, 25, 26): job(f"refuse{k}", 4, k)
    return J
