BOUNDS = {"data": "up to 3 examples of up to 2 or 3 columns, every set of present features, bin to bin with arbitrary labels, value bits and threshold; 300 and 1200 examples (several batches) with three arbitrary ones", "formats": "every pair of bin, svm, csv", "parts": "1 to 5", "failing writes": "a destination that cannot be opened, a full disk, with one and 700 examples", "orders": "every outcome of the random draws for up to 4 examples"}
OUTSIDE = "more examples; write errors of split; damaged sources (their readable part is used, see C11); values that the text formats round; sources without any example for split; thread schedules (see C11)"
ASSUMPTIONS = ["the random generator may return any value", "the virtual file system delivers what was written"]
FM = ["bin", "svm", "csv"]
def jobs(tier):
    q = tier == "quick"; J = []
    def job(n, *a, reach=("done",), t=300): J.append(dict(name=n, h="h_tools.cc", src=["all"], mode="fp", args=list(a), time=t if q else 10 * t, reach=list(reach), opts=["--preempt=0"]))
    for s in range(3):
        for d in range(3):
            job(f"convert-{FM[s]}-{FM[d]}", 0, s, d, 2, 2, 0)
            job(f"shuffle-{FM[s]}-{FM[d]}", 1, s, d, 2, 1, 0, reach=("done", "moved"))
            job(f"split-{FM[s]}-{FM[d]}", 2, s, d, 3, 2, 0)
    job("convert-bin-bin-3", 0, 0, 0, 1, 3, 0); job("convert-svm-csv-3", 0, 1, 2, 1, 3, 0)
    for d in range(3): job(f"binarize-bin-{FM[d]}", 0, 0, d, 1, 2, 1)
    for s in range(3): job(f"shuffle-{FM[s]}-null", 1, s, s, 2, 1, 1, reach=("done", "moved")); job(f"split-{FM[s]}-null", 2, s, s, 2, 2, 2)
    job("shuffle-3", 1, 0, 0, 3, 1, 0, reach=("done", "moved")); job("shuffle-4", 1, 0, 0, 4, 0, 0, reach=("done", "moved"))
    for n, f in ((1, 1), (1, 3), (3, 1), (3, 3), (4, 3), (2, 5)): job(f"split-{n}in{f}", 2, 0, 0, n, f, 0)
    job("split-shuffle", 2, 0, 0, 3, 2, 1)
    for k in [*range(10), *range(12, 25)]: job(f"refuse{k}", 4, k)
    job("convert-300", 5, 0, 300, 1); job("split-300-4", 5, 1, 300, 4); job("split-1200-7", 5, 1, 1200, 7); job("shuffle-1200", 5, 2, 1200, 1); job("convert-1200", 5, 0, 1200, 1)
    if not q: job("shuffle-5", 1, 0, 0, 5, 0, 0, reach=("done", "moved")); job("convert-3x2", 0, 0, 0, 3, 2, 0)
    return J
