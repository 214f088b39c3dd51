BOUNDS = {"training and testing": "sol_train and lsol_c with 8 settings (algorithm, parameters, number of classes, data format svm/bin/csv): 3 examples of which the solver chooses two among six, 1 or 2 passes, batches of 2; then further training and testing of the saved model, with and without a filter", "refused requests": "9 for training, 6 to 8 for testing, 3 for conversion, per program", "concat": "2 files of up to 2 examples each, three output formats", "convert, split, shuffle, analyze": "3 examples, two of them chosen; 1 to 4 parts; with and without a binarization threshold"}
OUTSIDE = "the text the programs print apart from the accuracy; --show, --help; --dim (which has no effect); options in other combinations; the Python programs; predictions of lsol_c that cannot be written (sol_Test has no way to report it)"
ASSUMPTIONS = ["the programs' main functions run in one process, one after the other, with exit turned into an exception and fprintf recorded"]
def jobs(tier):
    q = tier == "quick"
    J = []
    def job(n, *a, t=200): J.append(dict(name=n, h="h_cli.cc", src=["all"], mode="fp", args=list(a), time=t, reach=["done"], opts=["--preempt=0"]))
    for p in (0, 1):
        for o in range(8): job(f"train-{p}-{o}", 0, p, o, 3 if q else 5, 2, t=200 if q else 800)
        job(f"refused-{p}", 1, p); job(f"notest-{p}", 3, p)
    for f in range(3): job(f"concat-{f}", 2, f, 2)
    for f in range(3): job(f"convert-{f}", 4, 0, f); job(f"split-{f}", 4, 1, f)
    job("shuffle", 4, 2, 0); job("analyze", 4, 3, 0)
    return J
