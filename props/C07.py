BOUNDS = {"files": "every file of up to 7 bytes (9 thorough), line buffers of 2 to 4 bytes that have to grow", "long lines": "libsvm and csv lines of 4090 to 4100, 8186 to 8196 and 16380 to 16390 characters (the reader's buffer starts at 4096) with symbolic digits at the end, followed by a short line with and without line break", "zero bytes": "every file of up to 4 bytes, and 40 lines with zero bytes"}
OUTSIDE = "lines of more than 16390 characters; what is delivered of a line with a zero byte in it"
ASSUMPTIONS = ["fgets, realloc and strrchr are modelled (harness/rt.cc)"]
def jobs(tier):
    q = tier == "quick"
    J = []
    def job(n, *a, t=300, mode="fp"): J.append(dict(name=n, h="h_line.cc", src=["pario"], mode=mode, args=list(a), time=t if q else 3000, reach=["done"]))
    for n in range(0, 8 if q else 10):
        for cap in (2, 3, 4): job(f"any-{n}-{cap}", 0, n, cap, 0)
    for n in range(1, 5 if q else 6):
        for cap in (2, 3): job(f"zero-{n}-{cap}", 0, n, cap, 1)
    for csv in (0, 1):
        for b in (4096, 8192) if q else (4096, 8192, 16384):
            for d in ((-3, -2, -1, 0, 1) if q else range(-6, 5)): job(f"long-{'csv' if csv else 'svm'}-{b + d}", 1, csv, b + d, d & 1, mode="real")
    job("long-svm-16385", 1, 0, 16385, 1, mode="real")
    job("zeros", 2, 40)
    return J
