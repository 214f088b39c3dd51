BOUNDS = {"file length": "every length 0..31 bytes (sampled lengths, see jobs) quick / 34 thorough, all byte values", "wide records": "two records of 40, 130 or 300 features: cut at 72 places around their parts, or one byte of a count, a length, an index or a value replaced by any other", "truncation": "every cut point of every two-record file with <= 2 features per record"}
OUTSIDE = "longer files; records whose announced sizes exceed the bytes present are covered only through their rejection"
def jobs(tier):
    q = tier == "quick"
    L = [0, 3, 4, 11, 12, 13, 19, 20, 21, 24, 25, 26, 30, 31] if q else list(range(0, 35))
    J = [dict(name=f"bytes{n}", h="h_bin.cc", args=[1, n], time=300 if q else 3000, reach=["rejected"] if n < 12 else ["accepted", "rejected"], opts=["--conc=4096"]) for n in L]
    J += [dict(name=f"cut-{m}f", h="h_bin.cc", args=[2, m], time=300, reach=["cut"]) for m in ((1,) if q else (1, 2))]
    for n, part in ((130, 0), (300, 0), (130, 4), (130, 5), (300, 4), (130, 12), (130, 13), (130, 21), (130, 60), (40, 11), (40, 19), (130, -1), (130, -521)) + (() if q else ((300, 12),)):
        J.append(dict(name=f"wide-{n}-{part}".replace("--", "-m"), h="h_bin.cc", args=[4, n, part], time=300, reach=["done", "accepted"], opts=["--conc=4096"]))
    return J
