BOUNDS = {"cut": "the saved file of a model with dimension 2, cut at every position", "byte": "every byte of the saved file replaced by every other value", "settings": "every text of up to 2 characters as the settings, and in place of the model name, class number, classifier number, norm and online settings"}
OUTSIDE = "several damaged bytes at once beyond the short settings; dimensions of more than 9 digits; a changed digit of a weight cannot be noticed"
ASSUMPTIONS = []
NM = ["perceptron", "ogd", "stg", "fobos-l1", "pet", "pa", "pa1", "pa2", "alma2", "rda", "rda-l1", "erda-l1", "sop", "cw", "eccw", "arow", "sofs", "ada-fobos", "ada-fobos-l1", "adafobos-ofs", "ada-rda", "ada-rda-l1", "adarda-ofs", "fofs"]
def jobs(tier):
    J = []
    def job(n, *a, t=200, opts=(), mode="fp"): J.append(dict(name=n, h="h_load.cc", src=["all"], mode=mode, args=list(a), time=t, reach=["done"], opts=["--preempt=0", *opts]))
    for k in range(26): job(f"fixed-{k}", 3, k, 0, 0, 0)
    for k in (1, 2): job(f"tiny-{k}", 2, k, 0, 0, 0)
    for w in range(1, 6):
        for k in (1, 2):
            if (k, w) != (2, 2) or tier != "quick": job(f"tiny-{k}-{w}", 2, k, w, 0, 0, t=200 if tier == "quick" else 2000)
    for a in range(24): job(f"cut-{NM[a]}", 0, a, 2, 0, -1)
    for a in (1, 12, 15, 21): job(f"cut-{NM[a]}-3", 0, a, 3, 0, -1)
    for lo in range(0, 280, 40): job(f"flip-ogd-{lo}", 1, 1, 2, lo, lo + 39)
    job("flip-arow-tail", 1, 15, 2, 215, -1)
    job("flip-sop-tail", 1, 12, 2, 215, -1)
    if tier == "thorough":
        job("tiny-3", 2, 3, 0, 0, 0, t=3000)
        for w in range(1, 6): job(f"tiny-3-{w}", 2, 3, w, 0, 0, t=3000)
        for a in (2, 9, 12, 13, 15, 20, 23):
            for lo in range(0, 480, 80): job(f"flip-{NM[a]}-{lo}", 1, a, 2, lo, lo + 79, t=2000)
    return J
