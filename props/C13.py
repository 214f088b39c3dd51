BOUNDS = {"scores": "arbitrary reals in [-1000,1000] ([-300,300] for the logistic losses), ties included", "classes": "1 score, and 2..4 classes (5 thorough); 10 and 13 classes with two or three arbitrary scores", "margins": "arbitrary in [0,100], set directly or by a handler"}
OUTSIDE = "single-precision rounding; scores beyond the ranges; labels outside the classes"
ASSUMPTIONS = ["arithmetic over exact reals; exp and log are functions known only to be the same for equal arguments"]
def jobs(tier):
    J = []
    def job(n, *a, t=120): J.append(dict(name=n, h="h_loss.cc", src=["loss", "pario"], mode="real", args=list(a), time=t, reach=["done", "loss"]))
    job("bool", 0, 0, 2, 0)
    for m in range(3): job(f"hinge-m{m}", 1, 0, 2, m)
    job("logistic", 2, 0, 2, 0)
    job("square", 3, 0, 2, 0)
    for v, n in ((1, "max"), (2, "uniform")):
        for cls in (3, 4) + ((5,) if tier == "thorough" else ()):
            t = 120 if cls < 5 else 2000
            job(f"{n}-bool-{cls}", 0, v, cls, 0, t=t)
            for m in range(3): job(f"{n}-hinge-{cls}-m{m}", 1, v, cls, m, t=t)
            job(f"{n}-logistic-{cls}", 2, v, cls, 0, t=t)
        for cls, few in ((10, 1), (13, 4)):   # many classes, two or three arbitrary scores
            job(f"{n}-bool-{cls}", 0, v, cls, 0, few)
            job(f"{n}-hinge-{cls}", 1, v, cls, 0, few)
            if n == "max": job(f"{n}-hinge-{cls}-m2", 1, v, cls, 2, few)
            job(f"{n}-logistic-{cls}", 2, v, cls, 0, few)
    return J
