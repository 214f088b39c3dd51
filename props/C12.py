BOUNDS = {"values": "arbitrary reals, ties included", "sizes": "3..5 values, heap size 1..4 (quick); up to 6 values, heap size 5 (thorough); 12 to 64 values, heap size 7 to 32 with most values fixed and one or two arbitrary", "histories": "BuildHeap, then up to two value changes with UpdateHeap, then HeapSort"}
OUTSIDE = "more values; NaN values (no order); a heap size of 0 (callers test it first)"
ASSUMPTIONS = ["values are compared as exact reals"]
def jobs(tier):
    J = []
    def job(n, *a, t=150): J.append(dict(name=n, h="h_heap.cc", src=["none"], mode="real", args=list(a), time=t, reach=["done", "selected"]))
    for k in (0, 1):
        nm = ["keep-largest", "keep-smallest"][k]
        job(f"{nm}-4-1", k, 4, 1, 12)
        job(f"{nm}-4-2", k, 4, 2, 12)
        job(f"{nm}-4-3", k, 4, 3, 11)
        job(f"{nm}-3-3", k, 3, 3, 14)
        job(f"{nm}-5-3", k, 5, 3, 8, t=300)
        job(f"{nm}-5-4", k, 5, 4, 0, t=300)
        job(f"{nm}-4-2-rebuild", k, 4, 2, 4)
        for n, kk, how, few in ((40, 17, 10, -1), (40, 17, 13, -1), (40, 17, 8, -1), (33, 32, 12, -1), (64, 31, 15, -1), (12, 7, 0, 1)): job(f"{nm}-{n}-{kk}-{how}-few", k, n, kk, how, few)
        if tier == "thorough":
            job(f"{nm}-5-3-ops", k, 5, 3, 12, t=3000)
            job(f"{nm}-5-4-sort", k, 5, 4, 8, t=3000)
            job(f"{nm}-6-5", k, 6, 5, 0, t=3000)
    return J
