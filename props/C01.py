BOUNDS = {"list length": "every list of <= 2 (quick) / <= 3 (thorough) indexes; lists of 100 and 300 (quick) / 3000 (thorough) indexes with a symbolic value at the first, a middle or the last place", "values": "every ascending 16/32/64-bit value (long lists: 400 resp. 70000 values, at the last place any value)", "output": "empty, or three arbitrary bytes before"}
OUTSIDE = "longer lists; long lists with more than one symbolic place"
def jobs(tier):
    n = 2 if tier == "quick" else 3
    J = [dict(name=f"u{16 << k}-n{m}", h="h_compress.cc", src=["none"], args=[m, k], time=120, reach=["done"]) for k in range(3) for m in range(0, n + 1)]
    J += [dict(name=f"u{16 << k}-n{m}-append", h="h_compress.cc", src=["none"], args=[m, k, 1], time=300, reach=["done"]) for k in range(3) for m in range(1, n)]
    J += [dict(name=f"u{16 << k}-long{m}-{w}", h="h_compress.cc", src=["none"], args=[m, k, 2 + i], time=300 if m < 1000 else 3000, reach=["done"]) for k in range(3) for m in (100, 300) + ((3000,) if tier != "quick" else ()) for i, w in enumerate(("first", "mid", "last"))]
    return J
