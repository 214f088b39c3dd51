BOUNDS = {"threads": "up to 2 producers and 2 consumers (3 threads besides the main one)", "elements": "up to 4 per producer with arbitrary contents, end marks at arbitrary places, capacities 1..3", "schedules": "every interleaving of lock, wait, wake-up, start and join operations, up to 1 spurious wake-up per run", "races": "happens-before race detection on all schedules with at most 1 pre-emption"}
OUTSIDE = "more threads or elements; interleavings inside critical sections are covered through the absence of data races (race jobs); Windows and std::thread variants of Mutex/Monitor"
def jobs(tier):
    q = tier == "quick"
    H = dict(h="h_queue.cc", src=["none"], nosample=False)
    J = []
    for P, C, n, cap in ((1, 1, 4, 1), (1, 1, 4, 2), (1, 1, 3, 3), (2, 1, 2, 1), (1, 2, 4, 1), (2, 2, 1, 1), (2, 1, 2, 2)) + (() if q else ((2, 2, 2, 1), (2, 2, 2, 2), (1, 2, 6, 2), (2, 1, 3, 1))):
        J.append(dict(H, name=f"p{P}c{C}n{n}cap{cap}", args=[0, P, C, n * 10 + cap], time=300 if q else 3000, reach=["done"], opts=["--spurious=1"]))
    for f, n, cap, num in ((0, 4, 2, 2), (1, 4, 1, 2), (1, 5, 2, 3), (0, 5, 1, 3), (1, 4, 2, 2)):
        J.append(dict(H, name=f"list-f{f}n{n}cap{cap}num{num}", args=[1, f, n, cap * 10 + num], time=300, reach=["done"], opts=["--spurious=1"]))
    for cap in (1, 2): J.append(dict(H, name=f"forced2-cap{cap}", args=[2, cap], time=300, reach=["done"], opts=["--spurious=1"]))
    for p, g, c in ((3, 2, 3), (2, 2, 2), (0, 0, 1)): J.append(dict(H, name=f"owned{p}{g}{c}", args=[3, p, g, c], reach=["done"]))
    J.append(dict(H, name="observed", args=[4, 2, 1], time=300, reach=["done"]))
    for cfg, mask, num in ((1221, 1, 1), (1222, 1, 1), (1242, 1, 2), (1242, 0x11, 2), (1242, 0x31, 2), (2122, 1, 2), (2122, 3, 2), (2121, 0x13, 3), (2222, 1, 1), (2222, 0x22, 2), (1241, 0x30, 2), (2122, 0x10, 2)) + (() if q else ((2222, 0x13, 2), (2222, 0x33, 2), (2242, 1, 2), (3122, 5, 2), (1331, 1, 1))):
        J.append(dict(H, name=f"mixed{cfg}-{mask:x}-{num}", args=[5, cfg, mask, num], time=300 if q else 3000, reach=["done"], opts=["--spurious=1"]))
    for a in ([0, 2, 2, 11], [0, 1, 1, 31], [1, 1, 4, 22], [2, 1], [4, 2, 1]):
        J.append(dict(H, name="race-" + "-".join(map(str, a)), args=a, time=300, reach=["done"], opts=["--race", "--preempt=1", "--no-dedup"], nosample=True))
    return J
