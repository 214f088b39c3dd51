BOUNDS = {"files": "up to 2 files of up to 3 examples, up to 2 passes, batch sizes 1..3, buffers of 1..3 batches", "long": "1..2 files of up to 1300 examples of 0..40 features with the default batches of 256 and others, 1..3 passes, thread switches only where a thread waits; the numbers of examples within 4 of a multiple of the batch size and the contents at the batch edges chosen by the solver", "destruction": "after 0..2 batches, up to 2 files", "schedules": "every interleaving of the reader threads and the consumer at lock, wait, start and join operations; happens-before race detection with at most 1 pre-emption"}
OUTSIDE = "larger files and buffers; readers other than svm (see C02, C06); interleavings inside critical sections are covered through the absence of data races"
def jobs(tier):
    q = tier == "quick"
    T = 400 if q else 4000
    J = []
    H = dict(h="h_iter.cc", nosample=False, time=T, reach=["done"])
    for nf, n, p, bs, bn in ((1, 3, 1, 2, 1), (1, 2, 2, 1, 2), (2, 1, 1, 1, 1), (2, 1, 2, 2, 2), (1, 0, 1, 2, 2), (0, 0, 1, 2, 2), (1, 3, 2, 3, 2), (1, 2, 0, 1, 1)) + (() if q else ((2, 2, 2, 1, 2), (1, 5, 2, 2, 3), (2, 2, 1, 1, 3))):
        J.append(dict(H, name=f"all-f{nf}n{n}p{p}b{bs}x{bn}", args=[0, nf * 10 + n, p, bs * 10 + bn]))
    J.append(dict(H, name="all-any", args=[3, 12 if q else 22, 2, 22 if q else 32]))
    J.append(dict(H, name="early-any", args=[4, 1 if q else 2, 2, 2 if q else 3]))
    for n, k, bs, bn, nf in ((3, 0, 1, 1, 1), (3, 1, 1, 1, 1), (3, 1, 1, 2, 1), (2, 1, 1, 2, 2), (2, 0, 2, 2, 2), (3, 2, 1, 2, 1), (4, 1, 1, 3, 1)) + (() if q else ((3, 2, 1, 3, 2), (4, 2, 1, 2, 2))):
        J.append(dict(H, name=f"early-n{n}k{k}b{bs}x{bn}f{nf}", args=[1, n, k, bs * 100 + bn * 10 + nf]))
    for g, bs, bn in ((0, 2, 1), (2, 2, 2), (3, 2, 1)): J.append(dict(H, name=f"damaged-g{g}b{bs}x{bn}", args=[2, g, bs, bn]))
    for a in ([0, 12, 1, 12], [1, 3, 1, 121], [0, 21, 1, 11]):
        J.append(dict(H, name="race-" + "-".join(map(str, a)), args=a, opts=["--race", "--preempt=1", "--no-dedup"], nosample=True))
    L = dict(H, opts=["--preempt=0"])
    for nf, n, p, bs, bn, fmt in ((1, 1300, 2, 256, 2, 0), (2, 700, 1, 256, 2, 0), (1, 256, 2, 256, 2, 0), (1, 512, 1, 256, 2, 0), (2, 130, 2, 16, 3, 0), (1, 300, 3, 7, 1, 0), (1, 600, 1, 256, 2, 1)) + (() if q else ((1, 5000, 2, 256, 2, 0), (3, 700, 2, 256, 4, 0), (1, 2500, 1, 1000, 2, 0))):
        J.append(dict(L, name=f"long-f{nf}n{n}p{p}b{bs}x{bn}t{fmt}", args=[5, nf, n, p * 10 + bn, bs, fmt]))
    for nf, n, p, bs, bn, fmt in ((1, 258, 2, 256, 2, 0), (2, 514, 1, 256, 2, 0), (1, 34, 3, 16, 3, 0), (2, 258, 1, 256, 2, 1)):
        J.append(dict(L, name=f"edge-f{nf}n{n}p{p}b{bs}x{bn}t{fmt}", args=[6, nf, n, p * 10 + bn, bs, fmt]))
    return J
