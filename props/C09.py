BOUNDS = {"numpy": "0..3 rows of up to 3 columns, arbitrary entries in [-1000,1000], zeros included, row padding, with and without labels", "csr": "up to 3 rows of up to 3 entries over 4 columns in any order, arbitrary values", "many": "300 and 700 rows, default batches, four arbitrary entries, the others fixed", "passes": "two passes (Rewind) and the C interface with its reader thread"}
OUTSIDE = "arrays beyond 2^31 bytes; column strides other than the element size; non-integral labels; duplicate columns in a csr row"
ASSUMPTIONS = ["values are exact reals: rounding of double to single precision is not part of the claim"]
def jobs(tier):
    q = tier == "quick"
    J = []
    def job(n, *a, src="pario", t=200, opts=()): J.append(dict(name=n, h="h_mem.cc", src=["all"], mode="real", args=list(a), time=t, reach=["done"], opts=list(opts)))
    for r, c in ((0, 2), (1, 0), (1, 3), (2, 2), (3, 1)) + (() if q else ((3, 2), (2, 3))): job(f"numpy-{r}x{c}", 0, r, c, 0, t=200 if q else 2000)
    job("numpy-2x2-pad", 0, 2, 2, 100)
    job("numpy-1x2-nolabel", 0, 1, 2, 10)
    for r, c in ((0, 2), (1, 34), (2, 23), (3, 12)) + (() if q else ((2, 34), (3, 23))): job(f"csr-{r}x{c}", 1, r, c, 0, t=200 if q else 2000)
    job("csr-2x23-nolabel", 1, 2, 23, 10)
    job("csr-2x23-slice", 1, 2, 23, 200)
    job("numpy-api", 0, 2, 1, 1, opts=["--preempt=0"])
    job("csr-api", 1, 2, 12, 1, opts=["--preempt=0"])
    for k in (0, 1):
        for r, c, api in ((700, 3, 0), (700, 3, 1), (300, 11, 0)): job(f"{['numpy', 'csr'][k]}-many-{r}x{c}-{api}", 2 + k, r, c, api, opts=["--preempt=0"])
    return J
