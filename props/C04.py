BOUNDS = {"long lines": "4 shapes of symbolic tails after 60 or 600 fixed entries", "arbitrary lines": "every line of up to 5 bytes (quick) / 6 bytes (thorough) over all byte values except NUL", "templates": "26 line shapes of up to 30 characters in which every digit, separator and selected bytes are symbolic"}
OUTSIDE = "lines with an embedded NUL byte; values with more than 7 decimals or exponents above 30; rounding of the value to single precision (values are exact reals here, compared to 1e-6 relative); meaning of fractional or exponent-form labels and indexes"
def jobs(tier):
    q = tier == "quick"
    J = [dict(name=f"any{n}{'nl' if nl else ''}", h="h_text.cc", mode="real", args=[0, n, nl], time=400 if q else 6000, reach=["eof"] if n + nl == 0 else []) for n in range(0, 6 if q else 7) for nl in (0, 1) if not (q and n == 5 and not nl)]
    J += [dict(name=f"tpl{k}", h="h_text.cc", mode="real", args=[1, k], time=400, reach=["done"]) for k in range(26)]
    for nf, k in ((60, 0), (60, 1), (60, 2), (60, 3), (600, 0), (600, 1), (600, 3)):
        J.append(dict(name=f"long-{nf}-{k}", h="h_text.cc", mode="real", args=[6, 0, nf, k], time=400, reach=["done"]))
    return J
