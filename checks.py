from vklib import Job
CHECKS = {}
def j(h, covers=(), label="", **p):
    if h in ("h_str", "h_int"): p.setdefault("P", 0)
    if h == "h_file": p.setdefault("E", 0)
    return Job(h, params=p, covers=covers, label=label)
def c02(tier):
    out = []; q = tier == "quick"
    N = 5 if q else 7
    for T in range(10):
        for F in range(7):
            out.append(j("h_int", ["ok", "end", "invalid"], T=T, F=F, N=N, W=0, M=0))
    for T in (2, 8):
        for F in (7, 8, 9, 10): out.append(j("h_int", ["ok", "end", "invalid"], T=T, F=F, N=N, W=0, M=0))
    for T, P in ((2, 6), (8, 13), (1, 8)) if q else [(T, P) for T in (0, 2, 3, 8) for P in (4, 6, 7, 8, 9, 13, 14, 15, 16)]: out.append(j("h_int", ["ok", "end", "invalid"], T=T, F=0, N=4 if q else 6, W=0, M=0, P=P))
    for T, F, N in [(3, 0, 17), (3, 0, 18), (7, 0, 10), (8, 2, 17), (8, 3, 17), (3, 4, 12)] + ([] if tier == "quick" else [(T, F, N) for T in range(10) for F in (0, 2, 3, 4) for N in (8, 9, 15, 16, 19, 24)]):
        out.append(j("h_int", ["ok"], T=T, F=F, N=N, W=0, M=2))
    return out
CHECKS["C02"] = {"jobs": c02, "bounds": {}, "assumptions": []}

BITS = [7, 15, 31, 63, 63, 8, 16, 32, 64, 64]
def c03(tier):
    """Digit strings around the length at which the type overflows, up to several digits beyond 64 bits."""
    import math
    out = []
    for T in range(10):
        for F, b in ((0, 10), (2, 10), (3, 16), (4, 8), (5, 2), (6, 10)):
            d = math.ceil(BITS[T] / math.log2(b))     # digits of the maximum
            top = {10: 24, 16: 20, 8: 26, 2: 39}[b] if tier == "quick" else 39
            ns = sorted({d, d + 1, min(d + 2, 39), top, 20 if b == 10 else d, 21 if b == 10 else d}) if tier == "quick" else range(max(1, d - 1), 40)
            if b == 2 and BITS[T] > 38: ns = [30, 39, BITS[T], BITS[T] + 1]
            for N in ns:
                cov = []
                mx = 2**BITS[T] - (0 if T > 4 else 1)
                if F != 6 or True:
                    if b ** N - 1 > mx: cov.append("overflow")
                out.append(j("h_int", cov, T=T, F=F, N=N, W=0, M=1))
    for T in (2, 3, 8): out.append(j("h_int", ["ok"], T=T, F=0, N=11, W=1, M=1)); out.append(j("h_int", ["overflow"], T=T, F=0, N=21, W=1, M=1))
    return out
CHECKS["C03"] = {"jobs": c03, "bounds": {}, "assumptions": []}
SETS = range(3, 16)
def c07(tier):
    out = []
    q = tier == "quick"
    for F in range(0, 3):
        for V in (0, 1): out.append(j("h_str", ["ok", "end", "ill"], F=F, N=8 if q else 10, V=V, W=0, D=0))
        for V in (0, 1): out.append(j("h_str", ["ok", "end"], F=F, N=4 if q else 5, V=V, W=1, D=0))
    for P in (5, 8, 15, 37, 40) if q else list(range(1, 18)) + list(range(33, 50)):      # words and whitespace longer than a search chunk
        for V in (0, 1): out.append(j("h_str", ["ok", "ill"], F=0, N=4 if q else 5, V=V, W=0, D=0, P=P))
        out.append(j("h_str", ["ok", "ill"], F=0, N=2, V=0, W=1, D=0, P=P))
    for F in (3, 5, 9):
        for P in (6, 8): out.append(j("h_str", ["ok", "ill"], F=F, N=4 if q else 5, V=F % 2, W=0, D=0, P=P))
    for F in SETS:
        for V in (0, 1): out.append(j("h_str", ["ok", "none"], F=F, N=7 if q else 8, V=V, W=0, D=0))
        for V in (0, 1): out.append(j("h_str", ["ok", "none"], F=F, N=3 if q else 4, V=V, W=1, D=0))
    def w(A, N, M, R=0, W=0, PM=4): out.append(Job("h_width", params=dict(T=8, A=A, F=0, N=N, M=M, R=R, WM=0, PM=PM), covers=("ok",), defs=("-DVK_C=wchar_t",) if W else (), label="h_width[%s,T=8,A=%d,N=%d,M=%d,R=%d,PM=%d]" % ("wide" if W else "narrow", A, N, M, R, PM)))
    w(0, 6 if q else 8, 0, PM=7); w(0, 3 if q else 4, 2); w(0, 6, 0, R=1, PM=7); w(0, 3, 2, R=1); w(0, 3, 1, W=1)
    for K in range(30):   # sets with symbolic members
        for I in (0, 1):
            def t(N, M, V=0, R=0, W=0): out.append(Job("h_set", params=dict(K=K, I=I, N=N, M=M, V=V, R=R, X=0), covers=("ok", "none"), defs=("-DVK_C=wchar_t",) if W else (), label="h_set[%s,K=%d,I=%d,N=%d,M=%d,V=%d,R=%d]" % ("wide" if W else "narrow", K, I, N, M, V, R)))
            big = K in (4, 12, 13, 18, 19, 23, 26, 28, 29)
            if not q:
                t(2 if big else 3, 2); t(2, 1, V=1); t(2, 1, R=1); t(2, 1, W=1)
            elif big: t(1, 1, V=K % 2) if I == K // 3 % 2 else t(1, 1, R=1) if K != 29 else None
            else: t(2, 1, V=K // 2 % 2) if I == K % 2 else t(1, 1, W=1); t(1, 1, R=1) if I == K % 2 else None
    return out
CHECKS["C07"] = {"jobs": c07, "bounds": {}, "assumptions": []}
def misc(K, F, N, W=0, M=0, cov=()): return j("h_misc", cov, K=K, F=F, N=N, W=W, M=M)
INTF = (3, 4, 5, 6, 7, 8)
def c12(tier):
    q = tier == "quick"; N = 6 if q else 7; out = []
    for F in (0, 1, 3, 4, 5, 6, 7, 8, 10): out.append(misc(0, F, N, cov=("ok", "end", "invalid")))
    for F in (0, 1, 3): out.append(misc(0, F, 5, W=1, cov=("ok", "end", "invalid")))
    return out
CHECKS["C12"] = {"jobs": c12, "bounds": {}, "assumptions": []}
def c13(tier):
    q = tier == "quick"; N = 5 if q else 6; out = []
    for F in (0, 2, 10):
        out.append(misc(1, F, N, cov=("ok", "end")))
        for K in (2, 3): out.append(misc(K, F, N, cov=("ok", "end", "invalid")))
        out.append(misc(2, F, 4, W=1, cov=("ok", "end"))); out.append(misc(3, F, 4, W=1, cov=("ok", "end", "invalid")))
    for F in INTF + (11, 12):
        for K in (1, 2): out.append(misc(K, F, N, cov=("ok", "invalid") + (("overflow",) if K == 1 and F not in (7, 12) else ())))
        out.append(misc(2, F, 4, W=1, cov=("ok", "invalid")))
    return out
CHECKS["C13"] = {"jobs": c13, "bounds": {}, "assumptions": []}
def c15(tier):
    q = tier == "quick"; N = 5 if q else 7; out = []
    for K in (4, 5):
        for F in (0, 9, 10):
            out.append(misc(K, F, N, cov=("ok", "end", "invalid")))
            out.append(misc(K, F, 4, W=1, cov=("ok", "end", "invalid")))
            for n in ((16, 17) if q else range(8, 24)): out.append(misc(K, F, n, M=1, cov=("ok",)))
        out.append(misc(K, 0, 17, W=1, M=1, cov=("ok",)))
    return out
CHECKS["C15"] = {"jobs": c15, "bounds": {}, "assumptions": []}
def hs(F, N, V=0, W=0, D=0, cov=()): return j("h_str", cov, F=F, N=N, V=V, W=W, D=D)
def c08(tier):
    q = tier == "quick"; out = []
    for V in (0, 1): out.append(hs(0, 8 if q else 10, V=V, cov=("ok", "ill")))
    out.append(hs(0, 7 if q else 9, D=1, cov=("ok", "ill")))
    for V in (0, 1): out.append(hs(0, 4 if q else 5, V=V, W=1, cov=("ok", "ill")))
    out.append(hs(0, 3 if q else 4, W=1, D=1, cov=("ok", "ill")))
    for F in (4, 6, 7, 8, 9, 10, 13):
        out.append(hs(F, 7 if q else 8, cov=("ok", "ill")))
        out.append(hs(F, 7 if q else 8, V=1, cov=("ok", "ill")))
        out.append(hs(F, 6 if q else 7, D=1, cov=("ok", "ill")))
        out.append(hs(F, 3, W=1, cov=("ok", "ill"))); out.append(hs(F, 3, W=1, D=1, cov=("ok", "ill")))
    for K in (2, 3): out.append(misc(K, 0, 6, cov=("ok", "invalid"))); out.append(misc(K, 2, 6, cov=("ok", "invalid")))
    out.append(misc(3, 0, 3, W=1, cov=("ok", "invalid")))
    return out
CHECKS["C08"] = {"jobs": c08, "bounds": {}, "assumptions": []}
def c09(tier):
    q = tier == "quick"; out = []
    for F in (0, 1, 2): out.append(hs(F, 7 if q else 9, D=1, cov=("ok",))); out.append(hs(F, 4 if q else 5, W=1, D=1, cov=("ok",)))
    for F in range(3, 16):
        out.append(hs(F, 6 if q else 8, D=1, cov=("ok", "none"))); out.append(hs(F, 3 if q else 4, W=1, D=1, cov=("ok", "none")))
    for K in (2, 3):
        for F in (0, 2, 10): out.append(misc(K, F, 6, cov=("ok", "end")))
    for F in (0, 2): out.append(misc(3, F, 3, W=1, cov=("ok", "end")))
    return out
CHECKS["C09"] = {"jobs": c09, "bounds": {}, "assumptions": []}
def c04(tier):
    """Every base: any short text; digit strings around the overflow length; the unchecked variant on every representable text."""
    import math
    q = tier == "quick"; out = []
    bases = [0] + list(range(2, 37))
    for i, b in enumerate(bases):
        for T in ((2, (8, 3, 0, 6, 9, 1, 5, 7, 4)[i % 9]) if q else range(10)):
            out.append(j("h_scanint", ["ok", "end", "invalid"], T=T, B=b, N=4 if q else 5, M=0))
            d = math.ceil(BITS[T] / math.log2(b or 10))
            if True:
                for N in ((d, d + 1) if q else range(max(1, d - 1), d + 3)): out.append(j("h_scanint", ["overflow"] if N > d else [], T=T, B=b, N=N, M=1))
    for T in range(10):
        d = math.ceil(BITS[T] / math.log2(10))
        for N in range(1, d + 4): out.append(j("h_scanint", ["ok"], T=T, B=10, N=N, M=2))
    return out
CHECKS["C04"] = {"jobs": c04, "bounds": {}, "assumptions": []}

NCASES = 37
def c05(tier):
    q = tier == "quick"; out = []
    for K in range(NCASES):
        for R in (0, 1): out.append(j("h_src", ["ok", "error"] if K not in (30, 32) else ["ok"], K=K, N=(6 if K < 33 else 5 if K == 33 else 4) if q else (8 if K < 33 else 6), R=R, W=0))
        out.append(j("h_src", ["ok", "error"] if K not in (30, 32) else ["ok"], K=K, N=(3 if K < 33 else 2) if q else (4 if K < 33 else 3), R=0, W=1))
    return out
CHECKS["C05"] = {"jobs": c05, "bounds": {}, "assumptions": []}
def c06(tier):
    q = tier == "quick"; out = []
    for K in range(NCASES): out.append(j("h_file", ["ok", "error"] if K not in (30, 32) else ["ok"], K=K, K2=99, N=(5 if K < 33 else 4) if q else 6, B=0))
    for K, K2 in ((0, 0), (1, 26), (2, 0), (5, 0), (0, 1), (26, 7), (18, 1), (4, 16)): out.append(j("h_file", ["ok", "error"], K=K, K2=K2, N=4 if q else 5, B=0))
    for K in (0, 1, 2, 4, 7): out.append(j("h_file", ["ok", "error"], K=K, K2=99, N=4 if q else 6, B=1))
    for K in (40, 41): out.append(j("h_file", ["ok", "error"], K=K, K2=99, N=K - 36, B=0))
    out.append(j("h_file", ["ok", "error"], K=40, K2=1, N=4, B=0))
    for E in (1, 2, 4, 5):
        for K in (0, 2, 4, 10, 15) if q else [k for k in range(NCASES) if k not in (30, 31, 32)]: out.append(j("h_file", ["ok", "error"], K=K, K2=99, N=4 if q else 5, B=0, E=E))
        out.append(j("h_file", ["ok", "error"], K=0, K2=1, N=3 if q else 5, B=0, E=E))
    for E in (3, 6):
        for K in (0, 1, 5, 6, 11, 13, 25, 26): out.append(j("h_file", ["ok", "error"], K=K, K2=99, N=4 if q or K == 5 else 5, B=0, E=E))
        out.append(j("h_file", ["ok", "error"], K=0, K2=1, N=3 if q else 5, B=0, E=E))
    return out
CHECKS["C06"] = {"jobs": c06, "bounds": {}, "assumptions": []}

def c10(tier):
    q = tier == "quick"; out = []
    def l(A, N, M, W=0): out.append(j("h_lit", ["ok", "format", "mismatch"], A=A, N=N, M=M, W=W))
    l(0, 4 if q else 5, 4 if q else 5); l(0, 3, 3 if q else 4, 1); l(0, 6 if q else 8, 2)
    for A in (1, 2, 3): l(A, 4 if q else 5, 2 if q else 3); l(A, 3, 1 if q else 2, 1)
    return out
CHECKS["C10"] = {"jobs": c10, "bounds": {}, "assumptions": []}

def c17(tier):
    q = tier == "quick"; out = []
    def c(P, Q, I, N, T=0, W=0): out.append(Job("h_comp", params=dict(P=P, Q=Q, I=I, N=N, T=T), covers=("error",) if Q == 5 and P in (1, 4, 5) else ("ok", "error"), defs=("-DVK_C=wchar_t",) if W else (), label="h_comp[%s,P=%d,Q=%d,I=%d,N=%d,T=%d]" % ("wide" if W else "narrow", P, Q, I, N, T)))
    for P in range(9):
        for Q in range(9):
            c(P, Q, (P + Q) % 3, 4 if q else 5)
            if not q:
                for I in range(3):
                    if I != (P + Q) % 3: c(P, Q, I, 5)
    for P, Q, I in ((0, 1, 0), (1, 2, 1), (0, 0, 2), (3, 0, 0), (5, 2, 2)): c(P, Q, I, 5, 1)
    for P, Q, I in ((0, 1, 0), (1, 0, 1), (2, 0, 2), (3, 2, 0), (4, 1, 1), (5, 2, 0), (6, 0, 0), (7, 1, 0), (8, 8, 2)): c(P, Q, I, 3 if q else 4, 0, 1)
    return out
CHECKS["C17"] = {"jobs": c17, "bounds": {}, "assumptions": []}

def c21(tier):
    q = tier == "quick"; out = []
    def c(A, K, N, R=0, W=0): out.append(Job("h_conv", params=dict(A=A, K=K, N=N, R=R), covers=("ok", "error"), defs=("-DVK_C=wchar_t",) if W else (), label="h_conv[%s,A=%d,K=%d,N=%d,R=%d]" % ("wide" if W else "narrow", A, K, N, R)))
    n = 5 if q else 7
    for R in (0, 1):
        for A in (0, 1, 4):
            for K in range(7 if A == 4 else 22):
                if K == 15 and R: continue
                c(A, K, n if K < 7 else 4 if q else 6, R)
                if K in (17, 20): continue
                c(A, K, 5 if K == 3 else 3 if K != 16 or not q else 2 - R, R, 1)
        for A in (2, 3):
            for K in range(11): c(A, K, n, R); c(A, K, 5 if K == 3 else 3, R, 1)
        c(5, 0, 6 if q else 7, R); c(5, 0, 5, R, 1)
        for A in (6, 7, 8): c(A, 0, 5, R); c(A, 0, 3, R, 1)
    return out
CHECKS["C21"] = {"jobs": c21, "bounds": {}, "assumptions": []}

def c20(tier):
    q = tier == "quick"; out = []
    unit = (2, 17, 18, 22, 24, 25, 26, 34)     # a char is one code unit: only ASCII compares
    for K in range(NCASES):
        cov = ["ok"] if K in (20, 30, 32) else ["ok", "error"]
        if K in unit: out.append(j("h_wide", cov, K=K, N=5 if q else 6, M=0)); continue
        out.append(j("h_wide", cov, K=K, N=4 if q else 5, M=1 if q else 2))
        if not q: out.append(j("h_wide", cov, K=K, N=7, M=0))
    return out
CHECKS["C20"] = {"jobs": c20, "bounds": {}, "assumptions": []}

def c11(tier):
    q = tier == "quick"; out = []
    def w(T, A, F, N, M, R=0, W=0, WM=3, PM=4): out.append(Job("h_width", params=dict(T=T, A=A, F=F, N=N, M=M, R=R, WM=WM, PM=PM), covers=("ok", "error"), defs=("-DVK_C=wchar_t",) if W else (), label="h_width[%s,T=%d,A=%d,F=%d,N=%d,M=%d,R=%d,WM=%d,PM=%d]" % ("wide" if W else "narrow", T, A, F, N, M, R, WM, PM)))
    for T in range(9):
        for A in range(4):
            unit = T == 2                                                                    # a narrow char is one code unit: ASCII text only
            w(T, A, 1 if A else 0, 4 if q else 6, 0, PM=4 if q else 6)                       # ASCII text, any ASCII fill
            w(T, A, 0, 4 if q else 5, 0, R=1, WM=2)                                          # forward range
            if not unit:
                w(T, A, 0, 3, 1 if q else 2)                                                 # any well-formed text
                w(T, A, 0, 3, 1, R=1, WM=2, PM=3)
                if A:
                    for F in (2, 3): w(T, A, F, 3 if q else 4, 8, WM=4, PM=4 if q else 5)    # fill of two and four bytes, one and two columns wide
                    if not q:
                        for F in (2, 3): w(T, A, F, 2, 2, WM=4, PM=4)
                        w(T, A, 4, 3, 2, WM=2, PM=3); w(T, A, 3, 3, 2, R=1, WM=2, PM=3)
            w(T, A, 1 if A else 0, 2 if q and T in (0, 6) else 3, 1, W=1, WM=2, PM=3)                        # wide sources
            if A: w(T, A, 4, 2 if q else 3, 1, W=1, WM=2, PM=3); w(T, A, 3, 3, 8, W=1, WM=4, PM=4)
    return out
CHECKS["C11"] = {"jobs": c11, "bounds": {}, "assumptions": []}

SHAPE_REV = {2: 1, 3: 1, 4: 1, 7: 1, 8: 1, 9: 1, 10: 0, 11: 0, 12: 1, 13: 0, 14: 0, 15: 0, 16: 1, 17: 0, 20: 0, 21: 1, 22: 1, 23: 1, 26: 1, 27: 0}   # shapes in which a range can be reversed
def c16(tier):
    q = tier == "quick"; out = []
    def f(T, F, L, I, W=0, cov=("valid", "invalid")): out.append(Job("h_fmt", params=dict(T=T, F=F, L=L, I=I), covers=cov, defs=("-DVK_C=wchar_t",) if W else (), label="h_fmt[%s,T=%d,F=%d,L=%d,I=%d]" % ("wide" if W else "narrow", T, F, L, I)))
    one = ("invalid",)
    for T in range(13):
        if T in (7, 9, 11): f(T, 1, 4 if q else 5, 1, cov=one)
        else: f(T, 1, 4 if q else 5, 0); f(T, 1, 3, 1) if T != 5 else None
        f(T, 1, 3 if q else 4, 0, W=1, cov=one if T in (7, 9, 11) else ("valid", "invalid"))
        f(T, 0, 4 if q else 5, 0, cov=("valid", "invalid") if T not in (7, 11) else ("valid", "invalid") if not q else ("valid", "invalid"))
        f(T, 0, 3, 0, W=1, cov=one if T in (7, 11) else ("valid", "invalid"))
        f(T, 2, 2, 2 if T in (7,) else 0, cov=("valid", "invalid") if T in (0, 7) else one)
    f(7, 3, 3 if q else 4, 3); f(11, 3, 3 if q else 4, 3); f(7, 3, 2, 3, W=1)
    for N in (63, 64, 65, 66, 73, 80) if q else (62, 63, 64, 65, 66, 70, 72, 73, 80, 90):
        for A in (0, 1) if q else (0, 1, 2): out.append(Job("h_many", params=dict(A=A), covers=("valid", "invalid"), defs=("-DVK_N=%d" % N,), label="h_many[N=%d,A=%d]" % (N, A)))
    for K in (2, 7, 10, 14, 21) if q else (2, 3, 4, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 21, 22, 23, 26, 27):   # ranges in sets
        for W in (0, 1): out.append(Job("h_set", params=dict(K=K, I=K % 2, N=1, M=0, V=0, R=0, X=1), covers=("valid", "invalid") if SHAPE_REV[K] else ("valid",), defs=("-DVK_C=wchar_t",) if W else (), label="h_set[%s,K=%d,X=1]" % ("wide" if W else "narrow", K)))
    return out
CHECKS["C16"] = {"jobs": c16, "bounds": {}, "assumptions": []}

def c01(tier):
    q = tier == "quick"; out = []
    def a(G, K, N, L=0, R=0, W=0, cov=("ok", "error")): out.append(Job("h_any", params=dict(G=G, K=K, N=N, L=L, R=R), covers=cov, defs=("-DVK_C=wchar_t",) if W else (), label="h_any[%s,G=%d,K=%d,N=%d,L=%d,R=%d]" % ("wide" if W else "narrow", G, K, N, L, R)))
    for K in range(NCASES):
        cov = ["ok"] if K in (20, 30, 32) else ["ok", "error"]
        for R in (0, 1, 2): a(0, K, (7 if K < 33 else 5) if q else (9 if K < 33 else 7), R=R, cov=cov)
        a(0, K, (3 if K < 33 else 2) if q else (4 if K < 33 else 3), W=1, cov=cov)
    for T in range(11):
        cov = ["error"] if T in (8, 9) else ["ok", "error"]
        for R in (0, 1):
            if T == 10 and R: continue
            a(1, T, 2 if q else 3, 2 if q else 3, R=R, cov=cov); a(3, T, 1, 3 if q else 4, R=R, cov=["ok", "error"] if T != 8 else cov)
            if T not in (8, 9):
                a(2, T, 4 if q else 5, 1, R=R, cov=cov); a(2, T, 1 if q else 2, 2 if q else 3, R=R, cov=cov)
                if not q: a(2, T, 3, 4, R=R, cov=cov)
        a(1, T, 1, 2, W=1, cov=cov); 
        if T not in (8, 9): a(2, T, 1 if q else 3, 1, W=1, cov=cov)
    return out
CHECKS["C01"] = {"jobs": c01, "bounds": {}, "assumptions": []}

def c14(tier):
    q = tier == "quick"; out = []
    def f(T, F, N, M=0, R=0, W=0, P=0, cov=("ok", "invalid")): out.append(Job("h_float", params=dict(T=T, F=F, N=N, M=M, R=R, P=P), covers=cov, defs=("-DVK_C=wchar_t",) if W else (), label="h_float[%s,T=%d,F=%d,N=%d,M=%d,R=%d,P=%d]" % ("wide" if W else "narrow", T, F, N, M, R, P)))
    for T in (0, 1, 2):
        for F in range(7):
            f(T, F, 5 if q else 7); f(T, F, 5 if q else 6, R=1); f(T, F, 3 if q else 4, W=1)
        for P in (1, 3, 4): f(T, 7, 6 if q else 7, P=P); f(T, 7, 5, P=P, R=1)
        for R in (0, 1):
            for F in ((0, 2) if q else (0, 2, 4)): f(T, F, 2 if q else (2, 3, 4)[T], M=1, R=R, P=2 if q else 5, cov=("ok", "range"))
            for F in (0, 1): f(T, F, 2 if q else (3, 4, 5)[T], M=2, R=R, P=2 if q else 5, cov=("ok", "range"))
        for R in (0, 1): f(T, 0, 6 if q else 10, M=3, R=R, cov=("ok",)); f(T, 0, 0, M=4, R=R, cov=("ok",)); f(T, 3, 0, M=4, R=R, W=1, cov=("ok",))
    return out
CHECKS["C14"] = {"jobs": c14, "bounds": {}, "assumptions": []}

def c19(tier):
    q = tier == "quick"; out = []
    def c(K, N, M, R): out.append(Job("h_ranges", params=dict(K=K, N=N, M=M, R=R), covers=("ok", "error"), label="h_ranges[K=%d,N=%d,M=%d,R=%d]" % (K, N, M, R)))
    for K in range(13):
        for R in (0, 1):
            c(K, (8 if K == 5 else 7) if q else 8, 0, R); c(K, 3 if q else 4, 1, R)
    return out
CHECKS["C19"] = {"jobs": c19, "bounds": {}, "assumptions": []}

def c18(tier):
    q = tier == "quick"; out = []
    def c(T, K, N, M, R=0, W=0, cov=("ok", "error")): out.append(Job("h_chrono", params=dict(T=T, K=K, N=N, M=M, R=R), covers=cov, defs=("-DVK_C=wchar_t",) if W else (), label="h_chrono[%s,T=%d,K=%d,N=%d,M=%d,R=%d]" % ("wide" if W else "narrow", T, K, N, M, R)))
    for T in (0, 1, 2):
        for K in range(40):
            cov = ("format",) if (T == 0 and K in (16, 32)) or (T == 1 and K == 32) else ("ok", "error")
            for R in ((K + T) % 2,) if q else (0, 1):
                if cov[0] == "ok": c(T, K, 5 if q else 6, 0, R, cov=("error",) if K in (17, 18, 20, 21, 22, 23, 24, 31, 33, 35, 36, 38, 39, 25) else cov)
                c(T, K, 3 if q else 4, 1, R, cov=cov)
            if T == K % 3 or not q: c(T, K, 2, 1, K % 2, 1, cov=cov)
        for K in range(6): c(T, K, 3, 2, cov=("format",)); c(T, K, 2, 2, W=1, cov=("format",))
    for T in (10, 11):   # time points
        for K in (40, 41, 17, 0, 1, 5, 26): c(T, K, 1 if K == 40 and q else 2, 1, (K + T) % 2)
        for K in (42, 12, 7, 22): c(T, K, 2, 1, K % 2, cov=("error",))
        c(T, 40, 1, 1, 0, 1)
    # the calendar types, with formats that set them and formats that do not
    for T, good, wrong in ((3, (10, 11, 12), (2, 0)), (4, (2,), (12, 37)), (5, (1, 13), (0, 37)), (6, (0, 8, 9, 26, 27), (1, 36)), (7, (37, 33), (1, 2, 17)), (8, (36,), (0, 17)), (9, (17, 20, 23, 39), (36, 22))):
        for K in good: c(T, K, 3, 1, K % 2); c(T, K, 2, 1, 1 - K % 2, 1)
        for K in wrong: c(T, K, 1, 1, K % 2, cov=("format",))
        c(T, 0, 2 if q else 3, 2, cov=("format",)); c(T, 3, 2 if q else 3, 2, cov=("format",))
    return out
CHECKS["C18"] = {"jobs": c18, "bounds": {}, "assumptions": []}

def c23(tier):
    q = tier == "quick"; out = []
    def c(K, G, N, R=0, W=0, S=0, cov=("ok", "error")): out.append(Job("h_loc", params=dict(K=K, G=G, N=N, R=R, S=S), covers=cov, defs=("-DVK_C=wchar_t",) if W else (), label="h_loc[%s,K=%d,G=%d,N=%d,R=%d,S=%d]" % ("wide" if W else "narrow", K, G, N, R, S)))
    for K in range(11):
        flt = 2 <= K <= 5 or K >= 9
        for G in (0, 1) if K < 6 or K > 8 else (0,):
            for R in (0, 1):
                if R == 0 or K < 9: c(K, G, ((4 if K in (2, 5) and G else 5) if q else 6), R)
            c(K, G, (2 if flt else 3) if q else (3 if flt else 4), 0, 1, cov=("error",) if q and K in (4, 9) else ("ok", "error"))
    for S in range(4):
        for R in (0, 1): c(16, 0, 2, R, 0, S, cov=("ok",)); c(16, 0, 1, R, 1, S, cov=("ok",))
    for S in range(10):
        for K in range(11, 16):
            if K == 14 and S == 3 or K in (11, 12, 15) and S == 6: continue
            c(K, 1, 0, S % 2 if q else 0, 0, S, cov=())
            if K in (11, 13): c(K, 1 - S % 2, 0, 0, S % 3 == 0, S, cov=())
    return out
CHECKS["C23"] = {"jobs": c23, "bounds": {}, "assumptions": []}

def c24(tier):
    q = tier == "quick"; out = []
    for K in range(16):
        for R in (0, 1):
            for F in (0, 1, 2): out.append(Job("h_istream", params=dict(K=K, N=8 if q else 11, R=R, F=F), covers=("ok",) if F == 2 and K in (1, 5, 8, 10) else ("ok", "error"), label="h_istream[narrow,K=%d,R=%d,F=%d]" % (K, R, F)))
        if K < 11:
            for F in (0, 1, 2): out.append(Job("h_istream", params=dict(K=K, N=4 if q else 6, R=(K + F) % 2, F=F), covers=("ok",) if F == 2 and K in (1, 5, 8, 10) else ("ok", "error"), defs=("-DVK_C=wchar_t",), label="h_istream[wide,K=%d,F=%d]" % (K, F)))
    return out
CHECKS["C24"] = {"jobs": c24, "bounds": {}, "assumptions": []}

def c22(tier):
    q = tier == "quick"; out = []
    for K in range(40):
        for T in range(3):
            if K in (15, 20) and T < 2: continue           # back-references need captures
            for F in (0, 1): out.append(Job("h_regex", params=dict(K=K, N=6 if q else 8, R=0, F=F, T=T), covers=("format",) if K >= 30 else ("ok",) if K in (3, 11, 24) or (K == 7 and T == 2) else ("ok", "error"), label="h_regex[K=%d,T=%d,F=%d]" % (K, T, F)))
    for T in (0, 2): out.append(Job("h_regex", params=dict(K=0, N=3, R=1, F=0, T=T), covers=("error",), label="h_regex[R=1,T=%d]" % T))
    return out
CHECKS["C22"] = {"jobs": c22, "bounds": {}, "assumptions": []}

