"""Random histories of Solver.tla."""
def steps(r, n, modes=False, calm=None):
    """Random networks driven by links that change their minds, near the tolerance and the limits."""
    N = r.randint(1, 4)
    mlim = r.choice([1, 2, 3, 5, 9])
    dlim = r.choice([1, 2, 3, 5, 9])
    nl = [r.random() < 0.7 for _ in range(N)]
    if r.random() < 0.15:
        nl = [False] * N
    t = [("Init", [N, r.choice([0, 1, 2, 4]), mlim, dlim] + nl)]
    calm = r.random() < 0.5 if calm is None else calm
    g = [r.choice([1, 2, 4]) for _ in range(N)]
    w = [4 * r.randint(-3, 6) for _ in range(N)]
    for _ in range(n):
        sor = r.choice([0, 0, 0, 0, 1, 2]) if modes else 0
        if modes and r.random() < 0.05:
            t.append(("Restart", []))
        t.append(("Begin", [r.choice([0, 0, 0, 1, 2]) if modes else 0, modes and r.random() < 0.1,
                            r.random() < (0.25 if modes else 0.05), sor, modes and r.random() < 0.15,
                            r.choice([0, 0, 1, 2])] + [4 * r.randint(-2, 5) for _ in range(N)]))
        island = t[-1][1][5]
        for k in range(max(mlim, 1)):
            a = []
            for i in range(N):
                if r.random() < (0.15 if calm else 0.4):
                    g[i] = r.choice([0, 1, 2, 4])
                if r.random() < (0.2 if calm else 0.6):
                    w[i] = w[i] + 4 * r.choice([-2, -1, 1, 1, 2])
                gi, wi = g[i], (0 if g[i] == 0 else w[i])
                # a matrix that cannot be decomposed
                if island == 0 and sor == 0 and i > 0 and r.random() < 0.004:
                    gi = -1
                vote = r.choice([1, 1, 1, 1, 2, 0]) if not calm else r.choice([1] * 8 + [2, 2, 0])
                a += [gi, wi, r.random() < 0.08, 4 * r.randint(-2, 6), vote, r.random() < 0.8]
            t.append(("Minor", a))
    return t
