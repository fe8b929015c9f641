"""Random histories of the networks of Network.tla."""
import random


def topology(r, N, L):
    t, cfg = [], [N, L]
    for _ in range(L):
        k = r.choice([1, 1, 1, 1, 2, 3, 4])
        a = r.randint(0, N)
        b = r.choice([x for x in range(N + 1) if x != a])
        cfg += [k, a, b]
        t.append(k)
    return t, cfg


def history(r, n, nodes=(2, 5), links=(3, 9), moves=0.1, caps=0.15, sparse=False, overrides=True, modes=(0, 1, 2)):
    N = r.randint(*nodes)
    L = r.randint(*links)
    kind, cfg = topology(r, N, L)
    out = [("Init", cfg)]
    G = [0, 100, 200, 400] if sparse else [50, 100, 100, 200, 200, 300, 400, 70, 130, 0]
    for l in range(1, L + 1):
        if kind[l - 1] != 3:
            out.append(("Conduct", [l, r.choice(G)]))
    out.append(("Island", [r.choice(modes)]))
    for _ in range(n):
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            l = r.randint(1, L)
            x = r.random()
            if x < 0.3 and kind[l - 1] != 3:
                out.append(("Conduct", [l, r.choice(G)]))
            elif x < 0.45 and kind[l - 1] in (2, 3):
                out.append(("Source", [l, r.randint(-2, 3)]))
            elif x < 0.5 and kind[l - 1] != 4:
                out.append(("Block", [l, r.randint(0, 1), r.choice([0, 50, 100])]))
            elif x < 0.5 + moves:
                out.append(("SetPort", [l, r.choice([0, 1, 0, 1, 0, 1, -1, 2]), r.choice(list(range(N + 1)) * 2 + [-1, N + 1])]))
            elif x < 0.5 + 2 * moves:
                out.append(("UserPort", [l, r.choice([1, 1, 2, 3, 3, 0, -1]), r.choice([0, 1, 0, 1, -1, 2]),
                                         r.choice(list(range(N + 1)) * 2 + [-1, N + 1])]))
            elif x < 0.5 + 2.2 * moves:
                out.append(("Lock", [l, r.randint(0, 1)]))
            elif x < 0.85 and r.random() < caps * 3:
                out.append(("Request", [r.randrange(N), r.choice([1, 2])]))
            elif x < 0.88:
                out.append(("Island", [r.choice(modes)]))
            elif x < 0.91 and overrides and kind[l - 1] != 4:
                out.append(("Override", [l, r.randint(0, 1), 1, r.randint(-3, 3)] if r.random() < 0.4
                            else [l, r.choice([-1, 0, 1]), 0, 0]))
            elif x < 0.92:
                out.append(("Restart", []))
        out.append(("Step", [r.choice([1, 1, 1, 2])]))
    return out


def all_graphs(n):
    """One history that visits every graph on n nodes (and some links to the ground), one toggle at a time."""
    pairs = [(a, b) for a in range(n) for b in range(a + 1, n)]
    cfg = [n, len(pairs) + 1]
    for a, b in pairs:
        cfg += [1, a, b]
    cfg += [1, 0, n]
    out = [("Init", cfg), ("Conduct", [len(pairs) + 1, 100]), ("Island", [2])]
    for i in range(1, 2 ** len(pairs)):
        g, old = i ^ (i >> 1), (i - 1) ^ ((i - 1) >> 1)
        bit = (g ^ old).bit_length() - 1
        out += [("Conduct", [bit + 1, 100 if g >> bit & 1 else 0]), ("Step", [1])]
    return out
