"""The families of harnesses for the traversals: which levels the nodes of the abstract path
have, and where the smaller key leaves it (DESIGN.md, "Traversals")."""
from itertools import combinations

def paths(first, most):
    """levels of the nodes on a path that starts at one of `first` and ends at level 7"""
    out = []
    for f in first:
        if f == 7:
            out.append([7])
            continue
        inner = list(range(f + 1, 7))
        for n in range(0, len(inner) + 1):
            if n <= most or n == len(inner):
                out += [[f, *c, 7] for c in combinations(inner, n)]
    return out

def name(kind, p, s):
    return "%s_%s_%s" % (kind, "".join(map(str, p)), "n" if s == 9 else s)

def family(kind, first, lowest, most=2):
    """(name, levels, S) for every path and every S from `lowest` on, and 9: no second key"""
    return [(name(kind, p, s), p, s) for p in paths(first, most) for s in [*range(lowest, len(p)), 9]]

SCAN = {
    "Scan": family("scan", [0], 0),
    "Start": family("start", range(0, 7), 1),
    "End": family("end", range(0, 7), 1),
    "Copy": family("copy", range(1, 8), 0),
    "Dfs": family("dfs", [0], 0),
}
QUICK = set()
for kind, ps in [("scan", ["07", "017", "067", "037", "0257", "01234567"]), ("start", ["07", "67", "017", "0257", "01234567"]),
                 ("end", ["07", "67", "017", "0257", "01234567"]), ("dfs", ["07", "037", "0257", "01234567"]), ("copy", ["7", "17", "67", "257", "1234567"])]:
    for p in ps:
        d = len(p) - 1
        low = 1 if kind in ("start", "end") else 0
        for s in [9, low, d] if len(p) < 5 else [9, 3]:
            if s <= d or s == 9:
                QUICK.add(name(kind, [int(c) for c in p], s))

def tier(n):
    return "quick" if n in QUICK else "thorough"

def lines(kind):
    return "\n".join("    %s %s %d true;" % (n, p, s) for n, p, s in SCAN[kind])

if __name__ == "__main__":
    for k in SCAN:
        print(k, len(SCAN[k]), sum(tier(n) == "quick" for n, _, _ in SCAN[k]))
