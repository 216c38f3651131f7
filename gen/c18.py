"""C18, second half: emitted collections around the capacity and table-sizing limits."""
import c15

BOUND = "code emission at 127/128/129, 254..257, 999..1001 entries (thorough: 3000, 65534..65537) for hash, ordered, scalar (dense, sparse, scattered) and string collections, compiled and queried"


def explore(d, tier):
    return c15.explore(d, tier, prop="C18", args=("--sizes",), bound=BOUND, tag="s")
