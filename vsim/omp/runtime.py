"""The simulated OpenMP runtime, seen from Python."""
import ctypes
import subprocess

lib = None
_names = {}


def load(path):
    global lib
    lib = ctypes.CDLL(str(path))
    u64, i32, u32 = ctypes.c_uint64, ctypes.c_int, ctypes.c_uint32
    lib.sim_config.argtypes = [u64, i32, i32, u32, u32, i32, u64, u64, u64, u64]
    lib.sim_config.restype = None
    lib.sim_stats.argtypes = lib.sim_races.argtypes = lib.sim_trace.argtypes = None


STATS = ("regions", "events", "switches", "races", "barriers", "shares", "maxteam", "stalls", "shrunk", "single_regions", "digest")
ALL = 2**64 - 1


def config(seed=0, team=1, vary=False, prob=0.0, hot=0.0, stall=-1, regions=(0, ALL), events=(0, ALL)):
    q = lambda p: min(65536, int(p * 65536))  # noqa: E731
    lib.sim_config(seed % 2**64, team, int(vary), q(prob), q(hot), stall, regions[0], regions[1], events[0], events[1])


def stats():
    out = (ctypes.c_uint64 * len(STATS))()
    lib.sim_stats(out)
    return dict(zip(STATS, map(int, out)))


def _symbol(obj, off):
    if obj not in _names:
        syms = []
        try:
            out = subprocess.run(["nm", "-C", "--defined-only", obj], stdout=subprocess.PIPE, text=True).stdout
            for line in out.splitlines():
                a, t, n = line.split(None, 2)
                if t in "tT":
                    syms.append((int(a, 16), n))
        except (OSError, ValueError):
            pass
        _names[obj] = sorted(syms)
    best = None
    for a, n in _names[obj]:
        if a > off:
            break
        best = n
    return best or hex(off)


def races():
    out = (ctypes.c_uint64 * (8 * 32))()
    n = lib.sim_races(out, 32)
    res = []
    for k in range(n):
        region, fn, pc1, pc2, t1, t2, w1, w2 = (int(v) for v in out[8 * k : 8 * k + 8])
        buf = ctypes.create_string_buffer(1024)
        obj = buf.value.decode() if lib.sim_race_object(k, buf, 1024) and buf.value else ""
        obj = buf.value.decode()
        res.append(dict(region=region, function=_symbol(obj, fn), module=obj.rsplit("/", 1)[-1].split(".")[0], threads=[t1, t2], kinds=["write" if w1 else "read", "write" if w2 else "read"]))
    return res


def trace(n=200):
    """The executed switches: (region, event, from, to)."""
    out = (ctypes.c_uint64 * (4 * n))()
    k = lib.sim_trace(out, n)
    return [tuple(int(v) for v in out[4 * j : 4 * j + 4]) for j in range(k)]
