"""Generation of runs that save their results, and of disk faults."""
from __future__ import annotations

from . import noisyrun

KINDS = ["enospc", "enospc", "eio", "eio", "eacces", "short", "torn"]
KILLS = ["kill_before", "kill_after", "kill_mid"]


def gen_run(rng, big=0.15):
    be = rng.choice(["tnsim", "misim"])
    large = rng.random() < big
    full = rng.random() < 0.5
    if full and large:
        c, nz = noisyrun.gen_case(rng, be, rng.randint(1, 2), total=120, dmax=5)
    elif large or rng.random() < 0.05:
        full = False
        c, nz = noisyrun.gen_wide(rng, be, rng.choice([600, 3000]))
    else:
        c, nz = noisyrun.gen_case(rng, be, rng.randint(1, 3), total=12)
    return {"backend": be, "circuit": c, "noise": nz, "shots": rng.choice([50, 50, 63, 100]) if not (large and not full) else rng.choice([100, 1000]),
            "full": full, "name": rng.choice(["res.h5", "res", "r e s.h5", ".hidden"])}


def gen_faults(rng, kinds, n_max=3, horizon=30):
    out = []
    for _ in range(rng.choice([1, 1, 1, 2, n_max])):
        out.append({"at": rng.choice([0, 1, 2, rng.randint(0, 8), rng.randint(0, horizon)]), "kind": rng.choice(kinds),
                    "frac": rng.choice([0.0, 0.3, 0.5, 0.99])})
    return out
