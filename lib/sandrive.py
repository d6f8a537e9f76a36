"""Runs circuits given as JSON lines on a sanitized build of the bindings, one answer per line: what came out or was thrown, and object counts."""
from __future__ import annotations

import ctypes
import gc
import json
import sys

so, verif = sys.argv[1], sys.argv[2]
sys.path.insert(0, verif)
import pathlib  # noqa: E402

import numpy as np  # noqa: E402

from lib import boot, sut  # noqa: E402

boot.activate(pathlib.Path(so))
from mqt.qudits._qudits.misim import state_vector_simulation  # noqa: E402
from mqt.qudits.simulation.noise_tools import Noise, NoiseModel, SubspaceNoise  # noqa: E402

from types import SimpleNamespace  # noqa: E402


def noise_model(spec):  # noqa: ANN001, ANN201
    m = NoiseModel()
    for depo, deph, gates, mode in spec or []:
        n = Noise(depo, deph)
        if isinstance(mode, list):
            m.add_quantum_error_locally(n, gates) if mode == ["local"] else m.quantum_errors.update({g: {**m.quantum_errors.get(g, {}), tuple(mode): n} for g in gates})
        elif mode == "subspace":
            m.add_quantum_error_locally(SubspaceNoise(depo, deph, (0, 1)), gates)
        else:
            for g in gates:
                m.quantum_errors.setdefault(g, {})[mode] = n
    return m


def counts(objs):  # noqa: ANN001, ANN201
    return [sys.getrefcount(o) for o in objs]


HEAP = getattr(ctypes.CDLL(None), "__sanitizer_get_current_allocated_bytes", None)
if HEAP is not None:
    HEAP.restype = ctypes.c_size_t


def heap(circ, model, times):  # noqa: ANN001, ANN201
    """Bytes still allocated after running again and again."""
    left = []
    for _ in range(times):
        try:
            state_vector_simulation(circ, model)
        except Exception:  # noqa: BLE001, S110
            pass
        gc.collect()
        left.append(HEAP())
    return left


for line in sys.stdin:
    case = json.loads(line)
    try:
        circ = sut.build(case["spec"])
        for path, value in case.get("spoil", []):  # what Python code can put there
            g = circ.instructions[path[0]] if path[0] is not None else circ
            setattr(g, path[1], SimpleNamespace(**value) if isinstance(value, dict) else value)
        model = noise_model(case.get("noise"))
    except Exception as e:  # noqa: BLE001
        print("N " + json.dumps([type(e).__name__, str(e)[:150]]), flush=True)
        continue
    gc.collect()
    held = [circ, model, model.quantum_errors, circ.instructions, circ._dimensions]  # noqa: SLF001
    for g in circ.instructions:
        held += [g, g._params, g._target_qudits, g._dimensions, g._controls_data]  # noqa: SLF001
    held = [h for h in held if h is not None and not isinstance(h, (int, str, float))]
    before = counts(held)
    out = None
    try:
        out = state_vector_simulation(circ, model)
        v = np.array(out)
        res = [len(out), float(np.linalg.norm(v)), bool(np.all(np.isfinite(v))), sys.getrefcount(out) - 1, max([sys.getrefcount(out[i]) for i in range(len(out))], default=2) - 1]
        if case.get("state"):
            res += [v.real.tolist(), v.imag.tolist()]
        ans = "R " + json.dumps(res)
    except Exception as e:  # noqa: BLE001
        ans = "E " + json.dumps([type(e).__name__, str(e)[:150]])
        e = None
    sys.exc_info()
    del out
    after = counts(held)
    lost = [str(type(h).__name__) for h, a, b in zip(held, before, after) if a != b]
    grown = heap(circ, model, case["repeat"]) if case.get("repeat") and HEAP is not None else []
    print(ans + "\t" + json.dumps(lost) + "\t" + json.dumps(grown), flush=True)
