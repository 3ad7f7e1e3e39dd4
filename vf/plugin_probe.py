"""
Run in a process of its own against a copy of the package to which files were
added: tells what the chain, the configuration and the fitter factory see.
usage: plugin_probe.py SPEC.json RESULT.json
"""
import contextlib
import json
import os
import sys
import traceback


def main(spec_path, result_path):
    with open(spec_path) as f:
        spec = json.load(f)
    sys.path[:0] = spec["path"]
    result = {}
    try:
        with open(os.devnull, "w") as sink, contextlib.redirect_stdout(sink):
            result["ok"] = probe(spec)
    except Exception:
        result["error"] = traceback.format_exc()[-2000:]
    with open(result_path, "w") as f:
        json.dump(result, f)


def probe(spec):
    import numpy as np
    import yaml
    import CHECLabPy
    from CHECLabPy.core.chain import WaveformReducerChain
    from CHECLabPy.core.factory import SpectrumFitterFactory
    from CHECLabPy.scripts import generate_dl1_config
    out = dict(package=os.path.dirname(os.path.abspath(CHECLabPy.__file__)))
    wf = np.random.RandomState(spec["seed"]).normal(
        size=(2, 64)).astype(np.float32)
    out["max"] = wf.max(1).astype(float).tolist()

    def process(**kw):
        got = WaveformReducerChain(2, 64, **kw).process(wf)
        return {k: np.asarray(v, float).tolist() for k, v in got.items()
                if np.size(v) in (1, 2)}

    # the reducers that need a reference pulse are of no interest here
    off = {c: False for c in ("t_cc", "charge_cc", "height_cc")}
    out["default"] = process(**off)
    out["enabled"] = process(**off, **{c: True for c in spec["on"]})
    only = spec["config"] + ".only.yml"
    with open(only, "w") as f:
        yaml.safe_dump({c: True for c in spec["on"]}, f)
    out["only"] = process(config_path=only)
    out["generated"] = {}
    for bare in (False, True):
        sys.argv = ["generate_dl1_config", "-o", spec["config"]]
        if bare:
            sys.argv.append("--bare")
        generate_dl1_config.main()
        with open(spec["config"]) as f:
            out["generated"][str(bare)] = f.read()
    out["from_file"] = process(config_path=spec["config"], **off)
    out["fitters"] = list(SpectrumFitterFactory.subclass_names)
    out["produced"] = {}
    for name in spec["fitters"]:
        fitter = SpectrumFitterFactory.produce(name, spec["n"])
        out["produced"][name] = [type(fitter).__name__,
                                 fitter.n_illuminations]
    for name in spec["not_fitters"]:
        try:
            SpectrumFitterFactory.produce(name, spec["n"])
        except KeyError:
            pass
        else:
            out["produced"][name] = "was produced"
    return out


if __name__ == "__main__":
    main(*sys.argv[1:])
