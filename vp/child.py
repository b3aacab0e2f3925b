"""Run one scenario in a fresh process: python -m vp.child spec.json out.npz [option=value ...]"""
import json
import logging
import sys
import warnings


def main():
    job = json.loads(open(sys.argv[1]).read())
    out = sys.argv[2]
    opt = job.get("opt", {})
    warnings.simplefilter("ignore")
    tracer = None
    if opt.get("pracer"):
        from vp import pracer as tracer

        tracer.install(opt["pracer"], opt.get("seed", 1), trace=opt.get("trace", True))
    import numpy as np

    np.seterr(all="ignore")
    import openamundsen  # noqa: F401

    if tracer is not None and opt.get("trace", True):
        tracer.proxy_numpy()
    logging.getLogger("openamundsen").setLevel(logging.CRITICAL)
    from vp import trace
    from vp.scenario import Scenario

    sc = Scenario(job["dir"], job["spec"])
    m = sc.init_model(**opt.get("over", {}))
    data = {}
    keep = set(opt.get("steps", []))
    n = opt.get("max_steps") or len(m.dates)
    for k in range(n):
        m.run_single()
        if k in keep or k == n - 1:
            for v, a in trace.snapshot(m).items():
                data[f"{k}|{v}"] = a
    np.savez(out, **data)
    info = {"n": n}
    if tracer is not None:
        info.update(races=sorted(tracer.RACES.values()), counts=tracer.COUNTS, kernels=sorted(tracer.KERNELS))
    print("VPCHILD " + json.dumps(info))


if __name__ == "__main__":
    main()
