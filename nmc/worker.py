"""Executes cases of one property against the real library; one per line."""
import importlib
import json
import os
import sys
import traceback
import warnings


def main():
    prop, tier, seed, rfd, wfd = (sys.argv[1], sys.argv[2], int(sys.argv[3]),
                                  int(sys.argv[4]), int(sys.argv[5]))
    rf = os.fdopen(rfd, "r")
    wf = os.fdopen(wfd, "w")
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    import _nmtlib
    import pymaster
    from nmc import REPO
    want = os.environ.get("NMC_BUILD")
    assert os.path.dirname(_nmtlib.__file__) == want, _nmtlib.__file__
    assert pymaster.__file__.startswith(REPO + "/"), pymaster.__file__
    from nmc.ctx import Ctx
    mod = importlib.import_module("nmc.props." + prop.lower())
    if hasattr(mod, "setup_worker"):
        mod.setup_worker(tier, seed)
    wf.write(json.dumps({"ready": 1}) + "\n")
    wf.flush()
    for line in rf:
        case = json.loads(line)
        ctx = Ctx(case, tier, seed)
        try:
            mod.run(case, ctx)
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if "/pymaster/" in f.filename]
            ctx.fail("exception:%s" % type(e).__name__,
                     "unexpected exception %r in %s\n%s" % (
                         e, where[-1].name if where else "harness",
                         traceback.format_exc()[-900:]))
        wf.write(json.dumps(ctx.result(), default=str) + "\n")
        wf.flush()


if __name__ == "__main__":
    main()
