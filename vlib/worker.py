"""Executes jobs sent on stdin, one JSON per line; answers one JSON per line."""
import importlib
import json
import os
import sys
import traceback


def maps():
    try:
        with open("/proc/self/maps") as f:
            return sum(1 for _ in f)
    except OSError:
        return 0


def main():
    prop, tier, seed = sys.argv[1], sys.argv[2], int(sys.argv[3])
    out = os.fdopen(os.dup(1), "w")
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)  # smolgp prints warnings to stdout
    import jax
    jax.config.update("jax_enable_x64", True)
    import warnings
    warnings.simplefilter("ignore")
    import smolgp
    repo = os.path.realpath(os.environ["SMOLGP_REPO"])
    assert os.path.realpath(smolgp.__file__).startswith(repo + os.sep), smolgp.__file__
    from vlib import core
    mod = importlib.import_module(f"vlib.checks.{prop.lower()}")
    out.write(json.dumps({"ready": 1}) + "\n")
    out.flush()
    for line in sys.stdin:
        msg = json.loads(line)
        job = msg["job"]
        ctx = core.Ctx(prop, tier, seed, job, msg.get("case"))
        ans = {}
        try:
            mod.run(job, ctx)
            ans = ctx.result()
        except core.EnvError as e:
            ans = {"env": str(e)[:300]}
        except Exception as e:  # noqa: BLE001
            if core.is_env(e):
                ans = {"env": str(e)[:300]}
            elif isinstance(e, core.SutError):
                ctx.violate("raises", str(e))
                ans = ctx.result()
            else:
                ans = {"error": traceback.format_exc()[-2000:]}
        ans["maps"] = m = maps()
        out.write(json.dumps(ans) + "\n")
        out.flush()
        if m > 25000:
            jax.clear_caches()
            if maps() > 22000:
                return


if __name__ == "__main__":
    main()
