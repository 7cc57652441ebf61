"""Runs an assigned list of tasks in one process; results go to a JSON-lines file."""
import json
import os
import sys
import time
import traceback


def main():
    jobfile, outfile = sys.argv[1:3]
    job = json.load(open(jobfile))
    out = open(outfile, "w")

    def emit(d):
        out.write(json.dumps(d) + "\n")
        out.flush()

    from pbt import core, env

    env.add_hypothesis_path()
    try:
        mod = core.load_prop(job["prop"])  # imports nothing of the repository
        if hasattr(mod, "PREPARE"):
            mod.PREPARE()
    except Exception as e:  # noqa: BLE001
        emit(dict(kind="error", msg="".join(traceback.format_exception(e))[-4000:]))
        emit(dict(kind="done"))
        return
    try:
        env.import_repo()
    except RuntimeError:
        raise
    except Exception as e:  # noqa: BLE001
        emit(dict(kind="import", msg="importing dsps raised {0!r}".format(e)[:500]))
        emit(dict(kind="done"))
        return
    facets = {f.name: f for f in mod.FACETS}
    t_end = time.monotonic() + job["budget"]
    for t in job["tasks"]:
        f = facets[t["facet"]]
        if "case" in t:
            ctx = core.Ctx(job["tier"], 0)
            kind, msg = core.classify(f.run, t["case"], ctx)
            emit(dict(kind="case", task=t, status=kind, msg=msg))
            continue
        # leave every later task at least a share of what is left
        left = max(1.0, t_end - time.monotonic())
        res = core.drive(job["prop"], f, job["tier"], t["shard"], job["seed"], left * t["share"])
        res["kind"] = "facet"
        if core.MARGINS is not None:
            with open(os.environ["PBT_MARGINS"], "a") as h:
                for k, v in core.MARGINS.items():
                    h.write(json.dumps([job["prop"], t["facet"], k, v]) + "\n")
            core.MARGINS.clear()
        emit(res)
    emit(dict(kind="done"))


if __name__ == "__main__":
    main()
