"""Worker process: explores one shard of one property's bounded space."""
import importlib
import json
import logging
import os
import sys
import threading
import time
import traceback
import warnings


def follow_parent():
    """end with the process that started this one"""
    parent = os.getppid()

    def watch():
        while os.getppid() == parent:
            time.sleep(2.0)
        os._exit(3)

    threading.Thread(target=watch, daemon=True).start()


def main():
    follow_parent()
    work = sys.argv[1]
    with open(os.path.join(work, "job.json")) as f:
        job = json.load(f)
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    import numpy as np

    np.seterr(all="ignore")
    from mc.core import Context

    ctx = Context(work, job)
    mod = importlib.import_module(f"mc.props.{job['prop'].lower()}")
    try:
        mod.explore(ctx, job["shard"])
    except ctx.Stop:
        pass
    except Exception:  # raised outside a case: a valid set-up request failed
        ctx.violations.append(
            dict(case=ctx.last_case, message="set-up failed\n" + traceback.format_exc())
        )
    ctx.finish()


if __name__ == "__main__":
    main()
