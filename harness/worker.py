"""Executes scenarios on the real code and records what was observed.

Usage: worker.py IN OUT   (one scenario per line in, one record per line out)
"""

import importlib
import json
import os
import sys
import traceback
import warnings


def attempt(fn):
    """Returns (ok, result, error): errors of the code under check are observations."""
    try:
        return True, fn(), ""
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as e:  # XlaRuntimeError etc.
        tb = traceback.extract_tb(e.__traceback__)
        where = f"{os.path.basename(tb[-1].filename)}:{tb[-1].lineno}" if tb else ""
        return False, None, f"{type(e).__name__} {str(e)[:200]} @{where}"


def main():
    path_in, path_out = sys.argv[1:3]
    warnings.filterwarnings("ignore")
    with open(path_in) as f:
        scenarios = [json.loads(line) for line in f]
    with open(path_out, "w") as out:
        for s in scenarios:
            out.write(json.dumps({"start": s["id"]}) + "\n")
            out.flush()
            module = importlib.import_module(f"harness.{s['executor']}")
            record = module.execute(s)
            record["id"] = s["id"]
            record.setdefault("trace_module", module.TRACE)
            out.write(json.dumps(record) + "\n")
            out.flush()


if __name__ == "__main__":
    main()
