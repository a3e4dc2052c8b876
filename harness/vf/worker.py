"""Runs one driver over a shard of inputs, one line per finished input."""

import importlib
import json
import sys
import traceback


def main():
    module, fin, fout = sys.argv[1:4]
    mod = importlib.import_module("vf." + module)
    with open(fin) as f, open(fout, "w") as out:
        for line in f:
            i, inp = json.loads(line)
            out.write(json.dumps(["B", i, None]) + "\n")
            out.flush()
            try:
                rec = mod.run(inp)
            except MemoryError:
                raise
            except Exception as e:
                # The real code raised where it must not, or returned something
                # that is not what its interface promises.
                traceback.print_exc()
                tb = traceback.extract_tb(e.__traceback__)
                where = next((f"{t.filename.rsplit('/', 1)[-1]}:{t.lineno}"
                              for t in reversed(tb) if "differt2d" in t.filename), "")
                rec = {"err": f"{type(e).__name__} at {where}".replace('"', "'").replace("|", "/")[:200],
                       "kind": inp.get("kind", "")}
            out.write(json.dumps(["R", i, rec]) + "\n")
            out.flush()


if __name__ == "__main__":
    main()
