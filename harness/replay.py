"""./check --replay FILE: execute the recorded violations again and validate them."""

import json
import os

import pipeline


def main(path):
    data = json.load(open(path))
    code = 0
    for k, v in enumerate(data[:5]):
        pipe = pipeline.Pipe(v["property"], "quick", v.get("seed", 1))
        try:
            task = v.get("task")
            if not task:
                print(f"{k}: no replayable history recorded: {json.dumps(v['event'])[:400]}")
                continue
            pipe.validator = v.get("validator", "TraceTree")
            pipe.admin = v.get("admin", False)
            pipe.task(task.get("model"), 1, db=v["db"], **{a: b for a, b in task.items() if a not in ("model", "deadline")})
            pipe.execute()
            clauses = sorted({c for x in pipe.violations for c in x["clauses"]})
            print(f"{k}: {v['model']} {json.dumps(v['history'])}: {'fails: ' + ', '.join(clauses) if clauses else 'holds now'}")
            code = code or bool(clauses)
        finally:
            pipe.pool.shutdown(wait=False, cancel_futures=True)
            pipe.scratch.close()
    return int(code)
