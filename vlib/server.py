"""Child process with another hash seed that renders cases (one JSON per line) in the order it receives them."""
from __future__ import annotations

import json
import os
import subprocess
import sys
from typing import Any, Dict, Optional

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class OtherProcess:
    def __init__(self, hash_seed: int) -> None:
        environment = {**os.environ, "PYTHONHASHSEED": str(hash_seed)}
        self.process = subprocess.Popen(
            [sys.executable, os.path.join(HERE, "vlib", "server.py")],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=environment, text=True, encoding="utf-8",
        )

    def render(self, case: Dict[str, Any]) -> str:
        assert self.process.stdin and self.process.stdout
        self.process.stdin.write(json.dumps(case) + "\n")
        self.process.stdin.flush()
        line = self.process.stdout.readline()
        if not line:
            raise RuntimeError("the other process died")
        return str(json.loads(line))

    def close(self) -> None:
        if self.process.stdin:
            self.process.stdin.close()
        self.process.wait(10)


def serve() -> None:
    sys.path[0:0] = [HERE, os.environ.get("VERIF_REPO", "/repo")]
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    from vlib import api, gen
    from vlib.core import Violation

    out = sys.stdout
    sys.stdout = sys.stderr
    for line in sys.stdin:
        case = json.loads(line)
        try:
            answer = api.render(gen.build(case["data"]), case["config"], case["name"])
        except Violation as violation:
            answer = f"VIOLATION {violation}"
        out.write(json.dumps(answer) + "\n")
        out.flush()


if __name__ == "__main__":
    serve()
