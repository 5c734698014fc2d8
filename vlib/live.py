"""A copy of the package in a scratch directory, so that its live files are written there and nowhere else."""
from __future__ import annotations

import importlib
import os
import shutil
import sys
import tempfile
from pathlib import Path
from typing import Any, Dict, Optional

from vlib.core import REPO

PYI = "lazy_type_hint_live.pyi"


class Sandbox:
    """A fresh copy of the package, imported from a scratch directory. Create it in a worker (forked) process only."""

    def __init__(self) -> None:
        self.root = Path(tempfile.mkdtemp(prefix="verif-live-"))
        source = REPO / "lazy_type_hint"
        target = self.root / "lazy_type_hint"
        for path in sorted(source.rglob("*.py")):
            relative = path.relative_to(source)
            if "build" in relative.parts or "__pycache__" in relative.parts:
                continue
            (target / relative).parent.mkdir(parents=True, exist_ok=True)
            shutil.copyfile(path, target / relative)
        for name in [n for n in sys.modules if n == "lazy_type_hint" or n.startswith("lazy_type_hint.")]:
            del sys.modules[name]
        sys.path.insert(0, str(self.root))
        importlib.invalidate_caches()
        self.package = importlib.import_module("lazy_type_hint")
        assert str(Path(self.package.__file__).resolve()).startswith(str(self.root.resolve()))
        self.live_module = importlib.import_module("lazy_type_hint.generators.lazy_type_hint_live")
        self.folder = target / "generators"
        self.build = self.folder / "build"
        self.pyi = self.folder / PYI
        self.initial = self.snapshot()

    @property
    def Live(self) -> Any:
        return self.package.LazyTypeHintLive

    @property
    def Error(self) -> Any:
        return self.live_module.LazyTypeHintLiveError

    def strategies(self, config: Dict[str, Any]) -> Any:
        return self.package.ParsingStrategies(**config)

    def clean(self) -> None:
        """Back to the state without generated files (not relying on the code under test)."""
        shutil.rmtree(self.build, ignore_errors=True)
        if self.pyi.exists():
            self.pyi.unlink()

    def snapshot(self) -> Dict[str, bytes]:
        """Content of every file of the copied package."""
        out: Dict[str, bytes] = {}
        for path in sorted((self.root / "lazy_type_hint").rglob("*")):
            if path.is_file() and "__pycache__" not in path.parts:
                out[str(path.relative_to(self.root))] = path.read_bytes()
        return out

    def generated(self) -> Dict[str, bytes]:
        """Files that did not exist at the beginning, or have changed since then."""
        return {name: content for name, content in self.snapshot().items() if self.initial.get(name) != content}

    def modules(self) -> Dict[str, str]:
        """Content of the modules of the build folder."""
        if not self.build.exists():
            return {}
        return {
            str(path.relative_to(self.build)): path.read_text(encoding="utf-8")
            for path in sorted(self.build.rglob("*"))
            if path.is_file() and "__pycache__" not in path.parts
        }

    def close(self) -> None:
        sys.path.remove(str(self.root))
        shutil.rmtree(self.root, ignore_errors=True)


_current: Optional[Sandbox] = None


def open_sandbox() -> Sandbox:
    global _current
    _current = Sandbox()
    return _current


def sandbox() -> Sandbox:
    assert _current is not None
    return _current


def close_sandbox() -> None:
    global _current
    if _current is not None:
        _current.close()
        _current = None
