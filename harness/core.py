"""Vocabulary shared by the property modules."""
from __future__ import annotations

import dataclasses
import hashlib
import json
from typing import Any, Callable


class Violation(AssertionError):
    """The observed behaviour contradicts the property."""


class Recorder:
    """Collects what one case exercised."""

    def __init__(self):
        self.labels: set[str] = set()
        self.nontrivial_flag = False

    def label(self, *names: str) -> None:
        self.labels.update(names)

    def nontrivial(self, cond: bool = True) -> None:
        if cond:
            self.nontrivial_flag = True


@dataclasses.dataclass
class Facet:
    """One generated check: a strategy of JSON specs and an oracle over them."""

    name: str
    strategy: Any
    check: Callable[[Any, Recorder], None]
    quick: int = 100
    thorough: int = 3000
    rule: str = ""


def canon(spec: Any) -> str:
    return json.dumps(spec, sort_keys=True)


def digest(spec: Any) -> str:
    return hashlib.sha1(canon(spec).encode()).hexdigest()[:16]


def require(cond, msg: str, *args) -> None:
    if not cond:
        raise Violation(msg % args if args else msg)
