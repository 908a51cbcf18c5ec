from __future__ import annotations

from dataclasses import dataclass, field


@dataclass
class Property:
    id: str
    rule: str
    facets: list
    assumptions: list = field(default_factory=list)
