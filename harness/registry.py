import importlib

from registry_types import Property

PROPERTIES: dict[str, Property] = {}
for _m in ("pure", "stream", "session", "devices", "events", "more", "extra", "tcp"):
    try:
        _mod = importlib.import_module(_m)
    except ModuleNotFoundError as e:
        if e.name != _m:
            raise
        continue
    for _v in vars(_mod).values():
        if isinstance(_v, Property):
            PROPERTIES[_v.id] = _v
