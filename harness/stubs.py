"""Stand-ins for the data-platform libraries the sandbox lacks (never exercised by the checks)."""
import importlib.util
import sys
import types
from unittest import mock


def absent(name):
    try:
        return importlib.util.find_spec(name) is None
    except (ImportError, ValueError):
        return True


class _Mod(types.ModuleType):
    __path__ = []

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        v = mock.MagicMock(name=f"{self.__name__}.{n}")
        setattr(self, n, v)
        return v


def install(*names):
    for n in names:
        top = n.split(".")[0]
        if top in sys.modules and not isinstance(sys.modules[top], _Mod) or (top not in sys.modules and not absent(top)):
            continue
        parts = n.split(".")
        for i in range(len(parts)):
            full = ".".join(parts[: i + 1])
            if full not in sys.modules:
                sys.modules[full] = _Mod(full)
                if i:
                    setattr(sys.modules[".".join(parts[:i])], parts[i], sys.modules[full])


install("petastorm", "petastorm.pytorch", "pyspark", "pyspark.sql", "pyspark.sql.functions", "pyspark.sql.types", "pyspark.ml", "pyspark.ml.linalg")
