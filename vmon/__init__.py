from .core import scenario, Violation, Mon, Skip  # noqa: F401
