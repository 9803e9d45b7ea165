"""Stand-in for the compiled extension: only what module imports need. Asking for an optimised
update raises ModuleNotFoundError, which makes the models use their Python implementation."""


def clear_screen():
    return None


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise ModuleNotFoundError(f"esat_rust.{name} is not available")
