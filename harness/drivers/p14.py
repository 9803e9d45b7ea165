from harness.drivers.datah import run_p14 as run  # noqa
