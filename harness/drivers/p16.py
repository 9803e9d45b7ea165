from harness.drivers.datah import run_p16 as run  # noqa
