from harness.drivers.datah import run_p15 as run  # noqa
