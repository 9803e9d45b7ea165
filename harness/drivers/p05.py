from harness.drivers import batch
def run(): return batch.run("P05")
