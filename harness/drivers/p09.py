from harness.drivers import disp
def run(): return disp.run("P09")
