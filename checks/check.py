import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import runner, allchecks
sys.exit(runner.main(allchecks.CHECKS))
