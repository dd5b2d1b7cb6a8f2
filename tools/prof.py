"""Where a check spends its time: tools/prof.py C08 [examples]"""
import cProfile, importlib, pstats, sys
sys.path.insert(0, "/verif")
from lib import runner
m = importlib.import_module("checks." + sys.argv[1].lower())
n = int(sys.argv[2]) if len(sys.argv) > 2 else 100
stats = runner.Stats()
p = cProfile.Profile()
p.enable()
print(runner.explore(m, 5, n, 1000, stats))
p.disable()
print(stats.evaluations, len(stats.nontrivial))
pstats.Stats(p).sort_stats("cumulative").print_stats(45)
