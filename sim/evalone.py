"""Evaluate one expression in a new interpreter (used by C08)."""
import sys, os, pickle
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import world
world.load()
import oracles_model, oracles_io
defs, e = pickle.loads(sys.stdin.buffer.read())
out = world.pristine(defs, e)
sys.stdout.buffer.write(pickle.dumps(out))
sys.stdout.flush()
os._exit(0)
