"""setup_cmd: verify the tool chain (imports) and that the engines own the randomness."""
import os
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, '/repo')
import numpy as np
import scipy.stats
from mc import core, rng, zoo

with rng.active(rng.Const(.25)) as e:
    assert np.all(np.random.rand(4) == .25)
    assert abs(scipy.stats.norm.rvs(size=3)[0] - scipy.stats.norm.ppf(.25)) < 1e-6
    assert np.random.default_rng().uniform(size=2)[0] == .25
assert not np.all(np.random.rand(4) == .25)
os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
print('selftest ok')
