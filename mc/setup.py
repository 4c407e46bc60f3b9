"""setup_cmd: nothing is built (pure Python); check that the interpreter and
the code under test can be imported."""
from . import env

print("python and pyNTM at %s are usable" % env.REPO)
