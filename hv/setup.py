"""setup_cmd: prove that everything the checks build can be built here."""
from . import build
print(build.build_all(False))
print(build.build_all(True))
