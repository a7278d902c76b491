"""pytest plugin: run /repo's own tests against the natively built modules."""
from . import inject

inject.install()
