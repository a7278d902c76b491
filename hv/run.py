import sys
from .harness import main
sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "quick",
              sys.argv[3] if len(sys.argv) > 3 else None))
