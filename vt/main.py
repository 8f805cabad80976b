import sys
from vt.core import main
sys.exit(main(sys.argv[1:]))
