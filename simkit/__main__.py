import sys
from simkit.engine import main
sys.exit(main())
