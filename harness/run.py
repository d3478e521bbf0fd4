import sys
import core
sys.exit(core.main())
