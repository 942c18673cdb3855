#!/usr/bin/env python3-vt
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bbv.runner import main
sys.exit(main())
