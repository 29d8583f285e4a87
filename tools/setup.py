"""Nothing is compiled: checks import /repo directly. Only verifies that what the checks need is there."""
import os, sys
sys.path[:0] = ['/repo']
sys.path.append('/opt/venv/lib/python3.12/site-packages')
sys.dont_write_bytecode = True
import hypothesis
import scarletio
print('hypothesis', hypothesis.__version__, 'scarletio', scarletio.__version__, 'python', sys.version.split()[0])
os._exit(0)
