import sys
import boot  # first: puts the seams in place before the library is imported
import core
sys.exit(core.main(sys.argv[1:]))
