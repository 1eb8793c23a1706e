import os, sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from memcache_family import family

family("C04", ['strict', 'reuse'])
