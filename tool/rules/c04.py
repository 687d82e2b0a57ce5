"""C04 lock primitives"""
from common import *
from rules.spin import *

SOURCES = ['lib/Framework/InputPort.cpp', 'lib/Plugin/Registry.cpp', '+spin.cpp']
EXPLANATION = 'Every path of every operation of the two spin lock classes, as transitions of the lock word with their memory orders.'


def check(prog, rep):
    check_spinlock(prog, rep)
    check_spinlock_rw(prog, rep)
    check_shared_guard(prog, rep)
