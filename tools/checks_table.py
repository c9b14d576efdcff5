CHECKS = {}
CHECKS['C05'] = dict(src=['checks/c05.cpp'])
for i in (1,2,3,4):
    CHECKS['C0%d'%i] = dict(src=['checks/contour.cpp'], flags=['-DPROP=%d'%i])
CHECKS['C06'] = dict(src=['checks/c06.cpp'])
for i in (7,8):
    CHECKS['C0%d'%i] = dict(src=['checks/images.cpp'], flags=['-DPROP=%d'%i])
CHECKS['C09'] = dict(src=['checks/c09.cpp'])
CHECKS['C10'] = dict(src=['checks/c10.cpp'])
CHECKS['C11'] = dict(src=['checks/c11.cpp'])
CHECKS['C12'] = dict(src=['checks/c12.cpp'])
for i in (13,14):
    CHECKS['C%d'%i] = dict(src=['checks/blur.cpp'], flags=['-DPROP=%d'%i])
for i in (15,16,17):
    CHECKS['C%d'%i] = dict(src=['checks/thresh.cpp'], flags=['-DPROP=%d'%i])
for i in (18,19,20,21):
    CHECKS['C%d'%i] = dict(src=['checks/block.cpp'], flags=['-DPROP=%d'%i])
for i in (22,23,24,25,26,31,33,34,39,40):
    CHECKS['C%d'%i] = dict(src=['checks/c%d.cpp'%i])

CHECKS['C30'] = dict(src=['checks/c30.cpp', 'lib/tsan_rt.cpp'], san='tsan-own', opt='-O0', instr=['-fsanitize=thread'], instrument=['checks/c30.cpp'],
    ldflags=['-Wl,' + ','.join('--wrap=' + f for f in ('memcpy', 'memmove', 'memset', 'malloc', 'calloc', 'realloc', 'free', 'pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_once', '__cxa_guard_acquire', '__cxa_guard_release', '__cxa_guard_abort'))])

for i in (27, 28, 38):
    CHECKS['C%d'%i] = dict(src=['checks/jni.cpp'], flags=['-DPROP=%d'%i], jni=True, jniflags=['-std=gnu++11'], ldflags=['-rdynamic'])

CHECKS['C29'] = dict(src=['checks/c29.cpp'], jni=True, jniflags=['-std=gnu++11'], ldflags=['-rdynamic'])

for i in (35, 36):
    CHECKS['C%d'%i] = dict(src=['checks/c35.cpp'], flags=['-DPROP=%d'%i], java=True, schedjni=i == 36)

CHECKS['C37'] = dict(src=['checks/c37.cpp'], java='load')

import os as _os, sys as _sys
_sys.path.insert(0, _os.path.dirname(_os.path.abspath(__file__)))
from describe import T as _T
for i, c in CHECKS.items():
    t = _T[i]; c.setdefault("technique", t["technique"]); c.setdefault("bounds", dict(quick=t["quick"], thorough=t["quick"] + "; thorough: " + t["thorough"])); c.setdefault("note", "Every behaviour of the bounded space is executed on the real code and compared; nothing is claimed beyond the bounds. Oracle: " + t["oracle"] + ".")
for c in CHECKS.values():
    c.setdefault('note', 'Exhaustive within stated bounds on the real code; nothing claimed beyond them.')
NOT_APPLICABLE = {'C32': 'needs the BoofCV Java jars to compare with, which are not present and cannot be fetched; the native side of the bridge is covered by C27-C29'}
