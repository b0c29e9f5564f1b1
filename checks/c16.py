"""C16: generated programs evaluated by the compiler and by the processor give the same bytes."""
from lib import genrun

STD = [[['-std=c++20', '-O0']], [['-std=c++20', '-O1']], [['-std=gnu++20', '-O0', '-march=native']], [['-std=c++23', '-O0']], [['-std=c++20', '-O0', '-funsigned-char']],
       [['-std=c++20', '-O0'], False]]
RULE = 'a generated program using one operation through drawn call forms, containers, byte types, splits, truncations and error inputs, evaluated as a constexpr variable and at run time and compared with the computed bytes; non-trivial: distinct program text'


def campaigns(run):
    return [genrun.Campaign(run, 'constant', True, [40, 150, 300, 300], 60, 'c16'),
            genrun.Campaign(run, 'constant-long', True, [2000, 5000], 8, 'c16l')]


def run(run):
    a, b = campaigns(run)
    a.go(2880 if not run.thorough else 40000, STD, RULE)
    b.go(64 if not run.thorough else 640, STD, RULE)


def replay(run, path):
    return genrun.replay(campaigns, run, path)
