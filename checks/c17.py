"""C17: every call form and container of an operation gives the same bytes and sizes."""
from lib import genrun

CFG = [[['-std=c++20', '-O1']], [['-std=c++20', '-O0']], [['-std=c++20', '-O1', '-funsigned-char']], [['-std=c++23', '-O0']], [['-std=c++20', '-O0'], False],
       [['-std=gnu++20', '-O1', '-march=native']], [['-std=c++20', '-O0']], [['-std=c++20', '-Os']]]
ASAN = [[['-std=c++20', '-O0', '-fsanitize=address,undefined', '-fno-sanitize-recover=all'], True, True]]
RULE = 'a generated program using one operation through drawn call forms, container types (standard and user-defined, fixed, resizable, view, owner), byte types, splits and truncations, compared with the computed bytes and sizes; non-trivial: distinct program text'


def campaigns(run):
    return [genrun.Campaign(run, 'forms', False, [40, 150, 600, 2000], 200, 'c17'),
            genrun.Campaign(run, 'forms-sanitized', False, [40, 150, 600], 60, 'c17a')]


def run(run):
    a, b = campaigns(run)
    a.go(6400 if not run.thorough else 80000, CFG, RULE)
    b.go(480 if not run.thorough else 5000, ASAN, RULE)


def replay(run, path):
    return genrun.replay(campaigns, run, path)
