import cgen, diff, families, progen
from harness import Check, scale

PROF = progen.profile(call=14, icall=10, log=7, ret=2, br=3, block=3, table=1, local=8, flt=1)
FAM = [families.signature, families.indirect, families.contexts, families.recursion, families.leaving, families.crossing]


def targeted(job):
    diff.families(job, FAM, scale(190, 3600))


def random_programs(job):
    diff.fuzz(job, 'random', scale(500, 15000), lambda r: progen.Gen(r, PROF, mods=r.choice([1, 2, 2, 3]), funcs=7, size=50, mem=r.random() < .4, calls=10))


def compiled(job):
    cgen.compiled(job, scale(12, 400))


def main():
    c = Check('C06', 'a distinct generated program (one or more linked modules) whose every step was compared with V8')
    c.run(targeted)
    c.run(random_programs)
    c.run(compiled)
    diff.fold_ops(c)
    for f in FAM:
        c.require('family ' + f.__name__, 40)
    c.require('host_calls_compared', 5000)
    c.require('calls_returned', 2000)
    cgen.require(c, 48)
    c.finish()
