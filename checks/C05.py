import cgen, diff, families, progen
from harness import Check, scale

PROF = progen.profile(block=8, loop=4, if_=8, br=4, br_if=8, br_table=5, ret=2, log=9, call=3, load=1, store=1, table=0, mgrow=0, simd=.5)


def targeted(job):
    diff.families(job, [families.ladder, families.ladder, families.loops, families.leaving, families.chasm, families.spin, families.spin, families.switch], scale(420, 6000))


def random_programs(job):
    diff.fuzz(job, 'random', scale(900, 20000), lambda r: progen.Gen(r, PROF, mods=1, size=r.choice([30, 60, 120]), mem=r.random() < .3, tables=r.random() < .3, calls=10))


def compiled(job):
    cgen.compiled(job, scale(16, 500))


def main():
    c = Check('C05', 'a distinct generated module whose every step (results, traps, host-call sequence, globals) was compared with V8')
    c.run(targeted)
    c.run(random_programs)
    c.run(compiled)
    diff.fold_ops(c)
    for f in ('ladder', 'loops', 'leaving', 'chasm', 'spin', 'switch'):
        c.require('family ' + f, 50)
    c.require('host_calls_compared', 2000)
    c.require('calls_returned', 1000)
    cgen.require(c, 64)
    c.finish()
