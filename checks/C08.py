import diff, fam_tab, families, progen
from harness import Check, scale

PROF = progen.profile(table=16, ref=8, icall=8, call=4, select=5, num=4)
FAM = fam_tab.FAM + [families.indirect]


def targeted(job):
    diff.families(job, FAM, scale(160, 3000))


def random_programs(job):
    diff.fuzz(job, 'random', scale(400, 12000), lambda r: progen.Gen(r, PROF, mods=r.choice([1, 2, 2]), funcs=6, size=50, mem=False, tables=r.choice([1, 2, 3]), calls=8, tprobe=True))


def main():
    c = Check('C08', 'a distinct generated program whose every step (and the content of every table after every table operation) was compared with V8')
    c.run(targeted)
    c.run(random_programs)
    diff.fold_ops(c)
    for f in set(FAM):
        c.require('family ' + f.__name__, 40)
    c.require('traps_compared', 1000)
    c.require('calls_returned', 5000)
    c.finish()
