#!/bin/bash
# mutation runs over wasi.py, function by function; usage: mutwasi.sh FRACTION SEED OUT [function regex]
cd /verif
python3 - "$@" <<'P'
import ast, re, subprocess, sys
frac, seed, out = sys.argv[1:4]
rx = re.compile(sys.argv[4] if len(sys.argv) > 4 else '.')
M = [('__init__', 'W07 W02 W05 W01'), ('args_|environ_', 'W07 W06 W10'), ('bind', 'W07 W10 W06 W02'), ('clock_', 'W09 W06 W10'), ('fd_advise|fd_datasync|fd_sync', 'W02 W03 W10'),
     ('fd_allocate', 'W03 W02 W10'), ('fd_close|fd_renumber', 'W05 W10 W02'), ('fd_fdstat', 'W02 W03 W05 W10 W06'), ('fd_filestat', 'W03 W02 W10 W06'),
     ('fd_p?read$|fd_p?write$|fd_seek|fd_tell', 'W03 W06 W02 W07 W10'), ('fd_prestat', 'W07 W06 W05 W10'), ('fd_readdir', 'W08 W06 W02 W10 W01'),
     ('help_path', 'W04 W01 W10 W05'), ('help_time', 'W09'), ('help_sock', 'W11'), ('help_perm|help_badf|help_idir', 'W02 W10 W05'), ('help_iovs', 'W06 W03'), ('help_pipe', 'W07 W09 W05'),
     ('help_', 'W03 W04 W10 W05 W02 W06'), ('main', 'W07 W05 C13'), ('path_open', 'W04 W02 W01 W05 W10 W06'), ('path_', 'W04 W01 W02 W06 W10'), ('poll', 'W09 W06 W02 W10'), ('proc_', 'W07 W10'),
     ('random', 'W12 W06'), ('sched', 'W10'), ('sock_accept', 'W11 W05 W06 W02 W10'), ('sock_', 'W11 W06 W02 W10'), ('', 'W10 W07 W05')]
t = ast.parse(open('/repo/pywasm/wasi.py').read())
for c in t.body:
    if isinstance(c, ast.ClassDef):
        for f in c.body:
            if isinstance(f, ast.FunctionDef) and rx.search(f.name):
                ch = next(v for k, v in M if re.match(k, f.name))
                subprocess.run(['python3', 'tools/mutate.py', 'wasi.py', str(f.lineno), str(f.end_lineno), frac, seed, out, *ch.split()])
P
