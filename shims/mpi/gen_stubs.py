#!/usr/bin/env python3
"""Regenerates src/mpi_sys/stubs.rs: one stub per MPI function the binding crate refers to that
src/mpi_sys/mod.rs does not simulate.  Input: the bindgen output of the real crate (argument 1)."""
import re,subprocess,sys,os
here=os.path.dirname(os.path.abspath(__file__))
b=open(sys.argv[1]).read()
src=''
for d,_,fs in os.walk(here+'/src'):
    if d.endswith('mpi_sys'): continue
    for f in fs: src+=open(os.path.join(d,f)).read()
used=set(re.findall(r'ffi::(R?S?MPI_\w+)',src))|set(re.findall(r'\b(MPI_[A-Z][a-z]\w+)\(',src))
mod=open(here+'/src/mpi_sys/mod.rs').read()
have=set(re.findall(r'pub unsafe fn (\w+)',mod))
for m in re.finditer(r'collective!\((MPI_\w+), (MPI_\w+)',mod): have|={m[1],m[2]}
out='// Generated by gen_stubs.py: MPI entry points that are not simulated.\nuse super::*;\n'
for m in re.finditer(r'pub fn (MPI_\w+)\s*\(([^;]*?)\)\s*(->[^;]*)?;',b,re.S):
    n=m.group(1)
    if n not in used or n in have: continue
    a=re.sub(r'\s+',' ',m.group(2)).strip().replace(':: std :: os :: raw :: ','')
    a=re.sub(r'(\w+) : ',r'_\1: ',a)
    out+=f'pub unsafe fn {n}({a}) -> c_int {{ unsupported("{n}") }}\n'
open(here+'/src/mpi_sys/stubs.rs','w').write(out)
