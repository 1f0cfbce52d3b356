#!/usr/bin/env python3
"""Checks that the tools are there; every check builds what it needs itself."""
import os,sys
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import lib
ok=lib.toolchain_ok()
rc,out=lib.tlc('MCSeq','SPECIFICATION Spec\nVIEW view\nINVARIANT WithinCapacity\nCHECK_DEADLOCK FALSE\nCONSTANTS NObj=1 MaxLen=2 MaxCap=3 Inline=2 LitLens={0,1} Alias=TRUE Show=FALSE Ops={"append","insert"}\n',os.path.join(lib.BUILD,'setup-%d'%os.getpid()))
good='No error has been found' in out
import shutil; shutil.rmtree(os.path.join(lib.BUILD,'setup-%d'%os.getpid()),ignore_errors=True)
print('compilers',ok,'TLC',good)
sys.exit(0 if ok and good else 1)
