#!/usr/bin/env python3
"""Copy CM's sources (of the seed compiler, same commit as the pinned repo) and turn
them into the FLINT dumper: the front end is the stock one; binaries are never written,
skeleton files go to a scratch directory, and the boot compiler is reduced to 'compile
everything reachable from one root description file'."""
import sys, shutil, os, re
src, dst = sys.argv[1], sys.argv[2]
here = os.path.dirname(os.path.abspath(__file__))
if os.path.exists(dst): shutil.rmtree(dst)
shutil.copytree(src, dst, ignore=shutil.ignore_patterns('.cm', 'Doc', 'Tests'))
def sub(f, pairs):
    p = os.path.join(dst, f); s = open(p).read()
    for a, b in pairs:
        assert s.count(a) >= 1, (f, a)
        s = s.replace(a, b)
    open(p, 'w').write(s)

# 1. file name policy: everything below a scratch directory
sub('main/filename-policy.sml', [
 ('{ skel = cmname [skeldir] o SrcPath.osstring,', '{ skel = cmname [skeldir] o scratch,'),
 ('guid = cmname [guiddir] o SrcPath.osstring,', 'guid = cmname [guiddir] o scratch,'),
 ('index = cmname [indexdir] o SrcPath.osstring }', 'index = cmname [indexdir] o scratch }'),
 ('    fun mkPolicy (shiftbin', '''    fun scratch p = concat [Option.getOpt (OS.Process.getEnv "DUMP_SCRATCH", "/tmp"), "/f",
			    String.map (fn #"/" => #"+" | c => c)
			      (OS.Path.mkAbsolute { path = SrcPath.osstring p,
						    relativeTo = OS.FileSys.getDir () })]
    fun mkPolicy (shiftbin'''),
 ('mkPolicy (shiftname bindir, shiftname bootdir, true)', 'mkPolicy (scratch, scratch, true)'),
 ('fun separate_generic { bindir, bootdir } = let', 'fun separate_generic { bindir: string, bootdir: string } = let'),
])
# 2. never write binaries
sub('compile/compile.sml', [
 ('''		    fun save bfc = let''', '''		    fun save bfc = ({ code = 0, env = 0, inlinfo = 0, data = 0 } : BF.stats)
		    fun save_disabled bfc = let'''),
 ('''				tryload (sy0, loaded, compile)''', '''				compile_again ()'''),
])
sub('compile/compile.sml', [('structure Backend : BACKEND', 'structure Backend : DUMP_BACKEND')])
sub('bootstrap/btcompile.sml', [('structure Backend : BACKEND', 'structure Backend : DUMP_BACKEND')])
# 3. boot compiler
p = os.path.join(dst, 'bootstrap/btcompile.sml'); s = open(p).read()
i = s.index('    fun mk_compile {'); 
head = s[:i]
body = open(os.path.join(here, 'dump-make.frag')).read()
open(p, 'w').write(head + body)
for f in ('dump-flint.sml', 'dump-sig.sml', 'dump-backend.sml', 'dump-main.sml'):
    shutil.copy(os.path.join(here, f), dst)
p = os.path.join(dst, 'cm-lib.cm'); s = open(p).read()
i = s.index('Group'); j = s.index('\nis\n')
s = '(primitive)\nLibrary\n  structure DumpMain\n' + s[j:] + '''
  $smlnj/viscomp/elaborate.cm
  $smlnj/viscomp/elabdata.cm
  dump-flint.sml
  dump-sig.sml
  dump-backend.sml
  dump-main.sml
'''
open(os.path.join(dst, 'dumper.cm'), 'w').write(s)
