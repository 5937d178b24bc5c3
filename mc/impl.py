"""Imports amara3.uxml from the working tree under test, without writing anything into it."""
import os, sys, tempfile, atexit, shutil, warnings

REPO = os.environ.get('MC_REPO', '/repo')
_scratch = None


def scratch():
    """A scratch directory of this run, removed at exit (of the process that made it)."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='mc_')
        pid = os.getpid()
        def clean(d=_scratch):
            if os.getpid() == pid:
                shutil.rmtree(d, ignore_errors=True)
        atexit.register(clean)
    return _scratch


def setup():
    sys.dont_write_bytecode = True
    warnings.simplefilter('ignore')
    path = os.path.join(scratch(), 'path')
    os.mkdir(path)
    os.symlink(os.path.join(REPO, 'pylib'), os.path.join(path, 'amara3'))
    # Not the extension in /repo/build, which may be older than the sources (see B01)
    sys.path[:] = [path] + [p for p in sys.path if not p.startswith(('/repo', '/opt/amara3-path'))]
    # ply would write its tables next to the sources, and read them back when they are out of date
    import ply.yacc, ply.lex
    real_yacc = ply.yacc.yacc

    def yacc(*args, **kw):
        kw.update(write_tables=False, debug=False, tabmodule='_mc_no_such_table', errorlog=ply.yacc.NullLogger())
        if args:    # method, debug, module, ... are given by keyword in practice
            return real_yacc(*args[:1], **kw)
        return real_yacc(**kw)
    ply.yacc.yacc = yacc
    real_lex = ply.lex.lex

    def lex(*args, **kw):
        kw.setdefault('errorlog', ply.lex.NullLogger())
        # ply looks for the rules in the caller's module
        if not kw.get('module') and not args:
            frame = sys._getframe(1)
            kw['module'] = sys.modules[frame.f_globals['__name__']]
        return real_lex(*args, **kw)
    ply.lex.lex = lex
