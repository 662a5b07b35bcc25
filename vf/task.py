from lib import *
class Task:
    """one contract: fn is verified against (setup = precondition, post = postcondition)"""
    def __init__(s, name, fn, setup, post, props, engine=None, deadline=100, deps=(), **kw):
        s.name = name; s.fn = fn; s.setup = setup; s.post = post; s.props = set(props) | set(deps); s.deps = set(deps)
        s.mk = engine; s.deadline = deadline; s.kw = kw
    def role(s, prop): return "dependency" if prop in s.deps else "primary"
    def needs_missing(s, u): return s.fn not in u.funcs
    def engine(s, u):
        e = s.mk(u) if s.mk else Engine(u)
        for k, v in s.kw.items(): setattr(e, k, v)
        return e
    def run(s, eng): return run_function(eng, s.fn, s.setup, s.post, s.name, s.deadline)
