"""Builds everything the checks need once (objects are cached by content, so this is only a warm-up)."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import build
ts = [('smt', c) for c in ('asan', 'debug', 'release')] + [('sat', c) for c in ('asan', 'debug', 'release')]
ts += [('smt_batch', c) for c in ('asan', 'debug', 'release', 'vg')]
ts += [(u, c) for u in ('u_terms', 'u_lincons', 'u_restart', 'u_subsume', 'u_order', 'u_facade', 'u_events') for c in ('asan', 'debug')]
ts += [('u_rational', c) for c in ('asan', 'release')]
ts += [('monitor', 'mon')]
build.build(ts)
