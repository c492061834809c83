"""Stand-in for scipy in the PyPy lane: statistics are computed by the real
scipy, in the parent process."""
_rpc = None
