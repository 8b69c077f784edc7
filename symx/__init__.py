"""symx: contract verifier for numerical Python code.

The real functions of /repo run unchanged in CPython on symbolic values.  See DESIGN.md.
"""
