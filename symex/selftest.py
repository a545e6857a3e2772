"""setup: check that the tools the checks need are here and that the engine answers a known question"""
import os


def main():
    import z3
    x, y = z3.Ints('x y')
    s = z3.Solver()
    s.add(x > 2, y > x, x + y < 8)
    assert s.check() == z3.sat
    s.add(x != 3)
    assert s.check() == z3.unsat
    from symex import runner
    for p in (runner.PLAIN_PY, runner.SITE, runner.REPO):
        assert os.path.exists(p), p
    d = runner.make_overlay()
    import shutil
    shutil.rmtree(d)
    print('selftest ok: z3', z3.get_version_string())
    return 0
