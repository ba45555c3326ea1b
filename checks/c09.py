"""C09: derivatives of the components of the sizing analysis (geometry and mass)."""
from mc import deriv
from mc.harness import pmap

WHERE = ('aviary.subsystems.geometry.', 'aviary.subsystems.mass.')


def main(run):
    run.rule = ('one case = component x option combination x operating point; all derivatives of all '
                'outputs compared at each')
    todo = deriv.cases(lambda p: p.startswith(WHERE), run.quick)
    pmap(run, deriv.check, todo, chunk=2)
