"""C08: derivatives of the components of the mission analysis."""
from mc import deriv
from mc.harness import pmap

WHERE = ('aviary.mission.', 'aviary.subsystems.aerodynamics.', 'aviary.subsystems.atmosphere.',
         'aviary.subsystems.propulsion.', 'aviary.subsystems.energy.',
         'aviary.subsystems.performance.')


def main(run):
    run.rule = ('one case = component x option combination x operating point; all derivatives of all '
                'outputs compared at each')
    todo = deriv.cases(lambda p: p.startswith(WHERE), run.quick)
    pmap(run, deriv.check, todo, chunk=2)
