"""The checks, by property."""
import check_driver

CHECKS = {}
for _p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C23'):
    CHECKS[_p] = lambda ctx, p=_p: check_driver.check_ros(ctx, p)
CHECKS['C20'] = check_driver.check_c20
import check_text
CHECKS['C07'] = check_text.check_c07
CHECKS['C08'] = check_text.check_c08
CHECKS['C13'] = check_text.check_c13
import check_stm
for _p in ('C09', 'C10', 'C11', 'C12', 'C21'):
    CHECKS[_p] = getattr(check_stm, 'check_' + _p.lower())
import check_gen
CHECKS['C14'] = check_gen.check_c14
CHECKS['C15'] = check_gen.check_c15
import check_project
CHECKS['C16'] = check_project.check_c16
import check_catkin
CHECKS['C17'] = check_catkin.check_c17
import check_indep
CHECKS['C18'] = check_indep.check_c18
import check_stages
CHECKS['C19'] = check_stages.check_c19
import check_machine
CHECKS['C22'] = check_machine.check_c22
import check_compose
CHECKS['C24'] = check_compose.check_c24
CHECKS['C25'] = check_machine.check_c25
import check_notation
CHECKS['C26'] = check_notation.check_c26
