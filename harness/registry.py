import grammar_checks as g
import text_checks as t
import libid_check
import session_checks as s
import accept_check, alt_check, editor_check, factory_check, isolation_check
CHECKS = {'C01': g.c01, 'C02': g.c02, 'C03': g.c03, 'C04': g.c04, 'C05': t.c05, 'C06': t.c06, 'C07': g.c07, 'C08': editor_check.c08, 'C09': libid_check.c09, 'C10': s.c10, 'C11': s.c11, 'C12': accept_check.c12, 'C13': isolation_check.c13, 'C14': g.c14, 'C15': alt_check.c15, 'C16': g.c16,
          'C17': g.c17, 'C18': factory_check.c18, 'C19': t.c19}
