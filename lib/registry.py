"""property id -> check"""
import props_switch as sw
import props_opt as op
import props_module as mo
import props_cascade as ca
import props_loop as lo
import props_deltav as dv
import props_sample as sam
import props_state as stt
import props_insp as ins
import props_cwh as cw
import props_constraint as con

CHECKS = {'C01': mo.c01, 'C02': mo.c02, 'C03': sw.c03, 'C04': sw.c04, 'C05': lo.c05, 'C06': sw.c06, 'C07': mo.c07, 'C08': sw.c08, 'C09': op.c09, 'C10': op.c10,
          'C11': mo.c11, 'C12': mo.c12, 'C13': ca.c13, 'C14': op.c14, 'C15': op.c15, 'C16': mo.c16, 'C17': mo.c17, 'C18': sam.c18, 'C19': con.c19, 'C20': op.c20, 'C21': ins.c21, 'C22': dv.c22, 'C23': cw.c23, 'C24': mo.c24, 'C25': stt.c25, 'C26': cw.c26}
