"""P18: circuit curve arithmetic computes the group law."""
import circom, circgroup, circint, circpoint
from vc import Fail
DIR = 'eff_ecdsa_membership/'
def run(c):
    c.ob('curve', 'y^2 = x^3 + 7 over F_p', lambda: circgroup.curve_facts() or 'no point has a zero coordinate, so (0, 0) is free to stand for the point at infinity')
    for n in sorted(circgroup.TEMPL):
        f = 'packages/circuits/' + circgroup.TEMPL[n][0] + ' ' + n
        for case in circgroup.TEMPL[n][1]:
            c.ob('%s/%s' % (n, case), f, lambda: '%d cases' % circgroup.analyse(n, case, circgroup.law))
    mul = circom.elab(DIR + 'secp256k1/mul.circom')
    w = 'packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom '
    c.ob('K', w + 'K', lambda: '%d cases' % circint.recoding(mul.inst('K', []), circpoint.Q, circpoint.TQ)[1])
    def m():
        W = circpoint.mul(mul.inst('Secp256k1Mul', []))
        return '%d uses of point templates, %d side conditions' % (W.uses, W.obl)
    c.ob('Mul', w + 'Secp256k1Mul', m)
    def e():
        W = circpoint.ecdsa(circom.elab(DIR + 'eff_ecdsa.circom').inst('EfficientECDSA', []))
        return '%d uses of point templates' % W.uses
    c.ob('EfficientECDSA', 'packages/circuits/eff_ecdsa_membership/eff_ecdsa.circom EfficientECDSA', e)
    c.assumptions += ['T and U are points of the curve (checked by the verifier, P21/P22) and T is not the point at infinity',
                      'circomlib templates are those of version 2.0.5; the group of curve points has prime order q']
    return ('constraint systems of the addition and doubling templates solved case by case over rational functions of the coordinates and compared with chord and tangent formulas modulo '
            'the curve equation; the scalar recoding by case splitting over bounded integer linear forms; the multiplication ladder in a domain of multiples of the base point, '
            'with the side conditions of every incomplete addition proved for all bit values')
