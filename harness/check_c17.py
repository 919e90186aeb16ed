"""C17: Cartesian operators are exact on representable fields (spec/Calc.tla)."""
from calc_checks import run as run_calc, obs_value
LEVEL = "model_checking"
NOTE = 'random compositions of all Cartesian and direct-product operators over 1-4 dimensional real and complex Fourier/Chebyshev/Legendre/Jacobi domains. The exact Laurent-polynomial value of every expression is computed by TLC from the recorded data of its leaves and compared with the evaluated field; inputs are random within the exactly representable range.'


def run(ck):
    run_calc(ck, ck.pick([("cart", "plain", 60, 8)], [("cart", "plain", 400, 24)]), obs_value, steps=22)
