from .base import *
from . import analysis as A


def tasks():
    ctx = {}
    yield Task("create_stochastic_capturezone", "oneka.stochastic.create_stochastic_capturezone", A.setup_for("draw", ctx),
               A.run_for("oneka.stochastic", "create_stochastic_capturezone"), A.post, A.contracts(ctx), hooks=A.Hooks())
