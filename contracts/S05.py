from .base import *
from . import analysis as A


def tasks():
    ctx = {}
    yield Task("create_deterministic_capturezone", "oneka.deterministic.create_deterministic_capturezone", A.setup_for("mean", ctx),
               A.run_for("oneka.deterministic", "create_deterministic_capturezone"), A.post, A.contracts(ctx), hooks=A.Hooks())
