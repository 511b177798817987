"""C02: JSON validation rejects no value of the type"""
from .c01 import jobs, _field, _bare, BOUNDS, ASSUMPTIONS          # noqa: F401

VALIDATE = {'quick': 29, 'thorough': 29}


def field(ctx, env, schema, style, small=False):
    _field(ctx, env, schema, style, small, 'C02')


def bare(ctx, env, schema, small=False):
    _bare(ctx, env, schema, small, 'C02')
