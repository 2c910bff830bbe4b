"""Asking and writing leave the object as it was: every question of questions.py and every way of writing of C18 is interpreted, and the
object compared with what it was; lists given out are not the ones kept."""
from . import c18, questions


def run(ctx):
    questions.follow(ctx, ('changed', 'given out'))
    c18.follow(ctx, ('changed',), lambda j: ctx.tier == 'thorough' or j[1] not in ('values', 'blocks') and not j[2].startswith('to '))
    ctx.assumptions = ['names are legal and nothing else of them is known but whether they are equal', 'no dictionary is assigned to the block',
                       'a value or key is written as one token (decided by C11)']
