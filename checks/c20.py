"""Answers: every question to a block, a loop or a collection, in every form of questions.py, is answered as the model says."""
from . import questions


def run(ctx):
    questions.follow(ctx, ('answer',))
    ctx.assumptions = ['names are legal and nothing else of them is known but whether they are equal', 'no dictionary is assigned to the block']
