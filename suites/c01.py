from . import c01_blocks
RULE = 'random histories of cleanup operations over chains of up to 3 blocks'


def run(S):
    c01_blocks.run(S)
