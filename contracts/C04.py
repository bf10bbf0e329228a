"""C04: constraint texts are split into exactly the tokens they are written with."""
from clex import *
from runner import Group


def groups(P):
    lex, lexed, tokz = lexer()
    return [Group('lex', lex), Group('tokenize', [lexed, tokz], units=[tokz])]


HARNESS = 'c04'
ASSUMPTIONS = ['constraint texts are shorter than 2^28 characters']
