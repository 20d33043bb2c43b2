"""Numeric parsers, for any parser of single digits."""
from typing import Any

from expression import Error, Ok, Result
from expression.extra import parser as P
from expression.extra.parser import Parser

ABSTRACT = {"expression.extra.parser.parse_digit": "Parser[str]", "expression.extra.parser.whitespace_char": "Parser[str]"}


def shape(r):
    match r:
        case Result(tag="ok", ok=(v, rest)):
            return (v, rest)
        case Result(error=_):
            return None


def impl_digits(s: str, i: int):
    return shape(P.digits.run((s, i)))


def spec_digits(s: str, i: int):
    return shape(P.many1(P.parse_digit).run((s, i)))


def impl_pint(s: str, i: int):
    return shape(P.pint.run((s, i)))


def spec_pint(s: str, i: int):
    neg = False
    rest = (s, i)
    match P.pchar("-").run(rest):
        case Result(tag="ok", ok=(_, r)):
            neg = True
            rest = r
        case Result(error=_):
            pass
    match P.many1(P.parse_digit).run(rest):
        case Result(tag="ok", ok=(ds, r)):
            n = int("".join(ds))
            return (n * -1 if neg else n, r)
        case Result(error=_):
            return None


def impl_pfloat(s: str, i: int):
    return shape(P.pfloat.run((s, i)))


def spec_pfloat(s: str, i: int):
    neg = False
    rest = (s, i)
    match P.pchar("-").run(rest):
        case Result(tag="ok", ok=(_, r)):
            neg = True
            rest = r
        case Result(error=_):
            pass
    match P.many1(P.parse_digit).run(rest):
        case Result(tag="ok", ok=(ds, r)):
            rest = r
        case Result(error=_):
            return None
    text = list(ds)
    match P.pchar(".").run(rest):
        case Result(tag="ok", ok=(_, r)):
            match P.many1(P.parse_digit).run(r):
                case Result(tag="ok", ok=(fs, r2)):
                    text = [*ds, ".", *fs]
                    rest = r2
                case Result(error=_):
                    pass
        case Result(error=_):
            pass
    x = float("".join(text))
    return (x * -1 if neg else x, rest)


def impl_whitespace(s: str, i: int):
    return shape(P.whitespace.run((s, i)))


def spec_whitespace(s: str, i: int):
    return shape(P.many1(P.whitespace_char).run((s, i)))
