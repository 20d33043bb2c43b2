"""The ready-made parsers on short texts of every kind they distinguish."""
from expression import Error, Ok, Result
from expression.extra import parser as P

DEEP = 24
STEPS = 40


def impl_int():
    return P.pint("0"), P.pint("-12"), P.pint("12-3")


def spec_int():
    return Ok(0), Ok(-12), Ok(12)


def impl_intZeros():
    return P.pint("007"), P.pint("-0"), P.pint("10")


def spec_intZeros():
    return Ok(7), Ok(0), Ok(10)


def impl_intWrong():
    return P.pint("-").is_error(), P.pint("--1").is_error(), P.pint("+1").is_error(), P.pint(" 1").is_error(), P.pint("x").is_error()


def spec_intWrong():
    return True, True, True, True, True


def impl_intLong():
    return P.pint("1234567890123456789012"), P.pint("-1234567890123456789012")


def spec_intLong():
    return Ok(1234567890123456789012), Ok(-1234567890123456789012)


def impl_string():
    return (P.pstring(" a ")(" a b"), P.pstring("Ab")("ab").is_error(), P.pstring("ab")("a").is_error(), P.pstring("aa")("aab"), P.pstring("a\n")("a\nb"))


def spec_string():
    return Ok(" a "), True, True, Ok("aa"), Ok("a\n")


def impl_char():
    return P.pchar("a")("A").is_error(), P.pchar(" ")("  "), P.pchar("a")("a "), P.pchar("a")(" a").is_error(), P.any_of("ab ")(" "), P.any_of("ab")("B").is_error()


def spec_char():
    return True, Ok(" "), Ok("a"), True, Ok(" "), True


def impl_repeat():
    return P.many(P.pchar("b"))("a").map(list), P.many(P.pchar(" "))("  a").map(list), P.many1(P.pchar("b"))("bba").map(list)


def spec_repeat():
    return Ok([]), Ok([" ", " "]), Ok(["b", "b"])


def impl_separated():
    p = P.sep_by(P.pchar("a"), P.pchar(","))
    return p("a,a,,a").map(list), p(",a").map(list), P.sep_by1(P.pchar("a"), P.pchar(","))("x").is_error(), p("aa").map(list)


def spec_separated():
    return Ok(["a", "a"]), Ok([]), True, Ok(["a"])


def impl_separatedTail():
    return P.sep_by(P.pchar("a"), P.pchar(",")).and_then(P.pchar(","))("a,a,").map(lambda r: (list(r[0]), r[1]))


def spec_separatedTail():
    return Ok((["a", "a"], ","))


def impl_float():
    return P.pfloat("1.5"), P.pfloat("-0.25"), P.pfloat("12")


def spec_float():
    return Ok(1.5), Ok(-0.25), Ok(12.0)


def impl_floatPart():
    return P.pfloat("1."), P.pfloat(".5").is_error(), P.pfloat("-3x"), P.pfloat("1.05")


def spec_floatPart():
    return Ok(1.0), True, Ok(-3.0), Ok(1.05)


def impl_rest():
    return P.pint.and_then(P.pchar("x"))("-12x"), P.pfloat.and_then(P.pchar("."))("1."), P.pfloat.and_then(P.pchar("."))("1.5."), P.digits.ignore_then(P.pchar("a"))("12a"), P.whitespace.ignore_then(P.pchar("a"))(" \n\ta")


def spec_rest():
    return Ok((-12, "x")), Ok((1.0, ".")), Ok((1.5, ".")), Ok("a"), Ok("a")
