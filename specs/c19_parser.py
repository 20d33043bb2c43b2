"""Parsers as functions from (text, position) to a value and the next position, or an error."""
from typing import Any

from expression import Error, Nothing, Ok, Result, Some, pipe
from expression.collections import Block, block
from expression.extra import parser as P
from expression.extra.parser import Parser
from specs.lib import Fn, assume

OutS = Result[tuple[str, tuple[str, int]], str]
Out = Result[tuple[Any, tuple[str, int]], str]
NONNEG = ["i", "j"]
CHARS = ["c"]


def well_formed(before, after):
    """a parser goes on in the text it was given and never goes back"""
    assume(after[0] == before[0] and after[1] >= before[1])


def impl_run(p: Fn[Out], s: str, i: int):
    return Parser(p).run((s, i))


def spec_run(p: Fn[Out], s: str, i: int):
    return p((s, i))


def impl_call(p: Fn[Out], s: str):
    return Parser(p)(s)


def spec_call(p: Fn[Out], s: str):
    match p((s, 0)):
        case Result(tag="ok", ok=(v, _)):
            return Ok(v)
        case Result(error=e):
            return Error(e)


def impl_pchar(c: str, s: str, i: int):
    match P.pchar(c).run((s, i)):
        case Result(tag="ok", ok=(v, rest)):
            return (v, rest)
        case Result(error=_):
            return None


def impl_pchar__method(c: str, s: str, i: int):
    match Parser.pchar(c).run((s, i)):
        case Result(tag="ok", ok=(v, rest)):
            return (v, rest)
        case Result(error=_):
            return None


def spec_pchar(c: str, s: str, i: int):
    if i < len(s) and s[i] == c:
        return (c, (s, i + 1))
    return None


def impl_preturn(x: Any, s: str, i: int):
    return P.preturn(x).run((s, i))


def spec_preturn(x: Any, s: str, i: int):
    return Ok((x, (s, i)))


def impl_fail(e: str, s: str, i: int):
    return P.fail(e).run((s, i))


def impl_fail__method(e: str, s: str, i: int):
    return Parser.fail(e).run((s, i))


def spec_fail(e: str, s: str, i: int):
    return Error(e)


def impl_andThen(p: Fn[Out], q: Fn[Out], s: str, i: int):
    return P.and_then(Parser(q))(Parser(p)).run((s, i))


def impl_andThen__method(p: Fn[Out], q: Fn[Out], s: str, i: int):
    return Parser(p).and_then(Parser(q)).run((s, i))


def spec_andThen(p: Fn[Out], q: Fn[Out], s: str, i: int):
    match p((s, i)):
        case Result(tag="ok", ok=(v, rest)):
            match q(rest):
                case Result(tag="ok", ok=(w, rest2)):
                    return Ok(((v, w), rest2))
                case Result(error=e):
                    return Error(e)
        case Result(error=e):
            return Error(e)


def impl_thenIgnore(p: Fn[Out], q: Fn[Out], s: str, i: int):
    return P.then_ignore(Parser(q))(Parser(p)).run((s, i))


def impl_thenIgnore__method(p: Fn[Out], q: Fn[Out], s: str, i: int):
    return Parser(p).then_ignore(Parser(q)).run((s, i))


def spec_thenIgnore(p: Fn[Out], q: Fn[Out], s: str, i: int):
    match p((s, i)):
        case Result(tag="ok", ok=(v, rest)):
            match q(rest):
                case Result(tag="ok", ok=(_, rest2)):
                    return Ok((v, rest2))
                case Result(error=e):
                    return Error(e)
        case Result(error=e):
            return Error(e)


def impl_ignoreThen(p: Fn[Out], q: Fn[Out], s: str, i: int):
    return P.ignore_then(Parser(q))(Parser(p)).run((s, i))


def impl_ignoreThen__method(p: Fn[Out], q: Fn[Out], s: str, i: int):
    return Parser(p).ignore_then(Parser(q)).run((s, i))


def spec_ignoreThen(p: Fn[Out], q: Fn[Out], s: str, i: int):
    match p((s, i)):
        case Result(tag="ok", ok=(_, rest)):
            match q(rest):
                case Result(tag="ok", ok=(w, rest2)):
                    return Ok((w, rest2))
                case Result(error=e):
                    return Error(e)
        case Result(error=e):
            return Error(e)


def impl_orElse(p: Fn[Out], q: Fn[Out], s: str, i: int):
    return P.or_else(Parser(p))(Parser(q)).run((s, i))


def impl_orElse__method(p: Fn[Out], q: Fn[Out], s: str, i: int):
    return Parser(p).or_else(Parser(q)).run((s, i))


def spec_orElse(p: Fn[Out], q: Fn[Out], s: str, i: int):
    r = p((s, i))
    if r.is_ok():
        return r
    return q((s, i))


def impl_choice3(p: Fn[Out], q: Fn[Out], r: Fn[Out], s: str, i: int):
    return P.choice(Block([Parser(p), Parser(q), Parser(r)])).run((s, i))


def spec_choice3(p: Fn[Out], q: Fn[Out], r: Fn[Out], s: str, i: int):
    a = p((s, i))
    if a.is_ok():
        return a
    b = q((s, i))
    if b.is_ok():
        return b
    return r((s, i))


def impl_choice1(p: Fn[Out], s: str, i: int):
    return P.choice(Block([Parser(p)])).run((s, i))


def spec_choice1(p: Fn[Out], s: str, i: int):
    return p((s, i))


def impl_choice(ps: Block[Parser[Any]], s: str, i: int):
    return P.choice(ps).run((s, i))


def spec_choice(ps: Block[Parser[Any]], s: str, i: int):
    first, *rest = ps
    r = first.run((s, i))
    for p in rest:
        if r.is_ok():
            break
        r = p.run((s, i))
    return r


def impl_map(p: Fn[Out], f: Fn[Any], s: str, i: int):
    return P.map(f)(Parser(p)).run((s, i))


def impl_map__method(p: Fn[Out], f: Fn[Any], s: str, i: int):
    return Parser(p).map(f).run((s, i))


def spec_map(p: Fn[Out], f: Fn[Any], s: str, i: int):
    match p((s, i)):
        case Result(tag="ok", ok=(v, rest)):
            return Ok((f(v), rest))
        case Result(error=e):
            return Error(e)


def impl_starmap(p: Fn[Result[tuple[tuple[Any, Any], tuple[str, int]], str]], f: Fn[Any], s: str, i: int):
    return P.starmap(f)(Parser(p)).run((s, i))


def impl_starmap__method(p: Fn[Result[tuple[tuple[Any, Any], tuple[str, int]], str]], f: Fn[Any], s: str, i: int):
    return Parser(p).starmap(f).run((s, i))


def spec_starmap(p: Fn[Result[tuple[tuple[Any, Any], tuple[str, int]], str]], f: Fn[Any], s: str, i: int):
    match p((s, i)):
        case Result(tag="ok", ok=((v, w), rest)):
            return Ok((f(v, w), rest))
        case Result(error=e):
            return Error(e)


def impl_apply(p: Fn[Result[tuple[Fn[Any], tuple[str, int]], str]], q: Fn[Out], s: str, i: int):
    return P.apply(Parser(p), Parser(q)).run((s, i))


def spec_apply(p: Fn[Result[tuple[Fn[Any], tuple[str, int]], str]], q: Fn[Out], s: str, i: int):
    match p((s, i)):
        case Result(tag="ok", ok=(f, rest)):
            match q(rest):
                case Result(tag="ok", ok=(x, rest2)):
                    return Ok((f(x), rest2))
                case Result(error=e):
                    return Error(e)
        case Result(error=e):
            return Error(e)


def impl_lift2(f: Fn[Fn[Any]], p: Fn[Out], q: Fn[Out], s: str, i: int):
    return P.lift2(f)(Parser(p))(Parser(q)).run((s, i))


def spec_lift2(f: Fn[Fn[Any]], p: Fn[Out], q: Fn[Out], s: str, i: int):
    match p((s, i)):
        case Result(tag="ok", ok=(x, rest)):
            g = f(x)
            match q(rest):
                case Result(tag="ok", ok=(y, rest2)):
                    return Ok((g(y), rest2))
                case Result(error=e):
                    return Error(e)
        case Result(error=e):
            return Error(e)


def spec_lift2__late(f: Fn[Fn[Any]], p: Fn[Out], q: Fn[Out], s: str, i: int):
    match p((s, i)):
        case Result(tag="ok", ok=(x, rest)):
            match q(rest):
                case Result(tag="ok", ok=(y, rest2)):
                    return Ok((f(x)(y), rest2))
                case Result(error=e):
                    return Error(e)
        case Result(error=e):
            return Error(e)


def impl_sequence(ps: Block[Parser[Any]], s: str, i: int):
    return P.sequence(ps).run((s, i)).map(lambda r: (list(r[0]), r[1]))


def spec_sequence(ps: Block[Parser[Any]], s: str, i: int):
    out = []
    rest = (s, i)
    for p in ps:
        match p.run(rest):
            case Result(tag="ok", ok=(v, r)):
                out.append(v)
                rest = r
            case Result(error=e):
                return Error(e)
    return Ok((out, rest))


def impl_sequence2(p: Fn[Out], q: Fn[Out], s: str, i: int):
    return P.sequence(Block([Parser(p), Parser(q)])).run((s, i)).map(lambda r: (list(r[0]), r[1]))


def spec_sequence2(p: Fn[Out], q: Fn[Out], s: str, i: int):
    match p((s, i)):
        case Result(tag="ok", ok=(v, rest)):
            match q(rest):
                case Result(tag="ok", ok=(w, rest2)):
                    return Ok(([v, w], rest2))
                case Result(error=e):
                    return Error(e)
        case Result(error=e):
            return Error(e)


def impl_sequence0(s: str, i: int):
    return P.sequence(block.empty).run((s, i)).map(lambda r: (list(r[0]), r[1]))


def spec_sequence0(s: str, i: int):
    return Ok(([], (s, i)))


def impl_many(p: Fn[Out], s: str, i: int):
    return P.many(Parser(p)).run((s, i)).map(lambda r: (list(r[0]), r[1]))


def spec_many(p: Fn[Out], s: str, i: int):
    out = []
    rest = (s, i)
    while True:
        match p(rest):
            case Result(tag="ok", ok=(v, r)):
                well_formed(rest, r)
                if r[1] == rest[1]:
                    return Ok((out, rest))
                out.append(v)
                rest = r
            case Result(error=_):
                return Ok((out, rest))


def impl_many1(p: Fn[Out], s: str, i: int):
    return P.many1(Parser(p)).run((s, i)).map(lambda r: (list(r[0]), r[1]))


def spec_many1(p: Fn[Out], s: str, i: int):
    match p((s, i)):
        case Result(tag="ok", ok=(first, rest)):
            out = []
        case Result(error=e):
            return Error(e)
    while True:
        match p(rest):
            case Result(tag="ok", ok=(v, r)):
                well_formed(rest, r)
                if r[1] == rest[1]:
                    return Ok(([first, *out], rest))
                out.append(v)
                rest = r
            case Result(error=_):
                return Ok(([first, *out], rest))


def impl_opt(p: Fn[Out], s: str, i: int):
    return P.opt(Parser(p)).run((s, i))


def impl_opt__method(p: Fn[Out], s: str, i: int):
    return Parser(p).opt().run((s, i))


def spec_opt(p: Fn[Out], s: str, i: int):
    match p((s, i)):
        case Result(tag="ok", ok=(v, rest)):
            return Ok((Some(v), rest))
        case Result(error=_):
            return Ok((Nothing, (s, i)))


def impl_ignore(p: Fn[Out], s: str, i: int):
    return P.ignore(Parser(p)).run((s, i))


def impl_ignore__method(p: Fn[Out], s: str, i: int):
    return Parser(p).ignore().run((s, i))


def spec_ignore(p: Fn[Out], s: str, i: int):
    match p((s, i)):
        case Result(tag="ok", ok=(_, rest)):
            return Ok((None, rest))
        case Result(error=e):
            return Error(e)


def impl_bind(p: Fn[Out], f: Fn[Parser[Any]], s: str, i: int):
    return P.bind(f)(Parser(p)).run((s, i))


def impl_bind__method(p: Fn[Out], f: Fn[Parser[Any]], s: str, i: int):
    return Parser(p).bind(f).run((s, i))


def spec_bind(p: Fn[Out], f: Fn[Parser[Any]], s: str, i: int):
    match p((s, i)):
        case Result(tag="ok", ok=(v, rest)):
            return f(v).run(rest)
        case Result(error=e):
            return Error(e)


def impl_between(o: Fn[Out], c: Fn[Out], p: Fn[Out], s: str, i: int):
    return P.between(Parser(o))(Parser(c))(Parser(p)).run((s, i))


def impl_between__method(o: Fn[Out], c: Fn[Out], p: Fn[Out], s: str, i: int):
    return Parser(p).between(Parser(o), Parser(c)).run((s, i))


def spec_between(o: Fn[Out], c: Fn[Out], p: Fn[Out], s: str, i: int):
    match o((s, i)):
        case Result(tag="ok", ok=(_, r1)):
            match p(r1):
                case Result(tag="ok", ok=(v, r2)):
                    match c(r2):
                        case Result(tag="ok", ok=(_, r3)):
                            return Ok((v, r3))
                        case Result(error=e):
                            return Error(e)
                case Result(error=e):
                    return Error(e)
        case Result(error=e):
            return Error(e)


def impl_sepBy1(p: Fn[Out], d: Fn[Out], s: str, i: int):
    return P.sep_by1(Parser(p), Parser(d)).run((s, i)).map(lambda r: (list(r[0]), r[1]))


def spec_sepBy1(p: Fn[Out], d: Fn[Out], s: str, i: int):
    match p((s, i)):
        case Result(tag="ok", ok=(first, rest)):
            out = []
        case Result(error=e):
            return Error(e)
    while True:
        match d(rest):
            case Result(tag="ok", ok=(_, r1)):
                match p(r1):
                    case Result(tag="ok", ok=(v, r2)):
                        well_formed(rest, r2)
                        if r2[1] == rest[1]:
                            return Ok(([first, *out], rest))
                        out.append(v)
                        rest = r2
                    case Result(error=_):
                        return Ok(([first, *out], rest))
            case Result(error=_):
                return Ok(([first, *out], rest))


def impl_sepBy(p: Fn[Out], d: Fn[Out], s: str, i: int):
    return P.sep_by(Parser(p), Parser(d)).run((s, i)).map(lambda r: (list(r[0]), r[1]))


def spec_sepBy(p: Fn[Out], d: Fn[Out], s: str, i: int):
    match p((s, i)):
        case Result(tag="ok", ok=(first, rest)):
            out = []
        case Result(error=_):
            return Ok(([], (s, i)))
    while True:
        match d(rest):
            case Result(tag="ok", ok=(_, r1)):
                match p(r1):
                    case Result(tag="ok", ok=(v, r2)):
                        well_formed(rest, r2)
                        if r2[1] == rest[1]:
                            return Ok(([first, *out], rest))
                        out.append(v)
                        rest = r2
                    case Result(error=_):
                        return Ok(([first, *out], rest))
            case Result(error=_):
                return Ok(([first, *out], rest))


def shape(r):
    match r:
        case Result(tag="ok", ok=(v, rest)):
            return (v, rest)
        case Result(error=_):
            return None


def impl_anyOf(s: str, i: int):
    return shape(P.any_of("ab").run((s, i)))


def impl_anyOf__method(s: str, i: int):
    return shape(Parser.any_of("ab").run((s, i)))


def spec_anyOf(s: str, i: int):
    if i < len(s):
        if s[i] == "a":
            return ("a", (s, i + 1))
        if s[i] == "b":
            return ("b", (s, i + 1))
    return None


def impl_pstring(s: str, i: int):
    return shape(P.pstring("ab").run((s, i)))


def spec_pstring(s: str, i: int):
    if i < len(s) and s[i] == "a" and i + 1 < len(s) and s[i + 1] == "b":
        return ("ab", (s, i + 2))
    return None


def impl_noInput(c: str):
    return (
        P.pchar(c)("").is_error(),
        P.parse_digit("").is_error(),
        P.digits("").is_error(),
        P.whitespace("").is_error(),
        P.pint("").is_error(),
        P.pfloat("").is_error(),
    )


def spec_noInput(c: str):
    return (True, True, True, True, True, True)


def impl_backtrack(p: Fn[Out], q: Fn[Out], r: Fn[Out], s: str, i: int):
    return Parser(p).and_then(Parser(q)).or_else(Parser(r)).run((s, i))


def spec_backtrack(p: Fn[Out], q: Fn[Out], r: Fn[Out], s: str, i: int):
    match p((s, i)):
        case Result(tag="ok", ok=(v, rest)):
            match q(rest):
                case Result(tag="ok", ok=(w, rest2)):
                    return Ok(((v, w), rest2))
                case Result(error=_):
                    return r((s, i))
        case Result(error=_):
            return r((s, i))


def impl_reuse(p: Fn[Out], f: Fn[Any], s: str, i: int, t: str, j: int):
    m = Parser(p).map(f)
    return (m.run((s, i)), m.run((t, j)))


def spec_reuse(p: Fn[Out], f: Fn[Any], s: str, i: int, t: str, j: int):
    match p((s, i)):
        case Result(tag="ok", ok=(v, rest)):
            a = Ok((f(v), rest))
        case Result(error=e):
            a = Error(e)
    match p((t, j)):
        case Result(tag="ok", ok=(v, rest)):
            b = Ok((f(v), rest))
        case Result(error=e):
            b = Error(e)
    return (a, b)


def impl_startsWith(p: Fn[OutS], q: Fn[OutS], s: str, i: int):
    return P.starts_with(Parser(p))(Parser(q)).run((s, i))


def spec_startsWith(p: Fn[OutS], q: Fn[OutS], s: str, i: int):
    match p((s, i)):
        case Result(tag="ok", ok=(v, rest)):
            match q(rest):
                case Result(tag="ok", ok=(w, rest2)):
                    return Ok((v.startswith(w), rest2))
                case Result(error=e):
                    return Error(e)
        case Result(error=e):
            return Error(e)


def impl_digit(s: str, i: int):
    return shape(P.parse_digit.run((s, i)))


def spec_digit(s: str, i: int):
    return shape(P.any_of("0123456789").run((s, i)))


def impl_space(s: str, i: int):
    return shape(P.whitespace_char.run((s, i)))


def spec_space(s: str, i: int):
    return shape(P.any_of(" \t\n\r\x0b\x0c").run((s, i)))


def impl_letter(s: str, i: int):
    return shape(P.parse_letters.run((s, i)))


def spec_letter(s: str, i: int):
    if i >= len(s):
        return None
    for c in "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ":
        if s[i] == c:
            return (c, (s, i + 1))
    return None


def impl_lowercase(s: str, i: int):
    return shape(P.parse_lowercase.run((s, i)))


def spec_lowercase(s: str, i: int):
    if i >= len(s):
        return None
    for c in "abcdefghijklmnopqrstuvwxyz":
        if s[i] == c:
            return (c, (s, i + 1))
    return None


def impl_starmap3(p: Fn[Result[tuple[tuple[Any, Any, Any], tuple[str, int]], str]], f: Fn[Any], s: str, i: int):
    return P.starmap(f)(Parser(p)).run((s, i))


def spec_starmap3(p: Fn[Result[tuple[tuple[Any, Any, Any], tuple[str, int]], str]], f: Fn[Any], s: str, i: int):
    match p((s, i)):
        case Result(tag="ok", ok=((v, w, x), rest)):
            return Ok((f(v, w, x), rest))
        case Result(error=e):
            return Error(e)


def impl_starmap1(p: Fn[Result[tuple[tuple[Any], tuple[str, int]], str]], f: Fn[Any], s: str, i: int):
    return P.starmap(f)(Parser(p)).run((s, i))


def spec_starmap1(p: Fn[Result[tuple[tuple[Any], tuple[str, int]], str]], f: Fn[Any], s: str, i: int):
    match p((s, i)):
        case Result(tag="ok", ok=((v,), rest)):
            return Ok((f(v), rest))
        case Result(error=e):
            return Error(e)


def impl_againChoice(p: Fn[Out], q: Fn[Out], s: str, i: int, t: str, j: int):
    """a parser holds no state between two inputs"""
    c = P.choice(Block([Parser(p), Parser(q)]))
    return c.run((s, i)), c.run((t, j))


def spec_againChoice(p: Fn[Out], q: Fn[Out], s: str, i: int, t: str, j: int):
    a = p((s, i))
    if not a.is_ok():
        a = q((s, i))
    b = p((t, j))
    if not b.is_ok():
        b = q((t, j))
    return a, b


def impl_againSequence(p: Fn[Out], s: str, i: int, t: str, j: int):
    m = P.sequence(Block([Parser(p)]))
    return m.run((s, i)).map(lambda r: (list(r[0]), r[1])), m.run((t, j)).map(lambda r: (list(r[0]), r[1]))


def spec_againSequence(p: Fn[Out], s: str, i: int, t: str, j: int):
    return p((s, i)).map(lambda r: ([r[0]], r[1])), p((t, j)).map(lambda r: ([r[0]], r[1]))
