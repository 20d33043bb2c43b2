"""Serialised containers are validated back to equal values, from JSON data and from Python data.

The schemas the library hands to pydantic are followed as pydantic-core follows them (models of the schema
constructors); the payload types are an int, a str and a class with model_dump."""
from typing import Any

from expression import Error, Nothing, Ok, Option, Result, Some, result
from expression.collections import Block, Seq, block
from models.stdlib import sa_Alias


class Num:
    """the type int"""

    def sa_validate(self, v, json):
        if isinstance(v, int):
            return v
        raise ValueError


class Text:
    """the type str"""

    def sa_validate(self, v, json):
        if isinstance(v, str):
            return v
        raise ValueError


class Rec:
    def __init__(self, n):
        self.n = n

    def model_dump(self):
        return {"n": self.n}

    def __eq__(self, other):
        return isinstance(other, Rec) and self.n == other.n


class RecType:
    """the type Rec"""

    def sa_validate(self, v, json):
        if isinstance(v, Rec):
            return v
        if isinstance(v, dict):
            return Rec(v["n"])
        raise ValueError


class AnyType:
    def sa_validate(self, v, json):
        return v


class NoneType_:
    def sa_validate(self, v, json):
        if v is None:
            return None
        raise ValueError


class Elements:
    def __init__(self, elem):
        self.elem = elem

    def sa_validate(self, v, json):
        if isinstance(v, (list, tuple)):
            return [self.elem.sa_validate(x, json) for x in v]
        raise ValueError


class Handler:
    """pydantic's schema generator"""

    def generate_schema(self, tp):
        if tp is None:
            return NoneType_()
        if isinstance(tp, (Num, Text, RecType)):
            return tp
        if isinstance(tp, sa_Alias):
            if tp.origin in (Option, Result, Block):
                return tp.origin.__get_pydantic_core_schema__(tp, self)
            return Elements(self.generate_schema(tp.args[0]))
        return AnyType()


def schema(tp):
    return Handler().generate_schema(tp)


def there_and_back(tp, v, json):
    s = schema(tp)
    return s.sa_validate(s.serialization.function(v), json)


def impl_optionNum(x: int, json: bool):
    return there_and_back(sa_Alias(Option, (Num(),)), Some(x), json)


def spec_optionNum(x: int, json: bool):
    return Some(x)


def impl_optionText(s: str, json: bool):
    return there_and_back(sa_Alias(Option, (Text(),)), Some(s), json)


def spec_optionText(s: str, json: bool):
    return Some(s)


def impl_optionNothing(json: bool):
    return there_and_back(sa_Alias(Option, (Num(),)), Nothing, json)


def spec_optionNothing(json: bool):
    return Nothing


def impl_optionBare(x: int, json: bool):
    s = Option.__get_pydantic_core_schema__(Option, Handler())
    return (s.sa_validate(s.serialization.function(Some(x)), json), s.sa_validate(s.serialization.function(Nothing), json))


def spec_optionBare(x: int, json: bool):
    return (Some(x), Nothing)


def impl_optionRec(x: int, json: bool):
    r = there_and_back(sa_Alias(Option, (RecType(),)), Some(Rec(x)), json)
    return (r == Some(Rec(x)), r.some.n)


def spec_optionRec(x: int, json: bool):
    return (True, x)


def impl_optionOption(x: int, json: bool):
    return there_and_back(sa_Alias(Option, (sa_Alias(Option, (Num(),)),)), Some(Some(x)), json)


def spec_optionOption(x: int, json: bool):
    return Some(Some(x))


def impl_optionInstance(o: Option[int]):
    return schema(sa_Alias(Option, (Num(),))).sa_validate(o, False)


def spec_optionInstance(o: Option[int]):
    return o


def impl_optionRejects(s: str, json: bool):
    try:
        schema(sa_Alias(Option, (Num(),))).sa_validate(s, json)
    except ValueError:
        return "rejected"
    return "accepted"


def spec_optionRejects(s: str, json: bool):
    return "rejected"


def impl_resultOk(x: int, json: bool):
    return there_and_back(sa_Alias(Result, (Num(), Text())), Ok(x), json)


def spec_resultOk(x: int, json: bool):
    return Ok(x)


def impl_resultError(s: str, json: bool):
    return there_and_back(sa_Alias(Result, (Num(), Text())), Error(s), json)


def spec_resultError(s: str, json: bool):
    return Error(s)


def impl_resultRec(x: int, json: bool):
    r = there_and_back(sa_Alias(Result, (RecType(), RecType())), Ok(Rec(x)), json)
    e = there_and_back(sa_Alias(Result, (RecType(), RecType())), Error(Rec(x)), json)
    return (r == Ok(Rec(x)), r.ok.n, e == Error(Rec(x)), e.error.n)


def spec_resultRec(x: int, json: bool):
    return (True, x, True, x)


def impl_resultNone(json: bool):
    t = sa_Alias(Result, (None, None))
    return (there_and_back(t, Ok(None), json), there_and_back(t, Error(None), json))


def spec_resultNone(json: bool):
    return (Ok(None), Error(None))


def impl_resultBare(x: int, s: str, json: bool):
    t = Result.__get_pydantic_core_schema__(Result, Handler())
    return (t.sa_validate(t.serialization.function(Ok(x)), json), t.sa_validate(t.serialization.function(Error(s)), json))


def spec_resultBare(x: int, s: str, json: bool):
    return (Ok(x), Error(s))


def impl_resultOption(x: int, json: bool):
    t = sa_Alias(Result, (sa_Alias(Option, (Num(),)), Text()))
    return (there_and_back(t, Ok(Some(x)), json), there_and_back(t, Ok(Nothing), json))


def spec_resultOption(x: int, json: bool):
    return (Ok(Some(x)), Ok(Nothing))


def impl_optionResult(x: int, s: str, json: bool):
    t = sa_Alias(Option, (sa_Alias(Result, (Num(), Text())),))
    return (there_and_back(t, Some(Ok(x)), json), there_and_back(t, Some(Error(s)), json), there_and_back(t, Nothing, json))


def spec_optionResult(x: int, s: str, json: bool):
    return (Some(Ok(x)), Some(Error(s)), Nothing)


def impl_resultInstance(r: Result[int, str]):
    return schema(sa_Alias(Result, (Num(), Text()))).sa_validate(r, False)


def spec_resultInstance(r: Result[int, str]):
    return r


def impl_blockNum(xs: tuple[int, ...], json: bool):
    return there_and_back(sa_Alias(Block, (Num(),)), Block(xs), json)


def spec_blockNum(xs: tuple[int, ...], json: bool):
    return Block(xs)


def impl_blockBare(x: int, y: int, json: bool):
    s = Block.__get_pydantic_core_schema__(Block, Handler())
    return s.sa_validate(s.serialization.function(Block((x, y))), json)


def spec_blockBare(x: int, y: int, json: bool):
    return Block((x, y))


def impl_blockRec(x: int, y: int, json: bool):
    r = there_and_back(sa_Alias(Block, (RecType(),)), Block((Rec(x), Rec(y))), json)
    return (r == Block((Rec(x), Rec(y))), len(r), r.item(1).n)


def spec_blockRec(x: int, y: int, json: bool):
    return (True, 2, y)


def impl_blockOption(x: int, json: bool):
    return there_and_back(sa_Alias(Block, (sa_Alias(Option, (Num(),)),)), Block((Some(x), Nothing)), json)


def spec_blockOption(x: int, json: bool):
    return Block((Some(x), Nothing))


def impl_blockResult(x: int, s: str, json: bool):
    return there_and_back(sa_Alias(Block, (sa_Alias(Result, (Num(), Text())),)), Block((Ok(x), Error(s))), json)


def spec_blockResult(x: int, s: str, json: bool):
    return Block((Ok(x), Error(s)))


def impl_optionBlock(x: int, json: bool):
    return there_and_back(sa_Alias(Option, (sa_Alias(Block, (Num(),)),)), Some(Block((x,))), json)


def spec_optionBlock(x: int, json: bool):
    return Some(Block((x,)))


def impl_blockInstance(b: Block[int]):
    return schema(sa_Alias(Block, (Num(),))).sa_validate(b, False)


def spec_blockInstance(b: Block[int]):
    return b


class Old:
    """a payload with dict() only"""

    def __init__(self, n):
        self.n = n

    def dict(self):
        return {"n": self.n}


def impl_optionDict(o: Option[int], x: int):
    return (o.dict(), Some(Rec(x)).dict()["n"], Some(Old(x)).dict()["n"], Some(Some(x)).dict())


def spec_optionDict(o: Option[int], x: int):
    return (o.some if o.tag == "some" else None, x, x, x)


def impl_resultDict(r: Result[int, str], x: int):
    d = r.dict()
    return (d["tag"], d.get("ok"), d.get("error"), len(d), Ok(Rec(x)).dict()["ok"]["n"], Error(Old(x)).dict()["error"]["n"], result.dict(Ok(x))["ok"])


def spec_resultDict(r: Result[int, str], x: int):
    if r.tag == "ok":
        return ("ok", r.ok, None, 2, x, x, x)
    return ("error", None, r.error, 2, x, x, x)


def impl_blockDict(b: Block[int], x: int):
    return (b.dict(), block.dict(b), Block((Rec(x),)).dict()[0]["n"], Block((Some(x), Nothing)).dict(), Block((Old(x),)).dict()[0]["n"])


def spec_blockDict(b: Block[int], x: int):
    return (list(b), list(b), x, [x, None], x)


def impl_seqDict(xs: tuple[int, ...], x: int):
    return (list(Seq(xs).dict()), list(Seq((Some(x), Nothing)).dict()), list(Seq((Rec(x),)).dict())[0]["n"])


def spec_seqDict(xs: tuple[int, ...], x: int):
    return (list(xs), [x, None], x)


# payloads which are falsy are converted like any other
class Blank:
    """a falsy payload with model_dump (and dict)"""

    def __init__(self, n):
        self.n = n

    def __bool__(self):
        return False

    def model_dump(self):
        return {"n": self.n}

    def dict(self):
        return {"old": self.n}


def impl_falsyDict(x: int):
    return (Some(Blank(x)).dict()["n"], Ok(Blank(x)).dict()["ok"]["n"], Error(Blank(x)).dict()["error"]["n"], Block((Blank(x),)).dict()[0]["n"])


def spec_falsyDict(x: int):
    return (x, x, x, x)


def impl_emptyDict():
    e = Block.empty()
    return (Some(e).dict(), Ok(e).dict()["ok"], Error(e).dict()["error"], Block((e, e)).dict(), e.dict(), Some(None).dict(), Ok(None).dict()["ok"])


def spec_emptyDict():
    return ([], [], [], [[], []], [], None, None)


def impl_constantsDict(x: int):
    return (Block((None, x, None)).dict(), list(Seq((None, x, None)).dict()), Block((0, "", False)).dict(), Ok(0).dict()["ok"], Error("").dict()["error"], Some(0).dict(), Some("").dict())


def spec_constantsDict(x: int):
    return ([None, x, None], [None, x, None], [0, "", False], 0, "", 0, "")


def impl_blockConstants(x: int, json: bool):
    s = Block.__get_pydantic_core_schema__(Block, Handler())
    return (s.sa_validate(s.serialization.function(Block((None, x, None))), json), s.sa_validate(s.serialization.function(Block((0, x, 0))), json), s.sa_validate([], json))


def spec_blockConstants(x: int, json: bool):
    return (Block((None, x, None)), Block((0, x, 0)), Block(()))


def impl_optionEmptyBlock(json: bool):
    t = sa_Alias(Option, (sa_Alias(Block, (Num(),)),))
    return (there_and_back(t, Some(Block(())), json), there_and_back(t, Nothing, json))


def spec_optionEmptyBlock(json: bool):
    return (Some(Block(())), Nothing)


def impl_resultBlock(x: int, json: bool):
    t = sa_Alias(Result, (sa_Alias(Block, (Num(),)), sa_Alias(Block, (Text(),))))
    return (there_and_back(t, Ok(Block(())), json), there_and_back(t, Error(Block(())), json), there_and_back(t, Ok(Block((x, x))), json))


def spec_resultBlock(x: int, json: bool):
    return (Ok(Block(())), Error(Block(())), Ok(Block((x, x))))


def impl_resultResult(x: int, s: str, json: bool):
    t = sa_Alias(Result, (sa_Alias(Result, (Num(), Text())), Text()))
    return (there_and_back(t, Ok(Ok(x)), json), there_and_back(t, Ok(Error(s)), json), there_and_back(t, Error(s), json))


def spec_resultResult(x: int, s: str, json: bool):
    return (Ok(Ok(x)), Ok(Error(s)), Error(s))


# data which does not fit
def rejected(tp, data, json):
    try:
        schema(tp).sa_validate(data, json)
    except ValueError:
        return "rejected"
    return "accepted"


def impl_resultRejects(x: int, s: str, json: bool):
    t = sa_Alias(Result, (Num(), Text()))
    return (rejected(t, {"tag": "ok", "ok": s}, json), rejected(t, {"tag": "error", "error": x}, json), rejected(t, {"tag": "ok"}, json), rejected(t, {"tag": "error"}, json))


def spec_resultRejects(x: int, s: str, json: bool):
    return ("rejected", "rejected", "rejected", "rejected")


def impl_resultRejectsMissing(x: int, json: bool):
    t = sa_Alias(Result, (None, None))
    a = sa_Alias(Result, (AnyType(), AnyType()))
    return (rejected(t, {"tag": "ok"}, json), rejected(t, {"tag": "error"}, json), rejected(a, {"tag": "ok", "value": x}, json), rejected(a, {}, json))


def spec_resultRejectsMissing(x: int, json: bool):
    return ("rejected", "rejected", "rejected", "rejected")


def impl_blockRejects(x: int, s: str, json: bool):
    t = sa_Alias(Block, (Num(),))
    return (rejected(t, [s], json), rejected(t, [x, s], json), rejected(t, x, json))


def spec_blockRejects(x: int, s: str, json: bool):
    return ("rejected", "rejected", "rejected")
