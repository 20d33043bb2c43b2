"""Textual forms show the case and every element in order; casts hand back the very value or refuse."""
from typing import Any

from expression import Error, Failure, Nothing, Ok, Option, Result, Some, Success, Try, downcast, failwith, try_downcast, upcast
from expression.collections import Block, Map, Seq, TypedArray
from expression.core.option import model_dump

from .lib import assume

ENTRY = False
DEEP = 12


# ---------------------------------------------------------------- options and results
def impl_optionText(x: Any):
    return str(Some(x))


def impl_optionText__repr(x: Any):
    return repr(Some(x))


def impl_optionText__format(x: Any):
    return f"{Some(x)}"


def spec_optionText(x: Any):
    return f"Some {x}"


def impl_nothingText():
    return str(Nothing), repr(Nothing)


def spec_nothingText():
    return "Nothing", "Nothing"


def impl_okText(x: Any):
    return str(Ok(x))


def impl_okText__repr(x: Any):
    return repr(Ok(x))


def spec_okText(x: Any):
    return f"Ok {x}"


def impl_errorText(x: Any):
    return str(Error(x))


def impl_errorText__repr(x: Any):
    return repr(Error(x))


def spec_errorText(x: Any):
    return f"Error {x}"


def impl_successText(x: Any):
    return str(Success(x))


def spec_successText(x: Any):
    return f"Success {x}"


def impl_failureText(e: Exception):
    return str(Failure(e))


def spec_failureText(e: Exception):
    return f"Failure {e}"


# ---------------------------------------------------------------- collections
def impl_blockText(x: Any, y: Any, z: Any):
    return str(Block((x, y, z)))


def impl_blockText__repr(x: Any, y: Any, z: Any):
    return repr(Block((x, y, z)))


def spec_blockText(x: Any, y: Any, z: Any):
    return f"[{x}, {y}, {z}]"


def impl_blockTextSmall(x: Any):
    return str(Block(())), str(Block((x,)))


def spec_blockTextSmall(x: Any):
    return "[]", f"[{x}]"


def impl_blockTextAll(xs: tuple[Any, ...]):
    return str(Block(xs))


def spec_blockTextAll(xs: tuple[Any, ...]):
    return f"[{', '.join([str(x) for x in xs])}]"


def impl_arrayTextSmall(x: Any, y: Any):
    return str(TypedArray(())), str(TypedArray((x,))), repr(TypedArray((x, y)))


def spec_arrayTextSmall(x: Any, y: Any):
    return "[||]", f"[|{x}|]", f"[|{x}, {y}|]"


def impl_seqText(x: Any, y: Any, z: Any):
    return str(Seq((x, y, z)))


def impl_seqText__repr(x: Any, y: Any, z: Any):
    return repr(Seq((x, y, z)))


def spec_seqText(x: Any, y: Any, z: Any):
    return f"[{x}; {y}; {z}]"


def impl_seqTextSmall(x: Any):
    return str(Seq(())), str(Seq((x,)))


def spec_seqTextSmall(x: Any):
    return "[]", f"[{x}]"


def impl_mapTextSmall(k: int, x: Any):
    return str(Map.empty()), str(Map.empty().add(k, x)), repr(Map.empty().add(k, x))


def spec_mapTextSmall(k: int, x: Any):
    return "map []", f"map [({k}, {x})]", f"map [({k}, {x})]"


def impl_mapTextKey(k: str, x: Any):
    return str(Map.empty().add(k, x))


def spec_mapTextKey(k: str, x: Any):
    return f'map [("{k}", {x})]'


def impl_mapTextTwo(k: int, j: int, x: Any, y: Any):
    assume(k < j)
    return str(Map.empty().add(j, y).add(k, x))


def spec_mapTextTwo(k: int, j: int, x: Any, y: Any):
    assume(k < j)
    return f"map [({k}, {x}); ({j}, {y})]"


# ---------------------------------------------------------------- casts
class Animal:
    pass


class Dog(Animal):
    pass


def impl_downcast():
    d = Dog()
    return downcast(Dog, d) is d, downcast(Animal, d) is d, upcast(Animal, d) is d, try_downcast(Dog, d) is d, try_downcast(Animal, d) is d


def spec_downcast():
    return True, True, True, True, True


def impl_downcastRefused():
    a = Animal()
    try:
        downcast(Dog, a)
    except AssertionError:
        return try_downcast(Dog, a), upcast(Animal, a) is a


def spec_downcastRefused():
    return None, True


def impl_downcastFalsy():
    return try_downcast(int, 0), try_downcast(str, ""), try_downcast(list, ()), downcast(int, 0), downcast(str, ""), upcast(int, 0)


def spec_downcastFalsy():
    return 0, "", None, 0, "", 0


def impl_downcastAny(x: Any):
    return try_downcast(str, x)


def spec_downcastAny(x: Any):
    return x if isinstance(x, str) else None


def impl_downcastChecked(x: Any):
    return downcast(str, x)


def spec_downcastChecked(x: Any):
    if isinstance(x, str):
        return x
    raise AssertionError()


def impl_downcastGeneric(x: Any):
    return try_downcast(list[int], x)


def spec_downcastGeneric(x: Any):
    return x if isinstance(x, list) else None


def impl_upcastAny(x: Any):
    return upcast(object, x)


def spec_upcastAny(x: Any):
    return x


# ---------------------------------------------------------------- failing on purpose
def impl_failwith(s: str):
    failwith(s)


def spec_failwith(s: str):
    raise Exception(s)


def impl_modelDump(o: Option[int]):
    return model_dump(o)


def spec_modelDump(o: Option[int]):
    return o.some if o.tag == "some" else None


def impl_failwithKind():
    out = []
    for s in ("", "a"):
        try:
            failwith(s)
        except Exception as e:
            out.append((type(e) is Exception, e.args[0], len(e.args)))
    return out


def spec_failwithKind():
    return [(True, "", 1), (True, "a", 1)]


# ---------------------------------------------------------------- telling values
def impl_optionTextOf():
    return [str(Some(x)) for x in (0, "", None, False, "a", Some(0), Nothing, Some(Nothing))]


def spec_optionTextOf():
    return ["Some 0", "Some ", "Some None", "Some False", "Some a", "Some Some 0", "Some Nothing", "Some Some Nothing"]


def impl_resultTextOf():
    return [str(r) for x in (0, "", None, "a", Nothing) for r in (Ok(x), Error(x))], repr(Ok(Error("a"))), str(Success(0)), str(Success("a")), str(Success(None))


def spec_resultTextOf():
    return ["Ok 0", "Error 0", "Ok ", "Error ", "Ok None", "Error None", "Ok a", "Error a", "Ok Nothing", "Error Nothing"], "Ok Error a", "Success 0", "Success a", "Success None"


def impl_blockTextOf():
    return str(Block((3, 1, 2, 1))), str(Block((0, None, "", "a", 0))), str(Block(("",))), str(Block((None,))), str(Block((Block(()), Block((0,)), Some("a"))))


def spec_blockTextOf():
    return "[3, 1, 2, 1]", "[0, None, , a, 0]", "[]", "[None]", "[[], [0], Some a]"


NINETY_NINE = (
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0, 1,
    2, 3, 4, 5, 6, 7, 8, 9, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0, 1, 2, 3,
    4, 5, 6, 7, 8, 9, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0, 1, 2, 3, 4, 5,
    6, 7, 8,
)
HUNDRED = (
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0, 1,
    2, 3, 4, 5, 6, 7, 8, 9, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0, 1, 2, 3,
    4, 5, 6, 7, 8, 9, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0, 1, 2, 3, 4, 5,
    6, 7, 8, 9,
)
HUNDRED_ONE = (
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0, 1,
    2, 3, 4, 5, 6, 7, 8, 9, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0, 1, 2, 3,
    4, 5, 6, 7, 8, 9, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0, 1, 2, 3, 4, 5,
    6, 7, 8, 9, 0,
)
HUNDRED_TWENTY = (
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0, 1,
    2, 3, 4, 5, 6, 7, 8, 9, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0, 1, 2, 3,
    4, 5, 6, 7, 8, 9, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0, 1, 2, 3, 4, 5,
    6, 7, 8, 9, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9,
)


def impl_blockTextLong():
    return str(Block(HUNDRED_TWENTY)), str(Block(HUNDRED_ONE))


def spec_blockTextLong():
    return "[" + ", ".join([str(i) for i in HUNDRED_TWENTY]) + "]", "[" + ", ".join([str(i) for i in HUNDRED_ONE]) + "]"


def impl_arrayTextOf():
    return str(TypedArray((3, 1, 2, 1))), str(TypedArray(("b", "", "a"))), str(TypedArray((0,)))


def spec_arrayTextOf():
    return "[|3, 1, 2, 1|]", "[|b, , a|]", "[|0|]"


def impl_seqTextOf():
    return str(Seq((3, 1, 2, 1))), str(Seq((0, None, "", "a", 0))), str(Seq(("", "a"))), str(Seq((None, None))), str(Seq((Some("a"), Block((1, 2)))))


def spec_seqTextOf():
    return "[3; 1; 2; 1]", "[0; None; ; a; 0]", "[; a]", "[None; None]", "[Some a; [1, 2]]"


def impl_seqTextLong():
    return str(Seq(NINETY_NINE)), str(Seq(HUNDRED)), str(Seq(HUNDRED_ONE)), str(Seq(HUNDRED_TWENTY))


def spec_seqTextLong():
    whole, most = "; ".join([str(i) for i in HUNDRED]), "; ".join([str(i) for i in NINETY_NINE])
    return f"[{most}]", f"[{whole}]", f"[{whole}; ...]", f"[{whole}; ...]"


def impl_mapTextOf():
    m = Map.of_seq([(3, "c"), (1, 0), (2, None), (0, "")])
    return str(m), repr(Map.of_seq([("b", "x"), ("a", 0)])), str(m.remove(1).remove(3)), str(Map.empty().add(1, Block((1, 2))))


def spec_mapTextOf():
    return "map [(0, ); (1, 0); (2, None); (3, c)]", 'map [("a", 0); ("b", x)]', "map [(0, ); (2, None)]", "map [(1, [1, 2])]"
