"""Conversions of options to and from sequences, lists, blocks and arrays keep the payload, whatever it is."""
from typing import Any

from expression import Nothing, Ok, Option, Result, Some, option, result
from expression.collections import Block, Seq, array, block, seq


def impl_toList(o: Option[Any]):
    return o.to_list()


def impl_toList__fn(o: Option[Any]):
    return option.to_list(o)


def spec_toList(o: Option[Any]):
    return [o.some] if o.tag == "some" else []


def impl_toSeq(o: Option[Any]):
    return list(o.to_seq())


def impl_toSeq__fn(o: Option[Any]):
    return list(option.to_seq(o))


def spec_toSeq(o: Option[Any]):
    return [o.some] if o.tag == "some" else []


# whatever the payload is: a container is one value, and so is a falsy one
def impl_toSeqAnything(x: Any, y: Any):
    def whole(v):
        return list(Some(v).to_seq()), Some(v).to_list(), list(Block.of_option(Some(v)))
    return whole((x, y)), whole([x, y]), whole(()), whole(None), whole(0), whole(""), whole("ab"), whole(Some(x)), whole(Nothing), whole(Block((x, y))), whole(Block.empty())


def spec_toSeqAnything(x: Any, y: Any):
    def whole(v):
        return [v], [v], [v]
    return whole((x, y)), whole([x, y]), whole(()), whole(None), whole(0), whole(""), whole("ab"), whole(Some(x)), whole(Nothing), whole(Block((x, y))), whole(Block.empty())


def impl_ofOption(o: Option[Any]):
    return list(Block.of_option(o))


def impl_ofOption__fn(o: Option[Any]):
    return list(block.of_option(o))


def impl_ofOption__seq(o: Option[Any]):
    return list(Block.of_seq(o.to_seq()))


def spec_ofOption(o: Option[Any]):
    return [o.some] if o.tag == "some" else []


def impl_arrayOfOption(x: int):
    return list(array.of_option(Some(x))), list(array.of_option(Nothing)), list(array.of_option(Some(0))), list(array.of_option(Some("")))


def spec_arrayOfOption(x: int):
    return [x], [], [0], [""]


def impl_back(o: Option[Any]):
    return Block.of_option(o).try_head(), Seq.of_iterable(o.to_list()).choose(Some).to_list().try_head()


def spec_back(o: Option[Any]):
    same = Option(some=o.some) if o.tag == "some" else Option(none=None)
    return same, same


def impl_backResult(r: Result[Any, Any], e: Any):
    return Result.of_option(r.to_option(), e), option.of_result(r).to_result(e)


def spec_backResult(r: Result[Any, Any], e: Any):
    same = Result(ok=r.ok) if r.tag == "ok" else Result(error=e)
    return same, same


def impl_optionalPayloads(x: Any):
    def there(v):
        return Option.of_optional(v), Option.of_obj(v), Some(v).to_optional(), Ok(v).to_option(), Some(v).to_result(1), Result.of_option(Some(v), 1)
    return there(0), there(""), there(()), there([]), there(False), there((x,)), there(Some(x)), there(Nothing), there(Block.empty()), there(Ok(x))


def spec_optionalPayloads(x: Any):
    def there(v):
        return Option(some=v), Option(some=v), v, Option(some=v), Result(ok=v), Result(ok=v)
    return there(0), there(""), there(()), there([]), there(False), there((x,)), there(Some(x)), there(Nothing), there(Block.empty()), there(Ok(x))


def impl_nonePayloads():
    return Some(None).to_optional(), Ok(None).to_option(), Some(None).to_result(1), Result.of_option(Some(None), 1), Some(None).to_list(), Some(None).to_result_with(int), Result.of_option_with(Some(None), int)


def spec_nonePayloads():
    return None, Option(some=None), Result(ok=None), Result(ok=None), [None], Result(ok=None), Result(ok=None)


def impl_seqLists(xs: tuple[Any, ...]):
    return list(seq.to_list(xs)), list(Seq(xs).to_list()), list(Seq.of_iterable(xs)), list(Block.of_seq(xs)), list(block.of_seq(xs)), list(Block(xs))


def spec_seqLists(xs: tuple[Any, ...]):
    return list(xs), list(xs), list(xs), list(xs), list(xs), list(xs)
