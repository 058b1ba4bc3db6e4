"""Contract of relationship_is_left_to_right, over every text that is a written relationship (C20 gives these texts)."""
import importlib

from .wordly import *
from exceptions.wql.parsing import NonDirectedRelationshipError

rl_ = importlib.import_module("wiggle_query_language.clauses.transform_helpers.relationships")
BODY = r"\[[^<>\[\]]*(?:\[[^<>\[\]]*\][^<>\[\]]*)*\]"  # whatever stands between the brackets, lists included
RIGHT, LEFT = "a right arrow points to the right, a left arrow to the left", "a text with both heads is rejected"
language("right arrow", rf"\s*-+{BODY}-+>\s*", 20)
language("left arrow", rf"\s*<-+{BODY}-+\s*", 20)
language("both heads", rf"\s*<-+{BODY}-+>\s*", 20)


def arrow_block():
    under(rl_.relationship_is_left_to_right)

    @block("relationship_is_left_to_right", [RIGHT, LEFT])
    def _():
        use_texts()
        s = any_str("s")
        tag, r = call(rl_.relationship_is_left_to_right, s)
        S = strterm(s)
        if tag == "exc":
            for l in ("right arrow", "left arrow"):
                if not impossible(S, [lang(l, s)]):
                    fail(RIGHT, f"raised {r}")
            return
        if impossible(S, [lang("both heads", s)]):
            reach(LEFT)
        else:
            fail(LEFT, f"returned {r}")
        settle(RIGHT, S, [lang("right arrow", s)] + pieces(), truth(r))
        settle(RIGHT, S, [lang("left arrow", s)] + pieces(), z3.Not(truth(r)))
