"""Properties decided by comparing each function with a specification function (spec/src) path by path."""
from base import *
import build
import equiv
import props_green
import eqser

TECH = ("relational dataflow over MIR: every path of the function (loops summarised by their loop variables' recurrences) is matched with the paths "
        "of a specification function written in terms of simpler operations")
EXPL = ("The specification functions in spec/src are compiled against /repo's crate and never run. For each of them and for the function of "
        "the crate it specifies, the MIR is interpreted abstractly on all paths; loops are summarised by a fixpoint over their variables. Every path of the "
        "function must agree with every specification path whose conditions are compatible: same result, same calls of the caller's closures in the same order, "
        "and corresponding loops that start alike and step alike. ")
RULES = {"same-as-spec": "on every path the function returns what its specification returns and makes the same calls, for every input"}
NOTE = ("Paths that can be neither shown equal nor shown different are listed as undecided and raise no alarm. "
        "Trusted: the specification functions, the models of core's iterators in models/src, and rustc's MIR.")


def pairs(*prefixes):
    def run(rep):
        try:
            equiv.spec_prog()
        except build.BuildError as x:
            # the analysed tree itself builds: its interface no longer fits the specification
            rep.unk("same-as-spec", "spec", "the specification does not build against this tree: " + str(x)[-300:])
            return
        names = [n for p in prefixes for n in equiv.spec_names(p)]
        pmap(rep, equiv.pair_rule, names)

    return run


def both(*fs):
    def run(rep):
        for f in fs:
            f(rep)

    return run


def check(run, expl, assumptions=(), note="", rules=None):
    return dict(run=run, technique=TECH, explanation=EXPL + expl, rules=rules or RULES, assumptions=list(assumptions), note=note + NOTE)


CHECKS = {
    "C16": check(pairs("c16_"), "Covered: Preorder and PreorderWithTokens (construction, every event of next, skip_subtree), descendants and descendants_with_tokens.",
                 ["skip_subtree is called between an Enter event and the next event (the documented use)"]),
    "C17": check(both(pairs("c17"), props_green.green_children), "Covered: next of the child, sibling and ancestor iterators, their by-kind variants (which children are offered to the filter and in which order), "
                 "and the forms for editable trees, where each navigation step is compared at the number of caller callbacks made before it. The iterator over a green node's children is compared, method by method, with the iterator over the slice.",
                 rules=dict(RULES, **{"green-children": "each method of the green children iterator returns what the same method of the slice iterator returns, as a reference to the child, and leaves the same state"})),
    "C18": check(pairs("c18_"), "Covered: every SyntaxText operation: slicing, length, chunks, char queries, comparison with str, Display."),
    "C19": check(pairs("c19_"), "Covered: SyntaxNodePtr::new, try_to_node, to_node and cast; AstPtr::new, try_to_node, to_node, cast, conversion, clone and equality; for every language and AST type."),
    "C23": check(pairs("c23_"), "Covered: token_at_offset and covering_element, including every panic on a bad offset or range; the children of a node are a list fixed by the node."),
    "C24": check(pairs("c24_"), "Covered: support::child, children and token, the AstChildren iterator, AstNode::clone_for_update and clone_subtree; for every language and AST type; the children of a node are a list fixed by the node."),
    "C25": check(pairs("c25_"), "Covered: SyntaxNode::replace_with (one level, its recursion on the parent being the same function) and SyntaxToken::replace_with. "
                 "The call for the parent and GreenNodeData::replace_child are compared by their arguments."),
    "C28": check(pairs("c28_"), "Covered: Display of cursor, green and typed nodes, tokens and elements and of SyntaxText; Debug of typed nodes (also the indented form) and tokens. "
                 "What is written is a sequence of writes of values, each of which may fail; the events of the tree walk are a list fixed by the node (checked by C16).",
                 ["width, precision and alignment flags of the formatter are not compared"]),
    "C04": check(both(pairs("c04"), props_green.child_place), "Covered: GreenNode::new for every list of elements (kind, length, offset of every child, order), GreenToken::new, replace_child, insert_child, remove_child and "
                 "splice_children, children(), and child_at_range: on every path what is returned is a child of the slice with its own index and offset that contains the range, and a child containing a range which is not empty is found.",
                 ["binary_search_by finds an element that compares equal, or a place with lesser elements before and greater ones after", "from_header_and_iter stores what the iterator yields (C21)", "text lengths do not overflow 32 bits"],
                 rules=dict(RULES, **{"child-at-range": "the child returned is the one at the index returned, with its offset, and contains the range", "search-order": "the comparison of the binary search is monotone over children that lie one after the other", "child-found": "a child that contains a range which is not empty is not missed",
                                      "all-children": "children() runs over the whole slice"})),
    "C20": check(both(pairs("c20_"), eqser.shapes), "Covered: Serialize for SyntaxNode and SyntaxToken, with the private helpers they pass to the serializer interpreted as part of them. The calls of the serializer "
                 "(map, keys, values, sequence, elements, end) are a sequence of effects each of which may report an error, which has to be returned at once.",
                 ["what serializers do with the calls is theirs"], rules=dict(RULES, announced="maps and sequences have as many entries as announced, or announce none")),
    "C06": check(pairs("c06_"), "Covered: every operation of GreenNodeBuilder (token, start_node, finish_node, checkpoint with start_node_at, finish), from any open nodes and finished children; "
                 "also compared is the builder left behind, and by a panic. The cache hands out something that depends on what it is asked for (C05 says what)."),
}
