#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the list below is the source)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe, "hook_needed": None}})

p("C01", "Green trees are reference counted exactly, and safely across threads",
  "Cloning a green node or token adds exactly one reference to it, dropping one removes exactly one, and the conversions between owned, borrowed and raw forms add or remove none. The memory and children of a green element are released exactly once, by whoever drops the last reference and only after synchronising with every earlier drop on any thread. A reference count that is about to overflow aborts the process.",
  ["schedules", "histories"], "every interleaving of clones and drops of shared green elements on any number of threads, and every sequence of conversions",
  "The tests run on one thread and never look at a count; a weakened memory ordering or an unbalanced conversion is invisible on x86 and without a sanitizer.",
  ["src/arc.rs", "src/green/node.rs", "src/green/token.rs"],
  [("Arc::clone / Arc::drop", "src/arc.rs"), ("ThinArc::with_arc, into_thin, from_thin", "src/arc.rs"), ("into_raw / from_raw / to_owned", "src/green/node.rs, src/green/token.rs")],
  ["Clone and Drop of GreenNode and GreenToken", "ToOwned of GreenNodeData and GreenTokenData"],
  [("ArcInner.count", "number of owners", "src/arc.rs")])
p("C02", "Green data may cross threads, cursors never do",
  "Owned and borrowed green nodes and tokens, and the node cache and builder that hold them, can be sent to and shared between threads. No cursor handle, and nothing that holds one (typed nodes and tokens, child iterators, traversals, tree text, typed AST iterators), can be sent to or shared with another thread.",
  ["programs", "schedules"], "every safe program that moves or shares the values",
  "A unit test asserts Send + Sync for three green types; nothing asserts that cursors, whose counts are not atomic, are neither.",
  ["src/arc.rs", "src/cursor.rs", "src/green/node.rs", "src/green/token.rs"],
  [("unsafe impl Send/Sync", "src/arc.rs"), ("NonNull field of SyntaxNode/SyntaxToken", "src/cursor.rs")],
  ["auto traits of every public type"])
p("C03", "A published green tree never changes",
  "Once a green node or token can be seen by anyone but the code constructing it, its kind, text, length and children never change. No public operation hands out mutable access to them, not even to the only owner.",
  ["programs", "histories", "schedules"], "every safe program using the public API",
  "A test can only observe a mutation it provokes; immutability is about all writers in the crate.",
  ["src/arc.rs", "src/green/node.rs", "src/green/token.rs"],
  [("Arc::get_mut guarded by uniqueness", "src/arc.rs"), ("text_len fixup in GreenNode::new", "src/green/node.rs")],
  ["GreenNode, GreenNodeData, GreenToken, GreenTokenData"])
p("C04", "Green nodes: length is the sum of the children, edits touch only their range",
  "A green node built from a kind and children reports that kind, exactly those children in order, the sum of their lengths as its own length, and for each child an offset equal to the total length of the children before it. Replacing, inserting, removing or splicing children returns a new node of the same kind in which precisely the requested positions differ, and the lookup of a child by range returns a child that contains the range, with its own index and offset.",
  ["inputs"], "every kind, every list of children and every index or range",
  "The tests build a handful of trees and never check an offset or an edit of a green node.",
  ["src/green/node.rs", "src/green/element.rs", "src/green/token.rs"],
  [("GreenNode::new", "src/green/node.rs"), ("replace_child, insert_child, remove_child, splice_children, child_at_range", "src/green/node.rs")],
  ["GreenNode::new", "GreenNodeData::{kind,text_len,children,replace_child,insert_child,remove_child,splice_children}", "GreenToken::new"],
  [("rel_offset", "offset of a child in its parent", "src/green/node.rs")])
p("C05", "Sharing green elements through the node cache never changes a tree",
  "A token or node requested through a cache has exactly the requested kind and text or children, whatever the cache already contains and however its hashes collide. An element is shared only with one of the same kind and the same text, or of the same kind and the same children in the same order. The children handed to the cache are consumed whether or not the result was shared.",
  ["histories", "inputs"], "every history of insertions into one or several builders sharing a cache, and every hash collision",
  "The tests never use a cache twice nor provoke a collision.",
  ["src/green/node_cache.rs", "src/green/builder.rs"],
  [("NodeCache::node, NodeCache::token", "src/green/node_cache.rs")],
  ["GreenNodeBuilder::{token,finish_node}"],
  [("NodeCache.nodes / NodeCache.tokens", "interned elements", "src/green/node_cache.rs")])
p("C06", "The builder nests nodes exactly as started, and rejects stale checkpoints",
  "Finishing a node closes the most recently started one and makes it own exactly the children added since its start or checkpoint, in order. Starting a node at a checkpoint that lies beyond the current children, or before the first child of the currently open node, panics without changing the builder. Finishing the tree panics unless exactly one element, a node, is left.",
  ["histories", "inputs"], "every sequence of builder calls",
  "The tests only drive well-formed sequences; the checkpoint rejections are never exercised.",
  ["src/green/builder.rs"],
  [("asserts in start_node_at and finish", "src/green/builder.rs"), ("parents / children stacks", "src/green/builder.rs")],
  ["GreenNodeBuilder"],
  [("parents", "open nodes with the position of their first child", "src/green/builder.rs"), ("children", "finished elements", "src/green/builder.rs")])
p("C07", "Every element reached by navigation knows its own place in the tree",
  "A node or token obtained from another element (child, sibling, by kind, by range, in place or not) has as parent the element it was found in, as index its position among that parent's children, as start the parent's start plus the lengths of the preceding children, and the kind, content and node/token nature found at that position. A new root starts at offset zero and has index zero.",
  ["inputs", "programs"], "every tree and every navigation step from every element",
  "Tests never compare index, parent and offset of navigated elements; in-place reuse updates several fields that must agree.",
  ["src/cursor.rs"],
  [("new_child, SyntaxToken::new, SyntaxElement::new", "src/cursor.rs"), ("to_next_sibling, to_next_sibling_or_token", "src/cursor.rs")],
  ["SyntaxNode, SyntaxToken, SyntaxElement navigation", "text_range, index, parent, kind"],
  [("NodeData.{parent,index,offset,green}", "place of an element", "src/cursor.rs")])
p("C08", "Navigation steps find the nearest element of the requested sort",
  "First/last child, next/previous sibling, and their variants with tokens or with a kind predicate, return the first matching element when walking from the stated end or away from the element in the stated direction, and nothing only if none matches. Node-only variants never return tokens and kind variants call the predicate with the kind of the candidate. First/last token and next/previous token are composed of these steps in the same direction.",
  ["inputs"], "every tree, element and predicate",
  "The example test walks a few small trees forwards; backwards, by-kind and token variants are not run at all.",
  ["src/cursor.rs"],
  [("next_sibling .. prev_sibling_or_token, first_child .. last_child_or_token", "src/cursor.rs")],
  ["SyntaxNode, SyntaxToken, SyntaxElement navigation", "siblings, siblings_with_tokens, ancestors"])
p("C09", "Cursor memory is released exactly when the last handle goes away",
  "In every operation, on every path, the number of references held on each tree element changes by exactly the number of handles and child elements the operation creates minus those it gives up. Memory of an element, and the green tree owned by a root, is released exactly once, as soon as nothing refers to it any more, and never while a handle exists.",
  ["histories", "programs"], "every sequence of navigation, clone, drop and edit operations, including ones that end early",
  "A leak or a premature release needs a particular sequence of shared and unshared handles and is invisible to assertions on text.",
  ["src/cursor.rs"],
  [("inc_rc, dec_rc, free", "src/cursor.rs"), ("NodeData::new", "src/cursor.rs"), ("take_ptr and in-place reuse", "src/cursor.rs")],
  ["SyntaxNode, SyntaxToken, their iterators"],
  [("NodeData.rc", "handles plus live children", "src/cursor.rs")])
p("C10", "Mutability belongs to the whole tree and guards every edit",
  "Whether a tree can be edited is fixed when its root is created and every element reached from it reports the same; only the explicit mutable constructors produce editable trees. Detaching or splicing in an immutable tree panics before anything changes, and making an editable copy of a tree panics if it already is editable. An element is modified in place by navigation only in an immutable tree and when no other handle to it exists.",
  ["programs", "histories"], "every tree, element and operation",
  "Tests check two panics of the AST pointers only; the persistence of the flag on each navigation path is untested.",
  ["src/cursor.rs"],
  [("mutable flag", "src/cursor.rs"), ("assert!(mutable) in detach, attach_child, splice_children", "src/cursor.rs"), ("can_take_ptr", "src/cursor.rs")],
  ["is_mutable, detach, splice_children, clone_for_update, clone_subtree, new_root, new_root_mut"],
  [("NodeData.mutable", "whether the tree can be edited", "src/cursor.rs")])
p("C11", "No reference into the green tree of an editable tree escapes",
  "Asking a node of an editable tree for its green node yields an owned copy, while a node of an immutable tree may lend it. No public operation of the cursor layer returns a borrow of green node data, which an edit could free, from an editable tree; borrowed token data is returned only because tokens are never replaced under a live handle.",
  ["programs"], "every safe program holding the result across edits",
  "Using the stale borrow needs an edit in between, and is undefined behaviour rather than a test failure.",
  ["src/cursor.rs", "src/api.rs"],
  [("SyntaxNode::green", "src/cursor.rs")],
  ["SyntaxNode::green", "public signatures returning references"])
p("C12", "An edit rebuilds the green tree up to the root and moves ownership along",
  "Detaching an element removes exactly its position from its parent's content, turns it into a root that owns its content, and leaves every other element in place; attaching does the reverse at the given index. After an edit the content of the parent and of each ancestor up to the root reflects it, the root owns the new content, and the old content is released once. An attachment at an impossible position is rejected before the tree and the attached element change.",
  ["histories", "inputs"], "every editable tree, every edit and every set of live handles",
  "The tests contain no edit of a tree at all.",
  ["src/cursor.rs"],
  [("NodeData::detach, attach_child, respine", "src/cursor.rs")],
  ["detach, splice_children"],
  [("NodeData.{parent,index,green}", "place and content of an element", "src/cursor.rs")])
p("C13", "Live elements of an editable tree keep the right index across edits",
  "After an edit every live sibling after the edited position reports an index shifted by exactly one, and no other index changes. Two handles for the same position of an editable tree always refer to the same element, and an element that is detached or released is no longer tracked by its former parent.",
  ["histories"], "every set of live siblings, in every order of creation, and every edit",
  "Needs several live handles during an edit; no test has them.",
  ["src/sll.rs", "src/cursor.rs"],
  [("sorted circular list: link, unlink, adjust, add_to_sll", "src/sll.rs"), ("NodeData::new lookup of a live element", "src/cursor.rs")],
  ["index() of live handles", "identity of handles"],
  [("first/next/prev", "circular list of live children sorted by index", "src/cursor.rs")])
p("C14", "Equality and hashing agree",
  "Values that compare equal hash equally, for cursor nodes and tokens, typed nodes and tokens, AST pointers and green elements. Cursor equality is identity of the underlying green element together with its position, and equality of owned green elements is equality of kind and content, whether or not they share memory.",
  ["inputs"], "every pair of values",
  "No test puts any of these types in a hash map.",
  ["src/cursor.rs", "src/api.rs", "src/ast.rs", "src/arc.rs", "src/green/node.rs", "src/green/token.rs"],
  [("NodeData::key", "src/cursor.rs"), ("manual PartialEq/Hash impls", "src/cursor.rs, src/arc.rs, src/ast.rs")],
  ["PartialEq, Eq, Hash of the public types"])
p("C15", "The typed layer is the untyped tree seen through the language",
  "Every operation of a typed node, token or element performs the same-named operation of the untyped layer on the wrapped element with the same arguments and wraps exactly its result. Kinds, in results and in kind predicates, are always translated by the language's own raw-to-typed mapping, and conversions between layers keep the element.",
  ["programs", "inputs"], "every language, tree and typed operation",
  "Only a handful of the typed operations are called by the tests and examples; a delegation to a sibling operation type-checks.",
  ["src/api.rs"],
  [("delegating methods", "src/api.rs"), ("From impls", "src/api.rs")],
  ["SyntaxNode<L>, SyntaxToken<L>, SyntaxElement<L>, iterators"])
p("C16", "Preorder walks are well nested, complete and bounded by their start",
  "A walk yields an enter event for the start, after an enter event either an enter event for the element's first child or, lacking one, its leave event, and after a leave event either an enter event for the next sibling or the parent's leave event, ending right after the start's leave event. It never visits anything outside the start's subtree. Skipping a subtree right after an enter event continues with the leave event of the entered element.",
  ["inputs", "histories"], "every tree, start element and pattern of skips",
  "Tests only run complete walks from a root; walks from inner elements and skips are untested.",
  ["src/cursor.rs"],
  [("Preorder, PreorderWithTokens", "src/cursor.rs")],
  ["preorder, preorder_with_tokens, descendants, descendants_with_tokens"],
  [("next / skip_subtree", "pending event", "src/cursor.rs")])
p("C17", "Iterators keep their contracts",
  "Child iterators of cursors yield the children from first to last without omission or repetition, also when a yielded child of an editable tree is detached meanwhile, and continuing by kind resumes after the last one yielded. The iterator over green children agrees with the underlying list in length, size hints and from both ends, and a token-at-offset result yields as many tokens as its reported length, left before right.",
  ["inputs", "histories"], "every tree and every pattern of calls to the iterators",
  "Tests use plain for loops only; nth, rev, len, partial consumption and detaching while iterating are not run.",
  ["src/cursor.rs", "src/green/node.rs", "src/utility_types.rs"],
  [("SyntaxNodeChildren, SyntaxElementChildren and by_kind", "src/cursor.rs"), ("Children", "src/green/node.rs"), ("TokenAtOffset", "src/utility_types.rs")],
  ["children, children_with_tokens, by_kind, GreenNodeData::children, TokenAtOffset"])
p("C18", "Text views address text relative to their range and reject bad slices",
  "The text of a node covers exactly the node's range; slicing it yields the sub-range given relative to the current start, with missing bounds meaning the ends, and panics if the sub-range is inverted or leaves the text. Searching and indexing report offsets relative to the start of the text, chunk by chunk in order. Texts are split only at token boundaries and the slice bounds, and comparing with a string consumes all of both.",
  ["inputs"], "every tree, every slice and every query",
  "The unit test compares whole texts only; slices and searches on slices are not covered.",
  ["src/syntax_text.rs"],
  [("SyntaxText::slice", "src/syntax_text.rs"), ("tokens_with_ranges, try_fold_chunks", "src/syntax_text.rs")],
  ["SyntaxText"],
  [("range", "absolute range of the text", "src/syntax_text.rs")])
p("C19", "AST pointers resolve only to a node with the same kind and range",
  "A pointer records the kind and range of the node it was made from, and resolving it yields only a node with that kind and range below the given root, found by descending along the recorded range, or nothing. Making or resolving a pointer on an editable tree panics, and resolving from an element that has a parent yields nothing. Typed pointers cast only between node types that accept the recorded kind.",
  ["inputs"], "every tree, pointer and root",
  "Two tests check the panics; the rejections and the comparison of both fields are not exercised.",
  ["src/ast.rs"],
  [("SyntaxNodePtr::new, try_to_node, cast", "src/ast.rs"), ("AstPtr", "src/ast.rs")],
  ["SyntaxNodePtr, AstPtr"])
p("C20", "Serialized trees have the declared shape and are complete",
  "A serialized node is a map with its kind, range and children, a serialized token a map with its kind, range and text, each with as many entries as announced. The children are all the node's children in order, nodes as nodes and tokens as tokens, and an error of the serializer is reported, not swallowed.",
  ["inputs", "configurations"], "every tree and every serializer, including length-prefixed and failing ones",
  "No test serializes anything, and a JSON serializer ignores the announced length.",
  ["src/serde_impls.rs"],
  [("Serialize impls", "src/serde_impls.rs")],
  ["Serialize for SyntaxNode, SyntaxToken"])
p("C21", "Building a green element is memory safe for any iterator",
  "The memory of a green element is sized and aligned for its header and all its children, every child slot is written exactly once before the element becomes visible, and nothing outside the allocation is written, whatever length the supplied iterator claims. An iterator that yields fewer or more items than it claims makes the construction panic.",
  ["inputs", "fault_sequences"], "every child iterator, including ones that lie about their length or panic",
  "The tests only pass honest iterators.",
  ["src/arc.rs"],
  [("ThinArc::from_header_and_iter", "src/arc.rs")],
  ["GreenNode::new, GreenToken::new"])
p("C22", "Unsafe code stays behind a safe interface",
  "Unsafe operations are confined to the modules that opt in explicitly, everything else in the library rejects them at compile time, and every function that can be called from outside is safe to call. The types whose representations are reinterpreted have a defined layout, and raw handles, counts and links are not reachable from outside the crate.",
  ["programs"], "every safe program using the public API",
  "Tests cannot observe which code may use unsafe or which fields are reachable.",
  ["src/lib.rs", "src/arc.rs", "src/green/node.rs", "src/green/token.rs", "src/cursor.rs"],
  [("deny(unsafe_code) with module exceptions", "src/lib.rs"), ("repr(C), repr(transparent)", "src/arc.rs, src/green/node.rs, src/green/token.rs")],
  ["public items"])
p("C23", "Offset queries check their preconditions and return covering elements",
  "Looking up the token at an offset or the element covering a range panics if the offset or range is not within the node. A token returned for an offset touches it, two tokens are returned only as left and right of it, none only for empty text; a covering element always contains the range.",
  ["inputs"], "every tree, node, offset and range",
  "Offset queries are not tested at all.",
  ["src/cursor.rs", "src/api.rs"],
  [("token_at_offset, covering_element, child_or_token_at_range", "src/cursor.rs")],
  ["token_at_offset, covering_element, child_or_token_at_range"])
p("C24", "Typed AST helpers return the first, or all, children that cast",
  "The child helper returns the first child node that the requested type accepts, the children helper all of them in order, and the token helper the first direct token of the requested kind. Copying a typed node copies its syntax and casts the copy.",
  ["inputs", "programs"], "every AST type, language and tree",
  "Not tested.",
  ["src/ast.rs"],
  [("support::{child,children,token}", "src/ast.rs"), ("AstNode::{clone_for_update,clone_subtree}", "src/ast.rs"), ("AstChildren", "src/ast.rs")],
  ["rowan::ast::support", "AstChildren", "AstNode"])
p("C25", "Replacing an element returns a new tree and changes nothing else",
  "Replacing a node or token requires the replacement to have the same kind and returns the root of a new green tree that differs from the old one exactly at the element's own position in its parent, and so on up to the root. The tree it is called on is left as it was.",
  ["inputs"], "every tree, element and replacement",
  "Not tested.",
  ["src/cursor.rs", "src/api.rs"],
  [("SyntaxNode::replace_with, SyntaxToken::replace_with", "src/cursor.rs")],
  ["replace_with"])
p("C26", "Builds with and without debug assertions behave the same",
  "Checks that exist only in builds with debug assertions compute nothing that later code depends on and change nothing: apart from panicking on a violated internal assumption, a debug and a release build of the library perform the same effects and return the same results.",
  ["configurations"], "every execution under both build configurations",
  "The stable tests run in one configuration and never compare two.",
  ["src/cursor.rs", "src/sll.rs", "src/arc.rs"],
  [("debug_assert!, cfg!(debug_assertions)", "src/cursor.rs, src/sll.rs, src/arc.rs")],
  ["all public functions"])
p("C27", "Releases happen only after the checks, and never in a dry run",
  "The release tool publishes, then tags, then pushes, only after the tests of the workspace passed in both profiles, and only on CI, on the master branch, for a version without a tag; otherwise publishing is a dry run and nothing is tagged or pushed. A failing step stops everything after it, and the tool reports failure.",
  ["configurations", "fault_sequences"], "every environment, repository state and failing step",
  "The tool cannot be run in tests, its effects being irrevocable.",
  ["xtask/src/main.rs"],
  [("set_dry_run / dry_run", "xtask/src/main.rs"), ("try_main", "xtask/src/main.rs")],
  ["commands run by xtask ci"])
p("C28", "Printing a tree or element prints all of its text, once and in order",
  "Displaying a green or cursor node writes the text of every token below it exactly once, in order, a token its own text, and stops at the first error of the writer, which is reported. Displaying a typed element is displaying the untyped one. Debugging a typed node writes its kind and range, in the alternate form one line per element below it, indented by depth; a token also its text, cut after at most 24 bytes at a character boundary if it is long.",
  ["inputs", "fault_sequences"], "every tree and every writer, including failing ones",
  "One example compares text of small trees built without errors.",
  ["src/cursor.rs", "src/green/node.rs", "src/green/token.rs", "src/api.rs", "src/syntax_text.rs", "src/utility_types.rs"],
  [("Display impls", "src/cursor.rs, src/green/node.rs, src/green/token.rs, src/api.rs, src/syntax_text.rs")],
  ["Display of public types"])
p("C29", "Caller-supplied code never sees or breaks a half-made change",
  "Predicates, callbacks and iterators passed in by the caller are run only while the tree and the builder are consistent: between the first and the last step of an edit, and between taking an element apart for reuse and putting it back together, no caller code runs, and nothing that an edit of a mutable tree would free is borrowed while it runs. So a panic in caller code leaves every tree valid and releases what was in use, and caller code may itself use and edit the same tree.",
  ["programs", "fault_sequences"], "every callback, including ones that panic or call back into the library",
  "Tests pass only well-behaved callbacks.",
  ["src/cursor.rs", "src/green/node.rs"],
  [("splice_children", "src/cursor.rs"), ("by-kind navigation", "src/cursor.rs")],
  ["functions taking predicates or iterators"])
p("C30", "Comparing texts gives the same answer however they are split into tokens",
  "Two texts compare equal exactly when their characters are equal, for every way of splitting them into tokens and for every pair of slices.",
  ["inputs"], "every pair of texts and every splitting",
  "A unit test compares eleven pairs.",
  ["src/syntax_text.rs"], [("zip_texts", "src/syntax_text.rs")], ["PartialEq for SyntaxText"])
p("C31", "The deepest element is found for every range",
  "The covering element of a non-empty range is the smallest element containing it, and a pointer made from a node with non-empty text resolves to some node with that kind and range in an equal tree, for every tree including ones with empty elements.",
  ["inputs"], "every tree, range and node",
  "Untested; empty elements make several candidates possible.",
  ["src/cursor.rs", "src/green/node.rs", "src/ast.rs"], [("child_at_range binary search", "src/green/node.rs")], ["covering_element", "SyntaxNodePtr::to_node"])
p("C32", "Lookups and edits stay within their complexity",
  "Edits cost time proportional to the depth and fan-out of the edited position, range lookups time logarithmic in the fan-out, and repeated subtrees of small nodes are stored once per cache.",
  ["inputs", "histories"], "every tree",
  "Tests measure nothing.",
  ["src/cursor.rs", "src/green/node.rs", "src/green/node_cache.rs"], [("binary_search_by", "src/green/node.rs")], ["run time and memory"])
p("C33", "Copies for update and of subtrees are the same tree",
  "Copying an element for update gives an editable element with the same green data, index and offset below the copy of its parent, or a root if it was one, and panics if the tree is editable already. "
  "Copying a subtree gives an immutable root at offset 0 with the element's green data, whatever tree it is taken from.",
  ["inputs"], "every tree and element",
  "Only copies of roots are tested.",
  ["src/cursor.rs"], [("clone_for_update, clone_subtree", "src/cursor.rs")], ["clone_for_update, clone_subtree"])


out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
