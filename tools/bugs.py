"""The planted changes; tools/plant.py writes /verif/seeded/ from this."""

PRE = r'''
#![allow(dead_code, unused_imports, unused_variables, unused_mut)]
use rowan::{ast::{self, AstNode, AstPtr, SyntaxNodePtr}, Direction, GreenNode, GreenNodeBuilder, GreenToken, Language, NodeCache,
            NodeOrToken, SyntaxKind, TextRange, TextSize, TokenAtOffset, WalkEvent};
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum L {}
impl Language for L {
    type Kind = SyntaxKind;
    fn kind_from_raw(r: SyntaxKind) -> SyntaxKind { r }
    fn kind_to_raw(k: SyntaxKind) -> SyntaxKind { k }
}
type Node = rowan::SyntaxNode<L>;
type Element = rowan::SyntaxElement<L>;
const ROOT: SyntaxKind = SyntaxKind(0);
const N1: SyntaxKind = SyntaxKind(1);
const N2: SyntaxKind = SyntaxKind(2);
const N3: SyntaxKind = SyntaxKind(3);
const TK: SyntaxKind = SyntaxKind(10);
const WS: SyntaxKind = SyntaxKind(11);
/// `(kind children...)`: N:"[..]" nodes, other characters are one token each; digits after `[` are the kind
fn green(s: &str) -> GreenNode {
    let mut b = GreenNodeBuilder::new();
    b.start_node(ROOT);
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '[' => { let k = it.next().unwrap().to_digit(10).unwrap(); b.start_node(SyntaxKind(k as u16)); }
            ']' => b.finish_node(),
            ' ' => b.token(WS, " "),
            '"' => {
                let mut t = String::new();
                loop { match it.next().unwrap() { '"' => break, c => t.push(c) } }
                b.token(TK, &t);
            }
            c => { let mut buf = [0; 4]; b.token(TK, c.encode_utf8(&mut buf)); }
        }
    }
    b.finish_node();
    b.finish()
}
fn tree(s: &str) -> Node { Node::new_root(green(s)) }
fn panics<T>(f: impl FnOnce() -> T) -> bool {
    std::panic::set_hook(Box::new(|_| ()));
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { f(); })).is_err()
}
fn r(a: u32, b: u32) -> TextRange { TextRange::new(a.into(), b.into()) }
'''

ALLOC = r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
struct A;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(1, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(1, SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
'''

CUR = "src/cursor.rs"
GN = "src/green/node.rs"
BUGS = []


def bug(id, prop, edits, needs, breaks, demo=None, pre=PRE, **kw):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=None if demo is None else pre + demo, **kw))


# ---------------------------------------------------------------- C07
bug("c07-range-child-offset", "C07", [(CUR, "            SyntaxElement::new(green, self.clone(), index as u32, self.offset() + rel_offset)",
    "            SyntaxElement::new(green, self.clone(), index as u32, range.start())")],
    "child_or_token_at_range with a range that starts after the start of the child it hits",
    "the child's text_range starts at the query's start instead of at the child's own place",
    r'''fn main() {
    let t = tree("[1ab][2\"cdef\"g]h");
    let e = t.child_or_token_at_range(r(3, 5)).unwrap();
    assert_eq!(e.text_range(), r(2, 7));
    let e = t.covering_element(r(4, 5));
    assert_eq!(e.text_range(), r(2, 6));
}''')
bug("c07-inplace-index", "C07", [(CUR, """            .skip(index + 1)
            .map(|(index, green)| {
                data.index.set(index as u32);""", """            .skip(index + 1)
            .map(|(next, green)| {
                data.index.set(if green.rel_offset() == 0.into() { index as u32 } else { next as u32 });""")],
    "iteration over the children of an immutable tree through an unshared element whose next sibling starts at relative offset zero (an empty first child)",
    "the sibling reached in place keeps the index of the element before it",
    r'''fn main() {
    let t = tree("[1]ab");
    let e: Element = t.first_child_or_token().unwrap();
    let idx: Vec<usize> = t.children_with_tokens().map(|e| e.index()).collect();
    assert_eq!(idx, [0, 1, 2]);
    drop(e);
    let e = t.first_child_or_token().unwrap();
    let cur: rowan::cursor::SyntaxNode = rowan::cursor::SyntaxNode::new_root(green("[1]ab"));
    let mut el = cur.first_child_or_token();
    let mut v = vec![];
    while let Some(e) = el { v.push(e.index()); assert!(v.len() < 9); el = e.to_next_sibling_or_token(); }
    assert_eq!(v, [0, 1, 2]);
}''')
# ---------------------------------------------------------------- C08
bug("c08-prev-token-climb", "C08", [(CUR, """                .find_map(|it| it.prev_sibling_or_token())
                .and_then(|element| element.last_token()),""", """                .find_map(|it| it.prev_sibling_or_token())
                .and_then(|element| element.first_token()),""")],
    "prev_token from the first token of a node whose previous sibling is a node with more than one token",
    "prev_token jumps to the first instead of the last token of the previous subtree",
    r'''fn main() {
    let t = tree("[1ab][2cd]");
    let mut v = String::new();
    let mut tok = t.last_token();
    while let Some(x) = tok { v.insert_str(0, x.text()); tok = x.prev_token(); }
    assert_eq!(v, "abcd");
}''')
bug("c08-last-child-first", "C08", [(CUR, """        let rev_siblings = self.green_siblings().enumerate().rev();
        let index = rev_siblings.len().checked_sub(self.index() as usize)?;
""", """        let rev_siblings = self.green_siblings().enumerate().rev();
        let index = rev_siblings.len().checked_sub(self.index() as usize + 1)?;
""")],
    "prev_sibling of a node: returns the node itself again",
    "prev_sibling returns the node itself instead of its nearest earlier sibling node",
    r'''fn main() {
    let t = tree("[1a]b[2c]");
    let last = t.last_child().unwrap();
    assert_eq!(last.prev_sibling().map(|it| it.kind()), Some(N1));
}''')
# ---------------------------------------------------------------- C16
bug("c16-leave-start-sibling", "C16", [(CUR, """                WalkEvent::Leave(el) if el == &self.start => return None,
                WalkEvent::Leave(el) => match el.next_sibling_or_token() {""", """                WalkEvent::Leave(el) if el == &self.start && el.parent().is_none() => return None,
                WalkEvent::Leave(el) => match el.next_sibling_or_token() {""")],
    "preorder_with_tokens started below the root",
    "the walk leaves the subtree it was started on and continues with the siblings of its start",
    r'''fn main() {
    let t = tree("[1a]b[2c]");
    let n = t.first_child().unwrap();
    assert_eq!(n.preorder_with_tokens().count(), 4);
    assert_eq!(n.descendants_with_tokens().count(), 2);
    assert_eq!(n.to_string(), "a");
}''')
bug("c16-skip-leaf", "C16", [(CUR, """            WalkEvent::Enter(first_child) => WalkEvent::Leave(first_child.parent().unwrap()),
            WalkEvent::Leave(parent) => WalkEvent::Leave(parent),
        })
    }
}

impl Iterator for Preorder {""", """            WalkEvent::Enter(first_child) => WalkEvent::Leave(first_child.parent().unwrap()),
            WalkEvent::Leave(node) => WalkEvent::Leave(node.parent().unwrap_or(node)),
        })
    }
}

impl Iterator for Preorder {""")],
    "skip_subtree called on a node without child nodes",
    "skipping a leaf node leaves its parent instead, so siblings of the leaf are lost and the leaf is never left",
    r'''fn main() {
    let t = tree("[1a][2b]");
    let mut p = t.preorder();
    let mut v = vec![];
    while let Some(e) = p.next() {
        if let WalkEvent::Enter(n) = &e { if n.kind() == N1 { p.skip_subtree(); } v.push(n.kind()); }
    }
    assert_eq!(v, [ROOT, N1, N2]);
}''')
# ---------------------------------------------------------------- C17
bug("c17-nth-back", "C17", [(GN, "        self.raw.nth_back(n).map(GreenChild::as_ref)", "        self.raw.nth(n).map(GreenChild::as_ref)")],
    "nth_back on the children of a green node",
    "green Children::nth_back counts from the front",
    r'''fn main() {
    let g = green("[1a][2b][3c]");
    assert_eq!(g.children().nth_back(0).unwrap().kind(), N3);
    assert_eq!(g.children().rev().nth(1).unwrap().kind(), N2);
}''')
bug("c17-by-kind-mut", "C17", [(CUR, """                next: self.next.and_then(|node| {
                    if self.parent.is_mutable() && matcher(node.kind()) {
                        Some(node)
                    } else {
                        node.next_sibling_or_token_by_kind(&matcher)
                    }
                }),""", """                next: self.next.and_then(|node| node.next_sibling_or_token_by_kind(&matcher)),""")],
    "by_kind on a children_with_tokens iterator of an editable tree that has already been advanced",
    "the child that was going to be returned next is skipped although it matches",
    r'''fn main() {
    let t = tree("abc").clone_for_update();
    let mut it = t.children_with_tokens();
    it.next();
    let v: Vec<String> = it.by_kind(|_| true).map(|e| e.to_string()).collect();
    assert_eq!(v, ["b", "c"]);
}''')
bug("c17-token-at-size", "C17", [("src/utility_types.rs", """            TokenAtOffset::Between(left, right) => {
                *self = TokenAtOffset::Single(right);
                Some(left)
            }""", """            TokenAtOffset::Between(left, right) => {
                *self = TokenAtOffset::Single(left);
                Some(right)
            }""")],
    "iterating a TokenAtOffset::Between",
    "the two tokens at an offset are yielded right to left",
    r'''fn main() {
    let t = tree("ab");
    let v: Vec<String> = t.token_at_offset(1.into()).map(|t| t.text().to_string()).collect();
    assert_eq!(v, ["a", "b"]);
}''')
# ---------------------------------------------------------------- C18
bug("c18-char-at-range", "C18", [("src/syntax_text.rs", "            if start <= offset && offset < end {", "            if start <= offset && (offset < end || chunk.is_empty()) {")],
    "char_at after an empty token", "char_at slices an empty chunk and panics", """fn main() {
    let t = tree("a\\"\\"b");
    assert_eq!(t.text().char_at(1.into()), Some('b'));
    assert_eq!(t.text().char_at(5.into()), None);
}""")
bug("c18-slice-nested", "C18", [("src/syntax_text.rs", """        let start = self.range.start() + start;
        let end = start + len;
        assert!(
            start <= end,""", """        let start = self.node.text_range().start() + start;
        let end = start + len;
        assert!(
            start <= end,""")],
    "slicing a slice that does not start at the start of its node",
    "the inner slice is taken relative to the node instead of the outer slice", """fn main() {
    let t = tree("abcdef");
    let s = t.text().slice(r(2, 6));
    assert_eq!(s.slice(r(1, 2)).to_string(), "d");
}""")
bug("c18-chunk-touch", "C18", [("src/syntax_text.rs", "                let range = text_range.intersect(token_range)?;", "                let range = text_range.intersect(token_range).filter(|it| !it.is_empty())?;"),
    ("src/syntax_text.rs", "        if self.range.len() != other.range.len() {\n            return false;\n        }\n", "")],
    "comparing two texts of different length where one is a prefix of the other",
    "a text equals every text it is a prefix of", """fn main() {
    assert!(tree("ab").text() != tree("abc").text());
    assert!(tree("abc").text() != tree("ab").text());
}""")
# ---------------------------------------------------------------- C02
bug("c02-send-node", "C02", [(CUR, """pub struct SyntaxNode {
    ptr: ptr::NonNull<NodeData>,
}
""", """pub struct SyntaxNode {
    ptr: ptr::NonNull<NodeData>,
}

// The green tree is what is shared, and that is Send.
unsafe impl Send for SyntaxNode {}
""")],
    "a program that moves a cursor node to another thread",
    "SyntaxNode becomes Send although its reference count is not atomic",
    demo_sh="""#!/bin/bash
# exit 0 when moving a syntax node to another thread is rejected by the compiler
exec python3 - "$(pwd)" <<'P'
import os, subprocess, sys, tempfile
repo = sys.argv[1]
def build(body):
    with tempfile.TemporaryDirectory() as d:
        os.mkdir(d + "/src")
        open(d + "/src/main.rs", "w").write(body)
        open(d + "/Cargo.toml", "w").write(f'[package]\\nname = "demo"\\nversion = "0.0.0"\\nedition = "2021"\\n[dependencies]\\nrowan = {{ path = "{repo}" }}\\n[workspace]\\n')
        for l in (repo + "/Cargo.lock", "/opt/vp/Cargo.lock"):
            if os.path.exists(l):
                open(d + "/Cargo.lock", "wb").write(open(l, "rb").read())
                break
        e = dict(os.environ, CARGO_TARGET_DIR=d + "/target")
        return subprocess.run(["cargo", "check", "-q", "--offline"], cwd=d, env=e, timeout=250).returncode == 0
if not build("fn main() { let _ = rowan::SyntaxKind(0); }"):
    sys.exit(3)
sys.exit(1 if build("fn s<T: Send>() {} fn main() { s::<rowan::cursor::SyntaxNode>() }") else 0)
P
""")
# ---------------------------------------------------------------- C15
bug("c15-last-token", "C15", [("src/api.rs", """    pub fn last_token(&self) -> Option<SyntaxToken<L>> {
        self.raw.last_token().map(SyntaxToken::from)
    }""", """    pub fn last_token(&self) -> Option<SyntaxToken<L>> {
        self.raw.last_child_or_token().and_then(|it| it.first_token()).map(SyntaxToken::from)
    }""")],
    "SyntaxNode::last_token (typed layer) on a node whose last child is a node with several tokens",
    "the typed last_token differs from the cursor's", """fn main() {
    let t = tree("a[1bc]");
    assert_eq!(t.last_token().unwrap().text(), "c");
}""")
# ---------------------------------------------------------------- C04 / C23
bug("c04-child-at-range-touch", "C04", [(GN, ".filter(|it| it.rel_range().contains_range(rel_range))?;", ".filter(|it| it.rel_range().intersect(rel_range).is_some())?;")],
    "child_or_token_at_range / covering_element with a range spanning a child boundary",
    "a child that only touches the range is returned although it does not contain it", """fn main() {
    let t = tree("[1ab][2cd]e");
    assert!(t.child_or_token_at_range(r(1, 3)).is_none());
    assert_eq!(t.covering_element(r(1, 3)).kind(), ROOT);
}""")
bug("c04-len-cap", "C04", [(GN, "            text_len += el.text_len();\n", "            text_len += el.text_len().min(TextSize::from(u32::from(u16::MAX)));\n")],
    "a child longer than 65535 bytes", "the length of a node no longer equals the sum of its children's lengths", """fn main() {
    let s = "x".repeat(70000);
    let g = GreenNode::new(ROOT, [NodeOrToken::Token(GreenToken::new(TK, &s)), NodeOrToken::Token(GreenToken::new(TK, "b"))]);
    assert_eq!(u32::from(g.text_len()), 70001);
}""")
bug("c04-splice-range", "C04", [(GN, "        self.splice_children(index..=index, iter::empty())", "        self.splice_children(index..self.children().len().min(index + 2) - (index != 0) as usize, iter::empty())")],
    "remove_child(0) on a node with at least two children (detaching the first child)",
    "removing the first child removes two children", """fn main() {
    let g = green("abc");
    assert_eq!(g.remove_child(0).to_string(), "bc");
    assert_eq!(g.remove_child(1).to_string(), "ac");
}""")
# ---------------------------------------------------------------- C05
bug("c05-token-kind", "C05", [("src/green/node_cache.rs", "            .from_hash(hash, |token| token.0.kind() == kind && token.0.text() == text);",
    "            .from_hash(hash, |token| token.0.text() == text);")],
    "two tokens with the same text and different kinds whose hashes agree in the bits the table compares",
    "the cache hands out a token of another kind", """fn main() {
    // 7 bits of the hash are compared per slot: some pair among these kinds collides
    let mut cache = NodeCache::default();
    for k in 0..2000u16 {
        let mut b = GreenNodeBuilder::with_cache(&mut cache);
        b.start_node(ROOT);
        b.token(SyntaxKind(k), "a");
        b.finish_node();
        assert_eq!(b.finish().children().next().unwrap().kind(), SyntaxKind(k));
    }
}""")
bug("c05-node-shallow", "C05", [("src/green/node_cache.rs", """                let lhs = lhs.map(element_id);
                let rhs = rhs.map(element_id);
""", """                let lhs = lhs.map(|it| (it.kind(), it.text_len()));
                let rhs = rhs.map(|it| (it.kind(), it.text_len()));
""")],
    "two different small nodes whose children have the same kinds and lengths and whose hashes agree in the bits the table compares",
    "the cache hands out a node with different text", """fn main() {
    let mut cache = NodeCache::default();
    for k in 0..20000u32 {
        let s = format!("{k:06}");
        let mut b = GreenNodeBuilder::with_cache(&mut cache);
        b.start_node(ROOT);
        b.token(TK, &s);
        b.finish_node();
        assert_eq!(b.finish().to_string(), s);
    }
}""")
# ---------------------------------------------------------------- C06
bug("c06-checkpoint-first", "C06", [("src/green/builder.rs", "        if let Some(&(_, first_child)) = self.parents.last() {", "        if let Some(&(_, first_child)) = self.parents.first() {")],
    "start_node_at with a checkpoint taken before an inner start_node that is still open",
    "a stale checkpoint is accepted and builds a corrupted tree", """fn main() {
    let mut b = GreenNodeBuilder::new();
    b.start_node(ROOT);
    let c = b.checkpoint();
    b.token(TK, "a");
    b.start_node(N1);
    assert!(panics(|| b.start_node_at(c, N2)));
}""")
bug("c06-finish-extra", "C06", [("src/green/builder.rs", "        assert_eq!(self.children.len(), 1);", "        assert!(!self.children.is_empty());")],
    "finish after building two roots", "finish returns one of several roots silently", """fn main() {
    let mut b = GreenNodeBuilder::new();
    for _ in 0..2 { b.start_node(ROOT); b.finish_node(); }
    assert!(panics(|| b.finish()));
}""")
# ---------------------------------------------------------------- C09
bug("c09-dup-parent-leak", "C09", [(CUR, """                        ManuallyDrop::into_inner(parent);
                        let res = node as *mut NodeData;""", """                        let res = node as *mut NodeData;""")],
    "reaching the same child of an editable tree twice while the first handle is alive",
    "the parent's reference count is never released: the tree leaks", """fn main() {
    let g = green("[1a]");
    let before = LIVE.load(SeqCst);
    {
        let t = Node::new_root(g.clone()).clone_for_update();
        let a = t.first_child();
        let b = t.first_child();
    }
    assert_eq!(LIVE.load(SeqCst), before);
}""", pre=PRE + ALLOC)
bug("c09-detach-leak", "C09", [(CUR, """        if parent.dec_rc() {
            unsafe { free(parent_ptr) }
        }
    }
    fn attach_child""", """        if parent.dec_rc() && parent.parent().is_none() {
            unsafe { free(parent_ptr) }
        }
    }
    fn attach_child""")],
    "detaching a child when its non-root parent is only kept alive by it",
    "the parent chain is leaked", """fn main() {
    let g = green("[1[2a]]");
    let before = LIVE.load(SeqCst);
    {
        let t = Node::new_root(g.clone()).clone_for_update();
        let n = t.first_child().unwrap().first_child().unwrap();
        drop(t);
        n.detach();
    }
    assert_eq!(LIVE.load(SeqCst), before);
}""", pre=PRE + ALLOC)
# ---------------------------------------------------------------- C10
bug("c10-inplace-mutable", "C10", [(CUR, """impl SyntaxToken {
    fn new(
        green: &GreenTokenData,
        parent: SyntaxNode,
        index: u32,
        offset: TextSize,
    ) -> SyntaxToken {
        let mutable = parent.data().mutable;
        let green = Green::Token { ptr: green.into() };
        SyntaxToken { ptr: NodeData::new(Some(parent), index, offset, green, mutable) }
    }

    #[inline]
    fn data(&self) -> &NodeData {
        unsafe { self.ptr.as_ref() }
    }

    #[inline]
    fn can_take_ptr(&self) -> bool {
        self.data().rc.get() == 1 && !self.data().mutable
    }""", """impl SyntaxToken {
    fn new(
        green: &GreenTokenData,
        parent: SyntaxNode,
        index: u32,
        offset: TextSize,
    ) -> SyntaxToken {
        let mutable = parent.data().mutable;
        let green = Green::Token { ptr: green.into() };
        SyntaxToken { ptr: NodeData::new(Some(parent), index, offset, green, mutable) }
    }

    #[inline]
    fn data(&self) -> &NodeData {
        unsafe { self.ptr.as_ref() }
    }

    #[inline]
    fn can_take_ptr(&self) -> bool {
        self.data().rc.get() == 1
    }""")],
    "cursor to_next_sibling_or_token on an unshared token of an editable tree while its next sibling is live",
    "the live token is overwritten in place, giving two live elements for one place", """fn main() {
    let t = rowan::cursor::SyntaxNode::new_root(green("abc")).clone_for_update();
    let b = t.last_child_or_token().unwrap().prev_sibling_or_token().unwrap();
    let a = t.first_child_or_token().unwrap();
    let b2 = a.to_next_sibling_or_token().unwrap();
    t.first_child_or_token().unwrap().detach();
    assert_eq!(b.index(), 0);
    assert_eq!(b2.index(), 0);
    b.detach();
    assert!(b2.parent().is_none());
}""")
bug("c10-splice-guard", "C10", [(CUR, """        assert!(self.data().mutable, "immutable tree: {}", self);
        for (i, child) in self.children_with_tokens().enumerate() {
            if to_delete""", """        for (i, child) in self.children_with_tokens().enumerate() {
            if to_delete""")],
    "splice_children on an immutable tree with nothing to delete and nothing to insert",
    "editing an immutable tree is not rejected", """fn main() {
    let t = tree("ab");
    assert!(panics(|| t.splice_children(0..0, vec![])));
}""")
# ---------------------------------------------------------------- C11
bug("c11-root-green", "C11", [(CUR, """        match self.data().mutable {
            false => Cow::Borrowed(green_ref),
            true => Cow::Owned(green_ref.to_owned()),
        }""", """        match self.data().mutable && self.data().parent().is_some() {
            false => Cow::Borrowed(green_ref),
            true => Cow::Owned(green_ref.to_owned()),
        }""")],
    "holding green() of the root of an editable tree across an edit",
    "a reference into a green node that the edit frees (use after free)", """fn main() {
    let t = rowan::cursor::SyntaxNode::new_root(green("ab")).clone_for_update();
    assert!(matches!(t.green(), std::borrow::Cow::Owned(_)));
}""")
# ---------------------------------------------------------------- C12
bug("c12-splice-index", "C12", [(CUR, """            self.attach_child(index, child);
            index += 1;""", """            self.attach_child(index, child);
            index = index.max(to_delete.end);""")],
    "splice_children inserting two or more elements in place of at most one",
    "the elements are inserted in reverse order", """fn main() {
    let t = tree("ab").clone_for_update();
    let x = tree("x").clone_for_update().first_child_or_token().unwrap();
    let y = tree("y").clone_for_update().first_child_or_token().unwrap();
    let z = tree("z").clone_for_update().first_child_or_token().unwrap();
    t.splice_children(1..1, vec![x, y, z]);
    assert_eq!(t.to_string(), "axyzb");
}""")
bug("c12-detach-index", "C12", [(CUR, "        sll::adjust(self, self.index() + 1, Delta::Sub(1));", "        sll::adjust(self, self.index().max(1), Delta::Sub(1));")],
    "detaching a child that is not the first", "the child before the detached one is removed from the parent's green node", """fn main() {
    let t = tree("abc").clone_for_update();
    t.last_child_or_token().unwrap().detach();
    assert_eq!(t.to_string(), "ab");
}""")
bug("c12-respine-two-levels", "C12", [(CUR, """                    Some(parent) => match parent.green() {
                        NodeOrToken::Node(parent_green) => {
                            new_green =""", """                    Some(parent) if parent.parent().is_none() || node.rc.get() > 1 => match parent.green() {
                        NodeOrToken::Node(parent_green) => {
                            new_green ="""), (CUR, """                    None => {
                        mem::forget(new_green);""", """                    _ => {
                        mem::forget(new_green);""")],
    "an edit three or more levels below the root below a node that nothing else refers to", "the ancestors above keep the old content", """fn main() {
    let t = tree("[1[2[1ab]]]").clone_for_update();
    let x = t.first_token().unwrap();
    x.detach();
    assert_eq!(t.to_string(), "b");
}""")
bug("c12-detach-handle", "C12", [(CUR, "                let green = green.remove_child(self.index() as usize);", "                let index = parent.index_of(self);\n                let green = green.remove_child(index);"), (CUR, "    fn detach(&self) {\n        assert!(self.mutable);", """    /// Position of `child` among the children, by green element.
    fn index_of(&self, child: &NodeData) -> usize {
        let key = child.green_ptr();
        let same = |it: &GreenChild| match it {
            GreenChild::Node { node, .. } => ptr::eq::<()>((&**node as *const GreenNodeData).cast(), key),
            GreenChild::Token { token, .. } => {
                ptr::eq::<()>((&**token as *const GreenTokenData).cast(), key)
            }
        };
        match &self.green {
            Green::Node { ptr } => unsafe { &*ptr.get().as_ptr() }.children().raw.position(same),
            Green::Token { .. } => None,
        }
        .unwrap()
    }

    fn green_ptr(&self) -> *const () {
        match &self.green {
            Green::Node { ptr } => ptr.get().as_ptr().cast(),
            Green::Token { ptr } => ptr.as_ptr().cast(),
        }
    }

    fn detach(&self) {
        assert!(self.mutable);""")],
    "detaching the second of two equal (interned) tokens of a node", "the first of the equal tokens is removed: other positions are kept in mixed content", """fn main() {
    let t = tree("abca").clone_for_update();
    t.last_child_or_token().unwrap().detach();
    assert_eq!(t.to_string(), "abc");
}""")
# ---------------------------------------------------------------- C13
bug("c13-adjust-gt", "C13", [("src/sll.rs", "            if key >= from {", "            if key > from {")],
    "an edit before a live sibling that sits exactly at the insertion place",
    "the live sibling keeps a stale index", """fn main() {
    let t = tree("ab").clone_for_update();
    let a = t.first_child_or_token().unwrap();
    let b = t.last_child_or_token().unwrap();
    let x = tree("x").clone_for_update().first_child_or_token().unwrap();
    t.splice_children(1..1, vec![x]);
    assert_eq!(b.index(), 2);
    assert_eq!(a.index(), 0);
}""")
bug("c13-unlink-head", "C13", [("src/sll.rs", "        head.set(if next == elem_ptr { ptr::null() } else { next })", "        head.set(if next == elem_ptr { ptr::null() } else { prev })")],
    "dropping the first of three or more live children in an editable tree, then reaching the second again",
    "the list of live children starts at the wrong element, so an existing live element is not found", """fn main() {
    let t = tree("abcd").clone_for_update();
    let v: Vec<Element> = t.children_with_tokens().collect();
    let [a, b, c, d]: [Element; 4] = v.try_into().unwrap();
    drop(a);
    let b2 = c.prev_sibling_or_token().unwrap();
    b.detach();
    assert!(b2.parent().is_none());
    assert_eq!(d.index(), 2);
}""")
bug("c13-search-from-front", "C13", [("src/sll.rs", "let mut curr = (*old_head).prev().get();", "let mut curr = (*old_head).next().get();")],
    "reaching a child behind all live ones while three or more siblings are live, then an edit",
    "the live child is entered out of order and made a second time when it is reached again", """fn main() {
    let t = tree("abcde").clone_for_update();
    let a = t.first_child_or_token().unwrap();
    let b = a.next_sibling_or_token().unwrap();
    let c = b.next_sibling_or_token().unwrap();
    let d = c.next_sibling_or_token().unwrap();
    let e = d.next_sibling_or_token().unwrap();
    let c2 = b.next_sibling_or_token().unwrap();
    let d2 = c2.next_sibling_or_token().unwrap();
    d2.detach();
    assert!(d.parent().is_none());
    c2.detach();
    assert!(c.parent().is_none());
    assert_eq!(e.index(), 2);
}""")
bug("c13-first-attach", "C13", [(CUR, "        if !self.first.get().is_null() {\n            sll::adjust(", "        if !self.first.get().is_null() && index > 0 {\n            sll::adjust(")],
    "inserting a child at the front while a later child is live", "the live child keeps its index", """fn main() {
    let t = tree("ab").clone_for_update();
    let b = t.last_child_or_token().unwrap();
    let x = tree("x").clone_for_update().first_child_or_token().unwrap();
    t.splice_children(0..0, vec![x]);
    assert_eq!(b.index(), 2);
}""")
# ---------------------------------------------------------------- C14
bug("c14-hash-index", "C14", [(CUR, """impl Hash for SyntaxToken {
    #[inline]
    fn hash<H: Hasher>(&self, state: &mut H) {
        self.data().key().hash(state);
    }""", """impl Hash for SyntaxToken {
    #[inline]
    fn hash<H: Hasher>(&self, state: &mut H) {
        self.data().index().hash(state);
        self.data().key().hash(state);
    }""")],
    "equal tokens at different indices: a shared empty token occurring twice in a row",
    "equal values hash differently", """fn main() {
    let t = tree("\\"\\"\\"\\"a");
    let a = t.first_child_or_token().unwrap().into_token().unwrap();
    let b = a.next_sibling_or_token().unwrap().into_token().unwrap();
    use std::hash::{Hash, Hasher};
    let h = |x: &rowan::SyntaxToken<L>| { let mut s = std::collections::hash_map::DefaultHasher::new(); x.hash(&mut s); s.finish() };
    assert!(a != b || h(&a) == h(&b));
}""")
bug("c14-key-len", "C14", [(CUR, """impl PartialEq for SyntaxToken {
    #[inline]
    fn eq(&self, other: &SyntaxToken) -> bool {
        self.data().key() == other.data().key()
    }""", """impl PartialEq for SyntaxToken {
    #[inline]
    fn eq(&self, other: &SyntaxToken) -> bool {
        self.data().key().0 == other.data().key().0
    }""")],
    "the same interned token at two places", "different tokens compare equal and their hashes differ", """fn main() {
    let t = tree("aba");
    let a = t.first_token().unwrap();
    let b = t.last_token().unwrap();
    assert!(a != b);
}""")
# ---------------------------------------------------------------- C19
bug("c19-root-check", "C19", [("src/ast.rs", """        if root.parent().is_some() {
            return None;
        }
""", "")],
    "resolving a pointer against a subtree instead of the root",
    "a node is found although the tree given is not a root", """fn main() {
    let t = tree("[1[2a]]");
    let n = t.first_child().unwrap();
    let p = SyntaxNodePtr::new(&n.first_child().unwrap());
    assert!(p.try_to_node(&n).is_none());
}""")
bug("c19-kind-check", "C19", [("src/ast.rs", "            .find(|it| it.text_range() == self.range && it.kind() == self.kind)", "            .find(|it| it.text_range() == self.range)")],
    "resolving a pointer to an inner node whose only ancestor has the same range",
    "the outermost node with the range is returned whatever its kind", """fn main() {
    let t = tree("[1[2a]]b");
    let n = t.first_child().unwrap().first_child().unwrap();
    let p = SyntaxNodePtr::new(&n);
    assert_eq!(p.to_node(&t), n);
}""")
# ---------------------------------------------------------------- C20
SERIALIZER = """use serde::ser::*;
#[derive(Debug)] struct E;
impl std::fmt::Display for E { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl std::error::Error for E {}
impl Error for E { fn custom<T: std::fmt::Display>(_: T) -> E { E } }
#[derive(Clone, Copy)] struct S;
// counts maps
impl Serializer for S {
    type Ok = u32; type Error = E;
    type SerializeSeq = C; type SerializeMap = C;
    type SerializeTuple = C; type SerializeTupleStruct = Impossible<u32, E>; type SerializeTupleVariant = Impossible<u32, E>;
    type SerializeStruct = Impossible<u32, E>; type SerializeStructVariant = Impossible<u32, E>;
    fn serialize_bool(self, _: bool) -> Result<u32, E> { Ok(0) }
    fn serialize_i8(self, _: i8) -> Result<u32, E> { Ok(0) } fn serialize_i16(self, _: i16) -> Result<u32, E> { Ok(0) }
    fn serialize_i32(self, _: i32) -> Result<u32, E> { Ok(0) } fn serialize_i64(self, _: i64) -> Result<u32, E> { Ok(0) }
    fn serialize_u8(self, _: u8) -> Result<u32, E> { Ok(0) } fn serialize_u16(self, _: u16) -> Result<u32, E> { Ok(0) }
    fn serialize_u32(self, _: u32) -> Result<u32, E> { Ok(0) } fn serialize_u64(self, _: u64) -> Result<u32, E> { Ok(0) }
    fn serialize_f32(self, _: f32) -> Result<u32, E> { Ok(0) } fn serialize_f64(self, _: f64) -> Result<u32, E> { Ok(0) }
    fn serialize_char(self, _: char) -> Result<u32, E> { Ok(0) } fn serialize_str(self, _: &str) -> Result<u32, E> { Ok(0) }
    fn serialize_bytes(self, _: &[u8]) -> Result<u32, E> { Ok(0) } fn serialize_none(self) -> Result<u32, E> { Ok(0) }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<u32, E> { Ok(0) } fn serialize_unit(self) -> Result<u32, E> { Ok(0) }
    fn serialize_unit_struct(self, _: &'static str) -> Result<u32, E> { Ok(0) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<u32, E> { Ok(0) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<u32, E> { Ok(0) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<u32, E> { Ok(0) }
    fn serialize_seq(self, _: Option<usize>) -> Result<C, E> { Ok(C(0)) }
    fn serialize_tuple(self, _: usize) -> Result<C, E> { Ok(C(0)) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, E> { Err(E) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, E> { Err(E) }
    fn serialize_map(self, _: Option<usize>) -> Result<C, E> { Ok(C(1)) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, E> { Err(E) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, E> { Err(E) }
}
struct C(u32);
impl SerializeTuple for C { type Ok = u32; type Error = E;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> { v.serialize(S)?; Ok(()) }
    fn end(self) -> Result<u32, E> { Ok(0) } }
impl SerializeSeq for C { type Ok = u32; type Error = E;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> { self.0 += v.serialize(S)?; Ok(()) }
    fn end(self) -> Result<u32, E> { Ok(self.0) } }
impl SerializeMap for C { type Ok = u32; type Error = E;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, _: &T) -> Result<(), E> { Ok(()) }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> { self.0 += v.serialize(S)?; Ok(()) }
    fn end(self) -> Result<u32, E> { Ok(self.0) } }
"""
bug("c20-token-range", "C20", [("src/serde_impls.rs", """        self.0.children_with_tokens().try_for_each(|element| match element {
            NodeOrToken::Node(it) => state.serialize_element(&it),
            NodeOrToken::Token(it) => state.serialize_element(&it),
        })?;""", """        self.0.children_with_tokens().try_for_each(|element| match element {
            NodeOrToken::Node(it) => state.serialize_element(&it),
            NodeOrToken::Token(it) if it.text().is_empty() => Ok(()),
            NodeOrToken::Token(it) => state.serialize_element(&it),
        })?;""")],
    "serializing a tree with an empty token", "empty tokens are missing from the serialized tree", SERIALIZER + """fn main() {
    let t = tree("a\\"\\"[1b]");
    assert_eq!(t.serialize(S).unwrap(), 5);
}""")
bug("c20-announced", "C20", [("src/serde_impls.rs", "serializer.serialize_seq(None)?", "serializer.serialize_seq(Some(self.0.children().count()))?")],
    "a serializer that relies on the announced length, and a node with a token", "the length announced for the children leaves out the tokens",
    SERIALIZER.replace("struct C(u32);", "struct C(u32, Option<usize>);").replace("_: Option<usize>) -> Result<C, E> { Ok(C(0)) }", "n: Option<usize>) -> Result<C, E> { Ok(C(0, n)) }")
    .replace("Ok(C(1))", "Ok(C(1, None))").replace("usize) -> Result<C, E> { Ok(C(0)) }", "usize) -> Result<C, E> { Ok(C(0, None)) }").replace("self.0 += v.serialize(S)?; Ok(())", "self.0 += v.serialize(S)?; if let Some(n) = &mut self.1 { *n = n.checked_sub(1).ok_or(E)? } Ok(())")
    .replace("fn end(self) -> Result<u32, E> { Ok(self.0) }", "fn end(self) -> Result<u32, E> { if self.1.unwrap_or(0) > 0 { return Err(E) } Ok(self.0) }")
    + """fn main() {
    let t = tree("a[1b]");
    assert_eq!(t.serialize(S).unwrap(), 4);
}""")
bug("c20-error-lost", "C20", [("src/serde_impls.rs", """        self.0.children_with_tokens().try_for_each(|element| match element {
            NodeOrToken::Node(it) => state.serialize_element(&it),
            NodeOrToken::Token(it) => state.serialize_element(&it),
        })?;""", """        for element in self.0.children_with_tokens() {
            let res = match element {
                NodeOrToken::Node(it) => state.serialize_element(&it),
                NodeOrToken::Token(it) => state.serialize_element(&it),
            };
            if res.is_err() {
                break;
            }
        }""")],
    "a serializer which fails on an element of a sequence", "the error of an element is lost: what is serialized is truncated and reported as complete",
    SERIALIZER.replace("self.0 += v.serialize(S)?; Ok(())", "self.0 += v.serialize(S)?; if self.0 > 1 { return Err(E) } Ok(())", 1)
    + """fn main() {
    assert!(tree("ab").serialize(S).is_err());
    assert!(tree("a").serialize(S).is_ok());
}""")
# ---------------------------------------------------------------- C21
bug("c21-under-reported", "C21", [("src/arc.rs", """                assert!(items.next().is_none(), "ExactSizeIterator under-reported length");

                // We""", """                // We"""), ("src/arc.rs", """            }
            assert!(items.next().is_none(), "ExactSizeIterator under-reported length");
        }""", """            }
        }""")],
    "an ExactSizeIterator that reports fewer elements than it has",
    "the surplus children are silently dropped (and their lengths are not)", """struct I(u32);
impl Iterator for I { type Item = NodeOrToken<GreenNode, GreenToken>;
    fn next(&mut self) -> Option<Self::Item> { if self.0 == 0 { return None; } self.0 -= 1; Some(GreenToken::new(TK, "a").into()) }
    fn size_hint(&self) -> (usize, Option<usize>) { let n = self.0.saturating_sub(1) as usize; (n, Some(n)) } }
impl ExactSizeIterator for I {}
fn main() {
    assert!(panics(|| GreenNode::new(ROOT, I(3))));
    assert!(panics(|| GreenNode::new(ROOT, I(1))));
}""")
bug("c21-over-reported", "C21", [("src/arc.rs", """                for _ in 0..num_items {
                    ptr::write(
                        current,
                        items.next().expect("ExactSizeIterator over-reported length"),
                    );
                    current = current.offset(1);
                }
""", """                for _ in 0..num_items {
                    let Some(item) = items.next() else { break };
                    ptr::write(current, item);
                    current = current.offset(1);
                }
"""), ("src/arc.rs", """                // We should have consumed the buffer exactly.
                debug_assert_eq!(current as *mut u8, buffer.add(usable_size));
""", "")],
    "an ExactSizeIterator that reports more elements than it has",
    "the slice is published with uninitialised elements", """struct I(u32);
impl Iterator for I { type Item = NodeOrToken<GreenNode, GreenToken>;
    fn next(&mut self) -> Option<Self::Item> { if self.0 == 0 { return None; } self.0 -= 1; Some(GreenToken::new(TK, "a").into()) }
    fn size_hint(&self) -> (usize, Option<usize>) { let n = self.0 as usize + 1; (n, Some(n)) } }
impl ExactSizeIterator for I {}
fn main() {
    assert!(panics(|| std::mem::forget(GreenNode::new(ROOT, I(3)))));
}""")
# ---------------------------------------------------------------- C01
bug("c01-token-leak", "C01", [("src/green/node_cache.rs", """                let token = GreenToken::new(kind, text);
                entry.insert_with_hasher(hash, NoHash(token.clone()), (), |t| token_hash(&t.0));
                token
""", """                let token = std::mem::ManuallyDrop::new(GreenToken::new(kind, text));
                let own = GreenToken::clone(&token);
                entry.insert_with_hasher(hash, NoHash(own), (), |t| token_hash(&t.0));
                GreenToken::clone(&token)
""")],
    "counting live allocations around building and dropping a tree", "every token made through a cache keeps one reference for ever", ALLOC + """fn main() {
    drop(green("ab"));
    let before = LIVE.load(SeqCst);
    drop(green("ab"));
    assert_eq!(LIVE.load(SeqCst), before);
}""")
bug("c01-last-two", "C01", [("src/arc.rs", """        if self.inner().count.fetch_sub(1, Release) != 1 {
            return;
        }
""", """        if !self.is_unique() {
            self.inner().count.fetch_sub(1, Release);
            return;
        }
""")],
    "two threads dropping the last two references at the same time", "both see the other's reference, and nobody releases the memory", ALLOC + """fn main() {
    let (mut lost, rounds) = (0, 20_000);
    let slot = std::sync::Arc::new(std::sync::Mutex::new(None::<GreenToken>));
    let turn = std::sync::Arc::new(AtomicIsize::new(0));
    let (s2, t2) = (slot.clone(), turn.clone());
    let th = std::thread::spawn(move || {
        for i in 0..rounds {
            while t2.load(SeqCst) != 2 * i + 1 { std::hint::spin_loop() }
            let t = s2.lock().unwrap().take().unwrap();
            t2.store(2 * i + 2, SeqCst);
            drop(t);
        }
    });
    let before = LIVE.load(SeqCst);
    for i in 0..rounds {
        let t = GreenToken::new(TK, "x");
        *slot.lock().unwrap() = Some(t.clone());
        turn.store(2 * i + 1, SeqCst);
        while turn.load(SeqCst) != 2 * i + 2 { std::hint::spin_loop() }
        drop(t);
    }
    lost += 1;
    th.join().unwrap();
    // what the thread itself keeps is the same in every run
    assert!(LIVE.load(SeqCst) - before < 8, "{} of {} tokens were never released", LIVE.load(SeqCst) - before, rounds * lost);
}""")
# ---------------------------------------------------------------- C23
bug("c23-empty-first", "C23", [(CUR, """        let range = self.text_range();
        assert!(
            range.start() <= offset && offset <= range.end(),
            "Bad offset: range {:?} offset {:?}",
            range,
            offset
        );
        if range.is_empty() {
            return TokenAtOffset::None;
        }
""", """        let range = self.text_range();
        if range.is_empty() {
            return TokenAtOffset::None;
        }
        assert!(
            range.start() <= offset && offset <= range.end(),
            "Bad offset: range {:?} offset {:?}",
            range,
            offset
        );
""")],
    "token_at_offset with an offset outside an empty node", "an offset outside the node is not rejected", """fn main() {
    let t = tree("");
    assert!(panics(|| t.token_at_offset(5.into())));
}""")
bug("c23-covering-first-check", "C23", [(CUR, """        let mut res: SyntaxElement = self.clone().into();
        loop {
            assert!(
                res.text_range().contains_range(range),
                "Bad range: node range {:?}, range {:?}",
                res.text_range(),
                range,
            );
            res = match""", """        let mut res: SyntaxElement = self.clone().into();
        loop {
            assert!(
                res.text_range().contains(range.start()) || res.text_range().contains_range(range),
                "Bad range: node range {:?}, range {:?}",
                res.text_range(),
                range,
            );
            res = match""")],
    "covering_element with a range reaching past the end of the node", "the range is not rejected", """fn main() {
    let t = tree("[1ab][2cd]");
    let n = t.first_child().unwrap();
    assert!(panics(|| n.covering_element(r(1, 3))));
}""")
# ---------------------------------------------------------------- C24
AST_PRE = """
#[derive(Debug, Clone)]
struct A(Node);
impl AstNode for A {
    type Language = L;
    fn can_cast(k: SyntaxKind) -> bool { k == N1 }
    fn cast(n: Node) -> Option<A> { if n.kind() == N1 { Some(A(n)) } else { None } }
    fn syntax(&self) -> &Node { &self.0 }
}
"""
bug("c24-children-stop", "C24", [("src/ast.rs", "        self.inner.find_map(N::cast)", "        self.inner.next().and_then(N::cast)")],
    "a child of another type between two children that cast", "iteration over typed children stops at the first child that does not cast", """fn main() {
    let t = tree("[1a][2b][1c]");
    assert_eq!(ast::support::children::<A>(&t).count(), 2);
}""", pre=PRE + AST_PRE)
bug("c24-token-deep", "C24", [("src/ast.rs", "        parent.children_with_tokens().filter_map(|it| it.into_token()).find(|it| it.kind() == kind)",
    "        parent.descendants_with_tokens().filter_map(|it| it.into_token()).find(|it| it.kind() == kind)")],
    "a token of the kind nested deeper before (or instead of) a direct one", "the token helper returns tokens that are not direct children", """fn main() {
    let t = tree("[1a]");
    assert!(ast::support::token(&t, TK).is_none());
}""")
# ---------------------------------------------------------------- C25 / C26
bug("c25-kind-debug", "C25", [(CUR, """    pub fn replace_with(&self, replacement: GreenToken) -> GreenNode {
        assert_eq!(self.kind(), replacement.kind());""", """    pub fn replace_with(&self, replacement: GreenToken) -> GreenNode {
        debug_assert_eq!(self.kind(), replacement.kind());""")],
    "replacing a token by one of another kind in a release build", "the kind of the replacement is not checked", """fn main() {
    let t = tree("ab");
    assert!(panics(|| t.first_token().unwrap().replace_with(GreenToken::new(WS, " "))));
}""", release=True)
bug("c25-climb-index", "C25", [(CUR, """                let new_parent = parent
                    .green_ref()
                    .replace_child(self.data().index() as usize, replacement.into());
                parent.replace_with(new_parent)
            }""", """                let index = parent
                    .green_ref()
                    .children()
                    .position(|it| it == self.data().green())
                    .unwrap_or(self.data().index() as usize);
                let new_parent = parent.green_ref().replace_child(index, replacement.into());
                parent.replace_with(new_parent)
            }""")],
    "replacing a node that has an equal earlier sibling", "the first equal sibling is replaced instead of the node itself", """fn main() {
    let t = tree("[1a][1a]");
    let g = t.last_child().unwrap().replace_with(green("x").children().next().map(|_| GreenNode::new(N1, [NodeOrToken::Token(GreenToken::new(TK, "x"))])).unwrap());
    assert_eq!(g.to_string(), "ax");
}""")
bug("c26-finish-debug", "C06", [("src/green/builder.rs", "        assert_eq!(self.children.len(), 1);", "        debug_assert_eq!(self.children.len(), 1);")],
    "finish after building two roots in a release build", "a release build returns one of two roots where a debug build panics", """fn main() {
    let mut b = GreenNodeBuilder::new();
    for _ in 0..2 { b.start_node(ROOT); b.finish_node(); }
    assert!(panics(|| b.finish()));
}""", release=True)
bug("c26-debug-effect", "C26", [(CUR, """        let next = self.next.take();
        self.next = next.as_ref().and_then(|next| {
            Some(match next {
                WalkEvent::Enter(node) => match node.first_child() {""", """        let next = if cfg!(debug_assertions) { self.next.take() } else { self.next.clone() };
        self.next = next.as_ref().and_then(|next| {
            Some(match next {
                WalkEvent::Enter(node) if cfg!(not(debug_assertions)) && node.green_ref().children().len() == 0 => match node.next_sibling() {
                    Some(sibling) => WalkEvent::Enter(sibling),
                    None => WalkEvent::Leave(node.parent()?),
                },
                WalkEvent::Enter(node) => match node.first_child() {""")],
    "a preorder walk over an empty node in a release build", "an empty node is entered but never left in release builds", """fn main() {
    let t = tree("[1][2a]");
    assert_eq!(t.preorder().count(), 6);
}""", release=True)
# ---------------------------------------------------------------- C28
bug("c28-swallow", "C28", [(CUR, "            .try_for_each(|it| fmt::Display::fmt(&it, f))", "            .for_each(|it| drop(fmt::Display::fmt(&it, f)));\n        Ok(())")],
    "displaying a node into a writer that fails", "errors of the writer are swallowed and writing goes on", """struct W(usize);
impl std::fmt::Write for W { fn write_str(&mut self, s: &str) -> std::fmt::Result { self.0 += 1; Err(std::fmt::Error) } }
fn main() {
    use std::fmt::Write;
    let t = tree("ab");
    let mut w = W(0);
    assert!(write!(w, "{}", t).is_err());
    assert_eq!(w.0, 1);
}""")
bug("c28-display-node", "C28", [(GN, """        for child in self.children() {
            write!(f, "{}", child)?;
        }
        Ok(())""", """        for child in self.children().take(usize::from(u16::MAX)) {
            write!(f, "{}", child)?;
        }
        Ok(())""")],
    "displaying a green node with more than 65535 children", "the text of later children is not printed", """fn main() {
    let v: Vec<NodeOrToken<GreenNode, GreenToken>> = (0..65536).map(|_| GreenToken::new(TK, "a").into()).collect();
    let g = GreenNode::new(ROOT, v);
    assert_eq!(g.to_string().len(), 65536);
}""")
# ---------------------------------------------------------------- C27
XT = "xtask/src/main.rs"


def xdemo(outputs, failing, forbidden):
    """runs the tool with stand-ins for cargo and git, which only write down how they were called"""
    return '''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the change (run in the repository's root)
exec python3 - "$(pwd)" <<'P'
import os, subprocess, sys, tempfile
repo = sys.argv[1]
OUTPUTS, FAILING, FORBIDDEN = @A@
with tempfile.TemporaryDirectory() as d:
    e = dict(os.environ, CARGO_TARGET_DIR=d + "/target")
    if subprocess.run(["cargo", "build", "-q", "--offline", "-p", "xtask"], cwd=repo, env=e, timeout=250).returncode:
        sys.exit(3)
    os.makedirs(d + "/bin")
    os.makedirs(d + "/w/xtask")
    for p in ("/w/Cargo.toml", "/w/xtask/Cargo.toml"):
        with open(d + p, "w") as f:
            f.write('[package]\\nname = "x"\\nversion = "1.2.3"\\n')
    for t in ("cargo", "git"):
        with open(d + "/bin/" + t, "w") as f:
            f.write("#!/bin/sh\\n" + f'echo "{t} $*" >> {d}/log\\n' + f'case "{t} $*" in\\n')
            for k, v in OUTPUTS.items():
                f.write(f'"{k}") ' + "".join(f"echo {x}; " for x in v) + ";;\\n")
            for k in FAILING:
                f.write(f'"{k}"*) exit 1;;\\n')
            f.write("esac\\n")
        os.chmod(d + "/bin/" + t, 0o755)
    r = subprocess.run([d + "/target/debug/xtask", "ci"], cwd=d + "/w", timeout=60,
                       env={"CI": "1", "PATH": d + "/bin", "CARGO_MANIFEST_DIR": d + "/w/xtask"})
    log = open(d + "/log").read().splitlines()
    print(log)
    bad = [l for l in log for x in FORBIDDEN if l.startswith(x) and "--dry-run" not in l and l != "git tag --list"]
    sys.exit(1 if bad else 0)
P
'''.replace("@A@", repr((outputs, failing, forbidden)))


REAL = ["cargo publish", "git tag", "git push"]
BUGS.append(dict(id="c27-branch-unknown", property="C27", edits=[(XT, 'git::current_branch(&mut sh)? != "master"', 'git::current_branch(&mut sh).unwrap_or("master".to_string()) != "master"')],
    needs="git cannot name the current branch", breaks="publishes, tags and pushes although the branch is not known", demo_sh=xdemo({"git tag --list": ["v1.0.0"]}, ["git branch"], REAL)))
BUGS.append(dict(id="c27-tag-all", property="C27", edits=[(XT, ".any(|it| it == tag)", ".all(|it| it == tag)")],
    needs="the version has a tag, and there are other tags", breaks="a version which has been released is released again", demo_sh=xdemo({"git tag --list": ["v1.0.0", "v1.2.3"], "git branch --show-current": ["master"]}, [], REAL)))
BUGS.append(dict(id="c27-test-break", property="C27", edits=[(XT, '            cmd!(sh, "cargo test {release...} --workspace -- --nocapture").run()?;', '''            if cmd!(sh, "cargo test {release...} --workspace -- --nocapture").run().is_err()
                && release.is_some()
            {
                break;
            }''')],
    needs="a test fails", breaks="a version is released although tests fail", demo_sh=xdemo({"git tag --list": ["v1.0.0"], "git branch --show-current": ["master"]}, ["cargo test"], REAL)))


# ---------------------------------------------------------------- C29
bug("c29-kind-next-leak", "C29", [(CUR, """        self.next.take().inspect(|next| {
            self.next = next.next_sibling_by_kind(&self.matcher);
        })""", """        let next = ManuallyDrop::new(self.next.take()?);
        self.next = next.next_sibling_by_kind(&self.matcher);
        Some(ManuallyDrop::into_inner(next))""")],
    "the matcher of a by-kind iterator panics in the middle of the children",
    "the element the iterator was at is never released: the tree leaks", """fn main() {
    let g = green("[1a][2b][1c]");
    let before = LIVE.load(SeqCst);
    std::panic::set_hook(Box::new(|_| ()));
    for m in [false, true] {
        let t = Node::new_root(g.clone());
        let t = if m { t.clone_for_update() } else { t };
        let mut it = t.children().by_kind(|k| { if k == N2 { std::panic::resume_unwind(Box::new(())) } true });
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| it.next().is_some()));
        assert!(r.is_err());
    }
    assert_eq!(LIVE.load(SeqCst), before);
}""", pre=PRE + ALLOC)
bug("c29-kind-next-read", "C29", [(CUR, """        self.next.take().inspect(|next| {
            self.next = next.next_sibling_or_token_by_kind(&self.matcher);
        })""", """        // Move the element out without writing `None` back first.
        let next = unsafe { ptr::read(&self.next) };
        let after = next.as_ref().and_then(|it| it.next_sibling_or_token_by_kind(&self.matcher));
        unsafe { ptr::write(&mut self.next, after) };
        next""")],
    "the matcher of a by-kind iterator panics, the iterator is dropped later",
    "the element the iterator was at is released twice", """fn main() {
    let g = green("[1a][2b][1c]");
    std::panic::set_hook(Box::new(|_| ()));
    let t = Node::new_root(g.clone()).clone_for_update();
    let keep = t.first_child_or_token().unwrap();
    let before = LIVE.load(SeqCst);
    {
        let mut it = t.children_with_tokens().by_kind(|k| { if k == N2 { std::panic::resume_unwind(Box::new(())) } true });
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| it.next().is_some()));
        assert!(r.is_err());
    }
    let after = LIVE.load(SeqCst);
    if after != before {
        std::process::exit(1);
    }
    drop(keep);
}""", pre=PRE + ALLOC)
bug("c07-sum-index", "C07", [(CUR, """            res += green.children().raw.nth(node.index() as usize).unwrap().rel_offset();""",
     """            res += green.children().raw.nth(self.index() as usize).map_or(0.into(), |it| it.rel_offset());""")],
    "the range of an element of an editable tree at depth two or more whose index differs from that of its parent",
    "ancestors are looked up at the index of the element itself: the start is wrong", """fn main() {
    let t = tree("a[1[2b]cd]").clone_for_update();
    let all: Vec<_> = t.descendants_with_tokens().map(|e| (e.to_string(), u32::from(e.text_range().start()))).collect();
    let want = [("abcd", 0), ("a", 0), ("bcd", 1), ("b", 1), ("b", 1), ("c", 2), ("d", 3)];
    assert_eq!(all.iter().map(|(a, b)| (a.as_str(), *b)).collect::<Vec<_>>(), want);
}""")
bug("c09-attach-count", "C09", [(CUR, """        child.parent.set(Some(self.into()));
        self.inc_rc();
""", """        child.parent.set(Some(self.into()));
        if child.rc.get() == 1 {
            self.inc_rc();
        }
""")],
    "an element is attached while there is a second handle to it (or a live child below it), and the last handle to the parent goes away first",
    "the parent is released although its child is still alive and leads to it", """fn main() {
    let p = tree("[1a]").clone_for_update();
    let c = tree("[2b]").clone_for_update().first_child().unwrap();
    c.detach();
    let c2 = c.clone();
    p.splice_children(1..1, vec![c.clone().into()]);
    let before = LIVE.load(SeqCst);
    drop(p);
    if LIVE.load(SeqCst) != before {
        std::process::exit(1);
    }
    assert_eq!(c.parent().unwrap().to_string(), "ab");
    drop(c2);
}""", pre=PRE + ALLOC)
bug("c30-longer-side", "C30", [("src/syntax_text.rs", """        if !(x_text.starts_with(y_text) || y_text.starts_with(x_text)) {""",
     """        if !(x_text.len() > y_text.len() || y_text.starts_with(x_text)) {""")],
    "texts that differ, where the left one is in a longer token than the right one at the difference",
    "the difference is passed over: different texts compare equal", """fn main() {
    let mk = |ts: &[&str]| {
        let mut b = GreenNodeBuilder::new();
        b.start_node(SyntaxKind(0));
        for t in ts {
            b.token(SyntaxKind(1), t);
        }
        b.finish_node();
        Node::new_root(b.finish())
    };
    for (l, r) in [(&["abc"][..], &["a", "x", "c"][..]), (&["ab", "c"], &["a", "x", "c"]), (&["a", "bcd", "e"], &["ab", "x", "de"])] {
        let (l, r) = (mk(l), mk(r));
        assert!(l.text() != r.text());
        assert!(r.text() != l.text());
    }
}""")
bug("c08-shared-step", "C08", [("src/cursor.rs", """    pub fn to_next_sibling_or_token(self) -> Option<SyntaxElement> {
        if !self.can_take_ptr() {""", """    pub fn to_next_sibling_or_token(self) -> Option<SyntaxElement> {
        if self.can_take_ptr() {""")],
    "the step to the next sibling of an element to which there is another handle",
    "the step to the next element panics", """fn main() {
    let t = tree("ab[1c]d");
    drop(t);
    let e = rowan::cursor::SyntaxNode::new_root(green("ab[1c]d")).first_child_or_token().unwrap();
    let e2 = e.clone();
    assert_eq!(e.to_next_sibling_or_token().unwrap().to_string(), "b");
    drop(e2);
}""")
bug("c31-first-range", "C31", [("src/ast.rs", """            .find(|it| it.text_range() == self.range && it.kind() == self.kind)""",
     """            .find(|it| it.text_range() == self.range)
            .filter(|it| it.kind() == self.kind)""")],
    "a pointer to a node that is the only child with text of a node of another kind",
    "only the outermost node with the range is considered: the pointer does not resolve", """fn main() {
    let t = tree("a[1[2b]]c");
    let n = t.descendants().find(|it| it.kind() == N2).unwrap();
    let p = SyntaxNodePtr::new(&n);
    assert_eq!(p.try_to_node(&t), Some(n));
}""")
bug("c31-lookup-cell", "C31", [(CUR, """        let rel_range = range - self.offset();
        self.green_ref().child_at_range""", """        let rel_range = range - self.data().offset;
        self.green_ref().child_at_range""")],
    "a range looked up below a node to which there was a handle while something before it was detached",
    "children are looked up relative to where the node was: the wrong element or a panic", """fn main() {
    let t = tree("ax[1bc]").clone_for_update();
    let n = t.first_child().unwrap();
    t.first_child_or_token().unwrap().detach();
    assert_eq!(t.covering_element(r(2, 3)).to_string(), "c");
    assert_eq!(t.covering_element(r(1, 2)).to_string(), "b");
    drop(n);
}""")
bug("c33-outer-root", "C33", [(CUR, """        match self.parent() {
            Some(parent) => {
                let parent = parent.clone_for_update();
                SyntaxNode::new_child(""", """        match self.parent().filter(|it| it.parent().is_none() || it.green_ref().children().len() > 1) {
            Some(parent) => {
                let parent = parent.clone_for_update();
                SyntaxNode::new_child(""")],
    "copying for update an only child of a node that is not the root",
    "the copy is a root: what is above it is lost", """fn main() {
    let t = tree("a[1[2b]]c");
    let n = t.descendants().find(|it| it.kind() == N2).unwrap();
    let c = n.clone_for_update();
    assert_eq!(c.parent().map(|it| it.kind()), Some(N1));
    assert_eq!(c.text_range(), r(1, 2));
}""")
bug("c33-nth-copy", "C33", [(CUR, """                SyntaxNode::new_child(self.green_ref(), parent, self.data().index(), self.offset())
            }
            None => SyntaxNode::new_root_mut""", """                let nth = self.siblings(Direction::Prev).count() as u32 - 1;
                SyntaxNode::new_child(self.green_ref(), parent, nth, self.offset())
            }
            None => SyntaxNode::new_root_mut""")],
    "copying for update a node after a token",
    "the copy counts only nodes before it: its index is wrong, an edit changes the wrong child", """fn main() {
    let t = tree("ab[1c]d");
    let c = t.first_child().unwrap().clone_for_update();
    assert_eq!(c.index(), 2);
    let top = c.parent().unwrap();
    c.detach();
    assert_eq!(top.to_string(), "abd");
}""")
bug("c16-skip-element", "C16", [(CUR, """            WalkEvent::Enter(first_child) => WalkEvent::Leave(first_child.parent().unwrap().into()),""",
     """            WalkEvent::Enter(first_child) => WalkEvent::Leave(first_child),""")],
    "skip_subtree in a walk with tokens, right after entering a node with children",
    "the first child is left, which was never entered, and its siblings are visited", """fn main() {
    let t = tree("[1ab]c");
    let mut it = t.preorder_with_tokens();
    it.next();
    it.next();
    it.skip_subtree();
    let v: Vec<_> = it.map(|e| match e { WalkEvent::Enter(e) => format!("+{e}"), WalkEvent::Leave(e) => format!("-{e}") }).collect();
    assert_eq!(v, ["-ab", "+c", "-c", "-abc"]);
}""")
