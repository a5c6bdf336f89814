#!/usr/bin/env python3
"""refactors.py [--one] [NAME...]: behaviour-preserving edits. Each is applied to a scratch copy of
/repo, formatted, built and tested; then every claimed check runs on it and must stay quiet.
Prints one line per edit: ok, or what alarmed. PROPS="C09 C12" restricts the checks; JOBS=n."""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "src/cursor.rs"
R = {}


def r(name, *edits):
    R[name] = edits


r("release-helper",
  (C, """impl Drop for SyntaxNode {
    #[inline]
    fn drop(&mut self) {
        if self.data().dec_rc() {
            unsafe { free(self.ptr) }
        }
    }
}""", """impl Drop for SyntaxNode {
    #[inline]
    fn drop(&mut self) {
        release(self.ptr)
    }
}

#[inline]
fn release(ptr: ptr::NonNull<NodeData>) {
    let last = unsafe { ptr.as_ref() }.dec_rc();
    if !last {
        return;
    }
    unsafe { free(ptr) }
}"""),
  (C, """impl Drop for SyntaxToken {
    #[inline]
    fn drop(&mut self) {
        if self.data().dec_rc() {
            unsafe { free(self.ptr) }
        }
    }
}""", """impl Drop for SyntaxToken {
    #[inline]
    fn drop(&mut self) {
        release(self.ptr)
    }
}"""))

r("free-while",
  (C, """        loop {
            debug_assert_eq!(data.as_ref().rc.get(), 0);
            debug_assert!(data.as_ref().first.get().is_null());
            let node = Box::from_raw(data.as_ptr());
            match node.parent.take() {
                Some(parent) => {
                    debug_assert!(parent.as_ref().rc.get() > 0);
                    if node.mutable {
                        sll::unlink(&parent.as_ref().first, &*node)
                    }
                    if parent.as_ref().dec_rc() {
                        data = parent;
                    } else {
                        break;
                    }
                }
                None => {
                    match &node.green {
                        Green::Node { ptr } => {
                            let _ = GreenNode::from_raw(ptr.get());
                        }
                        Green::Token { ptr } => {
                            let _ = GreenToken::from_raw(*ptr);
                        }
                    }
                    break;
                }
            }
        }
""", """        let mut next = Some(data);
        while let Some(data) = next {
            debug_assert_eq!(data.as_ref().rc.get(), 0);
            debug_assert!(data.as_ref().first.get().is_null());
            let node = Box::from_raw(data.as_ptr());
            next = match node.parent.take() {
                Some(parent) => {
                    debug_assert!(parent.as_ref().rc.get() > 0);
                    if node.mutable {
                        sll::unlink(&parent.as_ref().first, &*node)
                    }
                    if parent.as_ref().dec_rc() { Some(parent) } else { None }
                }
                None => {
                    release_green(&node.green);
                    None
                }
            };
        }
"""),
  (C, "unsafe fn free(mut data: ptr", "unsafe fn free(data: ptr"),
  (C, "#[inline(never)]\nunsafe fn free", """unsafe fn release_green(green: &Green) {
    unsafe {
        match green {
            Green::Node { ptr } => drop(GreenNode::from_raw(ptr.get())),
            Green::Token { ptr } => drop(GreenToken::from_raw(*ptr)),
        }
    }
}

#[inline(never)]
unsafe fn free"""))

r("first-last-child-for",
  (C, """        self.green_ref().children().raw.enumerate().find_map(|(index, child)| {
            child.as_ref().into_node().map(|green| {
                SyntaxNode::new_child(
                    green,
                    self.clone(),
                    index as u32,
                    self.offset() + child.rel_offset(),
                )
            })
        })
    }

    pub fn first_child_by_kind""", """        for (index, child) in self.green_ref().children().raw.enumerate() {
            if let NodeOrToken::Node(green) = child.as_ref() {
                let offset = self.offset() + child.rel_offset();
                return Some(SyntaxNode::new_child(green, self.clone(), index as u32, offset));
            }
        }
        None
    }

    pub fn first_child_by_kind"""),
  (C, """        self.green_ref().children().raw.enumerate().rev().find_map(|(index, child)| {
            child.as_ref().into_node().map(|green| {
                SyntaxNode::new_child(
                    green,
                    self.clone(),
                    index as u32,
                    self.offset() + child.rel_offset(),
                )
            })
        })
""", """        let mut children = self.green_ref().children().raw.enumerate();
        while let Some((index, child)) = children.next_back() {
            let green = match child.as_ref() {
                NodeOrToken::Node(green) => green,
                NodeOrToken::Token(_) => continue,
            };
            let offset = self.offset() + child.rel_offset();
            return Some(SyntaxNode::new_child(green, self.clone(), index as u32, offset));
        }
        None
"""))

r("can-take-ptr",
  (C, """    #[inline]
    fn can_take_ptr(&self) -> bool {
        self.data().rc.get() == 1 && !self.data().mutable
    }

    #[inline]
    fn take_ptr(self) -> ptr::NonNull<NodeData> {
        assert!(self.can_take_ptr());
        let ret = self.ptr;
        // don't change the refcount when self gets dropped
        std::mem::forget(self);
        ret
    }

    pub fn replace_with(&self, replacement: GreenNode) -> GreenNode {""", """    #[inline]
    fn can_take_ptr(&self) -> bool {
        let data = self.data();
        !data.mutable && data.rc.get() < 2
    }

    #[inline]
    fn take_ptr(self) -> ptr::NonNull<NodeData> {
        assert!(self.can_take_ptr());
        ManuallyDrop::new(self).ptr
    }

    pub fn replace_with(&self, replacement: GreenNode) -> GreenNode {"""))

r("detach-iflet",
  (C, """        let parent_ptr = match self.parent.take() {
            Some(parent) => parent,
            None => return,
        };

        sll::adjust(self, self.index() + 1, Delta::Sub(1));
        let parent = unsafe { parent_ptr.as_ref() };
        sll::unlink(&parent.first, self);
""", """        let Some(parent_ptr) = self.parent.get() else { return };
        let parent = unsafe { parent_ptr.as_ref() };
        let index = self.index();
        sll::adjust(self, index + 1, Delta::Sub(1));
        sll::unlink(&parent.first, self);
        self.parent.set(None);
"""),
  (C, """                let green = green.remove_child(self.index() as usize);
                unsafe { parent.respine(green) }
""", """                let green = green.splice_children(
                    index as usize..index as usize + 1,
                    iter::empty::<crate::NodeOrToken<GreenNode, GreenToken>>(),
                );
                unsafe { parent.respine(green) }
"""),
  (C, """        match self.green().to_owned() {
            NodeOrToken::Node(it) => {
                GreenNode::into_raw(it);
            }
            NodeOrToken::Token(it) => {
                GreenToken::into_raw(it);
            }
        }
""", """        mem::forget(self.green().to_owned());
"""))

r("respine-while",
  (C, """            let mut node = self;
            loop {
                let old_green = match &node.green {
                    Green::Node { ptr } => ptr.replace(ptr::NonNull::from(&*new_green)),
                    Green::Token { .. } => unreachable!(),
                };
                match node.parent() {
                    Some(parent) => match parent.green() {
                        NodeOrToken::Node(parent_green) => {
                            new_green =
                                parent_green.replace_child(node.index() as usize, new_green.into());
                            node = parent;
                        }
                        _ => unreachable!(),
                    },
                    None => {
                        mem::forget(new_green);
                        let _ = GreenNode::from_raw(old_green);
                        break;
                    }
                }
            }
""", """            let mut node = self;
            let mut old_green = node.swap_green(&new_green);
            while let Some(parent) = node.parent() {
                let parent_green = parent.green().into_node().unwrap();
                new_green = parent_green.replace_child(node.index() as usize, new_green.into());
                node = parent;
                old_green = node.swap_green(&new_green);
            }
            mem::forget(new_green);
            drop(GreenNode::from_raw(old_green));
"""),
  (C, "    unsafe fn respine(", """    fn swap_green(&self, green: &GreenNodeData) -> ptr::NonNull<GreenNodeData> {
        match &self.green {
            Green::Node { ptr } => ptr.replace(ptr::NonNull::from(green)),
            Green::Token { .. } => unreachable!(),
        }
    }
    unsafe fn respine("""))

r("attach-reorder",
  (C, """        let n_children = self.green().into_node().unwrap().children().len();
        assert!(index <= n_children, "Bad index: {index}, number of children: {n_children}");

        child.index.set(index as u32);
        child.parent.set(Some(self.into()));
        self.inc_rc();
""", """        let n_children = self.green().into_node().unwrap().children().len();
        if index > n_children {
            panic!("Bad index: {index}, number of children: {n_children}");
        }

        self.inc_rc();
        child.parent.set(Some(self.into()));
        child.index.set(index as u32);
"""),
  (C, """        if !self.first.get().is_null() {
            sll::adjust(unsafe { &*self.first.get() }, index as u32, Delta::Add(1));
        }
""", """        if let Some(first) = unsafe { self.first.get().as_ref() } {
            sll::adjust(first, index as u32, Delta::Add(1));
        }
"""),
  (C, """                let child_green = match &child.green {
                    Green::Node { ptr } => unsafe { GreenNode::from_raw(ptr.get()).into() },
                    Green::Token { ptr } => unsafe { GreenToken::from_raw(*ptr).into() },
                };
""", """                let child_green = unsafe { child.steal_green() };
"""),
  (C, "    unsafe fn respine(", """    unsafe fn steal_green(&self) -> NodeOrToken<GreenNode, GreenToken> {
        match &self.green {
            Green::Node { ptr } => NodeOrToken::Node(unsafe { GreenNode::from_raw(ptr.get()) }),
            Green::Token { ptr } => NodeOrToken::Token(unsafe { GreenToken::from_raw(*ptr) }),
        }
    }
    unsafe fn respine("""))

r("green-new-vec",
  ("src/green/node.rs", """        let mut text_len: TextSize = 0.into();
        let children = children.into_iter().map(|el| {
            let rel_offset = text_len;
            text_len += el.text_len();
            match el {
                NodeOrToken::Node(node) => GreenChild::Node { rel_offset, node },
                NodeOrToken::Token(token) => GreenChild::Token { rel_offset, token },
            }
        });

        let data = ThinArc::from_header_and_iter(
            GreenNodeHead { kind, text_len: 0.into(), _c: Count::new() },
            children,
        );

        // XXX: fixup `text_len` after construction, because we can't iterate
        // `children` twice.
        let data = {
            let mut data = Arc::from_thin(data);
            Arc::get_mut(&mut data).unwrap().header.text_len = text_len;
            Arc::into_thin(data)
        };

        GreenNode { ptr: data }
""", """        let mut text_len: TextSize = 0.into();
        let mut placed = Vec::new();
        for el in children {
            let rel_offset = text_len;
            text_len += el.text_len();
            placed.push(match el {
                NodeOrToken::Node(node) => GreenChild::Node { rel_offset, node },
                NodeOrToken::Token(token) => GreenChild::Token { rel_offset, token },
            });
        }

        let head = GreenNodeHead { kind, text_len, _c: Count::new() };
        GreenNode { ptr: ThinArc::from_header_and_iter(head, placed.into_iter()) }
"""),
  ("src/green/node.rs", "arc::{Arc, HeaderSlice, ThinArc}", "arc::{Arc, HeaderSlice, ThinArc}") if False else
  ("src/green/node.rs", "    /// Kind of this node.\n", "    /// The kind of this node.\n"))

r("green-new-place-fn",
  ("src/green/node.rs", """            let rel_offset = text_len;
            text_len += el.text_len();
            match el {
                NodeOrToken::Node(node) => GreenChild::Node { rel_offset, node },
                NodeOrToken::Token(token) => GreenChild::Token { rel_offset, token },
            }
        });
""", """            let child = place(el, text_len);
            text_len = child.rel_range().end();
            child
        });
"""),
  ("src/green/node.rs", """impl GreenChild {
""", """fn place(el: GreenElement, rel_offset: TextSize) -> GreenChild {
    match el {
        NodeOrToken::Node(node) => GreenChild::Node { rel_offset, node },
        NodeOrToken::Token(token) => GreenChild::Token { rel_offset, token },
    }
}

impl GreenChild {
"""),
  ("src/green/node.rs", """        let mut replacement = Some(new_child);
        let children = self.children().enumerate().map(|(i, child)| {
            if i == index { replacement.take().unwrap() } else { child.to_owned() }
        });
        GreenNode::new(self.kind(), children)
""", """        let mut children: Vec<GreenElement> = self.children().map(|it| it.to_owned()).collect();
        if let Some(place) = children.get_mut(index) {
            *place = new_child;
        }
        GreenNode::new(self.kind(), children)
"""))

r("child-at-range-match",
  ("src/green/node.rs", """        let idx = self
            .slice()
            .binary_search_by(|it| {
                let child_range = it.rel_range();
                TextRange::ordering(child_range, rel_range)
            })
            // XXX: this handles empty ranges
            .unwrap_or_else(|it| it.saturating_sub(1));
        let child = &self.slice().get(idx).filter(|it| it.rel_range().contains_range(rel_range))?;
        Some((idx, child.rel_offset(), child.as_ref()))
""", """        let children = self.slice();
        let found =
            children.binary_search_by(|it| TextRange::ordering(it.rel_range(), rel_range));
        let idx = match found {
            Ok(idx) => idx,
            // XXX: this handles empty ranges
            Err(0) => 0,
            Err(idx) => idx - 1,
        };
        let child = children.get(idx)?;
        if !child.rel_range().contains_range(rel_range) {
            return None;
        }
        Some((idx, child.rel_offset(), child.as_ref()))
"""),
  ("src/green/node.rs", """        self.splice_children(index..index, iter::once(new_child))
""", """        let mut children: Vec<_> = self.children().map(|it| it.to_owned()).collect();
        children.insert(index, new_child);
        GreenNode::new(self.kind(), children)
"""),
  ("src/green/node.rs", """        self.splice_children(index..=index, iter::empty())
""", """        let mut children: Vec<_> = self.children().map(|it| it.to_owned()).collect();
        children.remove(index);
        GreenNode::new(self.kind(), children)
"""))

B = "src/green/builder.rs"
r("builder",
  (B, """        let (kind, first_child) = self.parents.pop().unwrap();
        let (hash, node) = self.cache.node(kind, &mut self.children, first_child);
        self.children.push((hash, node.into()));
""", """        let Some((kind, first_child)) = self.parents.pop() else {
            panic!("finish_node without start_node")
        };
        let done = self.cache.node(kind, &mut self.children, first_child);
        self.add(done.0, done.1.into());
"""),
  (B, """        let (hash, token) = self.cache.token(kind, text);
        self.children.push((hash, token.into()));
    }
""", """        let (hash, token) = self.cache.token(kind, text);
        self.add(hash, token.into());
    }

    #[inline]
    fn add(&mut self, hash: u64, element: GreenElement) {
        self.children.push((hash, element));
    }
"""),
  (B, """        if let Some(&(_, first_child)) = self.parents.last() {
            assert!(
                checkpoint >= first_child,
                "checkpoint no longer valid, was an unmatched start_node_at called?"
            );
        }
""", """        let first_child = self.parents.last().map_or(0, |&(_, first_child)| first_child);
        assert!(
            first_child <= checkpoint,
            "checkpoint no longer valid, was an unmatched start_node_at called?"
        );
"""),
  (B, """        assert_eq!(self.children.len(), 1);
        match self.children.pop().unwrap().1 {
            NodeOrToken::Node(node) => node,
            NodeOrToken::Token(_) => panic!(),
        }
""", """        assert_eq!(self.children.len(), 1);
        let (_, root) = self.children.remove(0);
        root.into_node().expect("a tree is rooted in a node")
"""))

N = "src/green/node_cache.rs"
r("cache-helpers",
  (N, """        let hash = {
            let mut h = FxHasher::default();
            kind.hash(&mut h);
            for &(hash, _) in children_ref {
                if hash == 0 {
                    let node = build_node(children);
                    return (0, node);
                }
                hash.hash(&mut h);
            }
            h.finish()
        };
""", """        if children_ref.iter().any(|&(hash, _)| hash == 0) {
            let node = build_node(children);
            return (0, node);
        }
        let mut h = FxHasher::default();
        kind.hash(&mut h);
        for (hash, _) in children_ref {
            hash.hash(&mut h);
        }
        let hash = h.finish();
"""),
  (N, """            node.0.kind() == kind && node.0.children().len() == children_ref.len() && {
                let lhs = node.0.children();
                let rhs = children_ref.iter().map(|(_, it)| it.as_deref());

                let lhs = lhs.map(element_id);
                let rhs = rhs.map(element_id);

                lhs.eq(rhs)
            }
""", """            node.0.kind() == kind && same_children(&node.0, children_ref)
"""),
  (N, "impl NodeCache {\n", """fn same_children(node: &GreenNodeData, children: &[(u64, GreenElement)]) -> bool {
    if node.children().len() != children.len() {
        return false;
    }
    for (lhs, (_, rhs)) in node.children().zip(children) {
        if element_id(lhs) != element_id(rhs.as_deref()) {
            return false;
        }
    }
    true
}

impl NodeCache {
"""))

r("cache-order",
  (N, """        let children_ref = &children[first_child..];
        if children_ref.len() > 3 {
            let node = build_node(children);
            return (0, node);
        }
""", """        if children.len() - first_child > 3 {
            return (0, build_node(children));
        }
        let children_ref = &children[first_child..];
"""),
  (N, """            RawEntryMut::Occupied(entry) => {
                drop(children.drain(first_child..));
                entry.key().0.clone()
            }
""", """            RawEntryMut::Occupied(entry) => {
                let node = entry.key().0.clone();
                children.truncate(first_child);
                node
            }
"""))

U = "src/utility_types.rs"
r("token-at-offset",
  (U, """    pub fn right_biased(self) -> Option<T> {
        match self {
            TokenAtOffset::None => None,
            TokenAtOffset::Single(node) => Some(node),
            TokenAtOffset::Between(_, right) => Some(right),
        }
    }
""", """    pub fn right_biased(self) -> Option<T> {
        self.last()
    }
"""),
  (U, """    pub fn left_biased(self) -> Option<T> {
        match self {
            TokenAtOffset::None => None,
            TokenAtOffset::Single(node) => Some(node),
            TokenAtOffset::Between(left, _) => Some(left),
        }
    }
""", """    pub fn left_biased(mut self) -> Option<T> {
        self.next()
    }
"""),
  (U, """        match std::mem::replace(self, TokenAtOffset::None) {
            TokenAtOffset::None => None,
            TokenAtOffset::Single(node) => {
                *self = TokenAtOffset::None;
                Some(node)
            }
            TokenAtOffset::Between(left, right) => {
                *self = TokenAtOffset::Single(right);
                Some(left)
            }
        }
""", """        let (rest, first) = match std::mem::replace(self, TokenAtOffset::None) {
            TokenAtOffset::None => (TokenAtOffset::None, None),
            TokenAtOffset::Single(node) => (TokenAtOffset::None, Some(node)),
            TokenAtOffset::Between(left, right) => (TokenAtOffset::Single(right), Some(left)),
        };
        *self = rest;
        first
"""),
  (U, """        match self {
            TokenAtOffset::None => (0, Some(0)),
            TokenAtOffset::Single(_) => (1, Some(1)),
            TokenAtOffset::Between(_, _) => (2, Some(2)),
        }
""", """        let left = match self {
            TokenAtOffset::None => 0,
            TokenAtOffset::Single(_) => 1,
            TokenAtOffset::Between(_, _) => 2,
        };
        (left, Some(left))
"""))

T = "src/syntax_text.rs"
r("text-loops",
  (T, """        self.try_for_each_chunk(|chunk| if chunk.contains(c) { Err(()) } else { Ok(()) }).is_err()
""", """        self.find_char(c).is_some()
"""),
  (T, """        self.tokens_with_ranges()
            .try_fold(init, move |acc, (token, range)| f(acc, &token.text()[range]))
""", """        let mut acc = init;
        for (token, range) in self.tokens_with_ranges() {
            acc = f(acc, &token.text()[range])?;
        }
        Ok(acc)
"""),
  (T, """        enum Void {}
        match self.try_for_each_chunk(|chunk| {
            f(chunk);
            Ok::<(), Void>(())
        }) {
            Ok(()) => (),
            Err(void) => match void {},
        }
""", """        for (token, range) in self.tokens_with_ranges() {
            f(&token.text()[range]);
        }
"""),
  (T, """        let start = range.start().unwrap_or_default();
        let end = range.end().unwrap_or(self.len());
        assert!(start <= end);
        let len = end - start;
        let start = self.range.start() + start;
        let end = start + len;
        assert!(
            start <= end,
            "invalid slice, range: {:?}, slice: {:?}",
            self.range,
            (range.start(), range.end()),
        );
        let range = TextRange::new(start, end);
""", """        let start = range.start().unwrap_or_default();
        let end = range.end().unwrap_or_else(|| self.len());
        assert!(start <= end);
        let range = TextRange::new(start, end) + self.range.start();
"""))

r("text-tokens",
  (T, """        let text_range = self.range;
        self.node.descendants_with_tokens().filter_map(|element| element.into_token()).filter_map(
            move |token| {
                let token_range = token.text_range();
                let range = text_range.intersect(token_range)?;
                Some((token, range - token_range.start()))
            },
        )
""", """        let text_range = self.range;
        self.node.descendants_with_tokens().filter_map(move |element| match element {
            crate::NodeOrToken::Node(_) => None,
            crate::NodeOrToken::Token(token) => {
                let token_range = token.text_range();
                text_range
                    .intersect(token_range)
                    .map(|range| (token, range - token_range.start()))
            }
        })
"""),
  (T, """            let end = start + TextSize::of(chunk);
            if start <= offset && offset < end {
                let off: usize = u32::from(offset - start) as usize;
                return Err(chunk[off..].chars().next().unwrap());
            }
            start = end;
            Ok(())
""", """            let len = TextSize::of(chunk);
            match offset.checked_sub(start) {
                Some(off) if off < len => Err(chunk[usize::from(off)..].chars().next().unwrap()),
                _ => {
                    start += len;
                    Ok(())
                }
            }
"""),
  (T, """            if !rhs.starts_with(chunk) {
                return Err(());
            }
            rhs = &rhs[chunk.len()..];
            Ok(())
""", """            rhs = rhs.strip_prefix(chunk).ok_or(())?;
            Ok::<(), ()>(())
"""))

S = "src/sll.rs"
r("sll-link",
  (S, """        let mut curr = (*old_head).prev().get();
        loop {
            match (*curr).key().cmp(elem.key()) {
                Ordering::Less => return AddToSllResult::SmallerThanNotHead(curr),
                Ordering::Equal => return AddToSllResult::AlreadyInSll(curr),
                Ordering::Greater => curr = (*curr).prev().get(),
            }
        }
""", """        let mut curr = (*old_head).prev().get();
        while (*curr).key().get() > elem.key().get() {
            curr = (*curr).prev().get();
        }
        if (*curr).key().get() == elem.key().get() {
            AddToSllResult::AlreadyInSll(curr)
        } else {
            AddToSllResult::SmallerThanNotHead(curr)
        }
"""),
  (S, "use std::{cell::Cell, cmp::Ordering, ptr};", "use std::{cell::Cell, ptr};"),
  (S, """        let mut curr = elem_ptr;
        loop {
            let mut key = (*curr).key().get();
            if key >= from {
                key += by;
                (*curr).key().set(key);
            }
            curr = (*curr).next().get();
            if curr == elem_ptr {
                break;
            }
        }
""", """        let mut curr = elem_ptr;
        loop {
            let cell = (*curr).key();
            if cell.get() >= from {
                cell.set(match by {
                    Delta::Add(amt) => cell.get() + amt,
                    Delta::Sub(amt) => cell.get() - amt,
                });
            }
            curr = (*curr).next().get();
            if ptr::eq(curr, elem_ptr) {
                return;
            }
        }
"""))

r("sll-insert",
  (S, """                AddToSllResult::SmallerThanHead(head) => {
                    let old_head = head.get();
                    let prev = (*old_head).prev().replace(elem_ptr);
                    (*prev).next().set(elem_ptr);
                    (*elem_ptr).next().set(old_head);
                    (*elem_ptr).prev().set(prev);
                    head.set(elem_ptr);
                }
""", """                AddToSllResult::SmallerThanHead(head) => {
                    let last = (*head.get()).prev().get();
                    insert_after(last, elem_ptr);
                    head.set(elem_ptr);
                }
"""),
  (S, """                    let next = (**curr).next().replace(elem_ptr);
                    (*next).prev().set(elem_ptr);
                    (*elem_ptr).prev().set(*curr);
                    (*elem_ptr).next().set(next);
""", """                    insert_after(*curr, elem_ptr);
"""),
  (S, "#[cold]\npub(crate) fn init", """unsafe fn insert_after<E: Elem>(prev: *const E, elem: *const E) {
    unsafe {
        let next = (*prev).next().get();
        (*elem).prev().set(prev);
        (*elem).next().set(next);
        (*next).prev().set(elem);
        (*prev).next().set(elem);
    }
}

#[cold]
pub(crate) fn init"""),
  (S, """    if head.get() == elem_ptr {
        head.set(if next == elem_ptr { ptr::null() } else { next })
    }
""", """    if head.get() != elem_ptr {
        return;
    }
    let alone = next == elem_ptr;
    head.set(if alone { ptr::null() } else { next });
"""))

A = "src/api.rs"
r("serde-for",
  ("src/serde_impls.rs", """        self.0.children_with_tokens().try_for_each(|element| match element {
            NodeOrToken::Node(it) => state.serialize_element(&it),
            NodeOrToken::Token(it) => state.serialize_element(&it),
        })?;
        state.end()
""", """        for element in self.0.children_with_tokens() {
            match element {
                NodeOrToken::Node(it) => state.serialize_element(&it)?,
                NodeOrToken::Token(it) => state.serialize_element(&it)?,
            }
        }
        state.end()
"""))

r("covering-while",
  (C, """        let mut res: SyntaxElement = self.clone().into();
        loop {
            assert!(
                res.text_range().contains_range(range),
                "Bad range: node range {:?}, range {:?}",
                res.text_range(),
                range,
            );
            res = match &res {
                NodeOrToken::Token(_) => return res,
                NodeOrToken::Node(node) => match node.child_or_token_at_range(range) {
                    Some(it) => it,
                    None => return res,
                },
            };
        }
""", """        let check = |it: &SyntaxElement| {
            let node_range = it.text_range();
            assert!(
                node_range.contains_range(range),
                "Bad range: node range {:?}, range {:?}",
                node_range,
                range,
            );
        };
        let mut res: SyntaxElement = NodeOrToken::Node(self.clone());
        check(&res);
        while let Some(it) = res.as_node().and_then(|node| node.child_or_token_at_range(range)) {
            check(&it);
            res = it;
        }
        res
"""))

r("replace-with-loop",
  (C, """        match &self.parent() {
            None => replacement,
            Some(parent) => {
                let new_parent = parent
                    .green_ref()
                    .replace_child(self.data().index() as usize, replacement.into());
                parent.replace_with(new_parent)
            }
        }
""", """        let mut node = self.clone();
        let mut green = replacement;
        while let Some(parent) = node.parent() {
            green = parent.green_ref().replace_child(node.index(), green.into());
            node = parent;
        }
        green
"""))

r("replace-with-let-else",
  (C, """        match &self.parent() {
            None => replacement,
            Some(parent) => {
                let new_parent = parent
                    .green_ref()
                    .replace_child(self.data().index() as usize, replacement.into());
                parent.replace_with(new_parent)
            }
        }
""", """        let Some(parent) = self.parent() else { return replacement };
        parent.replace_with(parent.green_ref().replace_child(self.index(), replacement.into()))
"""))

r("sibling-helper",
  (C, """        let siblings = self.green_siblings().enumerate();
        let index = self.index() as usize;

        siblings.skip(index + 1).find_map(|(index, child)| {
            child.as_ref().into_node().and_then(|green| {
                let parent = self.parent_node()?;
                let offset = parent.offset() + child.rel_offset();
                Some(SyntaxNode::new_child(green, parent, index as u32, offset))
            })
        })
    }
""", """        let siblings = self.green_siblings().enumerate();
        let index = self.index() as usize;

        siblings.skip(index + 1).find_map(|(index, child)| self.sibling_node(index, child))
    }

    fn sibling_node(&self, index: usize, child: &GreenChild) -> Option<SyntaxNode> {
        let green = child.as_ref().into_node()?;
        let parent = self.parent_node()?;
        let offset = parent.offset() + child.rel_offset();
        Some(SyntaxNode::new_child(green, parent, index as u32, offset))
    }
"""),
  (C, """        rev_siblings.skip(index).find_map(|(index, child)| {
            child.as_ref().into_node().and_then(|green| {
                let parent = self.parent_node()?;
                let offset = parent.offset() + child.rel_offset();
                Some(SyntaxNode::new_child(green, parent, index as u32, offset))
            })
        })
""", """        rev_siblings.skip(index).find_map(|(index, child)| self.sibling_node(index, child))
"""),
  (C, """            if !matcher(child.as_ref().kind()) {
                return None;
            }
            child.as_ref().into_node().and_then(|green| {
                let parent = self.parent_node()?;
                let offset = parent.offset() + child.rel_offset();
                Some(SyntaxNode::new_child(green, parent, index as u32, offset))
            })
        })
""", """            if matcher(child.as_ref().kind()) { self.sibling_node(index, child) } else { None }
        })
"""))

r("siblings-slice",
  (C, """        let mut siblings = self.green_siblings().enumerate();
        let index = self.index() as usize + 1;

        siblings.nth(index).and_then(|(index, child)| {
            let parent = self.parent_node()?;
            let offset = parent.offset() + child.rel_offset();
            Some(SyntaxElement::new(child.as_ref(), parent, index as u32, offset))
        })
""", """        let index = self.index() + 1;
        let child = self.green_siblings().as_slice().get(index as usize)?;
        let parent = self.parent_node()?;
        let offset = parent.offset() + child.rel_offset();
        Some(SyntaxElement::new(child.as_ref(), parent, index, offset))
"""),
  (C, """        let mut siblings = self.green_siblings().enumerate();
        let index = self.index().checked_sub(1)? as usize;

        siblings.nth(index).and_then(|(index, child)| {
            let parent = self.parent_node()?;
            let offset = parent.offset() + child.rel_offset();
            Some(SyntaxElement::new(child.as_ref(), parent, index as u32, offset))
        })
""", """        if self.index() == 0 {
            return None;
        }
        let index = self.index() - 1;
        let parent = self.parent_node()?;
        let child = self.green_siblings().nth(index as usize)?;
        let offset = parent.offset() + child.rel_offset();
        Some(SyntaxElement::new(child.as_ref(), parent, index, offset))
"""),
  (C, """        let mut res = TextSize::from(0);

        let mut node = self;
        while let Some(parent) = node.parent() {
            let green = parent.green().into_node().unwrap();
            res += green.children().raw.nth(node.index() as usize).unwrap().rel_offset();
            node = parent;
        }

        res
""", """        let mut res = TextSize::from(0);
        let mut node = self;
        loop {
            let Some(parent) = node.parent() else { return res };
            let siblings = node.green_siblings();
            res += siblings.as_slice()[node.index() as usize].rel_offset();
            node = parent;
        }
"""))

r("in-place-helper",
  (C, """            .map(|(green, index, rel_offset)| {
                data.index.set(index);
                data.offset = parent_offset + rel_offset;
                data.green = Green::Node { ptr: Cell::new(green.into()) };
                SyntaxNode { ptr }
            })
            .or_else(|| {
                data.dec_rc();
                unsafe { free(ptr) };
                None
            })
    }
""", """            .map(|(green, index, rel_offset)| {
                data.green = Green::Node { ptr: Cell::new(green.into()) };
                data.offset = rel_offset + parent_offset;
                data.index.set(index);
                SyntaxNode { ptr }
            })
            .or_else(|| {
                if data.dec_rc() {
                    unsafe { free(ptr) };
                }
                None
            })
    }
"""),
  (C, """        siblings
            .skip(index + 1)
            .map(|(index, green)| {
                data.index.set(index as u32);
                data.offset = parent_offset + green.rel_offset();

                match green.as_ref() {
                    NodeOrToken::Node(node) => {
                        data.green = Green::Node { ptr: Cell::new(node.into()) };
                        Some(SyntaxElement::Node(SyntaxNode { ptr }))
                    }
                    NodeOrToken::Token(token) => {
                        data.green = Green::Token { ptr: token.into() };
                        Some(SyntaxElement::Token(SyntaxToken { ptr }))
                    }
                }
            })
            .next()
            .flatten()
            .or_else(|| {
                data.dec_rc();
                unsafe { free(ptr) };
                None
            })
""", """        let Some((index, green)) = siblings.skip(index + 1).next() else {
            data.dec_rc();
            unsafe { free(ptr) };
            return None;
        };
        data.index.set(index as u32);
        data.offset = parent_offset + green.rel_offset();
        Some(match green.as_ref() {
            NodeOrToken::Node(node) => {
                data.green = Green::Node { ptr: Cell::new(node.into()) };
                SyntaxElement::Node(SyntaxNode { ptr })
            }
            NodeOrToken::Token(token) => {
                data.green = Green::Token { ptr: token.into() };
                SyntaxElement::Token(SyntaxToken { ptr })
            }
        })
"""))

r("token-at-offset-loop",
  (C, """        let left = children.next().unwrap();
        let right = children.next();
        assert!(children.next().is_none());

        if let Some(right) = right {
            match (left.token_at_offset(offset), right.token_at_offset(offset)) {
                (TokenAtOffset::Single(left), TokenAtOffset::Single(right)) => {
                    TokenAtOffset::Between(left, right)
                }
                _ => unreachable!(),
            }
        } else {
            left.token_at_offset(offset)
        }
""", """        let left = children.next().unwrap();
        let Some(right) = children.next() else { return left.token_at_offset(offset) };
        assert!(children.next().is_none());
        let left = left.token_at_offset(offset);
        let right = right.token_at_offset(offset);
        if let (TokenAtOffset::Single(left), TokenAtOffset::Single(right)) = (left, right) {
            return TokenAtOffset::Between(left, right);
        }
        unreachable!()
"""),
  (C, """        match self.next_sibling_or_token() {
            Some(element) => element.first_token(),
            None => self
                .ancestors()
                .find_map(|it| it.next_sibling_or_token())
                .and_then(|element| element.first_token()),
        }
""", """        if let Some(element) = self.next_sibling_or_token() {
            return element.first_token();
        }
        for it in self.ancestors() {
            if let Some(element) = it.next_sibling_or_token() {
                return element.first_token();
            }
        }
        None
"""),
  (C, """        let first = match self {
            NodeOrToken::Node(it) => Some(it.clone()),
            NodeOrToken::Token(it) => it.parent(),
        };
        iter::successors(first, SyntaxNode::parent)
""", """        let first = match self.as_node() {
            Some(it) => Some(it.clone()),
            None => self.parent(),
        };
        iter::successors(first, |it| it.parent())
"""))

r("new-helpers",
  (C, """        let green = GreenNode::into_raw(green);
        let green = Green::Node { ptr: Cell::new(green) };
        SyntaxNode { ptr: NodeData::new(None, 0, 0.into(), green, false) }
    }
""", """        SyntaxNode::root(green, false)
    }

    fn root(green: GreenNode, mutable: bool) -> SyntaxNode {
        let green = Green::Node { ptr: Cell::new(GreenNode::into_raw(green)) };
        SyntaxNode { ptr: NodeData::new(None, 0, TextSize::default(), green, mutable) }
    }
"""),
  (C, """        let green = GreenNode::into_raw(green);
        let green = Green::Node { ptr: Cell::new(green) };
        SyntaxNode { ptr: NodeData::new(None, 0, 0.into(), green, true) }
""", """        SyntaxNode::root(green, true)
"""),
  (C, """        assert!(!self.data().mutable);
        match self.parent() {
            Some(parent) => {
                let parent = parent.clone_for_update();
                SyntaxNode::new_child(self.green_ref(), parent, self.data().index(), self.offset())
            }
            None => SyntaxNode::new_root_mut(self.green_ref().to_owned()),
        }
""", """        assert!(!self.is_mutable());
        let green = self.green_ref();
        let Some(parent) = self.parent() else {
            return SyntaxNode::new_root_mut(green.to_owned());
        };
        let index = self.data().index();
        SyntaxNode::new_child(green, parent.clone_for_update(), index, self.offset())
"""),
  (C, """        match self.data().mutable {
            false => Cow::Borrowed(green_ref),
            true => Cow::Owned(green_ref.to_owned()),
        }
""", """        if self.is_mutable() {
            return Cow::Owned(green_ref.to_owned());
        }
        Cow::Borrowed(green_ref)
"""))

r("node-data-new",
  (C, """        unsafe {
            if mutable {
                let res_ptr: *const NodeData = &res;
                match sll::init((*res_ptr).parent().map(|it| &it.first), res_ptr.as_ref().unwrap())
                {
                    sll::AddToSllResult::AlreadyInSll(node) => {
""", """        unsafe {
            if !mutable {
                return ptr::NonNull::new_unchecked(Box::into_raw(Box::new(res)));
            }
            {
                let res_ptr: *const NodeData = &res;
                let head = (*res_ptr).parent().map(|it| &it.first);
                match sll::init(head, &*res_ptr) {
                    sll::AddToSllResult::AlreadyInSll(node) => {
"""),
  (C, """                    it => {
                        let res = Box::into_raw(Box::new(res));
                        it.add_to_sll(res);
                        return ptr::NonNull::new_unchecked(res);
                    }
                }
            }
            ptr::NonNull::new_unchecked(Box::into_raw(Box::new(res)))
        }
""", """                    it => {
                        let res = Box::into_raw(Box::new(res));
                        it.add_to_sll(res);
                        ptr::NonNull::new_unchecked(res)
                    }
                }
            }
        }
"""))

r("eq-hash",
  (C, """    fn eq(&self, other: &SyntaxNode) -> bool {
        self.data().key() == other.data().key()
    }
}

impl Eq for SyntaxNode {}

impl Hash for SyntaxNode {
    #[inline]
    fn hash<H: Hasher>(&self, state: &mut H) {
        self.data().key().hash(state);
    }
}
""", """    fn eq(&self, other: &SyntaxNode) -> bool {
        let (lhs, rhs) = (self.data().key(), other.data().key());
        lhs.0 == rhs.0 && lhs.1 == rhs.1
    }
}

impl Eq for SyntaxNode {}

impl Hash for SyntaxNode {
    #[inline]
    fn hash<H: Hasher>(&self, state: &mut H) {
        let (green, offset) = self.data().key();
        green.hash(state);
        offset.hash(state);
    }
}
"""),
  (C, """        self.preorder_with_tokens()
            .filter_map(|event| match event {
                WalkEvent::Enter(NodeOrToken::Token(token)) => Some(token),
                _ => None,
            })
            .try_for_each(|it| fmt::Display::fmt(&it, f))
""", """        for event in self.preorder_with_tokens() {
            if let WalkEvent::Enter(NodeOrToken::Token(token)) = event {
                fmt::Display::fmt(&token, f)?;
            }
        }
        Ok(())
"""))

r("descendants",
  (C, """        self.preorder().filter_map(|event| match event {
            WalkEvent::Enter(node) => Some(node),
            WalkEvent::Leave(_) => None,
        })
""", """        self.preorder().filter_map(entered)
"""),
  (C, """        self.preorder_with_tokens().filter_map(|event| match event {
            WalkEvent::Enter(it) => Some(it),
            WalkEvent::Leave(_) => None,
        })
""", """        self.preorder_with_tokens().filter_map(entered)
"""),
  (C, "// region: impls\n", """fn entered<T>(event: WalkEvent<T>) -> Option<T> {
    if let WalkEvent::Enter(it) = event { Some(it) } else { None }
}

// region: impls
"""),
  (C, """        assert!(self.data().mutable, "immutable tree: {}", self);
        for (i, child) in self.children_with_tokens().enumerate() {
            if to_delete.contains(&i) {
                child.detach();
            }
        }
        let mut index = to_delete.start;
        for child in to_insert {
            self.attach_child(index, child);
            index += 1;
        }
""", """        if !self.is_mutable() {
            panic!("immutable tree: {}", self);
        }
        self.children_with_tokens().enumerate().for_each(|(i, child)| {
            if to_delete.start <= i && i < to_delete.end {
                child.detach();
            }
        });
        for (i, child) in to_insert.into_iter().enumerate() {
            self.attach_child(to_delete.start + i, child);
        }
"""))

r("children-iter",
  (C, """        if self.parent.is_mutable() {
            // Advance eagerly, as the caller might detach the node we return.
            let next =
                if self.next_initialized { self.next.take() } else { self.parent.first_child() };
            self.next_initialized = true;
            self.next = next.as_ref().and_then(SyntaxNode::next_sibling);
            return next;
        }

        if !self.next_initialized {
            self.next = self.parent.first_child();
            self.next_initialized = true;
        } else {
            self.next = self.next.take().and_then(|next| next.to_next_sibling());
        }

        self.next.clone()
""", """        let last = self.next.take();
        let first = !mem::replace(&mut self.next_initialized, true);
        if !self.parent.is_mutable() {
            self.next = match last {
                _ if first => self.parent.first_child(),
                Some(last) => last.to_next_sibling(),
                None => None,
            };
            return self.next.clone();
        }
        // Advance eagerly, as the caller might detach the node we return.
        let next = if first { self.parent.first_child() } else { last };
        if let Some(next) = &next {
            self.next = next.next_sibling();
        }
        next
"""),
  (C, """            SyntaxElementChildrenByKind {
                next: self.next.and_then(|node| {
                    if self.parent.is_mutable() && matcher(node.kind()) {
                        Some(node)
                    } else {
                        node.next_sibling_or_token_by_kind(&matcher)
                    }
                }),
                matcher,
            }
""", """            let next = match self.next {
                Some(node) if self.parent.is_mutable() && matcher(node.kind()) => Some(node),
                Some(node) => node.next_sibling_or_token_by_kind(&matcher),
                None => None,
            };
            SyntaxElementChildrenByKind { next, matcher }
"""),
  (C, """        self.next.take().inspect(|next| {
            self.next = next.next_sibling_or_token_by_kind(&self.matcher);
        })
""", """        let next = self.next.take()?;
        self.next = next.next_sibling_or_token_by_kind(&self.matcher);
        Some(next)
"""))

r("preorder",
  (C, """        let next = self.next.take();
        self.next = next.as_ref().and_then(|next| {
            Some(match next {
                WalkEvent::Enter(node) => match node.first_child() {
                    Some(child) => WalkEvent::Enter(child),
                    None => WalkEvent::Leave(node.clone()),
                },
                WalkEvent::Leave(node) => {
                    if node == &self.start {
                        return None;
                    }
                    match node.next_sibling() {
                        Some(sibling) => WalkEvent::Enter(sibling),
                        None => WalkEvent::Leave(node.parent()?),
                    }
                }
            })
        });
        next
    }
""", """        let next = self.next.take()?;
        self.next = self.after(&next);
        Some(next)
    }
"""),
  (C, """impl Iterator for Preorder {
""", """impl Preorder {
    fn after(&self, event: &WalkEvent<SyntaxNode>) -> Option<WalkEvent<SyntaxNode>> {
        let event = match event {
            WalkEvent::Leave(node) if *node == self.start => return None,
            WalkEvent::Leave(node) => match node.next_sibling() {
                None => WalkEvent::Leave(node.parent()?),
                Some(sibling) => WalkEvent::Enter(sibling),
            },
            WalkEvent::Enter(node) => {
                node.first_child().map_or_else(|| WalkEvent::Leave(node.clone()), WalkEvent::Enter)
            }
        };
        Some(event)
    }
}

impl Iterator for Preorder {
"""),
  (C, """        self.next = self.next.take().map(|next| match next {
            WalkEvent::Enter(first_child) => WalkEvent::Leave(first_child.parent().unwrap().into()),
            WalkEvent::Leave(parent) => WalkEvent::Leave(parent),
        })
""", """        if let Some(WalkEvent::Enter(child)) = &self.next {
            let parent = child.parent().unwrap();
            self.next = Some(WalkEvent::Leave(parent.into()));
        }
"""))

r("api-match",
  (A, """        self.raw.parent().map(Self::from)
    }

    pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode<L>> {
        self.raw.ancestors().map(SyntaxNode::from)
    }
""", """        match self.raw.parent() {
            Some(raw) => Some(SyntaxNode { raw, _p: PhantomData }),
            None => None,
        }
    }

    pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode<L>> {
        iter::successors(Some(self.clone()), |it| it.parent())
    }
"""),
  (A, """    pub fn first_child_by_kind(&self, matcher: &impl Fn(L::Kind) -> bool) -> Option<SyntaxNode<L>> {
        self.raw
            .first_child_by_kind(&|raw_kind| matcher(L::kind_from_raw(raw_kind)))
            .map(Self::from)
    }
""", """    pub fn first_child_by_kind(&self, matcher: &impl Fn(L::Kind) -> bool) -> Option<SyntaxNode<L>> {
        let raw = self.raw.first_child_by_kind(&|kind| {
            let kind = L::kind_from_raw(kind);
            matcher(kind)
        })?;
        Some(Self::from(raw))
    }
"""),
  (A, """        self.raw.descendants().map(SyntaxNode::from)
""", """        self.preorder().filter_map(|event| match event {
            WalkEvent::Enter(node) => Some(node),
            WalkEvent::Leave(_) => None,
        })
"""),
  (A, """        if self.text().len() < 25 {
            return write!(f, " {:?}", self.text());
        }
        let text = self.text();
        for idx in 21..25 {
            if text.is_char_boundary(idx) {
                let text = format!("{} ...", &text[..idx]);
                return write!(f, " {:?}", text);
            }
        }
        unreachable!()
""", """        let text = self.text();
        if text.len() < 25 {
            return write!(f, " {:?}", text);
        }
        let end = (21..25).find(|&idx| text.is_char_boundary(idx)).unwrap();
        write!(f, " {:?}", format!("{} ...", &text[..end]))
"""))

r("ast-loops",
  ("src/ast.rs", """        parent.children().find_map(N::cast)
""", """        for node in parent.children() {
            if let Some(it) = N::cast(node) {
                return Some(it);
            }
        }
        None
"""),
  ("src/ast.rs", """        parent.children_with_tokens().filter_map(|it| it.into_token()).find(|it| it.kind() == kind)
""", """        parent
            .children_with_tokens()
            .find_map(|it| it.into_token().filter(|token| token.kind() == kind))
"""),
  ("src/ast.rs", """        self.inner.find_map(N::cast)
""", """        loop {
            let node = self.inner.next()?;
            if let Some(it) = N::cast(node) {
                return Some(it);
            }
        }
"""),
  ("src/ast.rs", """        successors(Some(root.clone()), |node| node.child_or_token_at_range(self.range)?.into_node())
            .find(|it| it.text_range() == self.range && it.kind() == self.kind)
""", """        let mut node = root.clone();
        loop {
            if node.kind() == self.kind && node.text_range() == self.range {
                return Some(node);
            }
            node = node.child_or_token_at_range(self.range)?.into_node()?;
        }
"""),
  ("src/ast.rs", "    iter::successors,\n", "") if "iter::successors" in open("/repo/src/ast.rs").read() else
  ("src/ast.rs", "/// Returns the kind of the syntax node this points to.", "/// The kind of the syntax node this points to."),
  ("src/ast.rs", """        if !N::can_cast(self.kind) {
            return None;
        }
        Some(AstPtr { raw: self })
""", """        N::can_cast(self.kind).then(|| AstPtr { raw: self })
"""))

r("arc-iter",
  ("src/arc.rs", """            if num_items != 0 {
                let mut current = ptr::addr_of_mut!((*ptr).data.slice) as *mut T;
                debug_assert_eq!(current as usize - buffer as usize, slice_offset);
                for _ in 0..num_items {
                    ptr::write(
                        current,
                        items.next().expect("ExactSizeIterator over-reported length"),
                    );
                    current = current.offset(1);
                }
                assert!(items.next().is_none(), "ExactSizeIterator under-reported length");

                // We should have consumed the buffer exactly.
                debug_assert_eq!(current as *mut u8, buffer.add(usable_size));
            }
            assert!(items.next().is_none(), "ExactSizeIterator under-reported length");
""", """            let slice = ptr::addr_of_mut!((*ptr).data.slice) as *mut T;
            debug_assert_eq!(slice as usize - buffer as usize, slice_offset);
            for i in 0..num_items {
                let item = items.next().expect("ExactSizeIterator over-reported length");
                slice.add(i).write(item);
            }
            if items.next().is_some() {
                panic!("ExactSizeIterator under-reported length");
            }
"""))

r("index-field-type",
  (C, """    pub fn index(&self) -> usize {
        self.data().index() as usize
    }

    #[inline]
    pub fn text(&self) -> SyntaxText {""", """    pub fn index(&self) -> usize {
        let index = self.data().index.get();
        index as usize
    }

    #[inline]
    pub fn text(&self) -> SyntaxText {"""),
  (C, """        let rc = match self.rc.get().checked_add(1) {
            Some(it) => it,
            None => std::process::abort(),
        };
        self.rc.set(rc)
""", """        let Some(rc) = self.rc.get().checked_add(1) else { std::process::abort() };
        self.rc.set(rc)
"""),
  (C, """        let rc = self.rc.get() - 1;
        self.rc.set(rc);
        rc == 0
""", """        self.rc.set(self.rc.get() - 1);
        self.rc.get() == 0
"""))

G, S, B, T, A, API, SL, ARC, NC = "src/green/node.rs", "src/syntax_text.rs", "src/green/builder.rs", "src/green/token.rs", "src/ast.rs", "src/api.rs", "src/sll.rs", "src/arc.rs", "src/green/node_cache.rs"
r("offset-recursive",
  (C, """        let mut res = TextSize::from(0);

        let mut node = self;
        while let Some(parent) = node.parent() {
            let green = parent.green().into_node().unwrap();
            res += green.children().raw.nth(node.index() as usize).unwrap().rel_offset();
            node = parent;
        }

        res
""", """        match self.parent() {
            Some(parent) => {
                let green = parent.green().into_node().unwrap();
                let child = green.children().raw.nth(self.index() as usize).unwrap();
                parent.offset_mut() + child.rel_offset()
            }
            None => TextSize::from(0),
        }
"""))
r("splice-collect",
  (C, """        for (i, child) in self.children_with_tokens().enumerate() {
            if to_delete.contains(&i) {
                child.detach();
            }
        }
        let mut index = to_delete.start;
        for child in to_insert {
            self.attach_child(index, child);
            index += 1;
        }
""", """        let start = to_delete.start;
        let doomed: Vec<SyntaxElement> =
            self.children_with_tokens().skip(start).take(to_delete.len()).collect();
        for child in &doomed {
            child.detach();
        }
        for (i, child) in to_insert.into_iter().enumerate() {
            self.attach_child(start + i, child);
        }
"""))
r("splice-filter",
  (C, """        for (i, child) in self.children_with_tokens().enumerate() {
            if to_delete.contains(&i) {
                child.detach();
            }
        }
        let mut index = to_delete.start;
        for child in to_insert {
            self.attach_child(index, child);
            index += 1;
        }
""", """        self.children_with_tokens()
            .enumerate()
            .filter(|(i, _)| to_delete.start <= *i && *i < to_delete.end)
            .for_each(|(_, child)| child.detach());
        let mut place = to_delete.start..;
        for child in to_insert {
            self.attach_child(place.next().unwrap(), child);
        }
"""))
r("sll-unlink-early",
  (SL, """    let prev = elem.prev().replace(elem_ptr);
    let next = elem.next().replace(elem_ptr);
    unsafe {
        debug_assert_eq!((*prev).next().get(), elem_ptr, "invalid linked list links");
        debug_assert_eq!((*next).prev().get(), elem_ptr, "invalid linked list links");
        (*prev).next().set(next);
        (*next).prev().set(prev);
    }

    if head.get() == elem_ptr {
        head.set(if next == elem_ptr { ptr::null() } else { next })
    }
""", """    if elem.next().get() == elem_ptr {
        // the only one
        head.set(ptr::null());
        return;
    }

    let next = elem.next().replace(elem_ptr);
    let prev = elem.prev().replace(elem_ptr);
    unsafe {
        debug_assert_eq!((*prev).next().get(), elem_ptr, "invalid linked list links");
        debug_assert_eq!((*next).prev().get(), elem_ptr, "invalid linked list links");
        (*next).prev().set(prev);
        (*prev).next().set(next);
    }
    if head.get() == elem_ptr {
        head.set(next);
    }
"""))
r("sll-adjust-do",
  (SL, """        let mut curr = elem_ptr;
        loop {
            let mut key = (*curr).key().get();
            if key >= from {
                key += by;
                (*curr).key().set(key);
            }
            curr = (*curr).next().get();
            if curr == elem_ptr {
                break;
            }
        }
""", """        let mut curr = elem_ptr;
        let mut done = false;
        while !done {
            let cell = (*curr).key();
            if !(cell.get() < from) {
                let mut key = cell.get();
                key += by;
                cell.set(key);
            }
            curr = (*curr).next().get();
            done = curr == elem_ptr;
        }
"""))
r("rc-helpers",
  (C, """        let rc = self.rc.get() - 1;
        self.rc.set(rc);
        rc == 0
""", """        let old = self.rc.replace(self.rc.get() - 1);
        old == 1
"""),
  (C, """        let rc = match self.rc.get().checked_add(1) {
            Some(it) => it,
            None => std::process::abort(),
        };
        self.rc.set(rc)
""", """        let rc = self.rc.get();
        if rc == u32::MAX {
            std::process::abort();
        }
        self.rc.set(rc + 1);
"""))
r("builder-split",
  (B, """        let (kind, first_child) = self.parents.pop().unwrap();
        let (hash, node) = self.cache.node(kind, &mut self.children, first_child);
        self.children.push((hash, node.into()));
""", """        let Some((kind, first_child)) = self.parents.pop() else {
            panic!("finish_node without start_node")
        };
        let (hash, node) = self.cache.node(kind, &mut self.children, first_child);
        self.push(hash, node.into());
"""),
  (B, """        let (hash, token) = self.cache.token(kind, text);
        self.children.push((hash, token.into()));
    }
""", """        let (hash, token) = self.cache.token(kind, text);
        self.push(hash, token.into());
    }

    #[inline]
    fn push(&mut self, hash: u64, element: GreenElement) {
        self.children.push((hash, element));
    }
"""),
  (B, """        assert_eq!(self.children.len(), 1);
        match self.children.pop().unwrap().1 {
            NodeOrToken::Node(node) => node,
            NodeOrToken::Token(_) => panic!(),
        }
""", """        let n = self.children.len();
        assert!(n == 1, "{n} elements left");
        let (_, element) = self.children.remove(0);
        element.into_node().expect("a token is not a tree")
"""))
r("zip-texts",
  (S, """        while x.1.is_empty() {
            x = xs.next()?;
        }
        while y.1.is_empty() {
            y = ys.next()?;
        }
        let x_text = &x.0.text()[x.1];
        let y_text = &y.0.text()[y.1];
        if !(x_text.starts_with(y_text) || y_text.starts_with(x_text)) {
            return Some(());
        }
        let advance = std::cmp::min(x.1.len(), y.1.len());
""", """        if x.1.is_empty() {
            x = xs.next()?;
            continue;
        }
        if y.1.is_empty() {
            y = ys.next()?;
            continue;
        }
        let (x_text, y_text) = (&x.0.text()[x.1], &y.0.text()[y.1]);
        let equal = x_text.starts_with(y_text) || y_text.starts_with(x_text);
        if !equal {
            return Some(());
        }
        let (x_len, y_len) = (x.1.len(), y.1.len());
        let advance = if x_len < y_len { x_len } else { y_len };
"""))
r("green-child-at",
  (G, """        let idx = self
            .slice()
            .binary_search_by(|it| {
                let child_range = it.rel_range();
                TextRange::ordering(child_range, rel_range)
            })
            // XXX: this handles empty ranges
            .unwrap_or_else(|it| it.saturating_sub(1));
        let child = &self.slice().get(idx).filter(|it| it.rel_range().contains_range(rel_range))?;
        Some((idx, child.rel_offset(), child.as_ref()))
""", """        let children = self.slice();
        let found =
            children.binary_search_by(|it| TextRange::ordering(it.rel_range(), rel_range));
        let idx = match found {
            Ok(it) => it,
            // XXX: this handles empty ranges
            Err(it) => it.saturating_sub(1),
        };
        let child = children.get(idx)?;
        if !child.rel_range().contains_range(rel_range) {
            return None;
        }
        Some((idx, child.rel_offset(), child.as_ref()))
"""),
  (G, """        let mut replacement = Some(new_child);
        let children = self.children().enumerate().map(|(i, child)| {
            if i == index { replacement.take().unwrap() } else { child.to_owned() }
        });
        GreenNode::new(self.kind(), children)
""", """        let mut children: Vec<GreenElement> = self.children().map(|it| it.to_owned()).collect();
        if let Some(slot) = children.get_mut(index) {
            *slot = new_child;
        }
        GreenNode::new(self.kind(), children)
"""),
  (G, """        self.splice_children(index..=index, iter::empty())
""", """        self.splice_children(index..index + 1, iter::empty())
"""))
r("rename-private",
  (C, "re:\\brespine\\b", "rebuild"), (C, "re:\\battach_child\\b", "insert_at"), (C, "re:\\bfree\\b", "release_data"),
  (C, "re:sll::link\\b", "sll::find_place"), (SL, "re:\\blink\\b", "find_place"),
  (C, "re:\\badd_to_sll\\b", "enter"), (SL, "re:\\badd_to_sll\\b", "enter"),
  (C, "re:sll::adjust\\b", "sll::shift"), (SL, "re:\\badjust\\b", "shift"),
  (C, "re:\\bcan_take_ptr\\b", "is_unique"), (C, "re:\\btake_ptr\\b", "into_ptr"))
r("rename-fields",
  (C, "re:\\brc\\b(?!\\w)", "count_"), (C, "re:\\bmutable\\b", "editable"), (C, "re:\\bNodeData\\b", "Inner"))
r("rename-green",
  (G, "re:\\brel_offset\\b", "rel_start"), (C, "re:\\brel_offset\\b", "rel_start"), (G, "re:\\bslice\\(\\)", "kids()"), (G, "fn slice(&self)", "fn kids(&self)"), (G, "self.data.kids()", "self.data.slice()"))
r("mod-data",
  (C, "re:GreenElementRef::Node\\(unsafe \\{ &\\*ptr.get\\(\\).as_ptr\\(\\) \\}\\)", "GreenElementRef::Node(unsafe { ptr.get().as_ref() })"),
  (C, """        self.parent.get().map(|it| unsafe { &*it.as_ptr() })""", """        match self.parent.get() {
            Some(it) => Some(unsafe { it.as_ref() }),
            None => None,
        }"""))
r("siblings-helper2",
  (C, """        let mut siblings = self.green_siblings().enumerate();
        let index = self.index() as usize + 1;

        siblings.nth(index).and_then(|(index, child)| {
            let parent = self.parent_node()?;
            let offset = parent.offset() + child.rel_offset();
            Some(SyntaxElement::new(child.as_ref(), parent, index as u32, offset))
        })
    }
""", """        self.sibling_at(self.index() as usize + 1)
    }

    fn sibling_at(&self, index: usize) -> Option<SyntaxElement> {
        let child = self.green_siblings().as_slice().get(index)?;
        let parent = self.parent_node()?;
        let offset = parent.offset() + child.rel_offset();
        Some(SyntaxElement::new(child.as_ref(), parent, index as u32, offset))
    }
"""),
  (C, """        let mut siblings = self.green_siblings().enumerate();
        let index = self.index().checked_sub(1)? as usize;

        siblings.nth(index).and_then(|(index, child)| {
            let parent = self.parent_node()?;
            let offset = parent.offset() + child.rel_offset();
            Some(SyntaxElement::new(child.as_ref(), parent, index as u32, offset))
        })
""", """        match self.index() {
            0 => None,
            i => self.sibling_at(i as usize - 1),
        }
"""))


def sh(cmd, cwd, env=None, timeout=1500):
    e = {k: v for k, v in os.environ.items() if not k.startswith("ROWAN_")}
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def apply(names, work):
    for n in names:
        for f, old, new in R[n]:
            p = os.path.join(work, f)
            s = open(p).read()
            if old.startswith("re:"):
                s, k = re.subn(old[3:], new, s)
                if not k:
                    return f"{n}: {f}: {old} not found"
                open(p, "w").write(s)
                continue
            k = s.count(old)
            if k == 0 or (k > 1 and n != "multi"):
                if k == 0:
                    return f"{n}: {f}: text not found: {old[:70]!r}"
                i = s.index(old)  # the first occurrence
                s = s[:i] + new + s[i + len(old):]
            else:
                s = s.replace(old, new)
            open(p, "w").write(s)
    return None


def run(names):
    d = tempfile.mkdtemp(prefix="rf-")
    try:
        w = d + "/repo"
        shutil.copytree("/repo", w, symlinks=True, ignore=shutil.ignore_patterns("target"))
        e = apply(names, w)
        if e:
            return e
        sh(["cargo", "fmt"], w)
        t = sh(["cargo", "test", "-q", "--offline"], w, {"CARGO_TARGET_DIR": d + "/target"})
        if t.returncode:
            return "TESTS FAIL\n" + "\n".join(l for l in t.stdout.splitlines() if "error" in l or "panicked" in l or "-->" in l)[:1500]
        shutil.rmtree(d + "/target", ignore_errors=True)
        props = os.environ.get("PROPS", "").split()
        if not props:
            props = [c["property_id"] if "property_id" in c else c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
        out = []
        for p in props:
            t = sh([V + "/check", p], V, {"ROWAN_REPO": w, "ROWAN_CACHE": d + "/cache"})
            v = [l for l in t.stdout.splitlines() if l.startswith("VIOLATION")]
            if v or t.returncode not in (0,):
                out.append(f"  {p} rc={t.returncode} " + "\n      ".join(x[:400] for x in t.stdout.splitlines()[-4:]))
        return "\n".join(out) or "ok"
    except Exception as x:  # noqa
        return f"EXC {x!r}"
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a and a[0] == "--list":
        print("\n".join(R))
        sys.exit()
    names = a or list(R)
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("JOBS", "4"))) as ex:
        for n, res in zip(names, ex.map(lambda n: run(n.split("+")), names)):
            print(f"{n}: {res}", flush=True)
