use rowan::cursor::*;
use rowan::{NodeOrToken, SyntaxText, TextRange, TextSize};
use std::fmt;
use std::ops::{Range, RangeFrom, RangeFull, RangeTo};

// `t` is the text `range` of `node`
pub mod imp {
    use super::*;
    pub fn c18_text(n: &SyntaxNode) -> SyntaxText {
        n.text()
    }
    pub fn c18_len(t: &SyntaxText, node: &SyntaxNode, range: TextRange) -> TextSize {
        t.len()
    }
    pub fn c18_is_empty(t: &SyntaxText, node: &SyntaxNode, range: TextRange) -> bool {
        t.is_empty()
    }
    pub fn c18_slice_range(t: &SyntaxText, node: &SyntaxNode, range: TextRange, r: Range<TextSize>) -> SyntaxText {
        t.slice(r)
    }
    pub fn c18_slice_from(t: &SyntaxText, node: &SyntaxNode, range: TextRange, r: RangeFrom<TextSize>) -> SyntaxText {
        t.slice(r)
    }
    pub fn c18_slice_to(t: &SyntaxText, node: &SyntaxNode, range: TextRange, r: RangeTo<TextSize>) -> SyntaxText {
        t.slice(r)
    }
    pub fn c18_slice_full(t: &SyntaxText, node: &SyntaxNode, range: TextRange, r: RangeFull) -> SyntaxText {
        t.slice(r)
    }
    pub fn c18_slice_text_range(t: &SyntaxText, node: &SyntaxNode, range: TextRange, r: TextRange) -> SyntaxText {
        t.slice(r)
    }
    pub fn c18_chunks<T, E>(t: &SyntaxText, node: &SyntaxNode, range: TextRange, init: T, f: impl Fn(T, &str) -> Result<T, E>) -> Result<T, E> {
        t.try_fold_chunks(init, f)
    }
    pub fn c18_each_chunk<E>(t: &SyntaxText, node: &SyntaxNode, range: TextRange, f: impl Fn(&str) -> Result<(), E>) -> Result<(), E> {
        t.try_for_each_chunk(f)
    }
    pub fn c18_for_each_chunk(t: &SyntaxText, node: &SyntaxNode, range: TextRange, f: impl Fn(&str)) {
        t.for_each_chunk(f)
    }
    pub fn c18_contains_char(t: &SyntaxText, node: &SyntaxNode, range: TextRange, c: char) -> bool {
        t.contains_char(c)
    }
    pub fn c18_find_char(t: &SyntaxText, node: &SyntaxNode, range: TextRange, c: char) -> Option<TextSize> {
        t.find_char(c)
    }
    pub fn c18_char_at(t: &SyntaxText, node: &SyntaxNode, range: TextRange, at: TextSize) -> Option<char> {
        t.char_at(at)
    }
    pub fn c18_eq_str(t: &SyntaxText, node: &SyntaxNode, range: TextRange, s: &str) -> bool {
        t == s
    }
    pub fn c18_eq_str_ref(t: &SyntaxText, node: &SyntaxNode, range: TextRange, s: &str) -> bool {
        *t == s
    }
    pub fn c18_str_eq(t: &SyntaxText, node: &SyntaxNode, range: TextRange, s: &str) -> bool {
        s == t
    }
    pub fn c18_str_ref_eq(t: &SyntaxText, node: &SyntaxNode, range: TextRange, s: &str) -> bool {
        s == *t
    }
    pub fn c18_display(t: &SyntaxText, node: &SyntaxNode, range: TextRange, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(t, f)
    }
}
pub mod spec {
    use super::*;
    pub fn c18_text(n: &SyntaxNode) -> (SyntaxNode, TextRange) {
        (n.clone(), n.text_range())
    }
    pub fn c18_len(t: &SyntaxText, node: &SyntaxNode, range: TextRange) -> TextSize {
        range.end() - range.start()
    }
    pub fn c18_is_empty(t: &SyntaxText, node: &SyntaxNode, range: TextRange) -> bool {
        range.start() == range.end()
    }
    fn cut(node: &SyntaxNode, range: TextRange, lo: TextSize, hi: TextSize) -> (SyntaxNode, TextRange) {
        if lo > hi {
            panic!()
        }
        if range.start() + hi > range.end() {
            panic!()
        }
        (node.clone(), TextRange::new(range.start() + lo, range.start() + hi))
    }
    pub fn c18_slice_range(t: &SyntaxText, node: &SyntaxNode, range: TextRange, r: Range<TextSize>) -> (SyntaxNode, TextRange) {
        cut(node, range, r.start, r.end)
    }
    pub fn c18_slice_from(t: &SyntaxText, node: &SyntaxNode, range: TextRange, r: RangeFrom<TextSize>) -> (SyntaxNode, TextRange) {
        cut(node, range, r.start, range.end() - range.start())
    }
    pub fn c18_slice_to(t: &SyntaxText, node: &SyntaxNode, range: TextRange, r: RangeTo<TextSize>) -> (SyntaxNode, TextRange) {
        cut(node, range, TextSize::new(0), r.end)
    }
    pub fn c18_slice_full(t: &SyntaxText, node: &SyntaxNode, range: TextRange, r: RangeFull) -> (SyntaxNode, TextRange) {
        (node.clone(), range)
    }
    pub fn c18_slice_text_range(t: &SyntaxText, node: &SyntaxNode, range: TextRange, r: TextRange) -> (SyntaxNode, TextRange) {
        cut(node, range, r.start(), r.end())
    }
    fn pieces(node: &SyntaxNode, range: TextRange) -> impl Iterator<Item = (SyntaxToken, TextRange)> {
        node.descendants_with_tokens()
            .filter_map(|e| match e {
                NodeOrToken::Node(_) => None,
                NodeOrToken::Token(t) => Some(t),
            })
            .filter_map(move |t| {
                let tr = t.text_range();
                let lo = std::cmp::max(tr.start(), range.start());
                let hi = std::cmp::min(tr.end(), range.end());
                if lo > hi {
                    return None;
                }
                Some((t, TextRange::new(lo - tr.start(), hi - tr.start())))
            })
    }
    pub fn c18_chunks<T, E>(t: &SyntaxText, node: &SyntaxNode, range: TextRange, init: T, f: impl Fn(T, &str) -> Result<T, E>) -> Result<T, E> {
        let mut acc = init;
        for (tok, r) in pieces(node, range) {
            acc = f(acc, &tok.text()[r])?;
        }
        Ok(acc)
    }
    pub fn c18_each_chunk<E>(t: &SyntaxText, node: &SyntaxNode, range: TextRange, f: impl Fn(&str) -> Result<(), E>) -> Result<(), E> {
        for (tok, r) in pieces(node, range) {
            f(&tok.text()[r])?;
        }
        Ok(())
    }
    pub fn c18_for_each_chunk(t: &SyntaxText, node: &SyntaxNode, range: TextRange, f: impl Fn(&str)) {
        for (tok, r) in pieces(node, range) {
            f(&tok.text()[r]);
        }
    }
    pub fn c18_contains_char(t: &SyntaxText, node: &SyntaxNode, range: TextRange, c: char) -> bool {
        for (tok, r) in pieces(node, range) {
            if tok.text()[r].contains(c) {
                return true;
            }
        }
        false
    }
    pub fn c18_find_char(t: &SyntaxText, node: &SyntaxNode, range: TextRange, c: char) -> Option<TextSize> {
        let mut before = TextSize::new(0);
        for (tok, r) in pieces(node, range) {
            let chunk = &tok.text()[r];
            if let Some(i) = chunk.find(c) {
                return Some(before + TextSize::new(i as u32));
            }
            before += TextSize::of(chunk);
        }
        None
    }
    pub fn c18_char_at(t: &SyntaxText, node: &SyntaxNode, range: TextRange, at: TextSize) -> Option<char> {
        let mut before = TextSize::new(0);
        for (tok, r) in pieces(node, range) {
            let chunk = &tok.text()[r];
            let end = before + TextSize::of(chunk);
            if before <= at && at < end {
                return Some(chunk[u32::from(at - before) as usize..].chars().next().unwrap());
            }
            before = end;
        }
        None
    }
    fn same(node: &SyntaxNode, range: TextRange, s: &str) -> bool {
        let mut rest = s;
        for (tok, r) in pieces(node, range) {
            let chunk = &tok.text()[r];
            if !rest.starts_with(chunk) {
                return false;
            }
            rest = &rest[chunk.len()..];
        }
        rest.is_empty()
    }
    pub fn c18_eq_str(t: &SyntaxText, node: &SyntaxNode, range: TextRange, s: &str) -> bool {
        same(node, range, s)
    }
    pub fn c18_eq_str_ref(t: &SyntaxText, node: &SyntaxNode, range: TextRange, s: &str) -> bool {
        same(node, range, s)
    }
    pub fn c18_str_eq(t: &SyntaxText, node: &SyntaxNode, range: TextRange, s: &str) -> bool {
        same(node, range, s)
    }
    pub fn c18_str_ref_eq(t: &SyntaxText, node: &SyntaxNode, range: TextRange, s: &str) -> bool {
        same(node, range, s)
    }
    pub fn c18_display(t: &SyntaxText, node: &SyntaxNode, range: TextRange, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for (tok, r) in pieces(node, range) {
            fmt::Display::fmt(&tok.text()[r], f)?;
        }
        Ok(())
    }
}
