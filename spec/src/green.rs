use rowan::*;

type Element = NodeOrToken<GreenNode, GreenToken>;

/// A child as a node holds it: at an offset
pub enum Part {
    Node(TextSize, GreenNode),
    Token(TextSize, GreenToken),
}

// known to the analysis
/// the children a node holds, with their offsets
pub fn parts_of(_n: &GreenNode) -> Vec<Part> {
    crate::impossible()
}
/// as the node holds it
pub fn node_part(_offset: TextSize, _n: GreenNode) -> Part {
    crate::impossible()
}
pub fn token_part(_offset: TextSize, _t: GreenToken) -> Part {
    crate::impossible()
}
/// the length of an element
pub fn node_len(n: &GreenNode) -> TextSize {
    n.text_len()
}

pub mod imp {
    use super::*;

    pub fn c04_new(kind: SyntaxKind, children: Vec<Element>) -> (SyntaxKind, TextSize, Vec<Part>) {
        let n = GreenNode::new(kind, children);
        (n.kind(), n.text_len(), parts_of(&n))
    }
    pub fn c04_token<'a>(kind: SyntaxKind, text: &'a str) -> (SyntaxKind, TextSize, String) {
        let t = GreenToken::new(kind, text);
        (t.kind(), t.text_len(), t.text().to_owned())
    }
    pub fn c04e_replace_child(n: &GreenNodeData, index: usize, new_child: Element) -> GreenNode {
        n.replace_child(index, new_child)
    }
    pub fn c04e_insert_child(n: &GreenNodeData, index: usize, new_child: Element) -> GreenNode {
        n.insert_child(index, new_child)
    }
    pub fn c04e_remove_child(n: &GreenNodeData, index: usize) -> GreenNode {
        n.remove_child(index)
    }
    pub fn c04e_splice_children<R, I>(n: &GreenNodeData, range: R, replace_with: I) -> GreenNode
    where
        R: core::ops::RangeBounds<usize>,
        I: IntoIterator<Item = Element>,
    {
        n.splice_children(range, replace_with)
    }
}
pub mod spec {
    use super::*;

    pub fn c04_new(kind: SyntaxKind, children: Vec<Element>) -> (SyntaxKind, TextSize, Vec<Part>) {
        let mut len = TextSize::from(0);
        let mut parts = Vec::new();
        for c in children {
            let l = match &c {
                NodeOrToken::Node(n) => n.text_len(),
                NodeOrToken::Token(t) => t.text_len(),
            };
            parts.push(match c {
                NodeOrToken::Node(n) => node_part(len, n),
                NodeOrToken::Token(t) => token_part(len, t),
            });
            len = len + l;
        }
        (kind, len, parts)
    }
    pub fn c04_token<'a>(kind: SyntaxKind, text: &'a str) -> (SyntaxKind, TextSize, String) {
        (kind, TextSize::of(text), text.to_owned())
    }
    fn owned(c: NodeOrToken<&GreenNodeData, &GreenTokenData>) -> Element {
        match c {
            NodeOrToken::Node(n) => NodeOrToken::Node(n.to_owned()),
            NodeOrToken::Token(t) => NodeOrToken::Token(t.to_owned()),
        }
    }
    fn elements(n: &GreenNodeData) -> Vec<Element> {
        let mut r = Vec::new();
        for c in n.children() {
            r.push(owned(c));
        }
        r
    }
    pub fn c04e_replace_child(n: &GreenNodeData, index: usize, new_child: Element) -> GreenNode {
        let mut new_child = Some(new_child);
        let mut r = Vec::new();
        for (i, c) in n.children().enumerate() {
            r.push(if i != index {
                owned(c)
            } else {
                match new_child.take() {
                    Some(c) => c,
                    None => panic!(),
                }
            });
        }
        GreenNode::new(n.kind(), r)
    }
    pub fn c04e_insert_child(n: &GreenNodeData, index: usize, new_child: Element) -> GreenNode {
        let mut r = elements(n);
        r.insert(index, new_child);
        GreenNode::new(n.kind(), r)
    }
    pub fn c04e_remove_child(n: &GreenNodeData, index: usize) -> GreenNode {
        let mut r = elements(n);
        r.remove(index);
        GreenNode::new(n.kind(), r)
    }
    pub fn c04e_splice_children<R, I>(n: &GreenNodeData, range: R, replace_with: I) -> GreenNode
    where
        R: core::ops::RangeBounds<usize>,
        I: IntoIterator<Item = Element>,
    {
        let mut r = elements(n);
        r.splice(range, replace_with);
        GreenNode::new(n.kind(), r)
    }
}
