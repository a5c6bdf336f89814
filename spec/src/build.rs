use rowan::*;

type Element = NodeOrToken<GreenNode, GreenToken>;

// `parents` and `children` are the open nodes and the finished elements of `b`, `other` those of `a`
pub mod imp {
    use super::*;
    type Parents = Vec<(SyntaxKind, usize)>;
    type Children = Vec<(u64, Element)>;

    pub fn c06_new() -> GreenNodeBuilder<'static> {
        GreenNodeBuilder::new()
    }
    pub fn c06_token(b: &mut GreenNodeBuilder<'_>, parents: &mut Parents, children: &mut Children, kind: SyntaxKind, text: &str) {
        b.token(kind, text)
    }
    pub fn c06_start_node(b: &mut GreenNodeBuilder<'_>, parents: &mut Parents, children: &mut Children, kind: SyntaxKind) {
        b.start_node(kind)
    }
    pub fn c06_finish_node(b: &mut GreenNodeBuilder<'_>, parents: &mut Parents, children: &mut Children) {
        b.finish_node()
    }
    pub fn c06_start_node_at(
        a: &GreenNodeBuilder<'_>, other: &Children, b: &mut GreenNodeBuilder<'_>, parents: &mut Parents, children: &mut Children, kind: SyntaxKind,
    ) {
        let c = a.checkpoint();
        b.start_node_at(c, kind)
    }
    pub fn c06_finish(b: GreenNodeBuilder<'_>, parents: Parents, children: Children) -> GreenNode {
        b.finish()
    }
}
pub mod spec {
    use super::*;
    type Parents = Vec<(SyntaxKind, usize)>;
    type Children = Vec<(u64, Element)>;

    /// what the cache hands out, whatever it is
    pub fn cached_token(_kind: SyntaxKind, _text: &str) -> (u64, GreenToken) {
        crate::impossible()
    }
    /// takes the children from `first` on
    pub fn cached_node(_kind: SyntaxKind, _children: &mut Children, _first: usize) -> (u64, GreenNode) {
        crate::impossible()
    }
    pub fn c06_new() -> GreenNodeBuilder<'static> {
        GreenNodeBuilder::default()
    }
    pub fn c06_token(b: &mut GreenNodeBuilder<'_>, parents: &mut Parents, children: &mut Children, kind: SyntaxKind, text: &str) {
        let (h, t) = cached_token(kind, text);
        children.push((h, NodeOrToken::Token(t)));
    }
    pub fn c06_start_node(b: &mut GreenNodeBuilder<'_>, parents: &mut Parents, children: &mut Children, kind: SyntaxKind) {
        parents.push((kind, children.len()));
    }
    pub fn c06_finish_node(b: &mut GreenNodeBuilder<'_>, parents: &mut Parents, children: &mut Children) {
        match parents.pop() {
            None => panic!(),
            Some((kind, first)) => {
                let (h, n) = cached_node(kind, children, first);
                children.push((h, NodeOrToken::Node(n)));
            }
        }
    }
    pub fn c06_start_node_at(
        a: &GreenNodeBuilder<'_>, other: &Children, b: &mut GreenNodeBuilder<'_>, parents: &mut Parents, children: &mut Children, kind: SyntaxKind,
    ) {
        let at = other.len();
        if at > children.len() {
            panic!()
        }
        if let Some((_, first)) = parents.last() {
            if at < *first {
                panic!()
            }
        }
        parents.push((kind, at));
    }
    pub fn c06_finish(b: GreenNodeBuilder<'_>, parents: Parents, mut children: Children) -> GreenNode {
        if children.len() != 1 {
            panic!()
        }
        match children.pop().unwrap().1 {
            NodeOrToken::Node(n) => n,
            NodeOrToken::Token(_) => panic!(),
        }
    }

    fn id(e: NodeOrToken<&GreenNodeData, &GreenTokenData>) -> *const () {
        match e {
            NodeOrToken::Node(n) => n as *const GreenNodeData as *const (),
            NodeOrToken::Token(t) => t as *const GreenTokenData as *const (),
        }
    }
    /// the interned node `n` is what a node of these children would be
    pub fn same_node(n: &GreenNode, kind: SyntaxKind, children: &Children, first: usize) -> bool {
        n.kind() == kind
            && n.children().len() == children.len() - first
            && n.children().map(id).eq(children[first..].iter().map(|(_, e)| match e {
                NodeOrToken::Node(n) => id(NodeOrToken::Node(n)),
                NodeOrToken::Token(t) => id(NodeOrToken::Token(t)),
            }))
    }
}
