use rowan::{Language, NodeOrToken, SyntaxNode, SyntaxToken};
use serde::ser::{Serialize, SerializeMap, SerializeSeq, Serializer};
use std::fmt::Debug;

pub mod imp {
    use super::*;
    pub fn c20_node<L: Language, S: Serializer>(n: &SyntaxNode<L>, s: S) -> Result<S::Ok, S::Error> {
        n.serialize(s)
    }
    pub fn c20_token<L: Language, S: Serializer>(t: &SyntaxToken<L>, s: S) -> Result<S::Ok, S::Error> {
        t.serialize(s)
    }
}
pub struct Debugged<T>(T);
impl<T: Debug> Serialize for Debugged<T> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(&format_args!("{:?}", self.0))
    }
}
pub struct Kids<'a, L: Language>(&'a SyntaxNode<L>);
impl<L: Language> Serialize for Kids<'_, L> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut q = s.serialize_seq(None)?;
        for c in self.0.children_with_tokens() {
            match c {
                NodeOrToken::Node(n) => q.serialize_element(&n)?,
                NodeOrToken::Token(t) => q.serialize_element(&t)?,
            }
        }
        q.end()
    }
}
pub mod spec {
    use super::*;
    pub fn c20_node<L: Language, S: Serializer>(n: &SyntaxNode<L>, s: S) -> Result<S::Ok, S::Error> {
        let mut m = s.serialize_map(None)?;
        m.serialize_entry("kind", &Debugged(n.kind()))?;
        m.serialize_entry("text_range", &n.text_range())?;
        m.serialize_entry("children", &Kids(n))?;
        m.end()
    }
    pub fn c20_token<L: Language, S: Serializer>(t: &SyntaxToken<L>, s: S) -> Result<S::Ok, S::Error> {
        let mut m = s.serialize_map(None)?;
        m.serialize_entry("kind", &Debugged(t.kind()))?;
        m.serialize_entry("text_range", &t.text_range())?;
        m.serialize_entry("text", t.text())?;
        m.end()
    }
}
