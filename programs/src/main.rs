//! Programs that users may write: what matters is that they compile, see check.sh. The
//! harness asks for more of its types, and does not build at all when they do not do.

/// The base, which uses the crate in the plainest way
fn plain() {
    use soupy::prelude::*;
    let soup = Soup::html_strict("<p>x</p>").unwrap();
    assert_eq!(soup.tag("p").all().count(), 1);
    assert_eq!(Soup::xml("<p>x</p>".as_bytes()).unwrap().tag("p").all().count(), 1);
}

#[cfg(feature = "bounds")]
mod bounds {
    use soupy::{filter::Filter, parser::Parser, prelude::*};
    use std::collections::BTreeMap;

    /// Text without any trait but the order that attributes need
    #[derive(PartialEq, Eq, PartialOrd, Ord)]
    pub struct Opaque(u8);
    /// Text without any trait
    pub struct Nothing;
    /// A node without any trait but the one it is for
    pub struct Tree<T> {
        name: Option<T>,
        text: Option<T>,
        attrs: Option<BTreeMap<T, T>>,
        children: Vec<Tree<T>>,
    }
    impl<T> Node for Tree<T> {
        type Text = T;
        fn name(&self) -> Option<&T> {
            self.name.as_ref()
        }
        fn text(&self) -> Option<&T> {
            self.text.as_ref()
        }
        fn attrs(&self) -> Option<&BTreeMap<T, T>> {
            self.attrs.as_ref()
        }
        fn children(&self) -> &[Self] {
            &self.children
        }
    }
    pub struct Failed;
    pub struct Format<T>(std::marker::PhantomData<T>);
    impl<T> Parser for Format<T> {
        type Input = Option<Tree<T>>;
        type Node = Tree<T>;
        type Error = Failed;
        fn parse(input: Self::Input) -> Result<Vec<Tree<T>>, Failed> {
            input.map(|i| vec![i]).ok_or(Failed)
        }
    }
    pub struct Is<'a>(&'a Opaque);
    impl Pattern<Opaque> for Is<'_> {
        fn matches(&self, haystack: &Opaque) -> bool {
            haystack == self.0
        }
    }
    pub struct Named<'a>(&'a str);
    impl<T> Filter<Tree<T>> for Named<'_> {
        fn matches(&self, node: &Tree<T>) -> bool {
            node.name.is_some() && !self.0.is_empty()
        }
    }
    fn tree<T>(name: T) -> Tree<T> {
        Tree { name: Some(name), text: None, attrs: None, children: vec![] }
    }
    pub fn run() {
        let Ok(soup) = Soup::new::<Format<Opaque>>(Some(tree(Opaque(1)))) else { panic!() };
        let local = Opaque(1);
        assert_eq!(soup.tag(Is(&local)).all().count(), 1);
        assert_eq!(soup.tag(true).attr(Is(&local), true).attr_name(Is(&local)).attr_value(Is(&local)).strict().all().count(), 0);
        assert_eq!(soup.iter().count() + (&soup).into_iter().count() + soup.recursive().all().count(), 3);
        let first = soup.strict().first().unwrap();
        assert_eq!(first.descendants().count(), 1);
        assert!(first.children().is_empty() && first.text().is_none());
        assert!(Soup::new::<Format<Opaque>>(None).is_err());

        let Ok(soup) = Soup::new::<Format<Nothing>>(Some(tree(Nothing))) else { panic!() };
        assert_eq!(soup.tag(true).all().count() + soup.strict().all().count(), 2);
        assert_eq!(soup.iter().flat_map(|i| i.attrs().map(BTreeMap::len)).count(), 0);

        let Ok(soup) = Soup::new::<Format<&str>>(Some(tree("a"))) else { panic!() };
        assert_eq!(soup.tag("a").attr_name("x").class("y").all().count(), 0);
        assert_eq!(soup.tag("a").first().unwrap().all_text(), "");
        assert!(Named("x").matches(&tree(1.5)));
    }
}

#[cfg(feature = "threads")]
mod threads {
    use soupy::prelude::*;
    fn both<T: Send + Sync>(t: T) -> T {
        t
    }
    pub fn run() {
        let strict = both(Soup::html_strict("<p>x</p>").unwrap());
        let xml = both(Soup::xml("<p>x</p>".as_bytes()).unwrap());
        std::thread::scope(|s| {
            for _ in 0..2 {
                s.spawn(|| assert_eq!(strict.tag("p").all().count() + xml.tag("p").all().count(), 2));
            }
            let query = both(strict.tag("p").attr_name("x"));
            s.spawn(move || assert_eq!(query.all().count(), 0));
            let mut iter = both(xml.tag("p").all());
            s.spawn(move || assert!(iter.next().is_some()));
            let item = both(strict.tag("p").first().unwrap());
            s.spawn(move || assert_eq!(item.all_text(), "x"));
        });
        std::thread::spawn(move || assert_eq!(xml.iter().count(), 2)).join().unwrap();
        both(Soup::html_strict("<p>").map(|_| ()).unwrap_err());
        both(Soup::xml("<p>".as_bytes()).map(|_| ()).unwrap_err());
    }
}

fn main() {
    plain();
    #[cfg(feature = "bounds")]
    bounds::run();
    #[cfg(feature = "threads")]
    threads::run();
}
