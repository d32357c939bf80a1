//! What the tuple notations say about themselves.

use crate::item::*;
use trees::tuple::{TupleForest, TupleTree, Visit};
use trees::Size;

pub enum Ev<P: Payload> {
    /// Size, height, number of nodes by level.
    Facts(Size, usize, Vec<usize>),
    Visit(Visit<It<P>>, Option<Size>),
}

macro_rules! ev {
    ($name:ident, $tr:ident) => {
        pub fn $name<P: Payload, S, T: $tr<It<P>, S>>(t: T, how: u32, g: &mut dyn FnMut(Ev<P>)) {
            let mut plain: &mut dyn FnMut(Visit<It<P>>) = &mut |v| ext(|| g(Ev::Visit(v, None)));
            match how {
                1 => return t.preorder(&mut plain),
                2 => return t.postorder(&mut plain),
                _ => (),
            }
            let mut sized: &mut dyn FnMut(Visit<It<P>>, Size) = &mut |v, s| ext(|| g(Ev::Visit(v, Some(s))));
            match how {
                3 => return t.preorder_with_size_hint(&mut sized),
                4 => return t.postorder_with_size_hint(&mut sized),
                _ => (),
            }
            let h = T::height();
            let levels = ext(|| (0..h + 2).map(|l| T::descendants(l)).collect());
            ext(|| g(Ev::Facts(T::SIZE, h, levels)));
        }
    };
}
ev!(ev_tree, TupleTree);
ev!(ev_forest, TupleForest);
