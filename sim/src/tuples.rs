// Generated by /verif/tools/mktuples.py.
use crate::item::*;
use crate::tupleop::*;
use trees::{Forest, Tree};

pub const TREES: &[&str] = &["", "()", "()()", "(())", "(()())", "()(())", "(())()", "(())(())", "(())(())(())", "(()())(()())", "(()())(()())(()())", "((()))((()))", "(()(()))((())())", "()()(()())()", "()()()()()()()()()()()()", "()()()()()()()()()()()()()()()()", "(())(())(())(())(())(())(())(())", "((((()))))", "(((())(()))(()))()", "()()()()()()()()()()()()()()()()()()()()()()()()()()()()()()()()", "()(())()()(()()())", "()()((()))()()()()()()()", "()()()()()()(()(()))()((()))()()()()()()", "()()()()()((()))()()()()()()()()()()()()()()", "()()()()()()()()()(()(()))()()()()()(()())()()()()()()()()()", "()()()()()()()()()()()()()(()())()()()()()()()()()()()()()()()()", "()(()())((()))", "(())(()())(())", "((()))(()())()", "(((())))()(((())))", "()(()(()))()(()())", "(())()()()", "()()()()", "(())(())()()()()()()()", "((()(()())))", "(()()())()", "(()()())()()()()()", "(()())()()()()()", "()()()()()()()()", "(())()(())", "()((()(()))())()"];
pub const FORESTS: &[&str] = &["", "()", "()()", "(())", "(())()", "()(())", "(())(())", "(()())(()())", "()()()()()()", "((()))(())()", "()()()()()()()()()()()()()()()()()()()()()()()()()()()()()()()()", "()()()(())(()()())", "()()()()(()(()))()()()()()()()(()())()()", "()()()()()()()()()()()()()()()()()()()(()())()()()(()(()))()", "()()(())", "()((()))((()())()())", "(())()(((())))", "(()())(((())))()", "((()))(())(())", "((()())()())(((())))((()())()())", "(((())))(())(((())))", "()(()())", "((()))", "(())()()()()", "(()())(())()()()()()", "()()()(((())))(())"];
pub fn tree<P: Payload>(k: usize, f: &mut dyn FnMut() -> It<P>) -> Tree<It<P>> {
    match k {
        0 => Tree::from_tuple(f()),
        1 => Tree::from_tuple((f(), f())),
        2 => Tree::from_tuple((f(), f(), f())),
        3 => Tree::from_tuple((f(), (f(), f()))),
        4 => Tree::from_tuple((f(), (f(), f(), (f(),)))),
        5 => Tree::from_tuple((f(), f(), (f(), f()))),
        6 => Tree::from_tuple((f(), (f(), f()), f())),
        7 => Tree::from_tuple((f(), (f(), f()), (f(), f()))),
        8 => Tree::from_tuple((f(), (f(), (f(),)), (f(), f()), (f(), f()))),
        9 => Tree::from_tuple((f(), (f(), f(), f()), (f(), f(), f()))),
        10 => Tree::from_tuple((f(), (f(), (f(),), f()), (f(), f(), f()), (f(), f(), f()))),
        11 => Tree::from_tuple((f(), (f(), (f(), f())), (f(), (f(), (f(),))))),
        12 => Tree::from_tuple((f(), (f(), f(), (f(), f())), (f(), (f(), f()), f()))),
        13 => Tree::from_tuple((f(), f(), f(), (f(), (f(),), f()), f())),
        14 => Tree::from_tuple((f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),))),
        15 => Tree::from_tuple((f(), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f())),
        16 => Tree::from_tuple((f(), (f(), f()), (f(), f()), (f(), f()), (f(), f()), (f(), (f(),)), (f(), f()), (f(), f()), (f(), f()))),
        17 => Tree::from_tuple((f(), (f(), (f(), (f(), (f(), f())))))),
        18 => Tree::from_tuple((f(), (f(), (f(), (f(), f()), (f(), f())), (f(), (f(),))), f())),
        19 => Tree::from_tuple((f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f())),
        20 => Tree::from_tuple((f(), f(), (f(), (f(),)), f(), f(), (f(), f(), f(), f()))),
        21 => Tree::from_tuple((f(), f(), (f(),), (f(), (f(), f())), f(), f(), f(), f(), f(), (f(),), f())),
        22 => Tree::from_tuple((f(), f(), f(), f(), f(), f(), (f(),), (f(), f(), (f(), f())), f(), (f(), (f(), f())), f(), f(), (f(),), f(), f(), f())),
        23 => Tree::from_tuple((f(), f(), f(), f(), (f(),), f(), (f(), (f(), f())), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f())),
        24 => Tree::from_tuple((f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), (f(), f(), (f(), f())), (f(),), f(), f(), f(), f(), (f(), f(), f()), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f())),
        25 => Tree::from_tuple((f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), (f(), f(), f()), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f())),
        26 => Tree::from_tuple((f(), f(), (f(), f(), (f(),)), (f(), (f(), f())))),
        27 => Tree::from_tuple((f(), (f(), f()), (f(), f(), f()), (f(), f()))),
        28 => Tree::from_tuple((f(), (f(), (f(), f())), (f(), (f(),), f()), f())),
        29 => Tree::from_tuple((f(), (f(), (f(), (f(), f()))), f(), (f(), (f(), (f(), f()))))),
        30 => Tree::from_tuple((f(), f(), (f(), (f(),), (f(), f())), f(), (f(), f(), f()))),
        31 => Tree::from_tuple((f(), (f(), f()), f(), (f(),), f())),
        32 => Tree::from_tuple((f(), f(), f(), f(), f())),
        33 => Tree::from_tuple((f(), (f(), f()), (f(), (f(),)), f(), f(), f(), f(), f(), f(), (f(),))),
        34 => Tree::from_tuple((f(), (f(), (f(), f(), (f(), f(), f()))))),
        35 => Tree::from_tuple((f(), (f(), f(), f(), f()), (f(),))),
        36 => Tree::from_tuple((f(), (f(), f(), f(), f()), f(), f(), f(), (f(),), f())),
        37 => Tree::from_tuple((f(), (f(), f(), f()), f(), f(), f(), (f(),), f())),
        38 => Tree::from_tuple((f(), f(), f(), f(), f(), f(), (f(),), f(), f())),
        39 => Tree::from_tuple((f(), (f(), f()), f(), (f(), f()))),
        _ => Tree::from_tuple((f(), f(), (f(), (f(), (f(),), (f(), f())), f()), f())),
    }
}
pub fn tree_events<P: Payload>(k: usize, how: u32, f: &mut dyn FnMut() -> It<P>, g: &mut dyn FnMut(Ev<P>)) {
    match k {
        0 => ev_tree(f(), how, g),
        1 => ev_tree((f(), f()), how, g),
        2 => ev_tree((f(), f(), f()), how, g),
        3 => ev_tree((f(), (f(), f())), how, g),
        4 => ev_tree((f(), (f(), f(), (f(),))), how, g),
        5 => ev_tree((f(), f(), (f(), f())), how, g),
        6 => ev_tree((f(), (f(), f()), f()), how, g),
        7 => ev_tree((f(), (f(), f()), (f(), f())), how, g),
        8 => ev_tree((f(), (f(), (f(),)), (f(), f()), (f(), f())), how, g),
        9 => ev_tree((f(), (f(), f(), f()), (f(), f(), f())), how, g),
        10 => ev_tree((f(), (f(), (f(),), f()), (f(), f(), f()), (f(), f(), f())), how, g),
        11 => ev_tree((f(), (f(), (f(), f())), (f(), (f(), (f(),)))), how, g),
        12 => ev_tree((f(), (f(), f(), (f(), f())), (f(), (f(), f()), f())), how, g),
        13 => ev_tree((f(), f(), f(), (f(), (f(),), f()), f()), how, g),
        14 => ev_tree((f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),)), how, g),
        15 => ev_tree((f(), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f()), how, g),
        16 => ev_tree((f(), (f(), f()), (f(), f()), (f(), f()), (f(), f()), (f(), (f(),)), (f(), f()), (f(), f()), (f(), f())), how, g),
        17 => ev_tree((f(), (f(), (f(), (f(), (f(), f()))))), how, g),
        18 => ev_tree((f(), (f(), (f(), (f(), f()), (f(), f())), (f(), (f(),))), f()), how, g),
        19 => ev_tree((f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f()), how, g),
        20 => ev_tree((f(), f(), (f(), (f(),)), f(), f(), (f(), f(), f(), f())), how, g),
        21 => ev_tree((f(), f(), (f(),), (f(), (f(), f())), f(), f(), f(), f(), f(), (f(),), f()), how, g),
        22 => ev_tree((f(), f(), f(), f(), f(), f(), (f(),), (f(), f(), (f(), f())), f(), (f(), (f(), f())), f(), f(), (f(),), f(), f(), f()), how, g),
        23 => ev_tree((f(), f(), f(), f(), (f(),), f(), (f(), (f(), f())), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f()), how, g),
        24 => ev_tree((f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), (f(), f(), (f(), f())), (f(),), f(), f(), f(), f(), (f(), f(), f()), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f()), how, g),
        25 => ev_tree((f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), (f(), f(), f()), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f()), how, g),
        26 => ev_tree((f(), f(), (f(), f(), (f(),)), (f(), (f(), f()))), how, g),
        27 => ev_tree((f(), (f(), f()), (f(), f(), f()), (f(), f())), how, g),
        28 => ev_tree((f(), (f(), (f(), f())), (f(), (f(),), f()), f()), how, g),
        29 => ev_tree((f(), (f(), (f(), (f(), f()))), f(), (f(), (f(), (f(), f())))), how, g),
        30 => ev_tree((f(), f(), (f(), (f(),), (f(), f())), f(), (f(), f(), f())), how, g),
        31 => ev_tree((f(), (f(), f()), f(), (f(),), f()), how, g),
        32 => ev_tree((f(), f(), f(), f(), f()), how, g),
        33 => ev_tree((f(), (f(), f()), (f(), (f(),)), f(), f(), f(), f(), f(), f(), (f(),)), how, g),
        34 => ev_tree((f(), (f(), (f(), f(), (f(), f(), f())))), how, g),
        35 => ev_tree((f(), (f(), f(), f(), f()), (f(),)), how, g),
        36 => ev_tree((f(), (f(), f(), f(), f()), f(), f(), f(), (f(),), f()), how, g),
        37 => ev_tree((f(), (f(), f(), f()), f(), f(), f(), (f(),), f()), how, g),
        38 => ev_tree((f(), f(), f(), f(), f(), f(), (f(),), f(), f()), how, g),
        39 => ev_tree((f(), (f(), f()), f(), (f(), f())), how, g),
        _ => ev_tree((f(), f(), (f(), (f(), (f(),), (f(), f())), f()), f()), how, g),
    }
}
pub fn forest<P: Payload>(k: usize, f: &mut dyn FnMut() -> It<P>) -> Forest<It<P>> {
    match k {
        0 => Forest::from_tuple(()),
        1 => Forest::from_tuple((f(),)),
        2 => Forest::from_tuple((f(), f(),)),
        3 => Forest::from_tuple(((f(), (f(),)),)),
        4 => Forest::from_tuple(((f(), f()), f(),)),
        5 => Forest::from_tuple((f(), (f(), f()),)),
        6 => Forest::from_tuple(((f(), f()), (f(), f()),)),
        7 => Forest::from_tuple(((f(), (f(),), f()), (f(), f(), f()),)),
        8 => Forest::from_tuple((f(), f(), f(), (f(),), f(), f(),)),
        9 => Forest::from_tuple(((f(), (f(), f())), (f(), f()), f(),)),
        10 => Forest::from_tuple((f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(),)),
        11 => Forest::from_tuple((f(), f(), f(), (f(), f()), (f(), (f(),), f(), f()),)),
        12 => Forest::from_tuple((f(), f(), f(), f(), (f(), (f(),), (f(), f())), f(), f(), f(), f(), f(), (f(),), f(), (f(), f(), f()), f(), f(),)),
        13 => Forest::from_tuple((f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), (f(), f(), f()), f(), (f(),), f(), (f(), f(), (f(), f())), f(),)),
        14 => Forest::from_tuple((f(), f(), (f(), (f(),)),)),
        15 => Forest::from_tuple((f(), (f(), (f(), f())), (f(), (f(), f(), f()), f(), f()),)),
        16 => Forest::from_tuple(((f(), (f(),)), f(), (f(), (f(), (f(), f()))),)),
        17 => Forest::from_tuple(((f(), f(), f()), (f(), (f(), (f(), f()))), f(),)),
        18 => Forest::from_tuple(((f(), (f(), (f(),))), (f(), f()), (f(), f()),)),
        19 => Forest::from_tuple(((f(), (f(), f(), f()), f(), f()), (f(), (f(), (f(), (f(),)))), (f(), (f(), f(), f()), f(), f()),)),
        20 => Forest::from_tuple(((f(), (f(), (f(), f()))), (f(), f()), (f(), (f(), (f(), (f(),)))),)),
        21 => Forest::from_tuple((f(), (f(), f(), f()),)),
        22 => Forest::from_tuple(((f(), (f(), f())),)),
        23 => Forest::from_tuple(((f(), f()), f(), (f(),), f(), f(),)),
        24 => Forest::from_tuple(((f(), f(), f()), (f(), f()), f(), (f(),), f(), f(), f(),)),
        _ => Forest::from_tuple((f(), f(), f(), (f(), (f(), (f(), (f(),)))), (f(), f()),)),
    }
}
pub fn forest_events<P: Payload>(k: usize, how: u32, f: &mut dyn FnMut() -> It<P>, g: &mut dyn FnMut(Ev<P>)) {
    match k {
        0 => ev_forest((), how, g),
        1 => ev_forest((f(),), how, g),
        2 => ev_forest((f(), f(),), how, g),
        3 => ev_forest(((f(), (f(),)),), how, g),
        4 => ev_forest(((f(), f()), f(),), how, g),
        5 => ev_forest((f(), (f(), f()),), how, g),
        6 => ev_forest(((f(), f()), (f(), f()),), how, g),
        7 => ev_forest(((f(), (f(),), f()), (f(), f(), f()),), how, g),
        8 => ev_forest((f(), f(), f(), (f(),), f(), f(),), how, g),
        9 => ev_forest(((f(), (f(), f())), (f(), f()), f(),), how, g),
        10 => ev_forest((f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(),), how, g),
        11 => ev_forest((f(), f(), f(), (f(), f()), (f(), (f(),), f(), f()),), how, g),
        12 => ev_forest((f(), f(), f(), f(), (f(), (f(),), (f(), f())), f(), f(), f(), f(), f(), (f(),), f(), (f(), f(), f()), f(), f(),), how, g),
        13 => ev_forest((f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), (f(), f(), f()), f(), (f(),), f(), (f(), f(), (f(), f())), f(),), how, g),
        14 => ev_forest((f(), f(), (f(), (f(),)),), how, g),
        15 => ev_forest((f(), (f(), (f(), f())), (f(), (f(), f(), f()), f(), f()),), how, g),
        16 => ev_forest(((f(), (f(),)), f(), (f(), (f(), (f(), f()))),), how, g),
        17 => ev_forest(((f(), f(), f()), (f(), (f(), (f(), f()))), f(),), how, g),
        18 => ev_forest(((f(), (f(), (f(),))), (f(), f()), (f(), f()),), how, g),
        19 => ev_forest(((f(), (f(), f(), f()), f(), f()), (f(), (f(), (f(), (f(),)))), (f(), (f(), f(), f()), f(), f()),), how, g),
        20 => ev_forest(((f(), (f(), (f(), f()))), (f(), f()), (f(), (f(), (f(), (f(),)))),), how, g),
        21 => ev_forest((f(), (f(), f(), f()),), how, g),
        22 => ev_forest(((f(), (f(), f())),), how, g),
        23 => ev_forest(((f(), f()), f(), (f(),), f(), f(),), how, g),
        24 => ev_forest(((f(), f(), f()), (f(), f()), f(), (f(),), f(), f(), f(),), how, g),
        _ => ev_forest((f(), f(), f(), (f(), (f(), (f(), (f(),)))), (f(), f()),), how, g),
    }
}
