// Generated by /verif/tools/mktuples.py.
use crate::item::*;
use crate::tupleop::*;
use trees::{Forest, Tree};

pub const TREES: &[&str] = &["", "()", "()()", "(())", "(()())", "()(())", "(())()", "(())(())", "(())(())(())", "(()())(()())", "(()())(()())(()())", "((()))((()))", "(()(()))((())())", "()()(()())()", "()()()()()()()()()()()()", "()()()()()()()()()()()()()()()()", "(())(())(())(())(())(())(())(())", "((((()))))", "(((())(()))(()))()", "()()()()()()()()()()()()()()()()()()()()()()()()()()()()()()()()", "(()(()))", "()(())", "(()(()))()()", "((()))()()()", "()(())()()(()()())", "()(())()()()()", "()()()()()(()(()))()", "()(()())()()()()()()", "()(()(()))()()()()()((()))()", "()()((()))()()()()()()()", "()()()()()()()(())()()(()()())", "()()(())()()()()()()()()()", "()()(()()())()()()()()(()())()()()()", "()()()()()()()()()()()((()))()()", "()()()()()()(()(()))()((()))()()()()()()", "()()()()()()()()()()()()()()()(())", "(()()())()()()()()()()()()(()())()()()()()()", "()()()()()()()()()(()())()()()()()()()()", "()()()()()()()()()()(()(()))()()()()()()()(())", "()()()()()((()))()()()()()()()()()()()()()()", "()(()()())()()()()()()()()()()()()()()()()()()(()())", "((()))()()()()()()()()()()()()()()()()()()()()()", "()()()()()()()()()(()()())()()()()()((()))()()()()()()()", "()()()((()))()()()()()()()()()()()()()()()()()()()()", "()()()()()()()()()(()(()))()()()()()(()())()()()()()()()()()", "()()()()()()()()()()()()()()()()()()()(()())()()()()()()", "()()()()()()()()()()()()()()()()(()()())()()()()()()()()()()", "()()()()()()()()()()()()()()()(())()()()()()()()()()()()()", "()()()()()()()()()()()()()()()()()()()()(()(()))()(())()()()()()()", "()()()()()()()()()()()()()(()())()()()()()()()()()()()()()()()()", "(()())()()()()()()()()()()()()()()()()()()(()()())()()()()()()()()()()()", "()()()()()()()()()()()()()()()()()()()()()()()()()()()(())()()()()", "()()()", "()()(((())))", "()(()())((()))", "()((()())()())(())", "()(()((()())()()))()", "()(()((()())()()))(((())))", "(())()((()))", "(())(()())(())", "(())((()())()())()", "(())((()())()())(((())))", "(())(()((()())()()))((()))", "((()))()(())", "((()))(()())()", "((()))(()())(((())))", "((()))((()())()())((()))", "((()))(()((()())()()))(())", "(((())))()()", "(((())))()(((())))", "(((())))(()())((()))", "(((())))((()())()())(())", "(((())))(()((()())()()))()", "(((())))(()((()())()()))(((())))", "()(()(()))()(()())", "(())()()()()", "()()()()(())(())", "((()))()(()(()())())()", "()((()))()((()))()((()))", "(())()()()", "(())((()))", "(())()()()()()", "()()()()()()", "()()()()(())((((()))))", "()()()()", "(()(()))(())()", "(())((()(())))", "()()(())", "((((()))()))()", "(())(())()()()()()()()", "(())()(())()", "()(((())())())", "()()()()()()((()))((()))", "((())()()()())((())()())", "((()(()())))", "(()()()())(())()()()()", "()((((()()))()))", "()(((())))", "()(())()()(((())))()", "(()()())()", "()(((()(()()))))", "(()())()()()()", "(())()(())((()))", "((()()))()", "(()()())()()()()()", "()(())()()()(())(())", "(((()()())()))", "((()))()", "((()())(())())", "(()())()()()()()", "()((()))", "()(())(((())))()", "(())((())()(()))()", "(((())))", "()()()()()()()()", "()()(())(())()()()((()))", "()(()(()))", "(()())(())()()()()()()()", "(())()()()()()()", "(())()(())", "(()()(()()))(())", "(((())))(())()(())()()", "(((()())))()(())", "()()()(())()()(())()", "()((()(()))())()"];
pub const FORESTS: &[&str] = &["", "()", "()()", "(())", "(())()", "()(())", "(())(())", "(()())(()())", "()()()()()()", "((()))(())()", "()()()()()()()()()()()()()()()()()()()()()()()()()()()()()()()()", "(()()())", "((()))()", "(()()())(()())()", "()()()(())", "()()()(())(()()())", "()()()()()(())", "()()()((()))()(()(()))()", "()()()()(())()()()", "()()()(()(()))()()()(())()", "(()())()()()()()()()()()", "()()()()(())()(()(()))()()()()", "()()()()()()()(())()()()()", "()()()()(()(()))()((()))()()()()()()", "()()()()()()()()()(())()()()()", "()()()()(()(()))()()()()()()()(()())()()", "()()()()((()))()()()()()()()()()()()", "()()()()()()()()(())()()()()(()()())()()()", "()()()()()()()(()())()()()()()()()()()()", "()()()()()(()(()))(()())()()()()()()()()()()()()", "()()()()(())()()()()()()()()()()()()()()()", "()()()()()()()()()()()()()()()(())()()()(()()())()", "()()()()()()()()()()()()()()()()()(()())()()()()", "()()()()()()()()(()()())()()()()()()()(())()()()()()()", "()()()()()()()()((()))()()()()()()()()()()()()()()()", "()()()()()()()()()()()()()()()()()()()(()())()()()(()(()))()", "()()()()()()()()()()()()()(())()()()()()()()()()()()()", "()()()()()(())()()()()(()(()))()()()()()()()()()()()()()()()()", "()()((()))()()()()()()()()()()()()()()()()()()()()()()()()()", "(()())()()()()()()()()()()()()()()()()()()()()(()(()))()()()()()()()", "()()()()()()()()()()()()()()()()()()()(()())()()()()()()()()()()", "()()()()()()()()()()()()((()))()()()()()()()()(()()())()()()()()()()()()", "((()))()()()()()()()()()()()()()()()()()()()()()()()()()()()()()()()", "()()()", "()()()()(((())))", "()()(())", "()()((()())()())", "()()(((())))", "()(())()", "()(())(())", "()(())((()())()())", "()(())(((())))", "()((()))()", "((()))()()((()))(((())))", "()((()))(())", "()((()))((()())()())", "()((()))(((())))", "()(((())))()", "()(((())))(())", "()(((())))((()())()())", "()(((())))(((())))", "(()())()()", "()(())()()(((())))", "(())()(())", "(()())()((()())()())", "(())()(((())))", "(()())(())()", "(())(())(())", "(()())(())((()())()())", "(())(())(((())))", "(()())((()))()", "((()))(())()((()))(((())))", "(())((()))(())", "(()())((()))((()())()())", "(())((()))(((())))", "(()())(((())))()", "(())(((())))(())", "(()())(((())))((()())()())", "(())(((())))(((())))", "((()())()())()()", "()((()))()()(((())))", "((()))()(())", "((()())()())()((()())()())", "((()))()(((())))", "((()())()())(())()", "((()))(())(())", "((()())()())(())((()())()())", "((()))(())(((())))", "((()())()())((()))()", "((()))((()))()((()))(((())))", "((()))((()))(())", "((()())()())((()))((()())()())", "((()))((()))(((())))", "((()())()())(((())))()", "((()))(((())))(())", "((()())()())(((())))((()())()())", "((()))(((())))(((())))", "(()((()())()()))()()", "()(((())))()()(((())))", "(((())))()(())", "(()((()())()()))()((()())()())", "(((())))()(((())))", "(()((()())()()))(())()", "(((())))(())(())", "(()((()())()()))(())((()())()())", "(((())))(())(((())))", "(()((()())()()))((()))()", "((()))(((())))()((()))(((())))", "(((())))((()))(())", "(()((()())()()))((()))((()())()())", "(((())))((()))(((())))", "(()((()())()()))(((())))()", "(((())))(((())))(())", "(()((()())()()))(((())))((()())()())", "(((())))(((())))(((())))", "()(()())", "((((()))(())))()", "(()()()())()()()()", "((()()()))()", "(((())))", "(()())()(())", "(()())", "()()()()()", "(())()()()()()", "(())((()))()", "((()))", "(()())()()()()()", "(())()()", "(()())()()()()()()", "(()(())()()())()", "(()()()()())()()()()()()", "(())()()()(())", "((())()(()))()(())", "(())()(())()(())", "(()())(())()(())(())", "(())()()()()", "((()))()()((()))()((()))", "(())(())()", "()()()()()()()", "((())())(())((())())()", "((()(()())))()", "(())(())()()()()()()", "(()()()())(()())()()()", "((()()))()()()", "()(((())()))", "(()())(())()()()()()", "()()()()()(())()(())()()", "((()()))", "((((()))()))()()", "()(())()((()))(())", "(())((()(()))()())()()", "(()((())((()()))))", "()()()()", "(())()(())()", "(()())()()()()()()()", "()()()(((())))(())", "((((())))()())()(())", "((())())", "(()())()()()()", "((()))()()()()()"];
pub fn tree<P: Payload>(k: usize, f: &mut dyn FnMut() -> It<P>) -> Tree<It<P>> {
    match k {
        0 => Tree::from_tuple(f()),
        1 => Tree::from_tuple((f(), f())),
        2 => Tree::from_tuple((f(), f(), f())),
        3 => Tree::from_tuple((f(), (f(), f()))),
        4 => Tree::from_tuple((f(), (f(), f(), (f(),)))),
        5 => Tree::from_tuple((f(), f(), (f(), f()))),
        6 => Tree::from_tuple((f(), (f(), f()), f())),
        7 => Tree::from_tuple((f(), (f(), f()), (f(), f()))),
        8 => Tree::from_tuple((f(), (f(), (f(),)), (f(), f()), (f(), f()))),
        9 => Tree::from_tuple((f(), (f(), f(), f()), (f(), f(), f()))),
        10 => Tree::from_tuple((f(), (f(), (f(),), f()), (f(), f(), f()), (f(), f(), f()))),
        11 => Tree::from_tuple((f(), (f(), (f(), f())), (f(), (f(), (f(),))))),
        12 => Tree::from_tuple((f(), (f(), f(), (f(), f())), (f(), (f(), f()), f()))),
        13 => Tree::from_tuple((f(), f(), f(), (f(), (f(),), f()), f())),
        14 => Tree::from_tuple((f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),))),
        15 => Tree::from_tuple((f(), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f())),
        16 => Tree::from_tuple((f(), (f(), f()), (f(), f()), (f(), f()), (f(), f()), (f(), (f(),)), (f(), f()), (f(), f()), (f(), f()))),
        17 => Tree::from_tuple((f(), (f(), (f(), (f(), (f(), f())))))),
        18 => Tree::from_tuple((f(), (f(), (f(), (f(), f()), (f(), f())), (f(), (f(),))), f())),
        19 => Tree::from_tuple((f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f())),
        20 => Tree::from_tuple((f(), (f(), f(), (f(), (f(),))))),
        21 => Tree::from_tuple((f(), f(), (f(), f()))),
        22 => Tree::from_tuple((f(), (f(), f(), (f(), f())), f(), f())),
        23 => Tree::from_tuple((f(), (f(), (f(), (f(),))), f(), f(), f())),
        24 => Tree::from_tuple((f(), f(), (f(), f()), f(), (f(),), (f(), f(), f(), f()))),
        25 => Tree::from_tuple((f(), f(), (f(), f()), f(), (f(),), f(), f())),
        26 => Tree::from_tuple((f(), f(), f(), f(), f(), (f(),), (f(), f(), (f(), f())), f())),
        27 => Tree::from_tuple((f(), f(), (f(), f(), f()), (f(),), f(), f(), f(), f(), f())),
        28 => Tree::from_tuple((f(), f(), (f(), (f(),), (f(), f())), f(), f(), f(), f(), f(), (f(), (f(), (f(),))), f())),
        29 => Tree::from_tuple((f(), f(), f(), (f(), (f(), f())), f(), f(), (f(),), f(), f(), f(), f())),
        30 => Tree::from_tuple((f(), f(), f(), (f(),), f(), f(), f(), f(), (f(), f()), f(), (f(),), (f(), f(), f(), f()))),
        31 => Tree::from_tuple((f(), f(), f(), (f(), f()), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f())),
        32 => Tree::from_tuple((f(), f(), f(), (f(), f(), f(), f()), (f(),), f(), f(), f(), f(), (f(), f(), f()), (f(),), f(), f(), f())),
        33 => Tree::from_tuple((f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), (f(), (f(), f())), f(), f())),
        34 => Tree::from_tuple((f(), f(), f(), f(), (f(),), f(), f(), (f(), f(), (f(), f())), f(), (f(), (f(), f())), (f(),), f(), f(), f(), f(), f())),
        35 => Tree::from_tuple((f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(), (f(),)))),
        36 => Tree::from_tuple((f(), (f(), f(), f(), f()), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), (f(), f(), (f(),)), f(), f(), f(), f(), f(), f())),
        37 => Tree::from_tuple((f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), (f(), f(), f()), f(), f(), f(), (f(),), f(), f(), f(), f())),
        38 => Tree::from_tuple((f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), (f(), f(), (f(), f())), f(), f(), f(), f(), (f(),), f(), f(), (f(), f()))),
        39 => Tree::from_tuple((f(), f(), f(), f(), (f(),), f(), (f(), (f(), f())), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f())),
        40 => Tree::from_tuple((f(), f(), (f(), f(), f(), f()), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), (f(), f(), f()))),
        41 => Tree::from_tuple((f(), (f(), (f(), f())), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f())),
        42 => Tree::from_tuple((f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), (f(), f(), f(), f()), f(), f(), (f(),), f(), f(), (f(), (f(), f())), f(), f(), f(), (f(),), f(), f(), f())),
        43 => Tree::from_tuple((f(), f(), f(), f(), (f(), (f(), (f(),))), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f())),
        44 => Tree::from_tuple((f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), (f(), f(), (f(), f())), f(), f(), f(), (f(),), f(), (f(), f(), f()), f(), f(), f(), (f(),), f(), f(), f(), f(), f())),
        45 => Tree::from_tuple((f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), (f(), f(), f()), f(), (f(),), f(), f(), f(), f())),
        46 => Tree::from_tuple((f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(), (f(),), f(), f()), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f())),
        47 => Tree::from_tuple((f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(), (f(),)), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f())),
        48 => Tree::from_tuple((f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), (f(), f(), (f(), f())), (f(),), (f(), f()), f(), f(), f(), f(), f(), (f(),))),
        49 => Tree::from_tuple((f(), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(), (f(),), f()), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f())),
        50 => Tree::from_tuple((f(), (f(), f(), f()), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), (f(), f(), f(), f()), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f())),
        51 => Tree::from_tuple((f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), (f(), f()), f(), f(), f(), f())),
        52 => Tree::from_tuple((f(), (f(),), f(), f())),
        53 => Tree::from_tuple((f(), f(), f(), (f(), (f(), (f(), f()))))),
        54 => Tree::from_tuple((f(), f(), (f(), (f(),), f()), (f(), (f(), f())))),
        55 => Tree::from_tuple((f(), f(), (f(), (f(), f(), f()), f(), (f(),)), (f(), f()))),
        56 => Tree::from_tuple((f(), f(), (f(), f(), (f(), (f(), f(), f()), f(), (f(),))), f())),
        57 => Tree::from_tuple((f(), f(), (f(), f(), (f(), (f(), f(), f()), f(), (f(),))), (f(), (f(), (f(), f()))))),
        58 => Tree::from_tuple((f(), (f(), f()), f(), (f(), (f(), f())))),
        59 => Tree::from_tuple((f(), (f(), f()), (f(), f(), (f(),)), (f(), f()))),
        60 => Tree::from_tuple((f(), (f(), f()), (f(), (f(), f(), f()), f(), f()), (f(),))),
        61 => Tree::from_tuple((f(), (f(), f()), (f(), (f(), f(), f()), f(), f()), (f(), (f(), (f(), f()))))),
        62 => Tree::from_tuple((f(), (f(), (f(),)), (f(), f(), (f(), (f(), f(), f()), f(), f())), (f(), (f(), f())))),
        63 => Tree::from_tuple((f(), (f(), (f(), (f(),))), f(), (f(), f()))),
        64 => Tree::from_tuple((f(), (f(), (f(), f())), (f(), f(), f()), f())),
        65 => Tree::from_tuple((f(), (f(), (f(), (f(),))), (f(), f(), f()), (f(), (f(), (f(), f()))))),
        66 => Tree::from_tuple((f(), (f(), (f(), f())), (f(), (f(), f(), f()), (f(),), f()), (f(), (f(), f())))),
        67 => Tree::from_tuple((f(), (f(), (f(), f())), (f(), f(), (f(), (f(), f(), f()), (f(),), f())), (f(), f()))),
        68 => Tree::from_tuple((f(), (f(), (f(), (f(), f()))), f(), f())),
        69 => Tree::from_tuple((f(), (f(), (f(), (f(), f()))), (f(),), (f(), (f(), (f(), f()))))),
        70 => Tree::from_tuple((f(), (f(), (f(), (f(), f()))), (f(), f(), f()), (f(), (f(), f())))),
        71 => Tree::from_tuple((f(), (f(), (f(), (f(), f()))), (f(), (f(), (f(),), f()), f(), f()), (f(), f()))),
        72 => Tree::from_tuple((f(), (f(), (f(), (f(), f()))), (f(), f(), (f(), (f(), (f(),), f()), f(), f())), f())),
        73 => Tree::from_tuple((f(), (f(), (f(), (f(), f()))), (f(), f(), (f(), (f(), (f(),), f()), f(), f())), (f(), (f(), (f(), f()))))),
        74 => Tree::from_tuple((f(), f(), (f(), f(), (f(), (f(),))), f(), (f(), f(), f()))),
        75 => Tree::from_tuple((f(), (f(), f()), f(), f(), (f(),), f())),
        76 => Tree::from_tuple((f(), f(), f(), f(), f(), (f(), f()), (f(), (f(),)))),
        77 => Tree::from_tuple((f(), (f(), (f(), f())), f(), (f(), f(), (f(), f(), f()), f()), (f(),))),
        78 => Tree::from_tuple((f(), f(), (f(), (f(), f())), f(), (f(), (f(), f())), f(), (f(), (f(), f())))),
        79 => Tree::from_tuple((f(), (f(), (f(),)), f(), f(), f())),
        80 => Tree::from_tuple((f(), (f(), f()), (f(), (f(), f())))),
        81 => Tree::from_tuple((f(), (f(), f()), (f(),), f(), f(), f(), f())),
        82 => Tree::from_tuple((f(), f(), f(), (f(),), f(), f(), f())),
        83 => Tree::from_tuple((f(), f(), f(), f(), (f(),), (f(), f()), (f(), (f(), (f(), (f(), f())))))),
        84 => Tree::from_tuple((f(), f(), f(), f(), f())),
        85 => Tree::from_tuple((f(), (f(), (f(),), (f(), f())), (f(), f()), f())),
        86 => Tree::from_tuple((f(), (f(), f()), (f(), (f(), f(), (f(), f()))))),
        87 => Tree::from_tuple((f(), (f(),), f(), (f(), f()))),
        88 => Tree::from_tuple((f(), (f(), (f(), (f(), (f(), f())), f())), f())),
        89 => Tree::from_tuple((f(), (f(), f()), (f(), (f(),)), f(), f(), f(), f(), f(), f(), (f(),))),
        90 => Tree::from_tuple((f(), (f(), f()), f(), (f(), f()), f())),
        91 => Tree::from_tuple((f(), f(), (f(), (f(), (f(), f()), (f(),)), f()))),
        92 => Tree::from_tuple((f(), f(), f(), f(), f(), f(), (f(),), (f(), (f(), f())), (f(), (f(), f())))),
        93 => Tree::from_tuple((f(), (f(), (f(), f()), f(), f(), f(), (f(),)), (f(), (f(), f()), f(), f()))),
        94 => Tree::from_tuple((f(), (f(), (f(), f(), (f(), f(), f()))))),
        95 => Tree::from_tuple((f(), (f(), (f(),), f(), f(), f()), (f(), f()), f(), f(), (f(),), f())),
        96 => Tree::from_tuple((f(), f(), (f(), (f(), (f(), (f(), f(), f())), f())))),
        97 => Tree::from_tuple((f(), f(), (f(), (f(), (f(), (f(),)))))),
        98 => Tree::from_tuple((f(), f(), (f(), f()), f(), f(), (f(), (f(), (f(), f()))), f())),
        99 => Tree::from_tuple((f(), (f(), (f(),), f(), f()), f())),
        100 => Tree::from_tuple((f(), f(), (f(), (f(), (f(), f(), (f(), f(), (f(),))))))),
        101 => Tree::from_tuple((f(), (f(), f(), f()), f(), f(), f(), f())),
        102 => Tree::from_tuple((f(), (f(), (f(),)), f(), (f(), f()), (f(), (f(), f())))),
        103 => Tree::from_tuple((f(), (f(), (f(), f(), f())), f())),
        104 => Tree::from_tuple((f(), (f(), (f(),), f(), f()), f(), f(), f(), f(), (f(),))),
        105 => Tree::from_tuple((f(), f(), (f(), f()), f(), f(), f(), (f(), f()), (f(), (f(),)))),
        106 => Tree::from_tuple((f(), (f(), (f(), (f(), f(), f(), f()), f())))),
        107 => Tree::from_tuple((f(), (f(), (f(), f())), f())),
        108 => Tree::from_tuple((f(), (f(), (f(), (f(),), f()), (f(), f()), f()))),
        109 => Tree::from_tuple((f(), (f(), f(), f()), f(), (f(),), f(), f(), f())),
        110 => Tree::from_tuple((f(), f(), (f(), (f(), f())))),
        111 => Tree::from_tuple((f(), f(), (f(), (f(),)), (f(), (f(), (f(), f()))), f())),
        112 => Tree::from_tuple((f(), (f(), f()), (f(), (f(), f()), f(), (f(), f())), (f(),))),
        113 => Tree::from_tuple((f(), (f(), (f(), (f(), f()))))),
        114 => Tree::from_tuple((f(), f(), f(), f(), f(), f(), (f(),), f(), f())),
        115 => Tree::from_tuple((f(), f(), f(), (f(), f()), (f(), f()), (f(),), f(), f(), (f(), (f(), f())))),
        116 => Tree::from_tuple((f(), f(), (f(), f(), (f(), f())))),
        117 => Tree::from_tuple((f(), (f(), (f(),), f()), (f(), f()), f(), f(), f(), f(), (f(),), f(), f())),
        118 => Tree::from_tuple((f(), (f(), f()), f(), f(), f(), (f(),), f(), f())),
        119 => Tree::from_tuple((f(), (f(), f()), f(), (f(), f()))),
        120 => Tree::from_tuple((f(), (f(), f(), (f(),), (f(), f(), f())), (f(), f()))),
        121 => Tree::from_tuple((f(), (f(), (f(), (f(), f()))), (f(), f()), f(), (f(), (f(),)), f(), f())),
        122 => Tree::from_tuple((f(), (f(), (f(), (f(), f(), f()))), f(), (f(), f()))),
        123 => Tree::from_tuple((f(), (f(),), f(), f(), (f(), f()), f(), f(), (f(), f()), (f(),))),
        _ => Tree::from_tuple((f(), f(), (f(), (f(), f(), (f(), f())), f()), f())),
    }
}
pub fn tree_events<P: Payload>(k: usize, how: u32, f: &mut dyn FnMut() -> It<P>, g: &mut dyn FnMut(Ev<P>)) {
    match k {
        0 => ev_tree(f(), how, g),
        1 => ev_tree((f(), f()), how, g),
        2 => ev_tree((f(), f(), f()), how, g),
        3 => ev_tree((f(), (f(), f())), how, g),
        4 => ev_tree((f(), (f(), f(), (f(),))), how, g),
        5 => ev_tree((f(), f(), (f(), f())), how, g),
        6 => ev_tree((f(), (f(), f()), f()), how, g),
        7 => ev_tree((f(), (f(), f()), (f(), f())), how, g),
        8 => ev_tree((f(), (f(), (f(),)), (f(), f()), (f(), f())), how, g),
        9 => ev_tree((f(), (f(), f(), f()), (f(), f(), f())), how, g),
        10 => ev_tree((f(), (f(), (f(),), f()), (f(), f(), f()), (f(), f(), f())), how, g),
        11 => ev_tree((f(), (f(), (f(), f())), (f(), (f(), (f(),)))), how, g),
        12 => ev_tree((f(), (f(), f(), (f(), f())), (f(), (f(), f()), f())), how, g),
        13 => ev_tree((f(), f(), f(), (f(), (f(),), f()), f()), how, g),
        14 => ev_tree((f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),)), how, g),
        15 => ev_tree((f(), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f()), how, g),
        16 => ev_tree((f(), (f(), f()), (f(), f()), (f(), f()), (f(), f()), (f(), (f(),)), (f(), f()), (f(), f()), (f(), f())), how, g),
        17 => ev_tree((f(), (f(), (f(), (f(), (f(), f()))))), how, g),
        18 => ev_tree((f(), (f(), (f(), (f(), f()), (f(), f())), (f(), (f(),))), f()), how, g),
        19 => ev_tree((f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f()), how, g),
        20 => ev_tree((f(), (f(), f(), (f(), (f(),)))), how, g),
        21 => ev_tree((f(), f(), (f(), f())), how, g),
        22 => ev_tree((f(), (f(), f(), (f(), f())), f(), f()), how, g),
        23 => ev_tree((f(), (f(), (f(), (f(),))), f(), f(), f()), how, g),
        24 => ev_tree((f(), f(), (f(), f()), f(), (f(),), (f(), f(), f(), f())), how, g),
        25 => ev_tree((f(), f(), (f(), f()), f(), (f(),), f(), f()), how, g),
        26 => ev_tree((f(), f(), f(), f(), f(), (f(),), (f(), f(), (f(), f())), f()), how, g),
        27 => ev_tree((f(), f(), (f(), f(), f()), (f(),), f(), f(), f(), f(), f()), how, g),
        28 => ev_tree((f(), f(), (f(), (f(),), (f(), f())), f(), f(), f(), f(), f(), (f(), (f(), (f(),))), f()), how, g),
        29 => ev_tree((f(), f(), f(), (f(), (f(), f())), f(), f(), (f(),), f(), f(), f(), f()), how, g),
        30 => ev_tree((f(), f(), f(), (f(),), f(), f(), f(), f(), (f(), f()), f(), (f(),), (f(), f(), f(), f())), how, g),
        31 => ev_tree((f(), f(), f(), (f(), f()), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f()), how, g),
        32 => ev_tree((f(), f(), f(), (f(), f(), f(), f()), (f(),), f(), f(), f(), f(), (f(), f(), f()), (f(),), f(), f(), f()), how, g),
        33 => ev_tree((f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), (f(), (f(), f())), f(), f()), how, g),
        34 => ev_tree((f(), f(), f(), f(), (f(),), f(), f(), (f(), f(), (f(), f())), f(), (f(), (f(), f())), (f(),), f(), f(), f(), f(), f()), how, g),
        35 => ev_tree((f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(), (f(),))), how, g),
        36 => ev_tree((f(), (f(), f(), f(), f()), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), (f(), f(), (f(),)), f(), f(), f(), f(), f(), f()), how, g),
        37 => ev_tree((f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), (f(), f(), f()), f(), f(), f(), (f(),), f(), f(), f(), f()), how, g),
        38 => ev_tree((f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), (f(), f(), (f(), f())), f(), f(), f(), f(), (f(),), f(), f(), (f(), f())), how, g),
        39 => ev_tree((f(), f(), f(), f(), (f(),), f(), (f(), (f(), f())), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f()), how, g),
        40 => ev_tree((f(), f(), (f(), f(), f(), f()), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), (f(), f(), f())), how, g),
        41 => ev_tree((f(), (f(), (f(), f())), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f()), how, g),
        42 => ev_tree((f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), (f(), f(), f(), f()), f(), f(), (f(),), f(), f(), (f(), (f(), f())), f(), f(), f(), (f(),), f(), f(), f()), how, g),
        43 => ev_tree((f(), f(), f(), f(), (f(), (f(), (f(),))), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f()), how, g),
        44 => ev_tree((f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), (f(), f(), (f(), f())), f(), f(), f(), (f(),), f(), (f(), f(), f()), f(), f(), f(), (f(),), f(), f(), f(), f(), f()), how, g),
        45 => ev_tree((f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), (f(), f(), f()), f(), (f(),), f(), f(), f(), f()), how, g),
        46 => ev_tree((f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(), (f(),), f(), f()), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f()), how, g),
        47 => ev_tree((f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(), (f(),)), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f()), how, g),
        48 => ev_tree((f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), (f(), f(), (f(), f())), (f(),), (f(), f()), f(), f(), f(), f(), f(), (f(),)), how, g),
        49 => ev_tree((f(), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(), (f(),), f()), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f()), how, g),
        50 => ev_tree((f(), (f(), f(), f()), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), (f(), f(), f(), f()), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f()), how, g),
        51 => ev_tree((f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), (f(), f()), f(), f(), f(), f()), how, g),
        52 => ev_tree((f(), (f(),), f(), f()), how, g),
        53 => ev_tree((f(), f(), f(), (f(), (f(), (f(), f())))), how, g),
        54 => ev_tree((f(), f(), (f(), (f(),), f()), (f(), (f(), f()))), how, g),
        55 => ev_tree((f(), f(), (f(), (f(), f(), f()), f(), (f(),)), (f(), f())), how, g),
        56 => ev_tree((f(), f(), (f(), f(), (f(), (f(), f(), f()), f(), (f(),))), f()), how, g),
        57 => ev_tree((f(), f(), (f(), f(), (f(), (f(), f(), f()), f(), (f(),))), (f(), (f(), (f(), f())))), how, g),
        58 => ev_tree((f(), (f(), f()), f(), (f(), (f(), f()))), how, g),
        59 => ev_tree((f(), (f(), f()), (f(), f(), (f(),)), (f(), f())), how, g),
        60 => ev_tree((f(), (f(), f()), (f(), (f(), f(), f()), f(), f()), (f(),)), how, g),
        61 => ev_tree((f(), (f(), f()), (f(), (f(), f(), f()), f(), f()), (f(), (f(), (f(), f())))), how, g),
        62 => ev_tree((f(), (f(), (f(),)), (f(), f(), (f(), (f(), f(), f()), f(), f())), (f(), (f(), f()))), how, g),
        63 => ev_tree((f(), (f(), (f(), (f(),))), f(), (f(), f())), how, g),
        64 => ev_tree((f(), (f(), (f(), f())), (f(), f(), f()), f()), how, g),
        65 => ev_tree((f(), (f(), (f(), (f(),))), (f(), f(), f()), (f(), (f(), (f(), f())))), how, g),
        66 => ev_tree((f(), (f(), (f(), f())), (f(), (f(), f(), f()), (f(),), f()), (f(), (f(), f()))), how, g),
        67 => ev_tree((f(), (f(), (f(), f())), (f(), f(), (f(), (f(), f(), f()), (f(),), f())), (f(), f())), how, g),
        68 => ev_tree((f(), (f(), (f(), (f(), f()))), f(), f()), how, g),
        69 => ev_tree((f(), (f(), (f(), (f(), f()))), (f(),), (f(), (f(), (f(), f())))), how, g),
        70 => ev_tree((f(), (f(), (f(), (f(), f()))), (f(), f(), f()), (f(), (f(), f()))), how, g),
        71 => ev_tree((f(), (f(), (f(), (f(), f()))), (f(), (f(), (f(),), f()), f(), f()), (f(), f())), how, g),
        72 => ev_tree((f(), (f(), (f(), (f(), f()))), (f(), f(), (f(), (f(), (f(),), f()), f(), f())), f()), how, g),
        73 => ev_tree((f(), (f(), (f(), (f(), f()))), (f(), f(), (f(), (f(), (f(),), f()), f(), f())), (f(), (f(), (f(), f())))), how, g),
        74 => ev_tree((f(), f(), (f(), f(), (f(), (f(),))), f(), (f(), f(), f())), how, g),
        75 => ev_tree((f(), (f(), f()), f(), f(), (f(),), f()), how, g),
        76 => ev_tree((f(), f(), f(), f(), f(), (f(), f()), (f(), (f(),))), how, g),
        77 => ev_tree((f(), (f(), (f(), f())), f(), (f(), f(), (f(), f(), f()), f()), (f(),)), how, g),
        78 => ev_tree((f(), f(), (f(), (f(), f())), f(), (f(), (f(), f())), f(), (f(), (f(), f()))), how, g),
        79 => ev_tree((f(), (f(), (f(),)), f(), f(), f()), how, g),
        80 => ev_tree((f(), (f(), f()), (f(), (f(), f()))), how, g),
        81 => ev_tree((f(), (f(), f()), (f(),), f(), f(), f(), f()), how, g),
        82 => ev_tree((f(), f(), f(), (f(),), f(), f(), f()), how, g),
        83 => ev_tree((f(), f(), f(), f(), (f(),), (f(), f()), (f(), (f(), (f(), (f(), f()))))), how, g),
        84 => ev_tree((f(), f(), f(), f(), f()), how, g),
        85 => ev_tree((f(), (f(), (f(),), (f(), f())), (f(), f()), f()), how, g),
        86 => ev_tree((f(), (f(), f()), (f(), (f(), f(), (f(), f())))), how, g),
        87 => ev_tree((f(), (f(),), f(), (f(), f())), how, g),
        88 => ev_tree((f(), (f(), (f(), (f(), (f(), f())), f())), f()), how, g),
        89 => ev_tree((f(), (f(), f()), (f(), (f(),)), f(), f(), f(), f(), f(), f(), (f(),)), how, g),
        90 => ev_tree((f(), (f(), f()), f(), (f(), f()), f()), how, g),
        91 => ev_tree((f(), f(), (f(), (f(), (f(), f()), (f(),)), f())), how, g),
        92 => ev_tree((f(), f(), f(), f(), f(), f(), (f(),), (f(), (f(), f())), (f(), (f(), f()))), how, g),
        93 => ev_tree((f(), (f(), (f(), f()), f(), f(), f(), (f(),)), (f(), (f(), f()), f(), f())), how, g),
        94 => ev_tree((f(), (f(), (f(), f(), (f(), f(), f())))), how, g),
        95 => ev_tree((f(), (f(), (f(),), f(), f(), f()), (f(), f()), f(), f(), (f(),), f()), how, g),
        96 => ev_tree((f(), f(), (f(), (f(), (f(), (f(), f(), f())), f()))), how, g),
        97 => ev_tree((f(), f(), (f(), (f(), (f(), (f(),))))), how, g),
        98 => ev_tree((f(), f(), (f(), f()), f(), f(), (f(), (f(), (f(), f()))), f()), how, g),
        99 => ev_tree((f(), (f(), (f(),), f(), f()), f()), how, g),
        100 => ev_tree((f(), f(), (f(), (f(), (f(), f(), (f(), f(), (f(),)))))), how, g),
        101 => ev_tree((f(), (f(), f(), f()), f(), f(), f(), f()), how, g),
        102 => ev_tree((f(), (f(), (f(),)), f(), (f(), f()), (f(), (f(), f()))), how, g),
        103 => ev_tree((f(), (f(), (f(), f(), f())), f()), how, g),
        104 => ev_tree((f(), (f(), (f(),), f(), f()), f(), f(), f(), f(), (f(),)), how, g),
        105 => ev_tree((f(), f(), (f(), f()), f(), f(), f(), (f(), f()), (f(), (f(),))), how, g),
        106 => ev_tree((f(), (f(), (f(), (f(), f(), f(), f()), f()))), how, g),
        107 => ev_tree((f(), (f(), (f(), f())), f()), how, g),
        108 => ev_tree((f(), (f(), (f(), (f(),), f()), (f(), f()), f())), how, g),
        109 => ev_tree((f(), (f(), f(), f()), f(), (f(),), f(), f(), f()), how, g),
        110 => ev_tree((f(), f(), (f(), (f(), f()))), how, g),
        111 => ev_tree((f(), f(), (f(), (f(),)), (f(), (f(), (f(), f()))), f()), how, g),
        112 => ev_tree((f(), (f(), f()), (f(), (f(), f()), f(), (f(), f())), (f(),)), how, g),
        113 => ev_tree((f(), (f(), (f(), (f(), f())))), how, g),
        114 => ev_tree((f(), f(), f(), f(), f(), f(), (f(),), f(), f()), how, g),
        115 => ev_tree((f(), f(), f(), (f(), f()), (f(), f()), (f(),), f(), f(), (f(), (f(), f()))), how, g),
        116 => ev_tree((f(), f(), (f(), f(), (f(), f()))), how, g),
        117 => ev_tree((f(), (f(), (f(),), f()), (f(), f()), f(), f(), f(), f(), (f(),), f(), f()), how, g),
        118 => ev_tree((f(), (f(), f()), f(), f(), f(), (f(),), f(), f()), how, g),
        119 => ev_tree((f(), (f(), f()), f(), (f(), f())), how, g),
        120 => ev_tree((f(), (f(), f(), (f(),), (f(), f(), f())), (f(), f())), how, g),
        121 => ev_tree((f(), (f(), (f(), (f(), f()))), (f(), f()), f(), (f(), (f(),)), f(), f()), how, g),
        122 => ev_tree((f(), (f(), (f(), (f(), f(), f()))), f(), (f(), f())), how, g),
        123 => ev_tree((f(), (f(),), f(), f(), (f(), f()), f(), f(), (f(), f()), (f(),)), how, g),
        _ => ev_tree((f(), f(), (f(), (f(), f(), (f(), f())), f()), f()), how, g),
    }
}
pub fn forest<P: Payload>(k: usize, f: &mut dyn FnMut() -> It<P>) -> Forest<It<P>> {
    match k {
        0 => Forest::from_tuple(()),
        1 => Forest::from_tuple((f(),)),
        2 => Forest::from_tuple(((f(),), f(),)),
        3 => Forest::from_tuple(((f(), f()),)),
        4 => Forest::from_tuple(((f(), f()), f(),)),
        5 => Forest::from_tuple((f(), (f(), f()),)),
        6 => Forest::from_tuple(((f(), (f(),)), (f(), f()),)),
        7 => Forest::from_tuple(((f(), f(), f()), (f(), f(), f()),)),
        8 => Forest::from_tuple((f(), (f(),), f(), f(), f(), f(),)),
        9 => Forest::from_tuple(((f(), (f(), f())), (f(), f()), (f(),),)),
        10 => Forest::from_tuple((f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(),)),
        11 => Forest::from_tuple(((f(), f(), f(), (f(),)),)),
        12 => Forest::from_tuple(((f(), (f(), f())), f(),)),
        13 => Forest::from_tuple(((f(), f(), f(), f()), (f(), f(), (f(),)), f(),)),
        14 => Forest::from_tuple((f(), f(), f(), (f(), f()),)),
        15 => Forest::from_tuple((f(), (f(),), f(), (f(), f()), (f(), f(), f(), f()),)),
        16 => Forest::from_tuple((f(), (f(),), f(), f(), f(), (f(), f()),)),
        17 => Forest::from_tuple((f(), f(), (f(),), (f(), (f(), f())), f(), (f(), f(), (f(), f())), f(),)),
        18 => Forest::from_tuple((f(), (f(),), f(), f(), (f(), f()), f(), f(), f(),)),
        19 => Forest::from_tuple(((f(),), f(), f(), (f(), f(), (f(), f())), f(), f(), (f(),), (f(), f()), f(),)),
        20 => Forest::from_tuple(((f(), f(), f()), f(), f(), (f(),), f(), f(), f(), f(), f(), f(),)),
        21 => Forest::from_tuple(((f(),), f(), f(), f(), (f(), f()), f(), (f(), f(), (f(), (f(),))), f(), f(), f(), f(),)),
        22 => Forest::from_tuple((f(), f(), (f(),), f(), f(), f(), f(), (f(), f()), f(), (f(),), f(), f(),)),
        23 => Forest::from_tuple((f(), f(), f(), f(), (f(), (f(),), (f(), f())), f(), (f(), (f(), f())), f(), f(), f(), (f(),), f(), f(),)),
        24 => Forest::from_tuple((f(), f(), f(), f(), (f(),), f(), f(), f(), f(), (f(), f()), f(), (f(),), f(), f(),)),
        25 => Forest::from_tuple((f(), f(), f(), f(), (f(), (f(),), (f(), f())), f(), f(), f(), f(), f(), (f(),), f(), (f(), f(), f()), f(), f(),)),
        26 => Forest::from_tuple((f(), (f(),), f(), f(), (f(), (f(), f())), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),),)),
        27 => Forest::from_tuple((f(), f(), f(), f(), f(), f(), (f(),), f(), (f(), f()), f(), f(), f(), f(), (f(), (f(),), f(), f()), f(), f(), f(),)),
        28 => Forest::from_tuple((f(), (f(),), f(), f(), f(), f(), f(), (f(), f(), (f(),)), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(),)),
        29 => Forest::from_tuple((f(), f(), f(), (f(),), f(), (f(), f(), (f(), f())), (f(), f(), f()), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(),)),
        30 => Forest::from_tuple((f(), f(), f(), (f(),), (f(), f()), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(),)),
        31 => Forest::from_tuple((f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), (f(), f()), f(), f(), (f(),), (f(), f(), f(), f()), f(),)),
        32 => Forest::from_tuple((f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), (f(), f(), f()), f(), f(), f(), f(),)),
        33 => Forest::from_tuple(((f(),), f(), f(), f(), f(), f(), f(), (f(),), (f(), f(), f(), f()), f(), f(), f(), (f(),), f(), f(), f(), (f(), f()), f(), f(), (f(),), f(), f(), f(),)),
        34 => Forest::from_tuple((f(), f(), f(), (f(),), f(), f(), f(), f(), (f(), (f(), f())), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(),)),
        35 => Forest::from_tuple(((f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), (f(), f(), f()), (f(),), f(), f(), (f(), f(), (f(), f())), f(),)),
        36 => Forest::from_tuple((f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), (f(), f()), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(),)),
        37 => Forest::from_tuple((f(), f(), f(), (f(),), f(), (f(), f()), f(), f(), f(), f(), (f(), (f(),), (f(), f())), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(),)),
        38 => Forest::from_tuple((f(), f(), (f(), (f(), f())), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(),)),
        39 => Forest::from_tuple(((f(), f(), f()), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), (f(), f(), (f(), f())), (f(),), f(), f(), f(), f(), f(), f(),)),
        40 => Forest::from_tuple(((f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), (f(), f(), f()), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(),)),
        41 => Forest::from_tuple((f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), (f(), (f(), f())), f(), f(), f(), f(), f(), (f(),), f(), f(), (f(), f(), f(), f()), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),),)),
        42 => Forest::from_tuple(((f(), (f(), f())), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(),)),
        43 => Forest::from_tuple((f(), f(), (f(),),)),
        44 => Forest::from_tuple((f(), f(), f(), f(), (f(), (f(), (f(), f()))),)),
        45 => Forest::from_tuple((f(), (f(),), (f(), f()),)),
        46 => Forest::from_tuple((f(), f(), (f(), (f(), f(), f()), f(), (f(),)),)),
        47 => Forest::from_tuple((f(), f(), (f(), (f(), (f(), f()))),)),
        48 => Forest::from_tuple((f(), (f(), f()), f(),)),
        49 => Forest::from_tuple(((f(),), (f(), f()), (f(), f()),)),
        50 => Forest::from_tuple((f(), (f(), f()), (f(), (f(), f(), f()), (f(),), f()),)),
        51 => Forest::from_tuple((f(), (f(), f()), (f(), (f(), (f(), f()))),)),
        52 => Forest::from_tuple((f(), (f(), (f(), f())), (f(),),)),
        53 => Forest::from_tuple(((f(), (f(), f())), f(), f(), (f(), (f(), f())), (f(), (f(), (f(), f()))),)),
        54 => Forest::from_tuple((f(), (f(), (f(), (f(),))), (f(), f()),)),
        55 => Forest::from_tuple((f(), (f(), (f(), f())), (f(), (f(), f(), f()), f(), (f(),)),)),
        56 => Forest::from_tuple((f(), (f(), (f(), f())), (f(), (f(), (f(), f()))),)),
        57 => Forest::from_tuple((f(), (f(), (f(), (f(), f()))), f(),)),
        58 => Forest::from_tuple(((f(),), (f(), (f(), (f(), f()))), (f(), f()),)),
        59 => Forest::from_tuple((f(), (f(), (f(), (f(), f()))), (f(), (f(), f(), f()), (f(),), f()),)),
        60 => Forest::from_tuple((f(), (f(), (f(), (f(), f()))), (f(), (f(), (f(), f()))),)),
        61 => Forest::from_tuple(((f(), f(), f()), (f(),), f(),)),
        62 => Forest::from_tuple((f(), (f(), f()), f(), f(), (f(), (f(), (f(), f()))),)),
        63 => Forest::from_tuple(((f(), (f(),)), f(), (f(), f()),)),
        64 => Forest::from_tuple(((f(), f(), f()), f(), (f(), (f(), f(), (f(),)), f(), f()),)),
        65 => Forest::from_tuple(((f(), f()), f(), (f(), (f(), (f(), f()))),)),
        66 => Forest::from_tuple(((f(), f(), (f(),)), (f(), f()), f(),)),
        67 => Forest::from_tuple(((f(), f()), (f(), f()), (f(), f()),)),
        68 => Forest::from_tuple(((f(), f(), (f(),)), (f(), f()), (f(), (f(), f(), f()), f(), f()),)),
        69 => Forest::from_tuple(((f(), f()), (f(), (f(),)), (f(), (f(), (f(), f()))),)),
        70 => Forest::from_tuple(((f(), f(), f()), (f(), (f(), f())), f(),)),
        71 => Forest::from_tuple(((f(), (f(), f())), (f(), (f(),)), f(), (f(), (f(), f())), (f(), (f(), (f(), f()))),)),
        72 => Forest::from_tuple(((f(), f()), (f(), (f(), f())), (f(), f()),)),
        73 => Forest::from_tuple(((f(), (f(),), f()), (f(), (f(), f())), (f(), (f(), f(), f()), f(), f()),)),
        74 => Forest::from_tuple(((f(), (f(),)), (f(), (f(), f())), (f(), (f(), (f(), f()))),)),
        75 => Forest::from_tuple(((f(), f(), f()), (f(), (f(), (f(), f()))), f(),)),
        76 => Forest::from_tuple(((f(), (f(),)), (f(), (f(), (f(), f()))), (f(), f()),)),
        77 => Forest::from_tuple(((f(), f(), f()), (f(), (f(), (f(), f()))), (f(), (f(), f(), (f(),)), f(), f()),)),
        78 => Forest::from_tuple(((f(), f()), (f(), (f(), (f(), f()))), (f(), (f(), (f(), f()))),)),
        79 => Forest::from_tuple(((f(), (f(), f(), (f(),)), f(), f()), f(), f(),)),
        80 => Forest::from_tuple((f(), (f(), (f(), f())), (f(),), f(), (f(), (f(), (f(), f()))),)),
        81 => Forest::from_tuple(((f(), (f(), f())), f(), (f(), f()),)),
        82 => Forest::from_tuple(((f(), (f(), f(), (f(),)), f(), f()), f(), (f(), (f(), f(), f()), f(), (f(),)),)),
        83 => Forest::from_tuple(((f(), (f(), f())), f(), (f(), (f(), (f(), f()))),)),
        84 => Forest::from_tuple(((f(), (f(), f(), f()), f(), (f(),)), (f(), f()), f(),)),
        85 => Forest::from_tuple(((f(), (f(), f())), (f(), f()), (f(), f()),)),
        86 => Forest::from_tuple(((f(), (f(), f(), (f(),)), f(), f()), (f(), f()), (f(), (f(), f(), f()), f(), (f(),)),)),
        87 => Forest::from_tuple(((f(), (f(), f())), (f(), f()), (f(), (f(), (f(), f()))),)),
        88 => Forest::from_tuple(((f(), (f(), f(), f()), f(), (f(),)), (f(), (f(), f())), f(),)),
        89 => Forest::from_tuple(((f(), (f(), f())), (f(), (f(), f())), f(), (f(), (f(), f())), (f(), (f(), (f(), (f(),)))),)),
        90 => Forest::from_tuple(((f(), (f(), f())), (f(), (f(), f())), (f(), f()),)),
        91 => Forest::from_tuple(((f(), (f(), f(), f()), f(), (f(),)), (f(), (f(), f())), (f(), (f(), f(), f()), f(), f()),)),
        92 => Forest::from_tuple(((f(), (f(), f())), (f(), (f(), (f(),))), (f(), (f(), (f(), f()))),)),
        93 => Forest::from_tuple(((f(), (f(), f(), f()), f(), f()), (f(), (f(), (f(), f()))), (f(),),)),
        94 => Forest::from_tuple(((f(), (f(), f())), (f(), (f(), (f(), f()))), (f(), f()),)),
        95 => Forest::from_tuple(((f(), (f(), f(), f()), f(), (f(),)), (f(), (f(), (f(), f()))), (f(), (f(), f(), f()), f(), f()),)),
        96 => Forest::from_tuple(((f(), (f(), f())), (f(), (f(), (f(), (f(),)))), (f(), (f(), (f(), f()))),)),
        97 => Forest::from_tuple(((f(), f(), (f(), (f(), f(), f()), f(), f())), (f(),), f(),)),
        98 => Forest::from_tuple((f(), (f(), (f(), (f(), f()))), f(), f(), (f(), (f(), (f(), f()))),)),
        99 => Forest::from_tuple(((f(), (f(), (f(), (f(),)))), f(), (f(), f()),)),
        100 => Forest::from_tuple(((f(), f(), (f(), (f(), f(), f()), f(), (f(),))), f(), (f(), (f(), f(), f()), f(), f()),)),
        101 => Forest::from_tuple(((f(), (f(), (f(), f()))), (f(),), (f(), (f(), (f(), f()))),)),
        102 => Forest::from_tuple(((f(), f(), (f(), (f(), f(), f()), f(), f())), (f(), (f(),)), f(),)),
        103 => Forest::from_tuple(((f(), (f(), (f(), f()))), (f(), f()), (f(), f()),)),
        104 => Forest::from_tuple(((f(), f(), (f(), (f(), f(), (f(),)), f(), f())), (f(), f()), (f(), (f(), f(), f()), f(), (f(),)),)),
        105 => Forest::from_tuple(((f(), (f(), (f(), f()))), (f(), f()), (f(), (f(), (f(), f()))),)),
        106 => Forest::from_tuple(((f(), f(), (f(), (f(), f(), f()), (f(),), f())), (f(), (f(), f())), f(),)),
        107 => Forest::from_tuple(((f(), (f(), f())), (f(), (f(), (f(), f()))), f(), (f(), (f(), (f(),))), (f(), (f(), (f(), f()))),)),
        108 => Forest::from_tuple(((f(), (f(), (f(), f()))), (f(), (f(), f())), (f(), f()),)),
        109 => Forest::from_tuple(((f(), f(), (f(), (f(), f(), (f(),)), f(), f())), (f(), (f(), f())), (f(), (f(), f(), f()), f(), (f(),)),)),
        110 => Forest::from_tuple(((f(), (f(), (f(), f()))), (f(), (f(), f())), (f(), (f(), (f(), f()))),)),
        111 => Forest::from_tuple(((f(), f(), (f(), (f(), f(), f()), (f(),), f())), (f(), (f(), (f(), f()))), f(),)),
        112 => Forest::from_tuple(((f(), (f(), (f(), f()))), (f(), (f(), (f(), f()))), (f(), f()),)),
        113 => Forest::from_tuple(((f(), (f(),), (f(), (f(), f(), f()), f(), f())), (f(), (f(), (f(), f()))), (f(), (f(), f(), (f(),)), f(), f()),)),
        114 => Forest::from_tuple(((f(), (f(), (f(), f()))), (f(), (f(), (f(), f()))), (f(), (f(), (f(), f()))),)),
        115 => Forest::from_tuple((f(), (f(), (f(),), f()),)),
        116 => Forest::from_tuple(((f(), (f(), (f(), (f(), f())), (f(), f()))), f(),)),
        117 => Forest::from_tuple(((f(), f(), f(), (f(),), f()), f(), f(), f(), f(),)),
        118 => Forest::from_tuple(((f(), (f(), f(), (f(),), f())), f(),)),
        119 => Forest::from_tuple(((f(), (f(), (f(), f()))),)),
        120 => Forest::from_tuple(((f(), f(), f()), f(), (f(), (f(),)),)),
        121 => Forest::from_tuple(((f(), f(), f()),)),
        122 => Forest::from_tuple((f(), f(), f(), f(), (f(),),)),
        123 => Forest::from_tuple(((f(), f()), f(), f(), f(), f(), f(),)),
        124 => Forest::from_tuple(((f(), (f(),)), (f(), (f(), f())), f(),)),
        125 => Forest::from_tuple(((f(), (f(), f())),)),
        126 => Forest::from_tuple(((f(), f(), f()), f(), (f(),), f(), f(), f(),)),
        127 => Forest::from_tuple(((f(), f()), f(), f(),)),
        128 => Forest::from_tuple(((f(), (f(),), f()), f(), f(), f(), f(), f(), (f(),),)),
        129 => Forest::from_tuple(((f(), f(), (f(), f()), f(), f(), f()), f(),)),
        130 => Forest::from_tuple(((f(), (f(),), f(), f(), f(), f()), f(), f(), (f(),), f(), f(), f(),)),
        131 => Forest::from_tuple(((f(), f()), f(), f(), (f(),), (f(), f()),)),
        132 => Forest::from_tuple(((f(), (f(), f()), f(), (f(), f())), f(), (f(), f()),)),
        133 => Forest::from_tuple(((f(), (f(),)), f(), (f(), f()), f(), (f(), f()),)),
        134 => Forest::from_tuple(((f(), f(), f()), (f(), (f(),)), f(), (f(), f()), (f(), f()),)),
        135 => Forest::from_tuple(((f(), f()), f(), f(), (f(),), f(),)),
        136 => Forest::from_tuple(((f(), (f(), f())), f(), f(), (f(), (f(), f())), f(), (f(), (f(), (f(),))),)),
        137 => Forest::from_tuple(((f(), f()), (f(), f()), f(),)),
        138 => Forest::from_tuple((f(), f(), f(), (f(),), f(), f(), f(),)),
        139 => Forest::from_tuple(((f(), (f(), f()), f()), (f(), f()), (f(), (f(), (f(),)), f()), f(),)),
        140 => Forest::from_tuple(((f(), (f(), f(), (f(), f(), f()))), f(),)),
        141 => Forest::from_tuple(((f(), (f(),)), (f(), f()), f(), f(), f(), f(), f(), (f(),),)),
        142 => Forest::from_tuple(((f(), f(), f(), f(), f()), (f(), f(), f()), (f(),), f(), f(),)),
        143 => Forest::from_tuple(((f(), (f(), f(), f())), f(), f(), (f(),),)),
        144 => Forest::from_tuple((f(), (f(), (f(), (f(), f()), f())),)),
        145 => Forest::from_tuple(((f(), f(), f()), (f(), f()), (f(),), f(), f(), f(), f(),)),
        146 => Forest::from_tuple((f(), f(), (f(),), f(), f(), (f(), f()), f(), (f(), f()), f(), (f(),),)),
        147 => Forest::from_tuple(((f(), (f(), f(), f())),)),
        148 => Forest::from_tuple(((f(), (f(), (f(), (f(), f())), f())), f(), f(),)),
        149 => Forest::from_tuple(((f(),), (f(), f()), f(), (f(), (f(), f())), (f(), f()),)),
        150 => Forest::from_tuple(((f(), f()), (f(), (f(), f(), (f(), (f(),))), f(), f()), f(), f(),)),
        151 => Forest::from_tuple(((f(), f(), (f(), (f(), f()), (f(), (f(), (f(),), f())))),)),
        152 => Forest::from_tuple((f(), f(), f(), f(),)),
        153 => Forest::from_tuple(((f(), f()), (f(),), (f(), f()), f(),)),
        154 => Forest::from_tuple(((f(), f(), f()), f(), f(), (f(),), f(), f(), f(), f(),)),
        155 => Forest::from_tuple((f(), f(), (f(),), (f(), (f(), (f(), f()))), (f(), f()),)),
        156 => Forest::from_tuple(((f(), (f(), (f(), (f(), f()))), f(), f()), f(), (f(), (f(),)),)),
        157 => Forest::from_tuple(((f(), (f(), f()), f()),)),
        158 => Forest::from_tuple(((f(), f(), f()), f(), f(), (f(),), f(),)),
        _ => Forest::from_tuple(((f(), (f(), f())), f(), f(), f(), f(), (f(),),)),
    }
}
pub fn forest_events<P: Payload>(k: usize, how: u32, f: &mut dyn FnMut() -> It<P>, g: &mut dyn FnMut(Ev<P>)) {
    match k {
        0 => ev_forest((), how, g),
        1 => ev_forest((f(),), how, g),
        2 => ev_forest(((f(),), f(),), how, g),
        3 => ev_forest(((f(), f()),), how, g),
        4 => ev_forest(((f(), f()), f(),), how, g),
        5 => ev_forest((f(), (f(), f()),), how, g),
        6 => ev_forest(((f(), (f(),)), (f(), f()),), how, g),
        7 => ev_forest(((f(), f(), f()), (f(), f(), f()),), how, g),
        8 => ev_forest((f(), (f(),), f(), f(), f(), f(),), how, g),
        9 => ev_forest(((f(), (f(), f())), (f(), f()), (f(),),), how, g),
        10 => ev_forest((f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(),), how, g),
        11 => ev_forest(((f(), f(), f(), (f(),)),), how, g),
        12 => ev_forest(((f(), (f(), f())), f(),), how, g),
        13 => ev_forest(((f(), f(), f(), f()), (f(), f(), (f(),)), f(),), how, g),
        14 => ev_forest((f(), f(), f(), (f(), f()),), how, g),
        15 => ev_forest((f(), (f(),), f(), (f(), f()), (f(), f(), f(), f()),), how, g),
        16 => ev_forest((f(), (f(),), f(), f(), f(), (f(), f()),), how, g),
        17 => ev_forest((f(), f(), (f(),), (f(), (f(), f())), f(), (f(), f(), (f(), f())), f(),), how, g),
        18 => ev_forest((f(), (f(),), f(), f(), (f(), f()), f(), f(), f(),), how, g),
        19 => ev_forest(((f(),), f(), f(), (f(), f(), (f(), f())), f(), f(), (f(),), (f(), f()), f(),), how, g),
        20 => ev_forest(((f(), f(), f()), f(), f(), (f(),), f(), f(), f(), f(), f(), f(),), how, g),
        21 => ev_forest(((f(),), f(), f(), f(), (f(), f()), f(), (f(), f(), (f(), (f(),))), f(), f(), f(), f(),), how, g),
        22 => ev_forest((f(), f(), (f(),), f(), f(), f(), f(), (f(), f()), f(), (f(),), f(), f(),), how, g),
        23 => ev_forest((f(), f(), f(), f(), (f(), (f(),), (f(), f())), f(), (f(), (f(), f())), f(), f(), f(), (f(),), f(), f(),), how, g),
        24 => ev_forest((f(), f(), f(), f(), (f(),), f(), f(), f(), f(), (f(), f()), f(), (f(),), f(), f(),), how, g),
        25 => ev_forest((f(), f(), f(), f(), (f(), (f(),), (f(), f())), f(), f(), f(), f(), f(), (f(),), f(), (f(), f(), f()), f(), f(),), how, g),
        26 => ev_forest((f(), (f(),), f(), f(), (f(), (f(), f())), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),),), how, g),
        27 => ev_forest((f(), f(), f(), f(), f(), f(), (f(),), f(), (f(), f()), f(), f(), f(), f(), (f(), (f(),), f(), f()), f(), f(), f(),), how, g),
        28 => ev_forest((f(), (f(),), f(), f(), f(), f(), f(), (f(), f(), (f(),)), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(),), how, g),
        29 => ev_forest((f(), f(), f(), (f(),), f(), (f(), f(), (f(), f())), (f(), f(), f()), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(),), how, g),
        30 => ev_forest((f(), f(), f(), (f(),), (f(), f()), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(),), how, g),
        31 => ev_forest((f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), (f(), f()), f(), f(), (f(),), (f(), f(), f(), f()), f(),), how, g),
        32 => ev_forest((f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), (f(), f(), f()), f(), f(), f(), f(),), how, g),
        33 => ev_forest(((f(),), f(), f(), f(), f(), f(), f(), (f(),), (f(), f(), f(), f()), f(), f(), f(), (f(),), f(), f(), f(), (f(), f()), f(), f(), (f(),), f(), f(), f(),), how, g),
        34 => ev_forest((f(), f(), f(), (f(),), f(), f(), f(), f(), (f(), (f(), f())), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(),), how, g),
        35 => ev_forest(((f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), (f(), f(), f()), (f(),), f(), f(), (f(), f(), (f(), f())), f(),), how, g),
        36 => ev_forest((f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), (f(), f()), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(),), how, g),
        37 => ev_forest((f(), f(), f(), (f(),), f(), (f(), f()), f(), f(), f(), f(), (f(), (f(),), (f(), f())), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(),), how, g),
        38 => ev_forest((f(), f(), (f(), (f(), f())), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(),), how, g),
        39 => ev_forest(((f(), f(), f()), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), (f(), f(), (f(), f())), (f(),), f(), f(), f(), f(), f(), f(),), how, g),
        40 => ev_forest(((f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), (f(), f(), f()), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(),), how, g),
        41 => ev_forest((f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), (f(), (f(), f())), f(), f(), f(), f(), f(), (f(),), f(), f(), (f(), f(), f(), f()), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),),), how, g),
        42 => ev_forest(((f(), (f(), f())), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(), f(), f(), (f(),), f(), f(), f(), f(),), how, g),
        43 => ev_forest((f(), f(), (f(),),), how, g),
        44 => ev_forest((f(), f(), f(), f(), (f(), (f(), (f(), f()))),), how, g),
        45 => ev_forest((f(), (f(),), (f(), f()),), how, g),
        46 => ev_forest((f(), f(), (f(), (f(), f(), f()), f(), (f(),)),), how, g),
        47 => ev_forest((f(), f(), (f(), (f(), (f(), f()))),), how, g),
        48 => ev_forest((f(), (f(), f()), f(),), how, g),
        49 => ev_forest(((f(),), (f(), f()), (f(), f()),), how, g),
        50 => ev_forest((f(), (f(), f()), (f(), (f(), f(), f()), (f(),), f()),), how, g),
        51 => ev_forest((f(), (f(), f()), (f(), (f(), (f(), f()))),), how, g),
        52 => ev_forest((f(), (f(), (f(), f())), (f(),),), how, g),
        53 => ev_forest(((f(), (f(), f())), f(), f(), (f(), (f(), f())), (f(), (f(), (f(), f()))),), how, g),
        54 => ev_forest((f(), (f(), (f(), (f(),))), (f(), f()),), how, g),
        55 => ev_forest((f(), (f(), (f(), f())), (f(), (f(), f(), f()), f(), (f(),)),), how, g),
        56 => ev_forest((f(), (f(), (f(), f())), (f(), (f(), (f(), f()))),), how, g),
        57 => ev_forest((f(), (f(), (f(), (f(), f()))), f(),), how, g),
        58 => ev_forest(((f(),), (f(), (f(), (f(), f()))), (f(), f()),), how, g),
        59 => ev_forest((f(), (f(), (f(), (f(), f()))), (f(), (f(), f(), f()), (f(),), f()),), how, g),
        60 => ev_forest((f(), (f(), (f(), (f(), f()))), (f(), (f(), (f(), f()))),), how, g),
        61 => ev_forest(((f(), f(), f()), (f(),), f(),), how, g),
        62 => ev_forest((f(), (f(), f()), f(), f(), (f(), (f(), (f(), f()))),), how, g),
        63 => ev_forest(((f(), (f(),)), f(), (f(), f()),), how, g),
        64 => ev_forest(((f(), f(), f()), f(), (f(), (f(), f(), (f(),)), f(), f()),), how, g),
        65 => ev_forest(((f(), f()), f(), (f(), (f(), (f(), f()))),), how, g),
        66 => ev_forest(((f(), f(), (f(),)), (f(), f()), f(),), how, g),
        67 => ev_forest(((f(), f()), (f(), f()), (f(), f()),), how, g),
        68 => ev_forest(((f(), f(), (f(),)), (f(), f()), (f(), (f(), f(), f()), f(), f()),), how, g),
        69 => ev_forest(((f(), f()), (f(), (f(),)), (f(), (f(), (f(), f()))),), how, g),
        70 => ev_forest(((f(), f(), f()), (f(), (f(), f())), f(),), how, g),
        71 => ev_forest(((f(), (f(), f())), (f(), (f(),)), f(), (f(), (f(), f())), (f(), (f(), (f(), f()))),), how, g),
        72 => ev_forest(((f(), f()), (f(), (f(), f())), (f(), f()),), how, g),
        73 => ev_forest(((f(), (f(),), f()), (f(), (f(), f())), (f(), (f(), f(), f()), f(), f()),), how, g),
        74 => ev_forest(((f(), (f(),)), (f(), (f(), f())), (f(), (f(), (f(), f()))),), how, g),
        75 => ev_forest(((f(), f(), f()), (f(), (f(), (f(), f()))), f(),), how, g),
        76 => ev_forest(((f(), (f(),)), (f(), (f(), (f(), f()))), (f(), f()),), how, g),
        77 => ev_forest(((f(), f(), f()), (f(), (f(), (f(), f()))), (f(), (f(), f(), (f(),)), f(), f()),), how, g),
        78 => ev_forest(((f(), f()), (f(), (f(), (f(), f()))), (f(), (f(), (f(), f()))),), how, g),
        79 => ev_forest(((f(), (f(), f(), (f(),)), f(), f()), f(), f(),), how, g),
        80 => ev_forest((f(), (f(), (f(), f())), (f(),), f(), (f(), (f(), (f(), f()))),), how, g),
        81 => ev_forest(((f(), (f(), f())), f(), (f(), f()),), how, g),
        82 => ev_forest(((f(), (f(), f(), (f(),)), f(), f()), f(), (f(), (f(), f(), f()), f(), (f(),)),), how, g),
        83 => ev_forest(((f(), (f(), f())), f(), (f(), (f(), (f(), f()))),), how, g),
        84 => ev_forest(((f(), (f(), f(), f()), f(), (f(),)), (f(), f()), f(),), how, g),
        85 => ev_forest(((f(), (f(), f())), (f(), f()), (f(), f()),), how, g),
        86 => ev_forest(((f(), (f(), f(), (f(),)), f(), f()), (f(), f()), (f(), (f(), f(), f()), f(), (f(),)),), how, g),
        87 => ev_forest(((f(), (f(), f())), (f(), f()), (f(), (f(), (f(), f()))),), how, g),
        88 => ev_forest(((f(), (f(), f(), f()), f(), (f(),)), (f(), (f(), f())), f(),), how, g),
        89 => ev_forest(((f(), (f(), f())), (f(), (f(), f())), f(), (f(), (f(), f())), (f(), (f(), (f(), (f(),)))),), how, g),
        90 => ev_forest(((f(), (f(), f())), (f(), (f(), f())), (f(), f()),), how, g),
        91 => ev_forest(((f(), (f(), f(), f()), f(), (f(),)), (f(), (f(), f())), (f(), (f(), f(), f()), f(), f()),), how, g),
        92 => ev_forest(((f(), (f(), f())), (f(), (f(), (f(),))), (f(), (f(), (f(), f()))),), how, g),
        93 => ev_forest(((f(), (f(), f(), f()), f(), f()), (f(), (f(), (f(), f()))), (f(),),), how, g),
        94 => ev_forest(((f(), (f(), f())), (f(), (f(), (f(), f()))), (f(), f()),), how, g),
        95 => ev_forest(((f(), (f(), f(), f()), f(), (f(),)), (f(), (f(), (f(), f()))), (f(), (f(), f(), f()), f(), f()),), how, g),
        96 => ev_forest(((f(), (f(), f())), (f(), (f(), (f(), (f(),)))), (f(), (f(), (f(), f()))),), how, g),
        97 => ev_forest(((f(), f(), (f(), (f(), f(), f()), f(), f())), (f(),), f(),), how, g),
        98 => ev_forest((f(), (f(), (f(), (f(), f()))), f(), f(), (f(), (f(), (f(), f()))),), how, g),
        99 => ev_forest(((f(), (f(), (f(), (f(),)))), f(), (f(), f()),), how, g),
        100 => ev_forest(((f(), f(), (f(), (f(), f(), f()), f(), (f(),))), f(), (f(), (f(), f(), f()), f(), f()),), how, g),
        101 => ev_forest(((f(), (f(), (f(), f()))), (f(),), (f(), (f(), (f(), f()))),), how, g),
        102 => ev_forest(((f(), f(), (f(), (f(), f(), f()), f(), f())), (f(), (f(),)), f(),), how, g),
        103 => ev_forest(((f(), (f(), (f(), f()))), (f(), f()), (f(), f()),), how, g),
        104 => ev_forest(((f(), f(), (f(), (f(), f(), (f(),)), f(), f())), (f(), f()), (f(), (f(), f(), f()), f(), (f(),)),), how, g),
        105 => ev_forest(((f(), (f(), (f(), f()))), (f(), f()), (f(), (f(), (f(), f()))),), how, g),
        106 => ev_forest(((f(), f(), (f(), (f(), f(), f()), (f(),), f())), (f(), (f(), f())), f(),), how, g),
        107 => ev_forest(((f(), (f(), f())), (f(), (f(), (f(), f()))), f(), (f(), (f(), (f(),))), (f(), (f(), (f(), f()))),), how, g),
        108 => ev_forest(((f(), (f(), (f(), f()))), (f(), (f(), f())), (f(), f()),), how, g),
        109 => ev_forest(((f(), f(), (f(), (f(), f(), (f(),)), f(), f())), (f(), (f(), f())), (f(), (f(), f(), f()), f(), (f(),)),), how, g),
        110 => ev_forest(((f(), (f(), (f(), f()))), (f(), (f(), f())), (f(), (f(), (f(), f()))),), how, g),
        111 => ev_forest(((f(), f(), (f(), (f(), f(), f()), (f(),), f())), (f(), (f(), (f(), f()))), f(),), how, g),
        112 => ev_forest(((f(), (f(), (f(), f()))), (f(), (f(), (f(), f()))), (f(), f()),), how, g),
        113 => ev_forest(((f(), (f(),), (f(), (f(), f(), f()), f(), f())), (f(), (f(), (f(), f()))), (f(), (f(), f(), (f(),)), f(), f()),), how, g),
        114 => ev_forest(((f(), (f(), (f(), f()))), (f(), (f(), (f(), f()))), (f(), (f(), (f(), f()))),), how, g),
        115 => ev_forest((f(), (f(), (f(),), f()),), how, g),
        116 => ev_forest(((f(), (f(), (f(), (f(), f())), (f(), f()))), f(),), how, g),
        117 => ev_forest(((f(), f(), f(), (f(),), f()), f(), f(), f(), f(),), how, g),
        118 => ev_forest(((f(), (f(), f(), (f(),), f())), f(),), how, g),
        119 => ev_forest(((f(), (f(), (f(), f()))),), how, g),
        120 => ev_forest(((f(), f(), f()), f(), (f(), (f(),)),), how, g),
        121 => ev_forest(((f(), f(), f()),), how, g),
        122 => ev_forest((f(), f(), f(), f(), (f(),),), how, g),
        123 => ev_forest(((f(), f()), f(), f(), f(), f(), f(),), how, g),
        124 => ev_forest(((f(), (f(),)), (f(), (f(), f())), f(),), how, g),
        125 => ev_forest(((f(), (f(), f())),), how, g),
        126 => ev_forest(((f(), f(), f()), f(), (f(),), f(), f(), f(),), how, g),
        127 => ev_forest(((f(), f()), f(), f(),), how, g),
        128 => ev_forest(((f(), (f(),), f()), f(), f(), f(), f(), f(), (f(),),), how, g),
        129 => ev_forest(((f(), f(), (f(), f()), f(), f(), f()), f(),), how, g),
        130 => ev_forest(((f(), (f(),), f(), f(), f(), f()), f(), f(), (f(),), f(), f(), f(),), how, g),
        131 => ev_forest(((f(), f()), f(), f(), (f(),), (f(), f()),), how, g),
        132 => ev_forest(((f(), (f(), f()), f(), (f(), f())), f(), (f(), f()),), how, g),
        133 => ev_forest(((f(), (f(),)), f(), (f(), f()), f(), (f(), f()),), how, g),
        134 => ev_forest(((f(), f(), f()), (f(), (f(),)), f(), (f(), f()), (f(), f()),), how, g),
        135 => ev_forest(((f(), f()), f(), f(), (f(),), f(),), how, g),
        136 => ev_forest(((f(), (f(), f())), f(), f(), (f(), (f(), f())), f(), (f(), (f(), (f(),))),), how, g),
        137 => ev_forest(((f(), f()), (f(), f()), f(),), how, g),
        138 => ev_forest((f(), f(), f(), (f(),), f(), f(), f(),), how, g),
        139 => ev_forest(((f(), (f(), f()), f()), (f(), f()), (f(), (f(), (f(),)), f()), f(),), how, g),
        140 => ev_forest(((f(), (f(), f(), (f(), f(), f()))), f(),), how, g),
        141 => ev_forest(((f(), (f(),)), (f(), f()), f(), f(), f(), f(), f(), (f(),),), how, g),
        142 => ev_forest(((f(), f(), f(), f(), f()), (f(), f(), f()), (f(),), f(), f(),), how, g),
        143 => ev_forest(((f(), (f(), f(), f())), f(), f(), (f(),),), how, g),
        144 => ev_forest((f(), (f(), (f(), (f(), f()), f())),), how, g),
        145 => ev_forest(((f(), f(), f()), (f(), f()), (f(),), f(), f(), f(), f(),), how, g),
        146 => ev_forest((f(), f(), (f(),), f(), f(), (f(), f()), f(), (f(), f()), f(), (f(),),), how, g),
        147 => ev_forest(((f(), (f(), f(), f())),), how, g),
        148 => ev_forest(((f(), (f(), (f(), (f(), f())), f())), f(), f(),), how, g),
        149 => ev_forest(((f(),), (f(), f()), f(), (f(), (f(), f())), (f(), f()),), how, g),
        150 => ev_forest(((f(), f()), (f(), (f(), f(), (f(), (f(),))), f(), f()), f(), f(),), how, g),
        151 => ev_forest(((f(), f(), (f(), (f(), f()), (f(), (f(), (f(),), f())))),), how, g),
        152 => ev_forest((f(), f(), f(), f(),), how, g),
        153 => ev_forest(((f(), f()), (f(),), (f(), f()), f(),), how, g),
        154 => ev_forest(((f(), f(), f()), f(), f(), (f(),), f(), f(), f(), f(),), how, g),
        155 => ev_forest((f(), f(), (f(),), (f(), (f(), (f(), f()))), (f(), f()),), how, g),
        156 => ev_forest(((f(), (f(), (f(), (f(), f()))), f(), f()), f(), (f(), (f(),)),), how, g),
        157 => ev_forest(((f(), (f(), f()), f()),), how, g),
        158 => ev_forest(((f(), f(), f()), f(), f(), (f(),), f(),), how, g),
        _ => ev_forest(((f(), (f(), f())), f(), f(), f(), f(), (f(),),), how, g),
    }
}
