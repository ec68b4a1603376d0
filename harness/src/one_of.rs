//! Weighted choice and nesting like proptest's, without what makes those slow
//! here: the alternatives that were not taken are only generated when a
//! failing case shrinks, and nested strategies are built once.
use proptest::strategy::{BoxedStrategy, NewTree, Strategy, ValueTree};
use proptest::test_runner::TestRunner;
use std::fmt::Debug;
use std::sync::Arc;

pub struct OneOf<T>(Arc<Vec<(u32, BoxedStrategy<T>)>>);

impl<T> Clone for OneOf<T> {
    fn clone(&self) -> Self {
        OneOf(self.0.clone())
    }
}
impl<T> Debug for OneOf<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "OneOf of {}", self.0.len())
    }
}
impl<T: Debug> OneOf<T> {
    pub fn new(v: Vec<(u32, BoxedStrategy<T>)>) -> Self {
        assert!(v.iter().map(|(w, _)| *w as u64).sum::<u64>() > 0);
        OneOf(Arc::new(v))
    }
}

type Tree<T> = Box<dyn ValueTree<Value = T>>;

pub struct OneOfTree<T: Debug> {
    of: OneOf<T>,
    now: Tree<T>,
    /// Alternatives before this one are still to be tried.
    next: usize,
    before: Option<Tree<T>>,
    seed: u64,
}

impl<T: Debug + 'static> Strategy for OneOf<T> {
    type Tree = OneOfTree<T>;
    type Value = T;
    fn new_tree(&self, runner: &mut TestRunner) -> NewTree<Self> {
        let total: u64 = self.0.iter().map(|(w, _)| *w as u64).sum();
        let r = crate::runner::draw(runner);
        let (mut at, mut pick) = ((r >> 11) % total, 0);
        while at >= self.0[pick].0 as u64 {
            at -= self.0[pick].0 as u64;
            pick += 1;
        }
        Ok(OneOfTree { now: self.0[pick].1.new_tree(runner)?, of: self.clone(), next: pick, before: None, seed: r })
    }
}

impl<T: Debug + 'static> ValueTree for OneOfTree<T> {
    type Value = T;
    fn current(&self) -> T {
        self.now.current()
    }
    fn simplify(&mut self) -> bool {
        self.before = None;
        if self.now.simplify() {
            return true;
        }
        while self.next > 0 {
            self.next -= 1;
            let (w, s) = &self.of.0[self.next];
            if *w == 0 {
                continue;
            }
            if let Ok(t) = s.new_tree(&mut crate::runner::test_runner(self.seed ^ self.next as u64)) {
                self.before = Some(std::mem::replace(&mut self.now, t));
                return true;
            }
        }
        false
    }
    fn complicate(&mut self) -> bool {
        match self.before.take() {
            Some(t) => {
                self.now = t;
                true
            }
            None => self.now.complicate(),
        }
    }
}

/// `leaf`, or `wrap` around what this gives for one level less.
pub fn nest<T: Debug + Clone + 'static>(levels: u32, leaf: BoxedStrategy<T>, wrap: impl Fn(BoxedStrategy<T>) -> BoxedStrategy<T>) -> BoxedStrategy<T> {
    (0..levels).fold(leaf.clone(), |inner, _| OneOf::new(vec![(1, leaf.clone()), (1, wrap(inner))]).boxed())
}

#[macro_export]
macro_rules! one_of {
    ($($w:expr => $s:expr),+ $(,)?) => { $crate::one_of::OneOf::new(vec![$(($w as u32, proptest::strategy::Strategy::boxed($s))),+]) };
    ($($s:expr),+ $(,)?) => { $crate::one_of::OneOf::new(vec![$((1, proptest::strategy::Strategy::boxed($s))),+]) };
}
