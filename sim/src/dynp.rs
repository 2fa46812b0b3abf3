//! A user-written parser that hides the type of another one.
use aoc_parse::{ParseContext, ParseIter, Parser, Reported};
use std::rc::Rc;

pub trait It<'p, V> {
    fn end(&self) -> usize;
    fn back(&mut self, c: &mut ParseContext<'p>) -> Result<(), Reported>;
    fn conv(&self) -> V;
}
pub trait Obj<V> {
    fn start<'p>(&'p self, c: &mut ParseContext<'p>, at: usize) -> Result<Box<dyn It<'p, V> + 'p>, Reported>;
}

pub struct DynP<V>(pub Rc<dyn Obj<V>>);
impl<V> Clone for DynP<V> {
    fn clone(&self) -> Self {
        DynP(self.0.clone())
    }
}
pub struct DynI<'p, V>(Box<dyn It<'p, V> + 'p>);

impl<V: 'static> Parser for DynP<V> {
    type Output = V;
    type RawOutput = (V,);
    type Iter<'p> = DynI<'p, V>;
    fn parse_iter<'p>(&'p self, c: &mut ParseContext<'p>, at: usize) -> Result<DynI<'p, V>, Reported> {
        Ok(DynI(self.0.start(c, at)?))
    }
}
impl<'p, V> ParseIter<'p> for DynI<'p, V> {
    type RawOutput = (V,);
    fn match_end(&self) -> usize {
        self.0.end()
    }
    fn backtrack(&mut self, c: &mut ParseContext<'p>) -> Result<(), Reported> {
        self.0.back(c)
    }
    fn convert(&self) -> (V,) {
        (self.0.conv(),)
    }
}

struct Lib<P>(P);
struct LibI<I>(I);
impl<'p, V, I: ParseIter<'p, RawOutput = (V,)>> It<'p, V> for LibI<I> {
    fn end(&self) -> usize {
        self.0.match_end()
    }
    fn back(&mut self, c: &mut ParseContext<'p>) -> Result<(), Reported> {
        self.0.backtrack(c)
    }
    fn conv(&self) -> V {
        self.0.convert().0
    }
}
impl<V: 'static, P: Parser<Output = V, RawOutput = (V,)>> Obj<V> for Lib<P> {
    fn start<'p>(&'p self, c: &mut ParseContext<'p>, at: usize) -> Result<Box<dyn It<'p, V> + 'p>, Reported> {
        Ok(Box::new(LibI(self.0.parse_iter(c, at)?)))
    }
}

pub fn hide<V: 'static, P: Parser<Output = V, RawOutput = (V,)> + 'static>(p: P) -> DynP<V> {
    DynP(Rc::new(Lib(p)))
}
