//! A visitor that reads everything and keeps nothing: allocates nothing itself.

use scale_decode::visitor::types::*;
use scale_decode::visitor::{DecodeError, Unexpected, Visitor};
use scale_type_resolver::TypeResolver;
use std::marker::PhantomData;

pub struct Walk<R> {
    iter: bool,
    m: PhantomData<R>,
}
impl<R> Walk<R> {
    pub fn new(iter: bool) -> Walk<R> {
        Walk { iter, m: PhantomData }
    }
}
macro_rules! each {
    ($self:ident, $c:expr) => {{
        let c = $c;
        if $self.iter {
            while let Some(h) = c.next() {
                h?.decode_with_visitor(Walk::new(true))?;
            }
        } else {
            while let Some(r) = c.decode_item(Walk::new(false)) {
                r?;
            }
        }
        Ok(())
    }};
}
impl<R: TypeResolver> Visitor for Walk<R> {
    type Value<'s, 'r> = ();
    type Error = DecodeError;
    type TypeResolver = R;
    fn visit_unexpected<'s, 'r>(self, _u: Unexpected) -> Result<Self::Value<'s, 'r>, DecodeError> {
        crate::sim::seam();
        Ok(())
    }
    fn visit_sequence<'s, 'r>(self, c: &mut Sequence<'s, 'r, R>, _t: R::TypeId) -> Result<Self::Value<'s, 'r>, DecodeError> {
        each!(self, c)
    }
    fn visit_array<'s, 'r>(self, c: &mut Array<'s, 'r, R>, _t: R::TypeId) -> Result<Self::Value<'s, 'r>, DecodeError> {
        each!(self, c)
    }
    fn visit_tuple<'s, 'r>(self, c: &mut Tuple<'s, 'r, R>, _t: R::TypeId) -> Result<Self::Value<'s, 'r>, DecodeError> {
        each!(self, c)
    }
    fn visit_composite<'s, 'r>(self, c: &mut Composite<'s, 'r, R>, _t: R::TypeId) -> Result<Self::Value<'s, 'r>, DecodeError> {
        each!(self, c)
    }
    fn visit_variant<'s, 'r>(self, c: &mut Variant<'s, 'r, R>, _t: R::TypeId) -> Result<Self::Value<'s, 'r>, DecodeError> {
        each!(self, c.fields())
    }
    fn visit_str<'s, 'r>(self, c: &mut Str<'s>, _t: R::TypeId) -> Result<Self::Value<'s, 'r>, DecodeError> {
        let _ = c.as_str();
        Ok(())
    }
    fn visit_bitsequence<'s, 'r>(self, c: &mut BitSequence<'s>, _t: R::TypeId) -> Result<Self::Value<'s, 'r>, DecodeError> {
        for b in c.decode()? {
            let _ = b;
        }
        Ok(())
    }
}
