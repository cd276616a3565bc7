//! A visitor which does whatever it likes and carries on regardless of failures, for feeding broken bytes to.
use scale_decode::visitor::types::*;
use scale_decode::visitor::{DecodeError, IgnoreVisitor, TypeIdFor, Unexpected, Visitor};
use std::cell::RefCell;
use verif_model::*;

pub struct Chaos<'s, 'c> {
    pub st: &'s RefCell<ChaosSt<'c>>,
    pub depth: u32,
}
pub struct ChaosSt<'c> {
    pub ch: &'c mut Ch,
    pub fuel: i64,
    /// the whole of the input, as addresses
    pub input: (usize, usize),
    pub msg: Option<String>,
    pub errs: u64,
    pub oks: u64,
}
impl<'c> ChaosSt<'c> {
    pub fn new(ch: &'c mut Ch, b: &[u8]) -> Self {
        let s = b.as_ptr() as usize;
        ChaosSt { ch, fuel: 400, input: (s, s + b.len()), msg: None, errs: 0, oks: 0 }
    }
    fn inside(&mut self, what: &str, b: &[u8]) {
        let s = b.as_ptr() as usize;
        if s < self.input.0 || s + b.len() > self.input.1 {
            self.msg.get_or_insert(format!("{what} aren't part of the input"));
        }
    }
}
impl<'s, 'c> Chaos<'s, 'c> {
    fn kid(&self) -> Self {
        Chaos { st: self.st, depth: self.depth + 1 }
    }
    fn n(&self, n: usize) -> usize {
        self.st.borrow_mut().ch.n(n)
    }
    fn note<T, E>(&self, r: &Result<T, E>) {
        let mut s = self.st.borrow_mut();
        match r {
            Ok(_) => s.oks += 1,
            Err(_) => s.errs += 1,
        }
    }
    fn inside(&self, what: &str, b: &[u8]) {
        self.st.borrow_mut().inside(what, b)
    }
    fn finish(&self, e: Option<DecodeError>) -> Result<(), DecodeError> {
        match e {
            Some(e) if self.n(3) == 2 => Err(e),
            _ => Ok(()),
        }
    }
}
macro_rules! container {
    ($s:expr, $c:expr $(, $tuple:expr)?) => {{
        let mut err = None;
        loop {
            {
                let mut st = $s.st.borrow_mut();
                st.fuel -= 1;
                if st.fuel < 0 || $s.depth > 300 {
                    break;
                }
            }
            $s.inside("bytes_from_start()", $c.bytes_from_start());
            $s.inside("bytes_from_undecoded()", $c.bytes_from_undecoded());
            let left = $c.remaining();
            match $s.n(8) {
                0 => break,
                1 | 2 => match $c.decode_item($s.kid()) {
                    None => break,
                    Some(r) => {
                        $s.note(&r);
                        err = r.err().or(err);
                    }
                },
                3 | 4 => match $c.next() {
                    None => break,
                    Some(Ok(h)) => {
                        $s.inside("bytes()", h.bytes());
                        for _ in 0..$s.n(3) {
                            let r = h.decode_with_visitor($s.kid());
                            $s.note(&r);
                            err = r.err().or(err);
                        }
                    }
                    Some(Err(e)) => {
                        $s.note(&Err::<(), _>(&e));
                        err = Some(e)
                    }
                },
                5 => {
                    let r = $c.skip_decoding();
                    $s.note(&r);
                    err = r.err().or(err);
                }
                6 => match $c.decode_item(IgnoreVisitor::new()) {
                    None => break,
                    Some(r) => {
                        $s.note(&r);
                        err = r.err().or(err);
                    }
                },
                _ => {
                    $(
                        let mut t: Tuple<'_, '_, Res> = $tuple;
                        while let Some(r) = t.decode_item($s.kid()) {
                            let stop = r.is_err();
                            $s.note(&r);
                            err = r.err().or(err);
                            if stop { break }
                        }
                    )?
                }
            }
            if $c.remaining() > left {
                $s.st.borrow_mut().msg.get_or_insert(format!("remaining() went up from {left} to {}", $c.remaining()));
            }
        }
        $s.finish(err)
    }};
}
impl<'s, 'c> Visitor for Chaos<'s, 'c> {
    type Value<'scale, 'resolver> = ();
    type Error = DecodeError;
    type TypeResolver = Res;

    fn visit_unexpected<'scale, 'resolver>(self, _: Unexpected) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        Ok(())
    }
    fn visit_str<'scale, 'resolver>(self, s: &mut Str<'scale>, _id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        let mut err = None;
        for _ in 0..self.n(4) {
            match self.n(3) {
                0 => {
                    let r = s.as_str();
                    self.note(&r);
                    if let Ok(r) = &r {
                        self.inside("as_str()", r.as_bytes());
                    }
                    err = r.err();
                }
                1 => {
                    let r = s.bytes_after();
                    self.note(&r);
                    if let Ok(r) = &r {
                        self.inside("bytes_after()", r);
                    }
                    err = r.err();
                }
                _ => {
                    let _ = (s.len(), s.is_empty());
                    self.inside("bytes_from_start()", s.bytes_from_start());
                }
            }
        }
        self.finish(err)
    }
    fn visit_bitsequence<'scale, 'resolver>(self, s: &mut BitSequence<'scale>, _id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        let mut err = None;
        for _ in 0..self.n(4) {
            match self.n(3) {
                0 => match s.decode() {
                    Ok(d) => {
                        // Broken lengths are fine as long as the bits end at some point.
                        let lim = (self.st.borrow().input.1 - self.st.borrow().input.0) * 8;
                        let mut n = 0;
                        for b in d {
                            n += 1;
                            if b.is_err() {
                                break;
                            }
                        }
                        if n > lim + 1 {
                            self.st.borrow_mut().msg.get_or_insert(format!("{n} bits out of {lim} were decoded"));
                        }
                    }
                    Err(e) => err = Some(e),
                },
                1 => match s.bytes_after() {
                    Ok(b) => self.inside("bytes_after()", b),
                    Err(e) => err = Some(e),
                },
                _ => self.inside("bytes_from_start()", s.bytes_from_start()),
            }
        }
        self.finish(err)
    }
    fn visit_sequence<'scale, 'resolver>(self, c: &mut Sequence<'scale, 'resolver, Res>, _id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        container!(self, c)
    }
    fn visit_array<'scale, 'resolver>(self, c: &mut Array<'scale, 'resolver, Res>, _id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        container!(self, c)
    }
    fn visit_tuple<'scale, 'resolver>(self, c: &mut Tuple<'scale, 'resolver, Res>, _id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        container!(self, c)
    }
    fn visit_composite<'scale, 'resolver>(self, c: &mut Composite<'scale, 'resolver, Res>, _id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        container!(self, c, c.as_tuple())
    }
    fn visit_variant<'scale, 'resolver>(self, v: &mut Variant<'scale, 'resolver, Res>, _id: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        self.inside("bytes_from_start()", v.bytes_from_start());
        self.inside("bytes_from_undecoded()", v.bytes_from_undecoded());
        if self.n(6) == 5 {
            let r = v.skip_decoding();
            self.note(&r);
        }
        let c = v.fields();
        container!(self, c, c.as_tuple())
    }
}
