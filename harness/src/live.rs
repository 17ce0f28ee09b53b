//! Values that account for their own life: every instance has a number, is counted when made or
//! cloned, marked when dropped, and checked when used. A second drop of the same number, a use
//! after it, or an instance that outlives everything is recorded. Instances hold no memory of
//! their own, so a faulty copy shows up in the records instead of corrupting the process.
//!
//! Every call of user code on such a value (cloning, comparing, mapping) burns a fuse, and the
//! call that finds it at zero panics.
use crate::runner::{no_panic, Fail, Obs, Res};
use std::sync::Mutex;

#[derive(Default)]
struct Book {
    session: u32,
    dropped: Vec<bool>,
    live: usize,
    bad: Vec<String>,
    calls: u64,
    fuse: Option<u64>,
}
pub struct Reg(Mutex<Book>);
thread_local! {
    static REG: &'static Reg = Box::leak(Box::new(Reg(Mutex::new(Book::default()))));
}
impl Reg {
    fn with<R>(&self, f: impl FnOnce(&mut Book) -> R) -> R {
        f(&mut self.0.lock().unwrap_or_else(|e| e.into_inner()))
    }
}

pub struct Tr {
    reg: &'static Reg,
    session: u32,
    id: u32,
    pub v: u32,
}
fn make(reg: &'static Reg, session: Option<u32>, v: u32) -> Tr {
    let (session, id) = reg.with(|b| {
        if session.is_some_and(|s| s != b.session) {
            return (session.unwrap(), u32::MAX);
        }
        b.dropped.push(false);
        b.live += 1;
        (b.session, b.dropped.len() as u32 - 1)
    });
    Tr { reg, session, id, v }
}
impl Tr {
    pub fn new(v: u32) -> Tr {
        REG.with(|r| make(r, None, v))
    }
    /// Record a use of this instance.
    fn touch(&self, what: &str) {
        self.reg.with(|b| {
            if b.session == self.session {
                match b.dropped.get(self.id as usize) {
                    Some(false) => {}
                    Some(true) => b.bad.push(format!("{what} after being dropped (value {})", self.v)),
                    None => b.bad.push(format!("{what} of a value that was never made")),
                }
            }
        })
    }
    /// A call of user code on this instance.
    pub fn tick(&self) {
        self.touch("used");
        self.burn()
    }
    fn burn(&self) {
        let out = self.reg.with(|b| {
            if b.session != self.session {
                return false;
            }
            b.calls += 1;
            match &mut b.fuse {
                Some(0) => {
                    b.fuse = None;
                    true
                }
                Some(n) => {
                    *n -= 1;
                    false
                }
                None => false,
            }
        });
        if out {
            panic!("injected panic in user code");
        }
    }
    /// A fresh value derived from this one by user code.
    pub fn map(&self, k: u32) -> Tr {
        self.tick();
        make(self.reg, Some(self.session), self.v.wrapping_mul(31).wrapping_add(k) % 1009)
    }
    pub fn two(&self, o: &Tr) -> Tr {
        self.tick();
        o.touch("used");
        make(self.reg, Some(self.session), self.v.wrapping_mul(17).wrapping_add(o.v) % 1009)
    }
    /// Replace this value in place by user code.
    pub fn set(&mut self, k: u32) {
        *self = self.map(k);
    }
    /// A decision by user code.
    pub fn test(&self, k: u32) -> bool {
        self.tick();
        (self.v.wrapping_mul(7).wrapping_add(k) >> 1) & 1 == 0
    }
}
impl Clone for Tr {
    fn clone(&self) -> Tr {
        self.touch("cloned");
        self.burn();
        make(self.reg, Some(self.session), self.v)
    }
}
impl Drop for Tr {
    fn drop(&mut self) {
        self.reg.with(|b| {
            if b.session != self.session {
                return;
            }
            match b.dropped.get_mut(self.id as usize) {
                Some(d @ false) => {
                    *d = true;
                    b.live -= 1;
                }
                Some(true) => b.bad.push(format!("dropped twice (value {})", self.v)),
                None => b.bad.push("a value that was never made was dropped".into()),
            }
        })
    }
}
impl PartialEq for Tr {
    fn eq(&self, o: &Tr) -> bool {
        o.touch("compared");
        self.tick();
        self.v == o.v
    }
}
impl Eq for Tr {}
impl PartialOrd for Tr {
    fn partial_cmp(&self, o: &Tr) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tr {
    fn cmp(&self, o: &Tr) -> std::cmp::Ordering {
        o.touch("compared");
        self.tick();
        self.v.cmp(&o.v)
    }
}
impl std::hash::Hash for Tr {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.tick();
        self.v.hash(h)
    }
}
impl std::fmt::Debug for Tr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.touch("shown");
        write!(f, "{}", self.v)
    }
}
impl std::fmt::Display for Tr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl Default for Tr {
    fn default() -> Tr {
        Tr::new(0)
    }
}
impl std::ops::Add for Tr {
    type Output = Tr;
    fn add(self, o: Tr) -> Tr {
        self.two(&o)
    }
}
impl std::ops::Mul for Tr {
    type Output = Tr;
    fn mul(self, o: Tr) -> Tr {
        self.two(&o)
    }
}
impl From<u8> for Tr {
    fn from(v: u8) -> Tr {
        Tr::new(v as u32)
    }
}
impl rustica::traits::semigroup::Semigroup for Tr {
    fn combine(&self, o: &Tr) -> Tr {
        self.two(o)
    }
    fn combine_owned(self, o: Tr) -> Tr {
        self.two(&o)
    }
}

/// Look at everything reachable in a result.
pub fn look<T: std::fmt::Debug>(x: &T) {
    let _ = std::hint::black_box(format!("{x:?}"));
}

/// Run the body once with the fuse set, and balance the books afterwards. Yields the number of
/// calls of user code and the panic, if one came out.
fn once(body: &dyn Fn(), fuse: Option<u64>) -> Result<(u64, Option<String>), Fail> {
    let reg = REG.with(|r| *r);
    reg.with(|b| *b = Book { session: b.session + 1, fuse, ..Default::default() });
    let out = no_panic(body);
    let (live, bad, calls) = reg.with(|b| {
        b.session += 1;
        (b.live, std::mem::take(&mut b.bad), b.calls)
    });
    let at = match fuse {
        Some(k) => format!(" (user code panicked at its call number {})", k + 1),
        None => String::new(),
    };
    if let Some(b) = bad.first() {
        let sig = b.split(" (").next().unwrap_or("").to_string();
        return Err(Fail::with_sig(&sig, format!("a value is {b}{at}; {} such records", bad.len())));
    }
    if live != 0 {
        return Err(Fail::with_sig("leak", format!("{live} values are never dropped{at}")));
    }
    Ok((calls, out.err()))
}

/// Run the body without a fault, then with user code panicking at some of its calls, and check
/// each time that every value was dropped exactly once.
pub fn account(body: impl Fn(), fracs: &[u16], obs: &mut Obs) -> Res {
    let body = &body as &dyn Fn();
    let (calls, p) = once(body, None)?;
    if let Some(p) = p {
        return Err(Fail::with_sig("panic", format!("panics although user code does not: {p}")));
    }
    let mut fired = 0;
    for f in fracs {
        if calls == 0 {
            break;
        }
        let (_, p) = once(body, Some((calls * *f as u64) >> 16))?;
        fired += p.is_some() as usize;
    }
    obs.nontrivial(fired > 0);
    obs.tag_if(fired > 0, "user code panicked");
    obs.tag_if(calls > 20, "more than 20 calls of user code");
    Ok(())
}
