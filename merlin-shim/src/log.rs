use std::cell::RefCell;
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Event {
    Append(&'static [u8], Vec<u8>),
    Challenge(&'static [u8], Vec<u8>),
}
thread_local! { static LOG: RefCell<Option<Vec<Event>>> = RefCell::new(None); }
pub fn start() {
    LOG.with(|l| *l.borrow_mut() = Some(vec![]));
}
pub fn stop() -> Vec<Event> {
    LOG.with(|l| l.borrow_mut().take().unwrap_or_default())
}
pub(crate) fn record(e: Event) {
    LOG.with(|l| {
        if let Some(v) = l.borrow_mut().as_mut() {
            v.push(e)
        }
    });
}
